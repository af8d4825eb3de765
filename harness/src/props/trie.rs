//! C20: the literal level of the trie against a map.

use super::Verdict;
use crate::gen::*;
use crate::model::*;
use crate::rt::tgt;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::matcher::trie::node::interface::Entry;
use actiondb::matcher::trie::SuffixTree;
use actiondb::matcher::Pattern;
use std::collections::BTreeMap;

pub const RULE20: &str = "a case is a history of insertions of literals (extensions, prefixes and variants of each other) and parsers into one trie, with patterns and parsers attached to the nodes and look-ups of inserted, nearly inserted and foreign texts in between; non-trivial when at least three distinct literals are inserted of which two share a first character, and the history was not seen before";

#[derive(Default, Clone)]
struct Slot {
    /// the pattern that ends at this node
    uuid: Option<[u8; 16]>,
    /// a parser below it was added, and the pattern that ends there
    below: Option<[u8; 16]>,
}

fn pattern(u: &[u8; 16]) -> Pattern {
    Pattern::with_uuid(to_uuid(u))
}

fn uuid_of(e: Option<&Pattern>) -> Option<[u8; 16]> {
    e.map(|p| {
        let mut u = [0u8; 16];
        u.copy_from_slice(p.uuid().as_bytes());
        u
    })
}

fn related(t: &mut Tape, held: &[String], al: &Alpha, cap: usize) -> String {
    if held.is_empty() || t.chance(1, 6) {
        let n = size(t, 4, cap);
        return al.text(t, n);
    }
    let b = t.pick(held).clone();
    match t.below(6) {
        0 | 1 => {
            let n = size(t, 3, cap);
            b + &al.text(t, n)
        }
        2 | 3 => {
            let cs: Vec<char> = b.chars().collect();
            let k = t.range(0, cs.len());
            let p: String = cs[..k].iter().collect();
            let n = t.range(0, 2);
            p + &al.text(t, n)
        }
        4 => mutate(t, &b, al),
        _ => b,
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Verdict {
    let al = alpha(t);
    let mut po = pools(t, &Profile::default());
    po.alpha = al.clone();
    let mut tree = tgt(|| SuffixTree::new());
    let mut map: BTreeMap<String, Slot> = BTreeMap::new();
    let mut held: Vec<String> = Vec::new();
    let mut parsers: Vec<(P, Option<[u8; 16]>)> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let empties = t.chance(1, 3);
    // many first characters at one place
    let wide = if t.chance(1, 12) { Some((t.below(5), t.range(30, 120), t.range(0, 3))) } else { None };
    let steps = if wide.is_some() { t.range(40, 200) } else { size(t, 14, 300) };
    let cap = if steps > 60 { 12 } else { 3000 };
    for step in 0..steps {
        match t.weighted(&[6, 3, 2, 1]) {
            0 => {
                let mut l = related(t, &held, &al, cap);
                if let Some((base, n, tail)) = wide {
                    if t.chance(4, 5) {
                        let i = t.below(n);
                        l = fan_char(t, base, i).to_string();
                        let k = t.range(0, tail);
                        l.push_str(&al.text(t, k));
                    }
                }
                if l.is_empty() && !empties {
                    continue;
                }
                let attach = t.below(5);
                let u = uuid(t, step);
                let known = map.contains_key(&l);
                let slot = map.entry(l.clone()).or_default();
                log.push(format!("insert {:?}{}", l, ["", " and set its pattern", " and add a parser", "", ""][attach]));
                let (literal, has_value, pat) = tgt(|| {
                    let n = tree.insert_literal(&l);
                    let r = (n.literal().to_owned(), n.has_value(), uuid_of(n.pattern()));
                    if attach == 1 {
                        n.set_pattern(Some(pattern(&u)));
                    } else if attach == 2 {
                        let mut p = pattern(&u);
                        p.set_pattern(compile_api(&[Item::P(P::Int { min: None, max: None, name: None })]));
                        n.insert(p);
                    }
                    r
                });
                st.inc(if known { "literals_inserted_again" } else { "literals_inserted" });
                if pat != slot.uuid {
                    return Err(format!(
                        "inserting {:?} ({}) gives back a node with pattern {:?} instead of {:?}\n after {}\n",
                        l, if known { "again" } else { "for the first time" }, pat.map(|u| uuid_str(&u)), slot.uuid.map(|u| uuid_str(&u)), log.join("; ")
                    ));
                }
                if !l.ends_with(literal.as_str()) || !has_value {
                    return Err(format!("inserting {:?} gives back the node of {:?} (has_value {})\n after {}\n", l, literal, has_value, log.join("; ")));
                }
                if attach == 1 {
                    slot.uuid = Some(u);
                } else if attach == 2 {
                    slot.below = Some(u);
                }
                if !known {
                    held.push(l);
                }
            }
            1 => {
                let l = related(t, &held, &al, cap);
                look_up(&mut tree, &l, &map, &held, st).map_err(|e| format!("{}\n after {}\n", e, log.join("; ")))?;
            }
            2 => {
                // a parser at the root
                let p = if !parsers.is_empty() && t.chance(1, 2) {
                    let mut p = t.pick(&parsers).0.clone();
                    if t.chance(1, 2) {
                        vary(t, &mut p);
                    }
                    p
                } else {
                    gen_parser(t, &po)
                };
                let key = plain(&p);
                let at = parsers.iter().position(|x| plain(&x.0) == key);
                let u = uuid(t, step);
                let set = t.chance(1, 2);
                log.push(format!("insert parser {:?}{}", p, if set { " and set its pattern" } else { "" }));
                let b = if t.chance(1, 3) { rebuild_parser(t, &p) } else { build_parser(&p) };
                let (got, name) = tgt(|| {
                    let n = tree.insert_parser(b);
                    let r = (uuid_of(n.pattern()), n.parser().name().map(|s| s.to_owned()));
                    if set {
                        n.set_pattern(Some(pattern(&u)));
                    }
                    r
                });
                let want = at.map_or(None, |i| parsers[i].1);
                st.inc(if at.is_some() { "parsers_inserted_again" } else { "parsers_inserted" });
                if got != want || name.as_ref().map(|s| s.as_str()) != p.name() {
                    return Err(format!(
                        "inserting the parser {:?} ({}) gives back a node named {:?} with pattern {:?} instead of {:?}\n after {}\n",
                        p, if at.is_some() { "again" } else { "for the first time" }, name, got.map(|u| uuid_str(&u)), want.map(|u| uuid_str(&u)), log.join("; ")
                    ));
                }
                match at {
                    Some(i) => {
                        if set {
                            parsers[i].1 = Some(u);
                        }
                    }
                    None => parsers.push((p, if set { Some(u) } else { None })),
                }
            }
            _ => {
                if t.chance(1, 3) {
                    log.push("go on with a clone".into());
                    tree = tgt(|| tree.clone());
                    st.inc("clones");
                }
            }
        }
        let leaf = tgt(|| tree.is_leaf());
        if leaf != (map.is_empty() && parsers.is_empty()) {
            return Err(format!("is_leaf() is {} after {}\n", leaf, log.join("; ")));
        }
    }
    // everything is still there, and nothing else
    for l in held.clone() {
        look_up(&mut tree, &l, &map, &held, st).map_err(|e| format!("{}\n after {}\n", e, log.join("; ")))?;
        let mut cut: Vec<usize> = l.char_indices().map(|x| x.0).collect();
        if cut.len() > 12 {
            cut = (0..12).map(|_| *t.pick(&cut)).collect();
        }
        for k in cut {
            look_up(&mut tree, &l[..k], &map, &held, st).map_err(|e| format!("{}\n after {}\n", e, log.join("; ")))?;
        }
        let l2 = format!("{}{}", l, al.ch(t));
        look_up(&mut tree, &l2, &map, &held, st).map_err(|e| format!("{}\n after {}\n", e, log.join("; ")))?;
    }
    for (l, s) in &map {
        let got = tgt(|| {
            let n = tree.insert_literal(l);
            let below = n.node().and_then(|x| x.parse("0")).map(|r| uuid_of(Some(r.pattern())));
            (uuid_of(n.pattern()), below.unwrap_or(None))
        });
        if got.0 != s.uuid {
            return Err(format!("in the end, the node of {:?} has pattern {:?} instead of {:?}\n after {}\n", l, got.0.map(|u| uuid_str(&u)), s.uuid.map(|u| uuid_str(&u)), log.join("; ")));
        }
        if s.below.is_some() && !map.keys().any(|k| k.len() > l.len() && k.starts_with(&format!("{}0", l))) && got.1 != s.below {
            return Err(format!("in the end, the parser below {:?} leads to {:?} instead of {:?}\n after {}\n", l, got.1.map(|u| uuid_str(&u)), s.below.map(|u| uuid_str(&u)), log.join("; ")));
        }
    }
    st.max("max_literals", map.len() as u64);
    st.max("max_parsers", parsers.len() as u64);
    let mut first: Vec<char> = map.keys().filter_map(|k| k.chars().next()).collect();
    first.sort();
    let shared = first.windows(2).any(|w| w[0] == w[1]);
    if map.len() >= 3 && shared {
        st.case(&log);
    }
    st.sample(|| log.join("; "));
    Ok(())
}

/// the parser with its characters in order, each once
fn plain(p: &P) -> P {
    let mut p = p.clone();
    if let P::Set { ref mut set, .. } = p {
        let mut c: Vec<char> = set.chars().collect();
        c.sort();
        c.dedup();
        *set = c.into_iter().collect();
    }
    p
}

fn vary(t: &mut Tape, p: &mut P) {
    match *p {
        P::Set { ref mut set, ref mut min, ref mut max, ref mut name } => match t.below(6) {
            5 => {
                // the first character moved to the end of the name
                let mut c: Vec<char> = set.chars().collect();
                c.sort();
                c.dedup();
                if c.len() > 1 {
                    let x = c.remove(0);
                    *set = c.into_iter().collect();
                    *name = Some(format!("{}{}", name.as_ref().map_or("", |n| &n[..]), x));
                }
            }
            0 => *min = limit(t),
            1 => *max = limit(t),
            2 => {
                set.pop();
                set.push(*t.pick(&['a', '0', '\u{e9}', ' ']));
            }
            3 => std::mem::swap(min, max),
            _ => *name = if t.chance(1, 3) { None } else { Some(ident(t)) },
        },
        P::Int { ref mut min, ref mut max, ref mut name } => match t.below(4) {
            0 => *min = limit(t),
            1 => *max = limit(t),
            2 => std::mem::swap(min, max),
            _ => *name = if t.chance(1, 3) { None } else { Some(ident(t)) },
        },
        P::Greedy { ref mut end, ref mut name } => match t.below(3) {
            0 => *end = None,
            1 => *end = Some(t.pick(&["a", " ", "", "\u{e9}", "ab"]).to_string()),
            _ => *name = if t.chance(1, 3) { None } else { Some(ident(t)) },
        },
    }
}

fn look_up(tree: &mut SuffixTree, l: &str, map: &BTreeMap<String, Slot>, held: &[String], st: &mut Stats) -> Result<(), String> {
    let a = tgt(|| tree.lookup_literal(l).map(|_| ()).map_err(|x| x.1));
    let b = tgt(|| tree.lookup_literal_mut(l).map(|_| ()).map_err(|x| x.1));
    let want = map.contains_key(l);
    st.inc(if want { "lookups_of_inserted_literals" } else { "lookups_of_other_texts" });
    if a != b {
        return Err(format!("lookup_literal({:?}) is {:?}, lookup_literal_mut {:?}", l, a, b));
    }
    match a {
        Ok(()) if want => Ok(()),
        Ok(()) => Err(format!("{:?} is found though it was never inserted", l)),
        Err(_) if want => Err(format!("{:?} is not found though it was inserted", l)),
        Err(rem) => {
            if rem > l.len() || !l.is_char_boundary(l.len() - rem) {
                return Err(format!("{:?} is not found, with {} bytes remaining", l, rem));
            }
            let head = &l[..l.len() - rem];
            if !head.is_empty() && !held.iter().any(|h| h.starts_with(head)) {
                return Err(format!("{:?} is not found, with {} bytes remaining, but no inserted literal begins with {:?}", l, rem, head));
            }
            Ok(())
        }
    }
}
