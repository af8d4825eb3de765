//! C06: nothing crashes, and every string handed back is sound.

use super::files::{file, strict};
use super::grammar::{gen_text, soup};
use super::matching::*;
use super::{Env, Verdict};
use crate::doc::*;
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::grammar;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::{Matcher, Pattern, PatternLoader};

pub const RULE6: &str = "a case is one hostile input: pattern sets built through the API with empty, adjacent and multi-byte tokens and messages sharing bytes with them, arbitrary pattern text, arbitrary or damaged JSON and well-formed YAML as pattern files, or a message of up to megabytes on a small stack, run under AddressSanitizer with overflow and unsafe-precondition checks; non-trivial when the input was not seen before and got past the first check of the library (a match, a compiled pattern, a loaded file or an error from inside a construct)";

fn sound(msg: &str, s: &str) -> bool {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return false;
    }
    let (p, b) = (s.as_ptr() as usize, msg.as_ptr() as usize);
    if s.is_empty() {
        return true;
    }
    // cut out of the message, at character boundaries
    p >= b && p + s.len() <= b + msg.len() && msg.is_char_boundary(p - b) && msg.is_char_boundary(p - b + s.len())
}

fn parse_soundly(m: &dyn Matcher, msg: &str, st: &mut Stats) -> Result<bool, String> {
    let bad = tgt(|| match m.parse(msg) {
        None => Ok(false),
        Some(r) => {
            for (k, v) in r.values() {
                if !sound(msg, v) {
                    return Err(format!("the value of {:?} is not a sound piece of the message: bytes {:?}", k, v.as_bytes()));
                }
                if std::str::from_utf8(k.as_bytes()).is_err() {
                    return Err("a key is not UTF-8".to_owned());
                }
            }
            let s = format!("{:?}", r);
            Ok(!s.is_empty())
        }
    })
    .map_err(|e| format!("message {:?}: {}\n", msg, e))?;
    st.inc("messages_parsed");
    if bad {
        st.inc("matches_observed");
    }
    Ok(bad)
}

/// token sequences only the API can build
fn odd_items(t: &mut Tape, po: &mut Pools) -> Vec<Item> {
    let n = size(t, 6, 40);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match t.below(8) {
            0 => Item::Lit(String::new()),
            1 | 2 => Item::Lit(po.alpha.text(t, 1)),
            3 => {
                let k = size(t, 4, 3000);
                Item::Lit(po.alpha.text(t, k))
            }
            4 => Item::Lit(any_char(t).to_string()),
            5 => Item::P(P::Greedy { end: if t.chance(1, 2) { Some(String::new()) } else { Some(any_char(t).to_string()) }, name: None }),
            6 => Item::P(P::Set { set: if t.chance(1, 3) { String::new() } else { any_char(t).to_string() }, min: limit(t), max: limit(t), name: Some("s".into()) }),
            _ => Item::P(gen_parser(t, po)),
        });
    }
    v
}

fn matchers(t: &mut Tape, st: &mut Stats) -> Verdict {
    let pr = Profile { max_pats: 8, ..Profile::default() };
    let mut po = pools(t, &pr);
    let mut pats: Vec<Pat> = gen_pats(t, &mut po, &pr);
    for i in 0..t.below(5) {
        let items = odd_items(t, &mut po);
        pats.push(Pat { items, grammar: false, name: None, uuid: uuid(t, 1000 + i), values: None, tags: None });
    }
    for i in (1..pats.len()).rev() {
        let j = i - t.below(i + 1);
        pats.swap(i, j);
    }
    if pats.is_empty() {
        return Ok(());
    }
    let mut msgs: Vec<String> = (0..t.range(3, 12)).map(|_| message(t, &pats, &po)).collect();
    msgs.push(String::new());
    for _ in 0..4 {
        let m = t.pick(&msgs).clone();
        msgs.push(mutate(t, &m, &po.alpha));
    }
    let n = size(t, 6, 400);
    msgs.push((0..n).map(|_| any_char(t)).collect());
    let mut hit = false;
    for k in KINDS.iter() {
        let mut m = new_matcher(*k);
        for p in &pats {
            let x = build_pattern(p, None)?;
            tgt(|| m.add_pattern(x));
            if pats.len() < 10 {
                hit |= parse_soundly(&*m, &msgs[0], st)?;
            }
        }
        for msg in &msgs {
            hit |= parse_soundly(&*m, msg, st).map_err(|e| format!("{:?}: {} patterns:\n{}", k, e, describe(&pats)))?;
        }
        if pats.len() < 10 {
            let s = tgt(|| format!("{:?}", m));
            if std::str::from_utf8(s.as_bytes()).is_err() {
                return Err("the rendering of a matcher is not UTF-8".into());
            }
            let c = tgt(|| m.boxed_clone());
            tgt(|| drop(m));
            for msg in msgs.iter().take(3) {
                parse_soundly(&*c, msg, st)?;
            }
        }
    }
    st.add("patterns_added", pats.len() as u64);
    st.max("max_message_bytes", msgs.iter().map(|m| m.len()).max().unwrap_or(0) as u64);
    st.sample(|| format!("patterns:\n{} messages {:?}", describe(&pats[..pats.len().min(3)]), &msgs[..2]));
    if hit {
        st.case(&(pats.iter().map(|p| &p.items).collect::<Vec<_>>(), &msgs));
    }
    Ok(())
}

fn text(t: &mut Tape, st: &mut Stats) -> Verdict {
    let s = match t.below(5) {
        0 => {
            let n = size(t, 20, 5000);
            (0..n).map(|_| any_char(t)).collect()
        }
        1 | 2 => soup(t),
        _ => gen_text(t),
    };
    let r = tgt(|| grammar::parser::pattern(&s));
    st.inc("pattern_texts");
    st.sample(|| format!("pattern text {:?}", s));
    match r {
        Ok(toks) => {
            for x in &toks {
                if let TokenType::Literal(ref l) = *x {
                    if std::str::from_utf8(l.as_bytes()).is_err() {
                        return Err(format!("pattern text {:?}: a literal is not UTF-8", s));
                    }
                }
            }
            tgt(|| format!("{:?}", toks));
            st.inc("texts_compiled");
            st.case(&s);
            let mut u = [0u8; 16];
            u[0] = 1;
            for k in KINDS.iter() {
                let mut m = new_matcher(*k);
                let c = tgt(|| toks.clone());
                tgt(|| {
                    let mut p = Pattern::with_uuid(to_uuid(&u));
                    p.set_pattern(c);
                    m.add_pattern(p)
                });
                parse_soundly(&*m, &s, st)?;
                parse_soundly(&*m, "", st)?;
            }
        }
        Err(e) => {
            let shown = tgt(|| format!("{} {:?}", e, e));
            if e.offset > 0 {
                st.case(&s);
            }
            if std::str::from_utf8(shown.as_bytes()).is_err() {
                return Err(format!("pattern text {:?}: the printed error is not UTF-8", s));
            }
        }
    }
    Ok(())
}

fn any_doc(t: &mut Tape, depth: usize, yaml: bool) -> Doc {
    match t.below(if depth > 6 { 3 } else { 6 }) {
        0 | 1 => Doc::S(match t.below(4) {
            0 => soup(t),
            1 => uuid_str(&uuid(t, 0)),
            _ => (0..t.range(0, 6)).map(|_| any_char(t)).collect(),
        }),
        2 => {
            let s = if yaml {
                *t.pick(&["1", "-5", "1.5", "true", "false", "null", "~", "0x10", "1e400", "99999999999999999999", "abc"])
            } else {
                *t.pick(&["1", "-5", "1.5", "true", "false", "null", "1e400", "-0", "99999999999999999999", "18446744073709551616", "1e-400", "0.1e+5"])
            };
            Doc::Raw(s.to_owned())
        }
        3 => Doc::L((0..t.range(0, 3)).map(|_| any_doc(t, depth + 1, yaml)).collect()),
        _ => Doc::M(
            (0..t.range(0, 4))
                .map(|_| {
                    let k = match t.below(8) {
                        0 => (0..t.range(0, 3)).map(|_| any_char(t)).collect(),
                        _ => t.pick(&["patterns", "name", "uuid", "pattern", "values", "tags", "test_messages", "message"]).to_string(),
                    };
                    (k, any_doc(t, depth + 1, yaml))
                })
                .collect(),
        ),
    }
}

fn damage(t: &mut Tape, s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..t.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = t.below(b.len());
        match t.below(5) {
            0 => b[i] = t.below(256) as u8,
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *t.pick(&[b'{', b'}', b'[', b']', b'"', b',', b':', b'\\', 0u8, 0xff, b'u', b'9', b'-', b'n'])),
            3 => b.truncate(i),
            _ => {
                let n = t.range(1, 20).min(b.len() - i);
                let c: Vec<u8> = b[i..i + n].to_vec();
                for (k, x) in c.into_iter().enumerate() {
                    b.insert(i + k, x);
                }
            }
        }
    }
    b
}

fn files(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let yaml = t.chance(2, 5);
    let fmt = if yaml { Format::Yaml } else { Format::Json };
    let content: Vec<u8> = match t.below(3) {
        0 => {
            let d = any_doc(t, 0, yaml);
            let d = if t.chance(1, 2) { Doc::M(vec![("patterns".into(), d)]) } else { d };
            write(t, &d, fmt).into_bytes()
        }
        1 => {
            // a good file in which one part is anything
            let (pats, _) = gen_file(t, true);
            let mut d = to_doc(t, &pats);
            let x = any_doc(t, 2, yaml);
            if let Doc::M(ref mut m) = d {
                if let Doc::L(ref mut l) = m[0].1 {
                    if !l.is_empty() {
                        let i = t.below(l.len());
                        if let Doc::M(ref mut p) = l[i] {
                            let j = t.below(p.len());
                            p[j].1 = x;
                        }
                    }
                }
            }
            write(t, &d, fmt).into_bytes()
        }
        _ => {
            let (pats, _) = gen_file(t, true);
            let d = to_doc(t, &pats);
            let s = write(t, &d, fmt);
            if yaml {
                s.into_bytes()
            } else {
                damage(t, &s)
            }
        }
    };
    if content.len() > 200_000 {
        return Ok(());
    }
    let ext = extension(t, fmt);
    let f = file(env, t, ext, &content);
    st.inc(if yaml { "yaml_files" } else { "json_files" });
    st.sample(|| format!("file .{} {:?}", ext, String::from_utf8_lossy(&content)));
    let level = if t.chance(1, 4) { 5 } else { 0 };
    let r = logged(level, || tgt(|| PatternLoader::load_file(&f.0))).0;
    match r {
        Ok(x) => {
            st.inc("files_loaded");
            st.case(&content);
            tgt(|| {
                for p in x.patterns() {
                    format!("{:?}", p);
                }
            });
            for k in KINDS.iter() {
                match strict(*k, &f.0) {
                    Ok(m) => {
                        parse_soundly(&*m, "a", st)?;
                    }
                    Err(e) => {
                        tgt(|| format!("{} {:?}", e, e));
                    }
                }
                let m = tgt(|| match *k {
                    Kind::Trie => PatternLoader::from_file_ignore_errors::<TrieF>(&f.0).map(|m| Box::new(m) as Box<dyn Matcher>),
                    Kind::Sa => PatternLoader::from_file_ignore_errors::<SaF>(&f.0).map(|m| Box::new(m) as Box<dyn Matcher>),
                });
                if let Ok(m) = m {
                    parse_soundly(&*m, "a1 b", st)?;
                }
            }
        }
        Err(e) => {
            let shown = tgt(|| format!("{} {:?} {:?}", e, e, std::error::Error::source(&e).map(|x| x.to_string())));
            if std::str::from_utf8(shown.as_bytes()).is_err() {
                return Err("a printed error is not UTF-8".into());
            }
            st.inc("files_rejected");
            if content.len() > 30 {
                st.case(&content);
            }
        }
    }
    if !yaml && t.chance(1, 4) {
        if let Ok(s) = std::str::from_utf8(&content) {
            tgt(|| format!("{:?}", Pattern::from_json(s).map_err(|e| e.to_string())));
        }
    }
    Ok(())
}

fn long(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let pr = Profile { max_pats: 4, max_items: 4, ..Profile::default() };
    let mut po = pools(t, &pr);
    let mut pats = gen_pats(t, &mut po, &pr);
    pats.truncate(8);
    for p in pats.iter_mut() {
        p.items.truncate(6);
    }
    if pats.is_empty() {
        return Ok(());
    }
    let p = t.pick(&pats).clone();
    let n = if env.tier == "thorough" { *t.pick(&[100_000usize, 1_000_000, 5_000_000]) } else { *t.pick(&[100_000usize, 400_000, 1_000_000]) };
    let msg = super::work::long_message(t, &p, &po, n);
    st.max("max_long_message_bytes", msg.len() as u64);
    st.inc("long_messages_on_a_small_stack");
    st.case(&msg);
    let soundness = on_stack(512 * 1024, || -> Result<(u64, u64), String> {
        let mut st = Stats { off: false, ..Stats::default() };
        for k in KINDS.iter() {
            let m = build(*k, &pats)?;
            parse_soundly(&*m, &msg, &mut st).map_err(|_| "a value of a long message is not a sound piece of it".to_owned())?;
            tgt(|| drop(m));
        }
        Ok((1, 1))
    });
    soundness.map(|_| ())
}

pub fn run(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            set_level(0);
        }
    }
    let _off = Off;
    set_level(if t.chance(1, 3) { *t.pick(&[5usize, 5, 4, 3]) } else { 0 });
    match t.weighted(&[60, 50, 40, 1]) {
        0 => matchers(t, st),
        1 => text(t, st),
        2 => files(t, st, env),
        _ => long(t, st, env),
    }
}
