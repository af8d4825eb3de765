//! C13: parsing is read-only, repeatable and leaves nothing behind.  C15: clones.

use super::grammar::same_tokens;
use super::matching::*;
use super::{Env, Verdict};
use crate::doc::{gen_tests, FPat};
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::matcher::{Matcher, MatcherFactory};

pub const RULE13: &str = "a case is a matcher and a history of parses of matching and non-matching messages, repeated, interleaved and at changing log levels, with the live heap bytes read before and after each parse and standard output and error captured; non-trivial when its set has at least two patterns, a message matches and another does not, and it was not seen before";
pub const RULE15: &str = "a case is a history of clone, add, parse and drop over several generations of matchers, every live matcher being compared after each step with one freshly built from its own history; non-trivial when at least two matchers of different histories were alive at once and the history was not seen before";

fn history_case(prop: &str, t: &mut Tape) -> Case {
    let mut c = gen_case(prop, t);
    c.pats.truncate(60);
    c.msgs.truncate(16);
    c
}

pub fn read_only(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let mut c = history_case("C13", t);
    // the same place in memory may hold one message after the other, of one length too
    for _ in 0..t.range(0, 4) {
        let m: Vec<char> = t.pick(&c.msgs).chars().collect();
        if m.is_empty() || m.len() > 2000 {
            continue;
        }
        let (i, j) = (t.below(m.len()), t.below(m.len()));
        let mut v = m.clone();
        if t.chance(1, 2) {
            v.swap(i, j);
        } else if v[i].len_utf8() == v[j].len_utf8() {
            v[i] = v[j];
        }
        c.msgs.push(v.into_iter().collect());
    }
    let one_place = t.chance(1, 2);
    for k in KINDS.iter() {
        // the very first construction may set up lasting things of the libraries used
        {
            let m = build(*k, &c.pats)?;
            tgt(|| drop(m));
        }
        let before = live_bytes();
        let m = build(*k, &c.pats)?;
        let fresh: Vec<Option<Obs>> = {
            // one fresh matcher for all first answers would already be a history
            let many = c.pats.len() <= 12;
            let one = build(*k, &c.pats)?;
            let mut v = Vec::new();
            for msg in &c.msgs {
                if many {
                    let f = build(*k, &c.pats)?;
                    v.push(observe(&*f, msg));
                    tgt(|| drop(f));
                } else {
                    v.push(observe(&*one, msg));
                }
            }
            tgt(|| drop(one));
            v
        };
        let small = c.pats.len() <= 8 && c.msgs.iter().all(|m| m.len() < 500);
        let shown = if small { Some(tgt(|| format!("{:?}", m))) } else { None };
        let fail = |e: String| -> Verdict { Err(format!("{:?}: {}\n patterns:\n{} messages: {:?}\n", k, e, describe(&c.pats), c.msgs)) };
        // the history
        let n = size(t, 30, 300);
        let mut verdict = Ok(());
        let loud = t.chance(1, 5);
        let hist: Vec<(usize, usize)> = (0..n)
            .map(|_| {
                let i = t.below(c.msgs.len());
                let level = if t.chance(1, 4) { t.below(6) } else { 0 };
                (i, level)
            })
            .collect();
        let mut place = String::with_capacity(c.msgs.iter().map(|m| m.len()).max().unwrap_or(0));
        if one_place {
            st.inc("histories_of_messages_at_one_place");
        }
        let mut run = || -> Verdict {
            for (step, &(i, level)) in hist.iter().enumerate() {
                set_level(level);
                let now = if one_place {
                    place.clear();
                    place.push_str(&c.msgs[i]);
                    observe(&*m, &place)
                } else {
                    observe(&*m, &c.msgs[i])
                };
                set_level(0);
                st.inc("parses_in_histories");
                if !same(&now, &fresh[i]) {
                    return fail(format!(
                        "parse {} of the history (message {:?}, log level {}) says {}, on a fresh matcher it is {}",
                        step, c.msgs[i], level, show(&now, &c.pats), show(&fresh[i], &c.pats)
                    ));
                }
            }
            Ok(())
        };
        if loud {
            let (r, out) = captured(&env.scratch, &mut run);
            verdict = verdict.and(r);
            st.inc("histories_with_captured_output");
            if verdict.is_ok() && !out.is_empty() {
                verdict = fail(format!("parsing wrote to standard output or error: {:?}", String::from_utf8_lossy(&out)));
            }
        } else {
            verdict = verdict.and(run());
        }
        set_level(0);
        verdict?;
        if let Some(s) = shown {
            st.inc("states_compared");
            let now = tgt(|| format!("{:?}", m));
            if s != now {
                return fail(format!("the matcher changed by parsing: {} / {}", s, now));
            }
        }
        // memory kept by a parse: two messages first, the longest among them, then each one once
        drop(place);
        let longest = (0..c.msgs.len()).max_by_key(|i| c.msgs[*i].len()).unwrap_or(0);
        let variants: Vec<String> = c.msgs.iter().map(|s| format!("{}{}", s, if t.chance(1, 3) { "" } else { "~" })).collect();
        for level in [0usize, 5].iter() {
            set_level(*level);
            tgt(|| drop(m.parse(&c.msgs[longest])));
            tgt(|| drop(m.parse(&c.msgs[0])));
            for msg in c.msgs.iter().chain(variants.iter()) {
                if msg.len() > c.msgs[longest].len() {
                    continue;
                }
                let a = live_bytes();
                tgt(|| drop(m.parse(msg)));
                let b = live_bytes();
                st.inc("parses_with_heap_watched");
                if b != a {
                    set_level(0);
                    return fail(format!("after parsing {:?} and dropping the result, {} more bytes are live", msg, b - a));
                }
            }
            set_level(0);
        }
        // dropping a matcher
        drop(variants);
        drop(hist);
        record(st, &c.pats, &c.msgs, &fresh);
        drop(fresh);
        tgt(|| drop(m));
        let _ = before;
        let kept = {
            let b = live_bytes();
            let m = build(*k, &c.pats)?;
            for msg in &c.msgs {
                tgt(|| drop(m.parse(msg)));
            }
            tgt(|| drop(m));
            live_bytes() - b
        };
        st.inc("matchers_dropped_with_heap_watched");
        if kept != 0 {
            return Err(format!("{:?}: after dropping a matcher, {} bytes of it are still live\n patterns:\n{} messages: {:?}\n", k, kept, describe(&c.pats), c.msgs));
        }
    }
    Ok(())
}

enum Either {
    Trie(<TrieF as MatcherFactory>::Matcher),
    Sa(<SaF as MatcherFactory>::Matcher),
    Boxed(Box<dyn Matcher>),
}

impl Either {
    fn get(&self) -> &dyn Matcher {
        match *self {
            Either::Trie(ref m) => m,
            Either::Sa(ref m) => m,
            Either::Boxed(ref m) => &**m,
        }
    }
    fn get_mut(&mut self) -> &mut dyn Matcher {
        match *self {
            Either::Trie(ref mut m) => m,
            Either::Sa(ref mut m) => m,
            Either::Boxed(ref mut m) => &mut **m,
        }
    }
    fn copy(&self, boxed: bool) -> Either {
        tgt(|| match *self {
            Either::Trie(ref m) if !boxed => Either::Trie(m.clone()),
            Either::Sa(ref m) if !boxed => Either::Sa(m.clone()),
            ref x => Either::Boxed(x.get().boxed_clone()),
        })
    }
}

pub fn clones(t: &mut Tape, st: &mut Stats) -> Verdict {
    if t.chance(1, 6) {
        return small_clones(t, st);
    }
    let mut c = history_case("C15", t);
    c.pats.truncate(30);
    let kind = *t.pick(&KINDS);
    let first = tgt(|| match kind {
        Kind::Trie => Either::Trie(TrieF::new_matcher()),
        Kind::Sa => Either::Sa(SaF::new_matcher()),
    });
    let mut live: Vec<(usize, Either, Vec<usize>)> = vec![(0, first, Vec::new())];
    let mut names = 1;
    let mut log = String::new();
    let mut different = false;
    // a few patterns to begin with
    let k = t.below(c.pats.len() + 1);
    for i in 0..k {
        let x = build_pattern(&c.pats[i], None)?;
        tgt(|| live[0].1.get_mut().add_pattern(x));
        live[0].2.push(i);
    }
    log.push_str(&format!("m0 with patterns 0..{}; ", k));
    let steps = size(t, 8, 40).max(2);
    for _ in 0..steps {
        if live.is_empty() {
            break;
        }
        match t.weighted(&[4, 5, 1]) {
            0 if live.len() < 6 => {
                let i = t.below(live.len());
                let boxed = t.chance(1, 2);
                let m = live[i].1.copy(boxed);
                let h = live[i].2.clone();
                log.push_str(&format!("m{} = clone of m{}; ", names, live[i].0));
                live.push((names, m, h));
                names += 1;
                st.inc("clones_made");
            }
            2 if live.len() > 1 => {
                let i = t.below(live.len());
                let x = live.remove(i);
                log.push_str(&format!("drop m{}; ", x.0));
                tgt(|| drop(x));
                st.inc("matchers_dropped");
            }
            _ => {
                let i = t.below(live.len());
                let j = t.below(c.pats.len());
                let x = build_pattern(&c.pats[j], None)?;
                log.push_str(&format!("add #{} to m{}; ", j, live[i].0));
                tgt(|| live[i].1.get_mut().add_pattern(x));
                live[i].2.push(j);
                st.inc("additions");
            }
        }
        if live.len() > 1 && live.iter().any(|x| x.2 != live[0].2) {
            different = true;
        }
        st.max("max_matchers_alive", live.len() as u64);
        for x in &live {
            let pats: Vec<Pat> = x.2.iter().map(|i| c.pats[*i].clone()).collect();
            let r = build(kind, &pats)?;
            for msg in c.msgs.iter().take(8) {
                let a = observe(x.1.get(), msg);
                let b = observe(&*r, msg);
                st.inc("answers_compared");
                if !same(&a, &b) {
                    return Err(format!(
                        "{:?}: after the history {}\n m{} (patterns added: {:?}) says for {:?}: {}\n a fresh matcher with the same additions: {}\n patterns:\n{}\n",
                        kind, log, x.0, x.2, msg, show(&a, &c.pats), show(&b, &c.pats), describe(&c.pats)
                    ));
                }
            }
        }
    }
    if different {
        st.case(&(&log, c.pats.iter().map(|p| &p.items).collect::<Vec<_>>()));
    }
    st.sample(|| format!("{:?}: {}", kind, log));
    tgt(|| drop(live));
    Ok(())
}

/// clones of parsers, compiled patterns and patterns
fn small_clones(t: &mut Tape, st: &mut Stats) -> Verdict {
    let pr = Profile { meta: true, max_pats: 3, ..Profile::default() };
    let mut po = pools(t, &pr);
    let pats = gen_pats(t, &mut po, &pr);
    let p = match pats.get(0) {
        Some(p) => p.clone(),
        None => return Ok(()),
    };
    // a parser
    let mp = gen_parser(t, &po);
    let mut a = build_parser(&mp);
    let b = tgt(|| a.boxed_clone());
    if tgt(|| a.hash_os() != b.hash_os()) {
        return Err(format!("{:?}: its clone is told apart from it\n", mp));
    }
    tgt(|| a.set_name(Some("changed".into())));
    let mut texts = super::grammar::probes(t, &mp, &po.alpha);
    texts.extend(super::grammar::probe_limits(&mp));
    for s in &texts {
        super::grammar::check_parser(&mp, &*b, s).map_err(|e| format!("a clone: {}\n", e))?;
    }
    tgt(|| drop(a));
    for s in &texts {
        super::grammar::check_parser(&mp, &*b, s).map_err(|e| format!("a clone whose original is gone: {}\n", e))?;
    }
    st.inc("parser_clones");
    // several generations of one parser, each set up anew from time to time
    let mut gens: Vec<(P, Concrete)> = vec![(mp.clone(), Concrete::new(&mp))];
    let mut log = format!("p0 = {:?}; ", mp);
    for _ in 0..t.range(2, 5) {
        let i = t.below(gens.len());
        if gens.len() < 2 || t.chance(1, 2) {
            let x = tgt(|| gens[i].1.clone());
            let p = gens[i].0.clone();
            log.push_str(&format!("p{} = clone of p{}; ", gens.len(), i));
            gens.push((p, x));
        } else {
            let mut p = gen_parser(t, &po);
            for _ in 0..8 {
                if std::mem::discriminant(&p) == std::mem::discriminant(&gens[i].0) {
                    break;
                }
                p = gen_parser(t, &po);
            }
            if std::mem::discriminant(&p) != std::mem::discriminant(&gens[i].0) {
                continue;
            }
            gens[i].1.set_up(&p);
            log.push_str(&format!("p{} set up as {:?}; ", i, p));
            gens[i].0 = p;
        }
        let p = gens[t.below(gens.len())].0.clone();
        let mut texts = super::grammar::probes(t, &p, &po.alpha);
        texts.extend(super::grammar::probe_limits(&p).into_iter().take(6));
        for (j, g) in gens.iter().enumerate() {
            for s in &texts {
                super::grammar::check_parser(&g.0, g.1.parser(), s).map_err(|e| format!("after {} p{}: {}\n", log, j, e))?;
                st.inc("parses_by_reset_clones");
            }
        }
    }
    tgt(|| drop(gens));
    // a compiled pattern
    let x = compile(&p)?;
    let mut y = tgt(|| x.clone());
    if !y.is_empty() {
        tgt(|| {
            y.pop();
        });
    }
    same_tokens(t, &x, &p.items, true).map_err(|e| format!("a compiled pattern whose clone was shortened: {}\n", e))?;
    let y = tgt(|| x.clone());
    tgt(|| drop(x));
    same_tokens(t, &y, &p.items, true).map_err(|e| format!("a clone of a compiled pattern: {}\n", e))?;
    st.inc("compiled_pattern_clones");
    // a pattern with everything
    let tests = gen_tests(t, &po, &p);
    let f = FPat { pat: p.clone(), text: String::new(), uuid_text: String::new(), tests };
    let tms = f.tests.as_ref().map(|v| v.iter().map(super::sources::to_tm).collect());
    let mut a = build_pattern(&p, tms)?;
    let mut b = tgt(|| a.clone());
    if t.chance(1, 2) {
        tgt(|| {
            a.pop_test_message();
            a.pop_first_token();
            a.set_pattern(Vec::new());
            drop(a);
        });
        super::files::same_pattern(t, &mut b, &f).map_err(|e| format!("a clone of a pattern: {}\n", e))?;
    } else {
        tgt(|| {
            b.pop_test_message();
            b.pop_first_token();
            b.set_pattern(Vec::new());
            drop(b);
        });
        super::files::same_pattern(t, &mut a, &f).map_err(|e| format!("a pattern whose clone was changed: {}\n", e))?;
    }
    st.inc("pattern_clones");
    st.case(&(&p.items, &mp, &texts));
    Ok(())
}
