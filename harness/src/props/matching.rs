//! C01-C05, C14: pattern sets and messages against the reference model, between the two matchers
//! and over histories of additions.

use super::Verdict;
use crate::gen::*;
use crate::model::*;
use crate::rt::tgt;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;

pub const RULE: &str = "a case is a generated pattern set (alphabets from one to many characters, multi-byte characters that share bytes, patterns derived from each other, sizes with a heavy tail) and messages instantiated from the patterns, mutated or random; it counts as distinct and non-trivial when its pattern set and messages were not seen before, it has at least two patterns, and at least one message matches and one does not";

pub fn profile(prop: &str, t: &mut Tape) -> Profile {
    let mut pr = Profile::default();
    match t.below(6) {
        0 => {
            pr.max_pats = 3;
            pr.max_items = 8;
        }
        1 => {
            pr.max_pats = 20;
            pr.max_items = 3;
            pr.share = 8;
        }
        2 => {
            pr.max_pats = 14;
            pr.max_items = 2;
            pr.share = 4;
        }
        _ => (),
    }
    match prop {
        "C01" | "C02" | "C14" => pr.loose = t.chance(1, 3),
        "C03" => {
            pr.meta = true;
            pr.loose = t.chance(1, 3);
        }
        "C04" => {
            pr.share = 8;
            pr.dup = 15;
            pr.meta = t.chance(1, 3);
        }
        _ => (),
    }
    pr
}

pub struct Case {
    pub pats: Vec<Pat>,
    pub msgs: Vec<String>,
}

pub fn gen_case(prop: &str, t: &mut Tape) -> Case {
    let pr = profile(prop, t);
    let mut po = pools(t, &pr);
    let mut pats = gen_pats(t, &mut po, &pr);
    if t.chance(1, 12) {
        let add = realistic(t);
        let base = pats.len();
        for (i, items) in add.into_iter().enumerate() {
            pats.push(Pat { grammar: expressible(&items), items, name: None, uuid: uuid(t, base + i), values: None, tags: None });
        }
    }
    if pats.is_empty() {
        pats.push(Pat { items: vec![Item::Lit("a".into())], grammar: true, name: None, uuid: uuid(t, 0), values: None, tags: None });
    }
    if pats.len() > 1 && t.chance(1, 6) {
        // nothing forbids two patterns with one UUID; their names tell them apart
        for _ in 0..t.range(1, 3) {
            let i = t.below(pats.len());
            let j = t.below(pats.len());
            pats[i].uuid = pats[j].uuid;
            if t.chance(1, 2) {
                pats[i].items = pats[j].items.clone();
                pats[i].grammar = pats[j].grammar;
            }
        }
        let full = t.chance(1, 2);
        for (i, p) in pats.iter_mut().enumerate() {
            if full {
                let x = meta(t, &po, i);
                p.values = x.1;
                p.tags = x.2;
            }
            p.name = Some(format!("p{}", i));
        }
    }
    let n = t.range(3, 10) + pats.len().min(20);
    let mut msgs: Vec<String> = Vec::new();
    let mut total = 0;
    for _ in 0..n {
        let m = message(t, &pats, &po);
        total += m.len() + 1;
        msgs.push(m);
        if total > 80_000 || total * pats.len() > 4_000_000 {
            break;
        }
    }
    // once in a while a message far beyond the usual sizes
    if t.chance(1, 150) {
        let p = t.pick(&pats).clone();
        let mut s = instance(t, &p.items, &po.alpha);
        let k = *t.pick(&[65_535usize, 65_536, 70_000, 131_072]);
        let unit = po.alpha.text(t, 3);
        while s.len() < k && !unit.is_empty() {
            s.push_str(&unit);
        }
        msgs.push(s);
    }
    if t.chance(1, 4) {
        msgs.push(String::new());
    }
    Case { pats, msgs }
}

/// parts of real-life patterns
pub fn realistic(t: &mut Tape) -> Vec<Vec<Item>> {
    let set = |s: &str, n: &str| Item::P(P::Set { set: s.into(), min: None, max: None, name: Some(n.into()) });
    let int = |n: &str| Item::P(P::Int { min: None, max: None, name: Some(n.into()) });
    let greedy = |e: Option<&str>, n: &str| Item::P(P::Greedy { end: e.map(|x| x.into()), name: Some(n.into()) });
    let lit = |s: &str| Item::Lit(s.into());
    let user = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_";
    let ip = "0123456789.";
    let all = vec![
        vec![lit("Accepted password for "), set(user, "usracct.username"), lit(" from "), set(ip, "usracct.device"), lit(" port "), int("port"), lit(" ssh2")],
        vec![lit("Accepted "), greedy(Some(" for "), "method"), lit(" for "), set(user, "usracct.username"), lit(" from "), set(ip, "usracct.device"), lit(" port "), int("port"), lit(" ssh2")],
        vec![lit("Failed password for "), set(user, "usracct.username"), lit(" from "), set(ip, "ip"), lit(" port "), int("port"), lit(" ssh2")],
        vec![lit("Failed password for invalid user "), set(user, "usracct.username"), lit(" from "), set(ip, "ip"), lit(" port "), int("port"), lit(" ssh2")],
        vec![lit("Failed "), greedy(None, "rest")],
        vec![lit("pam_unix(sshd:session): session opened for user "), set(user, "user"), lit(" by (uid="), int("uid"), lit(")")],
        vec![lit("pam_unix(sshd:session): session closed for user "), set(user, "user")],
        vec![greedy(Some(": "), "prog"), lit(": "), greedy(None, "msg")],
        vec![int("a"), lit("."), int("b"), lit("."), int("c"), lit("."), int("d")],
    ];
    let k = t.range(2, all.len());
    let off = t.below(all.len());
    (0..k).map(|i| all[(i + off) % all.len()].clone()).collect()
}

pub fn build(k: Kind, pats: &[Pat]) -> Result<Box<dyn actiondb::Matcher>, String> {
    let mut m = new_matcher(k);
    for p in pats {
        let x = build_pattern(p, None)?;
        tgt(|| m.add_pattern(x));
    }
    Ok(m)
}

/// builds a matcher along some history: with parses in between, through clones, at some log level.
/// `watch` sees the matcher after some of the additions (with the number of patterns added so far).
pub fn build_along(
    t: &mut Tape,
    k: Kind,
    pats: &[Pat],
    st: &mut Stats,
    watch: &mut dyn FnMut(&mut Tape, &dyn actiondb::Matcher, usize, &mut Stats) -> Verdict,
) -> Result<Box<dyn actiondb::Matcher>, String> {
    if !t.chance(1, 3) {
        return build(k, pats);
    }
    let step = (pats.len() / 8).max(1);
    let clones = t.chance(1, 3);
    let levels = t.chance(1, 4);
    let mut m = new_matcher(k);
    let mut old: Vec<Box<dyn actiondb::Matcher>> = Vec::new();
    for (i, p) in pats.iter().enumerate() {
        let x = build_pattern(p, None)?;
        if levels {
            crate::rt::set_level(t.below(6));
        }
        tgt(|| m.add_pattern(x));
        if clones && t.chance(1, 4) {
            let c = tgt(|| m.boxed_clone());
            let original = std::mem::replace(&mut m, c);
            if t.chance(1, 2) && old.len() < 3 {
                old.push(original);
            } else {
                tgt(|| drop(original));
            }
            st.inc("continued_with_a_clone");
        }
        if (i + 1) % step == 0 && i + 1 < pats.len() {
            st.inc("watched_between_additions");
            let r = watch(t, &*m, i + 1, st);
            if r.is_err() {
                crate::rt::set_level(0);
                r?;
            }
        }
        crate::rt::set_level(0);
    }
    tgt(|| drop(old));
    Ok(m)
}

pub fn record(st: &mut Stats, pats: &[Pat], msgs: &[String], results: &[Option<Obs>]) {
    if st.off {
        return;
    }
    st.add("patterns_added", pats.len() as u64);
    st.add("messages_parsed", results.len() as u64);
    let hit = results.iter().filter(|r| r.is_some()).count();
    st.add("matches_observed", hit as u64);
    st.add("no_match_observed", (results.len() - hit) as u64);
    st.max("max_patterns_in_a_matcher", pats.len() as u64);
    st.max("max_message_bytes", msgs.iter().map(|m| m.len()).max().unwrap_or(0) as u64);
    st.max("max_tokens_in_a_pattern", pats.iter().map(|p| p.items.len()).max().unwrap_or(0) as u64);
    st.max(
        "max_literal_bytes",
        pats.iter()
            .flat_map(|p| p.items.iter())
            .map(|i| match *i {
                Item::Lit(ref l) => l.len(),
                _ => 0,
            })
            .max()
            .unwrap_or(0) as u64,
    );
    st.add("multibyte_messages", msgs.iter().filter(|m| !m.is_ascii()).count() as u64);
    if pats.len() >= 2 && hit > 0 && hit < results.len() {
        let key: (Vec<&Vec<Item>>, &[String]) = (pats.iter().map(|p| &p.items).collect(), msgs);
        st.case(&key);
    }
    st.sample(|| {
        let i = results.iter().position(|r| r.is_some()).unwrap_or(0);
        format!("patterns:\n{}message {:?} -> {}", describe(&pats[..pats.len().min(4)]), msgs.get(i), show(&results[i], pats))
    });
}

fn check(prop: &str, k: Kind, pats: &[Pat], items: &[Vec<Item>], m: &dyn actiondb::Matcher, msg: &str, got: &Option<Obs>, st: &mut Stats) -> Verdict {
    let fail = |what: String| -> Verdict {
        Err(format!("{:?}: {}\n patterns (in the order added):\n{} message: {:?}\n result: {}\n", k, what, describe(pats), msg, show(got, pats)))
    };
    match prop {
        "C01" => {
            match *got {
                None => (),
                Some(ref o) => match which(pats, o) {
                    None => return fail("the reported pattern was never added".into()),
                    Some(i) => {
                        if match_items(&pats[i].items, msg).is_none() {
                            return fail(format!("pattern #{} is reported, but it does not match the message", i));
                        }
                        st.inc("reported_matches_confirmed");
                    }
                },
            }
            if got.is_none() && pats.iter().all(|p| match_items(&p.items, msg).is_none()) {
                st.inc("rejections_confirmed");
            }
        }
        "C02" => {
            let n = pats.iter().filter(|p| match_items(&p.items, msg).is_some()).count();
            if n > 0 {
                st.inc("matchable_messages");
                if n > 1 {
                    st.inc("messages_several_patterns_match");
                }
                if got.is_none() {
                    let i = pats.iter().position(|p| match_items(&p.items, msg).is_some()).unwrap();
                    return fail(format!("pattern #{} matches the message, but no match is reported", i));
                }
            }
        }
        "C03" => {
            if let Some(ref o) = *got {
                if let Some(i) = which(pats, o) {
                    if let Some(caps) = match_items(&pats[i].items, msg) {
                        let want = captures(&pats[i].items, &caps);
                        st.max("max_keys_in_a_match", want.len() as u64);
                        if want.len() != o.values.len() || want.keys().any(|k| !o.values.contains_key(k)) {
                            return fail(format!("the keys should be {:?}", want.keys().collect::<Vec<_>>()));
                        }
                        for (key, &(a, b)) in &want {
                            let v = &o.values[key];
                            st.inc("values_compared");
                            if v.text != msg[a..b] {
                                return fail(format!("{} should be {:?} (bytes {}..{})", key, &msg[a..b], a, b));
                            }
                            if a < b && v.at != Some(a) {
                                return fail(format!("{} should be the slice at {}..{} of the message", key, a, b));
                            }
                        }
                        if want.is_empty() {
                            st.inc("matches_without_values");
                        }
                    }
                    let p = &pats[i];
                    let bad = tgt(|| {
                        let r = match m.parse(msg) {
                            Some(r) => r,
                            None => return Some("the match is gone the second time"),
                        };
                        let q = r.pattern();
                        if q.name() != p.name.as_ref().map(|x| x.as_str()) {
                            return Some("the pattern's name is not the one it was added with");
                        }
                        if q.values() != p.values.as_ref() {
                            return Some("the pattern's values are not the ones it was added with");
                        }
                        if q.tags() != p.tags.as_ref().map(|x| &x[..]) {
                            return Some("the pattern's tags are not the ones it was added with");
                        }
                        None
                    });
                    if let Some(b) = bad {
                        return fail(b.into());
                    }
                    st.inc("pattern_metadata_compared");
                }
            }
        }
        "C04" => {
            let w = winner(items, msg);
            let g = match *got {
                None => None,
                Some(ref o) => match which(pats, o) {
                    None => return fail("the reported pattern was never added".into()),
                    x => x,
                },
            };
            let n = pats.iter().filter(|p| match_items(&p.items, msg).is_some()).count();
            if n > 1 {
                st.inc("messages_several_patterns_match");
                st.max("max_patterns_matching_one_message", n as u64);
            }
            if w != g {
                return fail(format!("the winner should be {}", w.map_or("none".into(), |i| format!("#{}", i))));
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

pub fn against_model(prop: &str, t: &mut Tape, st: &mut Stats) -> Verdict {
    let c = gen_case(prop, t);
    let items: Vec<Vec<Item>> = c.pats.iter().map(|p| p.items.clone()).collect();
    for k in KINDS.iter() {
        let m = build_along(t, *k, &c.pats, st, &mut |t, m, n, st| {
            for _ in 0..3 {
                let msg = t.pick(&c.msgs);
                let got = observe(m, msg);
                check(prop, *k, &c.pats[..n], &items[..n], m, msg, &got, st)?;
            }
            Ok(())
        })?;
        let mut results = Vec::new();
        let one_place = t.chance(1, 4);
        let mut place = String::with_capacity(c.msgs.iter().map(|m| m.len()).max().unwrap_or(0));
        for msg in &c.msgs {
            let msg: &str = if one_place {
                place.clear();
                place.push_str(msg);
                &place
            } else {
                msg
            };
            let got = observe(&*m, msg);
            check(prop, *k, &c.pats, &items, &*m, msg, &got, st)?;
            results.push(got);
        }
        record(st, &c.pats, &c.msgs, &results);
        tgt(|| drop(m));
    }
    Ok(())
}

pub fn differential(t: &mut Tape, st: &mut Stats) -> Verdict {
    let c = gen_case("C05", t);
    let mut seen: Vec<(usize, String, Option<Obs>)> = Vec::new();
    let trie = build_along(t, Kind::Trie, &c.pats, st, &mut |t, m, n, _| {
        for _ in 0..3 {
            let msg = t.pick(&c.msgs);
            seen.push((n, msg.clone(), observe(m, msg)));
        }
        Ok(())
    })?;
    let sa = build_along(t, Kind::Sa, &c.pats, st, &mut |t, m, _, _| {
        let msg = t.pick(&c.msgs);
        let _ = observe(m, msg);
        Ok(())
    })?;
    for &(n, ref msg, ref a) in &seen {
        let other = build(Kind::Sa, &c.pats[..n])?;
        let b = observe(&*other, msg);
        tgt(|| drop(other));
        if !same(a, &b) {
            return Err(format!(
                "the matchers disagree\n patterns (in the order added):\n{} message: {:?}\n trie: {}\n suffix array: {}\n",
                describe(&c.pats[..n]), msg, show(a, &c.pats), show(&b, &c.pats)
            ));
        }
    }
    let mut results = Vec::new();
    for msg in &c.msgs {
        let a = observe(&*trie, msg);
        let b = observe(&*sa, msg);
        st.inc("answers_compared");
        if !same(&a, &b) {
            return Err(format!(
                "the matchers disagree\n patterns (in the order added):\n{} message: {:?}\n trie: {}\n suffix array: {}\n",
                describe(&c.pats),
                msg,
                show(&a, &c.pats),
                show(&b, &c.pats)
            ));
        }
        results.push(a);
    }
    record(st, &c.pats, &c.msgs, &results);
    tgt(|| drop((trie, sa)));
    Ok(())
}

pub fn additions(t: &mut Tape, st: &mut Stats) -> Verdict {
    let c = gen_case("C14", t);
    for k in KINDS.iter() {
        let mut m = new_matcher(*k);
        let mut last: Vec<Option<Obs>> = c.msgs.iter().map(|s| observe(&*m, s)).collect();
        // for big sets only some of the additions are watched
        let step = (c.pats.len() / 25).max(1);
        let mut since = 0;
        for (i, p) in c.pats.iter().enumerate() {
            let x = build_pattern(p, None)?;
            tgt(|| m.add_pattern(x));
            since += 1;
            if since < step && i + 1 < c.pats.len() {
                continue;
            }
            let added = &c.pats[i + 1 - since..i + 1];
            since = 0;
            for (j, msg) in c.msgs.iter().enumerate() {
                let now = observe(&*m, msg);
                if !same(&now, &last[j]) {
                    st.inc("results_changed_by_an_addition");
                    let ok = now.as_ref().map_or(false, |o| added.iter().any(|p| p.uuid == o.uuid && p.name == o.name));
                    if !ok {
                        return Err(format!(
                            "{:?}: adding pattern #{} changed a result, but not in favour of that pattern\n patterns:\n{} message: {:?}\n before: {}\n after: {}\n",
                            k, i, describe(&c.pats[..i + 1]), msg, show(&last[j], &c.pats), show(&now, &c.pats)
                        ));
                    }
                } else {
                    st.inc("results_unchanged_by_an_addition");
                }
                last[j] = now;
            }
        }
        record(st, &c.pats, &c.msgs, &last);
        tgt(|| drop(m));
    }
    Ok(())
}
