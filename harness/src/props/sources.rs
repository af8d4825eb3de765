//! C11, C12: building matchers from sources with test messages and failed items.

use super::files::{file, strict};
use super::matching::*;
use super::{Env, Verdict};
use crate::doc::*;
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::{Error as TmError, TestMessage};
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, PatternLoader};
use std::collections::BTreeMap;

pub const RULE11: &str = "a case is a source of overlapping patterns with test messages (derived from the patterns, with expected values and tags right, wrong, missing or surplus) and now and then a failed item, loaded by both factories from an iterator or a file; non-trivial when at least one test message was judged and the source was not seen before";
pub const RULE12: &str = "a case is a source mixing good patterns, patterns with failing test messages and failed items, loaded while ignoring errors, with every log record captured; non-trivial when it has at least one erroneous and one correct item and was not seen before";

/// test messages for a pattern, right and wrong
pub fn tests_for(t: &mut Tape, po: &Pools, p: &Pat, all: &[Pat], good_only: bool) -> Vec<Tm> {
    let n = size(t, 3, 40);
    let mut out = Vec::new();
    for _ in 0..n {
        let mut message = instance(t, &p.items, &po.alpha);
        if message.len() > 4000 {
            continue;
        }
        let own = match_items(&p.items, &message);
        if own.is_none() && good_only {
            continue;
        }
        if !good_only && t.chance(1, 12) {
            message = match t.below(2) {
                0 => mutate(t, &message, &po.alpha),
                _ => {
                    let q = t.pick(all).clone();
                    instance(t, &q.items, &po.alpha)
                }
            };
        }
        let mut values: BTreeMap<String, String> = BTreeMap::new();
        if let Some(ref caps) = own {
            for (k, (a, b)) in captures(&p.items, caps) {
                if t.chance(3, 4) {
                    if let Some(s) = message.get(a..b) {
                        values.insert(k, s.to_owned());
                    }
                }
            }
        }
        if let Some(ref v) = p.values {
            for (k, x) in v {
                if t.chance(1, 2) {
                    values.entry(k.clone()).or_insert(x.clone());
                }
            }
        }
        if !good_only && t.chance(1, 6) {
            // a wrong value
            let keys: Vec<String> = values.keys().cloned().collect();
            if !keys.is_empty() {
                let k = t.pick(&keys).clone();
                let v = values[&k].clone();
                let w = match t.below(6) {
                    0 => String::new(),
                    1 => format!("{}x", v),
                    2 => v.to_uppercase(),
                    3 => format!(" {}", v),
                    4 => p.values.as_ref().and_then(|x| x.get(&k).cloned()).unwrap_or(v.clone()),
                    _ => mutate(t, &v, &po.alpha),
                };
                values.insert(k, w);
            }
        }
        if !good_only && t.chance(1, 10) {
            let k = word(t, po);
            let v = word(t, po);
            values.insert(k, v);
        }
        let mut tags = None;
        if t.chance(1, 2) {
            let mut v: Vec<String> = Vec::new();
            if let Some(ref own) = p.tags {
                for x in own {
                    if t.chance(1, 2) {
                        v.push(x.clone());
                    }
                }
                if t.chance(1, 4) {
                    v.reverse();
                }
            }
            if !good_only && t.chance(1, 6) {
                let w = match t.below(3) {
                    0 => word(t, po),
                    1 => v.get(0).map_or("x".to_owned(), |x| x.to_uppercase()),
                    _ => "no such tag".into(),
                };
                let k = t.below(v.len() + 1);
                v.insert(k, w);
            }
            if !v.is_empty() || t.chance(1, 2) {
                tags = Some(v);
            }
        }
        let values: BTreeMap<String, String> = values.into_iter().filter(|kv| kv.0.chars().count() <= 90).collect();
        let values = if values.is_empty() && t.chance(1, 2) { None } else { Some(values) };
        out.push(Tm { message, values, tags });
    }
    out
}

pub fn to_tm(m: &Tm) -> TestMessage {
    tgt(|| TestMessage::new(m.message.clone(), m.values.clone().unwrap_or_default(), m.tags.clone()))
}

/// a failed item of a source
#[derive(Clone, Debug, PartialEq)]
pub enum Failed {
    Ext,
    Name,
    Io(String),
    Key([u8; 16], String),
}

impl Failed {
    fn build(&self) -> BuildError {
        tgt(|| match *self {
            Failed::Ext => BuildError::UnsupportedFileExtension,
            Failed::Name => BuildError::NotUtf8FileName,
            Failed::Io(ref s) => BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, s.clone())),
            Failed::Key(ref u, ref k) => BuildError::TestMessage(TmError::key_not_found(&to_uuid(u), k)),
        })
    }
    fn is(&self, e: &BuildError) -> bool {
        match (self, e) {
            (&Failed::Ext, &BuildError::UnsupportedFileExtension) | (&Failed::Name, &BuildError::NotUtf8FileName) => true,
            (&Failed::Io(ref s), &BuildError::Io(ref e)) => e.to_string() == *s,
            (&Failed::Key(ref u, ref k), &BuildError::TestMessage(TmError::KeyNotFound { ref pattern_uuid, ref key })) => {
                *pattern_uuid == uuid_str(u) && key == k
            }
            _ => false,
        }
    }
}

pub enum It {
    Pat(Pat, Vec<Tm>),
    Bad(Failed),
}

pub struct Src {
    pub items: Vec<It>,
    pub pats: Vec<Pat>,
    pub po: Pools,
}

pub fn gen_source(t: &mut Tape, failed: bool) -> Src {
    let mut pr = Profile { meta: true, max_pats: 6, max_items: 4, share: 5, ..Profile::default() };
    if t.chance(1, 3) {
        pr.share = 8;
        pr.dup = 12;
    }
    let mut po = pools(t, &pr);
    let mut pats = gen_pats(t, &mut po, &pr);
    pats.truncate(120);
    if t.chance(1, 8) && pats.len() > 1 {
        let i = t.below(pats.len());
        let j = t.below(pats.len());
        pats[i].uuid = pats[j].uuid;
    }
    // additional values under the names of parsers
    for i in 0..pats.len() {
        if t.chance(1, 3) {
            let names: Vec<String> = pats[i].items.iter().filter_map(|x| match *x {
                Item::P(ref p) => p.name().map(|s| s.to_owned()),
                _ => None,
            }).collect();
            if !names.is_empty() {
                let k = t.pick(&names).clone();
                let v = word(t, &po);
                pats[i].values.get_or_insert_with(BTreeMap::new).insert(k, v);
            }
        }
    }
    let all = pats.clone();
    let mut items = Vec::new();
    // 0: nothing wrong on purpose, 1: one item, 2: anything
    let mode = t.weighted(&[3, 4, 3]);
    let the_one = t.below(pats.len().max(1));
    for (i, p) in pats.iter().enumerate() {
        let may_fail = mode == 2 || (mode == 1 && i == the_one);
        if failed && may_fail && t.chance(1, 6) {
            items.push(It::Bad(match t.below(4) {
                0 => Failed::Ext,
                1 => Failed::Name,
                2 => Failed::Io(format!("io {}", word(t, &po))),
                _ => Failed::Key(uuid(t, 7), word(t, &po)),
            }));
        }
        let good = !may_fail || t.chance(1, 3);
        let tests = if t.chance(2, 3) { tests_for(t, &po, p, &all, good) } else { Vec::new() };
        items.push(It::Pat(p.clone(), tests));
    }
    Src { items, pats, po }
}

impl Src {
    pub fn source(&self) -> Result<Vec<BuildResult>, String> {
        let mut v = Vec::new();
        for it in &self.items {
            v.push(match *it {
                It::Bad(ref b) => Err(b.build()),
                It::Pat(ref p, ref ts) => {
                    let tests = if ts.is_empty() { None } else { Some(ts.iter().map(to_tm).collect()) };
                    Ok(build_pattern(p, tests)?)
                }
            });
        }
        Ok(v)
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, it) in self.items.iter().enumerate() {
            match *it {
                It::Bad(ref b) => s.push_str(&format!("  #{} failed item {:?}\n", i, b)),
                It::Pat(ref p, ref ts) => {
                    s.push_str(&format!("  #{} values={:?} tags={:?}{}", i, p.values, p.tags, describe(std::slice::from_ref(p))));
                    for m in ts {
                        s.push_str(&format!("      test {:?}\n", m));
                    }
                }
            }
        }
        s
    }
}

/// an error the oracle expects
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Value(String, String, String, String),
    Key(String, String),
    NoMatch(String, String),
    Other(String, String, String),
    Tags(String, Option<Vec<String>>, Option<Vec<String>>),
    Item(Failed),
}

impl Want {
    pub fn is(&self, e: &BuildError) -> bool {
        match *self {
            Want::Item(ref f) => f.is(e),
            _ => match *e {
                BuildError::TestMessage(ref e) => {
                    let got = match *e {
                        TmError::ValueNotMatch { ref pattern_uuid, ref key, ref expected_value, ref got_value } => {
                            Want::Value(pattern_uuid.clone(), key.clone(), expected_value.clone(), got_value.clone())
                        }
                        TmError::KeyNotFound { ref pattern_uuid, ref key } => Want::Key(pattern_uuid.clone(), key.clone()),
                        TmError::TestMessageDoesntMatch { ref pattern_uuid, ref message } => Want::NoMatch(pattern_uuid.clone(), message.clone()),
                        TmError::MatchedToOtherPattern { ref expected_uuid, ref got_uuid, ref message } => {
                            Want::Other(expected_uuid.clone(), got_uuid.clone(), message.clone())
                        }
                        TmError::UnexpectedTags { ref pattern_uuid, ref expected, ref got } => Want::Tags(pattern_uuid.clone(), expected.clone(), got.clone()),
                    };
                    got == *self
                }
                _ => false,
            },
        }
    }
    /// what the printed error has to contain
    pub fn parts(&self) -> Vec<String> {
        match *self {
            Want::Value(ref a, ref b, ref c, ref d) => vec![a.clone(), b.clone(), c.clone(), d.clone()],
            Want::Key(ref a, ref b) | Want::NoMatch(ref a, ref b) => vec![a.clone(), b.clone()],
            Want::Other(ref a, ref b, ref c) => vec![a.clone(), b.clone(), c.clone()],
            Want::Tags(ref a, ref b, ref c) => {
                let mut v = vec![a.clone()];
                for x in b.iter().chain(c.iter()).flat_map(|x| x.iter()) {
                    // tags are printed as a list of quoted strings
                    if x.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') {
                        v.push(x.clone());
                    }
                }
                v
            }
            Want::Item(Failed::Io(ref s)) => vec![s.clone()],
            Want::Item(Failed::Key(ref u, ref k)) => vec![uuid_str(u), k.clone()],
            Want::Item(_) => vec![],
        }
    }
    pub fn kind(&self) -> &'static str {
        match *self {
            Want::Value(..) => "failures_value_differs",
            Want::Key(..) => "failures_key_missing",
            Want::NoMatch(..) => "failures_message_not_matched",
            Want::Other(..) => "failures_matched_by_another_pattern",
            Want::Tags(..) => "failures_tags",
            Want::Item(..) => "failed_items",
        }
    }
}

fn matcher_uuid(b: &[u8]) -> String {
    let mut u = [0u8; 16];
    u.copy_from_slice(b);
    uuid_str(&u)
}

/// everything that is wrong with the test messages of a pattern just added to m
pub fn judge(m: &dyn Matcher, p: &Pat, tests: &[Tm]) -> Vec<Want> {
    let own = uuid_str(&p.uuid);
    let mut bad = Vec::new();
    for tm in tests {
        tgt(|| match m.parse(&tm.message) {
            None => bad.push(Want::NoMatch(own.clone(), tm.message.clone())),
            Some(r) => {
                let q = r.pattern();
                let got = matcher_uuid(q.uuid().as_bytes());
                if got != own {
                    bad.push(Want::Other(own.clone(), got, tm.message.clone()));
                    return;
                }
                if let Some(ref want) = tm.tags {
                    let has: Vec<String> = q.tags().map_or(Vec::new(), |x| x.to_vec());
                    if want.iter().any(|w| !has.iter().any(|h| h == w)) {
                        bad.push(Want::Tags(own.clone(), tm.tags.clone(), q.tags().map(|x| x.to_vec())));
                    }
                }
                for (k, v) in tm.values.iter().flat_map(|x| x.iter()) {
                    let got = r.values().get(k.as_str()).map(|x| x.to_string()).or_else(|| q.values().and_then(|x| x.get(k).cloned()));
                    match got {
                        None => bad.push(Want::Key(own.clone(), k.clone())),
                        Some(ref g) if g != v => bad.push(Want::Value(own.clone(), k.clone(), v.clone(), g.clone())),
                        _ => (),
                    }
                }
            }
        });
    }
    bad
}

fn load(k: Kind, src: Vec<BuildResult>) -> Result<Box<dyn Matcher>, BuildError> {
    let mut it = src.into_iter();
    tgt(|| match k {
        Kind::Trie => <TrieF as MatcherFactory>::Matcher::from_source::<TrieF>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Sa => <SaF as MatcherFactory>::Matcher::from_source::<SaF>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>),
    })
}

fn load_ignoring(k: Kind, src: Vec<BuildResult>) -> Box<dyn Matcher> {
    let mut it = src.into_iter();
    tgt(|| match k {
        Kind::Trie => Box::new(<TrieF as MatcherFactory>::Matcher::from_source_ignore_errors::<TrieF>(&mut it)) as Box<dyn Matcher>,
        Kind::Sa => Box::new(<SaF as MatcherFactory>::Matcher::from_source_ignore_errors::<SaF>(&mut it)) as Box<dyn Matcher>,
    })
}

fn case_key(s: &Src) -> String {
    s.describe()
}

/// rewrites the source so that it can come from a file: last to first, grammar patterns only
fn as_file(t: &mut Tape, env: &Env, s: &mut Src) -> Option<(super::files::TempFile, String)> {
    let mut f = Vec::new();
    for it in &s.items {
        match *it {
            It::Pat(ref p, ref ts) if expressible(&p.items) => {
                if p.values.as_ref().map_or(false, |v| v.keys().any(|k| k.chars().count() > 90)) {
                    return None;
                }
                f.push(FPat {
                    pat: p.clone(),
                    text: print(&p.items),
                    uuid_text: uuid_text(t, &p.uuid),
                    tests: if ts.is_empty() { None } else { Some(ts.clone()) },
                })
            }
            _ => return None,
        }
    }
    f.reverse();
    let d = to_doc(t, &f);
    let fmt = if t.chance(2, 3) { Format::Json } else { Format::Yaml };
    let text = write(t, &d, fmt);
    let ext = extension(t, fmt);
    // test messages are checked from last to first in both cases: the order is not the oracle's concern
    Some((file(env, t, ext, text.as_bytes()), text))
}

fn same_behaviour(t: &mut Tape, m: &dyn Matcher, r: &dyn Matcher, s: &Src, k: Kind, st: &mut Stats) -> Verdict {
    let mut msgs: Vec<String> = Vec::new();
    for it in &s.items {
        if let It::Pat(_, ref ts) = *it {
            msgs.extend(ts.iter().take(2).map(|x| x.message.clone()));
        }
    }
    msgs.truncate(20);
    if !s.pats.is_empty() {
        for _ in 0..6 {
            msgs.push(message(t, &s.pats, &s.po));
        }
    }
    for msg in &msgs {
        let (a, b) = (observe(m, msg), observe(r, msg));
        st.inc("answers_compared");
        if !same(&a, &b) {
            return Err(format!(
                "{:?}: message {:?}: the loaded matcher says {}, one to which every pattern of the source was added {}\n source:\n{}\n",
                k, msg, show(&a, &s.pats), show(&b, &s.pats), s.describe()
            ));
        }
    }
    Ok(())
}

pub fn strict_load(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let mut s = gen_source(t, true);
    let f = if t.chance(1, 4) { as_file(t, env, &mut s) } else { None };
    for k in KINDS.iter() {
        let mut r = new_matcher(*k);
        let mut wants: Option<(usize, Vec<Want>)> = None;
        let mut judged = 0;
        for (i, it) in s.items.iter().enumerate() {
            let bad = match *it {
                It::Bad(ref b) => vec![Want::Item(b.clone())],
                It::Pat(ref p, ref ts) => {
                    let x = build_pattern(p, None)?;
                    tgt(|| r.add_pattern(x));
                    judged += ts.len();
                    judge(&*r, p, ts)
                }
            };
            if !bad.is_empty() {
                wants = Some((i, bad));
                break;
            }
        }
        if judged > 0 {
            st.case(&case_key(&s));
        }
        st.add("test_messages_judged", judged as u64);
        let got = match f {
            Some((ref f, _)) => {
                st.inc("loads_from_files");
                strict(*k, &f.0)
            }
            None => {
                let src = s.source()?;
                load(*k, src)
            }
        };
        match (wants, got) {
            (None, Ok(m)) => {
                st.inc("loads_that_succeed");
                same_behaviour(t, &*m, &*r, &s, *k, st)?;
                tgt(|| drop(m));
            }
            (None, Err(e)) => {
                return Err(format!("{:?}: every test message passes, but the load fails: {} ({:?})\n source (in order):\n{}\n", k, e, e, s.describe()));
            }
            (Some((i, w)), Ok(_)) => {
                return Err(format!("{:?}: item #{} is wrong ({:?}), but the load succeeds\n source (in order):\n{}\n", k, i, w, s.describe()));
            }
            (Some((i, w)), Err(e)) => {
                let shown = tgt(|| e.to_string());
                match w.iter().find(|x| x.is(&e)) {
                    None => {
                        return Err(format!(
                            "{:?}: the first wrong item is #{} (one of {:?}), but the error is {} ({:?})\n source (in order):\n{}\n",
                            k, i, w, shown, e, s.describe()
                        ))
                    }
                    Some(x) => {
                        st.inc(x.kind());
                        for part in x.parts() {
                            if !shown.contains(&part) {
                                return Err(format!("{:?}: the printed error {:?} does not tell {:?} of {:?}\n", k, shown, part, x));
                            }
                        }
                    }
                }
                st.inc("loads_that_fail");
                st.max("max_items_before_the_failure", i as u64);
                st.sample(|| format!("{}-> {}", s.describe(), shown));
            }
        }
    }
    Ok(())
}

pub fn ignoring_load(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let mut s = gen_source(t, true);
    let f = if t.chance(1, 5) { as_file(t, env, &mut s) } else { None };
    let level = *t.pick(&[1usize, 1, 2, 5]);
    for k in KINDS.iter() {
        let mut r = new_matcher(*k);
        let mut wants: Vec<(usize, Vec<Want>)> = Vec::new();
        for (i, it) in s.items.iter().enumerate() {
            let bad = match *it {
                It::Bad(ref b) => vec![Want::Item(b.clone())],
                It::Pat(ref p, ref ts) => {
                    let x = build_pattern(p, None)?;
                    tgt(|| r.add_pattern(x));
                    judge(&*r, p, ts)
                }
            };
            if !bad.is_empty() {
                wants.push((i, bad));
            }
        }
        if !wants.is_empty() && wants.len() < s.items.len() {
            st.case(&case_key(&s));
        }
        let (m, records) = match f {
            Some((ref f, ref text)) => {
                st.inc("loads_from_files");
                let (m, rec) = logged(level, || {
                    tgt(|| match *k {
                        Kind::Trie => PatternLoader::from_file_ignore_errors::<TrieF>(&f.0).map(|m| Box::new(m) as Box<dyn Matcher>),
                        Kind::Sa => PatternLoader::from_file_ignore_errors::<SaF>(&f.0).map(|m| Box::new(m) as Box<dyn Matcher>),
                    })
                });
                match m {
                    Ok(m) => (m, rec),
                    Err(e) => return Err(format!("{:?}: from_file_ignore_errors fails: {}\n file:\n{}\n", k, e, text)),
                }
            }
            None => {
                let src = s.source()?;
                logged(level, || load_ignoring(*k, src))
            }
        };
        let errors: Vec<&String> = records.iter().filter(|r| r.0 == 1).map(|r| &r.1).collect();
        st.add("error_records", errors.len() as u64);
        st.add("erroneous_items", wants.len() as u64);
        st.add("correct_items", (s.items.len() - wants.len()) as u64);
        st.add("log_records", records.len() as u64);
        let fail = |e: String| Err(format!("{:?}: {}\n erroneous items: {:?}\n error records: {:?}\n source (in order):\n{}\n", k, e, wants, errors, s.describe()));
        if errors.len() != wants.len() {
            return fail(format!("{} error records for {} erroneous items", errors.len(), wants.len()));
        }
        for (e, w) in errors.iter().zip(wants.iter()) {
            let ok = w.1.iter().any(|x| e.contains(&text_of(x)));
            if !ok {
                return fail(format!("the record {:?} does not carry the error of item #{}", e, w.0));
            }
            st.inc("records_confirmed");
        }
        same_behaviour(t, &*m, &*r, &s, *k, st)?;
        if !wants.is_empty() {
            st.sample(|| format!("{}-> {:?}", s.describe(), errors));
        }
        tgt(|| drop((m, r)));
    }
    Ok(())
}

fn from_text(u: &str) -> uuid::Uuid {
    uuid::Uuid::parse_str(u).expect("uuid")
}

/// the error's own text
fn text_of(w: &Want) -> String {
    tgt(|| match *w {
        Want::Item(ref f) => f.build().to_string(),
        Want::Value(ref u, ref k, ref a, ref b) => TmError::value_not_match(&from_text(u), k, a, b).to_string(),
        Want::Key(ref u, ref k) => TmError::key_not_found(&from_text(u), k).to_string(),
        Want::NoMatch(ref u, ref m) => TmError::test_message_does_not_match(&from_text(u), &TestMessage::new(m.clone(), BTreeMap::new(), None)).to_string(),
        Want::Other(ref a, ref b, ref m) => TmError::matched_to_other_pattern(&from_text(a), &from_text(b), m).to_string(),
        Want::Tags(ref u, ref a, ref b) => TmError::unexpected_tags(&from_text(u), a.clone(), b.clone()).to_string(),
    })
}
