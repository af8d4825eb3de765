//! C09, C10: pattern files.

use super::grammar::same_tokens;
use super::{Env, Verdict};
use crate::doc::*;
use crate::gen::*;
use crate::recog::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::{BuildError, Matcher, Pattern, PatternLoader};
use std::io::Write;

pub const RULE9: &str = "a case is a generated pattern file content written once as JSON and once as YAML with free choices of field order, quoting, escapes, blanks, block and flow style, line ends and extension, loaded and compared field by field; non-trivial when it has at least one pattern with an optional field and was not seen before";
pub const RULE10: &str = "a case is a valid pattern file with one defect put in at a random place (missing, unknown or wrongly typed field, bad UUID or pattern, broken syntax, invalid UTF-8, extension, unopenable file) or with a read failing at each byte offset in turn; non-trivial when the defective content or fault schedule was not seen before";

pub fn path(env: &Env, t: &mut Tape, ext: &str) -> String {
    let stem = *t.pick(&["p", "patterns", "a.b", "p.json", "p.yaml", "\u{e9}", "x y", ".p", "-"]);
    format!("{}/{}{}.{}", env.scratch, folder(env, t), stem, ext)
}

/// A folder of the scratch directory whose name may look like that of a pattern file, reached in some way.
fn folder(env: &Env, t: &mut Tape) -> String {
    if t.chance(2, 3) {
        return String::new();
    }
    let d = *t.pick(&["d", "d.txt", "d.json", "d.yml", "d.YAML", "d e.json", "\u{4e2d}", "djson", ".d.json"]);
    let _ = std::fs::create_dir(format!("{}/{}", env.scratch, d));
    match t.below(4) {
        0 => format!("{}//", d),
        1 => format!("./{}/", d),
        2 => format!("{0}/../{0}/./", d),
        _ => format!("{}/", d),
    }
}

pub fn put(path: &str, content: &[u8]) {
    let mut f = std::fs::File::create(path).expect("scratch file");
    f.write_all(content).expect("write the scratch file");
}

pub struct TempFile(pub String);
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn file(env: &Env, t: &mut Tape, ext: &str, content: &[u8]) -> TempFile {
    let p = path(env, t, ext);
    put(&p, content);
    TempFile(p)
}

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// A name that leads to a pipe holding the content (its size is not known before it is read).
/// None where the sandbox cannot do that.
pub struct Pipe(pub String, i32);
impl Pipe {
    fn raw(path: String, content: &[u8]) -> Option<Pipe> {
        let mut fds = [0i32; 2];
        if content.len() > 60000 || unsafe { pipe(fds.as_mut_ptr()) } != 0 {
            return None;
        }
        let ok = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fds[1]) }.write_all(content).is_ok();
        let p = Pipe(path, fds[0]);
        let _ = std::fs::remove_file(&p.0);
        if !ok || std::os::unix::fs::symlink(format!("/proc/self/fd/{}", fds[0]), &p.0).is_err() {
            return None;
        }
        Some(p)
    }
    pub fn new(path: String, content: &[u8]) -> Option<Pipe> {
        thread_local!(static WORKS: std::cell::Cell<Option<bool>> = std::cell::Cell::new(None));
        if WORKS.with(|w| w.get()).is_none() {
            let ok = Pipe::raw(format!("{}.probe", path), b"ok").map_or(false, |p| std::fs::read(&p.0).map_or(false, |b| b == b"ok"));
            WORKS.with(|w| w.set(Some(ok)));
        }
        if WORKS.with(|w| w.get()) != Some(true) {
            return None;
        }
        Pipe::raw(path, content)
    }
}
impl Drop for Pipe {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        unsafe { close(self.1) };
    }
}

/// the content of a valid file, read from a pipe
fn from_pipe(t: &mut Tape, st: &mut Stats, env: &Env, ext: &str, text: &str, pats: &[FPat]) -> Result<(), String> {
    let at = format!("{}/a-pipe.{}", env.scratch, ext);
    if let Some(p) = Pipe::new(at, text.as_bytes()) {
        st.inc("pipes_loaded");
        match tgt(|| PatternLoader::load_file(&p.0)) {
            Err(e) => return Err(format!("read from a pipe, a valid file is rejected: {}", e)),
            Ok(x) => check_file(t, x, pats).map_err(|e| format!("read from a pipe: {}", e))?,
        }
    }
    Ok(())
}

/// is this the pattern that was written?
pub fn same_pattern(t: &mut Tape, x: &mut Pattern, f: &FPat) -> Result<(), String> {
    tgt(|| {
        if x.name() != f.pat.name.as_ref().map(|s| s.as_str()) {
            return Err(format!("name {:?} instead of {:?}", x.name(), f.pat.name));
        }
        if x.uuid().as_bytes() != &f.pat.uuid {
            return Err(format!("uuid {} instead of {}", x.uuid(), uuid_str(&f.pat.uuid)));
        }
        if x.values() != f.pat.values.as_ref() {
            return Err(format!("values {:?} instead of {:?}", x.values(), f.pat.values));
        }
        if x.tags() != f.pat.tags.as_ref().map(|v| &v[..]) {
            return Err(format!("tags {:?} instead of {:?}", x.tags(), f.pat.tags));
        }
        Ok(())
    })?;
    let toks = tgt(|| x.pattern().clone());
    same_tokens(t, &toks, &f.pat.items, false).map_err(|e| format!("pattern {:?}: {}", f.text, e))?;
    let mut got = tgt(|| {
        let mut v = Vec::new();
        while let Some(m) = x.pop_test_message() {
            v.push(Tm { message: m.message().to_owned(), values: Some(m.values().clone()), tags: m.tags().map(|x| x.to_vec()) });
        }
        v
    });
    got.reverse();
    let want: Vec<Tm> = f
        .tests
        .iter()
        .flat_map(|v| v.iter())
        .map(|m| Tm { message: m.message.clone(), values: Some(m.values.clone().unwrap_or_default()), tags: m.tags.clone() })
        .collect();
    if got != want {
        let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("test message {}: {:?} instead of {:?} ({} and {} of them)", i, got.get(i), want.get(i), got.len(), want.len()));
    }
    Ok(())
}

fn check_file(t: &mut Tape, f: PatternFile, pats: &[FPat]) -> Result<(), String> {
    if tgt(|| f.patterns().len()) != pats.len() {
        return Err(format!("{} patterns instead of {}", f.patterns().len(), pats.len()));
    }
    for (i, p) in pats.iter().enumerate() {
        let x = tgt(|| *f.patterns()[i].uuid());
        if x.as_bytes() != &p.pat.uuid {
            return Err(format!("pattern {}: uuid {} instead of {}", i, x, uuid_str(&p.pat.uuid)));
        }
    }
    // handed on from last to first
    let mut it = tgt(|| f.into_iter());
    for (i, p) in pats.iter().enumerate().rev() {
        match tgt(|| it.next()) {
            Some(Ok(mut x)) => {
                same_pattern(t, &mut x, p).map_err(|e| format!("pattern {}: {}", i, e))?;
                tgt(|| drop(x));
            }
            _ => return Err(format!("pattern {} is not handed on", i)),
        }
    }
    if tgt(|| it.next().is_some()) {
        return Err("more patterns are handed on than there are".into());
    }
    Ok(())
}

fn ignoring(k: Kind, path: &str) -> Result<Box<dyn Matcher>, BuildError> {
    tgt(|| match k {
        Kind::Trie => PatternLoader::from_file_ignore_errors::<TrieF>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Sa => PatternLoader::from_file_ignore_errors::<SaF>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
    })
}

pub fn strict(k: Kind, path: &str) -> Result<Box<dyn Matcher>, BuildError> {
    tgt(|| match k {
        Kind::Trie => PatternLoader::from_file::<TrieF>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Sa => PatternLoader::from_file::<SaF>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
    })
}

pub fn faithful(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let (pats, po) = gen_file(t, true);
    let d = to_doc(t, &pats);
    if pats.iter().any(|p| p.pat.name.is_some() || p.pat.values.is_some() || p.pat.tags.is_some() || p.tests.is_some()) {
        st.case(&format!("{:?}", d));
    }
    st.add("patterns_written", pats.len() as u64);
    st.add("test_messages_written", pats.iter().map(|p| p.tests.as_ref().map_or(0, |x| x.len())).sum::<usize>() as u64);
    st.max("max_patterns_in_a_file", pats.len() as u64);
    let reversed: Vec<Pat> = pats.iter().rev().map(|p| p.pat.clone()).collect();
    let msgs: Vec<String> = if reversed.is_empty() {
        vec![String::new(), "a".into()]
    } else {
        (0..4).map(|_| message(t, &reversed, &po)).collect()
    };
    for fmt in [Format::Json, Format::Yaml].iter() {
        let text = write(t, &d, *fmt);
        st.max("max_file_bytes", text.len() as u64);
        let ext = extension(t, *fmt);
        let f = file(env, t, ext, text.as_bytes());
        let fail = |e: String| Err(format!("{} file (extension {}): {}\n content:\n{}\n", if *fmt == Format::Json { "JSON" } else { "YAML" }, ext, e, text));
        match tgt(|| PatternLoader::load_file(&f.0)) {
            Err(e) => return fail(format!("a valid file was rejected: {}", e)),
            Ok(x) => {
                if let Err(e) = check_file(t, x, &pats) {
                    return fail(e);
                }
            }
        }
        st.inc(if *fmt == Format::Json { "json_files_compared" } else { "yaml_files_compared" });
        if *fmt == Format::Json {
            st.sample(|| text.clone());
        }
        if t.chance(1, 8) {
            if let Err(e) = from_pipe(t, st, env, ext, &text, &pats) {
                return fail(e);
            }
        }
        // the order in which a file is handed on
        if t.chance(1, 4) {
            let x = tgt(|| PatternLoader::load_file(&f.0)).map_err(|e| format!("second load: {}", e))?;
            let got: Vec<Vec<u8>> = tgt(|| x.into_iter().map(|r| r.map(|p| p.uuid().as_bytes().to_vec()).unwrap_or_default()).collect());
            if got != reversed.iter().map(|p| p.uuid.to_vec()).collect::<Vec<_>>() {
                return fail("the patterns of the file are not handed on from last to first".into());
            }
        }
        for k in KINDS.iter() {
            let m = match ignoring(*k, &f.0) {
                Ok(m) => m,
                Err(e) => return fail(format!("{:?}: a valid file was rejected: {}", k, e)),
            };
            let r = super::matching::build(*k, &reversed)?;
            for msg in &msgs {
                let a = observe(&*m, msg);
                let b = observe(&*r, msg);
                if !same(&a, &b) {
                    return fail(format!(
                        "{:?}: message {:?}: the matcher from the file says {}, a matcher with the patterns added from last to first {}",
                        k, msg, show(&a, &reversed), show(&b, &reversed)
                    ));
                }
                st.inc("answers_compared");
            }
            if pats.iter().all(|p| p.tests.as_ref().map_or(true, |x| x.is_empty())) {
                match strict(*k, &f.0) {
                    Ok(m) => {
                        for msg in &msgs {
                            if !same(&observe(&*m, msg), &observe(&*r, msg)) {
                                return fail(format!("{:?}: message {:?}: from_file's matcher differs from one built by additions", k, msg));
                            }
                        }
                    }
                    Err(e) => return fail(format!("{:?}: from_file rejected a valid file without test messages: {}", k, e)),
                }
            }
        }
    }
    // a single pattern as JSON
    if !pats.is_empty() && t.chance(1, 3) {
        let i = t.below(pats.len());
        if let Doc::M(ref m) = d {
            if let Doc::L(ref l) = m[0].1 {
                let text = write_json(t, &l[i]);
                match tgt(|| Pattern::from_json(&text)) {
                    Err(e) => return Err(format!("Pattern::from_json rejected {}: {}\n", text, e)),
                    Ok(mut x) => same_pattern(t, &mut x, &pats[i]).map_err(|e| format!("Pattern::from_json of {}: {}\n", text, e))?,
                }
                st.inc("single_patterns_compared");
            }
        }
    }
    Ok(())
}

/// C05: the same file with both factories
pub fn both_factories(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let (mut pats, po) = gen_file(t, false);
    let all: Vec<Pat> = pats.iter().map(|p| p.pat.clone()).collect();
    for p in pats.iter_mut() {
        if t.chance(1, 3) {
            p.tests = Some({
                let good = t.chance(2, 3);
                super::sources::tests_for(t, &po, &p.pat, &all, good)
            });
        }
    }
    let d = to_doc(t, &pats);
    let fmt = if t.chance(1, 2) { Format::Json } else { Format::Yaml };
    let mut text = write(t, &d, fmt);
    if t.chance(1, 6) {
        let k = t.below(text.chars().count() + 1);
        text = text.chars().take(k).collect();
        if fmt == Format::Yaml {
            return Ok(());
        }
    }
    let ext = extension(t, fmt);
    let f = file(env, t, ext, text.as_bytes());
    let a = strict(Kind::Trie, &f.0);
    let b = strict(Kind::Sa, &f.0);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            st.inc("files_accepted_by_both");
            for p in &all {
                let msg = instance(t, &p.items, &po.alpha);
                let x = observe(&*a, &msg);
                let y = observe(&*b, &msg);
                if !same(&x, &y) {
                    return Err(format!("the matchers built from a file disagree\n file:\n{}\n message {:?}\n trie: {}\n suffix array: {}\n", text, msg, show(&x, &all), show(&y, &all)));
                }
                st.inc("answers_compared");
            }
        }
        (Err(a), Err(b)) => {
            st.inc("files_rejected_by_both");
            let (a, b) = (tgt(|| a.to_string()), tgt(|| b.to_string()));
            if a != b {
                return Err(format!("the factories reject the same file for different reasons: {:?} / {:?}\n file:\n{}\n", a, b, text));
            }
        }
        (a, b) => {
            let s = |r: &Result<Box<dyn Matcher>, BuildError>| match *r {
                Ok(_) => "accepts it".to_owned(),
                Err(ref e) => format!("rejects it: {}", e),
            };
            return Err(format!("the same pattern file: the trie factory {}, the suffix-array factory {}\n file:\n{}\n", s(&a), s(&b), text));
        }
    }
    Ok(())
}

// ---- C10 ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Json,
    Yaml,
    Io,
    Ext,
}

fn category(e: &BuildError) -> Option<Want> {
    match *e {
        BuildError::DeserJson(_) => Some(Want::Json),
        BuildError::DeserYaml(_) => Some(Want::Yaml),
        BuildError::Io(_) => Some(Want::Io),
        BuildError::UnsupportedFileExtension => Some(Want::Ext),
        _ => None,
    }
}

fn expect(path: &str, want: Want, st: &mut Stats, which: usize) -> Result<(), String> {
    let mut results: Vec<(&'static str, Result<(), BuildError>)> = Vec::new();
    if which == 0 || which == 5 {
        results.push(("load_file", tgt(|| PatternLoader::load_file(path).map(|_| ()))));
    }
    for k in KINDS.iter() {
        let i = if *k == Kind::Trie { 1 } else { 2 };
        if which == i || which == 5 {
            results.push((if i == 1 { "from_file (trie)" } else { "from_file (suffix array)" }, strict(*k, path).map(|_| ())));
        }
        if which == i + 2 || which == 5 {
            results.push((if i == 1 { "from_file_ignore_errors (trie)" } else { "from_file_ignore_errors (suffix array)" }, ignoring(*k, path).map(|_| ())));
        }
    }
    for (name, r) in results {
        match r {
            Ok(()) => return Err(format!("{} accepts it", name)),
            Err(e) => {
                let shown = tgt(|| format!("{} {:?}", e, e));
                if category(&e) != Some(want) {
                    return Err(format!("{} reports {}", name, shown));
                }
                st.inc("rejections_observed");
            }
        }
    }
    Ok(())
}

fn count(d: &Doc) -> (usize, Vec<usize>) {
    // number of patterns, number of test messages of each
    if let Doc::M(ref m) = *d {
        if let Some(&(_, Doc::L(ref l))) = m.get(0) {
            let v = l
                .iter()
                .map(|p| {
                    if let Doc::M(ref pm) = *p {
                        for f in pm {
                            if f.0 == "test_messages" {
                                if let Doc::L(ref tl) = f.1 {
                                    return tl.len();
                                }
                            }
                        }
                    }
                    0
                })
                .collect::<Vec<_>>();
            return (l.len(), v);
        }
    }
    (0, Vec::new())
}

pub fn pattern_at(d: &mut Doc, i: usize) -> &mut Vec<(String, Doc)> {
    if let Doc::M(ref mut m) = *d {
        if let Doc::L(ref mut l) = m[0].1 {
            if let Doc::M(ref mut pm) = l[i] {
                return pm;
            }
        }
    }
    unreachable!()
}

pub fn test_at(d: &mut Doc, i: usize, j: usize) -> &mut Vec<(String, Doc)> {
    for f in pattern_at(d, i).iter_mut() {
        if f.0 == "test_messages" {
            if let Doc::L(ref mut tl) = f.1 {
                if let Doc::M(ref mut tm) = tl[j] {
                    return tm;
                }
            }
        }
    }
    unreachable!()
}

fn wrong(t: &mut Tape, d: &Doc) -> Doc {
    let raw = |t: &mut Tape| Doc::Raw(t.pick(&["42", "true", "0", "-1", "false"]).to_string());
    match *d {
        Doc::S(_) => match t.below(4) {
            3 => Doc::Raw("null".to_owned()),
            0 => Doc::L(vec![Doc::S("a".into())]),
            1 => Doc::M(vec![("a".into(), Doc::S("b".into()))]),
            _ => raw(t),
        },
        Doc::L(_) => match t.below(3) {
            0 => Doc::S("a".into()),
            1 => Doc::M(vec![("a".into(), Doc::S("b".into()))]),
            _ => raw(t),
        },
        _ => match t.below(3) {
            0 => Doc::S("a".into()),
            1 => Doc::L(vec![Doc::S("a".into())]),
            _ => raw(t),
        },
    }
}

pub fn bad_uuid(t: &mut Tape, u: &[u8; 16]) -> String {
    let s = uuid_str(u);
    let simple = s.replace('-', "");
    let base = if t.chance(1, 2) { s.clone() } else { simple.clone() };
    let n = base.len();
    match t.below(7) {
        0 => base[..n - 1].to_owned(),
        1 => format!("{}0", base),
        2 => {
            let k = t.below(n);
            let bad = *t.pick(&["g", " ", "x", "_", "Z", "\u{e9}"]);
            format!("{}{}{}", &base[..k], bad, &base[k + 1..])
        }
        3 => String::new(),
        4 => {
            // a hyphen in the wrong place
            let mut c: Vec<char> = s.chars().collect();
            c.swap(8, 9);
            c.into_iter().collect()
        }
        5 => format!("{{{}}}", s),
        _ => {
            let k = t.below(n);
            base[..k].to_owned()
        }
    }
}

pub fn bad_pattern(t: &mut Tape) -> String {
    for _ in 0..20 {
        let s = super::grammar::gen_text(t);
        if let Rec::Invalid(..) = recognise(&s) {
            return s;
        }
    }
    t.pick(&["%{", "%{INT", "a%{XXX}b", "", "%{SET(\"a\"}"]).to_string()
}

/// a field name that is nearly one of the known ones
fn near(t: &mut Tape) -> String {
    let k = *t.pick(&["name", "uuid", "pattern", "values", "tags", "test_messages", "message", "patterns"]);
    let n = k.len();
    match t.below(10) {
        0 => k.to_uppercase(),
        1 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
        2 => k[..n - 1].to_owned(),
        3 => k[1..].to_owned(),
        4 => format!("{}s", k),
        5 => format!("{}{}", k, t.pick(&[" ", "\t", "\n", "_", "-", "\u{0}", ":"])),
        6 => format!("{}{}", t.pick(&[" ", "_", "x-", "$", "@", "#", "."]), k),
        7 => k.replace('_', *t.pick(&["-", "", " "])),
        8 => {
            let i = t.below(n);
            format!("{}{}{}", &k[..i], k[i..i + 1].to_uppercase(), &k[i + 1..])
        }
        _ => {
            let i = t.below(n);
            format!("{}{}", &k[..i], &k[i..][1..])
        }
    }
}

/// one defect; what it is
fn spoil(t: &mut Tape, d: &mut Doc, pats: &[FPat]) -> String {
    let (np, nt) = count(d);
    let with_tests: Vec<usize> = (0..np).filter(|i| nt[*i] > 0).collect();
    for _ in 0..8 {
        match t.below(9) {
            0 if np > 0 => {
                let i = t.below(np);
                let f = *t.pick(&["uuid", "pattern"]);
                pattern_at(d, i).retain(|x| x.0 != f);
                return format!("pattern {} without {}", i, f);
            }
            1 if !with_tests.is_empty() => {
                let i = *t.pick(&with_tests);
                let j = t.below(nt[i]);
                test_at(d, i, j).retain(|x| x.0 != "message");
                return format!("test message {} of pattern {} without message", j, i);
            }
            2 => {
                // unknown field somewhere
                let name = match t.below(5) {
                    3 | 4 => near(t),
                    0 => t.pick(&["Name", "UUID", "names", "test_message", "patterns", "message", "value", "tag", "", "description", "uui", "pattern "]).to_string(),
                    1 => ident(t),
                    _ => t.pick(&["Patterns", "Message", "x", "testmessages", "_", "uuid2", "nam\u{e9}"]).to_string(),
                };
                let v = match t.below(4) {
                    0 => Doc::L(vec![]),
                    1 => Doc::M(vec![]),
                    2 => Doc::Raw("1".into()),
                    _ => Doc::S("x".into()),
                };
                let (known, m, what): (&[&str], &mut Vec<(String, Doc)>, String) = match t.below(3) {
                    1 if np > 0 => {
                        let i = t.below(np);
                        (&["name", "uuid", "pattern", "values", "tags", "test_messages"], pattern_at(d, i), format!("pattern {}", i))
                    }
                    2 if !with_tests.is_empty() => {
                        let i = *t.pick(&with_tests);
                        let j = t.below(nt[i]);
                        (&["message", "values", "tags"], test_at(d, i, j), format!("test message {} of pattern {}", j, i))
                    }
                    _ => {
                        if let Doc::M(ref mut m) = *d {
                            (&["patterns"], m, "the file".into())
                        } else {
                            unreachable!()
                        }
                    }
                };
                if known.contains(&name.as_str()) {
                    continue;
                }
                let k = t.below(m.len() + 1);
                m.insert(k, (name.clone(), v));
                return format!("unknown field {:?} in {}", name, what);
            }
            3 if np > 0 => {
                // a wrongly typed field
                let i = t.below(np);
                let m = pattern_at(d, i);
                let k = t.below(m.len());
                let w = wrong(t, &m[k].1);
                let s = format!("{} of pattern {} is {:?}", m[k].0, i, w);
                m[k].1 = w;
                return s;
            }
            4 if !with_tests.is_empty() => {
                let i = *t.pick(&with_tests);
                let j = t.below(nt[i]);
                let m = test_at(d, i, j);
                let k = t.below(m.len());
                let w = wrong(t, &m[k].1);
                let s = format!("{} of test message {} of pattern {} is {:?}", m[k].0, j, i, w);
                m[k].1 = w;
                return s;
            }
            5 if np > 0 => {
                // a wrongly typed element of a list or map
                let i = t.below(np);
                let m = if nt[i] > 0 && t.chance(1, 2) {
                    let j = t.below(nt[i]);
                    test_at(d, i, j)
                } else {
                    pattern_at(d, i)
                };
                for f in m.iter_mut() {
                    let name = f.0.clone();
                    match f.1 {
                        Doc::L(ref mut l) if !l.is_empty() => {
                            let k = t.below(l.len());
                            l[k] = wrong(t, &l[k].clone());
                            return format!("element {} of {} of pattern {} is {:?}", k, name, i, l[k]);
                        }
                        Doc::M(ref mut l) if !l.is_empty() => {
                            let k = t.below(l.len());
                            l[k].1 = wrong(t, &l[k].1.clone());
                            return format!("{:?} in {} of pattern {} is {:?}", l[k].0, name, i, l[k].1);
                        }
                        _ => (),
                    }
                }
            }
            6 if np > 0 => {
                let i = t.below(np);
                let u = bad_uuid(t, &pats[i].pat.uuid);
                for f in pattern_at(d, i).iter_mut() {
                    if f.0 == "uuid" {
                        f.1 = Doc::S(u.clone());
                    }
                }
                return format!("uuid of pattern {} is {:?}", i, u);
            }
            7 if np > 0 => {
                let i = t.below(np);
                let u = bad_pattern(t);
                for f in pattern_at(d, i).iter_mut() {
                    if f.0 == "pattern" {
                        f.1 = Doc::S(u.clone());
                    }
                }
                return format!("pattern of pattern {} is {:?}", i, u);
            }
            8 => {
                match t.below(3) {
                    0 => *d = Doc::M(vec![]),
                    1 => {
                        if let Doc::M(ref mut m) = *d {
                            m[0].1 = wrong(t, &Doc::L(vec![]));
                        }
                    }
                    _ => *d = wrong(t, &Doc::M(vec![])),
                }
                return "the outermost level is not a map with a list of patterns".into();
            }
            _ => (),
        }
    }
    *d = Doc::M(vec![]);
    "no patterns field".into()
}

pub fn defects(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let (mut pats, _) = gen_file(t, true);
    let mode = t.weighted(&[8, 3, 2, 2, 2, 3]);
    if mode >= 4 {
        // every offset is tried: small files
        pats.truncate(2);
        for p in pats.iter_mut() {
            if p.text.len() > 60 {
                p.text = "a%{INT:i}".into();
                p.pat.items = match recognise(&p.text) {
                    Rec::Valid(i) => i,
                    _ => unreachable!(),
                };
            }
        }
    }
    let mut d = to_doc(t, &pats);
    let fmt = if t.chance(1, 2) { Format::Json } else { Format::Yaml };
    let category = if fmt == Format::Json { Want::Json } else { Want::Yaml };
    let ext = extension(t, fmt);
    let which = *t.pick(&[0usize, 1, 2, 3, 4, 5]);
    match mode {
        0 => {
            let what = spoil(t, &mut d, &pats);
            let text = write(t, &d, fmt);
            st.case(&text);
            st.inc("defective_contents");
            let f = file(env, t, ext, text.as_bytes());
            expect(&f.0, category, st, which).map_err(|e| format!("a defective file ({}, extension {}): {}\n content:\n{}\n", what, ext, e, text))?;
            st.sample(|| format!("{}: {}", what, text));
        }
        1 => {
            // broken syntax
            let text = match fmt {
                Format::Json => {
                    let text = write_json(t, &d);
                    let text = text.trim().to_owned();
                    match t.below(4) {
                        0 | 1 => {
                            let cuts: Vec<usize> = text.char_indices().map(|x| x.0).collect();
                            // every prefix of a small file, some prefixes of a big one
                            let all = cuts.len() <= 400;
                            let n = if all { cuts.len() } else { 60 };
                            for i in 0..n {
                                let k = if all { cuts[i] } else { *t.pick(&cuts) };
                                let f = file(env, t, ext, text[..k].as_bytes());
                                expect(&f.0, category, st, which)
                                    .map_err(|e| format!("a JSON file cut off after {} bytes: {}\n content:\n{}\n", k, e, &text[..k]))?;
                                st.inc("truncations");
                            }
                            st.case(&text);
                            return Ok(());
                        }
                        2 => format!("{}{}", text, t.pick(&["}", "]", ",", "x", "{}", "\"", " 1", "null", "\u{0}"])),
                        _ => {
                            // drop or double a structural character outside strings
                            let mut inside = false;
                            let mut esc = false;
                            let mut at = Vec::new();
                            for (i, c) in text.char_indices() {
                                if inside {
                                    if esc {
                                        esc = false;
                                    } else if c == '\\' {
                                        esc = true;
                                    } else if c == '"' {
                                        inside = false;
                                    }
                                } else if c == '"' {
                                    inside = true;
                                } else if "{}[]:,".contains(c) {
                                    at.push(i);
                                }
                            }
                            let i = *t.pick(&at);
                            if t.chance(1, 2) {
                                format!("{}{}", &text[..i], &text[i + 1..])
                            } else {
                                format!("{}{}{}", &text[..i], &text[i..i + 1], &text[i..])
                            }
                        }
                    }
                }
                Format::Yaml => {
                    let text = write_yaml(t, &d);
                    match t.below(5) {
                        0 => String::new(),
                        1 => format!("{}\n---\n{}", text, text),
                        2 => format!("{}\nx: \"abc", text),
                        3 => "# nothing\n".into(),
                        _ => "patterns: [\n".into(),
                    }
                }
            };
            st.case(&text);
            st.inc("syntactically_broken_contents");
            let f = file(env, t, ext, text.as_bytes());
            expect(&f.0, category, st, which).map_err(|e| format!("a syntactically broken file (extension {}): {}\n content:\n{}\n", ext, e, text))?;
        }
        2 => {
            // not UTF-8
            let text = write(t, &d, fmt).into_bytes();
            let bad: &[u8] = *t.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xe2\x82"[..], &b"\xf0\x9f\x98"[..], &b"\xc0\x80"[..], &b"\xed\xa0\x80"[..], &b"\x80"[..], &b"\xf5\x80\x80\x80"[..]]);
            // at a character boundary, followed by something that does not complete it
            let s = String::from_utf8_lossy(&text).into_owned();
            let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())).collect();
            let k = match t.below(3) {
                0 => s.len(),
                1 => 0,
                _ => *t.pick(&cuts),
            };
            let mut b = s.as_bytes()[..k].to_vec();
            b.extend_from_slice(bad);
            b.extend_from_slice(&s.as_bytes()[k..]);
            st.case(&b);
            st.inc("contents_not_utf8");
            let f = file(env, t, ext, &b);
            expect(&f.0, Want::Io, st, which).map_err(|e| format!("a file that is not UTF-8 ({:?} at byte {}, extension {}): {}\n", bad, k, ext, e))?;
        }
        3 => {
            // name and file system
            let text = write(t, &d, fmt);
            match t.below(5) {
                0 | 1 => {
                    let name = *t.pick(&["p.txt", "p", "p.JSON", "p.Json", "p.jSON", "p.Yaml", "p.YAMl", "p.Yml", "p.yML", "p.js", "p.jsonx", "p.yam", "p.json.gz", ".json", ".yaml", "json", "p.", "p.json ", "p.yaml~", "p.jso", "p.ymll", "yml", "p.xml", "p.json.bak", "p..", "p.json.", "p.json.txt", "p.yml.old", "p.\u{e9}", "p.json\u{a0}", "pjson", "p.json,yml", "p-json", "p.yaml.", "p.jsonl", "p.json5", "p.ayml", "p.njson"]);
                    let p = format!("{}/{}{}", env.scratch, folder(env, t), name);
                    let here = t.chance(2, 3);
                    let f = TempFile(p);
                    if here {
                        put(&f.0, text.as_bytes());
                    }
                    st.inc("unsupported_names");
                    st.case(&(name, &text));
                    expect(&f.0, Want::Ext, st, which).map_err(|e| format!("a file named {:?}: {}\n", name, e))?;
                }
                2 => {
                    let p = format!("{}/missing/p.{}", env.scratch, ext);
                    let q = format!("{}/missing.{}", env.scratch, ext);
                    st.case(&(ext, which, &text));
                    expect(&p, Want::Io, st, which).map_err(|e| format!("a file in a missing directory: {}\n", e))?;
                    expect(&q, Want::Io, st, which).map_err(|e| format!("a missing file: {}\n", e))?;
                    st.inc("missing_files");
                }
                3 => {
                    let p = format!("{}/dir.{}", env.scratch, ext);
                    let _ = std::fs::create_dir(&p);
                    let r = expect(&p, Want::Io, st, which);
                    let _ = std::fs::remove_dir(&p);
                    st.inc("directories");
                    r.map_err(|e| format!("a directory named like a pattern file: {}\n", e))?;
                }
                _ => {
                    let f = file(env, t, ext, text.as_bytes());
                    let e = *t.pick(&[13, 24, 5, 40, 12, 23]);
                    let mut fired_all = true;
                    let (r, fired) = with_fault(Fault::OpenErr(e), || tgt(|| PatternLoader::load_file(&f.0).map(|_| ())));
                    fired_all &= fired > 0;
                    if fired_all {
                        st.inc("open_faults");
                        st.case(&(e, &text));
                        judge_io(r, &format!("opening fails with errno {}", e))?;
                    }
                }
            }
        }
        4 => {
            // a read that fails, at every offset
            let text = write(t, &d, fmt);
            let f = file(env, t, ext, text.as_bytes());
            let n = text.len();
            let e = *t.pick(&[5, 5, 116, 21, 104, 11]);
            let all = n <= 300;
            let tries = if all { n + 1 } else { 40 };
            st.case(&(e, &text, which));
            for i in 0..tries {
                let at = if all {
                    i
                } else {
                    match i {
                        0 => 0,
                        1 => n,
                        2 => n - 1,
                        _ => t.below(n + 1),
                    }
                };
                let (r, fired) = with_fault(Fault::ReadErr(at, e), || {
                    tgt(|| match which {
                        0 | 5 => PatternLoader::load_file(&f.0).map(|_| ()),
                        1 => PatternLoader::from_file::<TrieF>(&f.0).map(|_| ()),
                        2 => PatternLoader::from_file::<SaF>(&f.0).map(|_| ()),
                        3 => PatternLoader::from_file_ignore_errors::<TrieF>(&f.0).map(|_| ()),
                        _ => PatternLoader::from_file_ignore_errors::<SaF>(&f.0).map(|_| ()),
                    })
                });
                if fired > 0 {
                    st.inc("read_faults");
                    judge_io(r, &format!("reading fails with errno {} after {} of {} bytes ({})\n content:\n{}\n", e, at, n, ext, text))?;
                } else {
                    st.inc("read_faults_not_reached");
                }
            }
        }
        _ => {
            // interrupted and short reads, on a good file
            let text = write(t, &d, fmt);
            from_pipe(t, st, env, ext, &text, &pats).map_err(|e| format!("{}\n content:\n{}\n", e, text))?;
            let f = file(env, t, ext, text.as_bytes());
            for _ in 0..4 {
                let step = match t.below(3) {
                    0 => 1,
                    1 => t.range(1, 9),
                    _ => size(t, 40, 4000).max(1),
                };
                let every = *t.pick(&[0usize, 2, 3, 5]);
                let (r, fired) = with_fault(Fault::Choppy(step, every), || tgt(|| PatternLoader::load_file(&f.0)));
                if fired == 0 {
                    st.inc("choppy_reads_not_reached");
                    continue;
                }
                st.add("choppy_reads", fired as u64);
                st.case(&(step, every, &text));
                match r {
                    Err(e) => return Err(format!("with reads of {} bytes, every {}th interrupted, a valid file is rejected: {}\n content:\n{}\n", step, every, e, text)),
                    Ok(x) => check_file(t, x, &pats).map_err(|e| format!("with reads of {} bytes, every {}th interrupted: {}\n content:\n{}\n", step, every, e, text))?,
                }
            }
        }
    }
    Ok(())
}

fn judge_io(r: Result<(), BuildError>, what: &str) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("{}: the file is accepted\n", what)),
        Err(e) => {
            if category(&e) == Some(Want::Io) {
                Ok(())
            } else {
                Err(format!("{}: reported as {:?}\n", what, e))
            }
        }
    }
}
