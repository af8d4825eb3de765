//! C19: what is told about a rejected pattern file.

use super::files::*;
use super::{Env, Verdict};
use crate::doc::*;
use crate::gen::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::grammar;
use actiondb::matcher::{BuildError, Pattern, PatternLoader};

pub const RULE19: &str = "a case is a pattern file (or single JSON pattern) with one pattern whose text is missing or invalid, loaded with the log captured, a valid file, or a load that fails for another reason (I/O fault, broken syntax, failing test message); non-trivial when the content was not seen before";

/// does the record carry the text, as it is or escaped?
fn carries(record: &str, text: &str) -> bool {
    let dbg = format!("{:?}", text);
    record.contains(text) || record.contains(&dbg[1..dbg.len() - 1]) || {
        let e: String = text.chars().flat_map(|c| c.escape_default()).collect();
        record.contains(&e)
    }
}

fn carries_uuid(record: &str, u: &[u8; 16]) -> bool {
    let s = uuid_str(u);
    let r = record.to_lowercase();
    r.contains(&s) || r.contains(&s.replace('-', ""))
}

fn load(which: usize, path: &str) -> Result<(), BuildError> {
    tgt(|| match which {
        0 => PatternLoader::load_file(path).map(|_| ()),
        1 => PatternLoader::from_file::<TrieF>(path).map(|_| ()),
        2 => PatternLoader::from_file::<SaF>(path).map(|_| ()),
        3 => PatternLoader::from_file_ignore_errors::<TrieF>(path).map(|_| ()),
        _ => PatternLoader::from_file_ignore_errors::<SaF>(path).map(|_| ()),
    })
}

/// the printed error carries the message of what is underneath
fn printed(e: &BuildError) -> Result<(), String> {
    let (outer, inner) = tgt(|| {
        let inner = match *e {
            BuildError::TestMessage(ref x) => x.to_string(),
            BuildError::Io(ref x) => x.to_string(),
            BuildError::DeserJson(ref x) => x.to_string(),
            BuildError::DeserYaml(ref x) => x.to_string(),
            _ => String::new(),
        };
        (e.to_string(), inner)
    });
    if outer.is_empty() || !outer.contains(&inner) {
        return Err(format!("the load error prints as {:?}, the underlying error as {:?}", outer, inner));
    }
    let d = tgt(|| {
        #[allow(deprecated)]
        let d = std::error::Error::description(e).to_owned();
        d
    });
    if d.is_empty() {
        return Err(format!("the load error {:?} has an empty description", outer));
    }
    Ok(())
}

pub fn run(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let (pats, _) = gen_file(t, true);
    let mode = if pats.is_empty() { 3 } else { t.weighted(&[6, 3, 2, 2, 6]) };
    let fmt = if t.chance(1, 2) { Format::Json } else { Format::Yaml };
    let ext = extension(t, fmt);
    let which = t.below(5);
    let level = t.range(1, 5);
    let mut d = to_doc(t, &pats);
    match mode {
        0 | 1 => {
            let i = t.below(pats.len());
            let bad = if mode == 0 { Some(bad_pattern(t)) } else { None };
            let m = pattern_at(&mut d, i);
            match bad {
                Some(ref b) => {
                    for f in m.iter_mut() {
                        if f.0 == "pattern" {
                            f.1 = Doc::S(b.clone());
                        }
                    }
                }
                None => m.retain(|f| f.0 != "pattern"),
            }
            let no_uuid = t.chance(1, 8);
            if no_uuid {
                m.retain(|f| f.0 != "uuid");
            }
            let single = t.chance(1, 5);
            let one = Doc::M(m.clone());
            let (text, records) = if single {
                let text = write_json(t, &one);
                let (r, records) = logged(level, || tgt(|| Pattern::from_json(&text).map(|_| ())));
                if r.is_ok() {
                    return Err(format!("a defective pattern is accepted: {}\n", text));
                }
                (text, records)
            } else {
                let text = write(t, &d, fmt);
                let f = file(env, t, ext, text.as_bytes());
                let (r, records) = logged(level, || load(which, &f.0));
                match r {
                    Ok(()) => return Err(format!("a defective file (extension {}) is accepted:\n{}\n", ext, text)),
                    Err(e) => printed(&e).map_err(|e| format!("{}\n content:\n{}\n", e, text))?,
                }
                (text, records)
            };
            let errors: Vec<&String> = records.iter().filter(|r| r.0 == 1).map(|r| &r.1).collect();
            let fail = |s: &str| -> Verdict {
                Err(format!(
                    "pattern {} (name {:?}, uuid {}) {}: {}\n error-level log records (log level {}): {:#?}\n content:\n{}\n",
                    i, pats[i].pat.name, if no_uuid { "missing".to_owned() } else { uuid_str(&pats[i].pat.uuid) },
                    match bad {
                        Some(ref b) => format!("has the invalid text {:?}", b),
                        None => "has no pattern text".to_owned(),
                    },
                    s, level, errors, text
                ))
            };
            if errors.len() != 1 {
                return fail("there is not exactly one error-level record");
            }
            let r = errors[0];
            if !pats[i].pat.name.as_ref().map_or(true, |n| carries(r, n)) {
                return fail("the log record does not carry the name");
            }
            if !no_uuid && !carries_uuid(r, &pats[i].pat.uuid) {
                return fail("the log record does not carry the UUID");
            }
            if let Some(ref b) = bad {
                if !carries(r, b) {
                    return fail("the log record does not carry the pattern text");
                }
                match tgt(|| grammar::parser::pattern(b)) {
                    Ok(_) => return Err(format!("invalid pattern text {:?} compiles\n", b)),
                    Err(e) => {
                        if !r.contains(&format!("{}:{}", e.line, e.column)) {
                            return fail(&format!("the log record does not carry line {} and column {} of the syntax error", e.line, e.column));
                        }
                    }
                }
                st.inc("records_about_invalid_patterns");
            } else {
                st.inc("records_about_missing_patterns");
            }
            st.case(&text);
            st.sample(|| r.clone());
        }
        2 | 3 => {
            let mut pats = pats;
            for p in pats.iter_mut() {
                p.tests = None;
            }
            let d = to_doc(t, &pats);
            let text = write(t, &d, fmt);
            let f = file(env, t, ext, text.as_bytes());
            let (r, records) = logged(level, || load(which, &f.0));
            if let Err(e) = r {
                return Err(format!("a valid file (extension {}) is rejected: {}\n content:\n{}\n", ext, e, text));
            }
            if let Some(r) = records.iter().find(|r| r.0 == 1) {
                return Err(format!("loading a valid file writes an error to the log: {:?}\n content:\n{}\n", r.1, text));
            }
            st.inc("valid_files");
            st.case(&text);
        }
        _ => {
            let text = write(t, &d, fmt);
            let r = match t.below(8) {
                7 => {
                    // one field missing or unknown: the error names it
                    let i = t.below(pats.len());
                    let nt = pats[i].tests.as_ref().map_or(0, |x| x.len());
                    let missing = t.chance(1, 2);
                    let unknown = t.pick(&["foo", "names", "Uuid", "test_message", "gr\u{f6}\u{df}e", "x", "value", "pattern_", "descr-iption"]).to_string();
                    let (must, m): (&str, &mut Vec<(String, Doc)>) = match t.below(4) {
                        0 if nt > 0 => {
                            let j = t.below(nt);
                            ("message", test_at(&mut d, i, j))
                        }
                        1 => {
                            if let Doc::M(ref mut m) = d {
                                ("patterns", m)
                            } else {
                                unreachable!()
                            }
                        }
                        2 => ("uuid", pattern_at(&mut d, i)),
                        _ => ("pattern", pattern_at(&mut d, i)),
                    };
                    let named = if missing {
                        m.retain(|f| f.0 != must);
                        must.to_owned()
                    } else {
                        let at = t.below(m.len() + 1);
                        m.insert(at, (unknown.clone(), if t.chance(1, 2) { Doc::L(vec![]) } else { Doc::S("y".into()) }));
                        unknown
                    };
                    let text = write(t, &d, fmt);
                    let f = file(env, t, ext, text.as_bytes());
                    let r = load(which, &f.0);
                    let shown = match r {
                        Ok(()) => return Err(format!("a file with the field {:?} {} is accepted (extension {})\n content:\n{}\n", named, if missing { "missing" } else { "unknown" }, ext, text)),
                        Err(ref e) => tgt(|| e.to_string()),
                    };
                    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '-';
                    let words: Vec<&str> = shown.split(|c| !word(c)).collect();
                    let esc: String = named.chars().flat_map(|c| c.escape_default()).collect();
                    if !words.contains(&named.as_str()) && !(esc != named && shown.contains(&esc)) {
                        return Err(format!("the error {:?} does not name the {} field {:?} (extension {})\n content:\n{}\n", shown, if missing { "missing" } else { "unknown" }, named, ext, text));
                    }
                    st.inc(if missing { "missing_fields_named" } else { "unknown_fields_named" });
                    r
                }
                4 => {
                    // not UTF-8
                    let mut b = text.clone().into_bytes();
                    let at = t.below(b.len() + 1);
                    b.insert(at, *t.pick(&[0xff, 0xc0, 0xfe, 0xf8, 0x80]));
                    if std::str::from_utf8(&b).is_ok() {
                        return Ok(());
                    }
                    let f = file(env, t, ext, &b);
                    let r = load(which, &f.0);
                    match r {
                        Err(BuildError::Io(_)) => (),
                        ref r => return Err(format!("a file that is not UTF-8 (byte {}) gives {:?}\n content:\n{}\n", at, r, text)),
                    }
                    r
                }
                5 => {
                    // a broken file
                    let mut c: Vec<char> = text.chars().collect();
                    for _ in 0..t.range(1, 3) {
                        let at = t.below(c.len() + 1);
                        match t.below(3) {
                            0 => c.truncate(at),
                            1 => c.insert(at, *t.pick(&['}', '{', '"', ':', ',', ']', '\u{e9}', '\'', '&', '1'])),
                            _ => if at < c.len() { c.remove(at); },
                        }
                    }
                    let broken: String = c.into_iter().collect();
                    let broken = if fmt == Format::Json {
                        broken
                    } else {
                        let i = t.below(pats.len());
                        let gone = *t.pick(&["uuid", "uuid", "pattern"]);
                        pattern_at(&mut d, i).retain(|f| f.0 != gone);
                        write(t, &d, fmt)
                    };
                    let f = file(env, t, ext, broken.as_bytes());
                    load(which, &f.0)
                }
                6 => {
                    // handed on by a source of the user's own
                    let e = match t.below(3) {
                        0 => std::io::Error::from_raw_os_error(t.range(1, 133) as i32),
                        1 => std::io::Error::new(*t.pick(&KINDS), text.clone()),
                        _ => std::io::Error::from(*t.pick(&KINDS)),
                    };
                    Err(BuildError::from(e))
                }
                0 => {
                    let f = file(env, t, ext, text.as_bytes());
                    let e = *t.pick(&[5, 116, 21, 104, 11, 12]);
                    let at = t.below(text.len() + 1);
                    let (r, fired) = with_fault(Fault::ReadErr(at, e), || load(which, &f.0));
                    if fired == 0 {
                        return Ok(());
                    }
                    os_error(&r, e)?;
                    r
                }
                1 => {
                    let f = file(env, t, ext, text.as_bytes());
                    let e = *t.pick(&[13, 24, 5, 40, 12, 23, 2]);
                    let (r, fired) = with_fault(Fault::OpenErr(e), || load(which, &f.0));
                    if fired == 0 {
                        return Ok(());
                    }
                    os_error(&r, e)?;
                    r
                }
                2 => {
                    let p = format!("{}/{}", env.scratch, t.pick(&["x.txt", "x", "x.JSON", "x.y"]));
                    load(which, &p)
                }
                _ => {
                    // whatever the test messages of a random file give
                    let f = file(env, t, ext, text.as_bytes());
                    load(1 + which % 2, &f.0)
                }
            };
            if let Err(e) = r {
                printed(&e).map_err(|e| format!("{}\n content:\n{}\n", e, text))?;
                st.inc("other_load_errors");
                st.case(&(mode, &text));
            }
        }
    }
    Ok(())
}

const KINDS: [std::io::ErrorKind; 14] = [
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::NotConnected,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::AlreadyExists,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::Interrupted,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::Other,
];

fn os_error(r: &Result<(), BuildError>, errno: i32) -> Verdict {
    match *r {
        Err(BuildError::Io(ref e)) if e.raw_os_error() == Some(errno) => Ok(()),
        Err(ref e) => Err(format!("the operating system failed with errno {}, the load with {:?}\n", errno, e)),
        Ok(()) => Err(format!("the operating system failed with errno {}, the load succeeded\n", errno)),
    }
}
