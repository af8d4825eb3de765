//! Pattern files: a document model and writers for JSON and YAML with free choices of style.

use crate::gen::*;
use crate::props::grammar::print_freely;
use crate::tape::Tape;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    S(String),
    L(Vec<Doc>),
    M(Vec<(String, Doc)>),
    /// a scalar that is not a string: written as it is
    Raw(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tm {
    pub message: String,
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
}

#[derive(Clone, Debug)]
pub struct FPat {
    pub pat: Pat,
    pub text: String,
    pub uuid_text: String,
    pub tests: Option<Vec<Tm>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Json,
    Yaml,
}

fn key_ok(k: &str) -> bool {
    k.chars().count() <= 90
}

fn clean_map(m: Option<BTreeMap<String, String>>) -> Option<BTreeMap<String, String>> {
    m.map(|m| m.into_iter().filter(|kv| key_ok(&kv.0)).collect())
}

pub fn uuid_text(t: &mut Tape, u: &[u8; 16]) -> String {
    let s = uuid_str(u);
    match t.below(6) {
        0 => s.replace('-', ""),
        1 => s.to_uppercase(),
        2 => s.replace('-', "").to_uppercase(),
        _ => s,
    }
}

pub fn gen_tests(t: &mut Tape, po: &Pools, p: &Pat) -> Option<Vec<Tm>> {
    if t.chance(1, 3) {
        return None;
    }
    let n = size(t, 3, 40);
    let mut v = Vec::new();
    for _ in 0..n {
        let message = match t.below(3) {
            0 => word(t, po),
            _ => instance(t, &p.items, &po.alpha),
        };
        let values = if t.chance(1, 2) {
            let mut m = BTreeMap::new();
            for _ in 0..size(t, 3, 40) {
                m.insert(word(t, po), word(t, po));
            }
            Some(m)
        } else {
            None
        };
        let tags = if t.chance(1, 2) { Some((0..size(t, 3, 40)).map(|_| word(t, po)).collect()) } else { None };
        v.push(Tm { message, values: clean_map(values), tags });
    }
    Some(v)
}

/// a pattern file's content
pub fn gen_file(t: &mut Tape, tests: bool) -> (Vec<FPat>, Pools) {
    let pr = Profile { only_grammar: true, meta: true, max_pats: 5, max_items: 4, ..Profile::default() };
    let mut po = pools(t, &pr);
    let pats = if t.chance(1, 12) { Vec::new() } else { gen_pats(t, &mut po, &pr) };
    let mut out = Vec::new();
    for mut p in pats {
        p.values = clean_map(p.values);
        let text = print_freely(t, &p.items);
        let uuid_text = uuid_text(t, &p.uuid);
        let tests = if tests { gen_tests(t, &po, &p) } else { None };
        out.push(FPat { pat: p, text, uuid_text, tests });
    }
    if out.len() > 1 && t.chance(1, 6) {
        // nothing forbids two patterns with one UUID
        for _ in 0..t.range(1, 2) {
            let i = t.below(out.len());
            let j = t.below(out.len());
            out[i].pat.uuid = out[j].pat.uuid;
            out[i].uuid_text = uuid_text(t, &out[j].pat.uuid);
        }
    }
    (out, po)
}

fn shuffle<T>(t: &mut Tape, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = i - t.below(i + 1);
        v.swap(i, j);
    }
}

fn strings(v: &[String]) -> Doc {
    Doc::L(v.iter().map(|x| Doc::S(x.clone())).collect())
}

fn map(m: &BTreeMap<String, String>) -> Doc {
    Doc::M(m.iter().map(|(k, v)| (k.clone(), Doc::S(v.clone()))).collect())
}

pub fn to_doc(t: &mut Tape, pats: &[FPat]) -> Doc {
    let mut l = Vec::new();
    for f in pats {
        let mut m = vec![("uuid".to_owned(), Doc::S(f.uuid_text.clone())), ("pattern".to_owned(), Doc::S(f.text.clone()))];
        if let Some(ref n) = f.pat.name {
            m.push(("name".into(), Doc::S(n.clone())));
        }
        if let Some(ref v) = f.pat.values {
            m.push(("values".into(), map(v)));
        }
        if let Some(ref v) = f.pat.tags {
            m.push(("tags".into(), strings(v)));
        }
        if let Some(ref ts) = f.tests {
            let mut v = Vec::new();
            for x in ts {
                let mut m = vec![("message".to_owned(), Doc::S(x.message.clone()))];
                if let Some(ref v) = x.values {
                    m.push(("values".into(), map(v)));
                }
                if let Some(ref v) = x.tags {
                    m.push(("tags".into(), strings(v)));
                }
                shuffle(t, &mut m);
                v.push(Doc::M(m));
            }
            m.push(("test_messages".into(), Doc::L(v)));
        }
        shuffle(t, &mut m);
        l.push(Doc::M(m));
    }
    Doc::M(vec![("patterns".into(), Doc::L(l))])
}

// ---- JSON ---------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct Style {
    blanks: usize,
    escapes: usize,
}

fn blank(t: &mut Tape, o: &mut String, st: Style) {
    if st.blanks > 0 && t.chance(st.blanks, 10) {
        for _ in 0..t.range(1, 3) {
            o.push(*t.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn json_string(t: &mut Tape, o: &mut String, s: &str, st: Style) {
    o.push('"');
    let free = s.len() < 200;
    for c in s.chars() {
        let esc = free && st.escapes > 0 && t.chance(st.escapes, 20);
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if !esc => o.push_str("\\n"),
            '\t' if !esc => o.push_str("\\t"),
            '\r' if !esc => o.push_str("\\r"),
            '\u{8}' if !esc => o.push_str("\\b"),
            '\u{c}' if !esc => o.push_str("\\f"),
            '/' if esc => o.push_str("\\/"),
            c if esc || (c as u32) < 0x20 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b).iter() {
                    if u & 1 == 0 {
                        o.push_str(&format!("\\u{:04x}", u));
                    } else {
                        o.push_str(&format!("\\u{:04X}", u));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn json(t: &mut Tape, o: &mut String, d: &Doc, st: Style) {
    blank(t, o, st);
    match *d {
        Doc::S(ref s) => json_string(t, o, s, st),
        Doc::Raw(ref s) => o.push_str(s),
        Doc::L(ref v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                json(t, o, x, st);
            }
            blank(t, o, st);
            o.push(']');
        }
        Doc::M(ref v) => {
            o.push('{');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                blank(t, o, st);
                json_string(t, o, &x.0, st);
                blank(t, o, st);
                o.push(':');
                json(t, o, &x.1, st);
            }
            blank(t, o, st);
            o.push('}');
        }
    }
    blank(t, o, st);
}

pub fn write_json(t: &mut Tape, d: &Doc) -> String {
    let st = Style { blanks: *t.pick(&[0usize, 1, 5]), escapes: *t.pick(&[0usize, 1, 6]) };
    let mut o = String::new();
    json(t, &mut o, d, st);
    o
}

// ---- YAML ---------------------------------------------------------------------------------------

fn yaml_double(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\0"),
            c if (c as u32) < 0x20 || (0x7f..0xa1).contains(&(c as u32)) => o.push_str(&format!("\\x{:02x}", c as u32)),
            '\u{2028}' => o.push_str("\\L"),
            '\u{2029}' => o.push_str("\\P"),
            c if c as u32 == 0xfeff || (0xfff0..0x10000).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if c as u32 >= 0x10000 && (c as u32) & 1 == 0 => o.push_str(&format!("\\U{:08x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn plain_ok(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')
        && s.parse::<f64>().is_err()
        && !["true", "false", "null", "yes", "no", "on", "off", "y", "n"].contains(&s.to_lowercase().as_str())
}

fn single_ok(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| (c as u32) >= 0x20 && (c as u32) < 0x2000 && !(0x7f..0xa1).contains(&(c as u32)))
}

fn yaml_scalar(t: &mut Tape, o: &mut String, s: &str) {
    match t.below(4) {
        0 if plain_ok(s) => o.push_str(s),
        1 if single_ok(s) => {
            o.push('\'');
            o.push_str(&s.replace('\'', "''"));
            o.push('\'');
        }
        _ => yaml_double(o, s),
    }
}

fn yaml_key(t: &mut Tape, o: &mut String, s: &str) {
    if plain_ok(s) && t.chance(3, 4) {
        o.push_str(s);
    } else {
        yaml_double(o, s);
    }
}

fn yaml_flow(t: &mut Tape, o: &mut String, d: &Doc) {
    match *d {
        Doc::S(ref s) => yaml_double(o, s),
        Doc::Raw(ref s) => o.push_str(s),
        Doc::L(ref v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                yaml_flow(t, o, x);
            }
            o.push(']');
        }
        Doc::M(ref v) => {
            o.push('{');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                yaml_key(t, o, &x.0);
                o.push_str(": ");
                yaml_flow(t, o, &x.1);
            }
            o.push('}');
        }
    }
}

/// writes the value after "key:" or "-"; ends the line
fn yaml_block(t: &mut Tape, o: &mut String, d: &Doc, indent: usize, nl: &str, after_dash: bool) {
    let flow = match *d {
        Doc::L(ref v) => v.is_empty() || t.chance(1, 5),
        Doc::M(ref v) => v.is_empty() || t.chance(1, 8),
        _ => true,
    };
    if flow {
        o.push(' ');
        match *d {
            Doc::S(ref s) => yaml_scalar(t, o, s),
            _ => yaml_flow(t, o, d),
        }
        if t.chance(1, 12) {
            o.push_str(" # comment");
        }
        o.push_str(nl);
        return;
    }
    match *d {
        Doc::L(ref v) => {
            o.push_str(nl);
            for x in v {
                o.push_str(&" ".repeat(indent));
                o.push('-');
                yaml_block(t, o, x, indent + 2, nl, true);
            }
        }
        Doc::M(ref v) => {
            let mut first = after_dash && t.chance(3, 4);
            if first {
                o.push(' ');
            } else {
                o.push_str(nl);
            }
            for x in v {
                if !first {
                    o.push_str(&" ".repeat(indent));
                }
                first = false;
                yaml_key(t, o, &x.0);
                o.push(':');
                let step = *t.pick(&[2usize, 4, 1]);
                yaml_block(t, o, &x.1, indent + step, nl, false);
            }
        }
        _ => unreachable!(),
    }
}

pub fn write_yaml(t: &mut Tape, d: &Doc) -> String {
    let nl = if t.chance(1, 8) { "\r\n" } else { "\n" };
    let mut o = String::new();
    if t.chance(1, 4) {
        o.push_str("---");
        o.push_str(nl);
    }
    if t.chance(1, 8) {
        o.push_str("# patterns");
        o.push_str(nl);
    }
    match *d {
        Doc::M(ref v) if !v.is_empty() && !t.chance(1, 8) => {
            for x in v {
                yaml_key(t, &mut o, &x.0);
                o.push(':');
                let step = t.range(1, 4);
                yaml_block(t, &mut o, &x.1, step, nl, false);
            }
        }
        _ => {
            yaml_flow(t, &mut o, d);
            o.push_str(nl);
        }
    }
    o
}

pub fn write(t: &mut Tape, d: &Doc, f: Format) -> String {
    match f {
        Format::Json => write_json(t, d),
        Format::Yaml => write_yaml(t, d),
    }
}

pub fn extension(t: &mut Tape, f: Format) -> &'static str {
    match f {
        Format::Json => "json",
        Format::Yaml => *t.pick(&["yaml", "yml", "YAML", "YML"]),
    }
}
