//! C21: utils/pdb2adb, run with stand-ins for the Perl modules that are not installed (/verif/pdb).

use super::files::TempFile;
use super::grammar::same_tokens;
use super::{Env, Verdict};
use crate::gen::*;
use crate::model::*;
use crate::rt::tgt;
use crate::stats::Stats;
use crate::tape::Tape;
use actiondb::matcher::PatternLoader;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};

pub const RULE21: &str = "a case is one patterndb file with several rulesets, rules, patterns, examples, tags and values, written with free choices of layout, quoting, entities and CDATA, converted with varying options, and the result loaded by actiondb and compared pattern by pattern; non-trivial when at least one pattern with a parser was converted and the file was not seen before";

const LETTERS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

/// a piece of a patterndb pattern: how it is written and what it has to become (None: unsupported)
struct Piece {
    text: String,
    items: Option<Vec<Item>>,
    kind: &'static str,
}

struct Example {
    program: String,
    message: String,
    values: Vec<(String, String)>,
}

struct Rule {
    id: [u8; 16],
    patterns: Vec<Vec<Piece>>,
    examples: Vec<Example>,
    tags: Vec<String>,
    values: Vec<(String, String)>,
}

struct Set {
    name: String,
    programs: Vec<String>,
    rules: Vec<Rule>,
}

fn xml_char(t: &mut Tape) -> char {
    let c = match t.below(8) {
        0 => any_char(t),
        1 => *t.pick(&['<', '>', '&', '"', '\'', ';', '#', ']']),
        2 => *t.pick(&['%', '{', '}', '\\', ':', '(', ')', '$']),
        3 => *t.pick(&['\n', '\t', ' ', ' ']),
        _ => *t.pick(&['a', 'b', 'Z', '0', '1', ' ', ' ', '-', '.', '[', '=', '/']),
    };
    let ok = c == '\n' || c == '\t' || (c >= ' ' && c != '\u{7f}' && c != '\u{fffe}' && c != '\u{ffff}');
    if ok && c != '@' {
        c
    } else {
        '_'
    }
}

/// some text: not blank, so that no XML parser drops it
fn text(t: &mut Tape, lo: usize, hi: usize) -> String {
    if t.chance(1, 30) {
        // false to Perl
        return "0".into();
    }
    let n = if t.chance(1, 30) { size(t, hi, 600) } else { t.range(lo, hi) };
    let mut s: String = (0..n.max(lo)).map(|_| xml_char(t)).collect();
    if t.chance(1, 8) && !s.is_empty() {
        // several of what has to be escaped
        for _ in 0..t.range(1, 3) {
            let more = t.pick(&["%{", "%{INT}", "%%{", "%{SET(\"a\"):x}", "{", "\\%\\{", "}"]);
            s.push_str(more);
        }
    }
    if !s.is_empty() && t.chance(1, 5) {
        // what may run together with a neighbour
        match t.below(3) {
            0 => s.insert(0, '{'),
            1 => s.push('%'),
            _ => s.push('\\'),
        }
    }
    if !s.is_empty() && s.chars().all(|c| c.is_whitespace()) {
        s.push('x');
    }
    s
}

fn key(t: &mut Tape) -> String {
    (*t.pick(&["x", "y", "usracct.username", "_k9", "a.b.c", ".dict", "secevt.verdict", "X1"])).to_owned()
}

fn param(t: &mut Tape, lo: usize, hi: usize) -> String {
    if t.chance(1, 20) {
        return "0".into();
    }
    let mut s: String = (0..t.range(lo, hi)).map(|_| xml_char(t)).collect();
    if t.chance(1, 8) {
        s.push('%');
    }
    if s.is_empty() || s.chars().all(|c| c.is_whitespace()) {
        s.push(*t.pick(&[':', ' ', ',', '-', ']']));
    }
    s
}

fn pieces(t: &mut Tape) -> Vec<Piece> {
    let mut v: Vec<Piece> = Vec::new();
    let n = t.range(1, 6);
    if t.chance(1, 40) {
        return vec![Piece { text: "0".into(), items: Some(vec![Item::Lit("0".into())]), kind: "piece_text" }];
    }
    for _ in 0..n {
        let lit = |s: String| Piece { text: s.clone(), items: Some(vec![Item::Lit(s)]), kind: "piece_text" };
        match t.weighted(&[6, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 2]) {
            0 => v.push(lit(text(t, 1, 8))),
            k => {
                let name = if t.chance(1, 5) { None } else { Some(key(t)) };
                let shown = name.clone().unwrap_or_default();
                let name = Some(name.unwrap_or("pdb2adb2ignore".into()));
                let greedy = Item::P(P::Greedy { end: None, name: name.clone() });
                let set = |s: String, name: Option<String>| Item::P(P::Set { set: s, min: None, max: None, name });
                v.push(match k {
                    1 => {
                        let short = shown.is_empty() && t.chance(1, 2);
                        Piece { text: if short { "@NUMBER@".into() } else { format!("@NUMBER:{}@", shown) }, items: Some(vec![Item::P(P::Int { min: None, max: None, name })]), kind: "piece_number" }
                    }
                    2 => {
                        let end = param(t, 1, 3);
                        Piece { text: format!("@ESTRING:{}:{}@", shown, end), items: Some(vec![greedy, Item::Lit(end)]), kind: "piece_estring" }
                    }
                    3 => {
                        let q = *t.pick(&["\"", "'", "()", "[]", "<>", "::", "{}", "%%", "}{", "\\\\", "%{", "0"]);
                        let (a, b) = (q.chars().next().unwrap(), q.chars().last().unwrap());
                        Piece { text: format!("@QSTRING:{}:{}@", shown, q), items: Some(vec![Item::Lit(a.to_string()), greedy, Item::Lit(b.to_string())]), kind: "piece_qstring" }
                    }
                    4 => Piece { text: format!("@STRING:{}@", shown), items: Some(vec![set(LETTERS.into(), name)]), kind: "piece_string" },
                    5 => {
                        let more = param(t, 1, 4);
                        if more.contains('"') {
                            v.push(Piece { text: format!("@STRING:{}:{}@", shown, more), items: None, kind: "piece_unsupported" });
                            continue;
                        }
                        Piece { text: format!("@STRING:{}:{}@", shown, more), items: Some(vec![set(format!("{}{}", LETTERS, more), name)]), kind: "piece_string_with_more_characters" }
                    }
                    6 => {
                        let mut chars = param(t, 1, 6);
                        if t.chance(3, 4) {
                            chars = chars.replace('"', "!");
                        }
                        if chars.contains('"') {
                            v.push(Piece { text: format!("@SET:{}:{}@", shown, chars), items: None, kind: "piece_unsupported" });
                            continue;
                        }
                        Piece { text: format!("@SET:{}:{}@", shown, chars), items: Some(vec![set(chars, name)]), kind: "piece_set" }
                    }
                    7 => Piece { text: format!("@ANYSTRING:{}@", shown), items: Some(vec![greedy]), kind: "piece_anystring" },
                    8 => Piece { text: format!("@HOSTNAME:{}@", shown), items: Some(vec![set(format!("{}-.", LETTERS), name)]), kind: "piece_hostname" },
                    9 => {
                        let ty = *t.pick(&["FLOAT", "DOUBLE"]);
                        Piece { text: format!("@{}:{}@", ty, shown), items: Some(vec![set("0123456789.".into(), name)]), kind: "piece_float" }
                    }
                    10 => {
                        let ty = *t.pick(&["IPvANY", "IPv4", "MACADDR", "LLADDR"]);
                        Piece { text: format!("@{}:{}@", ty, shown), items: Some(vec![greedy]), kind: "piece_address" }
                    }
                    _ => {
                        if t.chance(1, 2) {
                            Piece { text: "@@".into(), items: Some(vec![Item::Lit("@".into())]), kind: "piece_at_sign" }
                        } else {
                            let near;
                            let ty = if t.chance(1, 2) {
                                *t.pick(&["PCRE", "EMAIL", "XIPv4", "NLSTRING", "OPTIONALSET", "STRINGS", "NUMBERS", "XHOSTNAME", "ANYSTRINGS", "XSET"])
                            } else {
                                let known = *t.pick(&["ESTRING", "NUMBER", "HOSTNAME", "STRING", "PCRE", "ANYSTRING", "SET"]);
                                near = match t.below(4) {
                                    0 => format!("{}X", known),
                                    1 => format!("X{}", known),
                                    2 => known.to_lowercase(),
                                    _ => format!("{}{}", known, known),
                                };
                                &near[..]
                            };
                            Piece { text: format!("@{}:{}:x@", ty, shown), items: None, kind: "piece_unsupported" }
                        }
                    }
                });
            }
        }
    }
    v
}

/// what the pattern has to become; None: it cannot be converted
fn converted(ps: &[Piece], prefix: Option<&str>) -> Option<Vec<Item>> {
    let mut v: Vec<Item> = Vec::new();
    if let Some(p) = prefix {
        v.push(Item::Lit(format!("{}: ", p)));
    }
    for p in ps {
        for it in p.items.as_ref()? {
            if let (&Item::Lit(ref new), Some(&mut Item::Lit(ref mut old))) = (it, v.last_mut()) {
                old.push_str(new);
                continue;
            }
            v.push(it.clone());
        }
    }
    for i in 0..v.len() {
        let follow = match v.get(i + 1) {
            Some(&Item::Lit(ref l)) => Some(l.clone()),
            _ => None,
        };
        if let Item::P(P::Greedy { ref mut end, .. }) = v[i] {
            *end = follow;
        }
    }
    Some(v)
}

/// does the text of the pieces mean these pieces, and can the syntax of actiondb express them?
fn clear(ps: &[Piece], prefix: &str) -> bool {
    // "@@" behind the end text or the characters of a parser could be read in two ways
    for w in ps.windows(2) {
        if w[1].kind == "piece_at_sign" && w[0].text.matches(':').count() > 1 {
            return false;
        }
    }
    // what the syntax of actiondb cannot express
    for prefix in &[None, Some(prefix)] {
        for it in converted(ps, *prefix).unwrap_or_default() {
            if let Item::Lit(ref l) = it {
                if l.contains("\\%\\{") {
                    return false;
                }
            }
        }
    }
    // nothing at all is no pattern
    let whole: String = ps.iter().map(|p| p.text.as_str()).collect();
    !whole.chars().all(|c| c.is_whitespace())
}

fn escape_xml(t: &mut Tape, s: &str, quote: Option<char>) -> String {
    if quote.is_none() && !s.contains("]]>") && t.chance(1, 6) {
        return format!("<![CDATA[{}]]>", s);
    }
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '>' => o.push_str("&gt;"),
            '"' if quote == Some('"') => o.push_str("&quot;"),
            '\'' if quote == Some('\'') => o.push_str(if t.chance(1, 2) { "&apos;" } else { "&#39;" }),
            '\n' | '\t' if quote.is_some() => o.push_str(&format!("&#{};", c as u32)),
            c if t.chance(1, 60) => o.push_str(&format!("&#x{:x};", c as u32)),
            c => o.push(c),
        }
    }
    o
}

struct Xml<'a> {
    t: &'a mut Tape,
    o: String,
    depth: usize,
    pretty: bool,
}

impl<'a> Xml<'a> {
    fn nl(&mut self) {
        if self.pretty {
            self.o.push('\n');
            for _ in 0..self.depth {
                self.o.push(' ');
            }
            if self.t.chance(1, 25) {
                self.o.push_str("<!-- a remark with <pattern> in it -->");
            }
        }
    }
    fn tag(&mut self, name: &str, atts: &[(&str, &str)]) {
        self.o.push('<');
        self.o.push_str(name);
        for &(k, v) in atts {
            let q = if self.t.chance(1, 2) { '\'' } else { '"' };
            let v = escape_xml(self.t, v, Some(q));
            self.o.push_str(&format!(" {}={}{}{}", k, q, v, q));
        }
        self.o.push('>');
    }
    fn open(&mut self, name: &str, atts: &[(&str, &str)]) {
        self.nl();
        self.tag(name, atts);
        self.depth += 1;
    }
    fn close(&mut self, name: &str) {
        self.depth -= 1;
        self.nl();
        self.o.push_str(&format!("</{}>", name));
    }
    fn leaf(&mut self, name: &str, atts: &[(&str, &str)], text: &str) {
        self.nl();
        self.tag(name, atts);
        let s = escape_xml(self.t, text, None);
        self.o.push_str(&s);
        self.o.push_str(&format!("</{}>", name));
    }
    /// a list of elements, with or without an element around it
    fn list(&mut self, around: &str, wrap: bool, n: usize, f: &mut dyn FnMut(&mut Xml, usize)) {
        let wrap = wrap && (n > 0 || self.t.chance(1, 4));
        if wrap {
            self.open(around, &[]);
        }
        for i in 0..n {
            f(self, i);
        }
        if wrap {
            self.close(around);
        }
    }
}

fn write(t: &mut Tape, sets: &[Set]) -> String {
    let pretty = t.chance(2, 3);
    let wrap = t.chance(1, 2);
    let mut x = Xml { t, o: String::new(), depth: 0, pretty };
    if x.t.chance(1, 2) {
        x.o.push_str("<?xml version='1.0' encoding='UTF-8'?>");
    }
    x.open("patterndb", &[("version", "4"), ("pub_date", "2015-01-01")]);
    for (n, s) in sets.iter().enumerate() {
        x.open("ruleset", &[("name", &s.name), ("id", &format!("set-{}", n))]);
        if x.t.chance(1, 3) {
            x.leaf("description", &[], " about @NUMBER:x@ ");
        }
        x.list("patterns", wrap, s.programs.len(), &mut |x, i| x.leaf("pattern", &[], &s.programs[i]));
        x.list("rules", true, s.rules.len(), &mut |x, i| {
            let r = &s.rules[i];
            let id = if x.t.chance(1, 5) { uuid_str(&r.id).to_uppercase() } else { uuid_str(&r.id) };
            match x.t.below(6) {
                0 => x.open("rule", &[("id", &id)]),
                1 => x.open("rule", &[("context-scope", "host"), ("context-id", "a"), ("context-timeout", "10"), ("id", &id), ("class", "violation"), ("provider", "p")]),
                _ => x.open("rule", &[("provider", "x"), ("id", &id), ("class", "system")]),
            }
            x.list("patterns", wrap, r.patterns.len(), &mut |x, i| {
                let s: String = r.patterns[i].iter().map(|p| p.text.as_str()).collect();
                x.leaf("pattern", &[], &s)
            });
            x.list("examples", wrap, r.examples.len(), &mut |x, i| {
                let e = &r.examples[i];
                x.open("example", &[]);
                x.leaf("test_message", &[("program", &e.program)], &e.message);
                if !e.values.is_empty() || x.t.chance(1, 4) {
                    x.list("test_values", true, e.values.len(), &mut |x, i| x.leaf("test_value", &[("name", &e.values[i].0)], &e.values[i].1));
                }
                x.close("example");
            });
            x.list("tags", wrap, r.tags.len(), &mut |x, i| x.leaf("tag", &[], &r.tags[i]));
            x.list("values", wrap, r.values.len(), &mut |x, i| x.leaf("value", &[("name", &r.values[i].0)], &r.values[i].1));
            if x.t.chance(1, 6) {
                // none of this is converted
                x.leaf("description", &[], "about a rule @NUMBER:x@");
                x.leaf("url", &[], "http://a.b/c");
                x.leaf("urls", &[], " ");
            }
            if x.t.chance(1, 6) {
                x.open("actions", &[]);
                for _ in 0..x.t.range(1, 2) {
                    x.open("action", &[("trigger", "match"), ("condition", "'$x' == 'y'")]);
                    let bare = x.t.chance(1, 4);
                    if bare {
                        x.open("create-context", &[("context-id", "c")]);
                    }
                    if !(bare && x.t.chance(1, 2)) {
                        x.open("message", &[("inherit-properties", "TRUE")]);
                        if x.t.chance(2, 3) {
                            x.list("values", true, 1, &mut |x, _| x.leaf("value", &[("name", "x")], "an action's value"));
                        }
                        if x.t.chance(2, 3) {
                            x.list("tags", true, 1, &mut |x, _| x.leaf("tag", &[], "an action's tag"));
                        }
                        x.close("message");
                    }
                    if bare {
                        x.close("create-context");
                    }
                    x.close("action");
                }
                x.close("actions");
            }
            x.close("rule");
        });
        x.close("ruleset");
    }
    x.close("patterndb");
    x.o
}

fn pairs(t: &mut Tape, n: usize) -> Vec<(String, String)> {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        m.insert(key(t), text(t, 0, 6));
    }
    m.into_iter().collect()
}

fn generate(t: &mut Tape) -> Vec<Set> {
    let mut next = 0u8;
    let n_sets = t.range(1, 3);
    (0..n_sets)
        .map(|n| {
            let mut programs: Vec<String> = (0..1 + t.below(8) / 7).map(|_| (*t.pick(&["sshd", "su", "kernel", "a b", "x%y", "0", "a%{b", "%", "%{INT}", "x\\"])).to_owned()).collect();
            if t.chance(1, 12) {
                programs.clear();
            }
            let rules = (0..t.range(0, 4))
                .map(|_| {
                    next += 1;
                    let mut id = [0x10u8; 16];
                    id[0] = next;
                    id[15] = 0xa0 + n as u8;
                    let mut patterns = Vec::new();
                    for _ in 0..*t.pick(&[1, 1, 1, 2, 2, 3, 5]) {
                        let ps = pieces(t);
                        // with and without the program in front
                        if clear(&ps, programs.first().map_or("", |p| p)) {
                            patterns.push(ps);
                        }
                    }
                    if t.chance(1, 25) {
                        patterns.clear();
                    } else if patterns.is_empty() {
                        patterns.push(vec![Piece { text: "a".into(), items: Some(vec![Item::Lit("a".into())]), kind: "piece_text" }]);
                    }
                    let examples = (0..t.below(3))
                        .map(|_| {
                            let program = (*t.pick(&["sshd", "su", "p'q", "0"])).to_owned();
                            let message = text(t, 1, 20);
                            let n = t.below(3);
                            Example { program, message, values: pairs(t, n) }
                        })
                        .collect();
                    let tags = (0..t.below(3)).map(|_| text(t, 1, 5)).collect();
                    let n = t.below(3);
                    let mut values = pairs(t, n);
                    if t.chance(1, 8) {
                        values.push(("macro".into(), "a $(grep x)".into()));
                    }
                    Rule { id, patterns, examples, tags, values }
                })
                .collect();
            let name = if n == 0 && t.chance(1, 8) { "0".to_owned() } else { format!("{}{}", t.pick(&["ssh", "a & b", "\u{e9}", "<x>", "s_"]), n) };
            Set { name, programs, rules }
        })
        .collect()
}

struct Want {
    uuid: Option<[u8; 16]>,
    set: String,
    items: Vec<Item>,
    tests: Vec<(String, BTreeMap<String, String>)>,
    values: BTreeMap<String, String>,
    tags: Vec<String>,
    shown: String,
}

pub fn run(t: &mut Tape, st: &mut Stats, env: &Env) -> Verdict {
    let sets = generate(t);
    let with_program = t.chance(1, 3);
    let with_examples = !t.chance(1, 6);
    let xml = write(t, &sets);
    let at = TempFile(format!("{}/db.xml", env.scratch));
    super::files::put(&at.0, xml.as_bytes());

    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let verif = std::env::var("VERIF_HOME").unwrap_or("/verif".into());
    let script = format!("{}/utils/pdb2adb", repo);
    if !std::path::Path::new(&script).exists() {
        return Err("utils/pdb2adb is gone".into());
    }
    let mut c = Command::new("perl");
    c.arg(format!("-I{}/pdb", verif)).arg(&script);
    if with_program {
        c.arg(*t.pick(&["-P", "--program"]));
    } else if t.chance(1, 6) {
        c.arg("--no-program");
    }
    if !with_examples {
        c.arg("--no-examples");
    } else if t.chance(1, 6) {
        c.arg(*t.pick(&["-e", "--examples"]));
    }
    if t.chance(1, 6) {
        c.arg(*t.pick(&["-p", "--patterns"]));
    }
    c.arg(&at.0).stdin(Stdio::null()).env_remove("PERL5LIB").env_remove("PERL5OPT");
    let out = c.output().expect("run perl");
    let complaints = String::from_utf8_lossy(&out.stderr).into_owned();
    let shown = || format!("\nfile:\n{}\noptions: program={} examples={}\noutput:\n{}\nstderr:\n{}", xml, with_program, with_examples, String::from_utf8_lossy(&out.stdout), complaints);
    if complaints.contains("Can't locate") || complaints.contains("via package \"XML::Twig") || complaints.contains("via package \"Getopt") {
        panic!("the stand-ins for the Perl modules do not suffice: {}", complaints);
    }
    if !out.status.success() {
        return Err(format!("the conversion of a valid file fails with {}{}", out.status, shown()));
    }

    // what has to come out
    let mut wants: Vec<Want> = Vec::new();
    for s in &sets {
        for r in &s.rules {
            if s.programs.is_empty() {
                if !complaints.to_lowercase().contains(&uuid_str(&r.id)) {
                    return Err(format!("the rule {} of a ruleset without a program is left out without a word{}", uuid_str(&r.id), shown()));
                }
                st.inc("rules_without_program");
                continue;
            }
            // what the user has to look after
            let mut hints = r.values.iter().filter(|kv| kv.1.contains("$(")).count();
            if s.programs.len() > 1 {
                hints += 1;
                st.inc("rules_with_several_programs");
            }
            if r.patterns.len() > 1 && with_examples && !r.examples.is_empty() {
                hints += 1;
                st.inc("rules_with_several_patterns_and_examples");
            }
            let told = complaints.to_lowercase().matches(&uuid_str(&r.id)).count();
            if told < hints || (hints == 0 && told > 0) {
                return Err(format!("{} things are to be told about the rule {}, {} are{}", hints, uuid_str(&r.id), told, shown()));
            }
            for (k, ps) in r.patterns.iter().enumerate() {
                let prefix = if with_program { Some(s.programs[0].as_str()) } else { None };
                match converted(ps, prefix) {
                    None => {
                        st.inc("unsupported_left_out");
                        let bad = ps.iter().find(|p| p.items.is_none()).unwrap();
                        let ty = bad.text.trim_matches('@').split(':').next().unwrap().to_owned();
                        if !complaints.contains(&ty) {
                            return Err(format!("a pattern with the unsupported parser {} is left out without a word{}", ty, shown()));
                        }
                    }
                    Some(items) => {
                        for p in ps {
                            st.inc(p.kind);
                        }
                        wants.push(Want {
                            uuid: if k == 0 { Some(r.id) } else { None },
                            set: s.name.clone(),
                            items,
                            tests: if with_examples {
                                r.examples
                                    .iter()
                                    .map(|e| {
                                        let m = if with_program { format!("{}: {}", e.program, e.message) } else { e.message.clone() };
                                        (m, e.values.iter().cloned().collect())
                                    })
                                    .collect()
                            } else {
                                Vec::new()
                            },
                            values: r.values.iter().filter(|kv| !kv.1.contains("$(")).cloned().collect(),
                            tags: r.tags.clone(),
                            shown: ps.iter().map(|p| p.text.as_str()).collect(),
                        });
                    }
                }
            }
        }
    }
    let json = TempFile(format!("{}/converted.json", env.scratch));
    super::files::put(&json.0, &out.stdout);
    let got = match tgt(|| PatternLoader::load_file(&json.0)) {
        Ok(f) => f,
        Err(e) => return Err(format!("actiondb rejects the converted file: {}{}", e, shown())),
    };
    let mut pats: Vec<_> = tgt(|| {
        let mut v = Vec::new();
        for p in got.into_iter() {
            v.push(p);
        }
        v
    })
    .into_iter()
    .filter_map(|r| r.ok())
    .collect();
    let (mut uuids, mut names) = (BTreeSet::new(), BTreeSet::new());
    for p in &pats {
        if !uuids.insert(tgt(|| p.uuid().to_string())) || !names.insert(tgt(|| p.name().map(|s| s.to_owned()))) {
            return Err(format!("two converted patterns share their UUID or name{}", shown()));
        }
    }
    // those whose UUID is known come first, lest another one that looks the same takes their place
    wants.sort_by_key(|w| w.uuid.is_none());
    for w in &wants {
        let mut why = String::from("no pattern is left for it");
        let mut found = None;
        for (i, p) in pats.iter_mut().enumerate() {
            if let Some(ref u) = w.uuid {
                if tgt(|| p.uuid().as_bytes() != u) {
                    continue;
                }
            }
            match same(t, p, w) {
                Ok(()) => {
                    found = Some(i);
                    break;
                }
                Err(e) => why = e,
            }
        }
        match found {
            None => return Err(format!("the pattern {:?} ({:?}) is not converted faithfully: {}{}", w.shown, w.uuid.as_ref().map(uuid_str), why, shown())),
            Some(i) => {
                pats.remove(i);
                st.inc("patterns_converted");
            }
        }
    }
    if !pats.is_empty() {
        return Err(format!("{} more patterns than the rules give{}", pats.len(), shown()));
    }
    st.add("test_messages_carried_over", wants.iter().map(|w| w.tests.len() as u64).sum());
    if wants.iter().any(|w| w.items.iter().any(|i| if let Item::P(_) = *i { true } else { false })) {
        st.case(&xml);
        st.sample(|| xml.clone());
    }
    Ok(())
}

fn same(t: &mut Tape, p: &mut actiondb::matcher::Pattern, w: &Want) -> Result<(), String> {
    let name = tgt(|| p.name().unwrap_or("").to_owned());
    if !name.starts_with(&w.set) {
        return Err(format!("it is named {:?}, not after its ruleset {:?}", name, w.set));
    }
    let toks = tgt(|| p.pattern().clone());
    same_tokens(t, &toks, &w.items, false)?;
    let values = tgt(|| p.values().cloned()).unwrap_or_default();
    if values != w.values {
        return Err(format!("values {:?} instead of {:?}", values, w.values));
    }
    let tags = tgt(|| p.tags().map(|x| x.to_vec())).unwrap_or_default();
    if tags != w.tags {
        return Err(format!("tags {:?} instead of {:?}", tags, w.tags));
    }
    // they come from the last to the first
    let q = p.clone();
    let mut tests = Vec::new();
    tgt(|| {
        let mut q = q;
        while let Some(m) = q.pop_test_message() {
            tests.insert(0, (m.message().to_owned(), m.values().clone()));
        }
    });
    if tests != w.tests {
        return Err(format!("test messages {:?} instead of {:?}", tests, w.tests));
    }
    Ok(())
}
