//! C07, C17: pattern text against the independent recogniser.  C08: single parsers.

use super::Verdict;
use crate::gen::*;
use crate::model::*;
use crate::recog::*;
use crate::rt::tgt;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::grammar;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::parsers::{IntParser, OptionalParameter, Parser, ParserFactory};

pub const RULE7: &str = "a case is one pattern text: printed from a generated token sequence with varying spacing and parameter order, the same with character or token edits, or a soup of syntax fragments; non-trivial when it contains at least one %{ construct or escape and was not seen before";
pub const RULE17: &str = "a case is one invalid pattern text (edited valid text, fragment soup; several lines, CRLF, multi-byte text before the error); non-trivial when it was rejected with a position past its beginning and was not seen before";
pub const RULE8: &str = "a case is one parser (SET with any characters, INT, GREEDY; any limits and end text; built directly or by the grammar) and texts around its set, limits and end text; non-trivial when at least one text was accepted and one refused, and the case was not seen before";

const FRAG: &[&str] = &[
    "%{", "%{", "}", "SET", "INT", "GREEDY", "(", ")", "\"", "\"ab\"", "\"0123\"", "min_len", "max_len", "=", "1", "23", ",", ", ", ",  ",
    ":", "name", "a.b", "_x9", "-", " ", "a", "\\%\\{", "\\", "%", "{", "\n", "\r\n", "\u{e9}", "\u{1f600}", "%{INT}", "%{INT:n}",
    "%{GREEDY:g}", "%{SET(\"abc\")}", "%{SET(\"abc\",min_len=2):x}", "18446744073709551615", "18446744073709551616", "007", "\t", "%%{", "set", "int",
    "Int", "min_len=3", "max_len=5", "MIN_LEN", "min_le", ":1a", "::",
];

pub fn soup(t: &mut Tape) -> String {
    let n = size(t, 10, 300);
    let mut s = String::new();
    for _ in 0..n {
        match t.below(12) {
            0 => s.push(any_char(t)),
            1 => {
                let d = dict();
                let xs = if !d.new_strs.is_empty() { &d.new_strs } else { &d.strs };
                if !xs.is_empty() {
                    s.push_str(t.pick(xs));
                }
            }
            _ => s.push_str(t.pick(FRAG)),
        }
    }
    s
}

/// valid text with free choices of spacing, parameter order and leading zeros
pub fn print_freely(t: &mut Tape, items: &[Item]) -> String {
    let mut s = String::new();
    for it in items {
        match *it {
            Item::Lit(ref l) => s.push_str(&escape(l)),
            Item::P(ref p) => {
                let comma = |t: &mut Tape| format!(",{}", " ".repeat(if t.chance(1, 3) { size(t, 2, 40) } else { t.below(2) }));
                let name = p.name().map_or(String::new(), |n| format!(":{}", n));
                let mut opts: Vec<String> = Vec::new();
                let (min, max) = match *p {
                    P::Set { min, max, .. } | P::Int { min, max, .. } => (min, max),
                    _ => (None, None),
                };
                let num = |t: &mut Tape, n: usize| if t.chance(1, 10) { format!("{}{}", "0".repeat(t.range(1, 3)), n) } else { n.to_string() };
                if let Some(m) = min {
                    opts.push(format!("min_len={}", num(t, m)));
                }
                if let Some(m) = max {
                    opts.push(format!("max_len={}", num(t, m)));
                }
                if opts.len() == 2 && t.chance(1, 2) {
                    opts.swap(0, 1);
                }
                match *p {
                    P::Set { ref set, .. } => {
                        s.push_str("%{SET(\"");
                        s.push_str(set);
                        s.push('"');
                        for o in &opts {
                            s.push_str(&comma(t));
                            s.push_str(o);
                        }
                        s.push(')');
                    }
                    P::Int { .. } => {
                        s.push_str("%{INT");
                        if !opts.is_empty() {
                            s.push('(');
                            for (i, o) in opts.iter().enumerate() {
                                if i > 0 {
                                    s.push_str(&comma(t));
                                }
                                s.push_str(o);
                            }
                            s.push(')');
                        }
                    }
                    P::Greedy { .. } => s.push_str("%{GREEDY"),
                }
                s.push_str(&name);
                s.push('}');
            }
        }
    }
    s
}

fn syntax_edit(t: &mut Tape, s: &str) -> String {
    // edit near the syntax characters
    let marks: Vec<usize> = s
        .char_indices()
        .filter(|&(_, c)| "%{}()\",:=".contains(c) || c.is_ascii_uppercase() || c.is_ascii_digit())
        .map(|(i, _)| i)
        .collect();
    if marks.is_empty() {
        return format!("{}{}", s, t.pick(FRAG));
    }
    let i = *t.pick(&marks);
    let c = s[i..].chars().next().unwrap();
    let j = i + c.len_utf8();
    match t.below(7) {
        0 => format!("{}{}", &s[..i], &s[j..]),
        1 => format!("{}{}{}", &s[..i], t.pick(FRAG), &s[j..]),
        2 => format!("{}{}{}", &s[..i], t.pick(FRAG), &s[i..]),
        3 => format!("{}{}{}", &s[..j], t.pick(FRAG), &s[j..]),
        4 => s[..i].to_owned(),
        5 => s[..j].to_owned(),
        _ => {
            let k = *t.pick(&marks);
            if k > j {
                format!("{}{}", &s[..j], &s[k..])
            } else {
                format!("{}{}", s, &s[k..])
            }
        }
    }
}

pub fn gen_text(t: &mut Tape) -> String {
    if t.chance(1, 200) {
        // far more pieces than usual
        let unit = t.pick(&["%{INT}a", "%{INT:i} ", "%{SET(\"ab\"):x}.", "%{GREEDY:g},", "%{INT}", "\u{e9}%{INT:a.b}", "%%{INT}", "a\n%{SET(\"x\",2,3)}"]).to_string();
        let n = size(t, 40, 3000);
        let mut s = unit.repeat(n);
        if t.chance(1, 3) {
            s.push_str(t.pick(&["%{INT", "%{SET(\"\")}", "%{X}", "\\", "end"]));
        }
        return s;
    }
    let pr = Profile { only_grammar: true, max_pats: 1, max_items: 6, ..Profile::default() };
    match t.weighted(&[5, 6, 3]) {
        0 | 1 if false => String::new(),
        2 => soup(t),
        k => {
            let mut po = pools(t, &pr);
            let mut items = gen_items(t, &mut po, &pr, &[]);
            for i in 0..items.len() {
                let follow = match items.get(i + 1) {
                    Some(&Item::Lit(ref l)) => Some(l.clone()),
                    _ => None,
                };
                if let Item::P(P::Greedy { ref mut end, .. }) = items[i] {
                    *end = follow;
                }
            }
            if !expressible(&items) {
                return soup(t);
            }
            let mut s = print_freely(t, &items);
            if t.chance(1, 6) {
                // several lines
                s = s.replace(' ', t.pick(&["\n", "\r\n", "\n\n", "\r"]));
            }
            if k == 1 {
                for _ in 0..t.range(1, 2) {
                    s = if t.chance(3, 4) { syntax_edit(t, &s) } else { mutate(t, &s, &po.alpha) };
                }
            }
            s
        }
    }
}

/// texts which tell a parser from one with another set, limit or end text
pub fn probes(t: &mut Tape, p: &P, al: &Alpha) -> Vec<String> {
    let mut v = Vec::new();
    for _ in 0..4 {
        let mut s = sample_parser(t, p, al);
        match t.below(4) {
            0 => (),
            1 => s.push(al.ch(t)),
            2 => s.push(any_char(t)),
            _ => s = mutate(t, &s, al),
        }
        if let P::Greedy { end: Some(ref e), .. } = *p {
            if t.chance(3, 4) {
                s.push_str(e);
                if t.chance(1, 2) {
                    s.push_str(&al.text(t, 2));
                }
                if t.chance(1, 4) {
                    s.push_str(e);
                }
            }
        }
        v.push(s);
    }
    v.push(String::new());
    v
}

pub fn probe_limits(p: &P) -> Vec<String> {
    let (min, max, c) = match *p {
        P::Set { min, max, ref set, .. } => (min, max, set.chars().last().unwrap_or('a')),
        P::Int { min, max, .. } => (min, max, '7'),
        _ => return Vec::new(),
    };
    let mut v = Vec::new();
    for n in [min, max].iter().filter_map(|x| *x) {
        if n <= 5000 {
            for k in [n.saturating_sub(1), n, n + 1].iter() {
                let s: String = std::iter::repeat(c).take(*k).collect();
                v.push(format!("{}\u{0}", s));
                v.push(s);
            }
        }
    }
    v
}

pub fn check_parser(p: &P, x: &dyn Parser, text: &str) -> Result<bool, String> {
    let want = p.consume(text);
    let got = tgt(|| {
        x.parse(text).map(|r| {
            let at = r.value().as_ptr() as usize;
            let inside = r.value().is_empty() || at == text.as_ptr() as usize;
            let name_ok = r.parser().name().map(|n| n.to_owned()) == p.name().map(|n| n.to_owned());
            (r.value().to_owned(), inside, name_ok, std::str::from_utf8(r.value().as_bytes()).is_ok())
        })
    });
    match (want, got) {
        (None, None) => Ok(false),
        (Some(n), Some((v, inside, name_ok, utf8))) => {
            if v.as_bytes() != &text.as_bytes()[..n] || !utf8 {
                Err(format!("{:?} should consume {:?} of {:?}, but consumed {:?}", p, &text[..n], text, v))
            } else if !inside {
                Err(format!("{:?}: the value of {:?} is not the beginning of the given text", p, text))
            } else if !name_ok {
                Err(format!("{:?}: the result carries another name", p))
            } else {
                Ok(true)
            }
        }
        (w, g) => Err(format!(
            "{:?} on {:?}: should {}, but {}",
            p,
            text,
            w.map_or("refuse".into(), |n| format!("consume {:?}", &text[..n])),
            g.map_or("refused".into(), |v| format!("consumed {:?}", v.0))
        )),
    }
}

/// do the compiled tokens say what the items say?
pub fn same_tokens(t: &mut Tape, tokens: &[TokenType], items: &[Item], deep: bool) -> Result<u64, String> {
    if tokens.len() != items.len() {
        return Err(format!("{} tokens instead of {}: {:?}", tokens.len(), items.len(), tokens));
    }
    let mut probed = 0;
    for (k, (tok, it)) in tokens.iter().zip(items.iter()).enumerate() {
        match (tok, it) {
            (&TokenType::Literal(ref a), &Item::Lit(ref b)) => {
                if a != b {
                    return Err(format!("token {}: literal {:?} instead of {:?}", k, a, b));
                }
            }
            (&TokenType::Parser(ref x), &Item::P(ref p)) => {
                let name = tgt(|| x.name().map(|s| s.to_owned()));
                if name.as_ref().map(|s| s.as_str()) != p.name() {
                    return Err(format!("token {}: named {:?} instead of {:?}", k, name, p.name()));
                }
                let direct = build_parser(p);
                if tgt(|| direct.hash_os() != x.hash_os()) {
                    return Err(format!("token {}: {:?} is not the parser {:?} (differs from the directly built one {:?})", k, x, p, direct));
                }
                if deep {
                    let al = Alpha { chars: "ab1 \u{e9}".chars().collect() };
                    let mut v = probes(t, p, &al);
                    v.extend(probe_limits(p));
                    for s in v {
                        check_parser(p, &**x, &s).map_err(|e| format!("token {}: {}", k, e))?;
                        probed += 1;
                    }
                }
            }
            _ => return Err(format!("token {}: {:?} instead of {:?}", k, tok, it)),
        }
    }
    Ok(probed)
}

// ---- a parser factory of our own ------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Asked {
    Set(String, Option<String>, Vec<(String, usize)>),
    Int(Option<String>, Vec<(String, usize)>),
    Greedy(Option<String>, Option<String>),
}

thread_local!(static ASKED: std::cell::RefCell<Vec<Asked>> = std::cell::RefCell::new(Vec::new()));

struct Recording;

fn opts(o: Option<Vec<OptionalParameter>>) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = o
        .unwrap_or_default()
        .into_iter()
        .map(|x| match x {
            OptionalParameter::Int(k, n) => (k.to_owned(), n),
        })
        .collect();
    v.sort();
    v
}

fn own(s: Option<&str>) -> Option<String> {
    s.map(|x| x.to_owned())
}

/// hands out numbered parsers, so that their places in the compiled pattern can be seen
fn numbered(a: Asked) -> Box<dyn Parser> {
    ASKED.with(|x| {
        let mut v = x.borrow_mut();
        v.push(a);
        Box::new(IntParser::with_name(format!("{}", v.len() - 1)))
    })
}

impl ParserFactory for Recording {
    fn new_set<'a>(set: &str, name: Option<&str>, opt_params: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        numbered(Asked::Set(set.to_owned(), own(name), opts(opt_params)))
    }
    fn new_int(name: Option<&str>, opt_params: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        numbered(Asked::Int(own(name), opts(opt_params)))
    }
    fn new_greedy(name: Option<&str>, end_string: Option<&str>) -> Box<dyn Parser> {
        numbered(Asked::Greedy(own(name), own(end_string)))
    }
}

fn asked_for(p: &P) -> Asked {
    let o = |min: Option<usize>, max: Option<usize>| {
        let mut v = Vec::new();
        if let Some(n) = max {
            v.push(("max_len".to_owned(), n));
        }
        if let Some(n) = min {
            v.push(("min_len".to_owned(), n));
        }
        v
    };
    match *p {
        P::Set { ref set, min, max, ref name } => Asked::Set(set.clone(), name.clone(), o(min, max)),
        P::Int { min, max, ref name } => Asked::Int(name.clone(), o(min, max)),
        P::Greedy { ref end, ref name } => Asked::Greedy(name.clone(), end.clone()),
    }
}

/// the text compiled with a factory of our own: each parser of the result is one that was asked for as spelled
fn with_factory(s: &str, want: Option<&[Item]>) -> Result<(), String> {
    ASKED.with(|x| x.borrow_mut().clear());
    let got = tgt(|| grammar::parser::pattern_with_factory::<Recording>(s));
    let asked = ASKED.with(|x| x.borrow().clone());
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(tokens)) => Err(format!("invalid text is accepted as {:?}", tokens)),
        (Some(_), Err(e)) => Err(format!("valid text is rejected: {}", e)),
        (Some(items), Ok(tokens)) => {
            if tokens.len() != items.len() {
                return Err(format!("{} tokens instead of {}", tokens.len(), items.len()));
            }
            for (k, (tok, it)) in tokens.iter().zip(items).enumerate() {
                match (tok, it) {
                    (&TokenType::Literal(ref a), &Item::Lit(ref b)) if a == b => (),
                    (&TokenType::Parser(ref x), &Item::P(ref p)) => {
                        let n = tgt(|| x.name().and_then(|n| n.parse::<usize>().ok()));
                        let a = n.and_then(|n| asked.get(n));
                        if a != Some(&asked_for(p)) {
                            return Err(format!("token {}: the factory was asked for {:?} instead of {:?}", k, a, asked_for(p)));
                        }
                    }
                    _ => return Err(format!("token {}: {:?} instead of {:?}", k, tok, it)),
                }
            }
            Ok(())
        }
    }
}

pub fn compile_text(t: &mut Tape, st: &mut Stats) -> Verdict {
    let s = gen_text(t);
    let want = recognise(&s);
    let got = tgt(|| grammar::parser::pattern(&s));
    if s.contains("%{") || s.contains("\\%\\{") {
        st.case(&s);
    }
    st.max("max_text_bytes", s.len() as u64);
    match (&want, &got) {
        (&Rec::Unspecified, _) => st.inc("unspecified_texts"),
        (&Rec::Valid(ref items), &Ok(ref tokens)) => {
            st.inc("accepted_texts");
            st.add("tokens_compared", tokens.len() as u64);
            st.shape(items);
            let n = same_tokens(t, tokens, items, true).map_err(|e| format!("pattern text {:?}: {}\n", s, e))?;
            st.add("parser_behaviours_probed", n);
            st.sample(|| format!("{:?} -> {:?}", s, items));
        }
        (&Rec::Invalid(..), &Err(_)) => st.inc("rejected_texts"),
        (&Rec::Valid(ref items), &Err(ref e)) => {
            return Err(format!("valid pattern text {:?} ({:?}) was rejected: {}\n", s, items, e));
        }
        (&Rec::Invalid(a, _), &Ok(ref tokens)) => {
            return Err(format!("invalid pattern text {:?} (error at byte {}) was accepted as {:?}\n", s, a, tokens));
        }
    }
    tgt(|| drop(got));
    let r = match want {
        Rec::Unspecified => Ok(()),
        Rec::Valid(ref items) => with_factory(&s, Some(items)),
        Rec::Invalid(..) => with_factory(&s, None),
    };
    r.map_err(|e| format!("pattern text {:?} with a parser factory of our own: {}\n", s, e))?;
    st.inc("texts_compiled_with_own_factory");
    Ok(())
}

/// is the character in a class written like [a-z_]?
fn in_class(c: char, class: &str) -> bool {
    let cs: Vec<char> = class[1..class.len() - 1].chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if i + 2 < cs.len() && cs[i + 1] == '-' {
            if cs[i] <= c && c <= cs[i + 2] {
                return true;
            }
            i += 3;
        } else {
            if cs[i] == c {
                return true;
            }
            i += 1;
        }
    }
    false
}

pub fn error_position(t: &mut Tape, st: &mut Stats) -> Verdict {
    let mut s = gen_text(t);
    if t.chance(1, 3) {
        // text before the error
        let k = t.range(0, 4);
        let mut pre = String::new();
        for _ in 0..k {
            pre.push_str(t.pick(&["\n", "\r\n", "a", "\u{e9}b", "line\n", "\r", "\u{1f600}", "%{INT:i}", "\n\n"]));
        }
        let n = size(t, 0, 3000);
        if n > 0 {
            pre.push_str(&"x\ny".repeat(n));
        }
        s = pre + &s;
    }
    let (a, b) = match recognise(&s) {
        Rec::Invalid(a, b) => (a, b),
        _ => return Ok(()),
    };
    let e = match tgt(|| grammar::parser::pattern(&s)) {
        Err(e) => e,
        Ok(_) => return Err(format!("invalid pattern text {:?} was accepted\n", s)),
    };
    let shown = tgt(|| format!("{}", e));
    let fail = |w: String| Err(format!("pattern text {:?}: {}\n reported: offset {} line {} column {}, {:?}\n", s, w, e.offset, e.line, e.column, shown));
    if e.offset > s.len() || !s.is_char_boundary(e.offset) {
        return fail("the offset is not a character boundary of the text".into());
    }
    if e.offset < a || e.offset > b {
        return fail(format!("the error is at offset {}", a));
    }
    let before = &s.as_bytes()[..e.offset];
    let line = 1 + before.iter().filter(|c| **c == b'\n').count();
    let col = 1 + before.iter().rev().take_while(|c| **c != b'\n').count();
    if e.line != line || e.column != col {
        return fail(format!("offset {} is line {} column {}", e.offset, line, col));
    }
    let numbers: Vec<String> = shown
        .split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .map(|x| x.to_owned())
        .collect();
    if !numbers.contains(&line.to_string()) || !numbers.contains(&col.to_string()) {
        return fail("the printed error does not contain the line and the column".into());
    }
    // what gets the text past the error is expected there
    let known: [&str; 14] = ["%{", "INT", "SET", "GREEDY", "}", "(", ")", ":", "\"", ",", "=", "min_len", "max_len", " "];
    let class = |w: &str| w.len() > 2 && w.starts_with('[') && w.ends_with(']');
    if a == b && e.expected.iter().all(|w| known.contains(w) || class(w) || *w == "<character>" || *w == "a smaller number") {
        for put in known.iter().chain(["0", "9", "a", "q", "z", "A", "Z", "_", "."].iter()) {
            let repaired = format!("{}{}{}", &s[..e.offset], put, &s[e.offset..]);
            let past = match recognise(&repaired) {
                Rec::Valid(_) => true,
                Rec::Invalid(x, y) => x == y && x >= e.offset + put.len(),
                Rec::Unspecified => false,
            };
            if !past {
                continue;
            }
            st.inc("repairs_tried");
            let c = put.chars().next().unwrap();
            if !e.expected.iter().any(|w| w == put || *w == "<character>" || (class(w) && in_class(c, w))) {
                let mut named: Vec<&&str> = e.expected.iter().collect();
                named.sort();
                return fail(format!("{:?} put in there takes the parse past it, but it is not among the expected {:?}", put, named));
            }
        }
    }
    // what is expected there gets the text past the error
    let mut wanted: Vec<&str> = e.expected.iter().cloned().collect();
    wanted.sort();
    for w in wanted {
        let esc: String = w.chars().flat_map(|c| c.escape_default()).collect();
        if !shown.contains(w) && !shown.contains(&esc) {
            return fail(format!("the printed error does not name the expected {:?}", w));
        }
        let put = match w {
            "a smaller number" => continue,
            "<character>" => "x",
            _ if w.starts_with('[') && w.ends_with(']') => {
                if w.contains("a-z") { "a" } else if w.contains("0-9") { "1" } else { continue }
            }
            _ => w,
        };
        let repaired = format!("{}{}{}", &s[..e.offset], put, &s[e.offset..]);
        if repaired.contains("(\"\"") {
            continue; // an empty set: its error is placed at the parser
        }
        st.inc("expectations_tried");
        if let Err(x) = tgt(|| grammar::parser::pattern(&repaired)) {
            if x.offset < e.offset + put.len() {
                return fail(format!("{:?} is expected, but with {:?} put in ({:?}) the error is at {}: {}", w, put, repaired, x.offset, x));
            }
        }
    }
    if e.offset > 0 {
        st.case(&s);
    }
    st.inc("errors_compared");
    if line > 1 {
        st.inc("errors_after_the_first_line");
    }
    if s.contains("\r\n") {
        st.inc("errors_in_text_with_crlf");
    }
    st.max("max_line", line as u64);
    st.shape(&(a, line, col));
    st.sample(|| format!("{:?} -> {}", s, shown));
    Ok(())
}

pub fn single_parser(t: &mut Tape, st: &mut Stats) -> Verdict {
    let al = alpha(t);
    let name = if t.chance(1, 2) { Some(ident(t)) } else { None };
    let p = match t.weighted(&[5, 2, 3]) {
        0 => {
            let set = if t.chance(1, 25) { String::new() } else { gen_set(t, &al, false) };
            P::Set { set, min: limit(t), max: limit(t), name }
        }
        1 => P::Int { min: limit(t), max: limit(t), name },
        _ => {
            let end = if t.chance(4, 5) {
                let n = size(t, 3, 600);
                Some(al.text(t, n))
            } else {
                None
            };
            P::Greedy { end, name }
        }
    };
    let by_api_only = match p {
        P::Set { ref set, .. } => set.is_empty(),
        P::Greedy { end: Some(ref e), .. } => e.is_empty(),
        _ => false,
    };
    let mut x = build_parser(&p);
    let how = t.below(5);
    if how == 4 {
        x = rebuild_parser(t, &p);
        st.inc("parsers_set_up_anew");
    } else if how == 2 && by_api_only {
        st.inc("parsers_the_grammar_cannot_express");
    } else if how == 1 {
        x = tgt(|| x.boxed_clone());
    } else if how == 2 {
        let mut items = vec![Item::P(p.clone())];
        if let P::Greedy { end: Some(ref e), .. } = p {
            items.push(Item::Lit(e.clone()));
        }
        if expressible(&items) {
            let text = print(&items);
            match tgt(|| grammar::parser::pattern(&text)) {
                Ok(mut v) => {
                    if let TokenType::Parser(y) = v.remove(0) {
                        x = y;
                        st.inc("parsers_built_by_the_grammar");
                    }
                }
                Err(e) => return Err(format!("{:?} was rejected: {}", text, e)),
            }
        }
    } else if how == 3 {
        let mut y = p.clone();
        y.set_name(Some("other".into()));
        x = build_parser(&y);
        tgt(|| x.set_name(p.name().map(|s| s.to_owned())));
    }
    if tgt(|| x.name().map(|s| s.to_owned())) != p.name().map(|s| s.to_owned()) {
        return Err(format!("{:?}: its name is {:?}\n", p, x.name()));
    }
    let mut texts = probes(t, &p, &al);
    texts.extend(probe_limits(&p));
    let n = size(t, 6, 200);
    texts.push((0..n).map(|_| any_char(t)).collect());
    if t.chance(1, 60) {
        let big = sample_parser(t, &p, &al);
        let k = *t.pick(&[65_535usize, 65_536, 70_000]);
        if !big.is_empty() {
            texts.push(big.chars().cycle().take(k).collect());
        }
    }
    let mut yes = 0;
    let mut no = 0;
    for s in &texts {
        if check_parser(&p, &*x, s).map_err(|e| e + "\n")? {
            yes += 1;
        } else {
            no += 1;
        }
        st.max("max_text_bytes", s.len() as u64);
    }
    st.add("texts_accepted", yes);
    st.add("texts_refused", no);
    match p {
        P::Set { .. } => st.inc("SET_parsers"),
        P::Int { .. } => st.inc("INT_parsers"),
        P::Greedy { .. } => st.inc("GREEDY_parsers"),
    }
    if yes > 0 && no > 0 {
        st.case(&(&p, &texts));
    }
    st.sample(|| format!("{:?}: {:?}", p, texts));
    Ok(())
}
