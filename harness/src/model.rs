//! The reference model: what patterns mean, independent of the code under test.

use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Set { set: String, min: Option<usize>, max: Option<usize>, name: Option<String> },
    Int { min: Option<usize>, max: Option<usize>, name: Option<String> },
    Greedy { end: Option<String>, name: Option<String> },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Item {
    Lit(String),
    P(P),
}

fn limits(run: usize, min: Option<usize>, max: Option<usize>) -> bool {
    run > 0 && min.map_or(true, |m| run >= m) && max.map_or(true, |m| run <= m)
}

pub fn find_bytes(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() {
        return Some(0);
    }
    if needle.len() > hay.len() {
        return None;
    }
    let first = needle[0];
    let last = hay.len() - needle.len();
    let mut i = 0;
    while i <= last {
        if hay[i] == first && &hay[i..i + needle.len()] == needle {
            return Some(i);
        }
        i += 1;
    }
    None
}

impl P {
    pub fn name(&self) -> Option<&str> {
        match *self {
            P::Set { ref name, .. } | P::Int { ref name, .. } | P::Greedy { ref name, .. } => {
                name.as_ref().map(|x| x.as_str())
            }
        }
    }
    pub fn set_name(&mut self, n: Option<String>) {
        match *self {
            P::Set { ref mut name, .. } | P::Int { ref mut name, .. } | P::Greedy { ref mut name, .. } => *name = n,
        }
    }
    /// the number of bytes consumed from the beginning of the text
    pub fn consume(&self, text: &str) -> Option<usize> {
        match *self {
            P::Set { ref set, min, max, .. } => {
                let mut run = 0;
                let mut bytes = 0;
                for c in text.chars() {
                    if !set.chars().any(|s| s == c) {
                        break;
                    }
                    run += 1;
                    bytes += c.len_utf8();
                }
                if limits(run, min, max) {
                    Some(bytes)
                } else {
                    None
                }
            }
            P::Int { min, max, .. } => {
                let run = text.bytes().take_while(|b| (48..58).contains(b)).count();
                if limits(run, min, max) {
                    Some(run)
                } else {
                    None
                }
            }
            P::Greedy { ref end, .. } => match *end {
                None => Some(text.len()),
                Some(ref e) => find_bytes(text.as_bytes(), e.as_bytes()),
            },
        }
    }
}

/// (start, end) of every parser's piece, if the items match the whole text
pub fn match_items(items: &[Item], text: &str) -> Option<Vec<(usize, usize)>> {
    let mut pos = 0;
    let mut caps = Vec::new();
    for it in items {
        match *it {
            Item::Lit(ref l) => {
                if !text.as_bytes()[pos..].starts_with(l.as_bytes()) {
                    return None;
                }
                pos += l.len();
            }
            Item::P(ref p) => {
                let n = match p.consume(&text[pos..]) {
                    Some(n) => n,
                    None => return None,
                };
                caps.push((pos, pos + n));
                pos += n;
            }
        }
    }
    if pos == text.len() {
        Some(caps)
    } else {
        None
    }
}

/// name -> (start, end); the leftmost parser of a name counts
pub fn captures(items: &[Item], caps: &[(usize, usize)]) -> BTreeMap<String, (usize, usize)> {
    let mut out = BTreeMap::new();
    let mut k = 0;
    for it in items {
        if let Item::P(ref p) = *it {
            if let Some(n) = p.name() {
                out.entry(n.to_owned()).or_insert(caps[k]);
            }
            k += 1;
        }
    }
    out
}

/// A pattern under consideration: index of the pattern, token and byte offset within a literal.
#[derive(Clone, Copy, Debug)]
struct Cand {
    idx: usize,
    tok: usize,
    off: usize,
}

enum Next<'a> {
    Byte(u8),
    Par(&'a P),
    End,
}

fn next<'a>(pats: &'a [Vec<Item>], c: &Cand) -> Next<'a> {
    let items = &pats[c.idx];
    match items.get(c.tok) {
        None => Next::End,
        Some(&Item::Lit(ref l)) => Next::Byte(l.as_bytes()[c.off]),
        Some(&Item::P(ref p)) => Next::Par(p),
    }
}

fn advance(pats: &[Vec<Item>], c: &Cand) -> Cand {
    if let Item::Lit(ref l) = pats[c.idx][c.tok] {
        if c.off + 1 < l.len() {
            return Cand { idx: c.idx, tok: c.tok, off: c.off + 1 };
        }
    }
    Cand { idx: c.idx, tok: c.tok + 1, off: 0 }
}

/// The precedence rule.  `pats` in the order they were added; literals are non-empty and no two of
/// them are adjacent.  Returns the index of the winner.
pub fn winner(pats: &[Vec<Item>], text: &str) -> Option<usize> {
    let cands: Vec<Cand> = (0..pats.len())
        .filter(|i| !pats[*i].is_empty())
        .map(|i| Cand { idx: i, tok: 0, off: 0 })
        .collect();
    choose(pats, cands, text)
}

fn choose(pats: &[Vec<Item>], start: Vec<Cand>, text: &str) -> Option<usize> {
    // follow the literal text as far as some candidate goes, remembering where others stopped
    let mut stack: Vec<(usize, Vec<Cand>)> = Vec::new(); // (position, candidates with a parser or the end next)
    let mut live = start;
    let mut pos = 0;
    loop {
        let stopped: Vec<Cand> = live
            .iter()
            .filter(|c| match next(pats, c) {
                Next::Byte(_) => false,
                _ => true,
            })
            .cloned()
            .collect();
        if !stopped.is_empty() {
            stack.push((pos, stopped));
        }
        if pos == text.len() {
            break;
        }
        let b = text.as_bytes()[pos];
        let going: Vec<Cand> = live
            .iter()
            .filter(|c| match next(pats, c) {
                Next::Byte(x) => x == b,
                _ => false,
            })
            .map(|c| advance(pats, c))
            .collect();
        if going.is_empty() {
            break;
        }
        live = going;
        pos += 1;
    }
    while let Some((pos, stopped)) = stack.pop() {
        let rest = &text[pos..];
        if rest.is_empty() {
            if let Some(c) = stopped.iter().rev().find(|c| match next(pats, c) {
                Next::End => true,
                _ => false,
            }) {
                return Some(c.idx);
            }
        }
        let mut done: Vec<&P> = Vec::new();
        for c in &stopped {
            if let Next::Par(p) = next(pats, c) {
                if done.contains(&p) {
                    continue;
                }
                done.push(p);
                if let Some(n) = p.consume(rest) {
                    let group: Vec<Cand> = stopped
                        .iter()
                        .filter(|d| match next(pats, d) {
                            Next::Par(q) => q == p,
                            _ => false,
                        })
                        .map(|d| Cand { idx: d.idx, tok: d.tok + 1, off: 0 })
                        .collect();
                    if let Some(w) = choose(pats, group, &rest[n..]) {
                        return Some(w);
                    }
                }
            }
        }
    }
    None
}

/// pattern text of the items, in the documented syntax
pub fn print(items: &[Item]) -> String {
    let mut s = String::new();
    for it in items {
        match *it {
            Item::Lit(ref l) => s.push_str(&escape(l)),
            Item::P(ref p) => s.push_str(&print_parser(p, ", ")),
        }
    }
    s
}

pub fn escape(l: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '%' && i + 1 < c.len() && c[i + 1] == '{' {
            o.push_str("\\%\\{");
            i += 2;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

pub fn unescape(l: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if i + 3 < c.len() && c[i] == '\\' && c[i + 1] == '%' && c[i + 2] == '\\' && c[i + 3] == '{' {
            o.push_str("%{");
            i += 4;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

pub fn print_parser(p: &P, comma: &str) -> String {
    let opts = |min: &Option<usize>, max: &Option<usize>| {
        let mut v = Vec::new();
        if let Some(m) = *min {
            v.push(format!("min_len={}", m));
        }
        if let Some(m) = *max {
            v.push(format!("max_len={}", m));
        }
        v
    };
    let name = p.name().map_or(String::new(), |n| format!(":{}", n));
    match *p {
        P::Set { ref set, ref min, ref max, .. } => {
            let mut v = vec![format!("\"{}\"", set)];
            v.extend(opts(min, max));
            format!("%{{SET({}){}}}", v.join(comma), name)
        }
        P::Int { ref min, ref max, .. } => {
            let v = opts(min, max);
            if v.is_empty() {
                format!("%{{INT{}}}", name)
            } else {
                format!("%{{INT({}){}}}", v.join(comma), name)
            }
        }
        P::Greedy { .. } => format!("%{{GREEDY{}}}", name),
    }
}

fn is_name(n: &str) -> bool {
    let mut first = true;
    for b in n.bytes() {
        let ok = b.is_ascii_alphabetic() || b == b'_' || b == b'.' || (!first && b.is_ascii_digit());
        if !ok {
            return false;
        }
        first = false;
    }
    !n.is_empty()
}

/// can these items be written as pattern text?
pub fn expressible(items: &[Item]) -> bool {
    if items.is_empty() {
        return false;
    }
    for (i, it) in items.iter().enumerate() {
        match *it {
            Item::Lit(ref l) => {
                if l.is_empty() || unescape(&escape(l)) != *l || escape(l).contains("%{") {
                    return false;
                }
                if i > 0 {
                    if let Item::Lit(_) = items[i - 1] {
                        return false;
                    }
                }
            }
            Item::P(ref p) => {
                if p.name().map_or(false, |n| !is_name(n)) {
                    return false;
                }
                match *p {
                    P::Set { ref set, .. } => {
                        if set.is_empty() || set.contains('"') {
                            return false;
                        }
                    }
                    P::Greedy { ref end, .. } => {
                        let follows = match items.get(i + 1) {
                            Some(&Item::Lit(ref l)) => Some(l),
                            _ => None,
                        };
                        if end.as_ref() != follows {
                            return false;
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    true
}
