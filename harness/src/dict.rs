//! Workload dictionary: integer, string and character constants of the code under test (test code
//! left out).  They only steer the workload (sizes and texts the code itself distinguishes are
//! worth trying); no verdict depends on them.  Constants absent from the committed baseline list
//! get more weight.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub strs: Vec<String>,
    pub new_ints: Vec<usize>,
    pub new_strs: Vec<String>,
}

fn strip_tests(src: &str) -> String {
    // drops `#[cfg(test)] mod x { ... }` blocks by brace counting
    let mut out = String::new();
    let mut rest = src;
    while let Some(i) = rest.find("#[cfg(test)]") {
        out.push_str(&rest[..i]);
        let after = &rest[i..];
        let brace = after.find('{');
        let semi = after.find(';');
        match (brace, semi) {
            (Some(b), s) if s.map_or(true, |s| b < s) => {
                let mut depth = 0usize;
                let mut end = after.len();
                for (k, c) in after[b..].char_indices() {
                    if c == '{' {
                        depth += 1;
                    } else if c == '}' {
                        depth -= 1;
                        if depth == 0 {
                            end = b + k + 1;
                            break;
                        }
                    }
                }
                rest = &after[end..];
            }
            (_, Some(s)) => rest = &after[s + 1..],
            _ => rest = "",
        }
    }
    out.push_str(rest);
    out
}

fn lex(src: &str, ints: &mut BTreeMap<usize, usize>, strs: &mut BTreeMap<String, usize>) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == 'r' && i + 1 < c.len() && (c[i + 1] == '"' || c[i + 1] == '#')
            && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_'))
        {
            let mut h = 0;
            let mut j = i + 1;
            while j < c.len() && c[j] == '#' {
                h += 1;
                j += 1;
            }
            if j < c.len() && c[j] == '"' {
                j += 1;
                let mut s = String::new();
                while j < c.len() {
                    if c[j] == '"' && c[j + 1..].iter().take(h).filter(|x| **x == '#').count() == h {
                        break;
                    }
                    s.push(c[j]);
                    j += 1;
                }
                *strs.entry(s).or_insert(0) += 1;
                i = j + 1 + h;
            } else {
                i += 1;
            }
        } else if c[i] == '"' {
            let (s, j) = quoted(&c, i + 1, '"');
            *strs.entry(s).or_insert(0) += 1;
            i = j;
        } else if c[i] == '\'' {
            // a character, or a lifetime
            if i + 2 < c.len() && (c[i + 1] == '\\' || c[i + 2] == '\'') {
                let (s, j) = quoted(&c, i + 1, '\'');
                *strs.entry(s).or_insert(0) += 1;
                i = j;
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut j = i;
            let mut s = String::new();
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                if c[j] != '_' {
                    s.push(c[j]);
                }
                j += 1;
            }
            let mut t = s.as_str();
            for suf in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64"] {
                if t.ends_with(suf) {
                    t = &t[..t.len() - suf.len()];
                    break;
                }
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                usize::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("0b") {
                usize::from_str_radix(b, 2).ok()
            } else {
                t.parse().ok()
            };
            if let Some(v) = v {
                *ints.entry(v).or_insert(0) += 1;
                if v >= 32 && v < 0x11_0000 {
                    // may be a code point or a byte
                    if s.starts_with("0x") {
                        if let Some(ch) = char::from_u32(v as u32) {
                            *strs.entry(ch.to_string()).or_insert(0) += 1;
                        }
                    }
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    // shifts such as 1 << 10
    for (k, _) in src.match_indices("1 << ") {
        let d: String = src[k + 5..].chars().take_while(|x| x.is_ascii_digit()).collect();
        if let Ok(n) = d.parse::<u32>() {
            if n < 20 {
                *ints.entry(1usize << n).or_insert(0) += 1;
            }
        }
    }
}

fn quoted(c: &[char], mut j: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while j < c.len() && c[j] != end {
        if c[j] == '\\' && j + 1 < c.len() {
            j += 1;
            match c[j] {
                'n' => s.push('\n'),
                'r' => s.push('\r'),
                't' => s.push('\t'),
                '0' => s.push('\0'),
                'x' => {
                    let h: String = c[j + 1..].iter().take(2).collect();
                    if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        s.push(ch);
                    }
                    j += 2;
                }
                'u' => {
                    let h: String = c[j + 2..].iter().take_while(|x| **x != '}').collect();
                    if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        s.push(ch);
                    }
                    j += 2 + h.chars().count();
                }
                '\n' => {
                    while j + 1 < c.len() && c[j + 1].is_whitespace() {
                        j += 1;
                    }
                }
                x => s.push(x),
            }
        } else {
            s.push(c[j]);
        }
        j += 1;
    }
    (s, j + 1)
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = fs::read_dir(dir) {
        let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |e| e == "rs") && p.file_name().map_or(true, |n| n != "test.rs") {
                out.push(p);
            }
        }
    }
}

fn collect(root: &Path) -> (BTreeMap<usize, usize>, BTreeMap<String, usize>) {
    let mut files = Vec::new();
    walk(&root.join("src"), &mut files);
    let mut ints = BTreeMap::new();
    let mut strs = BTreeMap::new();
    for f in files {
        if let Ok(s) = fs::read_to_string(&f) {
            lex(&strip_tests(&s), &mut ints, &mut strs);
        }
    }
    (ints, strs)
}

fn esc(s: &str) -> String {
    format!("{:?}", s)
}

/// the baseline list: one `kind value count` line per constant
pub fn dump(root: &Path) -> String {
    let (ints, strs) = collect(root);
    let mut o = String::new();
    for (k, n) in ints {
        o.push_str(&format!("i {} {}\n", n, k));
    }
    for (k, n) in strs {
        o.push_str(&format!("s {} {}\n", n, esc(&k)));
    }
    o
}

impl Dict {
    pub fn load(root: &Path, baseline: &str) -> Dict {
        let (ints, strs) = collect(root);
        let mut bi: BTreeMap<usize, usize> = BTreeMap::new();
        let mut bs: BTreeMap<String, usize> = BTreeMap::new();
        for l in baseline.lines() {
            let mut it = l.splitn(3, ' ');
            if let (Some(k), Some(n), Some(v)) = (it.next(), it.next(), it.next()) {
                let n: usize = n.parse().unwrap_or(0);
                if k == "i" {
                    if let Ok(x) = v.parse() {
                        bi.insert(x, n);
                    }
                } else {
                    bs.insert(v.to_owned(), n);
                }
            }
        }
        let mut d = Dict::default();
        let mut int_set = BTreeSet::new();
        for (k, n) in &ints {
            if *k <= 5000 {
                int_set.insert(*k);
                if bi.get(k).map_or(true, |b| n > b) {
                    d.new_ints.push(*k);
                }
            }
        }
        d.ints = int_set.into_iter().collect();
        for (k, n) in &strs {
            if k.is_empty() || k.len() > 64 || k.contains("{}") {
                continue;
            }
            d.strs.push(k.clone());
            if bs.get(&esc(k)).map_or(true, |b| n > b) {
                d.new_strs.push(k.clone());
            }
        }
        d
    }
}
