//! Workload generators: alphabets, parsers, overlapping pattern sets and messages aimed at them.

use crate::dict::Dict;
use crate::model::*;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

const EDGES: &[usize] = &[
    3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400,
    511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097,
];

/// a size: mostly small, sometimes at a constant of the code or at a power-of-two edge
pub fn size(t: &mut Tape, small: usize, cap: usize) -> usize {
    let n = match t.weighted(&[78, 10, 6, 6]) {
        0 => t.range(0, small),
        1 => t.range(0, small * 3),
        2 => {
            let d = dict();
            let use_new = !d.new_ints.is_empty() && t.chance(3, 4);
            let xs = if use_new { &d.new_ints } else { &d.ints };
            if xs.is_empty() {
                t.range(0, small)
            } else {
                (*t.pick(xs) + t.below(3)).saturating_sub(1)
            }
        }
        _ => *t.pick(EDGES),
    };
    n.min(cap)
}

#[derive(Clone, Debug)]
pub struct Alpha {
    pub chars: Vec<char>,
}

const TINY: &[&str] = &["ab", "abc", "aA", "a1", "ab 1", "xy:", "0a", "-.a"];
const GROUPS: &[&str] = &[
    "abcdefghijklmnopqrstuvwxyz",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "0123456789",
    " .,:;-_=/@#[]()<>'\"",
    "%{}\\\"",
    "\n\r\t\u{b}\u{c} ",
    "\u{e9}\u{e8}\u{ea}\u{e0}\u{c9}",       // same lead byte
    "\u{ae}\u{be}\u{a0}\u{bf}\u{a1}\u{80}", // lead byte c2
    "\u{20ac}\u{20ad}\u{20a0}\u{2028}",     // 3 bytes
    "\u{1f600}\u{1f601}\u{1f640}\u{10ffff}", // 4 bytes
    "\0\u{1}\u{7f}\u{feff}\u{fffd}\u{ffff}\u{7ff}\u{800}\u{10000}",
    "e\u{301}\u{df}\u{130}\u{131}\u{3a3}\u{3c2}\u{660}\u{661}\u{ff11}\u{b2}\u{bd}",
];

pub fn any_char(t: &mut Tape) -> char {
    let g = t.pick(GROUPS);
    let cs: Vec<char> = g.chars().collect();
    match t.below(12) {
        0 => {
            let hi = *t.pick(&[0x80usize, 0x800, 0xd7ff, 0x10ffff]);
            char::from_u32(t.range(1, hi) as u32).unwrap_or('\u{fffd}')
        }
        _ => *t.pick(&cs),
    }
}

pub fn alpha(t: &mut Tape) -> Alpha {
    let mut chars: Vec<char> = Vec::new();
    match t.weighted(&[4, 3, 3, 1]) {
        0 => chars.extend(t.pick(TINY).chars()),
        1 => {
            for _ in 0..t.range(1, 3) {
                let g: Vec<char> = t.pick(GROUPS).chars().collect();
                for _ in 0..t.range(1, 4) {
                    chars.push(*t.pick(&g));
                }
            }
        }
        2 => {
            chars.extend("ab1 ".chars());
            for _ in 0..t.range(1, 3) {
                chars.push(any_char(t));
            }
        }
        _ => {
            for _ in 0..t.range(2, 30) {
                chars.push(any_char(t));
            }
        }
    }
    let d = dict();
    if !d.new_strs.is_empty() && t.chance(1, 3) {
        let s = t.pick(&d.new_strs);
        chars.extend(s.chars().take(8));
    } else if !d.strs.is_empty() && t.chance(1, 20) {
        let s = t.pick(&d.strs);
        chars.extend(s.chars().take(8));
    }
    Alpha { chars }
}

impl Alpha {
    pub fn ch(&self, t: &mut Tape) -> char {
        *t.pick(&self.chars)
    }
    pub fn text(&self, t: &mut Tape, n: usize) -> String {
        if n > 24 {
            // long texts from few draws
            let unit: Vec<char> = (0..t.range(1, 4)).map(|_| self.ch(t)).collect();
            let mut s: String = unit.iter().cycle().take(n - 2).collect();
            s.push(self.ch(t));
            s.push(self.ch(t));
            return s;
        }
        (0..n).map(|_| self.ch(t)).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Pat {
    pub items: Vec<Item>,
    pub grammar: bool,
    pub name: Option<String>,
    pub uuid: [u8; 16],
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
}

pub fn uuid_str(u: &[u8; 16]) -> String {
    let h: Vec<String> = u.iter().map(|b| format!("{:02x}", b)).collect();
    format!(
        "{}-{}-{}-{}-{}",
        h[0..4].concat(),
        h[4..6].concat(),
        h[6..8].concat(),
        h[8..10].concat(),
        h[10..16].concat()
    )
}

/// what the workload generator should stress
#[derive(Clone, Debug)]
pub struct Profile {
    pub max_pats: usize,
    pub max_items: usize,
    pub share: usize, // of 10: derive a pattern from an earlier one
    pub dup: usize,   // of 100: add a copy of an earlier token sequence
    pub meta: bool,   // names, values, tags
    pub builder: usize, // of 10: patterns built through the API, not the grammar
    pub only_grammar: bool,
    pub loose: bool, // adjacent and empty literals (through the API only)
}

impl Default for Profile {
    fn default() -> Profile {
        Profile { max_pats: 8, max_items: 5, share: 6, dup: 5, meta: false, builder: 3, only_grammar: false, loose: false }
    }
}

pub struct Pools {
    pub alpha: Alpha,
    pub sets: Vec<String>,
    pub names: Vec<String>,
    pub parsers: Vec<P>,
    pub lits: Vec<String>,
}

const NAMES: &[&str] = &["a", "b", "c", "n1", "user", "PROGRAM", "a.b", ".x", "_", "id_0", "key", "values", "name"];

pub fn ident(t: &mut Tape) -> String {
    if t.chance(3, 4) {
        return t.pick(NAMES).to_string();
    }
    let first: Vec<char> = "abcxyzABCZ_.".chars().collect();
    let rest: Vec<char> = "abcxyzABCZ_.0189".chars().collect();
    let mut s = String::new();
    s.push(*t.pick(&first));
    let n = size(t, 6, 300);
    if n > 20 {
        let c = *t.pick(&rest);
        s.extend(std::iter::repeat(c).take(n));
    } else {
        for _ in 0..n {
            s.push(*t.pick(&rest));
        }
    }
    let d = dict();
    if !d.new_strs.is_empty() && t.chance(1, 8) {
        let cand = t.pick(&d.new_strs);
        if expressible(&[Item::P(P::Int { min: None, max: None, name: Some(cand.clone()) })]) {
            return cand.clone();
        }
    }
    s
}

fn same_set(a: &str, b: &str) -> bool {
    a.chars().all(|c| b.contains(c)) && b.chars().all(|c| a.contains(c))
}

pub fn gen_set(t: &mut Tape, al: &Alpha, grammar_safe: bool) -> String {
    let mut s = String::new();
    match t.weighted(&[5, 2, 1, 1]) {
        0 => {
            for _ in 0..t.range(1, 3) {
                s.push(al.ch(t));
            }
        }
        1 => {
            let g = *t.pick(&[
                "0123456789",
                "abcdefghijklmnopqrstuvwxyz",
                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
                "0123456789.",
                "abcdef0123456789-",
                "abc ",
            ]);
            s.push_str(g);
        }
        2 => {
            for _ in 0..size(t, 6, 300).max(1) {
                s.push(any_char(t));
            }
        }
        _ => {
            for c in al.chars.iter() {
                s.push(*c);
            }
        }
    }
    if grammar_safe {
        s = s.replace('"', "");
    }
    if s.is_empty() {
        s.push('a');
    }
    s
}

/// the set with one character more, less or exchanged
pub fn near_set(t: &mut Tape, set: &str, al: &Alpha) -> String {
    let mut cs: Vec<char> = set.chars().collect();
    let c = if t.chance(1, 2) { al.ch(t) } else { *t.pick(&['z', '\u{7e}', '!', '\u{e9}', '\u{20ac}', '\u{1f600}', 'Z', '9', ' ']) };
    let i = t.below(cs.len());
    match t.below(3) {
        0 if cs.len() > 1 => {
            cs.remove(i);
        }
        1 => cs[i] = c,
        _ => cs.push(c),
    }
    let s: String = cs.into_iter().filter(|c| *c != '"').collect();
    if s.is_empty() {
        "a".to_owned()
    } else {
        s
    }
}

pub fn limit(t: &mut Tape) -> Option<usize> {
    match t.weighted(&[12, 6, 1, 1]) {
        0 => None,
        1 => Some(t.range(1, 4)),
        2 => Some(size(t, 6, 5000)),
        _ => Some(*t.pick(&[0usize, 255, 256, 65535, 65536, 4294967295, 4294967296, usize::max_value()])),
    }
}

pub fn pools(t: &mut Tape, pr: &Profile) -> Pools {
    let al = alpha(t);
    let mut sets: Vec<String> = Vec::new();
    for _ in 0..t.range(1, 3) {
        let s = if !sets.is_empty() && t.chance(1, 3) { near_set(t, &sets[0], &al) } else { gen_set(t, &al, true) };
        if !sets.iter().any(|x| same_set(x, &s)) {
            sets.push(s);
        }
    }
    let mut names = Vec::new();
    for _ in 0..t.range(1, 4) {
        names.push(ident(t));
    }
    if !pr.only_grammar && t.chance(1, 25) {
        // a name only the API can give
        names.push(match t.below(3) {
            0 => String::new(),
            1 => al.text(t, 1),
            _ => t.pick(&["a b", " a", "a:", "a-b", "1", "0x", "%{INT:i}"]).to_string(),
        });
    }
    let n = t.range(1, 5);
    let mut po = Pools { alpha: al, sets, names, parsers: Vec::new(), lits: Vec::new() };
    for _ in 0..n {
        let p = gen_parser(t, &po);
        po.parsers.push(p);
    }
    po
}

pub fn gen_parser(t: &mut Tape, po: &Pools) -> P {
    let name = if t.chance(3, 4) { Some(t.pick(&po.names).clone()) } else { None };
    match t.weighted(&[5, 3, 3]) {
        0 => P::Set { set: t.pick(&po.sets).clone(), min: limit(t), max: limit(t), name },
        1 => P::Int { min: limit(t), max: limit(t), name },
        _ => P::Greedy { end: None, name },
    }
}

pub fn gen_lit(t: &mut Tape, po: &mut Pools) -> String {
    let l = match t.weighted(&[5, if po.lits.is_empty() { 0 } else { 6 }, 1]) {
        0 => {
            let n = size(t, 4, 2000).max(1);
            po.alpha.text(t, n)
        }
        1 => {
            let base = t.pick(&po.lits).clone();
            let cs: Vec<char> = base.chars().collect();
            let k = match t.below(4) {
                0 => cs.len(),
                1 => cs.len().saturating_sub(1),
                _ => t.range(0, cs.len().min(60)),
            };
            let mut s: String = cs[..k].iter().collect();
            let n = match t.below(4) {
                0 => 0,
                1 => 1,
                _ => size(t, 3, 400),
            };
            s.push_str(&po.alpha.text(t, n));
            s
        }
        _ => {
            let d = dict();
            let xs = if !d.new_strs.is_empty() && t.chance(3, 4) { &d.new_strs } else { &d.strs };
            if xs.is_empty() {
                po.alpha.text(t, 2)
            } else {
                t.pick(xs).clone()
            }
        }
    };
    let l = if l.is_empty() { po.alpha.ch(t).to_string() } else { l };
    if po.lits.len() < 40 {
        po.lits.push(l.clone());
    }
    l
}

fn merge(items: Vec<Item>) -> Vec<Item> {
    let mut out: Vec<Item> = Vec::new();
    for it in items {
        match it {
            Item::Lit(ref l) if l.is_empty() => continue,
            Item::Lit(l) => {
                if let Some(&mut Item::Lit(ref mut p)) = out.last_mut() {
                    p.push_str(&l);
                    continue;
                }
                out.push(Item::Lit(l));
            }
            p => out.push(p),
        }
    }
    out
}

fn fix_greedy(items: &mut Vec<Item>) {
    for i in 0..items.len() {
        let follow = match items.get(i + 1) {
            Some(&Item::Lit(ref l)) => Some(l.clone()),
            _ => None,
        };
        if let Item::P(P::Greedy { ref mut end, .. }) = items[i] {
            *end = follow;
        }
    }
}

pub fn gen_items(t: &mut Tape, po: &mut Pools, pr: &Profile, earlier: &[Pat]) -> Vec<Item> {
    let mut items: Vec<Item> = Vec::new();
    if !earlier.is_empty() && t.chance(pr.share, 10) {
        let base = t.pick(earlier).items.clone();
        if t.chance(pr.dup, 40) {
            return base;
        }
        let k = t.range(0, base.len());
        items.extend(base[..k].iter().cloned());
        match t.below(7) {
            6 => {
                // a character of a set or literal moved to the end of a name
                let n = items.len();
                if n > 0 {
                    let i = t.below(n);
                    let mut moved = None;
                    let next = items.get(i + 1).cloned();
                    match items[i] {
                        Item::P(P::Set { ref mut set, ref mut name, .. }) => {
                            let mut cs: Vec<char> = set.chars().collect();
                            cs.sort();
                            cs.dedup();
                            let c = if t.chance(1, 4) { cs.pop().unwrap_or('-') } else { cs[0] };
                            cs.retain(|x| *x != c);
                            let new: String = cs.into_iter().collect();
                            if !new.is_empty() && (c == '_' || c.is_ascii_alphanumeric()) && (name.is_some() || !c.is_ascii_digit()) {
                                if let Some(known) = po.sets.iter().find(|x| same_set(x, &new)) {
                                    *set = known.clone();
                                } else if po.sets.len() < 30 {
                                    po.sets.push(new.clone());
                                    *set = new;
                                }
                                *name = Some(format!("{}{}", name.as_ref().map_or("", |x| &x[..]), c));
                            }
                        }
                        Item::P(P::Greedy { ref name, .. }) => {
                            if let Some(Item::Lit(ref l)) = next {
                                let c = l.chars().next().unwrap_or('-');
                                if l.chars().count() > 1 && (c == '_' || c.is_ascii_alphanumeric()) && (name.is_some() || !c.is_ascii_digit()) {
                                    moved = Some((format!("{}{}", name.as_ref().map_or("", |x| &x[..]), c), l[1..].to_owned()));
                                }
                            }
                        }
                        _ => (),
                    }
                    if let Some((name, lit)) = moved {
                        if let Item::P(ref mut p) = items[i] {
                            p.set_name(Some(name));
                        }
                        items[i + 1] = Item::Lit(lit);
                    }
                }
            }
            0 => {
                // shorten or extend the last literal
                if let Some(&mut Item::Lit(ref mut l)) = items.last_mut() {
                    let cs: Vec<char> = l.chars().collect();
                    let k = t.range(0, cs.len());
                    *l = cs[..k].iter().collect();
                }
            }
            1 => {
                // another name for one of the parsers
                let n = items.len();
                if n > 0 {
                    let i = t.below(n);
                    if let Item::P(ref mut p) = items[i] {
                        let name = if t.chance(1, 3) { None } else { Some(t.pick(&po.names).clone()) };
                        p.set_name(name);
                    }
                }
            }
            3 => {
                // nearly the same set for one of the parsers
                let n = items.len();
                if n > 0 {
                    let i = t.below(n);
                    if let Item::P(P::Set { ref mut set, .. }) = items[i] {
                        let new = near_set(t, set, &po.alpha);
                        // the same characters are always written in the same way
                        if let Some(known) = po.sets.iter().find(|x| same_set(x, &new)) {
                            *set = known.clone();
                        } else if po.sets.len() < 30 {
                            po.sets.push(new.clone());
                            *set = new;
                        }
                    }
                }
            }
            2 => {
                // other limits for one of the parsers
                let n = items.len();
                if n > 0 {
                    let i = t.below(n);
                    if let Item::P(ref mut p) = items[i] {
                        match *p {
                            P::Set { ref mut min, ref mut max, .. } | P::Int { ref mut min, ref mut max, .. } => {
                                *min = limit(t);
                                *max = limit(t);
                            }
                            _ => (),
                        }
                    }
                }
            }
            _ => (),
        }
        if t.chance(1, 4) && !items.is_empty() {
            return finish(items);
        }
    }
    let n = if items.is_empty() { size(t, pr.max_items, 60).max(1) } else { size(t, pr.max_items / 2, 30) };
    for _ in 0..n {
        let last_is_parser = match items.last() {
            Some(&Item::P(_)) => true,
            _ => false,
        };
        if t.chance(if last_is_parser { 8 } else { 4 }, 10) {
            items.push(Item::Lit(gen_lit(t, po)));
        } else {
            let p = if t.chance(4, 5) { t.pick(&po.parsers).clone() } else { gen_parser(t, po) };
            items.push(Item::P(p));
        }
    }
    finish(items)
}

fn finish(items: Vec<Item>) -> Vec<Item> {
    let mut items = merge(items);
    if items.is_empty() {
        items.push(Item::Lit("a".to_owned()));
    }
    items
}

/// the same pattern with literals cut in pieces and empty ones put in
fn loosen(t: &mut Tape, items: Vec<Item>) -> Vec<Item> {
    let mut out = Vec::new();
    for it in items {
        if t.chance(1, 10) {
            out.push(Item::Lit(String::new()));
        }
        match it {
            Item::Lit(ref l) if !l.is_empty() && t.chance(1, 2) => {
                let cuts: Vec<usize> = l.char_indices().map(|x| x.0).collect();
                let k = *t.pick(&cuts);
                out.push(Item::Lit(l[..k].to_owned()));
                out.push(Item::Lit(l[k..].to_owned()));
            }
            x => out.push(x),
        }
    }
    if t.chance(1, 10) {
        out.push(Item::Lit(String::new()));
    }
    out
}

/// many parsers, each with a name of its own, in a pattern that is easily matched
fn chain(t: &mut Tape) -> Vec<Item> {
    let n = size(t, 12, 200).max(2);
    // sometimes the names repeat
    let names = if t.chance(1, 4) { t.range(1, n) } else { n };
    let stem = *t.pick(&["k", "_", "a.b"]);
    let sep = *t.pick(&[" ", ":", ", ", "=", "\u{e9}"]);
    let mut v = Vec::new();
    for i in 0..n {
        let name = Some(format!("{}{}", stem, i % names));
        v.push(Item::P(match t.below(4) {
            0 => P::Set { set: "abcxyz".into(), min: None, max: None, name },
            1 => P::Greedy { end: None, name },
            _ => P::Int { min: None, max: None, name },
        }));
        if i + 1 < n || t.chance(1, 2) {
            v.push(Item::Lit(sep.to_owned()));
        }
    }
    fix_greedy(&mut v);
    v
}

/// a different first character for each number
pub fn fan_char(t: &mut Tape, base: usize, i: usize) -> char {
    let start = [0x21u32, 0xa1, 0x7f0, 0x4e00, 0x10000][base % 5];
    let c = char::from_u32(start + i as u32).unwrap_or('x');
    if c == '%' || c == '\\' || c == '"' {
        any_char(t)
    } else {
        c
    }
}

pub fn gen_pats(t: &mut Tape, po: &mut Pools, pr: &Profile) -> Vec<Pat> {
    let mut pats = gen_pats_plain(t, po, pr);
    let with_meta = |t: &mut Tape, po: &Pools, i: usize| if pr.meta { meta(t, po, i) } else { (None, None, None) };
    if t.chance(1, 25) {
        let items = chain(t);
        if let Some(u) = pats.iter().map(|p| p.uuid).next() {
            let (name, values, tags) = with_meta(t, po, pats.len());
            let mut id = uuid(t, pats.len());
            id[0] = u[0];
            pats.push(Pat { items, grammar: true, name, uuid: id, values, tags });
        }
    }
    if pats.len() < 40 && t.chance(1, 40) {
        // many literals with different first characters at one place, in some order
        let n = size(t, 20, 600);
        let base = t.below(5);
        let front: Vec<Item> = if t.chance(1, 2) && !pats.is_empty() {
            let p = t.pick(&pats).items.clone();
            let k = t.range(0, p.len().min(3));
            p[..k].to_vec()
        } else {
            Vec::new()
        };
        let step = *t.pick(&[1usize, 7, 11, 37]);
        for i in 0..n {
            let at = (n - 1 - i) * step % n.max(1);
            let mut l = fan_char(t, base, at).to_string();
            let m = t.below(3);
            l.push_str(&po.alpha.text(t, m));
            let mut items = front.clone();
            items.push(Item::Lit(l));
            if t.chance(1, 4) {
                items.push(Item::P(t.pick(&po.parsers).clone()));
            }
            let mut items = finish(items);
            fix_greedy(&mut items);
            let grammar = expressible(&items) && t.chance(1, 2);
            if pr.only_grammar && !expressible(&items) {
                continue;
            }
            let k = pats.len();
            let (name, values, tags) = with_meta(t, po, k);
            pats.push(Pat { items, grammar: grammar || pr.only_grammar, name, uuid: uuid(t, k), values, tags });
        }
    }
    pats
}

fn gen_pats_plain(t: &mut Tape, po: &mut Pools, pr: &Profile) -> Vec<Pat> {
    let n = size(t, pr.max_pats, 400).max(1);
    let mut pats: Vec<Pat> = Vec::new();
    let mut pr = pr.clone();
    if n > 40 {
        pr.max_items = pr.max_items.min(3);
    }
    let mut total = 0;
    for i in 0..n {
        let mut items = gen_items(t, po, &pr, &pats);
        let mut grammar = pr.only_grammar || !t.chance(pr.builder, 10);
        let odd_end = !grammar && t.chance(1, 5);
        if !odd_end {
            fix_greedy(&mut items);
        } else {
            for it in items.iter_mut() {
                if let Item::P(P::Greedy { ref mut end, .. }) = *it {
                    *end = if t.chance(1, 2) { Some(po.alpha.text(t, 1)) } else { None };
                }
            }
        }
        if grammar && !expressible(&items) {
            if pr.only_grammar {
                continue;
            }
            grammar = false;
        }
        if !grammar && pr.loose && t.chance(1, 4) {
            items = loosen(t, items);
        }
        total += items.iter().map(|x| match *x { Item::Lit(ref l) => l.len(), _ => 8 }).sum::<usize>();
        let (name, values, tags) = if pr.meta { meta(t, po, i) } else { (None, None, None) };
        pats.push(Pat { items, grammar, name, uuid: uuid(t, i), values, tags });
        if total > 60_000 {
            break;
        }
    }
    pats
}

pub fn uuid(t: &mut Tape, i: usize) -> [u8; 16] {
    let mut u = [0u8; 16];
    for k in 0..3 {
        let x = t.below(1 << 32) as u32;
        for j in 0..4 {
            u[k * 4 + j] = (x >> (8 * j)) as u8;
        }
    }
    u[12] = (i >> 24) as u8;
    u[13] = (i >> 16) as u8;
    u[14] = (i >> 8) as u8;
    u[15] = i as u8;
    u
}

pub fn word(t: &mut Tape, po: &Pools) -> String {
    match t.below(6) {
        0 => t.pick(&po.names).clone(),
        1 => {
            let n = size(t, 5, 300);
            po.alpha.text(t, n)
        }
        2 => (0..t.range(0, 4)).map(|_| any_char(t)).collect(),
        _ => t.pick(&["accept", "drop", "tag1", "tag2", "", "value", "x y"]).to_string(),
    }
}

pub fn meta(t: &mut Tape, po: &Pools, i: usize)
    -> (Option<String>, Option<BTreeMap<String, String>>, Option<Vec<String>>) {
    let name = if t.chance(1, 2) { Some(if t.chance(1, 2) { word(t, po) } else { format!("{}{}", word(t, po), i) }) } else { None };
    let values = if t.chance(1, 2) {
        let mut m = BTreeMap::new();
        for _ in 0..size(t, 3, 70) {
            m.insert(word(t, po), word(t, po));
        }
        Some(m)
    } else {
        None
    };
    let tags = if t.chance(1, 2) {
        Some((0..size(t, 3, 70)).map(|_| word(t, po)).collect())
    } else {
        None
    };
    (name, values, tags)
}

/// text which the parser consumes (if the following text does not prolong it)
pub fn sample_parser(t: &mut Tape, p: &P, al: &Alpha) -> String {
    let run = |t: &mut Tape, min: &Option<usize>, max: &Option<usize>| -> usize {
        let lo = min.unwrap_or(1).max(1).min(5001);
        let hi = max.unwrap_or(lo + 3).min(lo + 3);
        match t.weighted(&[12, 1, 1, 1]) {
            0 => t.range(lo, hi.max(lo)),
            1 => lo - 1,
            2 => max.unwrap_or(3).min(5000) + 1,
            _ => size(t, 6, 3000),
        }
    };
    match *p {
        P::Set { ref set, ref min, ref max, .. } => {
            let n = run(t, min, max);
            let cs: Vec<char> = set.chars().collect();
            if cs.is_empty() {
                return String::new();
            }
            Alpha { chars: cs }.text(t, n)
        }
        P::Int { ref min, ref max, .. } => {
            let n = run(t, min, max);
            Alpha { chars: "0123456789".chars().collect() }.text(t, n)
        }
        P::Greedy { ref end, .. } => {
            let n = match t.below(4) {
                0 => 0,
                _ => size(t, 5, 3000),
            };
            let mut s = al.text(t, n);
            if let Some(ref e) = *end {
                let cs: Vec<char> = e.chars().collect();
                match t.below(4) {
                    0 => {
                        // a part of the end text before the real one
                        let k = t.range(0, cs.len());
                        s.extend(cs[..k].iter());
                    }
                    1 => {
                        let k = t.range(0, cs.len());
                        s.extend(cs[k..].iter());
                    }
                    _ => (),
                }
            }
            s
        }
    }
}

/// short text which the parser surely consumes on its own
fn good_piece(t: &mut Tape, p: &P, al: &Alpha) -> String {
    let run = |t: &mut Tape, min: &Option<usize>, max: &Option<usize>| -> usize {
        let lo = min.unwrap_or(1).max(1).min(5001);
        let hi = max.unwrap_or(lo + 2).min(lo + 2);
        t.range(lo, hi.max(lo))
    };
    match *p {
        P::Set { ref set, ref min, ref max, .. } => {
            let n = run(t, min, max);
            let cs: Vec<char> = set.chars().collect();
            if cs.is_empty() {
                return String::new();
            }
            Alpha { chars: cs }.text(t, n)
        }
        P::Int { ref min, ref max, .. } => {
            let n = run(t, min, max);
            Alpha { chars: "0123456789".chars().collect() }.text(t, n)
        }
        P::Greedy { ref end, .. } => {
            let n = t.range(0, 3);
            let s = al.text(t, n);
            match *end {
                Some(ref e) if !e.is_empty() && format!("{}{}", s, e).find(e.as_str()) != Some(s.len()) => String::new(),
                _ => s,
            }
        }
    }
}

pub fn instance(t: &mut Tape, items: &[Item], al: &Alpha) -> String {
    let mut s = String::new();
    // one bad piece spoils a long pattern: usually none
    let good = items.len() > 6 && t.chance(3, 4);
    for it in items {
        match *it {
            Item::Lit(ref l) => s.push_str(l),
            Item::P(ref p) if good => s.push_str(&good_piece(t, p, al)),
            Item::P(ref p) => s.push_str(&sample_parser(t, p, al)),
        }
        if s.len() > 60_000 {
            break;
        }
    }
    s
}

/// a character which shares leading bytes with c
pub fn sibling(t: &mut Tape, c: char) -> char {
    let x = c as u32;
    let y = match t.below(4) {
        0 => x ^ 1,
        1 => x ^ 0x20,
        2 => x.wrapping_add(1),
        _ => x.wrapping_sub(1),
    };
    char::from_u32(y).unwrap_or('a')
}

pub fn mutate(t: &mut Tape, s: &str, al: &Alpha) -> String {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let at = |t: &mut Tape, n: usize| match t.below(4) {
        0 => 0,
        1 => n,
        _ => t.range(0, n),
    };
    match t.below(9) {
        0 => {
            let k = at(t, n);
            cs[..k].iter().collect()
        }
        1 => cs[..n.saturating_sub(1)].iter().collect(),
        2 => {
            let mut s = s.to_owned();
            let k = t.range(1, 3);
            s.push_str(&al.text(t, k));
            s
        }
        3 => {
            let k = at(t, n);
            let mut o: String = cs[..k].iter().collect();
            o.push(al.ch(t));
            o.extend(cs[k..].iter());
            o
        }
        4 if n > 0 => {
            let k = at(t, n - 1);
            let mut v = cs.clone();
            v.remove(k);
            v.into_iter().collect()
        }
        5 if n > 0 => {
            let k = at(t, n - 1);
            let mut v = cs.clone();
            v[k] = sibling(t, v[k]);
            v.into_iter().collect()
        }
        6 if n > 0 => {
            let k = at(t, n - 1);
            let mut v = cs.clone();
            v[k] = al.ch(t);
            v.into_iter().collect()
        }
        7 => format!("{}{}", al.ch(t), s),
        _ => {
            let k = at(t, n);
            let mut o: String = cs[k..].iter().collect();
            o.extend(cs[..k].iter());
            o
        }
    }
}

pub fn message(t: &mut Tape, pats: &[Pat], po: &Pools) -> String {
    let al = &po.alpha;
    match t.weighted(&[10, 5, 2, 1, 1]) {
        0 => {
            let p = t.pick(pats);
            instance(t, &p.items, al)
        }
        1 => {
            let p = t.pick(pats);
            let mut s = instance(t, &p.items, al);
            for _ in 0..t.range(1, 2) {
                s = mutate(t, &s, al);
            }
            s
        }
        2 => {
            // the beginning of one pattern, the end of another
            let p = t.pick(pats);
            let q = t.pick(pats);
            let k = t.range(0, p.items.len());
            let j = t.range(0, q.items.len());
            let mut s = instance(t, &p.items[..k], al);
            s.push_str(&instance(t, &q.items[j..], al));
            s
        }
        3 => {
            let n = size(t, 8, 4000);
            al.text(t, n)
        }
        _ => {
            let p = t.pick(pats);
            let s = instance(t, &p.items, al);
            match t.below(3) {
                0 => s.to_uppercase(),
                1 => format!("{}{}", s, s),
                _ => s.replace(' ', ""),
            }
        }
    }
}
