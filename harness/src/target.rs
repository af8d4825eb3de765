//! Adapters between the model's data and the public API of the code under test.

use crate::gen::Pat;
use crate::model::*;
use crate::rt::tgt;
use actiondb::grammar;
use actiondb::matcher::compiled_pattern::{CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, Parser, SetParser};
use std::collections::BTreeMap;
use uuid::Uuid;

pub type TrieF = TrieMatcherFactory;
pub type SaF = SuffixArrayMatcherFactory;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Trie,
    Sa,
}
pub const KINDS: [Kind; 2] = [Kind::Trie, Kind::Sa];

pub fn new_matcher(k: Kind) -> Box<dyn Matcher> {
    tgt(|| match k {
        Kind::Trie => Box::new(TrieF::new_matcher()) as Box<dyn Matcher>,
        Kind::Sa => Box::new(SaF::new_matcher()) as Box<dyn Matcher>,
    })
}

pub fn to_uuid(u: &[u8; 16]) -> Uuid {
    Uuid::from_bytes(u).expect("16 bytes")
}

pub fn build_parser(p: &P) -> Box<dyn Parser> {
    tgt(|| match *p {
        P::Set { ref set, min, max, ref name } => {
            let mut x = match *name {
                Some(ref n) if n.len() % 2 == 0 => SetParser::with_name(n.clone(), set),
                Some(ref n) => SetParser::from_str(n, set),
                None => SetParser::new(set),
            };
            x.set_min_length(min);
            x.set_max_length(max);
            Box::new(x) as Box<dyn Parser>
        }
        P::Int { min, max, ref name } => {
            let mut x = match *name {
                Some(ref n) => IntParser::with_name(n.clone()),
                None => IntParser::new(),
            };
            x.set_min_length(min);
            x.set_max_length(max);
            Box::new(x) as Box<dyn Parser>
        }
        P::Greedy { ref end, ref name } => {
            let mut x = match *name {
                Some(ref n) => match *end {
                    Some(ref e) if e.len() % 2 == 0 => GreedyParser::from_str(n, e),
                    _ => GreedyParser::with_name(n.clone()),
                },
                None => GreedyParser::new(),
            };
            x.set_end_string(end.clone());
            Box::new(x) as Box<dyn Parser>
        }
    })
}

/// the same parser, made from one that was set up differently by its setters in some order
pub fn rebuild_parser(t: &mut crate::tape::Tape, p: &P) -> Box<dyn Parser> {
    let min_first = t.chance(1, 2);
    let (a, b) = (crate::gen::limit(t), crate::gen::limit(t));
    let used = t.chance(1, 2);
    let limits = |x: &mut dyn HasLengthConstraint, min: Option<usize>, max: Option<usize>| {
        x.set_min_length(a);
        x.set_max_length(b);
        if min_first {
            x.set_min_length(min);
            x.set_max_length(max);
        } else {
            x.set_max_length(max);
            x.set_min_length(min);
        }
    };
    tgt(|| match *p {
        P::Set { ref set, min, max, ref name } => {
            let mut x = SetParser::from_str("before", "ab0\u{e9}");
            if used {
                let _ = x.parse("ab");
            }
            limits(&mut x, min, max);
            x.set_character_set(set);
            x.set_name(name.clone());
            Box::new(x) as Box<dyn Parser>
        }
        P::Int { min, max, ref name } => {
            let mut x = if used { IntParser::default() } else { IntParser::with_name("before") };
            limits(&mut x, min, max);
            x.set_name(name.clone());
            Box::new(x) as Box<dyn Parser>
        }
        P::Greedy { ref end, ref name } => {
            let mut x = GreedyParser::from_str("before", "b");
            if used {
                let _ = x.parse("ab");
            }
            x.set_end_string(end.clone());
            x.set_name(name.clone());
            Box::new(x) as Box<dyn Parser>
        }
    })
}

/// a parser of a known type: it can be cloned as such and set up again
#[derive(Clone)]
pub enum Concrete {
    S(SetParser),
    I(IntParser),
    G(GreedyParser),
}

impl Concrete {
    pub fn new(p: &P) -> Concrete {
        let mut x = tgt(|| match *p {
            P::Set { .. } => Concrete::S(SetParser::new("")),
            P::Int { .. } => Concrete::I(IntParser::new()),
            P::Greedy { .. } => Concrete::G(GreedyParser::new()),
        });
        x.set_up(p);
        x
    }
    /// the parser has to be of the same type
    pub fn set_up(&mut self, p: &P) {
        tgt(|| match (self, p) {
            (&mut Concrete::S(ref mut x), &P::Set { ref set, min, max, ref name }) => {
                x.set_name(name.clone());
                x.set_character_set(set);
                x.set_min_length(min);
                x.set_max_length(max);
            }
            (&mut Concrete::I(ref mut x), &P::Int { min, max, ref name }) => {
                x.set_max_length(max);
                x.set_min_length(min);
                x.set_name(name.clone());
            }
            (&mut Concrete::G(ref mut x), &P::Greedy { ref end, ref name }) => {
                x.set_name(name.clone());
                x.set_end_string(end.clone());
            }
            _ => (),
        })
    }
    pub fn parser(&self) -> &dyn Parser {
        match *self {
            Concrete::S(ref x) => x,
            Concrete::I(ref x) => x,
            Concrete::G(ref x) => x,
        }
    }
}

pub fn compile_api(items: &[Item]) -> Vec<TokenType> {
    let mut b = CompiledPatternBuilder::new();
    for it in items {
        match *it {
            Item::Lit(ref l) => {
                tgt(|| {
                    b.literal(l.as_str());
                });
            }
            Item::P(ref p) => {
                let p = build_parser(p);
                tgt(|| {
                    b.parser(p);
                });
            }
        }
    }
    tgt(|| b.build())
}

pub fn compile(p: &Pat) -> Result<Vec<TokenType>, String> {
    if p.grammar {
        let text = print(&p.items);
        tgt(|| grammar::parser::pattern(&text)).map_err(|e| format!("valid pattern text rejected: {:?}: {}", text, e))
    } else {
        Ok(compile_api(&p.items))
    }
}

pub fn build_pattern(p: &Pat, tests: Option<Vec<TestMessage>>) -> Result<Pattern, String> {
    let compiled = compile(p)?;
    Ok(tgt(|| {
        if p.name.is_none() && p.values.is_none() && p.tags.is_none() && tests.is_none() {
            let mut x = Pattern::with_uuid(to_uuid(&p.uuid));
            x.set_pattern(compiled);
            x
        } else {
            Pattern::new(p.name.clone(), to_uuid(&p.uuid), compiled, tests, p.values.clone(), p.tags.clone())
        }
    }))
}

/// where a returned value lies in the message
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Val {
    pub text: String,
    /// byte offset in the message, if the slice lies in it
    pub at: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub uuid: [u8; 16],
    pub name: Option<String>,
    pub values: BTreeMap<String, Val>,
}

pub fn observe(m: &dyn Matcher, msg: &str) -> Option<Obs> {
    tgt(|| {
        let r = m.parse(msg);
        r.map(|r| {
            let mut u = [0u8; 16];
            u.copy_from_slice(r.pattern().uuid().as_bytes());
            let mut values = BTreeMap::new();
            for (k, v) in r.values() {
                let p = v.as_ptr() as usize;
                let b = msg.as_ptr() as usize;
                let at = if p >= b && p + v.len() <= b + msg.len() { Some(p - b) } else { None };
                values.insert(k.to_string(), Val { text: v.to_string(), at });
            }
            Obs { uuid: u, name: r.pattern().name().map(|s| s.to_owned()), values }
        })
    })
}

/// the same answer, text for text
pub fn same(a: &Option<Obs>, b: &Option<Obs>) -> bool {
    match (a, b) {
        (&None, &None) => true,
        (&Some(ref a), &Some(ref b)) => {
            a.uuid == b.uuid
                && a.name == b.name
                && a.values.len() == b.values.len()
                && a.values.iter().zip(b.values.iter()).all(|(x, y)| x.0 == y.0 && x.1.text == y.1.text)
        }
        _ => false,
    }
}

/// which of the patterns the result is about: by UUID, and by name where several share one
pub fn which(pats: &[Pat], o: &Obs) -> Option<usize> {
    let first = pats.iter().position(|p| p.uuid == o.uuid);
    pats.iter().position(|p| p.uuid == o.uuid && p.name == o.name).or(first)
}

pub fn describe(pats: &[Pat]) -> String {
    let mut s = String::new();
    for (i, p) in pats.iter().enumerate() {
        let body = if expressible(&p.items) { format!("{:?}", print(&p.items)) } else { format!("{:?}", p.items) };
        s.push_str(&format!("  #{} uuid={}{} {}{}\n", i, crate::gen::uuid_str(&p.uuid), p.name.as_ref().map_or(String::new(), |n| format!(" name={:?}", n)), body, if p.grammar { "" } else { " (API)" }));
    }
    s
}

pub fn show(o: &Option<Obs>, pats: &[Pat]) -> String {
    match *o {
        None => "no match".to_owned(),
        Some(ref o) => {
            let i = which(pats, o);
            let vals: Vec<String> = o.values.iter().map(|(k, v)| format!("{}={:?}@{:?}", k, v.text, v.at)).collect();
            format!("match pattern {} values {{{}}}", i.map_or("unknown".to_owned(), |i| format!("#{}", i)), vals.join(", "))
        }
    }
}
