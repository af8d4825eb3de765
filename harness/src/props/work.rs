//! C16: the work done for one message, and the stack it takes.

use super::matching::*;
use super::Verdict;
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use crate::stats::Stats;
use crate::tape::Tape;
use crate::target::*;
use actiondb::matcher::compiled_pattern::{CompiledPatternBuilder, TokenType};
use actiondb::matcher::Pattern;
use actiondb::parsers::{ObjectSafeHash, ParseResult, Parser};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const RULE16: &str = "a case is a pattern set whose parsers count their invocations (mostly many overlapping alternatives that share parsers and fail late) and messages aimed at it, every parse being compared with the number of parser occurrences; or a parse of a long message on a thread with a small stack; non-trivial when a message led to at least four parser invocations and the case was not seen before";

#[derive(Default)]
struct Meter {
    counts: RefCell<Vec<u32>>,
    lowest: Cell<usize>,
}

struct Counted {
    inner: Box<dyn Parser>,
    id: usize,
    meter: Rc<Meter>,
}

impl std::fmt::Debug for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Counted({:?})", self.inner)
    }
}

impl ObjectSafeHash for Counted {
    fn hash_os(&self) -> u64 {
        self.inner.hash_os()
    }
}

impl Parser for Counted {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
        let here = 0u8;
        let at = &here as *const u8 as usize;
        if at < self.meter.lowest.get() {
            self.meter.lowest.set(at);
        }
        self.meter.counts.borrow_mut()[self.id] += 1;
        self.inner.parse(value).map(|r| ParseResult::new(self, r.value()))
    }
    fn name(&self) -> Option<&str> {
        self.inner.name()
    }
    fn set_name(&mut self, n: Option<String>) {
        self.inner.set_name(n)
    }
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(Counted { inner: self.inner.boxed_clone(), id: self.id, meter: self.meter.clone() })
    }
}

/// a set in which exponentially many ways of matching exist
fn ambiguous(t: &mut Tape) -> (Vec<Vec<Item>>, Pools) {
    let pr = Profile { max_pats: 30, max_items: 12, ..Profile::default() };
    let mut po = pools(t, &pr);
    let c = po.alpha.ch(t);
    let d = po.alpha.ch(t);
    po.alpha = Alpha { chars: vec![c, c, d] };
    let depth = t.range(2, 12);
    let width = t.range(2, 4);
    let alternatives: Vec<P> = (0..width)
        .map(|i| {
            let name = Some(format!("n{}", i));
            match t.below(4) {
                0 => P::Set { set: c.to_string(), min: None, max: None, name },
                1 => P::Set { set: format!("{}{}", c, d), min: None, max: None, name },
                2 => P::Set { set: c.to_string(), min: Some(t.range(1, 3)), max: None, name },
                _ => P::Greedy { end: Some(c.to_string()), name },
            }
        })
        .collect();
    let n = size(t, 24, 200).max(2);
    let mut pats = Vec::new();
    for _ in 0..n {
        let mut items = Vec::new();
        for _ in 0..depth {
            items.push(Item::P(t.pick(&alternatives).clone()));
            if t.chance(1, 3) {
                items.push(Item::Lit(c.to_string()));
            } else if t.chance(1, 6) {
                items.push(Item::Lit(format!("{}{}", c, d)));
            }
        }
        if t.chance(1, 3) {
            items.push(Item::Lit("!".into()));
        }
        // adjacent literals never arise: a parser is pushed first
        let mut merged: Vec<Item> = Vec::new();
        for it in items {
            if let (Some(&mut Item::Lit(ref mut a)), &Item::Lit(ref b)) = (merged.last_mut(), &it) {
                a.push_str(b);
                continue;
            }
            merged.push(it);
        }
        pats.push(merged);
    }
    (pats, po)
}

pub fn bounded(t: &mut Tape, st: &mut Stats) -> Verdict {
    if t.chance(1, 40) {
        return small_stack(t, st);
    }
    let (sets, msgs): (Vec<Vec<Item>>, Vec<String>) = if t.chance(1, 2) {
        let (s, po) = ambiguous(t);
        let mut msgs = Vec::new();
        for _ in 0..6 {
            let n = size(t, 30, 2000);
            let mut m = po.alpha.text(t, n);
            if t.chance(1, 2) {
                let p = t.pick(&s).clone();
                m = instance(t, &p, &po.alpha);
            }
            if t.chance(1, 2) {
                m.push_str(t.pick(&["!", "?", "!!"]));
            }
            msgs.push(m);
        }
        (s, msgs)
    } else {
        let mut c = gen_case("C16", t);
        c.msgs.truncate(12);
        (c.pats.into_iter().map(|p| p.items).collect(), c.msgs)
    };
    let occurrences: usize = sets.iter().flat_map(|s| s.iter()).filter(|i| match **i {
        Item::P(_) => true,
        _ => false,
    }).count();
    st.max("max_parser_occurrences", occurrences as u64);
    let mut busy = false;
    for k in KINDS.iter() {
        let meter = Rc::new(Meter { counts: RefCell::new(vec![0; occurrences]), lowest: Cell::new(usize::max_value()) });
        let mut m = new_matcher(*k);
        let mut id = 0;
        for (i, items) in sets.iter().enumerate() {
            let mut b = CompiledPatternBuilder::new();
            for it in items {
                match *it {
                    Item::Lit(ref l) => tgt(|| {
                        b.literal(l.as_str());
                    }),
                    Item::P(ref p) => {
                        let inner = build_parser(p);
                        tgt(|| {
                            b.parser(Box::new(Counted { inner, id, meter: meter.clone() }));
                        });
                        id += 1;
                    }
                }
            }
            let toks: Vec<TokenType> = tgt(|| b.build());
            let mut u = [0u8; 16];
            u[14] = (i >> 8) as u8;
            u[15] = i as u8;
            tgt(|| {
                let mut x = Pattern::with_uuid(to_uuid(&u));
                x.set_pattern(toks);
                m.add_pattern(x)
            });
        }
        for msg in &msgs {
            for c in meter.counts.borrow_mut().iter_mut() {
                *c = 0;
            }
            meter.lowest.set(usize::max_value());
            let here = 0u8;
            let top = &here as *const u8 as usize;
            let hit = tgt(|| m.parse(msg).is_some());
            let total: u64 = meter.counts.borrow().iter().map(|x| *x as u64).sum();
            let worst = meter.counts.borrow().iter().cloned().max().unwrap_or(0);
            let which = meter.counts.borrow().iter().position(|x| *x == worst).unwrap_or(0);
            if total >= 4 {
                busy = true;
            }
            st.add("parser_invocations", total);
            st.inc("messages_parsed");
            st.max("max_invocations_for_one_message", total);
            st.max("max_message_bytes", msg.len() as u64);
            if meter.lowest.get() < top {
                st.max("max_stack_depth_bytes", (top - meter.lowest.get()) as u64);
            }
            if hit {
                st.inc("matches_observed");
            }
            if total > occurrences as u64 || worst > 1 {
                return Err(format!(
                    "{:?}: parsing {:?} invoked parsers {} times, occurrence {} alone {} times; the patterns have {} parser occurrences\n patterns:\n{}\n",
                    k,
                    msg,
                    total,
                    which,
                    worst,
                    occurrences,
                    sets.iter().map(|s| format!("  {:?}\n", s)).collect::<String>()
                ));
            }
        }
        st.add("patterns_added", sets.len() as u64);
        tgt(|| drop(m));
    }
    if busy {
        st.case(&(&sets, &msgs));
    }
    st.sample(|| format!("{} patterns, {} parser occurrences, messages {:?}", sets.len(), occurrences, &msgs[..msgs.len().min(2)]));
    Ok(())
}

/// a long message on a small stack; the patterns are small
fn small_stack(t: &mut Tape, st: &mut Stats) -> Verdict {
    let pr = Profile { max_pats: 4, max_items: 4, ..Profile::default() };
    let mut po = pools(t, &pr);
    let mut pats = gen_pats(t, &mut po, &pr);
    pats.truncate(12);
    for p in pats.iter_mut() {
        p.items.truncate(6);
    }
    if pats.is_empty() {
        return Ok(());
    }
    let p = t.pick(&pats).clone();
    let n = *t.pick(&[300_000usize, 1_000_000, 3_000_000]);
    let msg = long_message(t, &p, &po, n);
    st.max("max_long_message_bytes", msg.len() as u64);
    st.inc("long_messages_on_a_small_stack");
    on_stack(192 * 1024, || -> Verdict {
        for k in KINDS.iter() {
            let m = build(*k, &pats)?;
            tgt(|| drop(m.parse(&msg)));
            tgt(|| drop(m));
        }
        Ok(())
    })
}

/// an instance of the pattern in which one parser's piece is very long
pub fn long_message(t: &mut Tape, p: &Pat, po: &Pools, n: usize) -> String {
    let which: Vec<usize> = (0..p.items.len()).filter(|i| match p.items[*i] {
        Item::P(_) => true,
        _ => false,
    }).collect();
    let mut s = String::new();
    let long = if which.is_empty() { usize::max_value() } else { *t.pick(&which) };
    for (i, it) in p.items.iter().enumerate() {
        match *it {
            Item::Lit(ref l) => s.push_str(l),
            Item::P(ref q) => {
                if i == long {
                    let unit: Vec<char> = match *q {
                        P::Set { ref set, .. } => set.chars().collect(),
                        P::Int { .. } => "0123456789".chars().collect(),
                        P::Greedy { .. } => po.alpha.text(t, 5).chars().collect(),
                    };
                    s.extend(unit.iter().cycle().take(n));
                } else {
                    s.push_str(&sample_parser(t, q, &po.alpha));
                }
            }
        }
    }
    if long == usize::max_value() || t.chance(1, 4) {
        let unit = po.alpha.text(t, 3);
        while s.len() < n {
            s.push_str(&unit);
        }
    }
    s
}
