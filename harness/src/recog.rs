//! An independent recogniser of the documented pattern syntax.

use crate::model::*;

#[derive(Debug, PartialEq)]
pub enum Rec {
    Valid(Vec<Item>),
    /// offset range in which the error has to be reported (both inclusive)
    Invalid(usize, usize),
    /// the documentation does not say (hyphens in names, empty parameter lists, repeated options)
    Unspecified,
}

struct R<'a> {
    s: &'a str,
    p: usize,
    unspec: bool,
}

type E<T> = Result<T, (usize, usize)>;

impl<'a> R<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn eat(&mut self, k: &str) -> bool {
        if self.rest().starts_with(k) {
            self.p += k.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, k: &str) -> E<()> {
        if self.eat(k) {
            Ok(())
        } else {
            self.here()
        }
    }
    fn here<T>(&self) -> E<T> {
        Err((self.p, self.p))
    }
    fn name(&mut self) -> E<Option<String>> {
        if !self.eat(":") {
            return Ok(None);
        }
        let start = self.p;
        let b = self.s.as_bytes();
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-';
        let mut e = start;
        while e < b.len() && word(b[e]) {
            e += 1;
        }
        if e == start || b[start].is_ascii_digit() || b[start] == b'-' {
            return self.here();
        }
        if self.s[start..e].contains('-') {
            self.unspec = true;
        }
        self.p = e;
        Ok(Some(self.s[start..e].to_owned()))
    }
    fn comma(&mut self) -> bool {
        if self.eat(",") {
            while self.eat(" ") {}
            true
        } else {
            false
        }
    }
    fn param(&mut self, min: &mut Option<usize>, max: &mut Option<usize>) -> E<()> {
        let slot = if self.eat("min_len") {
            min
        } else if self.eat("max_len") {
            max
        } else {
            return self.here();
        };
        self.need("=")?;
        let start = self.p;
        let n = self.rest().bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 {
            return self.here();
        }
        self.p += n;
        let v: u128 = match self.s[start..self.p].trim_start_matches('0') {
            "" => 0,
            d if d.len() > 30 => u128::max_value(),
            d => d.parse().unwrap(),
        };
        if v > usize::max_value() as u128 {
            return Err((start, self.p));
        }
        if slot.is_some() {
            self.unspec = true;
        }
        *slot = Some(v as usize);
        Ok(())
    }
    /// after the string or the opening parenthesis; `first`: a parameter may come without a comma
    fn params(&mut self, first: bool) -> E<(Option<usize>, Option<usize>)> {
        let mut min = None;
        let mut max = None;
        let mut need_comma = !first;
        loop {
            if need_comma {
                if self.eat(")") {
                    return Ok((min, max));
                }
                if !self.comma() {
                    return self.here();
                }
                if self.rest().starts_with(')') {
                    // trailing comma
                    self.unspec = true;
                    self.p += 1;
                    return Ok((min, max));
                }
            } else if self.rest().starts_with(')') {
                // empty parameter list
                self.unspec = true;
                self.p += 1;
                return Ok((min, max));
            }
            self.param(&mut min, &mut max)?;
            need_comma = true;
        }
    }
    fn parser(&mut self) -> E<P> {
        let construct = self.p - 2;
        if self.eat("GREEDY") {
            let name = self.name()?;
            self.need("}")?;
            return Ok(P::Greedy { end: None, name });
        }
        if self.eat("SET") {
            self.need("(")?;
            self.need("\"")?;
            let n = match self.rest().find('"') {
                None => {
                    let e = self.s.len();
                    return Err((e, e));
                }
                // an empty set: somewhere between the beginning of the parser and the set
                Some(0) => return Err((construct, self.p)),
                Some(n) => n,
            };
            let set = self.rest()[..n].to_owned();
            self.p += n + 1;
            let (min, max) = self.params(false)?;
            let name = self.name()?;
            self.need("}")?;
            return Ok(P::Set { set, min, max, name });
        }
        if self.eat("INT") {
            let (min, max) = if self.eat("(") { self.params(true)? } else { (None, None) };
            let name = self.name()?;
            self.need("}")?;
            return Ok(P::Int { min, max, name });
        }
        self.here()
    }
    fn pattern(&mut self) -> E<Vec<Item>> {
        let mut items = Vec::new();
        if self.s.is_empty() {
            return self.here();
        }
        while self.p < self.s.len() {
            if self.eat("%{") {
                let p = self.parser()?;
                items.push(Item::P(p));
            } else {
                let n = self.rest().find("%{").unwrap_or(self.rest().len());
                items.push(Item::Lit(unescape(&self.rest()[..n])));
                self.p += n;
            }
        }
        for i in 0..items.len() {
            let follow = match items.get(i + 1) {
                Some(&Item::Lit(ref l)) => Some(l.clone()),
                _ => None,
            };
            if let Item::P(P::Greedy { ref mut end, .. }) = items[i] {
                *end = follow;
            }
        }
        Ok(items)
    }
}

pub fn recognise(s: &str) -> Rec {
    let mut r = R { s, p: 0, unspec: false };
    let x = r.pattern();
    if r.unspec {
        return Rec::Unspecified;
    }
    match x {
        Ok(i) => Rec::Valid(i),
        Err((a, b)) => Rec::Invalid(a, b),
    }
}
