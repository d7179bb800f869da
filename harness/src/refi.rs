//! Reference semantics: the whole backtracking search of a pattern as one list
//! of events, written from the documentation, independently of the library.
use crate::pat::*;

#[derive(Clone, Debug)]
pub enum Ev {
    M(usize, V, u64),
    E(usize, String),
}
pub struct Over;
pub struct Ref { pub budget: usize, pub depth: usize, pub max_depth: usize }

pub type R = Result<Vec<Ev>, Over>;

fn one(e: usize, v: V) -> Vec<Ev> { vec![Ev::M(e, v, 0)] }
fn err(l: usize, s: String) -> Vec<Ev> { vec![Ev::E(l, s)] }
fn exp(l: usize, s: impl std::fmt::Display) -> Vec<Ev> { err(l, format!("expected {s}")) }
fn bb(v: &V) -> Box<V> { Box::new(v.clone()) }

/// length of the longest prefix of digits
fn digits(s: &str, radix: u32) -> usize { s.chars().take_while(|c| c.is_ascii() && c.is_digit(radix)).count() }

pub fn int_len(s: &str, signed: bool, radix: u32) -> Option<usize> {
    let sg = if signed && (s.starts_with('+') || s.starts_with('-')) { 1 } else { 0 };
    let d = digits(&s[sg..], radix);
    if d == 0 { None } else { Some(sg + d) }
}
pub fn float_len(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
    let ci = |i: usize, w: &str| b.len() >= i + w.len() && b[i..i + w.len()].eq_ignore_ascii_case(w.as_bytes());
    if ci(i, "infinity") { return Some(i + 8); }
    if ci(i, "inf") { return Some(i + 3); }
    if ci(i, "nan") { return Some(i + 3); }
    let nd = |mut j: usize| { let s0 = j; while j < b.len() && b[j].is_ascii_digit() { j += 1; } j - s0 };
    let d = nd(i);
    if d > 0 {
        i += d;
        if i < b.len() && b[i] == b'.' { i += 1; i += nd(i); }
    } else if i < b.len() && b[i] == b'.' && nd(i + 1) > 0 {
        i += 1; i += nd(i);
    } else { return None; }
    if i < b.len() && (b[i] | 32) == b'e' {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') { j += 1; }
        let d = nd(j);
        if d > 0 { i = j + d; }
    }
    Some(i)
}

fn fin<T: std::fmt::Debug, E: std::fmt::Display>(tn: &str, pos: usize, s: &str, len: Option<usize>, f: impl Fn(&str) -> Result<T, E>, sh: impl Fn(T) -> String) -> Vec<Ev> {
    match len {
        None => exp(pos, tn),
        Some(n) => match f(&s[..n]) {
            Ok(v) => one(pos + n, V::Prim(sh(v))),
            Err(e) => err(pos, format!("failed to parse {:?} as type {}: {}", &s[..n], tn, e)),
        },
    }
}
fn d<T: std::fmt::Debug>(t: T) -> String { format!("{t:?}") }

pub fn prim(k: Prim, src: &str, pos: usize) -> Vec<Ev> {
    let s = &src[pos..];
    use num_bigint::{BigInt, BigUint};
    match k {
        Prim::U8 => fin("u8", pos, s, int_len(s, false, 10), |x| x.parse::<u8>(), d),
        Prim::U64 => fin("u64", pos, s, int_len(s, false, 10), |x| x.parse::<u64>(), d),
        Prim::Usize => fin("usize", pos, s, int_len(s, false, 10), |x| x.parse::<usize>(), d),
        Prim::I8 => fin("i8", pos, s, int_len(s, true, 10), |x| x.parse::<i8>(), d),
        Prim::I32 => fin("i32", pos, s, int_len(s, true, 10), |x| x.parse::<i32>(), d),
        Prim::I128 => fin("i128", pos, s, int_len(s, true, 10), |x| x.parse::<i128>(), d),
        Prim::U8Bin => fin("u8", pos, s, int_len(s, false, 2), |x| u8::from_str_radix(x, 2), d),
        Prim::U16Hex => fin("u16", pos, s, int_len(s, false, 16), |x| u16::from_str_radix(x, 16), d),
        Prim::I8Hex => fin("i8", pos, s, int_len(s, true, 16), |x| i8::from_str_radix(x, 16), d),
        Prim::I32Bin => fin("i32", pos, s, int_len(s, true, 2), |x| i32::from_str_radix(x, 2), d),
        Prim::Bool => {
            let n = if s.starts_with("true") { Some(4) } else if s.starts_with("false") { Some(5) } else { None };
            fin("bool", pos, s, n, |x| Ok::<bool, String>(x == "true"), d)
        }
        Prim::F64 => fin("f64", pos, s, float_len(s), |x| x.parse::<f64>(), fdbg),
        Prim::BigInt => fin(std::any::type_name::<BigInt>(), pos, s, int_len(s, true, 10), |x| x.parse::<BigInt>(), |x| x.to_string()),
        Prim::BigUint => fin(std::any::type_name::<BigUint>(), pos, s, int_len(s, false, 10), |x| x.parse::<BigUint>(), |x| x.to_string()),
    }
}

/// What a complete run over `src` gives: the first match that reaches the end,
/// or the foremost error (the earliest recorded one at the greatest offset).
pub fn fold(evs: &[Ev], len: usize, incomplete: &str) -> Result<(V, u64), Option<(usize, String)>> {
    let mut best: Option<(usize, String)> = None;
    let mut rep = |l: usize, s: &str| {
        if best.as_ref().is_none_or(|b| l > b.0) { best = Some((l, s.to_string())); }
    };
    for e in evs {
        match e {
            Ev::M(e, v, c) => {
                if *e == len { return Ok((v.clone(), *c)); }
                rep(*e, incomplete);
            }
            Ev::E(l, s) => rep(*l, s),
        }
    }
    Err(best)
}

impl Ref {
    fn spend(&mut self, n: usize) -> Result<(), Over> {
        if self.budget < n { return Err(Over); }
        self.budget -= n;
        Ok(())
    }
    pub fn trace(&mut self, p: &Pat, rules: &[&[Pat]], src: &str, pos: usize) -> R {
        self.spend(1)?;
        if self.depth > self.max_depth { return Err(Over); }
        self.depth += 1;
        let r = self.tr(p, rules, src, pos);
        self.depth -= 1;
        let r = r?;
        self.spend(r.len())?;
        Ok(r)
    }
    fn seq(&mut self, a: &Pat, c: &Pat, rules: &[&[Pat]], src: &str, pos: usize, f: impl Fn(V, V) -> V) -> R {
        let mut out = vec![];
        for e in self.trace(a, rules, src, pos)? {
            match e {
                Ev::E(..) => out.push(e),
                Ev::M(mid, v, c1) => {
                    for e2 in self.trace(c, rules, src, mid)? {
                        self.spend(1)?;
                        match e2 {
                            Ev::E(..) => out.push(e2),
                            Ev::M(e, v2, c2) => out.push(Ev::M(e, f(v.clone(), v2), c1 + c2)),
                        }
                    }
                }
            }
        }
        Ok(out)
    }
    fn mapv(&mut self, p: &Pat, rules: &[&[Pat]], src: &str, pos: usize, f: impl Fn(V, u64, usize) -> (V, u64)) -> R {
        let mut t = self.trace(p, rules, src, pos)?;
        for e in t.iter_mut() {
            if let Ev::M(e, v, c) = e {
                let (v2, c2) = f(std::mem::replace(v, V::Unit), *c, *e);
                *v = v2; *c = c2;
            }
        }
        Ok(t)
    }
    fn class(&self, src: &str, pos: usize, noun: &str, pred: impl Fn(char) -> bool, f: impl Fn(char) -> V) -> Vec<Ev> {
        match src[pos..].chars().next() {
            Some(c) if pred(c) => one(pos + c.len_utf8(), f(c)),
            _ => exp(pos, noun),
        }
    }
    fn tr(&mut self, p: &Pat, rules: &[&[Pat]], src: &str, pos: usize) -> R {
        Ok(match p {
            Pat::Lit(s) => if src[pos..].as_bytes().starts_with(s.as_bytes()) { one(pos + s.len(), V::Unit) } else { exp(pos, format!("{s:?}")) },
            Pat::Chr(c) => if src[pos..].chars().next() == Some(*c) { one(pos + c.len_utf8(), V::Unit) } else { exp(pos, format!("{c:?}")) },
            Pat::Empty => one(pos, V::Unit),
            Pat::Class(k) => match k {
                Class::Alpha => self.class(src, pos, "letter", |c| c.is_alphabetic(), V::Char),
                Class::Alnum => self.class(src, pos, "letter or digit", |c| c.is_alphanumeric(), V::Char),
                Class::Upper => self.class(src, pos, "uppercase letter", |c| c.is_uppercase(), V::Char),
                Class::Lower => self.class(src, pos, "lowercase letter", |c| c.is_lowercase(), V::Char),
                Class::Any => self.class(src, pos, "any character", |_| true, V::Char),
            },
            Pat::CharOf(s) => self.class(src, pos, &format!("one of {s:?}"), |c| s.contains(c), |c| V::N(s.chars().take_while(|x| *x != c).count())),
            Pat::Digit(r) => {
                let noun = match r { 2 => "binary digit", 16 => "hexadecimal digit", _ => "decimal digit" };
                let val = |c: char| -> Option<usize> {
                    let v = match c { '0'..='9' => c as u32 - 48, 'a'..='f' => c as u32 - 87, 'A'..='F' => c as u32 - 55, _ => return None };
                    if v < *r { Some(v as usize) } else { None }
                };
                self.class(src, pos, noun, |c| val(c).is_some(), |c| V::N(val(c).unwrap()))
            }
            Pat::Prim(k) => prim(*k, src, pos),
            Pat::Str(a) => self.mapv(a, rules, src, pos, |_, _, e| (V::Str(src[pos..e].to_string()), 0))?,
            Pat::Seq(a, c) | Pat::Pair(a, c) => self.seq(a, c, rules, src, pos, |x, y| V::Pair(Box::new(x), Box::new(y)))?,
            Pat::SeqLit(a, l, c) => {
                let tail = Pat::Seq(Box::new(Pat::Lit(l.clone())), c.clone());
                self.seq(a, &tail, rules, src, pos, |x, y| match y { V::Pair(_, y) => V::Pair(Box::new(x), y), _ => unreachable!() })?
            }
            Pat::Alt(a, c) => {
                let mut t = self.mapv(a, rules, src, pos, |v, c, _| (V::L(Box::new(v)), c))?;
                t.extend(self.mapv(c, rules, src, pos, |v, c, _| (V::R(Box::new(v)), c))?);
                t
            }
            Pat::Opt(a) => {
                let mut t = self.mapv(a, rules, src, pos, |v, c, _| (V::Opt(Some(Box::new(v))), c))?;
                t.push(Ev::M(pos, V::Opt(None), 0));
                t
            }
            Pat::Star(a) => self.rep(a, &Pat::Empty, 0, rules, src, pos)?,
            Pat::Plus(a) => self.rep(a, &Pat::Empty, 1, rules, src, pos)?,
            Pat::RepSep(a, s) => self.rep(a, s, 0, rules, src, pos)?,
            Pat::Line(a) => self.line(a, rules, src, pos)?,
            Pat::Lines(a) => { let l = Pat::Line(a.clone()); self.rep(&l, &Pat::Empty, 0, rules, src, pos)? }
            Pat::Section(a) => self.section(a, rules, src, pos)?,
            Pat::Sections(a) => { let l = Pat::Section(a.clone()); self.rep(&l, &Pat::Empty, 0, rules, src, pos)? }
            Pat::Map(id, a) => self.mapv(a, rules, src, pos, |v, c, _| (V::Map(*id, Box::new(v)), c + 1))?,
            Pat::Single(a) => self.trace(a, rules, src, pos)?,
            Pat::Coll(k, a) => {
                let mut t = self.rep(a, &Pat::Empty, 0, rules, src, pos)?;
                for e in t.iter_mut() {
                    if let Ev::M(_, v, _) = e {
                        let V::Vec(mut items) = std::mem::replace(v, V::Unit) else { unreachable!() };
                        if *k != 2 { items.sort(); items.dedup(); }
                        *v = canon(*k, items);
                    }
                }
                t
            }
            Pat::CollMap(k, a, c) => {
                let pr = Pat::Pair(a.clone(), c.clone());
                let mut t = self.rep(&pr, &Pat::Empty, 0, rules, src, pos)?;
                for e in t.iter_mut() {
                    if let Ev::M(_, v, _) = e {
                        let V::Vec(items) = std::mem::replace(v, V::Unit) else { unreachable!() };
                        // the last value given for a key wins
                        let mut res: Vec<(V, V)> = vec![];
                        for it in items {
                            let V::Pair(a, b) = it else { unreachable!() };
                            if let Some(x) = res.iter_mut().find(|x| x.0 == *a) { x.1 = *b; } else { res.push((*a, *b)); }
                        }
                        *v = canon(*k, res.iter().map(|(a, b)| V::Pair(bb(a), bb(b))).collect());
                    }
                }
                t
            }
            Pat::Rule(i) => {
                let bodies = rules.last().unwrap();
                self.trace(&bodies[*i], rules, src, pos)?
            }
            Pat::Rules(bodies, entry) => self.trace(entry, &[bodies], src, pos)?,
            Pat::Dup(a) => self.seq(a, a, rules, src, pos, |x, y| V::Pair(Box::new(x), Box::new(y)))?,
        })
    }
    fn rep(&mut self, p: &Pat, sep: &Pat, min: usize, rules: &[&[Pat]], src: &str, pos: usize) -> R {
        let mut out = vec![];
        self.rep_pat(p, sep, min, rules, src, pos, pos, &mut vec![], 0, &mut out)?;
        Ok(out)
    }
    // n repetitions done; the last began at `istart`; looking for another at `pos`.
    fn rep_pat(&mut self, p: &Pat, sep: &Pat, min: usize, rules: &[&[Pat]], src: &str, pos: usize, istart: usize, cs: &mut Vec<V>, calls: u64, out: &mut Vec<Ev>) -> Result<(), Over> {
        if self.depth > self.max_depth { return Err(Over); }
        self.depth += 1;
        self.spend(1)?;
        let n = cs.len();
        let pointless = n > 0 && n >= min && pos == istart;
        if !pointless {
            for e in self.trace(p, rules, src, pos)? {
                match e {
                    Ev::E(..) => out.push(e),
                    Ev::M(end, v, c) => {
                        cs.push(v);
                        self.rep_sep(p, sep, min, rules, src, end, pos, cs, calls + c, out)?;
                        cs.pop();
                    }
                }
            }
        }
        if n == 0 && min == 0 { out.push(Ev::M(pos, V::Vec(vec![]), 0)); }
        self.depth -= 1;
        Ok(())
    }
    fn rep_sep(&mut self, p: &Pat, sep: &Pat, min: usize, rules: &[&[Pat]], src: &str, end: usize, istart: usize, cs: &mut Vec<V>, calls: u64, out: &mut Vec<Ev>) -> Result<(), Over> {
        for e in self.trace(sep, rules, src, end)? {
            match e {
                Ev::E(..) => out.push(e),
                Ev::M(e, _, _) => self.rep_pat(p, sep, min, rules, src, e, istart, cs, calls, out)?,
            }
        }
        if cs.len() >= min {
            self.spend(1 + cs.len())?;
            out.push(Ev::M(end, V::Vec(cs.clone()), calls));
        }
        Ok(())
    }
    fn region(&mut self, a: &Pat, rules: &[&[Pat]], src: &str, pos: usize, inner_end: usize, outer_end: usize, what: &str) -> R {
        let inner = &src[pos..inner_end];
        let evs = self.trace(a, rules, inner, 0)?;
        let msg = format!("{what}(pattern) matched part of the {what}, but not all of it");
        Ok(match fold(&evs, inner.len(), &msg) {
            Ok((v, c)) => vec![Ev::M(outer_end, v, c)],
            Err(Some((l, s))) => err(l + pos, s),
            Err(None) => err(usize::MAX, "a failing search recorded no error".to_string()),
        })
    }
    fn line(&mut self, a: &Pat, rules: &[&[Pat]], src: &str, pos: usize) -> R {
        let by = src.as_bytes();
        if !(pos == 0 || by[pos - 1] == b'\n') {
            return Ok(err(pos, "line() can't match here because this is not at the start of a line".into()));
        }
        let mut e = pos;
        while e < by.len() && by[e] != b'\n' { e += 1; }
        if e < by.len() { self.region(a, rules, src, pos, e, e + 1, "line") }
        else if e > pos { self.region(a, rules, src, pos, e, e, "line") }
        else { Ok(exp(src.len(), "line")) }
    }
    fn section(&mut self, a: &Pat, rules: &[&[Pat]], src: &str, pos: usize) -> R {
        let by = src.as_bytes();
        // at the start of the input, or just after a blank line
        let ok = pos == 0 || (by[pos - 1] == b'\n' && (pos == 1 || by[pos - 2] == b'\n'));
        if !ok {
            return Ok(err(pos, "section() can't match here because this is not at the start of a section".into()));
        }
        if pos == by.len() { return Ok(exp(src.len(), "section")); }
        // the first blank line at or after pos
        let mut e = pos;
        loop {
            if e == by.len() { return self.region(a, rules, src, pos, e, e, "section"); }
            if by[e] == b'\n' && (e == pos || by[e - 1] == b'\n') { return self.region(a, rules, src, pos, e, e + 1, "section"); }
            e += 1;
        }
    }
}

/// How an error at `loc` in `src` must be displayed.
pub fn display(src: &str, loc: usize, reason: &str) -> String {
    if loc == src.len() { return format!("{reason} at end of input"); }
    let (mut l, mut c) = (1, 1);
    for (i, ch) in src.char_indices() {
        if i >= loc { break; }
        if ch == '\n' { l += 1; c = 1; } else { c += 1; }
    }
    format!("{reason} at line {l} column {c}")
}
