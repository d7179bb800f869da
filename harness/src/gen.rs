//! Random patterns and inputs.
use crate::pat::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
}

/// Characters that code tends to treat specially, and arbitrary ones.
const ODD: [char; 44] = ['\u{0}', '\u{1}', '\u{7}', '\u{8}', '\t', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{1f}', ' ', '!', '"', '#', '$', '%', '\'', '*', '/', ':', ';', '=', '?',
    '@', 'Z', '[', '\\', '_', '{', '~', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{301}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
pub fn odd(r: &mut Rng) -> char {
    match r.n(8) {
        0..=4 => *r.pick(&ODD),
        5 => char::from_u32(r.n(0x80) as u32).unwrap(),
        6 => char::from_u32(r.n(0x3000) as u32).unwrap(),
        _ => char::from_u32(r.n(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Relative weights of the constructs in a profile.
#[derive(Clone, Debug)]
pub struct Prof {
    pub atom: usize, pub prim: usize, pub seq: usize, pub alt: usize, pub opt: usize, pub rep: usize,
    pub line: usize, pub section: usize, pub map: usize, pub string: usize, pub coll: usize, pub rules: usize,
    pub unicode: bool, pub depth: usize,
}
pub const BASE: Prof = Prof { atom: 6, prim: 1, seq: 4, alt: 2, opt: 1, rep: 3, line: 1, section: 1, map: 1, string: 1, coll: 0, rules: 1, unicode: false, depth: 4 };

const LITS: [&str; 14] = ["a", "b", "ab", "aa", "ba", "", ",", "1", "-", "a\n", "\n", "b1", "aab", "\n\n"];
const ULITS: [&str; 8] = ["é", "日本", "é\n", "a\u{301}", "\u{10ffff}", "\u{0}", "ß", "\r\n"];

pub struct G<'r> { pub r: &'r mut Rng, pub f: Prof, pub nrules: usize, pub ids: u32, pub big: usize }

impl<'r> G<'r> {
    fn bx(&mut self, d: usize) -> Box<Pat> { Box::new(self.pat(d)) }
    fn lit(&mut self) -> String {
        if self.f.unicode && self.r.p(1, 3) { self.r.pick(&ULITS).to_string() } else { self.r.pick(&LITS).to_string() }
    }
    pub fn atom(&mut self) -> Pat {
        match self.r.n(12) {
            0..=5 => Pat::Lit(self.lit()),
            6 => Pat::Chr(*self.r.pick(if self.f.unicode { &['é', '日', '\n', 'a', 'b'] } else { &['a', 'b', '1', '\n', ','] })),
            7 => Pat::Class(*self.r.pick(&[Class::Alpha, Class::Alnum, Class::Upper, Class::Lower, Class::Any, Class::Any])),
            8 => Pat::CharOf(self.r.pick(if self.f.unicode { &["日é1", "éab", "b日", ""] } else { &["ab", "ba1", "\n-", "aab"] }).to_string()),
            9 => Pat::Digit(*self.r.pick(&[2, 10, 16])),
            10 => Pat::Empty,
            _ => Pat::Class(Class::Any),
        }
    }
    pub fn pat(&mut self, d: usize) -> Pat {
        let f = self.f.clone();
        if d == 0 {
            return match self.r.n(f.atom + f.prim) { x if x < f.atom => self.atom(), _ => Pat::Prim(*self.r.pick(&PRIMS)) };
        }
        let w = [f.atom, f.prim, f.seq, f.alt, f.opt, f.rep, f.line, f.section, f.map, f.string, f.coll, f.rules];
        let mut x = self.r.n(w.iter().sum());
        let mut k = 0;
        while x >= w[k] { x -= w[k]; k += 1; }
        let e = d - 1;
        match k {
            0 => self.atom(),
            1 => Pat::Prim(*self.r.pick(&PRIMS)),
            2 => match self.r.n(6) {
                0 => Pat::Pair(self.bx(e), self.bx(e)),
                1 => { let l = self.lit(); Pat::SeqLit(self.bx(e), l, self.bx(e)) }
                2 if d <= 2 => Pat::Dup(self.bx(e)),
                _ => Pat::Seq(self.bx(e), self.bx(e)),
            },
            3 => Pat::Alt(self.bx(e), self.bx(e)),
            4 => Pat::Opt(self.bx(e)),
            5 => match self.r.n(5) {
                0 | 1 => Pat::Star(self.bx(e)),
                2 => Pat::Plus(self.bx(e)),
                _ => {
                    let sep = if self.r.p(2, 3) { Box::new(self.atom()) } else { self.bx(e.min(2)) };
                    Pat::RepSep(self.bx(e), sep)
                }
            },
            6 => if self.r.p(1, 2) { Pat::Line(self.bx(e)) } else { Pat::Lines(self.bx(e)) },
            7 => if self.r.p(1, 2) { Pat::Section(self.bx(e)) } else { Pat::Sections(self.bx(e)) },
            8 => if self.r.p(4, 5) { self.ids += 1; Pat::Map(self.ids, self.bx(e)) } else { Pat::Single(self.bx(e)) },
            9 => Pat::Str(self.bx(e)),
            10 => match self.r.n(5) {
                k @ 0..=2 => Pat::Coll(k as u8, self.bx(e)),
                k => Pat::CollMap(k as u8, self.bx(e), self.bx(e.min(1))),
            },
            _ => {
                if self.nrules > 0 && self.r.p(3, 4) { Pat::Rule(self.r.n(self.nrules)) }
                else if d >= 2 { self.rules(e) }
                else { self.atom() }
            }
        }
    }
    pub fn rules(&mut self, d: usize) -> Pat {
        let save = self.nrules;
        let n = 1 + self.r.n(3);
        self.nrules = n;
        let mut bodies = vec![];
        for i in 0..n {
            // mostly guarded, so that most rule sets are not left-recursive
            let body = match self.r.n(6) {
                0 => self.pat(d),
                1 => Pat::Alt(Box::new(Pat::Seq(Box::new(Pat::Lit("(".into())), Box::new(Pat::Seq(Box::new(Pat::Star(Box::new(Pat::Rule(self.r.n(n))))), Box::new(Pat::Lit(")".into())))))), Box::new(self.atom())),
                2 => Pat::Seq(Box::new(self.atom()), Box::new(Pat::Opt(Box::new(Pat::Rule(self.r.n(n)))))),
                3 if i + 1 < n => Pat::Alt(Box::new(Pat::Rule(i + 1)), self.bx(d)),
                4 => Pat::Line(Box::new(Pat::Seq(Box::new(self.atom()), Box::new(Pat::Opt(Box::new(Pat::Rule(self.r.n(n)))))))),
                _ => Pat::Seq(Box::new(self.atom()), self.bx(d)),
            };
            bodies.push(body);
        }
        let mut entry = self.pat(d);
        if self.r.p(2, 3) { entry = Pat::Seq(Box::new(entry), Box::new(Pat::Rule(self.r.n(n)))); }
        self.nrules = save;
        Pat::Rules(bodies, Box::new(entry))
    }

    /// Some text that the pattern might match.
    pub fn sample(&mut self, p: &Pat, rules: &[&[Pat]], d: usize) -> String {
        if d > 14 { return String::new(); }
        let d = d + 1;
        match p {
            Pat::Lit(s) => s.clone(),
            Pat::Chr(c) => c.to_string(),
            Pat::Empty => String::new(),
            Pat::Class(Class::Any) if self.f.unicode && self.r.p(1, 3) => odd(self.r).to_string(),
            Pat::Class(Class::Any) => self.r.pick(if self.f.unicode { &["a", "é", "日", "\n", "b"] } else { &["a", "b", "1", "\n", ","] }).to_string(),
            Pat::Class(Class::Upper) => self.r.pick(&["A", "B", "É"]).to_string(),
            Pat::Class(_) => self.r.pick(if self.f.unicode { &["a", "é", "日", "b"] } else { &["a", "b", "a", "b"] }).to_string(),
            Pat::CharOf(s) => { let cs: Vec<char> = s.chars().collect(); if cs.is_empty() { String::new() } else { self.r.pick(&cs).to_string() } }
            Pat::Digit(2) => self.r.pick(&["0", "1"]).to_string(),
            Pat::Digit(10) => self.r.pick(&["0", "1", "9"]).to_string(),
            Pat::Digit(_) => self.r.pick(&["0", "a", "F"]).to_string(),
            Pat::Prim(k) => match k {
                Prim::Bool => self.r.pick(&["true", "false"]).to_string(),
                Prim::F64 => self.r.pick(&["1", "1.5", "-.5e3", "inf", "1e", "NaN", "2.", "+0"]).to_string(),
                Prim::U8Bin | Prim::I32Bin => self.r.pick(&["1", "01", "110", "-1", "111111111"]).to_string(),
                Prim::U16Hex | Prim::I8Hex => self.r.pick(&["f", "0A", "b1", "-7f", "fffff"]).to_string(),
                _ => self.r.pick(&["0", "1", "11", "-1", "256", "+7", "127", "128", "007", "99999999999"]).to_string(),
            },
            Pat::Seq(a, b) | Pat::Pair(a, b) => { let x = self.sample(a, rules, d); x + &self.sample(b, rules, d) }
            Pat::Dup(a) => { let x = self.sample(a, rules, d); x + &self.sample(a, rules, d) }
            Pat::SeqLit(a, l, b) => { let x = self.sample(a, rules, d) + l; x + &self.sample(b, rules, d) }
            Pat::Alt(a, b) => if self.r.p(1, 2) { self.sample(a, rules, d) } else { self.sample(b, rules, d) },
            Pat::Opt(a) => if self.r.p(1, 2) { self.sample(a, rules, d) } else { String::new() },
            Pat::Star(a) | Pat::Coll(_, a) => self.reps(a, None, 0, rules, d),
            Pat::CollMap(_, a, b) => { let q = Pat::Pair(a.clone(), b.clone()); self.reps(&q, None, 0, rules, d) }
            Pat::Plus(a) => self.reps(a, None, 1, rules, d),
            Pat::RepSep(a, s) => self.reps(a, Some(s), 0, rules, d),
            Pat::Line(a) => self.sample(a, rules, d) + "\n",
            Pat::Lines(a) => { let q = Pat::Line(a.clone()); self.reps(&q, None, 0, rules, d) }
            Pat::Section(a) => { let x = self.sample(a, rules, d); if self.r.p(1, 3) || x.ends_with('\n') { x + "\n" } else { x + "\n\n" } }
            Pat::Sections(a) => { let q = Pat::Section(a.clone()); self.reps(&q, None, 0, rules, d) }
            Pat::Map(_, a) | Pat::Single(a) | Pat::Str(a) => self.sample(a, rules, d),
            Pat::Rule(i) => { let b = rules.last().unwrap(); self.sample(&b[*i], rules, d) }
            Pat::Rules(b, e) => self.sample(e, &[b], d),
        }
    }
    fn reps(&mut self, a: &Pat, sep: Option<&Pat>, min: usize, rules: &[&[Pat]], d: usize) -> String {
        let n = if self.big > 0 && self.r.p(2, 3) { self.r.n(self.big) } else { min + self.r.n(4) };
        let mut s = String::new();
        for i in 0..n {
            if i > 0 { if let Some(p) = sep { s += &self.sample(p, rules, d); } }
            s += &self.sample(a, rules, d);
            if s.len() > 40 + 4 * self.big { break; }
        }
        s
    }
    pub fn input(&mut self, p: &Pat) -> String {
        let mut s: Vec<char> = if self.r.p(1, 12) { vec![] } else { self.sample(p, &[], 0).chars().collect() };
        let k = match self.r.n(5) { 0 | 1 => 0, 2 | 3 => 1, _ => 2 };
        for _ in 0..k {
            let pool: &[char] = if self.f.unicode { &['a', 'b', '\n', 'é', '日', '1', ',', '\u{0}'] } else { &['a', 'b', '\n', '1', ',', '-', '(', ')'] };
            let c = if self.f.unicode && self.r.p(1, 3) { odd(self.r) } else { *self.r.pick(pool) };
            let i = self.r.n(s.len() + 1);
            match self.r.n(6) {
                0 => s.insert(i, c),
                1 => if i < s.len() { s.remove(i); },
                2 => if i < s.len() { s[i] = c; },
                3 => s.truncate(i),
                4 => s.push(c),
                _ => if s.last() == Some(&'\n') { s.pop(); } else { s.push('\n'); },
            }
        }
        s.truncate(36 + 4 * self.big);
        s.into_iter().collect()
    }
}
