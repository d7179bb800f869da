//! Pattern syntax trees, and their translation to real aoc-parse parsers
//! (through the crate's public API only).
use aoc_parse::macros::{alt, empty, map, opt, pair, plus, sequence, single_value, star, RuleParser, RuleSetBuilder};
use aoc_parse::prelude::*;
use aoc_parse::{ParseContext, ParseIter, Parser, Reported};
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Unit,
    Char(char),
    N(usize),
    Prim(String),
    Str(String),
    Pair(Box<V>, Box<V>),
    Vec(Vec<V>),
    Opt(Option<Box<V>>),
    L(Box<V>),
    R(Box<V>),
    Map(u32, Box<V>),
    /// canonical content of a collection: kind, elements in canonical order
    Coll(u8, Vec<V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class { Alpha, Alnum, Upper, Lower, Any }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prim { U8, U64, Usize, I8, I32, I128, U8Bin, U16Hex, I8Hex, I32Bin, Bool, F64, BigInt, BigUint }

pub const PRIMS: [Prim; 14] = [
    Prim::U8, Prim::U64, Prim::Usize, Prim::I8, Prim::I32, Prim::I128, Prim::U8Bin, Prim::U16Hex,
    Prim::I8Hex, Prim::I32Bin, Prim::Bool, Prim::F64, Prim::BigInt, Prim::BigUint,
];

#[derive(Clone, Debug)]
pub enum Pat {
    Lit(String),
    Chr(char),
    Empty,
    Class(Class),
    CharOf(String),
    Digit(u32),
    Prim(Prim),
    Str(Box<Pat>),
    Seq(Box<Pat>, Box<Pat>),
    Pair(Box<Pat>, Box<Pat>),
    /// a "lit" b, concatenated so that the literal's () disappears
    SeqLit(Box<Pat>, String, Box<Pat>),
    Alt(Box<Pat>, Box<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    RepSep(Box<Pat>, Box<Pat>),
    Line(Box<Pat>),
    Lines(Box<Pat>),
    Section(Box<Pat>),
    Sections(Box<Pat>),
    Map(u32, Box<Pat>),
    Single(Box<Pat>),
    /// kind 0 hash_set 1 btree_set 2 vec_deque over star(pat)
    Coll(u8, Box<Pat>),
    /// kind 3 hash_map 4 btree_map over star(pair(k, v))
    CollMap(u8, Box<Pat>, Box<Pat>),
    Rule(usize),
    /// rule set: bodies, entry
    Rules(Vec<Pat>, Box<Pat>),
    /// the same parser object, used twice in sequence
    Dup(Box<Pat>),
}

thread_local! { pub static CALLS: Cell<u64> = const { Cell::new(0) }; }
thread_local! {
    /// a parse to make in the middle of the first conversion of another parse
    pub static NEST: Cell<Option<(*const BoxP, *const str)>> = const { Cell::new(None) };
    /// the next conversion panics
    pub static ABORT: Cell<bool> = const { Cell::new(false) };
    pub static NESTED: std::cell::RefCell<Option<Result<V, aoc_parse::ParseError>>> = const { std::cell::RefCell::new(None) };
}
fn nested() {
    if ABORT.with(|n| n.take()) { panic!("asked to"); }
    if let Some((p, s)) = NEST.with(|n| n.take()) {
        // both outlive the parse during which NEST is set
        let r = unsafe { (*p).parse(&*s) };
        NESTED.with(|n| *n.borrow_mut() = Some(r));
    }
}

pub trait Er {
    fn pi<'p>(&'p self, c: &mut ParseContext<'p>, s: usize) -> Result<BoxIt<'p>, Reported>;
}
impl<T> Er for T
where
    T: Parser<Output = V, RawOutput = (V,)>,
{
    fn pi<'p>(&'p self, c: &mut ParseContext<'p>, s: usize) -> Result<BoxIt<'p>, Reported> {
        let it = self.parse_iter(c, s)?;
        Ok(BoxIt(Box::new(it)))
    }
}
pub struct BoxP(Box<dyn Er>);
pub struct BoxIt<'p>(Box<dyn ParseIter<'p, RawOutput = (V,)> + 'p>);
impl<'p> ParseIter<'p> for BoxIt<'p> {
    type RawOutput = (V,);
    fn match_end(&self) -> usize { self.0.match_end() }
    fn backtrack(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> { self.0.backtrack(c) }
    fn convert(&self) -> (V,) { self.0.convert() }
}
impl Parser for BoxP {
    type Output = V;
    type RawOutput = (V,);
    type Iter<'p> = BoxIt<'p>;
    fn parse_iter<'p>(&'p self, c: &mut ParseContext<'p>, s: usize) -> Result<BoxIt<'p>, Reported> { self.0.pi(c, s) }
}

pub fn bx<P: Parser<Output = V, RawOutput = (V,)> + 'static>(p: P) -> BoxP { BoxP(Box::new(p)) }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
fn b(v: V) -> Box<V> { Box::new(v) }

macro_rules! prim { ($p:expr) => { bx(map($p, |x| V::Prim(format!("{x:?}")))) }; }

fn build_prim(p: Prim) -> BoxP {
    match p {
        Prim::U8 => prim!(u8),
        Prim::U64 => prim!(u64),
        Prim::Usize => prim!(usize),
        Prim::I8 => prim!(i8),
        Prim::I32 => prim!(i32),
        Prim::I128 => prim!(i128),
        Prim::U8Bin => prim!(u8_bin),
        Prim::U16Hex => prim!(u16_hex),
        Prim::I8Hex => prim!(i8_hex),
        Prim::I32Bin => prim!(i32_bin),
        Prim::Bool => prim!(bool),
        Prim::F64 => bx(map(f64, |x: core::primitive::f64| V::Prim(fdbg(x)))),
        Prim::BigInt => bx(map(big_int, |x| V::Prim(x.to_string()))),
        Prim::BigUint => bx(map(big_uint, |x| V::Prim(x.to_string()))),
    }
}

pub fn fdbg(x: core::primitive::f64) -> String {
    if x.is_nan() { "NaN".to_string() } else { format!("{:016x}", x.to_bits()) }
}

pub fn canon(kind: u8, mut v: Vec<V>) -> V {
    if kind != 2 { v.sort(); }
    V::Coll(kind, v)
}

pub fn build(p: &Pat, env: &[RuleParser<V>]) -> BoxP {
    let r = |q: &Pat| build(q, env);
    match p {
        Pat::Lit(s) => bx(map(leak(s), |()| V::Unit)),
        Pat::Chr(c) => bx(map(*c, |()| V::Unit)),
        Pat::Empty => bx(map(empty(), |()| V::Unit)),
        Pat::Class(k) => match k {
            Class::Alpha => bx(map(alpha, V::Char)),
            Class::Alnum => bx(map(alnum, V::Char)),
            Class::Upper => bx(map(upper, V::Char)),
            Class::Lower => bx(map(lower, V::Char)),
            Class::Any => bx(map(any_char, V::Char)),
        },
        Pat::CharOf(s) => bx(map(char_of(leak(s)), V::N)),
        Pat::Digit(2) => bx(map(digit_bin, V::N)),
        Pat::Digit(16) => bx(map(digit_hex, V::N)),
        Pat::Digit(_) => bx(map(digit, V::N)),
        Pat::Prim(k) => build_prim(*k),
        Pat::Str(a) => bx(map(string(r(a)), V::Str)),
        Pat::Seq(a, c) => bx(map(sequence(r(a), r(c)), |(x, y)| V::Pair(b(x), b(y)))),
        Pat::Pair(a, c) => bx(map(pair(r(a), r(c)), |(x, y)| V::Pair(b(x), b(y)))),
        Pat::SeqLit(a, l, c) => bx(map(sequence(r(a), sequence(leak(l), r(c))), |(x, y)| V::Pair(b(x), b(y)))),
        Pat::Alt(a, c) => bx(alt(map(r(a), |v| V::L(b(v))), map(r(c), |v| V::R(b(v))))),
        Pat::Opt(a) => bx(map(opt(r(a)), |v: Option<V>| V::Opt(v.map(b)))),
        Pat::Star(a) => bx(map(star(r(a)), V::Vec)),
        Pat::Plus(a) => bx(map(plus(r(a)), V::Vec)),
        Pat::RepSep(a, s) => bx(map(repeat_sep(r(a), r(s)), V::Vec)),
        Pat::Line(a) => bx(line(r(a))),
        Pat::Lines(a) => bx(map(lines(r(a)), V::Vec)),
        Pat::Section(a) => bx(section(r(a))),
        Pat::Sections(a) => bx(map(sections(r(a)), V::Vec)),
        Pat::Map(id, a) => {
            let id = *id;
            bx(map(r(a), move |v| {
                CALLS.with(|c| c.set(c.get() + 1));
                nested();
                V::Map(id, b(v))
            }))
        }
        Pat::Single(a) => bx(single_value(r(a))),
        Pat::Coll(0, a) => bx(map(hash_set(star(r(a))), |s| canon(0, s.into_iter().collect()))),
        Pat::Coll(1, a) => bx(map(btree_set(star(r(a))), |s| canon(1, s.into_iter().collect()))),
        Pat::Coll(_, a) => bx(map(vec_deque(star(r(a))), |s| canon(2, s.into_iter().collect()))),
        Pat::CollMap(3, k, v) => bx(map(hash_map(star(pair(r(k), r(v)))), |s| {
            canon(3, s.into_iter().map(|(x, y): (V, V)| V::Pair(b(x), b(y))).collect())
        })),
        Pat::CollMap(_, k, v) => bx(map(btree_map(star(pair(r(k), r(v)))), |s| {
            canon(4, s.into_iter().map(|(x, y): (V, V)| V::Pair(b(x), b(y))).collect())
        })),
        Pat::Rule(i) => bx(env[*i]),
        Pat::Rules(bodies, entry) => {
            let mut bd = RuleSetBuilder::new();
            let mut e2: Vec<RuleParser<V>> = vec![];
            for _ in bodies { e2.push(bd.new_rule()); }
            for (i, body) in bodies.iter().enumerate() {
                let q = build(body, &e2);
                bd.assign_parser_for_rule(&e2[i], q);
            }
            let q = build(entry, &e2);
            bx(bd.build(q))
        }
        Pat::Dup(a) => {
            let l: &'static BoxP = Box::leak(Box::new(r(a)));
            bx(map(sequence(l, l), |(x, y)| V::Pair(b(x), b(y))))
        }
    }
}
