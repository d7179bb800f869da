//! Suites for the leaves: characters, literals, numbers, errors, collections, shapes.
use crate::gen::*;
use crate::pat::{bx, BoxP, V};
use crate::refi::{display, float_len, int_len};
use crate::{hash, Fail, Info, Out, LAST};
use aoc_parse::macros::{alt, empty, map, opt, pair, plus, sequence, single_value, star, RuleParser, RuleSetBuilder};
use aoc_parse::prelude::*;
use aoc_parse::{ParseContext, ParseError, Parser};
use num_bigint::BigInt as BI;
use std::fmt::Debug;

fn note(s: String) { LAST.with(|l| *l.borrow_mut() = s); }
fn ok(sample: String, nontrivial: bool) -> Out { Ok(Some(Info { key: hash(&sample), nontrivial, sample })) }
fn fail<T: Debug, U: Debug>(case: String, e: T, a: U) -> Out { Err(Fail { case, expected: format!("{e:?}"), actual: format!("{a:?}") }) }

/// Outcome in comparable form: value, or (location, display text).
fn outcome<T>(r: Result<T, ParseError>, src: &str) -> Result<T, (usize, String)> {
    r.map_err(|e| { assert_eq!(e.source, src); (e.location, e.to_string()) })
}
fn exp_err<T>(src: &str, loc: usize, reason: &str) -> Result<T, (usize, String)> { Err((loc, display(src, loc, reason))) }
fn extra<T>(src: &str, loc: usize) -> Result<T, (usize, String)> { exp_err(src, loc, "extra unparsed text after match") }

macro_rules! same {
    ($case:expr, $got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return fail($case, w, g); } }};
}

/// Character classes: a block of code points per case; over ~1100 cases all of Unicode.
pub fn chars(r: &mut Rng) -> Out {
    let base = (r.n(0x440) * 1024) as u32;
    // mostly the planes where classes vary
    let base = if r.p(1, 2) { (r.n(0x48) * 1024) as u32 } else { base };
    let tail = *r.pick(&["", "", "x", "é"]);
    note(format!("character classes on the code points from U+{base:04X}"));
    for cp in base..base + 1024 {
        let Some(c) = char::from_u32(cp) else { continue };
        let s = format!("{c}{tail}");
        macro_rules! cls {
            ($p:expr, $noun:expr, $is:expr, $val:expr) => {
                let got = outcome($p.parse(&s), &s);
                let want = if !$is { exp_err(&s, 0, concat!("expected ", $noun)) } else if tail.is_empty() { Ok($val) } else { extra(&s, c.len_utf8()) };
                same!(format!("{} on {s:?}", stringify!($p)), got, want);
            };
        }
        cls!(alpha, "letter", c.is_alphabetic(), c);
        cls!(alnum, "letter or digit", c.is_alphabetic() || c.is_numeric(), c);
        cls!(upper, "uppercase letter", c.is_uppercase(), c);
        cls!(lower, "lowercase letter", c.is_lowercase(), c);
        cls!(any_char, "any character", true, c);
        let dv = match c { '0'..='9' => cp - 48, 'a'..='f' => cp - 87, 'A'..='F' => cp - 55, _ => 99 } as usize;
        cls!(digit, "decimal digit", dv < 10, dv);
        cls!(digit_bin, "binary digit", dv < 2, dv);
        cls!(digit_hex, "hexadecimal digit", dv < 16, dv);
        // a char literal matches that character and no other
        same!(format!("{c:?} on {s:?}"), outcome(c.parse(&s), &s), if tail.is_empty() { Ok(()) } else { extra(&s, c.len_utf8()) });
        let other = char::from_u32(cp ^ 1).unwrap_or('a');
        same!(format!("{other:?} on {s:?}"), outcome(other.parse(&s), &s), exp_err(&s, 0, &format!("expected {other:?}")));
    }
    for p in ["", "\n"] {
        same!(format!("alpha on {p:?}"), outcome(alpha.parse(p), p), exp_err(p, 0, "expected letter"));
        same!(format!("digit on {p:?}"), outcome(digit.parse(p), p), exp_err(p, 0, "expected decimal digit"));
    }
    same!("any_char on empty".to_string(), outcome(any_char.parse(""), ""), exp_err("", 0, "expected any character"));
    ok(format!("8 classes and char literals on U+{base:04X}.. with {tail:?} after"), true)
}

const POOL: [char; 14] = ['a', 'b', 'c', 'A', '0', '9', '\n', 'é', '日', '\u{10ffff}', '\u{0}', '"', '\\', '\''];
fn word(r: &mut Rng, max: usize) -> String { (0..r.n(max + 1)).map(|_| if r.p(1, 6) { crate::gen::odd(r) } else { *r.pick(&POOL) }).collect() }

/// Literals and char_of at arbitrary offsets of arbitrary text.
pub fn literals(r: &mut Rng) -> Out {
    let most = if r.p(1, 16) { 120 } else { 4 };
    let lit: &'static str = Box::leak(word(r, most).into_boxed_str());
    let mut src = word(r, 3);
    let at = src.len();
    match r.n(4) { 0 => src += &word(r, 4), 1 => { src += lit; } 2 => { src += lit; src += &word(r, 2) } _ => { let mut l = lit.to_string(); l.pop(); src += &l; src += &word(r, 1) } }
    let case = format!("literal {lit:?} at {at} in {src:?}");
    note(case.clone());
    let hits = src.as_bytes()[at..].starts_with(lit.as_bytes());
    {
        use aoc_parse::ParseIter;
        let src2: &'static str = Box::leak(src.clone().into_boxed_str());
        let mut c = ParseContext::new(src2);
        let got = match lit.parse_iter(&mut c, at) {
            Ok(mut it) => { let e = it.match_end(); let more = it.backtrack(&mut c).is_ok(); Ok((e, more)) }
            Err(_) => { let e = c.into_reported_error(); Err((e.location, e.to_string())) }
        };
        same!(case.clone(), got, if hits { Ok((at + lit.len(), false)) } else { exp_err(&src, at, &format!("expected {lit:?}")) });
        let mut c = ParseContext::new(src2);
        let co = char_of(lit);
        let next = src[at..].chars().next();
        let want = next.and_then(|n| lit.chars().position(|x| x == n).map(|i| (at + n.len_utf8(), i)));
        let got = match co.parse_iter(&mut c, at) {
            Ok(mut it) => { let v = it.convert().0; let e = it.match_end(); if it.backtrack(&mut c).is_ok() { Ok((e, usize::MAX)) } else { Ok((e, v)) } }
            Err(_) => { let e = c.into_reported_error(); Err((e.location, e.to_string())) }
        };
        same!(format!("char_of({lit:?}) at {at} in {src:?}"), got, match want { Some(x) => Ok(x), None => exp_err(&src, at, &format!("expected one of {lit:?}")) });
    }
    ok(case, !lit.is_empty() && at > 0)
}

fn digits_word(r: &mut Rng, radix: u32, n: usize) -> String {
    (0..n).map(|_| { let d = std::char::from_digit(r.n(radix as usize) as u32, radix).unwrap(); if r.p(1, 2) { d.to_ascii_uppercase() } else { d } }).collect()
}

/// Integers: form, range and value against arbitrary-precision arithmetic.
pub fn ints(r: &mut Rng) -> Out {
    let sample;
    macro_rules! ty {
        ($p:expr, $tn:expr, $signed:expr, $radix:expr, $lo:expr, $hi:expr, $conv:expr) => {{
            let lo: Option<BI> = $lo; let hi: Option<BI> = $hi;
            let mut s = match r.n(6) {
                0 => { let n = r.n(6); digits_word(r, $radix, n) }
                1 => { let n = r.n(45); digits_word(r, $radix, n) }
                2 | 3 => match &hi { Some(h) => (h + BI::from(r.n(5) as i64 - 2)).to_str_radix($radix), None => { let n = 1 + r.n(80); digits_word(r, $radix, n) } },
                4 => match &lo { Some(l) => (l + BI::from(r.n(5) as i64 - 2)).to_str_radix($radix), None => { let n = 1 + r.n(80); digits_word(r, $radix, n) } },
                _ => { let n = r.n(5); (0..n).map(|_| *r.pick(&['0', '1', '2', '9', 'a', 'F', 'g', '-', '+', '_', ' ', '.', '٣', '½', 'é'])).collect() }
            };
            if r.p(1, 6) { let z = "0".repeat(1 + r.n(40)); let k = if s.starts_with('-') { 1 } else { 0 }; s.insert_str(k, &z); }
            if r.p(1, 6) { s.insert(0, *r.pick(&['+', '-', '0', ' '])); }
            if r.p(1, 8) { s.push(*r.pick(&['_', ' ', 'x', 'a', '8', '2', 'é', '\n'])); }
            if r.p(1, 4) { s = s.to_uppercase(); }
            if r.p(1, 12) { s.insert_str(0, r.pick(&JUNK)); }
            note(format!("{} on {s:?}", stringify!($p)));
            let case = format!("{} on {s:?}", stringify!($p));
            let want: Result<BI, (usize, String)> = match int_len(&s, $signed, $radix) {
                None => exp_err(&s, 0, &format!("expected {}", $tn)),
                Some(n) => {
                    let body = &s[..n];
                    let (neg, ds) = match body.as_bytes()[0] { b'-' => (true, &body[1..]), b'+' => (false, &body[1..]), _ => (false, body) };
                    let mut v = BI::from(0);
                    for c in ds.chars() { v = v * BI::from($radix) + BI::from(c.to_digit($radix).unwrap()); }
                    if neg { v = -v; }
                    if hi.as_ref().is_some_and(|h| v > *h) { exp_err(&s, 0, &format!("failed to parse {body:?} as type {}: number too large to fit in target type", $tn)) }
                    else if lo.as_ref().is_some_and(|l| v < *l) { exp_err(&s, 0, &format!("failed to parse {body:?} as type {}: number too small to fit in target type", $tn)) }
                    else if n == s.len() { Ok(v) } else { extra(&s, n) }
                }
            };
            let got = outcome($p.parse(&s), &s).map($conv);
            same!(case.clone(), got, want.clone());
            // greedy, with something after it
            let seq = outcome(sequence($p, string(star(any_char))).parse(&s), &s).map(|(v, t)| { let f: fn(_) -> BI = $conv; (f(v), t) });
            let want2 = match int_len(&s, $signed, $radix) {
                None => exp_err(&s, 0, &format!("expected {}", $tn)),
                Some(n) => match outcome($p.parse(&s[..n]), &s[..n]) { Ok(v) => { let f: fn(_) -> BI = $conv; Ok((f(v), s[n..].to_string())) } Err((_, _)) => match &want { Err(e) => Err(e.clone()), Ok(_) => exp_err(&s, 0, "?") } },
            };
            same!(format!("sequence({}, string(any_char*)) on {s:?}", stringify!($p)), seq, want2);
            sample = case;
        }};
    }
    macro_rules! prim { ($t:ident, $d:ident, $b:ident, $h:ident, $sg:expr) => {{
        type T = core::primitive::$t;
        let (lo, hi) = (Some(BI::from(T::MIN)), Some(BI::from(T::MAX)));
        let tn = stringify!($t);
        match r.n(3) {
            0 => ty!($d, tn, $sg, 10, lo, hi, |x: T| BI::from(x)),
            1 => ty!($b, tn, $sg, 2, lo, hi, |x: T| BI::from(x)),
            _ => ty!($h, tn, $sg, 16, lo, hi, |x: T| BI::from(x)),
        }
    }}; }
    match r.n(14) {
        0 => prim!(u8, u8, u8_bin, u8_hex, false),
        1 => prim!(u16, u16, u16_bin, u16_hex, false),
        2 => prim!(u32, u32, u32_bin, u32_hex, false),
        3 => prim!(u64, u64, u64_bin, u64_hex, false),
        4 => prim!(u128, u128, u128_bin, u128_hex, false),
        5 => prim!(usize, usize, usize_bin, usize_hex, false),
        6 => prim!(i8, i8, i8_bin, i8_hex, true),
        7 => prim!(i16, i16, i16_bin, i16_hex, true),
        8 => prim!(i32, i32, i32_bin, i32_hex, true),
        9 => prim!(i64, i64, i64_bin, i64_hex, true),
        10 => prim!(i128, i128, i128_bin, i128_hex, true),
        11 => prim!(isize, isize, isize_bin, isize_hex, true),
        12 => {
            let tn = std::any::type_name::<BI>();
            match r.n(3) {
                0 => ty!(big_int, tn, true, 10, None, None, |x: BI| x),
                1 => ty!(big_int_bin, tn, true, 2, None, None, |x: BI| x),
                _ => ty!(big_int_hex, tn, true, 16, None, None, |x: BI| x),
            }
        }
        _ => {
            let tn = std::any::type_name::<num_bigint::BigUint>();
            match r.n(3) {
                0 => ty!(big_uint, tn, false, 10, None, None, |x: num_bigint::BigUint| BI::from(x)),
                1 => ty!(big_uint_bin, tn, false, 2, None, None, |x: num_bigint::BigUint| BI::from(x)),
                _ => ty!(big_uint_hex, tn, false, 16, None, None, |x: num_bigint::BigUint| BI::from(x)),
            }
        }
    }
    ok(sample, true)
}

/// What stands before a numeral keeps it from being one.
const JUNK: [&str; 12] = ["x", " ", "\n", "a\n", "not ", "+-", "é", "_", "x\r\n", "0b", "0x", "#"];

/// The decimal text of `x`, in full, or one a little more or less.
fn half_way(r: &mut Rng, x: core::primitive::f64) -> String {
    let d = format!("{x:.200}");
    let d = d.trim_end_matches('0').to_string();
    nudge(r, d)
}
fn nudge(r: &mut Rng, mut d: String) -> String {
    match r.n(3) {
        0 => d += "0000000001",
        1 if d.ends_with(|c: core::primitive::char| ('1'..='9').contains(&c)) => { let c = d.pop().unwrap(); d.push((c as core::primitive::u8 - 1) as core::primitive::char); d += "9999999999" }
        _ => {}
    }
    d
}

pub fn bool_float(r: &mut Rng) -> Out {
    let s: String = match r.n(7) {
        // just above, just below or exactly half way between two neighbouring floats
        5 => {
            let a = core::primitive::f32::from_bits((40 << 23) + (r.next() as u32) % (130 << 23));
            half_way(r, (a as core::primitive::f64 + core::primitive::f32::from_bits(a.to_bits() + 1) as core::primitive::f64) / 2.0)
        }
        6 => {
            // (exactly representable with one more bit: an odd multiple of half a unit)
            let m = (1u64 << 53) + (r.next() >> 11);
            let d = format!("{}{}", m / 2, if m % 2 == 1 { ".5" } else { ".25" });
            nudge(r, d)
        }
        0 => r.pick(&["true", "false", "True", "FALSE", "tru", "falsee", "truefalse", "true ", "", "t", "falsetrue"]).to_string(),
        1 => { let f = core::primitive::f64::from_bits(r.next()); match r.n(3) { 0 => format!("{f}"), 1 => format!("{f:?}"), _ => format!("{f:e}") } }
        2 => { let w = *r.pick(&["inf", "infinity", "nan", "INF", "Infinity", "NaN", "infinit", "in", "nAn", "+inf", "-nan", "-infinity", "ınf", "ſ"]); w.to_string() + *r.pick(&["", "", "i", "1", "e5"]) }
        _ => {
            let n = r.n(9);
            (0..n).map(|_| *r.pick(&['0', '1', '9', '5', '.', '.', 'e', 'E', '+', '-', '_', 'f', ' ', '٣'])).collect()
        }
    };
    let mut s = s;
    if r.p(1, 6) { s.insert_str(0, r.pick(&JUNK)); }
    if r.p(1, 8) { s.push_str(*r.pick(&JUNK)); }
    let case = format!("bool, f64 and f32 on {s:?}");
    note(case.clone());
    let n = if s.starts_with("true") { Some(4) } else if s.starts_with("false") { Some(5) } else { None };
    same!(format!("bool on {s:?}"), outcome(bool.parse(&s), &s), match n {
        None => exp_err(&s, 0, "expected bool"),
        Some(n) if n == s.len() => Ok(n == 4),
        Some(n) => extra(&s, n),
    });
    let fl = float_len(&s);
    macro_rules! fl { ($p:ident, $t:ty, $tn:expr) => {{
        // every text of this form is one the standard library accepts
        if let Some(n) = fl { if s[..n].parse::<$t>().is_err() { panic!("reference grammar is wrong about {:?}", &s[..n]); } }
        let sh = |x: $t| if x.is_nan() { "NaN".to_string() } else { format!("{:x}", x.to_bits()) };
        same!(format!("{} on {s:?}", $tn), outcome($p.parse(&s), &s).map(sh), match fl {
            None => exp_err(&s, 0, concat!("expected ", $tn)),
            Some(n) if n == s.len() => Ok(sh(s.parse::<$t>().unwrap())),
            Some(n) => extra(&s, n),
        });
        // whatever the standard library accepts is matched
        same!(format!("{} on {s:?}: accepted just when the standard library accepts it", $tn), $p.parse(&s).is_ok(), s.parse::<$t>().is_ok());
    }}; }
    fl!(f64, core::primitive::f64, "f64");
    fl!(f32, core::primitive::f32, "f32");
    ok(case, fl.is_some() || n.is_some())
}

/// Errors recorded directly on a context: the earliest among the farthest is kept.
pub fn reports(r: &mut Rng) -> Out {
    let src = word(r, 8);
    let bounds: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
    let mut c = ParseContext::new(&src);
    let mut best: Option<(usize, String)> = None;
    let n = 1 + r.n(6);
    let mut log = vec![];
    for k in 0..n {
        let l = *r.pick(&bounds);
        let msg = match r.n(3) {
            0 => { let w = format!("w{k}"); c.error_expected(l, &w); format!("expected {w}") }
            1 => { c.error_extra(l); "extra unparsed text after match".to_string() }
            _ => {
                let e = *r.pick(&bounds); let (l2, e) = (l.min(e), l.max(e));
                if l2 != l { c.error_extra(l); log.push((l, "extra unparsed text after match".to_string())); if best.as_ref().is_none_or(|b| l > b.0) { best = Some(log.last().unwrap().clone()); } continue; }
                c.error_from_str_failed(l2, e, "ty", format!("m{k}"));
                format!("failed to parse {:?} as type ty: m{k}", &src[l2..e])
            }
        };
        log.push((l, msg.clone()));
        if best.as_ref().is_none_or(|b| l > b.0) { best = Some((l, msg)); }
    }
    let case = format!("reports {log:?} on {src:?}");
    note(case.clone());
    let e = c.into_reported_error();
    let (l, m) = best.unwrap();
    same!(case.clone(), (e.location, e.to_string(), e.source.clone()), (l, display(&src, l, &m), src.clone()));
    ok(case, n > 1)
}

pub fn displays(r: &mut Rng) -> Out {
    let n = r.n(14);
    let src: String = (0..n).map(|_| if r.p(1, 3) { crate::gen::odd(r) } else { *r.pick(&['a', '\n', '\n', 'é', '日', '\r', '\t', '\u{10ffff}', '\u{2028}']) }).collect();
    let bounds: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
    let l = *r.pick(&bounds);
    let case = format!("the error at {l} in {src:?}");
    note(case.clone());
    let mut c = ParseContext::new(&src);
    c.error_expected(l, "it");
    let e = c.into_reported_error();
    same!(case.clone(), (e.to_string(), e.location, e.source.clone()), (display(&src, l, "expected it"), l, src.clone()));
    let dbg = format!("{e:?}");
    if !dbg.contains(&format!("{:?}", e.to_string())) { return fail(case, "Debug output containing the Display text", dbg); }
    let e2 = e.clone();
    same!(case.clone(), e2.to_string(), e.to_string());
    // offsets past the end are shown as the end of the text's last line
    let mut e3 = e.clone();
    e3.location = src.len() + 1 + r.n(5);
    let full = display(&format!("{src}x"), src.len(), "expected it");
    same!(format!("{case}, with its location moved past the end"), e3.to_string(), full);
    ok(case, n > 2)
}

pub fn colls(r: &mut Rng) -> Out {
    use std::collections::*;
    // now and then a long list, with many distinct keys
    let (n, big) = if r.p(1, 400) { (r.n(*r.clone().pick(&[80, 300, 1100])), true) } else { (r.n(8), false) };
    let items: Vec<(char, usize)> = (0..n).map(|_| (if big { char::from_u32(0x4e00 + r.n(2000) as u32).unwrap() } else { *r.pick(&['a', 'b', 'c', 'é']) }, r.n(10))).collect();
    let src: String = items.iter().map(|(k, v)| format!("{k}={v}\n")).collect();
    let case = format!("collections of {src:?}");
    note(case.clone());
    let lp = || lines(sequence(alpha, sequence("=", digit)));
    same!(case.clone(), outcome(lp().parse(&src), &src), Ok(items.clone()));
    let mut hm = HashMap::new();
    for (k, v) in &items { hm.insert(*k, *v); }
    let bm: BTreeMap<char, usize> = hm.clone().into_iter().collect();
    same!(case.clone(), outcome(hash_map(lp()).parse(&src), &src), Ok(hm));
    same!(case.clone(), outcome(btree_map(lp()).parse(&src), &src), Ok(bm));
    let hs: HashSet<(char, usize)> = items.iter().cloned().collect();
    let bs: BTreeSet<(char, usize)> = items.iter().cloned().collect();
    same!(case.clone(), outcome(hash_set(lp()).parse(&src), &src), Ok(hs));
    same!(case.clone(), outcome(btree_set(lp()).parse(&src), &src), Ok(bs));
    same!(case.clone(), outcome(vec_deque(lp()).parse(&src), &src), Ok(items.iter().cloned().collect::<VecDeque<_>>()));
    // a collection of a collection
    same!(case.clone(), outcome(vec_deque(btree_set(lp())).parse(&src), &src), Ok(items.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect::<VecDeque<_>>()));
    ok(case, n > 2)
}

/// The shape of the output of the combinators.
pub fn shapes(r: &mut Rng) -> Out {
    let d: Vec<usize> = (0..9).map(|_| r.n(10)).collect();
    let s: String = d.iter().map(|x| x.to_string()).collect();
    let case = format!("output shapes on {s:?}");
    note(case.clone());
    let at = |k: usize| &s[..k];
    // concatenation flattens; () disappears; a single value is bare
    same!(case.clone(), sequence(digit, digit).parse(at(2)).ok(), Some((d[0], d[1])));
    same!(case.clone(), sequence(digit, sequence(digit, digit)).parse(at(3)).ok(), Some((d[0], d[1], d[2])));
    same!(case.clone(), sequence(sequence(digit, digit), digit).parse(at(3)).ok(), Some((d[0], d[1], d[2])));
    same!(case.clone(), sequence(sequence(digit, digit), sequence(digit, digit)).parse(at(4)).ok(), Some((d[0], d[1], d[2], d[3])));
    same!(case.clone(), sequence(sequence(digit, sequence(digit, digit)), sequence(digit, digit)).parse(at(5)).ok(), Some((d[0], d[1], d[2], d[3], d[4])));
    same!(case.clone(), sequence(sequence(digit, digit), sequence(sequence(digit, digit), sequence(digit, digit))).parse(at(6)).ok(), Some((d[0], d[1], d[2], d[3], d[4], d[5])));
    same!(case.clone(), sequence(sequence(digit, sequence(digit, digit)), sequence(sequence(digit, digit), sequence(digit, digit))).parse(at(7)).ok(), Some((d[0], d[1], d[2], d[3], d[4], d[5], d[6])));
    same!(case.clone(), sequence(sequence(sequence(digit, digit), sequence(digit, digit)), sequence(sequence(digit, digit), sequence(digit, digit))).parse(at(8)).ok(), Some((d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7])));
    let e = format!("<{}>", d[0]);
    same!(case.clone(), sequence("<", sequence(digit, ">")).parse(&e).ok(), Some(d[0]));
    same!(case.clone(), sequence(sequence("<", digit), '>').parse(&e).ok(), Some(d[0]));
    same!(case.clone(), sequence("<", ">").parse("<>").ok(), Some(()));
    same!(case.clone(), sequence(empty(), digit).parse(at(1)).ok(), Some(d[0]));
    // grouping and pairs do not flatten
    same!(case.clone(), sequence(single_value(sequence(digit, digit)), digit).parse(at(3)).ok(), Some(((d[0], d[1]), d[2])));
    same!(case.clone(), sequence(digit, single_value(sequence(digit, digit))).parse(at(3)).ok(), Some((d[0], (d[1], d[2]))));
    same!(case.clone(), sequence(single_value("<"), digit).parse(&e[..2]).ok(), Some(((), d[0])));
    same!(case.clone(), pair(digit, pair(digit, digit)).parse(at(3)).ok(), Some((d[0], (d[1], d[2]))));
    same!(case.clone(), pair("<", digit).parse(&e[..2]).ok(), Some(((), d[0])));
    same!(case.clone(), pair(sequence(digit, digit), digit).parse(at(3)).ok(), Some(((d[0], d[1]), d[2])));
    same!(case.clone(), pair(digit, sequence("", "")).parse(at(1)).ok(), Some((d[0], ())));
    // repetition, option, alternation
    same!(case.clone(), star(sequence(digit, digit)).parse(at(4)).ok(), Some(vec![(d[0], d[1]), (d[2], d[3])]));
    same!(case.clone(), plus(sequence("", digit)).parse(at(3)).ok(), Some(vec![d[0], d[1], d[2]]));
    same!(case.clone(), star("<").parse("<<").ok(), Some(vec![(), ()]));
    same!(case.clone(), opt(sequence(digit, digit)).parse(at(2)).ok(), Some(Some((d[0], d[1]))));
    same!(case.clone(), opt("<").parse("").ok(), Some(None::<()>));
    same!(case.clone(), sequence(opt("<"), digit).parse(&e[..2]).ok(), Some((Some(()), d[0])));
    same!(case.clone(), alt(sequence(digit, digit), map(digit, |x| (x, 99))).parse(at(1)).ok(), Some((d[0], 99)));
    same!(case.clone(), map(sequence(digit, digit), |(x, y)| x * 10 + y).parse(at(2)).ok(), Some(d[0] * 10 + d[1]));
    same!(case.clone(), sequence(map(sequence(digit, digit), |t| t), digit).parse(at(3)).ok(), Some(((d[0], d[1]), d[2])));
    same!(case.clone(), sequence(line(sequence(digit, digit)), digit).parse(&format!("{}\n{}", at(2), d[2])).ok(), Some(((d[0], d[1]), d[2])));
    same!(case.clone(), sequence(section(sequence(digit, digit)), digit).parse(&format!("{}\n\n{}", at(2), d[2])).ok(), None);
    same!(case.clone(), sequence(section(line(sequence(digit, digit))), digit).parse(&format!("{}\n\n{}", at(2), d[2])).ok(), Some(((d[0], d[1]), d[2])));
    same!(case.clone(), sequence(string(sequence(digit, digit)), digit).parse(at(3)).ok(), Some((at(2).to_string(), d[2])));
    same!(case.clone(), repeat_sep(sequence(digit, digit), ",").parse(&format!("{},{}", &s[0..2], &s[2..4])).ok(), Some(vec![(d[0], d[1]), (d[2], d[3])]));
    same!(case.clone(), repeat_sep(digit, digit).parse(at(3)).ok(), Some(vec![d[0], d[2]]));
    ok(case, true)
}

/// Simple patterns whose answer is known in closed form, on texts of every size
/// (each doubling of the size is half as frequent).
pub fn scale(r: &mut Rng) -> Out {
    let k = if r.p(1, 3000) { 13 } else { (r.next().trailing_zeros() as usize).min(13) };
    let n = r.n(2 << k);
    let kind = r.n(9);
    let case = format!("pattern no. {kind} of the scaling suite, {n} repetitions");
    note(case.clone());
    match kind {
        0 => {
            // n + 1 incomplete candidates before the complete one
            let p = alt(string(star("a")), string(sequence(star("a"), "b")));
            let s = "a".repeat(n) + "b";
            same!(case.clone(), outcome(p.parse(&s), &s), Ok(s.clone()));
            let t = "a".repeat(n) + "c";
            let want = if n == 0 { extra(&t, 0) } else { exp_err(&t, n, "expected \"a\"") };
            let got = outcome(p.parse(&t), &t);
            if n == 0 { if got.is_ok() { return fail(case, want, got); } } else { same!(case.clone(), got, want); }
        }
        1 => {
            let v: Vec<u32> = (0..n).map(|i| (i * 7) as u32).collect();
            let mut s: String = v.iter().map(|x| format!("{x}\n")).collect();
            same!(case.clone(), outcome(lines(u32).parse(&s), &s), Ok(v.clone()));
            if n > 0 { s.pop(); same!(case.clone(), outcome(lines(u32).parse(&s), &s), Ok(v.clone())); }
            let bad = format!("{s}\nx\n");
            if n > 0 { same!(case.clone(), outcome(lines(u32).parse(&bad), &bad).map_err(|e| e.0), Err(s.len() + 1)); }
        }
        2 => {
            let v: Vec<Vec<usize>> = (0..n).map(|i| (0..i % 3 + 1).map(|j| (i + j) % 10).collect()).collect();
            let s = v.iter().map(|l| l.iter().map(|d| format!("{d}\n")).collect::<String>()).collect::<Vec<_>>().join("\n");
            same!(case.clone(), outcome(sections(lines(digit)).parse(&s), &s), Ok(v));
        }
        3 => {
            let v: Vec<i64> = (0..n).map(|i| i as i64 - 5).collect();
            let s = v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", ");
            same!(case.clone(), outcome(repeat_sep(i64, ", ").parse(&s), &s), Ok(v.clone()));
            let t = format!("{s}, ");
            if n > 0 { same!(case.clone(), outcome(repeat_sep(i64, ", ").parse(&t), &t).map_err(|e| e.0), Err(t.len())); }
            same!(case.clone(), outcome(sequence(repeat_sep(i64, ", "), ", ").parse(&t), &t).is_ok(), true);
        }
        4 => {
            // the repetition must give back everything it took, one by one
            let p = sequence(string(star("a")), sequence(string(plus("a")), "b"));
            let s = "a".repeat(n + 1) + "b";
            same!(case.clone(), outcome(p.parse(&s), &s), Ok(("a".repeat(n), "a".to_string())));
        }
        5 => {
            let n = n.min(1500);
            let p = {
                let mut b = RuleSetBuilder::new();
                let nest: RuleParser<usize> = b.new_rule();
                b.assign_parser_for_rule(&nest, map(sequence("(", sequence(opt(nest), ")")), |x: Option<usize>| x.unwrap_or(0) + 1));
                b.build(nest)
            };
            let s = "(".repeat(n + 1) + &")".repeat(n + 1);
            same!(case.clone(), outcome(p.parse(&s), &s), Ok(n + 1));
            same!(case.clone(), outcome(p.parse(&s[1..]), &s[1..]).map_err(|_| ()), Err(()));
        }
        6 => {
            // the same parser, many times, with failing parses in between
            let p = sequence(alt(map("a", |_| 1), map("ab", |_| 2)), "c");
            for i in 0..n {
                same!(format!("{case}; parse no. {i}"), outcome(p.parse("ax"), "ax"), exp_err("ax", 1, "expected \"c\""));
                same!(format!("{case}; parse no. {i}"), outcome(p.parse("abc"), "abc"), Ok(2));
                same!(format!("{case}; parse no. {i}"), outcome(p.parse("x"), "x"), exp_err("x", 0, "expected \"a\""));
            }
        }
        7 => {
            let s: String = (0..8 * n).map(|i| if i % 5 == 4 { 'é' } else { 'x' }).collect();
            let t = format!("{s}\n{s}1");
            let p = sequence(line(string(star(any_char))), sequence(star(alpha), "2"));
            same!(case.clone(), outcome(p.parse(&t), &t), exp_err(&t, t.len() - 1, "expected letter"));
        }
        _ => {
            let n = n % 300;
            let s = "0".repeat(n) + "7";
            same!(case.clone(), outcome(u8.parse(&s), &s), Ok(7));
            same!(case.clone(), outcome(i32_hex.parse(&s), &s), Ok(7));
            same!(case.clone(), outcome(u64_bin.parse(&("0".repeat(n) + "1")), &s), Ok(1));
            same!(case.clone(), outcome(sequence(f64, "x").parse(&format!("{s}x")), &s), Ok(7.0));
        }
    }
    ok(case, n > 1)
}

/// Rule sets no. `lo..hi` of a crowd, joined by further ones; no. `k` matches the text `k;`.
fn crowd(lo: usize, hi: usize) -> BoxP {
    let mut b = RuleSetBuilder::new();
    let rule: RuleParser<V> = b.new_rule();
    if hi - lo == 1 {
        let lit: &'static str = Box::leak(format!("{lo};").into_boxed_str());
        b.assign_parser_for_rule(&rule, map(lit, move |_| V::Prim(lo.to_string())));
    } else {
        let mid = (lo + hi) / 2;
        let l = crowd(lo, mid);
        b.assign_parser_for_rule(&rule, alt(l, crowd(mid, hi)));
    }
    bx(b.build(rule))
}

/// Many rule sets alive at once, all inside a rule of one that is older than they are.
pub fn sets(r: &mut Rng) -> Out {
    let k = (r.next().trailing_zeros() as usize + 2).min(17);
    let n = 1 + r.n(1 << k);
    let case = format!("a rule set around a tree of {n} others");
    note(case.clone());
    let mut b = RuleSetBuilder::new();
    let list: RuleParser<Vec<V>> = b.new_rule();
    let mark: RuleParser<usize> = b.new_rule();
    let c = crowd(0, n);
    b.assign_parser_for_rule(&list, map(sequence(mark, sequence(c, sequence(mark, opt(list)))), |(_, i, _, rest): (usize, V, usize, Option<Vec<V>>)| {
        let mut v = vec![i];
        v.extend(rest.unwrap_or_default());
        v
    }));
    b.assign_parser_for_rule(&mark, char_of("<>"));
    let p = b.build(map(list, |l| l.into_iter().map(|v| if let V::Prim(s) = v { s } else { "?".to_string() }).collect::<Vec<_>>()));
    let picks: Vec<String> = [n - 1, r.n(n), 0].iter().map(|i| i.to_string()).collect();
    let s: String = picks.iter().map(|i| format!("<{i};>")).collect();
    same!(format!("{case}, on {s:?}"), outcome(p.parse(&s), &s), Ok(picks));
    let t = format!("<{n};>");
    same!(format!("{case}, on {t:?}"), outcome(p.parse(&t), &t).is_err(), true);
    ok(case, n > 1)
}
