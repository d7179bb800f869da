@# Side-car: imports, ghost vocabulary and the trusted models of the std/regex
@# functions the crate calls.  Nothing here is executable text of the crate.
@@ prelude imports
#![allow(internal_features)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::marker::PhantomData;
use std::any::Any;

// With `--cfg vx_run` the woven text is compiled and run (tools/run); Verus itself needs no regex or num-bigint.
#[cfg(vx_run)] use {regex::Regex as VxRegex, num_bigint::{BigInt as VxBigInt, BigUint as VxBigUint}};
#[cfg(vx_run)] macro_rules! vx_rt { ($($t:tt)*) => { $($t)* } }
#[cfg(not(vx_run))] type VxRegex = u8;
#[cfg(not(vx_run))] type VxBigInt = u8;
#[cfg(not(vx_run))] type VxBigUint = u8;
#[cfg(not(vx_run))] macro_rules! vx_rt { ($($t:tt)*) => { unimplemented!() } }

verus! {

// ---------------------------------------------------------------- text basics

/// `i` is a char boundary of the (valid UTF-8) text `s`.
pub open spec fn bd(s: Seq<u8>, i: int) -> bool {
    0 <= i <= s.len() && valid_utf8(s) && is_char_boundary(s, i)
}
pub open spec fn sfx(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, s.len() as int) }
pub open spec fn pfx(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(0, i) }
pub open spec fn at(s: Seq<u8>, i: int, p: Seq<u8>) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub open spec fn count_byte(s: Seq<u8>, b: u8) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count_byte(s.drop_last(), b) + if s.last() == b { 1nat } else { 0nat } }
}
pub open spec fn char_bytes(c: char) -> Seq<u8> { encode_utf8(seq![c]) }
pub open spec fn chars_of(s: Seq<u8>) -> Seq<char> { decode_utf8(s) }

pub mod vxax {
use vstd::prelude::*; use vstd::string::*; use vstd::utf8::*;
/// Rust: no object is larger than isize::MAX bytes.
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
pub broadcast axiom fn axiom_string_len(s: &String)
    ensures #[trigger] encode_utf8(s@).len() <= isize::MAX;
}
use vxax::*;
broadcast use {vxax::axiom_str_len, vxax::axiom_string_len, vxre::axiom_re_valid};
pub trait VxLen {
    spec fn vlen(&self) -> nat;
    fn vx_len(&self) -> (r: usize) ensures r == self.vlen();
}
impl VxLen for str {
    open spec fn vlen(&self) -> nat { self.spec_bytes().len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl VxLen for String {
    open spec fn vlen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn vlen(&self) -> nat { self@.len() }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for [T] {
    open spec fn vlen(&self) -> nat { self@.len() }
    fn vx_len(&self) -> (r: usize) { self.len() }
}

/// A literal pattern argument of a `str` search method.
pub trait VxPat: Sized {
    spec fn pb(&self) -> Seq<u8>;
    fn vx_text(&self) -> (r: String) ensures encode_utf8(r@) == self.pb();
    #[verifier::external_body]
    fn vx_pat_is_prefix(self, s: &str) -> (r: bool)
        ensures r == at(s.spec_bytes(), 0, self.pb())
    { s.starts_with(self.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_pat_is_suffix(self, s: &str) -> (r: bool)
        ensures r == at(s.spec_bytes(), s.spec_bytes().len() - self.pb().len(), self.pb())
    { s.ends_with(self.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_pat_find(self, s: &str) -> (r: Option<usize>)
        ensures match r {
            Some(i) => at(s.spec_bytes(), i as int, self.pb()) && bd(s.spec_bytes(), i as int)
                && bd(s.spec_bytes(), i + self.pb().len())
                && (forall|j: int| 0 <= j < i ==> !#[trigger] at(s.spec_bytes(), j, self.pb())),
            None => forall|j: int| !#[trigger] at(s.spec_bytes(), j, self.pb()),
        }
    { s.find(self.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_pat_rfind(self, s: &str) -> (r: Option<usize>)
        ensures match r {
            Some(i) => at(s.spec_bytes(), i as int, self.pb()) && bd(s.spec_bytes(), i as int)
                && bd(s.spec_bytes(), i + self.pb().len())
                && (forall|j: int| i < j ==> !#[trigger] at(s.spec_bytes(), j, self.pb())),
            None => forall|j: int| !#[trigger] at(s.spec_bytes(), j, self.pb()),
        }
    { s.rfind(self.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_pat_contains(self, s: &str) -> (r: bool)
        ensures r == exists|j: int| #[trigger] at(s.spec_bytes(), j, self.pb())
    { s.contains(self.vx_text().as_str()) }
}
impl VxPat for char {
    open spec fn pb(&self) -> Seq<u8> { char_bytes(*self) }
    #[verifier::external_body]
    fn vx_text(&self) -> (r: String) { String::from(*self) }
}
impl<'a> VxPat for &'a str {
    open spec fn pb(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body]
    fn vx_text(&self) -> (r: String) { String::from(*self) }
}
impl<'a> VxPat for &'a String {
    open spec fn pb(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_text(&self) -> (r: String) { (*self).clone() }
}

pub trait VxStr {
    spec fn vb(&self) -> Seq<u8>;
    fn vx_str(&self) -> (r: &str) ensures r.spec_bytes() == self.vb();
    #[verifier::external_body]
    fn vx_from<'a>(&'a self, i: usize) -> (r: &'a str)
        requires bd(self.vb(), i as int)
        ensures r.spec_bytes() == sfx(self.vb(), i as int)
    { &self.vx_str()[i..] }
    #[verifier::external_body]
    fn vx_to<'a>(&'a self, i: usize) -> (r: &'a str)
        requires bd(self.vb(), i as int)
        ensures r.spec_bytes() == pfx(self.vb(), i as int)
    { &self.vx_str()[..i] }
    #[verifier::external_body]
    fn vx_slice<'a>(&'a self, i: usize, j: usize) -> (r: &'a str)
        requires bd(self.vb(), i as int), bd(self.vb(), j as int), i <= j
        ensures r.spec_bytes() == self.vb().subrange(i as int, j as int)
    { &self.vx_str()[i..j] }
    fn vx_full<'a>(&'a self) -> (r: &'a str) ensures r.spec_bytes() == self.vb() { self.vx_str() }
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == at(self.vb(), 0, p.pb())
    { p.vx_pat_is_prefix(self.vx_str()) }
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == at(self.vb(), self.vb().len() - p.pb().len(), p.pb())
    { p.vx_pat_is_suffix(self.vx_str()) }
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(i) => at(self.vb(), i as int, p.pb()) && bd(self.vb(), i as int)
                && bd(self.vb(), i + p.pb().len())
                && (forall|j: int| 0 <= j < i ==> !#[trigger] at(self.vb(), j, p.pb())),
            None => forall|j: int| !#[trigger] at(self.vb(), j, p.pb()),
        }
    { p.vx_pat_find(self.vx_str()) }
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(i) => at(self.vb(), i as int, p.pb()) && bd(self.vb(), i as int)
                && bd(self.vb(), i + p.pb().len())
                && (forall|j: int| i < j ==> !#[trigger] at(self.vb(), j, p.pb())),
            None => forall|j: int| !#[trigger] at(self.vb(), j, p.pb()),
        }
    { p.vx_pat_rfind(self.vx_str()) }
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == exists|j: int| #[trigger] at(self.vb(), j, p.pb())
    { p.vx_pat_contains(self.vx_str()) }
    #[verifier::external_body]
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r {
            Some(t) => at(self.vb(), 0, p.pb()) && bd(self.vb(), p.pb().len() as int) && t.spec_bytes() == sfx(self.vb(), p.pb().len() as int),
            None => !at(self.vb(), 0, p.pb()),
        }
    { self.vx_str().strip_prefix(p.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r {
            Some(t) => at(self.vb(), self.vb().len() - p.pb().len(), p.pb()) && bd(self.vb(), self.vb().len() - p.pb().len())
                && t.spec_bytes() == pfx(self.vb(), self.vb().len() - p.pb().len()),
            None => !at(self.vb(), self.vb().len() - p.pb().len(), p.pb()),
        }
    { self.vx_str().strip_suffix(p.vx_text().as_str()) }
    #[verifier::external_body]
    fn vx_chars_count(&self) -> (r: usize)
        ensures r == chars_of(self.vb()).len(), r <= self.vb().len()
    { self.vx_str().chars().count() }
    #[verifier::external_body]
    fn vx_count_char(&self, c: char) -> (r: usize)
        requires (c as u32) < 128
        ensures r == count_byte(self.vb(), c as u8), r <= self.vb().len()
    { self.vx_str().chars().filter(|x| *x == c).count() }
}
impl VxStr for str {
    open spec fn vb(&self) -> Seq<u8> { self.spec_bytes() }
    fn vx_str(&self) -> (r: &str) { self }
}
impl VxStr for String {
    open spec fn vb(&self) -> Seq<u8> { encode_utf8(self@) }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
pub trait VxPush {
    spec fn pv(&self) -> Seq<char>;
    fn vx_push(&mut self, c: char) ensures final(self).pv() == old(self).pv().push(c);
    fn vx_push_str(&mut self, s: &str) ensures final(self).pv() == old(self).pv() + s@;
}
impl VxPush for String {
    open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_push(&mut self, c: char) { self.push(c) }
    #[verifier::external_body]
    fn vx_push_str(&mut self, s: &str) { self.push_str(s) }
}

// ------------------------------------------------------- panics and assertions

#[verifier::external_body]
pub fn vx_assert(b: bool) requires b { assert!(b) }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unreachable!() }
/// Counter of `enumerate()`: bounded by the number of items, hence by memory.
#[verifier::external_body]
pub fn vx_inc(i: usize) -> (r: usize) ensures r == i + 1 { i + 1 }

// ------------------------------------------------------------------ formatting

#[allow(inconsistent_fields)]
pub ghost enum FmtV { Str(Seq<char>), Char(char), Int(int), Opaque(int) }
pub uninterp spec fn fmt_text(lit: Seq<char>, args: Seq<FmtV>) -> Seq<char>;
/// `{}` of a string is the string; what follows the placeholder is copied.
axiom fn axiom_fmt_str(lit: Seq<char>, s: Seq<char>)
    requires lit.len() >= 2, lit[0] == '{', lit[1] == '}', forall|i: int| 2 <= i < lit.len() ==> lit[i] != '{' && lit[i] != '}',
    ensures fmt_text(lit, seq![FmtV::Str(s)]) == s + lit.skip(2);
trait Display {
    spec fn fv(&self) -> FmtV;
    /// (run only) its `{}` or `{:?}` text
    fn vx_show(&self, debug: bool) -> String;
}
impl Display for str { spec fn fv(&self) -> FmtV { FmtV::Str(self@) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { if debug { std::format!("{:?}", self) } else { std::format!("{}", self) } } }
impl Display for String { spec fn fv(&self) -> FmtV { FmtV::Str(self@) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { if debug { std::format!("{:?}", self) } else { std::format!("{}", self) } } }
impl Display for char { spec fn fv(&self) -> FmtV { FmtV::Char(*self) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { if debug { std::format!("{:?}", self) } else { std::format!("{}", self) } } }
impl Display for usize { spec fn fv(&self) -> FmtV { FmtV::Int(*self as int) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { if debug { std::format!("{:?}", self) } else { std::format!("{}", self) } } }
impl<'a, T: Display + ?Sized> Display for &'a T { spec fn fv(&self) -> FmtV { (**self).fv() }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { (**self).vx_show(debug) } }

#[verifier::external_body]
fn vx_format0(lit: &str) -> (r: String) ensures r@ == fmt_text(lit@, seq![]) { vx_fill(lit, &[]) }
#[verifier::external_body]
fn vx_format1<A: Display + ?Sized>(lit: &str, a: &A) -> (r: String)
    ensures r@ == fmt_text(lit@, seq![a.fv()]) { vx_fill(lit, &[&|d: bool| a.vx_show(d)]) }
#[verifier::external_body]
fn vx_format2<A: Display + ?Sized, B: Display + ?Sized>(lit: &str, a: &A, b: &B) -> (r: String)
    ensures r@ == fmt_text(lit@, seq![a.fv(), b.fv()]) { vx_fill(lit, &[&|d: bool| a.vx_show(d), &|d: bool| b.vx_show(d)]) }
#[verifier::external_body]
fn vx_format3<A: Display + ?Sized, B: Display + ?Sized, C: Display + ?Sized>(lit: &str, a: &A, b: &B, c: &C) -> (r: String)
    ensures r@ == fmt_text(lit@, seq![a.fv(), b.fv(), c.fv()]) { vx_fill(lit, &[&|d: bool| a.vx_show(d), &|d: bool| b.vx_show(d), &|d: bool| c.vx_show(d)]) }

#[verifier::external_body]
pub struct VxFormatter { pub x: String }
/// (run only) the literal with its placeholders filled in
#[verifier::external]
fn vx_fill(lit: &str, args: &[&dyn Fn(bool) -> String]) -> String {
    let (mut o, mut k, mut rest) = (String::new(), 0, lit);
    while let Some(i) = rest.find(|c: char| c == '{' || c == '}') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        if rest.starts_with("{{") || rest.starts_with("}}") { o.push_str(&rest[..1]); rest = &rest[2..]; }
        else if rest.starts_with("{}") { o.push_str(&args[k](false)); k += 1; rest = &rest[2..]; }
        else if rest.starts_with("{:?}") { o.push_str(&args[k](true)); k += 1; rest = &rest[4..]; }
        else { panic!("format string {:?}", lit) }
    }
    o.push_str(rest);
    o
}
pub struct VxFmtError;
impl VxFormatter { pub uninterp spec fn out(&self) -> Seq<char>; }
#[verifier::external_body]
fn vx_write0(f: &mut VxFormatter, lit: &str) -> (r: std::result::Result<(), VxFmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + fmt_text(lit@, seq![]) { f.x.push_str(&vx_fill(lit, &[])); Ok(()) }
#[verifier::external_body]
fn vx_write1<A: Display + ?Sized>(f: &mut VxFormatter, lit: &str, a: &A) -> (r: std::result::Result<(), VxFmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + fmt_text(lit@, seq![a.fv()]) { f.x.push_str(&vx_fill(lit, &[&|d: bool| a.vx_show(d)])); Ok(()) }
#[verifier::external_body]
fn vx_write2<A: Display + ?Sized, B: Display + ?Sized>(f: &mut VxFormatter, lit: &str, a: &A, b: &B) -> (r: std::result::Result<(), VxFmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + fmt_text(lit@, seq![a.fv(), b.fv()]) { f.x.push_str(&vx_fill(lit, &[&|d: bool| a.vx_show(d), &|d: bool| b.vx_show(d)])); Ok(()) }
#[verifier::external_body]
fn vx_write3<A: Display + ?Sized, B: Display + ?Sized, C: Display + ?Sized>(f: &mut VxFormatter, lit: &str, a: &A, b: &B, c: &C) -> (r: std::result::Result<(), VxFmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + fmt_text(lit@, seq![a.fv(), b.fv(), c.fv()]) { f.x.push_str(&vx_fill(lit, &[&|d: bool| a.vx_show(d), &|d: bool| b.vx_show(d), &|d: bool| c.vx_show(d)])); Ok(()) }

pub uninterp spec fn type_name_text<T>() -> Seq<char>;
#[verifier::external_body]
pub fn vx_type_name<T>() -> (r: &'static str) ensures r@ == type_name_text::<T>() { std::any::type_name::<T>() }

// -------------------------------------------- function pointers kept in structs

#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(R)]
pub struct VxFn1<A, R> { p: *const (dyn Fn(A) -> R + 'static) }
impl<A, R> Clone for VxFn1<A, R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<A, R> Copy for VxFn1<A, R> {}
impl<A, R> VxFn1<A, R> {
    pub uninterp spec fn req(self, a: A) -> bool;
    /// Plain functions are deterministic: the result is a function of the argument.
    pub uninterp spec fn out(self, a: A) -> R;
    #[verifier::external_body]
    pub fn vx_new<F: Fn(A) -> R>(f: F) -> (r: Self)
        ensures forall|a: A| #[trigger] r.req(a) == call_requires(f, (a,)),
            forall|a: A| call_requires(f, (a,)) ==> call_ensures(f, (a,), #[trigger] r.out(a))
    { let b: Box<dyn Fn(A) -> R + '_> = Box::new(f); VxFn1 { p: unsafe { std::mem::transmute(Box::into_raw(b)) } } }
    #[verifier::external_body]
    pub fn vx_call(&self, a: A) -> (o: R)
        requires self.req(a)
        ensures o == self.out(a)
    { unsafe { (*self.p)(a) } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct VxFn0<R> { p: *const (dyn Fn() -> R + 'static) }
impl<R> Clone for VxFn0<R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<R> Copy for VxFn0<R> {}
impl<R> VxFn0<R> {
    pub uninterp spec fn req(self) -> bool;
    pub uninterp spec fn out(self) -> R;
    #[verifier::external_body]
    pub fn vx_new<F: Fn() -> R>(f: F) -> (r: Self)
        ensures r.req() == call_requires(f, ()), call_requires(f, ()) ==> call_ensures(f, (), r.out())
    { let b: Box<dyn Fn() -> R + '_> = Box::new(f); VxFn0 { p: unsafe { std::mem::transmute(Box::into_raw(b)) } } }
    #[verifier::external_body]
    pub fn vx_call(&self) -> (o: R)
        requires self.req()
        ensures o == self.out()
    { unsafe { (*self.p)() } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct VxFnStr<R> { p: *const (dyn for<'a> Fn(&'a str) -> R + 'static) }
impl<R> Clone for VxFnStr<R> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<R> Copy for VxFnStr<R> {}
impl<R> VxFnStr<R> {
    pub uninterp spec fn req(self, s: Seq<char>) -> bool;
    pub uninterp spec fn out(self, s: Seq<char>) -> R;
    #[verifier::external_body]
    pub fn vx_new<F: for<'a> Fn(&'a str) -> R>(f: F) -> (r: Self)
        ensures
            forall|s: Seq<char>| (forall|t: &str| t@ == s ==> #[trigger] call_requires(f, (t,))) ==> #[trigger] r.req(s),
            forall|s: Seq<char>| #![trigger r.out(s)] (forall|t: &str| t@ == s ==> #[trigger] call_requires(f, (t,)))
                ==> exists|t: &str| t@ == s && #[trigger] call_ensures(f, (t,), r.out(s))
    { let b: Box<dyn for<'a> Fn(&'a str) -> R + '_> = Box::new(f); VxFnStr { p: unsafe { std::mem::transmute(Box::into_raw(b)) } } }
    #[verifier::external_body]
    pub fn vx_call(&self, s: &str) -> (o: R)
        requires self.req(s@)
        ensures o == self.out(s@)
    { unsafe { (*self.p)(s) } }
}

// ----------------------------------------------------------------------- regex

#[verifier::external_body]
pub struct Regex { x: VxRegex }
#[derive(Debug)]
pub struct RegexError;
/// Leftmost match of pattern `pat` in `text` (byte offsets).
pub uninterp spec fn re_find(pat: Seq<char>, text: Seq<u8>) -> Option<(int, int)>;
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: std::result::Result<Regex, RegexError>)
        ensures re_valid(p@) ==> r is Ok, r is Ok ==> r->Ok_0.pat() == p@
    { vx_rt! { match VxRegex::new(p) { Ok(x) => Ok(Regex { x }), Err(_) => Err(RegexError) } } }
    #[verifier::external_body]
    pub fn vx_find<'a>(&self, s: &'a str) -> (r: Option<VxMatch<'a>>)
        ensures match re_find(self.pat(), s.spec_bytes()) {
            None => r is None,
            Some(m) => r is Some && r->Some_0.st() == m.0 && r->Some_0.en() == m.1
                && r->Some_0.hay() == s.spec_bytes()
                && 0 <= m.0 <= m.1 && bd(s.spec_bytes(), m.0) && bd(s.spec_bytes(), m.1),
        }
    { vx_rt! { self.x.find(s).map(|m| VxMatch { x: s, s: m.start(), e: m.end() }) } }
}
#[verifier::external_body]
pub struct VxMatch<'a> { x: &'a str, s: usize, e: usize }
impl<'a> VxMatch<'a> {
    pub uninterp spec fn st(&self) -> int;
    pub uninterp spec fn en(&self) -> int;
    pub uninterp spec fn hay(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures r.spec_bytes() == self.hay().subrange(self.st(), self.en()) { &self.x[self.s..self.e] }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.en() { self.e }
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self.st() { self.s }
}
#[verifier::external_body]
pub fn vx_lazy<T>(t: T) -> (r: &'static T) ensures *r == t { unsafe { &*Box::into_raw(Box::new(t)) } }

// ------------------------------------------------------------------ misc. std

/// A local borrow given a longer lifetime (Rust's HRTB/GAT form needs none; the
/// hoisted 'parse parameter of the woven text does).
#[verifier::external_body]
pub fn vx_extend<'a, 'b, T: ?Sized>(t: &'a T) -> (r: &'b T) ensures r == t { unsafe { &*(t as *const T) } }

#[verifier::external_body]
pub struct VxPin { x: std::pin::Pin<Box<u8>> }
impl VxPin {
    pub uninterp spec fn addr(&self) -> usize;
    #[verifier::external_body]
    pub fn vx_addr(&self) -> (r: usize) ensures r == self.addr() { &*self.x as *const u8 as usize }
}
#[verifier::external_body]
pub fn vx_pin(x: u8) -> VxPin { VxPin { x: Box::pin(x) } }
/// A boxed `dyn Any`: a value together with its type.
#[verifier::external_body]
pub struct VxAny { t: &'static str, p: *const u8 }
impl VxAny {
    pub uninterp spec fn holds<T>(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn vx_new<T>(t: T) -> (r: VxAny) ensures r.holds::<T>() == Some(t) { VxAny { t: std::any::type_name::<T>(), p: Box::into_raw(Box::new(t)) as *const u8 } }
    #[verifier::external_body]
    pub fn vx_downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures match self.holds::<T>() { Some(t) => r is Some && *r->Some_0 == t, None => r is None } { if self.t == std::any::type_name::<T>() { Some(unsafe { &*(self.p as *const T) }) } else { None } }
}

pub uninterp spec fn collected<I, C>(i: I, c: C) -> bool;
#[verifier::external_body]
pub fn vx_collect<I: IntoIterator, C: FromIterator<I::Item>>(i: I) -> (c: C) ensures collected(i, c)
{ i.into_iter().collect() }

} // verus!
@@ prelude numbers
verus! {

// Numerals (what the std and num-bigint conversions are trusted to compute).
pub open spec fn dval(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
    else { 99 }
}
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dval(#[trigger] s[i]) < radix
}
pub open spec fn nat_val(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { nat_val(s.drop_last(), radix) * radix + dval(s.last()) }
}
/// The integer a numeral denotes, if it is one.
pub open spec fn int_val(s: Seq<char>, radix: int, signed: bool) -> Option<int> {
    if s.len() > 0 && s[0] == '+' && all_digits(s.drop_first(), radix) { Some(nat_val(s.drop_first(), radix)) }
    else if signed && s.len() > 0 && s[0] == '-' && all_digits(s.drop_first(), radix) { Some(-nat_val(s.drop_first(), radix)) }
    else if all_digits(s, radix) { Some(nat_val(s, radix)) }
    else { None }
}

pub trait FromStr: Sized {
    type Err;
    spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool;
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) ensures Self::parsed(s@, r);
}
#[verifier::external_body] pub struct BigUint { pub x: VxBigUint }
#[verifier::external_body] pub struct BigInt { pub x: VxBigInt }
#[verifier::external_body] pub struct ParseBigIntError { x: String }
#[verifier::external_body] pub struct ParseIntError { x: String }
#[verifier::external_body] pub struct ParseBoolError { x: String }
#[verifier::external_body] pub struct ParseFloatError { x: String }
impl BigUint { pub uninterp spec fn val(&self) -> int; }
impl BigInt { pub uninterp spec fn val(&self) -> int; }
impl Clone for BigUint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { BigUint { x: self.x.clone() } } }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { BigInt { x: self.x.clone() } } }
/// The error values std reports carry no structure here.
pub uninterp spec fn err_id<E>(e: E) -> int;
impl Display for ParseIntError { spec fn fv(&self) -> FmtV { FmtV::Opaque(err_id(*self)) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { self.x.clone() } }
impl Display for ParseBigIntError { spec fn fv(&self) -> FmtV { FmtV::Opaque(err_id(*self)) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { self.x.clone() } }
impl Display for ParseBoolError { spec fn fv(&self) -> FmtV { FmtV::Opaque(err_id(*self)) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { self.x.clone() } }
impl Display for ParseFloatError { spec fn fv(&self) -> FmtV { FmtV::Opaque(err_id(*self)) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { self.x.clone() } }
/// The float a decimal numeral denotes after rounding (IEEE semantics left to std).
pub uninterp spec fn float_val<T>(s: Seq<char>) -> Option<T>;

impl FromStr for bool {
    type Err = ParseBoolError;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        (s == "true"@ <==> r == Ok::<bool, ParseBoolError>(true)) && (s == "false"@ <==> r == Ok::<bool, ParseBoolError>(false))
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { match <bool as std::str::FromStr>::from_str(s) { Ok(v) => Ok(v), Err(e) => Err(ParseBoolError { x: std::format!("{}", e) }) } }
}
impl FromStr for f32 {
    type Err = ParseFloatError;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        match r { Ok(v) => float_val::<f32>(s) == Some(v), Err(_) => float_val::<f32>(s) is None }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { match <f32 as std::str::FromStr>::from_str(s) { Ok(v) => Ok(v), Err(e) => Err(ParseFloatError { x: std::format!("{}", e) }) } }
}
impl FromStr for f64 {
    type Err = ParseFloatError;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        match r { Ok(v) => float_val::<f64>(s) == Some(v), Err(_) => float_val::<f64>(s) is None }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { match <f64 as std::str::FromStr>::from_str(s) { Ok(v) => Ok(v), Err(e) => Err(ParseFloatError { x: std::format!("{}", e) }) } }
}
pub open spec fn int_ok(s: Seq<char>, radix: int, signed: bool, v: int) -> bool { int_val(s, radix, signed) == Some(v) }
/// No value, or one that does not fit [lo, hi].
pub open spec fn int_bad(s: Seq<char>, radix: int, signed: bool, lo: int, hi: int) -> bool {
    int_val(s, radix, signed) is None || int_val(s, radix, signed)->Some_0 < lo || int_val(s, radix, signed)->Some_0 > hi
}
pub trait VxRadix: Sized {
    type RErr;
    spec fn parsed_radix(s: Seq<char>, radix: int, r: std::result::Result<Self, Self::RErr>) -> bool;
    fn vx_from_str_radix(s: &str, radix: u32) -> (r: std::result::Result<Self, Self::RErr>)
        requires 2 <= radix <= 36
        ensures Self::parsed_radix(s@, radix as int, r);
}
} // verus!
macro_rules! vx_int { ($($t:ident $signed:literal $e:ident ($($val:tt)*) $lo:expr, $hi:expr;)*) => { verus! { $(
impl FromStr for $t {
    type Err = $e;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        match r { Ok(v) => int_ok(s, 10, $signed, v $($val)*), Err(_) => int_bad(s, 10, $signed, $lo, $hi) }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { match <$t as std::str::FromStr>::from_str(s) { Ok(v) => Ok(v), Err(e) => Err($e { x: std::format!("{}", e) }) } }
}
impl VxRadix for $t {
    type RErr = $e;
    open spec fn parsed_radix(s: Seq<char>, radix: int, r: std::result::Result<Self, Self::RErr>) -> bool {
        match r { Ok(v) => int_ok(s, radix, $signed, v $($val)*), Err(_) => int_bad(s, radix, $signed, $lo, $hi) }
    }
    #[verifier::external_body]
    fn vx_from_str_radix(s: &str, radix: u32) -> (r: std::result::Result<Self, Self::RErr>) { match <$t>::from_str_radix(s, radix) { Ok(v) => Ok(v), Err(e) => Err($e { x: std::format!("{}", e) }) } }
}
)* } } }
vx_int! {
    u8 false ParseIntError (as int) 0, u8::MAX as int; u16 false ParseIntError (as int) 0, u16::MAX as int;
    u32 false ParseIntError (as int) 0, u32::MAX as int; u64 false ParseIntError (as int) 0, u64::MAX as int;
    u128 false ParseIntError (as int) 0, u128::MAX as int; usize false ParseIntError (as int) 0, usize::MAX as int;
    i8 true ParseIntError (as int) i8::MIN as int, i8::MAX as int; i16 true ParseIntError (as int) i16::MIN as int, i16::MAX as int;
    i32 true ParseIntError (as int) i32::MIN as int, i32::MAX as int; i64 true ParseIntError (as int) i64::MIN as int, i64::MAX as int;
    i128 true ParseIntError (as int) i128::MIN as int, i128::MAX as int; isize true ParseIntError (as int) isize::MIN as int, isize::MAX as int;
}
verus! {
// (num-bigint lets underscores stand between the digits; what it makes of them is left open)
impl FromStr for BigUint {
    type Err = ParseBigIntError;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        !s.contains('_') ==> match r { Ok(v) => int_ok(s, 10, false, v.val()), Err(_) => int_val(s, 10, false) is None }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { vx_rt! { match <VxBigUint as std::str::FromStr>::from_str(s) { Ok(x) => Ok(BigUint { x }), Err(e) => Err(ParseBigIntError { x: std::format!("{}", e) }) } } }
}
impl FromStr for BigInt {
    type Err = ParseBigIntError;
    open spec fn parsed(s: Seq<char>, r: std::result::Result<Self, Self::Err>) -> bool {
        !s.contains('_') ==> match r { Ok(v) => int_ok(s, 10, true, v.val()), Err(_) => int_val(s, 10, true) is None }
    }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: std::result::Result<Self, Self::Err>) { vx_rt! { match <VxBigInt as std::str::FromStr>::from_str(s) { Ok(x) => Ok(BigInt { x }), Err(e) => Err(ParseBigIntError { x: std::format!("{}", e) }) } } }
}
impl VxRadix for BigUint {
    type RErr = ParseBigIntError;
    open spec fn parsed_radix(s: Seq<char>, radix: int, r: std::result::Result<Self, Self::RErr>) -> bool {
        !s.contains('_') ==> match r { Ok(v) => int_ok(s, radix, false, v.val()), Err(_) => int_val(s, radix, false) is None }
    }
    #[verifier::external_body]
    fn vx_from_str_radix(s: &str, radix: u32) -> (r: std::result::Result<Self, Self::RErr>) { vx_rt! { match <VxBigUint as num_traits::Num>::from_str_radix(s, radix) { Ok(x) => Ok(BigUint { x }), Err(e) => Err(ParseBigIntError { x: std::format!("{}", e) }) } } }
}
impl VxRadix for BigInt {
    type RErr = ParseBigIntError;
    open spec fn parsed_radix(s: Seq<char>, radix: int, r: std::result::Result<Self, Self::RErr>) -> bool {
        !s.contains('_') ==> match r { Ok(v) => int_ok(s, radix, true, v.val()), Err(_) => int_val(s, radix, true) is None }
    }
    #[verifier::external_body]
    fn vx_from_str_radix(s: &str, radix: u32) -> (r: std::result::Result<Self, Self::RErr>) { vx_rt! { match <VxBigInt as num_traits::Num>::from_str_radix(s, radix) { Ok(x) => Ok(BigInt { x }), Err(e) => Err(ParseBigIntError { x: std::format!("{}", e) }) } } }
}
} // verus!
