@# Contracts: the number parsers of primitive.rs
@# (the `sig`s below are one line per parser; the shared argument is lemma_int_parser / lemma_text_parser)
@@ append numbers-spec
// ---- regular expressions over ASCII classes, leftmost-first (the order in which
// a backtracking matcher would try the ends of a match)
pub enum Rx {
    Eps,
    /// `\A`
    Bot,
    /// one byte in one of the ranges
    Cls(Seq<(u8, u8)>),
    /// at least `.1` bytes of the class, as many as possible first
    Run(Seq<(u8, u8)>, nat),
    Opt(Box<Rx>),
    Cat(Box<Rx>, Box<Rx>),
    Alt(Box<Rx>, Box<Rx>),
}
spec fn in_cls(c: Seq<(u8, u8)>, b: u8) -> bool { exists|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0 <= b && b <= c[k].1 }
spec fn cls_run(c: Seq<(u8, u8)>, t: Seq<u8>, i: int) -> nat
    decreases t.len() - i
{
    if 0 <= i < t.len() && in_cls(c, t[i]) { 1 + cls_run(c, t, i + 1) } else { 0 }
}
/// The ends of the matches of `r` that start at `i`, in order of preference.
spec fn rx_ends(r: Rx, t: Seq<u8>, i: int) -> Seq<int>
    decreases r, 0int, 0nat
{
    match r {
        Rx::Eps => seq![i],
        Rx::Bot => if i == 0 { seq![i] } else { seq![] },
        Rx::Cls(c) => if 0 <= i < t.len() && in_cls(c, t[i]) { seq![i + 1] } else { seq![] },
        Rx::Run(c, min) => { let n = cls_run(c, t, i); if n < min { seq![] } else { Seq::new((n - min + 1) as nat, |k: int| i + n - k) } },
        Rx::Opt(a) => rx_ends(*a, t, i) + seq![i],
        Rx::Cat(a, b) => rx_cat(rx_ends(*a, t, i), *b, t),
        Rx::Alt(a, b) => rx_ends(*a, t, i) + rx_ends(*b, t, i),
    }
}
spec fn rx_cat(ends: Seq<int>, b: Rx, t: Seq<u8>) -> Seq<int>
    decreases b, 1int, ends.len()
{
    if ends.len() == 0 { seq![] } else { rx_ends(b, t, ends[0]) + rx_cat(ends.drop_first(), b, t) }
}
spec fn rx_from(r: Rx, t: Seq<u8>, i: int) -> Option<(int, int)>
    decreases t.len() + 1 - i
{
    if i < 0 || i > t.len() { None }
    else if rx_ends(r, t, i).len() > 0 { Some((i, rx_ends(r, t, i)[0])) }
    else { rx_from(r, t, i + 1) }
}
/// What a leftmost-first search for `r` in `t` finds.
spec fn rx_find(r: Rx, t: Seq<u8>) -> Option<(int, int)> { rx_from(r, t, 0) }

// ---- laws
/// `\A` anchors a search at 0.
proof fn lemma_rx_bot(x: Rx, t: Seq<u8>, i: int)
    requires 0 < i
    ensures rx_from(Rx::Cat(Box::new(Rx::Bot), Box::new(x)), t, i) is None
    decreases t.len() + 1 - i
{
    let r = Rx::Cat(Box::new(Rx::Bot), Box::new(x));
    assert(rx_ends(r, t, i) == rx_cat(rx_ends(Rx::Bot, t, i), x, t));
    if i <= t.len() { lemma_rx_bot(x, t, i + 1); }
}
/// The preferred end of a match of `r` at `i`.
spec fn rx_first(r: Rx, t: Seq<u8>, i: int) -> Option<int> {
    if rx_ends(r, t, i).len() > 0 { Some(rx_ends(r, t, i)[0]) } else { None }
}
proof fn lemma_rx_anchored(x: Rx, t: Seq<u8>)
    ensures rx_find(Rx::Cat(Box::new(Rx::Bot), Box::new(x)), t) == (match rx_first(x, t, 0) { Some(e) => Some((0int, e)), None => None })
{
    let r = Rx::Cat(Box::new(Rx::Bot), Box::new(x));
    assert(rx_ends(Rx::Bot, t, 0) == seq![0int]);
    assert(rx_ends(r, t, 0) == rx_cat(seq![0int], x, t));
    lemma_cat1(0, x, t);
    lemma_rx_bot(x, t, 1);
}
proof fn lemma_cat1(i: int, b: Rx, t: Seq<u8>)
    ensures rx_cat(seq![i], b, t) == rx_ends(b, t, i)
{
    assert(seq![i].drop_first() =~= seq![]);
    assert(rx_cat(seq![], b, t) =~= seq![]);
    assert(rx_cat(seq![i], b, t) =~= rx_ends(b, t, i));
}
proof fn lemma_cat2(i: int, j: int, b: Rx, t: Seq<u8>)
    ensures rx_cat(seq![i, j], b, t) == rx_ends(b, t, i) + rx_ends(b, t, j)
{
    assert(seq![i, j].drop_first() =~= seq![j]);
    lemma_cat1(j, b, t);
}
/// If the second part can match after the preferred end of the first, that is the preferred match.
proof fn lemma_cat_first(a: Rx, b: Rx, t: Seq<u8>, i: int)
    ensures
        rx_ends(a, t, i).len() == 0 ==> rx_first(Rx::Cat(Box::new(a), Box::new(b)), t, i) is None,
        rx_ends(a, t, i).len() > 0 && rx_first(b, t, rx_ends(a, t, i)[0]) is Some ==>
            rx_first(Rx::Cat(Box::new(a), Box::new(b)), t, i) == rx_first(b, t, rx_ends(a, t, i)[0]),
{
    assert(rx_ends(Rx::Cat(Box::new(a), Box::new(b)), t, i) == rx_cat(rx_ends(a, t, i), b, t));
    let ends = rx_ends(a, t, i);
    if ends.len() > 0 { assert(rx_cat(ends, b, t) == rx_ends(b, t, ends[0]) + rx_cat(ends.drop_first(), b, t)); }
}
proof fn lemma_alt_first(a: Rx, b: Rx, t: Seq<u8>, i: int)
    ensures rx_first(Rx::Alt(Box::new(a), Box::new(b)), t, i) == (match rx_first(a, t, i) { Some(e) => Some(e), None => rx_first(b, t, i) })
{
}
proof fn lemma_opt_first(a: Rx, t: Seq<u8>, i: int)
    ensures rx_first(Rx::Opt(Box::new(a)), t, i) == (match rx_first(a, t, i) { Some(e) => Some(e), None => Some(i) })
{
}
/// One byte, then the rest.
proof fn lemma_cls_cat(c: Seq<(u8, u8)>, b: Rx, t: Seq<u8>, i: int)
    ensures rx_ends(Rx::Cat(Box::new(Rx::Cls(c)), Box::new(b)), t, i) ==
        (if 0 <= i < t.len() && in_cls(c, t[i]) { rx_ends(b, t, i + 1) } else { seq![] })
{
    assert(rx_ends(Rx::Cat(Box::new(Rx::Cls(c)), Box::new(b)), t, i) == rx_cat(rx_ends(Rx::Cls(c), t, i), b, t));
    if 0 <= i < t.len() && in_cls(c, t[i]) { lemma_cat1(i + 1, b, t); }
}
spec fn cls_opt(c: Seq<(u8, u8)>, b: Rx) -> Rx { Rx::Cat(Box::new(Rx::Opt(Box::new(Rx::Cls(c)))), Box::new(b)) }
/// An optional byte, then something that cannot match at such a byte.
proof fn lemma_sign(c: Seq<(u8, u8)>, b: Rx, t: Seq<u8>, i: int)
    ensures rx_first(cls_opt(c, b), t, i) == (if 0 <= i < t.len() && in_cls(c, t[i]) {
            match rx_first(b, t, i + 1) { Some(e) => Some(e), None => rx_first(b, t, i) } } else { rx_first(b, t, i) })
{
    let o = Rx::Opt(Box::new(Rx::Cls(c)));
    assert(rx_ends(cls_opt(c, b), t, i) == rx_cat(rx_ends(o, t, i), b, t));
    assert(rx_ends(o, t, i) == rx_ends(Rx::Cls(c), t, i) + seq![i]);
    if 0 <= i < t.len() && in_cls(c, t[i]) {
        assert(rx_ends(o, t, i) =~= seq![i + 1, i]);
        lemma_cat2(i + 1, i, b, t);
    } else {
        assert(rx_ends(o, t, i) =~= seq![i]);
        lemma_cat1(i, b, t);
    }
}
proof fn lemma_run_first(c: Seq<(u8, u8)>, min: nat, t: Seq<u8>, i: int)
    ensures rx_first(Rx::Run(c, min), t, i) == (if cls_run(c, t, i) >= min { Some(i + cls_run(c, t, i)) } else { None })
{
}
proof fn lemma_cls_first(c: Seq<(u8, u8)>, t: Seq<u8>, i: int)
    ensures rx_first(Rx::Cls(c), t, i) == (if 0 <= i < t.len() && in_cls(c, t[i]) { Some(i + 1) } else { None })
{
}
proof fn lemma_in_cls(c: Seq<(u8, u8)>, b: u8)
    requires 1 <= c.len() <= 3
    ensures in_cls(c, b) == ((c[0].0 <= b && b <= c[0].1) || (c.len() > 1 && c[1].0 <= b && b <= c[1].1) || (c.len() > 2 && c[2].0 <= b && b <= c[2].1))
{
    if in_cls(c, b) { let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0 <= b && b <= c[k].1; assert(k == 0 || k == 1 || k == 2); }
}
// ---- integers
spec fn sign_at(t: Seq<u8>) -> bool { t.len() > 0 && (t[0] == 43 || t[0] == 45) }
/// How many digits of the base stand at `i`.
spec fn digit_run(t: Seq<u8>, radix: int, i: int) -> nat
    decreases t.len() - i
{
    if 0 <= i < t.len() && dval(t[i] as char) < radix { 1 + digit_run(t, radix, i + 1) } else { 0 }
}
/// The numeral at the start of `t`: an optional sign (signed types only), then the longest run of digits.
spec fn int_find(t: Seq<u8>, radix: int, signed: bool) -> Option<(int, int)> {
    let s = if signed && sign_at(t) { 1int } else { 0int };
    let n = digit_run(t, radix, s);
    if n > 0 { Some((0, s + n)) } else { None }
}
spec fn dec_cls() -> Seq<(u8, u8)> { seq![(48u8, 57u8)] }
spec fn bin_cls() -> Seq<(u8, u8)> { seq![(48u8, 49u8)] }
spec fn hex_cls() -> Seq<(u8, u8)> { seq![(48u8, 57u8), (65u8, 70u8), (97u8, 102u8)] }
spec fn sign_cls() -> Seq<(u8, u8)> { seq![(43u8, 43u8), (45u8, 45u8)] }
spec fn base_cls(radix: int) -> Seq<(u8, u8)> { if radix == 2 { bin_cls() } else if radix == 10 { dec_cls() } else { hex_cls() } }
spec fn uint_rx(radix: int) -> Rx { Rx::Cat(Box::new(Rx::Bot), Box::new(Rx::Run(base_cls(radix), 1))) }
spec fn int_rx(radix: int) -> Rx { Rx::Cat(Box::new(Rx::Bot), Box::new(cls_opt(sign_cls(), Rx::Run(base_cls(radix), 1)))) }
proof fn lemma_base_cls(radix: int, b: u8)
    requires radix == 2 || radix == 10 || radix == 16
    ensures in_cls(base_cls(radix), b) == (dval(b as char) < radix)
{
    lemma_in_cls(base_cls(radix), b);
}
proof fn lemma_sign_cls(b: u8)
    ensures in_cls(sign_cls(), b) == (b == 43 || b == 45)
{
    lemma_in_cls(sign_cls(), b);
}
proof fn lemma_digit_run(t: Seq<u8>, radix: int, i: int)
    requires radix == 2 || radix == 10 || radix == 16
    ensures cls_run(base_cls(radix), t, i) == digit_run(t, radix, i)
    decreases t.len() - i
{
    if 0 <= i < t.len() { lemma_base_cls(radix, t[i]); lemma_digit_run(t, radix, i + 1); }
}
proof fn lemma_int_rx(t: Seq<u8>, radix: int)
    requires radix == 2 || radix == 10 || radix == 16
    ensures rx_find(uint_rx(radix), t) == int_find(t, radix, false), rx_find(int_rx(radix), t) == int_find(t, radix, true)
{
    let d = Rx::Run(base_cls(radix), 1);
    lemma_rx_anchored(d, t);
    lemma_run_first(base_cls(radix), 1, t, 0); lemma_digit_run(t, radix, 0);
    lemma_rx_anchored(cls_opt(sign_cls(), d), t);
    lemma_sign(sign_cls(), d, t, 0);
    lemma_run_first(base_cls(radix), 1, t, 1); lemma_digit_run(t, radix, 1);
    if t.len() > 0 { lemma_sign_cls(t[0]); }
}
proof fn lemma_digits_in(t: Seq<u8>, radix: int, i: int, k: int)
    requires 0 <= i <= k < i + digit_run(t, radix, i)
    ensures k < t.len(), dval(t[k] as char) < radix
    decreases t.len() - i
{
    if k > i { lemma_digits_in(t, radix, i + 1, k); }
}
proof fn lemma_digit_run_max(t: Seq<u8>, radix: int, i: int)
    requires 0 <= i <= t.len()
    ensures i + digit_run(t, radix, i) <= t.len()
    decreases t.len() - i
{
    if i < t.len() { lemma_digit_run_max(t, radix, i + 1); }
}
spec fn ascii_of(t: Seq<u8>) -> Seq<char> { t.map_values(|b: u8| b as char) }
proof fn lemma_ascii(t: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 128
    ensures chars_of(t) == ascii_of(t)
{
    let c = ascii_of(t);
    assert(is_ascii_chars(c));
    is_ascii_chars_encode_utf8(c);
    assert(encode_utf8(c) =~= t);
    encode_utf8_decode_utf8(c);
}
/// The integer the numeral at the start of `t` denotes.
spec fn int_of(t: Seq<u8>, radix: int, signed: bool) -> int {
    let s = if signed && sign_at(t) { 1int } else { 0int };
    let v = nat_val(ascii_of(t.subrange(s, s + digit_run(t, radix, s))), radix);
    if s == 1 && t[0] == 45 { -v } else { v }
}
/// A numeral found at the start of `t` is a numeral, and denotes that integer.
proof fn lemma_int_of(t: Seq<u8>, radix: int, signed: bool)
    requires int_find(t, radix, signed) is Some, radix == 2 || radix == 10 || radix == 16
    ensures ({ let n = int_find(t, radix, signed)->Some_0.1;
        0 < n <= t.len() && int_val(chars_of(t.subrange(0, n)), radix, signed) == Some(int_of(t, radix, signed))
        && !chars_of(t.subrange(0, n)).contains('_') })
{
    let s = if signed && sign_at(t) { 1int } else { 0int };
    let n = int_find(t, radix, signed)->Some_0.1;
    lemma_digit_run_max(t, radix, s);
    let u = t.subrange(0, n);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < 128 by { if i >= s { lemma_digits_in(t, radix, s, i); } }
    lemma_ascii(u);
    let c = ascii_of(u);
    let d = ascii_of(t.subrange(s, n));
    assert forall|i: int| 0 <= i < d.len() implies dval(#[trigger] d[i]) < radix by { lemma_digits_in(t, radix, s, s + i); }
    if s == 1 { assert(c.drop_first() =~= d); assert(c[0] == t[0] as char); }
    else { assert(c =~= d); assert(dval(d[0]) < radix); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != '_' by {
        if i >= s { assert(c[i] == d[i - s]); assert(dval(d[i - s]) < radix); }
    }
}

// ---- floats and bools
/// `x` (a lower-case letter) or its capital stands at `i`.
spec fn ci_at(t: Seq<u8>, i: int, x: u8) -> bool { 0 <= i < t.len() && (t[i] == x || t[i] as int == x as int - 32) }
spec fn word3_at(t: Seq<u8>, i: int, a: u8, b: u8, c: u8) -> bool { ci_at(t, i, a) && ci_at(t, i + 1, b) && ci_at(t, i + 2, c) }
/// `inity` in any case.
spec fn inity_at(t: Seq<u8>, i: int) -> bool { word3_at(t, i, 105, 110, 105) && ci_at(t, i + 3, 116) && ci_at(t, i + 4, 121) }
spec fn dot_at(t: Seq<u8>, i: int) -> bool { 0 <= i < t.len() && t[i] == 46 }
/// Digits with an optional fraction, or a fraction alone: where they end.
spec fn mantissa_end(t: Seq<u8>, i: int) -> Option<int> {
    let n = digit_run(t, 10, i);
    if n > 0 {
        if dot_at(t, i + n) { Some(i + n + 1 + digit_run(t, 10, i + n + 1)) } else { Some(i + n) }
    } else if dot_at(t, i) && digit_run(t, 10, i + 1) > 0 { Some(i + 1 + digit_run(t, 10, i + 1)) }
    else { None }
}
/// The end of the exponent at `i`; `i` itself if there is none.
spec fn exponent_end(t: Seq<u8>, i: int) -> int {
    let j = if i + 1 < t.len() && (t[i + 1] == 43 || t[i + 1] == 45) { i + 2 } else { i + 1 };
    if ci_at(t, i, 101) && digit_run(t, 10, j) > 0 { j + digit_run(t, 10, j) } else { i }
}
/// An unsigned float at `i`: where it ends.
spec fn ufloat_end(t: Seq<u8>, i: int) -> Option<int> {
    if word3_at(t, i, 105, 110, 102) { if inity_at(t, i + 3) { Some(i + 8) } else { Some(i + 3) } }
    else if word3_at(t, i, 110, 97, 110) { Some(i + 3) }
    else { match mantissa_end(t, i) { Some(j) => Some(exponent_end(t, j)), None => None } }
}
/// The float at the start of `t`.
spec fn float_find(t: Seq<u8>) -> Option<(int, int)> {
    match ufloat_end(t, if sign_at(t) { 1 } else { 0 }) { Some(e) => Some((0, e)), None => None }
}
spec fn bool_find(t: Seq<u8>) -> Option<(int, int)> {
    if at(t, 0, "true".spec_bytes()) { Some((0, 4)) } else if at(t, 0, "false".spec_bytes()) { Some((0, 5)) } else { None }
}

spec fn ci_cls(x: u8) -> Seq<(u8, u8)> { seq![((x - 32) as u8, (x - 32) as u8), (x, x)] }
spec fn cls1(x: u8) -> Seq<(u8, u8)> { seq![(x, x)] }
spec fn cls_cat(c: Seq<(u8, u8)>, b: Rx) -> Rx { Rx::Cat(Box::new(Rx::Cls(c)), Box::new(b)) }
spec fn rx_alt(a: Rx, b: Rx) -> Rx { Rx::Alt(Box::new(a), Box::new(b)) }
spec fn rx_then(a: Rx, b: Rx) -> Rx { Rx::Cat(Box::new(a), Box::new(b)) }
spec fn rx_opt(a: Rx) -> Rx { Rx::Opt(Box::new(a)) }
spec fn word3_rx(a: u8, b: u8, c: u8) -> Rx { cls_cat(ci_cls(a), cls_cat(ci_cls(b), Rx::Cls(ci_cls(c)))) }
spec fn infinity_rx() -> Rx {
    cls_cat(ci_cls(105), cls_cat(ci_cls(110), cls_cat(ci_cls(102), cls_cat(ci_cls(105), cls_cat(ci_cls(110), cls_cat(ci_cls(105),
        cls_cat(ci_cls(116), Rx::Cls(ci_cls(121)))))))))
}
spec fn frac_rx() -> Rx { cls_cat(cls1(46), Rx::Run(dec_cls(), 0)) }
spec fn mantissa_rx() -> Rx { rx_alt(rx_then(Rx::Run(dec_cls(), 1), rx_opt(frac_rx())), cls_cat(cls1(46), Rx::Run(dec_cls(), 1))) }
spec fn exponent_rx() -> Rx { cls_cat(ci_cls(101), cls_opt(sign_cls(), Rx::Run(dec_cls(), 1))) }
spec fn ufloat_rx() -> Rx {
    rx_alt(infinity_rx(), rx_alt(word3_rx(105, 110, 102), rx_alt(word3_rx(110, 97, 110), rx_then(mantissa_rx(), rx_opt(exponent_rx())))))
}
spec fn float_rx() -> Rx { rx_then(Rx::Bot, cls_opt(sign_cls(), ufloat_rx())) }
spec fn bool_rx() -> Rx {
    rx_then(Rx::Bot, rx_alt(cls_cat(cls1(116), cls_cat(cls1(114), cls_cat(cls1(117), Rx::Cls(cls1(101))))),
        cls_cat(cls1(102), cls_cat(cls1(97), cls_cat(cls1(108), cls_cat(cls1(115), Rx::Cls(cls1(101))))))))
}
proof fn lemma_ci(t: Seq<u8>, i: int, x: u8)
    requires 97 <= x <= 122
    ensures (0 <= i < t.len() && in_cls(ci_cls(x), t[i])) == ci_at(t, i, x)
{
    if 0 <= i < t.len() { lemma_in_cls(ci_cls(x), t[i]); }
}
/// A letter, then the rest.
proof fn lemma_ci_cat(t: Seq<u8>, i: int, x: u8, b: Rx)
    requires 97 <= x <= 122
    ensures rx_first(cls_cat(ci_cls(x), b), t, i) == (if ci_at(t, i, x) { rx_first(b, t, i + 1) } else { None })
{
    lemma_ci(t, i, x); lemma_cls_cat(ci_cls(x), b, t, i);
}
proof fn lemma_one_cat(t: Seq<u8>, i: int, x: u8, b: Rx)
    ensures rx_first(cls_cat(cls1(x), b), t, i) == (if 0 <= i < t.len() && t[i] == x { rx_first(b, t, i + 1) } else { None })
{
    if 0 <= i < t.len() { lemma_in_cls(cls1(x), t[i]); } lemma_cls_cat(cls1(x), b, t, i);
}
proof fn lemma_ci_last(t: Seq<u8>, i: int, x: u8)
    requires 97 <= x <= 122
    ensures rx_first(Rx::Cls(ci_cls(x)), t, i) == (if ci_at(t, i, x) { Some(i + 1) } else { None })
{
    lemma_ci(t, i, x); lemma_cls_first(ci_cls(x), t, i);
}
proof fn lemma_word3(t: Seq<u8>, i: int, a: u8, b: u8, c: u8)
    requires 97 <= a <= 122, 97 <= b <= 122, 97 <= c <= 122
    ensures rx_first(word3_rx(a, b, c), t, i) == (if word3_at(t, i, a, b, c) { Some(i + 3) } else { None })
{
    lemma_ci_cat(t, i, a, cls_cat(ci_cls(b), Rx::Cls(ci_cls(c))));
    lemma_ci_cat(t, i + 1, b, Rx::Cls(ci_cls(c)));
    lemma_ci_last(t, i + 2, c);
}
proof fn lemma_infinity(t: Seq<u8>, i: int)
    ensures rx_first(infinity_rx(), t, i) == (if word3_at(t, i, 105, 110, 102) && inity_at(t, i + 3) { Some(i + 8) } else { None })
{
    let r7 = Rx::Cls(ci_cls(121));
    let r6 = cls_cat(ci_cls(116), r7);
    let r5 = cls_cat(ci_cls(105), r6);
    let r4 = cls_cat(ci_cls(110), r5);
    let r3 = cls_cat(ci_cls(105), r4);
    let r2 = cls_cat(ci_cls(102), r3);
    let r1 = cls_cat(ci_cls(110), r2);
    lemma_ci_cat(t, i, 105, r1); lemma_ci_cat(t, i + 1, 110, r2); lemma_ci_cat(t, i + 2, 102, r3); lemma_ci_cat(t, i + 3, 105, r4);
    lemma_ci_cat(t, i + 4, 110, r5); lemma_ci_cat(t, i + 5, 105, r6); lemma_ci_cat(t, i + 6, 116, r7); lemma_ci_last(t, i + 7, 121);
}
proof fn lemma_mantissa(t: Seq<u8>, i: int)
    ensures rx_first(mantissa_rx(), t, i) == mantissa_end(t, i)
{
    let d0 = Rx::Run(dec_cls(), 0); let d1 = Rx::Run(dec_cls(), 1);
    let n = digit_run(t, 10, i);
    assert(base_cls(10) == dec_cls());
    lemma_digit_run(t, 10, i); lemma_digit_run(t, 10, i + 1); lemma_digit_run(t, 10, i + n + 1);
    lemma_alt_first(rx_then(d1, rx_opt(frac_rx())), cls_cat(cls1(46), d1), t, i);
    lemma_run_first(dec_cls(), 1, t, i);
    lemma_cat_first(d1, rx_opt(frac_rx()), t, i);
    lemma_opt_first(frac_rx(), t, i + n);
    lemma_one_cat(t, i + n, 46, d0);
    lemma_run_first(dec_cls(), 0, t, i + n + 1);
    lemma_one_cat(t, i, 46, d1);
    lemma_run_first(dec_cls(), 1, t, i + 1);
}
proof fn lemma_exponent(t: Seq<u8>, i: int)
    requires 0 <= i
    ensures rx_first(rx_opt(exponent_rx()), t, i) == Some(exponent_end(t, i))
{
    let d1 = Rx::Run(dec_cls(), 1);
    assert(base_cls(10) == dec_cls());
    lemma_digit_run(t, 10, i + 1); lemma_digit_run(t, 10, i + 2);
    lemma_opt_first(exponent_rx(), t, i);
    lemma_ci_cat(t, i, 101, cls_opt(sign_cls(), d1));
    lemma_sign(sign_cls(), d1, t, i + 1);
    if i + 1 < t.len() { lemma_sign_cls(t[i + 1]); }
    lemma_run_first(dec_cls(), 1, t, i + 1); lemma_run_first(dec_cls(), 1, t, i + 2);
}
proof fn lemma_ufloat(t: Seq<u8>, i: int)
    requires 0 <= i
    ensures rx_first(ufloat_rx(), t, i) == ufloat_end(t, i)
{
    let num = rx_then(mantissa_rx(), rx_opt(exponent_rx()));
    lemma_infinity(t, i); lemma_word3(t, i, 105, 110, 102); lemma_word3(t, i, 110, 97, 110);
    lemma_alt_first(infinity_rx(), rx_alt(word3_rx(105, 110, 102), rx_alt(word3_rx(110, 97, 110), num)), t, i);
    lemma_alt_first(word3_rx(105, 110, 102), rx_alt(word3_rx(110, 97, 110), num), t, i);
    lemma_alt_first(word3_rx(110, 97, 110), num, t, i);
    lemma_cat_first(mantissa_rx(), rx_opt(exponent_rx()), t, i);
    lemma_mantissa(t, i);
    if let Some(j) = mantissa_end(t, i) { lemma_exponent(t, j); }
}
proof fn lemma_float_rx(t: Seq<u8>)
    ensures rx_find(float_rx(), t) == float_find(t)
{
    lemma_rx_anchored(cls_opt(sign_cls(), ufloat_rx()), t);
    lemma_sign(sign_cls(), ufloat_rx(), t, 0);
    if t.len() > 0 { lemma_sign_cls(t[0]); }
    lemma_ufloat(t, 0); lemma_ufloat(t, 1);
    if sign_at(t) { assert(ufloat_end(t, 0) is None); }
}
proof fn lemma_bool_rx(t: Seq<u8>)
    ensures rx_find(bool_rx(), t) == bool_find(t)
{
    reveal_strlit("true"); reveal_strlit("false");
    lemma_str("true"); lemma_str("false"); 
    let e = Rx::Cls(cls1(101));
    let a1 = cls_cat(cls1(117), e); let a2 = cls_cat(cls1(114), a1); let a3 = cls_cat(cls1(116), a2);
    let b1 = cls_cat(cls1(115), e); let b2 = cls_cat(cls1(108), b1); let b3 = cls_cat(cls1(97), b2); let b4 = cls_cat(cls1(102), b3);
    lemma_rx_anchored(rx_alt(a3, b4), t);
    lemma_alt_first(a3, b4, t, 0);
    lemma_one_cat(t, 0, 116, a2); lemma_one_cat(t, 1, 114, a1); lemma_one_cat(t, 2, 117, e);
    lemma_one_cat(t, 0, 102, b3); lemma_one_cat(t, 1, 97, b2); lemma_one_cat(t, 2, 108, b1); lemma_one_cat(t, 3, 115, e);
    lemma_cls_first(cls1(101), t, 3); lemma_cls_first(cls1(101), t, 4);
    if t.len() > 3 { lemma_in_cls(cls1(101), t[3]); }
    if t.len() > 4 { lemma_in_cls(cls1(101), t[4]); }
    is_ascii_chars_encode_utf8("true"@); is_ascii_chars_encode_utf8("false"@);
    let tb = "true".spec_bytes(); let fb = "false".spec_bytes();
    assert(tb =~= seq![116u8, 114u8, 117u8, 101u8]);
    assert(fb =~= seq![102u8, 97u8, 108u8, 115u8, 101u8]);
    if at(t, 0, tb) { let u = t.subrange(0, 4); assert(u[0] == t[0] && u[1] == t[1] && u[2] == t[2] && u[3] == t[3]); }
    else if t.len() >= 4 && t[0] == 116 && t[1] == 114 && t[2] == 117 && t[3] == 101 { assert(t.subrange(0, 4) =~= tb); }
    if at(t, 0, fb) { let u = t.subrange(0, 5); assert(u[0] == t[0] && u[1] == t[1] && u[2] == t[2] && u[3] == t[3] && u[4] == t[4]); }
    else if t.len() >= 5 && t[0] == 102 && t[1] == 97 && t[2] == 108 && t[3] == 115 && t[4] == 101 { assert(t.subrange(0, 5) =~= fb); }
}

// ---- what a number parser does, at every position of every text
/// Integers: the numeral at `start`, if there is one and its value fits; nothing else, and only once.
spec fn int_tr<T: Clone>(tr: Seq<Ev<(T,)>>, t: Seq<u8>, start: int, radix: int, signed: bool, val: spec_fn(T) -> int, fits: spec_fn(int) -> bool) -> bool {
    match int_find(t, radix, signed) {
        None => tr == fail1::<(T,)>(start, type_name_text::<T>()),
        Some(m) => if fits(int_of(t, radix, signed)) {
            exists|x: T| #[trigger] val(x) == int_of(t, radix, signed) && tr == one(start + m.1, conv_clone(x))
        } else {
            exists|e: ErrV| e.loc == start && tr == #[trigger] err1::<(T,)>(e)
        },
    }
}
spec fn err1<R>(e: ErrV) -> Seq<Ev<R>> { seq![Ev::E(e)] }
spec fn int_parser<T: Clone, E: Display>(p: RegexParser<T, E>, radix: int, signed: bool, val: spec_fn(T) -> int, fits: spec_fn(int) -> bool) -> bool {
    p.regex.req() && p.anchored() && (forall|s: Seq<char>| #[trigger] p.parse_fn.req(s))
    && forall|src: Seq<u8>, start: int| bd(src, start) ==>
        int_tr(#[trigger] regex_tr(p.pattern(), p.parse_fn, src, start), sfx(src, start), start, radix, signed, val, fits)
}
/// The conversion function computes the integer a numeral denotes.
spec fn int_conv<T, E>(f: VxFnStr<std::result::Result<T, E>>, radix: int, signed: bool, val: spec_fn(T) -> int, fits: spec_fn(int) -> bool) -> bool {
    forall|s: Seq<char>| #![trigger f.out(s)] !s.contains('_') ==> match f.out(s) {
        Ok(x) => int_val(s, radix, signed) == Some(val(x)) && fits(val(x)),
        Err(_) => int_val(s, radix, signed) is None || !fits(int_val(s, radix, signed)->Some_0),
    }
}
proof fn lemma_int_parser<T: Clone, E: Display>(p: RegexParser<T, E>, radix: int, signed: bool, val: spec_fn(T) -> int, fits: spec_fn(int) -> bool)
    requires
        radix == 2 || radix == 10 || radix == 16,
        p.regex.req(),
        forall|t: Seq<u8>| #[trigger] re_find(p.pattern(), t) == rx_find(if signed { int_rx(radix) } else { uint_rx(radix) }, t),
        forall|s: Seq<char>| #[trigger] p.parse_fn.req(s),
        int_conv(p.parse_fn, radix, signed, val, fits),
    ensures int_parser(p, radix, signed, val, fits)
{
    assert forall|t: Seq<u8>| #[trigger] re_find(p.pattern(), t) == int_find(t, radix, signed) by { lemma_int_rx(t, radix); }
    assert forall|src: Seq<u8>, start: int| bd(src, start) implies
        int_tr(#[trigger] regex_tr(p.pattern(), p.parse_fn, src, start), sfx(src, start), start, radix, signed, val, fits) by {
        let t = sfx(src, start);
        let tr = regex_tr(p.pattern(), p.parse_fn, src, start);
        if int_find(t, radix, signed) is Some {
            let n = int_find(t, radix, signed)->Some_0.1;
            lemma_int_of(t, radix, signed);
            assert(t.subrange(0, n) =~= src.subrange(start, start + n));
            let s = chars_of(src.subrange(start, start + n));
            match p.parse_fn.out(s) {
                Ok(x) => { assert(val(x) == int_of(t, radix, signed)); }
                Err(e) => {
                    let ev = ErrV { loc: start, reason: ReasonV::FromStrFailed { input: s, type_name: type_name_text::<T>(), message: fmt_text("{}"@, seq![e.fv()]) } };
                    assert(tr == err1::<(T,)>(ev));
                }
            }
        }
    }
}
/// Floats and bools: the longest prefix in the documented format, with the value std gives it.
spec fn text_tr<T: Clone>(tr: Seq<Ev<(T,)>>, src: Seq<u8>, start: int, found: Option<(int, int)>, val: spec_fn(Seq<char>) -> Option<T>) -> bool {
    match found {
        None => tr == fail1::<(T,)>(start, type_name_text::<T>()),
        Some(m) => match val(chars_of(src.subrange(start, start + m.1))) {
            Some(x) => tr == one(start + m.1, conv_clone(x)),
            None => exists|e: ErrV| e.loc == start && tr == #[trigger] err1::<(T,)>(e),
        },
    }
}
spec fn text_parser<T: Clone, E: Display>(p: RegexParser<T, E>, find: spec_fn(Seq<u8>) -> Option<(int, int)>, val: spec_fn(Seq<char>) -> Option<T>) -> bool {
    p.regex.req() && p.anchored() && (forall|s: Seq<char>| #[trigger] p.parse_fn.req(s))
    && forall|src: Seq<u8>, start: int| bd(src, start) ==>
        text_tr(#[trigger] regex_tr(p.pattern(), p.parse_fn, src, start), src, start, find(sfx(src, start)), val)
}
proof fn lemma_text_parser<T: Clone, E: Display>(p: RegexParser<T, E>, find: spec_fn(Seq<u8>) -> Option<(int, int)>, val: spec_fn(Seq<char>) -> Option<T>)
    requires
        p.regex.req(),
        forall|t: Seq<u8>| #[trigger] re_find(p.pattern(), t) == find(t),
        forall|t: Seq<u8>| (#[trigger] find(t)) matches Some(m) ==> m.0 == 0,
        forall|s: Seq<char>| #[trigger] p.parse_fn.req(s),
        forall|s: Seq<char>| #![trigger p.parse_fn.out(s)] val(s) == (match p.parse_fn.out(s) { Ok(x) => Some(x), Err(_) => None::<T> }),
    ensures text_parser(p, find, val)
{
    assert forall|src: Seq<u8>, start: int| bd(src, start) implies
        text_tr(#[trigger] regex_tr(p.pattern(), p.parse_fn, src, start), src, start, find(sfx(src, start)), val) by {
        let t = sfx(src, start);
        let tr = regex_tr(p.pattern(), p.parse_fn, src, start);
        if let Some(m) = find(t) {
            let s = chars_of(src.subrange(start, start + m.1));
            if let Err(e) = p.parse_fn.out(s) {
                let ev = ErrV { loc: start, reason: ReasonV::FromStrFailed { input: s, type_name: type_name_text::<T>(), message: fmt_text("{}"@, seq![e.fv()]) } };
                assert(tr == err1::<(T,)>(ev));
            }
        }
    }
}
spec fn bool_val(s: Seq<char>) -> Option<bool> {
    if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None }
}
@@ sig u8
    ensures int_parser(r, 10, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX)
@@ bindtail u8
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX); }
@@ sig u8_bin
    ensures int_parser(r, 2, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX)
@@ closure u8_bin 0
-> (r: std::result::Result<u8, ParseIntError>) ensures u8::parsed_radix($0@, 2, r)
@@ bindtail u8_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX); }
@@ sig u8_hex
    ensures int_parser(r, 16, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX)
@@ closure u8_hex 0
-> (r: std::result::Result<u8, ParseIntError>) ensures u8::parsed_radix($0@, 16, r)
@@ bindtail u8_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: u8| x as int, |v: int| u8::MIN <= v <= u8::MAX); }
@@ sig u16
    ensures int_parser(r, 10, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX)
@@ bindtail u16
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX); }
@@ sig u16_bin
    ensures int_parser(r, 2, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX)
@@ closure u16_bin 0
-> (r: std::result::Result<u16, ParseIntError>) ensures u16::parsed_radix($0@, 2, r)
@@ bindtail u16_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX); }
@@ sig u16_hex
    ensures int_parser(r, 16, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX)
@@ closure u16_hex 0
-> (r: std::result::Result<u16, ParseIntError>) ensures u16::parsed_radix($0@, 16, r)
@@ bindtail u16_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: u16| x as int, |v: int| u16::MIN <= v <= u16::MAX); }
@@ sig u32
    ensures int_parser(r, 10, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX)
@@ bindtail u32
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX); }
@@ sig u32_bin
    ensures int_parser(r, 2, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX)
@@ closure u32_bin 0
-> (r: std::result::Result<u32, ParseIntError>) ensures u32::parsed_radix($0@, 2, r)
@@ bindtail u32_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX); }
@@ sig u32_hex
    ensures int_parser(r, 16, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX)
@@ closure u32_hex 0
-> (r: std::result::Result<u32, ParseIntError>) ensures u32::parsed_radix($0@, 16, r)
@@ bindtail u32_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: u32| x as int, |v: int| u32::MIN <= v <= u32::MAX); }
@@ sig u64
    ensures int_parser(r, 10, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX)
@@ bindtail u64
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX); }
@@ sig u64_bin
    ensures int_parser(r, 2, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX)
@@ closure u64_bin 0
-> (r: std::result::Result<u64, ParseIntError>) ensures u64::parsed_radix($0@, 2, r)
@@ bindtail u64_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX); }
@@ sig u64_hex
    ensures int_parser(r, 16, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX)
@@ closure u64_hex 0
-> (r: std::result::Result<u64, ParseIntError>) ensures u64::parsed_radix($0@, 16, r)
@@ bindtail u64_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: u64| x as int, |v: int| u64::MIN <= v <= u64::MAX); }
@@ sig u128
    ensures int_parser(r, 10, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX)
@@ bindtail u128
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX); }
@@ sig u128_bin
    ensures int_parser(r, 2, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX)
@@ closure u128_bin 0
-> (r: std::result::Result<u128, ParseIntError>) ensures u128::parsed_radix($0@, 2, r)
@@ bindtail u128_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX); }
@@ sig u128_hex
    ensures int_parser(r, 16, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX)
@@ closure u128_hex 0
-> (r: std::result::Result<u128, ParseIntError>) ensures u128::parsed_radix($0@, 16, r)
@@ bindtail u128_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: u128| x as int, |v: int| u128::MIN <= v <= u128::MAX); }
@@ sig usize
    ensures int_parser(r, 10, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX)
@@ bindtail usize
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX); }
@@ sig usize_bin
    ensures int_parser(r, 2, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX)
@@ closure usize_bin 0
-> (r: std::result::Result<usize, ParseIntError>) ensures usize::parsed_radix($0@, 2, r)
@@ bindtail usize_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX); }
@@ sig usize_hex
    ensures int_parser(r, 16, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX)
@@ closure usize_hex 0
-> (r: std::result::Result<usize, ParseIntError>) ensures usize::parsed_radix($0@, 16, r)
@@ bindtail usize_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: usize| x as int, |v: int| usize::MIN <= v <= usize::MAX); }
@@ sig i8
    ensures int_parser(r, 10, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX)
@@ bindtail i8
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX); }
@@ sig i8_bin
    ensures int_parser(r, 2, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX)
@@ closure i8_bin 0
-> (r: std::result::Result<i8, ParseIntError>) ensures i8::parsed_radix($0@, 2, r)
@@ bindtail i8_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX); }
@@ sig i8_hex
    ensures int_parser(r, 16, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX)
@@ closure i8_hex 0
-> (r: std::result::Result<i8, ParseIntError>) ensures i8::parsed_radix($0@, 16, r)
@@ bindtail i8_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: i8| x as int, |v: int| i8::MIN <= v <= i8::MAX); }
@@ sig i16
    ensures int_parser(r, 10, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX)
@@ bindtail i16
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX); }
@@ sig i16_bin
    ensures int_parser(r, 2, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX)
@@ closure i16_bin 0
-> (r: std::result::Result<i16, ParseIntError>) ensures i16::parsed_radix($0@, 2, r)
@@ bindtail i16_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX); }
@@ sig i16_hex
    ensures int_parser(r, 16, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX)
@@ closure i16_hex 0
-> (r: std::result::Result<i16, ParseIntError>) ensures i16::parsed_radix($0@, 16, r)
@@ bindtail i16_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: i16| x as int, |v: int| i16::MIN <= v <= i16::MAX); }
@@ sig i32
    ensures int_parser(r, 10, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX)
@@ bindtail i32
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX); }
@@ sig i32_bin
    ensures int_parser(r, 2, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX)
@@ closure i32_bin 0
-> (r: std::result::Result<i32, ParseIntError>) ensures i32::parsed_radix($0@, 2, r)
@@ bindtail i32_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX); }
@@ sig i32_hex
    ensures int_parser(r, 16, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX)
@@ closure i32_hex 0
-> (r: std::result::Result<i32, ParseIntError>) ensures i32::parsed_radix($0@, 16, r)
@@ bindtail i32_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: i32| x as int, |v: int| i32::MIN <= v <= i32::MAX); }
@@ sig i64
    ensures int_parser(r, 10, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX)
@@ bindtail i64
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX); }
@@ sig i64_bin
    ensures int_parser(r, 2, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX)
@@ closure i64_bin 0
-> (r: std::result::Result<i64, ParseIntError>) ensures i64::parsed_radix($0@, 2, r)
@@ bindtail i64_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX); }
@@ sig i64_hex
    ensures int_parser(r, 16, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX)
@@ closure i64_hex 0
-> (r: std::result::Result<i64, ParseIntError>) ensures i64::parsed_radix($0@, 16, r)
@@ bindtail i64_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: i64| x as int, |v: int| i64::MIN <= v <= i64::MAX); }
@@ sig i128
    ensures int_parser(r, 10, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX)
@@ bindtail i128
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX); }
@@ sig i128_bin
    ensures int_parser(r, 2, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX)
@@ closure i128_bin 0
-> (r: std::result::Result<i128, ParseIntError>) ensures i128::parsed_radix($0@, 2, r)
@@ bindtail i128_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX); }
@@ sig i128_hex
    ensures int_parser(r, 16, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX)
@@ closure i128_hex 0
-> (r: std::result::Result<i128, ParseIntError>) ensures i128::parsed_radix($0@, 16, r)
@@ bindtail i128_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: i128| x as int, |v: int| i128::MIN <= v <= i128::MAX); }
@@ sig isize
    ensures int_parser(r, 10, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX)
@@ bindtail isize
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX); }
@@ sig isize_bin
    ensures int_parser(r, 2, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX)
@@ closure isize_bin 0
-> (r: std::result::Result<isize, ParseIntError>) ensures isize::parsed_radix($0@, 2, r)
@@ bindtail isize_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX); }
@@ sig isize_hex
    ensures int_parser(r, 16, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX)
@@ closure isize_hex 0
-> (r: std::result::Result<isize, ParseIntError>) ensures isize::parsed_radix($0@, 16, r)
@@ bindtail isize_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: isize| x as int, |v: int| isize::MIN <= v <= isize::MAX); }
@@ sig big_uint
    ensures int_parser(r, 10, false, |x: BigUint| x.val(), |v: int| true)
@@ bindtail big_uint
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, false, |x: BigUint| x.val(), |v: int| true); }
@@ sig big_uint_bin
    ensures int_parser(r, 2, false, |x: BigUint| x.val(), |v: int| true)
@@ closure big_uint_bin 0
-> (r: std::result::Result<BigUint, ParseBigIntError>) ensures BigUint::parsed_radix($0@, 2, r)
@@ bindtail big_uint_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, false, |x: BigUint| x.val(), |v: int| true); }
@@ sig big_uint_hex
    ensures int_parser(r, 16, false, |x: BigUint| x.val(), |v: int| true)
@@ closure big_uint_hex 0
-> (r: std::result::Result<BigUint, ParseBigIntError>) ensures BigUint::parsed_radix($0@, 16, r)
@@ bindtail big_uint_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, false, |x: BigUint| x.val(), |v: int| true); }
@@ sig big_int
    ensures int_parser(r, 10, true, |x: BigInt| x.val(), |v: int| true)
@@ bindtail big_int
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 10, true, |x: BigInt| x.val(), |v: int| true); }
@@ sig big_int_bin
    ensures int_parser(r, 2, true, |x: BigInt| x.val(), |v: int| true)
@@ closure big_int_bin 0
-> (r: std::result::Result<BigInt, ParseBigIntError>) ensures BigInt::parsed_radix($0@, 2, r)
@@ bindtail big_int_bin
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 2, true, |x: BigInt| x.val(), |v: int| true); }
@@ sig big_int_hex
    ensures int_parser(r, 16, true, |x: BigInt| x.val(), |v: int| true)
@@ closure big_int_hex 0
-> (r: std::result::Result<BigInt, ParseBigIntError>) ensures BigInt::parsed_radix($0@, 16, r)
@@ bindtail big_int_hex
    proof { axiom_re_literals(); lemma_int_parser(vx_r, 16, true, |x: BigInt| x.val(), |v: int| true); }
@@ sig f32
    ensures text_parser(r, |t: Seq<u8>| float_find(t), |s: Seq<char>| float_val::<f32>(s))
@@ bindtail f32
    proof { axiom_re_literals(); assert forall|t: Seq<u8>| #[trigger] re_find(vx_r.pattern(), t) == float_find(t) by { lemma_float_rx(t); } lemma_text_parser(vx_r, |t: Seq<u8>| float_find(t), |s: Seq<char>| float_val::<f32>(s)); }
@@ sig f64
    ensures text_parser(r, |t: Seq<u8>| float_find(t), |s: Seq<char>| float_val::<f64>(s))
@@ bindtail f64
    proof { axiom_re_literals(); assert forall|t: Seq<u8>| #[trigger] re_find(vx_r.pattern(), t) == float_find(t) by { lemma_float_rx(t); } lemma_text_parser(vx_r, |t: Seq<u8>| float_find(t), |s: Seq<char>| float_val::<f64>(s)); }
@@ sig bool
    ensures text_parser(r, |t: Seq<u8>| bool_find(t), |s: Seq<char>| bool_val(s))
@@ bindtail bool
    proof { axiom_re_literals(); assert forall|t: Seq<u8>| #[trigger] re_find(vx_r.pattern(), t) == bool_find(t) by { lemma_bool_rx(t); } lemma_text_parser(vx_r, |t: Seq<u8>| bool_find(t), |s: Seq<char>| bool_val(s)); }
@@ sig uint_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(uint_rx(10), t)
@@ entry uint_regex
    proof { axiom_re_literals(); }
@@ sig int_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(int_rx(10), t)
@@ entry int_regex
    proof { axiom_re_literals(); }
@@ sig bool_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(bool_rx(), t)
@@ entry bool_regex
    proof { axiom_re_literals(); }
@@ sig uint_bin_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(uint_rx(2), t)
@@ entry uint_bin_regex
    proof { axiom_re_literals(); }
@@ sig int_bin_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(int_rx(2), t)
@@ entry int_bin_regex
    proof { axiom_re_literals(); }
@@ sig uint_hex_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(uint_rx(16), t)
@@ entry uint_hex_regex
    proof { axiom_re_literals(); }
@@ sig int_hex_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(int_rx(16), t)
@@ entry int_hex_regex
    proof { axiom_re_literals(); }
@@ sig float_regex
    ensures forall|t: Seq<u8>| #[trigger] re_find(r.pat(), t) == rx_find(float_rx(), t)
@@ entry float_regex
    proof { axiom_re_literals(); }
