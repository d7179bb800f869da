@# Contracts: chars.rs exact.rs empty.rs primitive.rs regex.rs string.rs
@@ append simple-spec
/// A literal occurs at `start`.
spec fn lit_tr(src: Seq<u8>, start: int, p: Seq<u8>, expected: Seq<char>) -> Seq<Ev<()>> {
    if at(sfx(src, start), 0, p) { seq![Ev::M(start + p.len(), conv_eq(()))] }
    else { seq![Ev::E(ErrV { loc: start, reason: ReasonV::Expected(expected) })] }
}
spec fn fail1<R>(loc: int, expected: Seq<char>) -> Seq<Ev<R>> {
    seq![Ev::E(ErrV { loc, reason: ReasonV::Expected(expected) })]
}
spec fn one<R>(end: int, c: Conv<R>) -> Seq<Ev<R>> { seq![Ev::M(end, c)] }
spec fn conv_clone<T: Clone>(v: T) -> Conv<(T,)> { Conv { pre: true, post: |r: (T,)| cloned(v, r.0), n: 0 } }
spec fn conv_text(t: Seq<char>) -> Conv<(String,)> { Conv { pre: true, post: |r: (String,)| r.0@ == t, n: 0 } }
/// Index (counted in characters) of the first occurrence of `c`.
spec fn first_idx(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first_idx(s.drop_first(), c) }
}

broadcast proof fn lemma_one_step<R>(end: int, c: Conv<R>, err: Option<ErrV>)
    ensures #[trigger] step(one(end, c), err) == (St { m: Some((end, c)), rest: seq![], err })
{
    assert(one(end, c).drop_first() =~= seq![]);
}
broadcast proof fn lemma_fail_step<R>(loc: int, x: Seq<char>, err: Option<ErrV>)
    ensures #[trigger] step(fail1::<R>(loc, x), err) == (St { m: None::<(int, Conv<R>)>, rest: seq![], err: upd(err, ErrV { loc, reason: ReasonV::Expected(x) }) })
{
    assert(fail1::<R>(loc, x).drop_first() =~= seq![]);
    reveal_with_fuel(step, 2);
}
broadcast proof fn lemma_err_step<R>(e: ErrV, err: Option<ErrV>)
    ensures #[trigger] step(seq![Ev::<R>::E(e)], err) == (St { m: None::<(int, Conv<R>)>, rest: seq![], err: upd(err, e) })
{
    assert(seq![Ev::<R>::E(e)].drop_first() =~= seq![]);
    reveal_with_fuel(step, 2);
}
broadcast proof fn lemma_one_wf<R>(src: Seq<u8>, lo: int, end: int, c: Conv<R>)
    requires lo <= end, bd(src, end)
    ensures #[trigger] wf_tr(src, lo, one(end, c)), solid(one(end, c))
{
    assert(!(one(end, c)[0] is T));
}
broadcast proof fn lemma_err_wf<R>(src: Seq<u8>, lo: int, e: ErrV)
    requires lo <= e.loc, bd(src, e.loc)
    ensures #[trigger] wf_tr(src, lo, seq![Ev::<R>::E(e)]), solid(seq![Ev::<R>::E(e)])
{
    assert(!(seq![Ev::<R>::E(e)][0] is T));
}

// ---- facts about UTF-8 texts
proof fn lemma_sfx_bd(s: Seq<u8>, i: int, j: int)
    requires bd(s, i), bd(sfx(s, i), j)
    ensures bd(s, i + j)
{
    if j == s.len() - i {
        is_char_boundary_start_end_of_seq(s);
    } else {
        is_char_boundary_iff_not_is_continuation_byte(sfx(s, i), j);
        is_char_boundary_iff_not_is_continuation_byte(s, i + j);
        assert(sfx(s, i)[j] == s[i + j]);
    }
}
proof fn lemma_split(s: Seq<u8>, i: int)
    requires bd(s, i)
    ensures valid_utf8(sfx(s, i)), valid_utf8(pfx(s, i)),
{
    valid_utf8_split(s, i);
}
/// Cutting on two boundaries gives a valid text.
proof fn lemma_cut(s: Seq<u8>, i: int, j: int)
    requires bd(s, i), bd(s, j), i <= j
    ensures valid_utf8(s.subrange(i, j)), bd(s.subrange(i, j), 0), bd(s.subrange(i, j), j - i)
{
    lemma_split(s, j);
    let p = pfx(s, j);
    if i == j { is_char_boundary_start_end_of_seq(p); }
    else {
        is_char_boundary_iff_not_is_continuation_byte(s, i);
        is_char_boundary_iff_not_is_continuation_byte(p, i);
        assert(p[i] == s[i]);
    }
    lemma_split(p, i);
    assert(sfx(p, i) =~= s.subrange(i, j));
    is_char_boundary_start_end_of_seq(s.subrange(i, j));
}
/// A boundary of a slice is a boundary of the whole.
proof fn lemma_cut_bd(s: Seq<u8>, i: int, j: int, k: int)
    requires bd(s, i), bd(s, j), i <= j, bd(s.subrange(i, j), k)
    ensures bd(s, i + k)
{
    let t = s.subrange(i, j);
    if k == j - i {} else {
        is_char_boundary_iff_not_is_continuation_byte(t, k);
        is_char_boundary_iff_not_is_continuation_byte(s, i + k);
        assert(t[k] == s[i + k]);
    }
}
/// A boundary of the whole text inside a cut is a boundary of the cut.
proof fn lemma_bd_cut(s: Seq<u8>, i: int, j: int, k: int)
    requires bd(s, i), bd(s, j), bd(s, i + k), i <= i + k <= j
    ensures bd(s.subrange(i, j), k)
{
    let t = s.subrange(i, j);
    lemma_cut(s, i, j);
    if k == j - i {} else {
        is_char_boundary_iff_not_is_continuation_byte(t, k);
        is_char_boundary_iff_not_is_continuation_byte(s, i + k);
        assert(t[k] == s[i + k]);
    }
}
/// After a prefix that is itself a valid text comes a boundary.
proof fn lemma_prefix_bd(s: Seq<u8>, p: Seq<u8>)
    requires valid_utf8(s), valid_utf8(p), at(s, 0, p)
    ensures bd(s, p.len() as int)
{
    lemma_prefix_boundary(s, p.len() as int);
}
proof fn lemma_prefix_boundary(s: Seq<u8>, n: int)
    requires valid_utf8(s), 0 <= n <= s.len(), valid_utf8(s.subrange(0, n))
    ensures is_char_boundary(s, n)
    decreases s.len()
{
    if n == 0 || n == s.len() { is_char_boundary_start_end_of_seq(s); }
    else {
        // both start with the same scalar
        let p = s.subrange(0, n);
        let k = length_of_first_scalar(s) as int;
        assert(p[0] == s[0]);
        assert(pop_first_scalar(s) =~= s.subrange(k, s.len() as int));
        assert(length_of_first_scalar(p) == k);
        assert(pop_first_scalar(p) =~= pop_first_scalar(s).subrange(0, n - k));
        lemma_prefix_boundary(pop_first_scalar(s), n - k);
    }
}
/// The first character of a text and what it occupies.
proof fn lemma_first_char(s: Seq<u8>)
    requires valid_utf8(s), chars_of(s).len() > 0
    ensures at(s, 0, char_bytes(chars_of(s)[0])), bd(s, char_bytes(chars_of(s)[0]).len() as int), char_bytes(chars_of(s)[0]).len() > 0
{
    let c = chars_of(s)[0];
    let rest = chars_of(s).drop_first();
    decode_utf8_encode_utf8(s);
    encode_utf8_concat(seq![c], rest);
    assert(seq![c] + rest =~= chars_of(s));
    assert(s =~= char_bytes(c) + encode_utf8(rest));
    assert(s.subrange(0, char_bytes(c).len() as int) =~= char_bytes(c));
    encode_utf8_valid_utf8(seq![c]);
    lemma_prefix_bd(s, char_bytes(c));
    encode_utf8_decode_utf8(seq![c]);
    if char_bytes(c).len() == 0 { assert(char_bytes(c) =~= seq![]); encode_utf8_decode_utf8(seq![]); assert(encode_utf8(seq![]) =~= seq![]); }
}
proof fn lemma_char_len(c: char)
    ensures char_bytes(c).len() == encode_scalar(c as u32).len(), valid_utf8(char_bytes(c)), char_bytes(c) == encode_scalar(c as u32)
{
    encode_utf8_valid_utf8(seq![c]);
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= seq![]);
    assert(char_bytes(c) =~= encode_scalar(c as u32));
}

@# ------------------------------------------------------------------- chars.rs
@@ append chars-spec
pub uninterp spec fn is_alphabetic_spec(c: char) -> bool;
pub uninterp spec fn is_alphanumeric_spec(c: char) -> bool;
pub uninterp spec fn is_uppercase_spec(c: char) -> bool;
pub uninterp spec fn is_lowercase_spec(c: char) -> bool;
pub assume_specification[ char::is_alphabetic ](c: char) -> (b: bool) ensures b == is_alphabetic_spec(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (b: bool) ensures b == is_alphanumeric_spec(c);
pub assume_specification[ char::is_uppercase ](c: char) -> (b: bool) ensures b == is_uppercase_spec(c);
pub assume_specification[ char::is_lowercase ](c: char) -> (b: bool) ensures b == is_lowercase_spec(c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (b: bool) ensures b == ('0' <= *c && *c <= '9');
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (b: bool)
    requires 2 <= radix <= 36 ensures b == (dval(c) < radix);
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36 ensures r == (if dval(c) < radix { Some(dval(c) as u32) } else { None::<u32> });
spec fn class_tr(src: Seq<u8>, start: int, p: VxFn1<char, bool>, noun: Seq<char>) -> Seq<Ev<(char,)>> {
    let t = chars_of(sfx(src, start));
    if t.len() > 0 && p.out(t[0]) { one(start + char_bytes(t[0]).len(), conv_eq((t[0],))) } else { fail1(start, noun) }
}
/// A parser accepting exactly the characters of a class, called `noun` in errors.
spec fn is_class(p: CharParser, noun: Seq<char>, class: spec_fn(char) -> bool) -> bool {
    p.noun@ == noun && forall|c: char| p.predicate.req(c) && #[trigger] p.predicate.out(c) == class(c)
}
@@ in Parser for CharParser
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { forall|c: char| #[trigger] self.predicate.req(c) }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(char,)>> { class_tr(src, start, self.predicate, self.noun@) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        lemma_split(src, start);
        let t = chars_of(sfx(src, start));
        if t.len() > 0 { lemma_first_char(sfx(src, start)); lemma_sfx_bd(src, start, char_bytes(t[0]).len() as int);
            lemma_one_wf(src, start, start + char_bytes(t[0]).len(), conv_eq((t[0],))); }
        lemma_err_wf::<(char,)>(src, start, ErrV { loc: start, reason: ReasonV::Expected(self.noun@) });
    }
@@ entry Parser for CharParser::parse_iter
        broadcast use lemma_one_step, lemma_fail_step;
        proof {
            let src = context.src();
            lemma_split(src, start as int); decode_utf8_encode_utf8(sfx(src, start as int));
            let t = chars_of(sfx(src, start as int));
            if t.len() > 0 { lemma_first_char(sfx(src, start as int)); lemma_sfx_bd(src, start as int, char_bytes(t[0]).len() as int); lemma_char_len(t[0]); }
            assert forall|s: &str| #[trigger] s.spec_bytes() == sfx(src, start as int) implies s@ == t by { lemma_str(s); }
        }
@@ in ParseIter for CharParseIter
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool { lo <= self.end && bd(src, self.end as int) }
    spec fn cur(&self) -> (int, Conv<(char,)>) { (self.end as int, conv_eq((self.c,))) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(char,)>> { seq![] }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}
@@ in Parser for CharOfParser
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { true }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(usize,)>> {
        let t = chars_of(sfx(src, start));
        if t.len() > 0 && self.options@.contains(t[0]) { one(start + char_bytes(t[0]).len(), conv_clone(first_idx(self.options@, t[0]) as usize)) }
        else { fail1(start, fmt_text("one of {:?}"@, seq![FmtV::Str(self.options@)])) }
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        lemma_split(src, start);
        let t = chars_of(sfx(src, start));
        if t.len() > 0 { lemma_first_char(sfx(src, start)); lemma_sfx_bd(src, start, char_bytes(t[0]).len() as int);
            lemma_one_wf(src, start, start + char_bytes(t[0]).len(), conv_clone(first_idx(self.options@, t[0]) as usize)); }
        lemma_err_wf::<(usize,)>(src, start, ErrV { loc: start, reason: ReasonV::Expected(fmt_text("one of {:?}"@, seq![FmtV::Str(self.options@)])) });
    }
@@ entry Parser for CharOfParser::parse_iter
        broadcast use lemma_one_step, lemma_fail_step;
        proof {
            let src = context.src();
            lemma_split(src, start as int); decode_utf8_encode_utf8(sfx(src, start as int));
            let t = chars_of(sfx(src, start as int));
            if t.len() > 0 { lemma_first_char(sfx(src, start as int)); lemma_sfx_bd(src, start as int, char_bytes(t[0]).len() as int); lemma_char_len(t[0]); }
            assert forall|s: &str| #[trigger] s.spec_bytes() == sfx(src, start as int) implies s@ == t by { lemma_str(s); }
        }

@@ append charof-lemma
proof fn lemma_first_idx(s: Seq<char>, c: char, i: int)
    requires 0 <= i < s.len(), s[i] == c, forall|j: int| 0 <= j < i ==> s[j] != c
    ensures first_idx(s, c) == i
    decreases i
{
    if i > 0 { assert forall|j: int| 0 <= j < i - 1 implies s.drop_first()[j] != c by { assert(s.drop_first()[j] == s[j + 1]); }
        assert(s[0] != c); assert(s.drop_first()[i - 1] == s[i]);
        lemma_first_idx(s.drop_first(), c, i - 1); }
}
@@ loop Parser for CharOfParser::parse_iter 0
                invariant
                    *context == *old(context), context.wf(), vx_i <= self.options@.len(),
                    vstd::std_specs::iter::IteratorSpec::remaining(&vx_it) == self.options@.skip(vx_i as int),
                    forall|j: int| 0 <= j < vx_i ==> self.options@[j] != c,
                    c == chars_of(sfx(context.src(), start as int))[0], chars_of(sfx(context.src(), start as int)).len() > 0,
                    bd(context.src(), start + char_bytes(c).len()), char_bytes(c) == encode_scalar(c as u32),
                ensures !self.options@.contains(c)
                decreases self.options@.len() - vx_i
@@ loopbody Parser for CharOfParser::parse_iter 0
                let ghost vx_r0 = vstd::std_specs::iter::IteratorSpec::remaining(&vx_it);
                let ghost vx_n0 = vx_i as int;
                proof {
                    if vx_n0 < self.options@.len() && self.options@[vx_n0] == c {
                        lemma_first_idx(self.options@, c, vx_n0); assert(self.options@.contains(c));
                        assert(self.trace(context.src(), start as int) == one(start + char_bytes(c).len(), conv_clone(vx_n0 as usize)));
                        lemma_one_step(start + char_bytes(c).len(), conv_clone(vx_n0 as usize), context.err());
                        assert(vx_n0 as usize == vx_i);
                    }
                    if vx_n0 < self.options@.len() { assert(vx_r0[0] == self.options@[vx_n0]); assert(vx_r0.drop_first() =~= self.options@.skip(vx_n0 + 1));
                        if self.options@[vx_n0] == c { lemma_first_idx(self.options@, c, vx_n0); assert(self.options@.contains(c)); } }
                    else { assert(vx_r0.len() == 0); assert(!self.options@.contains(c)) by { if self.options@.contains(c) { let j = choose|j: int| 0 <= j < self.options@.len() && self.options@[j] == c; } } }
                }
@@ sig alpha
    ensures is_class(r, "letter"@, |c: char| is_alphabetic_spec(c))
@@ sig alnum
    ensures is_class(r, "letter or digit"@, |c: char| is_alphanumeric_spec(c))
@@ sig upper
    ensures is_class(r, "uppercase letter"@, |c: char| is_uppercase_spec(c))
@@ sig lower
    ensures is_class(r, "lowercase letter"@, |c: char| is_lowercase_spec(c))
@@ sig any_char
    ensures is_class(r, "any character"@, |c: char| true)
@@ closureparams any_char 0
char
@@ closure any_char 0
-> (b: bool) ensures b == true
@@ append digits-spec
spec fn is_digit_parser(p: MapParser<CharParser, VxFn1<char, usize>>, noun: Seq<char>, radix: int) -> bool {
    is_class(p.inner, noun, |c: char| dval(c) < radix)
    && forall|c: char| dval(c) < radix ==> p.mapper.req(c) && #[trigger] p.mapper.out(c) == dval(c)
}
@@ sig digit
    ensures is_digit_parser(r, "decimal digit"@, 10)
@@ sig digit_bin
    ensures is_digit_parser(r, "binary digit"@, 2)
@@ sig digit_hex
    ensures is_digit_parser(r, "hexadecimal digit"@, 16)
@@ closureparams digit 0
char
@@ closure digit 0
-> (b: bool) ensures b == (dval($0) < 10)
@@ closureparams digit 1
char
@@ closure digit 1
-> (b: usize) requires dval($0) < 10 ensures b == dval($0)
@@ closureparams digit_bin 0
char
@@ closure digit_bin 0
-> (b: bool) ensures b == (dval($0) < 2)
@@ closureparams digit_bin 1
char
@@ closure digit_bin 1
-> (b: usize) requires dval($0) < 2 ensures b == dval($0)
@@ closureparams digit_hex 0
char
@@ closure digit_hex 0
-> (b: bool) ensures b == (dval($0) < 16)
@@ closureparams digit_hex 1
char
@@ closure digit_hex 1
-> (b: usize) requires dval($0) < 16 ensures b == dval($0)
@@ sig char_of
    ensures r.options == options

@# ------------------------------------------------------------------- empty.rs
@@ in Parser for EmptyParser
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { true }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<()>> { one(start, conv_eq(())) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) { lemma_one_wf(src, start, start, conv_eq(())); }
@@ entry Parser for EmptyParser::parse_iter
        broadcast use lemma_one_step;
@@ in ParseIter for EmptyParseIter
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool { lo <= self.location && bd(src, self.location as int) }
    spec fn cur(&self) -> (int, Conv<()>) { (self.location as int, conv_eq(())) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<()>> { seq![] }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}
@@ sig empty
    ensures r == EmptyParser

@# ------------------------------------------------------------------- exact.rs
@@ in Parser for str
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { true }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<()>> {
        if at(src, start, self.spec_bytes()) { one(start + self.spec_bytes().len(), conv_eq(())) }
        else { fail1(start, fmt_text("{:?}"@, seq![FmtV::Str(self@)])) }
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        lemma_split(src, start); lemma_str(self);
        if at(src, start, self.spec_bytes()) {
            assert(sfx(src, start).subrange(0, self.spec_bytes().len() as int) =~= src.subrange(start, start + self.spec_bytes().len()));
            lemma_prefix_bd(sfx(src, start), self.spec_bytes());
            lemma_sfx_bd(src, start, self.spec_bytes().len() as int);
            lemma_one_wf(src, start, start + self.spec_bytes().len(), conv_eq(()));
        }
        lemma_err_wf::<()>(src, start, ErrV { loc: start, reason: ReasonV::Expected(fmt_text("{:?}"@, seq![FmtV::Str(self@)])) });
    }
@@ entry Parser for str::parse_iter
        broadcast use lemma_one_step, lemma_fail_step;
        proof {
            self.lemma_trace(context.src(), start as int); lemma_str(self);
            let src = context.src();
            if start + self.spec_bytes().len() <= src.len() {
                assert(sfx(src, start as int).subrange(0, self.spec_bytes().len() as int) =~= src.subrange(start as int, start + self.spec_bytes().len()));
            }
            if at(src, start as int, self.spec_bytes()) { assert(wf_ev(src, start as int, self.trace(src, start as int)[0])); }
        }
@@ in Parser for char
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { true }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<()>> {
        if at(src, start, char_bytes(*self)) { one(start + char_bytes(*self).len(), conv_eq(())) }
        else { fail1(start, fmt_text("{:?}"@, seq![FmtV::Char(*self)])) }
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        lemma_split(src, start); lemma_char_len(*self);
        if at(src, start, char_bytes(*self)) {
            assert(sfx(src, start).subrange(0, char_bytes(*self).len() as int) =~= src.subrange(start, start + char_bytes(*self).len()));
            lemma_prefix_bd(sfx(src, start), char_bytes(*self));
            lemma_sfx_bd(src, start, char_bytes(*self).len() as int);
            lemma_one_wf(src, start, start + char_bytes(*self).len(), conv_eq(()));
        }
        lemma_err_wf::<()>(src, start, ErrV { loc: start, reason: ReasonV::Expected(fmt_text("{:?}"@, seq![FmtV::Char(*self)])) });
    }
@@ entry Parser for char::parse_iter
        broadcast use lemma_one_step, lemma_fail_step;
        proof {
            self.lemma_trace(context.src(), start as int); lemma_char_len(*self);
            let src = context.src();
            if start + char_bytes(*self).len() <= src.len() {
                assert(sfx(src, start as int).subrange(0, char_bytes(*self).len() as int) =~= src.subrange(start as int, start + char_bytes(*self).len()));
            }
            if at(src, start as int, char_bytes(*self)) { assert(wf_ev(src, start as int, self.trace(src, start as int)[0])); }
        }
@@ in ParseIter for ExactParseIter
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool { lo <= self.end && bd(src, self.end as int) }
    spec fn cur(&self) -> (int, Conv<()>) { (self.end as int, conv_eq(())) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<()>> { seq![] }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}

@# --------------------------------------------------------------- primitive.rs
@@ in ParseIter for BasicParseIter
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool { lo <= self.end && bd(src, self.end as int) }
    spec fn cur(&self) -> (int, Conv<(T,)>) { (self.end as int, conv_clone(self.value)) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(T,)>> { seq![] }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}

@# ------------------------------------------------------------------ string.rs
@@ append string-spec
spec fn text_f<R>(src: Seq<u8>, start: int) -> spec_fn(int, Conv<R>) -> Conv<(String,)> {
    |p: int, c: Conv<R>| conv_text(chars_of(src.subrange(start, p)))
}
@@ sig string
    ensures r.parser == parser
@@ in Parser for StringParser
    spec fn needs(&self) -> Set<usize> { self.parser.needs() }
    spec fn pwf(&self) -> bool { self.parser.pwf() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(String,)>> {
        map_tr(self.parser.trace(src, start), text_f::<P::RawOutput>(src, start))
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        self.parser.lemma_trace(src, start);
        lemma_map_wf(src, start, self.parser.trace(src, start), text_f::<P::RawOutput>(src, start));
    }
@@ entry Parser for StringParser::parse_iter
        proof { lemma_step_map(self.parser.trace(context.src(), start as int), text_f::<P::RawOutput>(context.src(), start as int), context.err()); }
@@ in ParseIter for StringParseIter
    spec fn needs(&self) -> Set<usize> { self.iter.needs() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        self.source.spec_bytes() == src && self.iter.inv(src, self.start as int) && lo <= self.start && bd(src, self.start as int)
    }
    spec fn cur(&self) -> (int, Conv<(String,)>) {
        (self.iter.cur().0, text_f::<P::RawOutput>(self.source.spec_bytes(), self.start as int)(self.iter.cur().0, self.iter.cur().1))
    }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(String,)>> {
        map_tr(self.iter.later(src), text_f::<P::RawOutput>(src, self.start as int))
    }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {
        self.iter.lemma_inv(src, self.start as int);
        lemma_map_wf(src, self.start as int, self.iter.later(src), text_f::<P::RawOutput>(src, self.start as int));
        lemma_wf_lo(src, self.start as int, lo, self.later(src));
    }
@@ entry ParseIter for StringParseIter::match_end
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.iter.inv(s, self.start as int)); }
@@ entry ParseIter for StringParseIter::convert
        proof {
            let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.iter.inv(s, self.start as int));
            self.iter.lemma_inv(s, self.start as int);
            assert forall|t: &str| #[trigger] t.spec_bytes() == self.source.spec_bytes().subrange(self.start as int, self.iter.cur().0)
                implies t@ == chars_of(t.spec_bytes()) by { lemma_str(t); }
        }
@@ entry ParseIter for StringParseIter::backtrack
        proof {
            let l = choose|l: int| #[trigger] self.inv(context.src(), l); assert(self.iter.inv(context.src(), self.start as int));
            lemma_step_map(self.iter.later(context.src()), text_f::<P::RawOutput>(context.src(), self.start as int), context.err());
        }

@# ------------------------------------------------------------------- regex.rs
@@ append regex-spec
impl<T, E> RegexParser<T, E> {
    spec fn pattern(&self) -> Seq<char> { self.regex.out().pat() }
    /// The regex can only match at the very start of the text it is given.
    spec fn anchored(&self) -> bool {
        forall|t: Seq<u8>| (#[trigger] re_find(self.pattern(), t)) matches Some(m) ==> m.0 == 0
    }
}
axiom fn axiom_re_bounds(pat: Seq<char>, t: Seq<u8>)
    requires valid_utf8(t)
    ensures re_find(pat, t) matches Some(m) ==> 0 <= m.0 <= m.1 && bd(t, m.0) && bd(t, m.1);
spec fn regex_tr<T: Clone, E: Display>(pat: Seq<char>, f: VxFnStr<std::result::Result<T, E>>, src: Seq<u8>, start: int) -> Seq<Ev<(T,)>> {
    match re_find(pat, sfx(src, start)) {
        None => fail1(start, type_name_text::<T>()),
        Some(m) => match f.out(chars_of(src.subrange(start, start + m.1))) {
            Ok(v) => one(start + m.1, conv_clone(v)),
            Err(e) => seq![Ev::E(ErrV { loc: start, reason: ReasonV::FromStrFailed {
                input: chars_of(src.subrange(start, start + m.1)), type_name: type_name_text::<T>(), message: fmt_text("{}"@, seq![e.fv()]) } })],
        },
    }
}
@@ in Parser for RegexParser
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn pwf(&self) -> bool { self.regex.req() && self.anchored() && forall|s: Seq<char>| #[trigger] self.parse_fn.req(s) }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(T,)>> { regex_tr(self.pattern(), self.parse_fn, src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        broadcast use lemma_one_wf, lemma_err_wf;
        lemma_split(src, start);
        axiom_re_bounds(self.pattern(), sfx(src, start));
        if let Some(m) = re_find(self.pattern(), sfx(src, start)) { lemma_sfx_bd(src, start, m.1); }
        assert(wf_tr(src, start, fail1::<(T,)>(start, type_name_text::<T>())));
        assert(solid(fail1::<(T,)>(start, type_name_text::<T>())));
        let tr = self.trace(src, start);
        assert(tr == regex_tr(self.pattern(), self.parse_fn, src, start));
        assert(tr.len() >= 1 && !(tr[0] is T));
        assert(solid(tr));
        assert(tr.len() == 1);
    }
@@ entry Parser for RegexParser::parse_iter
        broadcast use lemma_one_step, lemma_fail_step, lemma_err_step;
        proof {
            let src = context.src();
            lemma_split(src, start as int);
            axiom_re_bounds(self.pattern(), sfx(src, start as int));
            if let Some(m) = re_find(self.pattern(), sfx(src, start as int)) {
                lemma_sfx_bd(src, start as int, m.1);
                assert(sfx(src, start as int).subrange(0, m.1) =~= src.subrange(start as int, start + m.1));
                assert forall|t: &str| #[trigger] t.spec_bytes() == src.subrange(start as int, start + m.1)
                    implies t@ == chars_of(t.spec_bytes()) by { lemma_str(t); }
            }
        }
@@ sig Clone for RegexParser::clone
        ensures r == *self
