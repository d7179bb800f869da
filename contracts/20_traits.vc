@# Contracts: traits.rs, types.rs, error.rs, context.rs
@@ append core-traits

impl ParseErrorReason {
    spec fn rv(&self) -> ReasonV {
        match *self {
            ParseErrorReason::Extra => ReasonV::Extra,
            ParseErrorReason::NotAtLineStart => ReasonV::NotAtLineStart,
            ParseErrorReason::NotAtSectionStart => ReasonV::NotAtSectionStart,
            ParseErrorReason::LineExtra => ReasonV::LineExtra,
            ParseErrorReason::SectionExtra => ReasonV::SectionExtra,
            ParseErrorReason::Expected(s) => ReasonV::Expected(s@),
            ParseErrorReason::FromStrFailed { input, type_name, message } =>
                ReasonV::FromStrFailed { input: input@, type_name: type_name@, message: message@ },
        }
    }
}
/// What each kind of error says (proved of its `fmt`).
spec fn reason_text(r: ReasonV) -> Seq<char> {
    match r {
        ReasonV::Extra => fmt_text("extra unparsed text after match"@, seq![]),
        ReasonV::NotAtLineStart => fmt_text("line() can't match here because this is not at the start of a line"@, seq![]),
        ReasonV::NotAtSectionStart => fmt_text("section() can't match here because this is not at the start of a section"@, seq![]),
        ReasonV::LineExtra => fmt_text("line(pattern) matched part of the line, but not all of it"@, seq![]),
        ReasonV::SectionExtra => fmt_text("section(pattern) matched part of the section, but not all of it"@, seq![]),
        ReasonV::Expected(what) => fmt_text("expected {}"@, seq![FmtV::Str(what)]),
        ReasonV::FromStrFailed { input, type_name, message } =>
            fmt_text("failed to parse {:?} as type {}: {}"@, seq![FmtV::Str(input), FmtV::Str(type_name), FmtV::Str(message)]),
    }
}
impl Display for ParseErrorReason {
    spec fn fv(&self) -> FmtV { FmtV::Str(reason_text(self.rv())) }
    #[verifier::external_body] fn vx_show(&self, debug: bool) -> String { let mut f = VxFormatter { x: String::new() }; let _ = self.fmt(&mut f); f.x }
}

impl ParseError {
    spec fn ev(&self) -> ErrV { ErrV { loc: self.location as int, reason: self.reason.rv() } }
    /// The location lies in the text the error carries, on a char boundary.
    spec fn wf(&self) -> bool { bd(encode_utf8(self.source@), self.location as int) }
    spec fn line_start(&self) -> int { last_nl(pfx(encode_utf8(self.source@), self.location as int)) }
    /// What the rendered error must say.
    spec fn shown(&self) -> Seq<char> {
        let b = encode_utf8(self.source@);
        if self.location == b.len() {
            fmt_text("{} at end of input"@, seq![FmtV::Str(reason_text(self.reason.rv()))])
        } else {
            fmt_text("{} at line {} column {}"@, seq![
                FmtV::Str(reason_text(self.reason.rv())),
                FmtV::Int(1 + count_byte(pfx(b, self.location as int), 10u8) as int),
                FmtV::Int(1 + chars_of(b.subrange(self.line_start(), self.location as int)).len() as int),
            ])
        }
    }
}
/// Offset just after the last newline of `s` (0 if none).
spec fn last_nl(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s.last() == 10u8 { s.len() as int } else { last_nl(s.drop_last()) }
}

/// The parsers of the rule set with this id (its address), during one parse.
uninterp spec fn rule_def(id: usize) -> Seq<VxAny>;
impl<'parse> ParseContext<'parse> {
    spec fn src(&self) -> Seq<u8> { self.source.spec_bytes() }
    spec fn err(&self) -> Option<ErrV> {
        match self.foremost_error { None => None, Some(e) => Some(e.ev()) }
    }
    /// The rule sets entered so far.
    spec fn rules(&self) -> Set<usize> { self.rule_sets@.dom() }
    /// Representation invariant: the recorded error is about this very text, and
    /// the entered rule sets are the ones their ids stand for.
    spec fn wf(&self) -> bool {
        &&& (match self.foremost_error { None => true, Some(e) => e.source@ == self.source@ && bd(self.src(), e.location as int) })
        &&& forall|id: usize| #[trigger] self.rule_sets@.contains_key(id) ==> (*self.rule_sets@[id])@ == rule_def(id)
    }
}

@@ in trait ParserOutput
    spec fn user(self) -> Self::UserType;
@@ sig trait ParserOutput::into_user_type
        ensures r == self.user()
@@ in trait RawOutputConcat
    spec fn cat(self, tail: Tail) -> Self::Output;
@@ sig trait RawOutputConcat::concat
        ensures r == self.cat(tail)

@@ in trait Parser
    /// Representation invariant of the parser value.
    spec fn pwf(&self) -> bool;
    /// Rule sets that must have been entered before this parser can run.
    spec fn needs(&self) -> Set<usize>;
    /// Everything that happens when this parser runs at byte `start` of `src`.
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<Self::RawOutput>>;
    proof fn lemma_trace(&self, src: Seq<u8>, start: int)
        requires self.pwf(), bd(src, start)
        ensures wf_tr(src, start, self.trace(src, start)), solid(self.trace(src, start));
@@ sig trait Parser::parse_iter
        requires
            self.pwf(), old(context).wf(), bd(old(context).src(), start as int),
            self.needs().subset_of(old(context).rules()),
        ensures
            final(context).wf(),
            final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            match r {
                Ok(it) => it.inv(final(context).src(), start as int)
                    && it.needs().subset_of(final(context).rules())
                    && steps_to(self.trace(final(context).src(), start as int), old(context).err(), it.cur(), it.later(final(context).src()), final(context).err()),
                Err(_) => step(self.trace(final(context).src(), start as int), old(context).err()).m is None
                    && step(self.trace(final(context).src(), start as int), old(context).err()).err == final(context).err(),
            }
@@ attr trait Parser::parse_raw
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@@ sig trait Parser::parse_raw
        requires
            self.pwf(), self.needs().subset_of(Set::empty()),
            forall|i: int| #[trigger] first_full(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i)
                ==> self.trace(s.spec_bytes(), 0)[i]->M_1.pre,
        ensures
            match r {
                Ok(v) => exists|i: int| #[trigger] first_full(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i)
                    && (self.trace(s.spec_bytes(), 0)[i]->M_1.post)(v),
                Err(e) => (forall|i: int| !#[trigger] full_at(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i))
                    && e.source@ == s@ && e.wf()
                    && foremost(full_tr(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra), e.ev()),
            }
@@ entry trait Parser::parse_raw
        proof {
            lemma_str(s);
            self.lemma_trace(s.spec_bytes(), 0);
            lemma_full_wf(s.spec_bytes(), 0, self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra);
            lemma_full_result(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra);
            lemma_step_full(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra, None);
            lemma_step_wf(s.spec_bytes(), 0, full_tr(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra), None);
            lemma_step_wf(s.spec_bytes(), 0, self.trace(s.spec_bytes(), 0), None);
        }
        let ghost vx_len0 = s.spec_bytes().len() as int;
        let ghost vx_goal = step(full_tr(self.trace(s.spec_bytes(), 0), vx_len0, ReasonV::Extra), None);
        // the accepted match pays for its conversions, nothing else does
        let tracked mut vx_fuel0 = vx_fuel_for(if vx_goal.m is Some { vx_goal.m->Some_0.1.n } else { 0 });
        let tracked vx_fuel = &mut vx_fuel0;
@@ loop trait Parser::parse_raw 0
            invariant
                self.pwf(), bd(s.spec_bytes(), 0),
                ctx.wf(), ctx.source == s, vx_len0 == s.spec_bytes().len(),
                it.inv(s.spec_bytes(), 0), it.needs().subset_of(ctx.rules()),
                vx_goal == step(full_tr(pend(it.cur(), it.later(s.spec_bytes())), vx_len0, ReasonV::Extra), ctx.err()),
                vx_goal == step(full_tr(self.trace(s.spec_bytes(), 0), vx_len0, ReasonV::Extra), None),
                vx_fuel.n == (if vx_goal.m is Some { vx_goal.m->Some_0.1.n } else { 0 }),
                vx_goal.m is None ==> vx_goal.err is Some,
                vx_goal.m is Some ==> exists|i: int| #[trigger] first_full(self.trace(s.spec_bytes(), 0), vx_len0, i)
                    && self.trace(s.spec_bytes(), 0)[i] == Ev::M(vx_goal.m->Some_0.0, vx_goal.m->Some_0.1),
                vx_goal.m is None ==> (forall|i: int| !#[trigger] full_at(self.trace(s.spec_bytes(), 0), vx_len0, i)),
                vx_goal.m is None && vx_goal.err is Some ==> foremost(full_tr(self.trace(s.spec_bytes(), 0), vx_len0, ReasonV::Extra), vx_goal.err->Some_0),
            ensures it.cur().0 == vx_len0
            decreases it.later(s.spec_bytes()).len()
@@ loopbody trait Parser::parse_raw 0
            proof {
                it.lemma_inv(s.spec_bytes(), 0);
                lemma_step_pend(it.cur(), it.later(s.spec_bytes()), ctx.err());
                lemma_step_full(pend(it.cur(), it.later(s.spec_bytes())), vx_len0, ReasonV::Extra, ctx.err());
                lemma_step_full(it.later(s.spec_bytes()), vx_len0, ReasonV::Extra, upd(ctx.err(), ErrV { loc: it.cur().0, reason: ReasonV::Extra }));
                lemma_step_rest(it.later(s.spec_bytes()), upd(ctx.err(), ErrV { loc: it.cur().0, reason: ReasonV::Extra }));
                if it.cur().0 == vx_len0 {
                    assert(vx_goal.m == Some(it.cur()));
                    let i = choose|i: int| #[trigger] first_full(self.trace(s.spec_bytes(), 0), vx_len0, i)
                        && self.trace(s.spec_bytes(), 0)[i] == Ev::M(vx_goal.m->Some_0.0, vx_goal.m->Some_0.1);
                    assert(full_at(self.trace(s.spec_bytes(), 0), vx_len0, i));
                }
            }
@@ bindtail trait Parser::parse_raw
        proof { assert(vx_fuel.n == 0); }
@@ sig trait Parser::parse
        requires
            self.pwf(), self.needs().subset_of(Set::empty()),
            forall|i: int| #[trigger] first_full(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i)
                ==> self.trace(s.spec_bytes(), 0)[i]->M_1.pre,
        ensures
            match r {
                Ok(v) => exists|i: int, raw: Self::RawOutput| #[trigger] first_full(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i)
                    && #[trigger] (self.trace(s.spec_bytes(), 0)[i]->M_1.post)(raw) && v == raw.user(),
                Err(e) => (forall|i: int| !#[trigger] full_at(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, i))
                    && e.source@ == s@ && e.wf()
                    && foremost(full_tr(self.trace(s.spec_bytes(), 0), s.spec_bytes().len() as int, ReasonV::Extra), e.ev()),
            }

@@ in trait ParseIter
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool;
    /// Rule sets that must have been entered before `backtrack`.
    spec fn needs(&self) -> Set<usize>;
    /// The match this iterator stands on: its end and its (deferred) conversion.
    spec fn cur(&self) -> (int, Conv<Self::RawOutput>);
    /// Everything that happens if this match is rejected.
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<Self::RawOutput>>;
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int)
        requires self.inv(src, lo)
        ensures lo <= self.cur().0, bd(src, self.cur().0), wf_tr(src, lo, self.later(src));
@@ sig trait ParseIter::match_end
        requires exists|src: Seq<u8>, lo: int| #[trigger] self.inv(src, lo)
        ensures r == self.cur().0
@@ sig trait ParseIter::backtrack
        requires
            old(context).wf(),
            exists|lo: int| #[trigger] old(self).inv(old(context).src(), lo),
            old(self).needs().subset_of(old(context).rules()),
        ensures
            final(context).wf(),
            final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            match r {
                Ok(_) => final(self).needs().subset_of(final(context).rules()) && (forall|lo: int| #[trigger] old(self).inv(final(context).src(), lo) ==> final(self).inv(final(context).src(), lo))
                    && steps_to(old(self).later(final(context).src()), old(context).err(), final(self).cur(), final(self).later(final(context).src()), final(context).err()),
                Err(_) => step(old(self).later(final(context).src()), old(context).err()).m is None
                    && step(old(self).later(final(context).src()), old(context).err()).err == final(context).err(),
            }
@@ sig trait ParseIter::convert
        requires
            exists|src: Seq<u8>, lo: int| #[trigger] self.inv(src, lo),
            self.cur().1.pre,
            old(vx_fuel).n >= self.cur().1.n,
        ensures
            (self.cur().1.post)(r),
            final(vx_fuel).n == old(vx_fuel).n - self.cur().1.n

@@ in Parser for &
    spec fn pwf(&self) -> bool { (**self).pwf() }
    spec fn needs(&self) -> Set<usize> { (**self).needs() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<Self::RawOutput>> { (**self).trace(src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) { (**self).lemma_trace(src, start); }

@@ append str-lemmas
proof fn lemma_str(s: &str)
    ensures valid_utf8(s.spec_bytes()), bd(s.spec_bytes(), 0), bd(s.spec_bytes(), s.spec_bytes().len() as int),
        s.spec_bytes() == encode_utf8(s@), s@ == decode_utf8(s.spec_bytes()),
{
    encode_utf8_valid_utf8(s@);
    is_char_boundary_start_end_of_seq(s.spec_bytes());
    encode_utf8_decode_utf8(s@);
}

@# ----------------------------------------------------------------- error.rs
@@ drop Debug for ParseError
@@ drop Error for ParseError
@@ sig impl ParseError::new
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.location == location, r.reason == reason
@@ sig impl ParseError::new_extra
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::Extra })
@@ sig impl ParseError::new_bad_line_start
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::NotAtLineStart })
@@ sig impl ParseError::new_bad_section_start
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::NotAtSectionStart })
@@ sig impl ParseError::new_line_extra
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::LineExtra })
@@ sig impl ParseError::new_section_extra
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::SectionExtra })
@@ sig impl ParseError::new_expected
        requires bd(source.spec_bytes(), location as int)
        ensures r.source@ == source@, r.ev() == (ErrV { loc: location as int, reason: ReasonV::Expected(expected@) })
@@ sig impl ParseError::new_from_str_failed
        requires bd(source.spec_bytes(), start as int), bd(source.spec_bytes(), end as int), start <= end
        ensures r.source@ == source@, r.ev() == (ErrV { loc: start as int, reason: ReasonV::FromStrFailed {
            input: chars_of(source.spec_bytes().subrange(start as int, end as int)), type_name: type_name@, message: message@ } })
@@ entry impl ParseError::new_from_str_failed
        proof { assert forall|t: &str| #[trigger] t.spec_bytes() == source.spec_bytes().subrange(start as int, end as int) implies t@ == chars_of(t.spec_bytes()) by { lemma_str(t); } }
@@ sig impl ParseError::adjust_location
        requires self.location + offset <= full_source.spec_bytes().len()
        ensures r.source@ == full_source@, r.location == self.location + offset, r.reason == self.reason
@@ sig Display for ParseErrorReason::fmt
        ensures r is Ok ==> final(f).out() == old(f).out() + reason_text(self.rv())
@@ sig Display for ParseError::fmt
        requires self.wf()
        ensures r is Ok ==> final(f).out() == old(f).out() + self.shown()

@@ attr Display for ParseError::fmt
#[verifier::rlimit(60)]
@@ entry Display for ParseError::fmt
        proof { lemma_fmt(encode_utf8(self.source@), self.location as int); }
@@ append error-lemmas
/// The facts about lines and columns `Display for ParseError` needs: `s` is the text before the location.
proof fn lemma_fmt(b: Seq<u8>, loc: int)
    requires bd(b, loc)
    ensures
        bd(b, 0), bd(b, b.len() as int), pfx(b, 0) =~= seq![], char_bytes('\n') == nl1(), nl1().len() == 1, pfx(b, loc).len() == loc,
        forall|i: int| #[trigger] at(pfx(b, loc), i, nl1()) && (forall|j: int| i < j ==> !#[trigger] at(pfx(b, loc), j, nl1())) ==>
            last_nl(pfx(b, loc)) == i + 1 && count_byte(pfx(b, i + 1), 10u8) == count_byte(pfx(b, loc), 10u8),
        (forall|j: int| !#[trigger] at(pfx(b, loc), j, nl1())) ==> last_nl(pfx(b, loc)) == 0 && count_byte(pfx(b, loc), 10u8) == 0,
        forall|k: int| #[trigger] bd(pfx(b, loc), k) ==> bd(b, k),
        forall|k: int| #[trigger] bd(b, k) && k <= loc ==> bd(pfx(b, loc), k),
        forall|k: int| 0 <= k <= loc ==> #[trigger] sfx(pfx(b, loc), k) == b.subrange(k, loc),
{
    let s = pfx(b, loc);
    lemma_nl_utf8();
    is_char_boundary_start_end_of_seq(b);
    assert(s == b.subrange(0, loc));
    assert forall|i: int| #[trigger] at(s, i, nl1()) == (0 <= i < s.len() && s[i] == 10u8) by {
        if 0 <= i < s.len() { assert(s.subrange(i, i + 1)[0] == s[i]); if s[i] == 10u8 { assert(s.subrange(i, i + 1) =~= nl1()); } }
    }
    assert forall|i: int| #[trigger] at(s, i, nl1()) && (forall|j: int| i < j ==> !#[trigger] at(s, j, nl1())) implies
        last_nl(s) == i + 1 && count_byte(pfx(b, i + 1), 10u8) == count_byte(s, 10u8) by {
        assert forall|j: int| i < j < s.len() implies s[j] != 10u8 by { assert(!at(s, j, nl1())); }
        lemma_last_nl(s, i);
        assert(pfx(b, i + 1) =~= s.subrange(0, i + 1));
    }
    if forall|j: int| !#[trigger] at(s, j, nl1()) {
        assert forall|j: int| 0 <= j < s.len() implies s[j] != 10u8 by { assert(!at(s, j, nl1())); }
        lemma_no_nl(s);
    }
    assert forall|k: int| #[trigger] bd(s, k) implies bd(b, k) by { lemma_cut_bd(b, 0, loc, k); }
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] sfx(s, k) == b.subrange(k, loc) by { assert(sfx(s, k) =~= b.subrange(k, loc)); }
    assert forall|k: int| #[trigger] bd(b, k) && k <= s.len() implies bd(s, k) by { lemma_bd_cut(b, 0, loc, k); }
}
proof fn lemma_last_nl(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), s[i] == 10u8, forall|j: int| i < j < s.len() ==> s[j] != 10u8
    ensures last_nl(s) == i + 1, count_byte(s.subrange(0, i + 1), 10u8) == count_byte(s, 10u8)
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.subrange(0, i + 1) =~= s); }
    else { lemma_last_nl(s.drop_last(), i); assert(s.drop_last().subrange(0, i + 1) =~= s.subrange(0, i + 1)); }
}
proof fn lemma_no_nl(s: Seq<u8>)
    requires forall|j: int| 0 <= j < s.len() ==> s[j] != 10u8
    ensures last_nl(s) == 0, count_byte(s, 10u8) == 0
    decreases s.len()
{
    if s.len() > 0 { lemma_no_nl(s.drop_last()); }
}
@# --------------------------------------------------------------- context.rs
@@ sig impl ParseContext::new
        ensures r.source == source, r.err() is None, r.wf(), r.rules() == Set::<usize>::empty()
@@ sig impl ParseContext::source
        ensures r == self.source
@@ sig impl ParseContext::into_reported_error
        requires self.err() is Some
        ensures self.foremost_error == Some(r)
@@ sig impl ParseContext::report
        requires old(self).wf(), err.source@ == old(self).source@, bd(old(self).src(), err.location as int)
        ensures final(self).wf(), final(self).source == old(self).source, final(self).rules() == old(self).rules(),
            final(self).err() == upd(old(self).err(), err.ev())
@@ sig impl ParseContext::error_expected
        requires old(self).wf(), bd(old(self).src(), start as int)
        ensures final(self).wf(), final(self).source == old(self).source, final(self).rules() == old(self).rules(),
            final(self).err() == upd(old(self).err(), ErrV { loc: start as int, reason: ReasonV::Expected(expected@) })
@@ sig impl ParseContext::error_from_str_failed
        requires old(self).wf(), bd(old(self).src(), start as int), bd(old(self).src(), end as int), start <= end
        ensures final(self).wf(), final(self).source == old(self).source, final(self).rules() == old(self).rules(),
            final(self).err() == upd(old(self).err(), ErrV { loc: start as int, reason: ReasonV::FromStrFailed {
                input: chars_of(old(self).src().subrange(start as int, end as int)), type_name: type_name@, message: message@ } })
@@ sig impl ParseContext::error_extra
        requires old(self).wf(), bd(old(self).src(), location as int)
        ensures final(self).wf(), final(self).source == old(self).source, final(self).rules() == old(self).rules(),
            final(self).err() == upd(old(self).err(), ErrV { loc: location as int, reason: ReasonV::Extra })
@@ sig impl ParseContext::with_slice
        requires
            old(self).wf(), bd(old(self).src(), start as int), bd(old(self).src(), end as int), start <= end,
            forall|c: &mut Self| #![trigger f.requires((c,))]
                c.wf() && c.err() is None && c.src() == old(self).src().subrange(start as int, end as int) && c.rules() == old(self).rules() ==> f.requires((c,)),
            forall|c: &mut Self, q: Result<T, Reported>| #![trigger f.ensures((c,), q)]
                c.wf() && c.err() is None && c.src() == old(self).src().subrange(start as int, end as int) && c.rules() == old(self).rules() && f.ensures((c,), q)
                    ==> final(c).wf() && final(c).source == c.source && (q is Err ==> final(c).err() is Some),
        ensures
            final(self).wf(), final(self).source == old(self).source,
            exists|c: &mut Self| #![trigger f.ensures((c,), r)]
                c.wf() && c.err() is None && c.src() == old(self).src().subrange(start as int, end as int) && c.rules() == old(self).rules() && f.ensures((c,), r)
                && final(self).rules() == final(c).rules()
                && final(self).err() == (if r is Err { upd(old(self).err(),
                    ErrV { loc: final(c).err()->Some_0.loc + start, reason: final(c).err()->Some_0.reason }) } else { old(self).err() }),
@@ entry impl ParseContext::with_slice
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        proof {
            let src = self.src();
            lemma_cut(src, start as int, end as int);
            assert forall|k: int| #[trigger] bd(src.subrange(start as int, end as int), k) implies bd(src, start + k) by { lemma_cut_bd(src, start as int, end as int, k); }
            lemma_str(self.source);
            assert forall|c: &mut Self, q: Result<T, Reported>| #[trigger] f.ensures((c,), q) && q is Err implies f.ensures((c,), Err(Reported)) by { assert(q->Err_0 == Reported); }
        }
@@ bindtail impl ParseContext::with_slice
        proof { assert(vx_r is Err ==> vx_r->Err_0 == Reported); }
@@ entry impl ParseContext::new
        broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ sig impl ParseContext::register_rule_set
        requires old(self).wf(), rule_parsers@ == rule_def(rule_set_id)
        ensures final(self).wf(), final(self).source == old(self).source, final(self).err() == old(self).err(),
            final(self).rules() == old(self).rules().insert(rule_set_id)
@@ entry impl ParseContext::register_rule_set
        broadcast use vstd::std_specs::hash::group_hash_axioms;
@@ sig impl ParseContext::fetch_parser_for_rule
        requires self.wf(), self.rules().contains(rule_set_id), index < rule_def(rule_set_id).len()
        ensures *r == rule_def(rule_set_id)[index as int]
@@ entry impl ParseContext::fetch_parser_for_rule
        broadcast use vstd::std_specs::hash::group_hash_axioms;
