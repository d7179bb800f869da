@# Contracts: lines.rs
@@ append lines-spec
/// `p` occurs in `s` at or after `i`.
spec fn occurs_from(s: Seq<u8>, i: int, p: Seq<u8>) -> bool { exists|j: int| i <= j && #[trigger] at(s, j, p) }
spec fn is_first_from(s: Seq<u8>, i: int, p: Seq<u8>, j: int) -> bool {
    i <= j && at(s, j, p) && forall|k: int| i <= k < j ==> !#[trigger] at(s, k, p)
}
/// Offset of the first occurrence of `p` at or after `i`.
spec fn first_from(s: Seq<u8>, i: int, p: Seq<u8>) -> int { choose|j: int| is_first_from(s, i, p, j) }
spec fn nl1() -> Seq<u8> { seq![10u8] }
spec fn nl2() -> Seq<u8> { seq![10u8, 10u8] }
spec fn ends_with_nl(s: Seq<u8>) -> bool { at(s, s.len() - 1, nl1()) }
spec fn ends_with_nl2(s: Seq<u8>) -> bool { at(s, s.len() - 2, nl2()) }
spec fn conv_user<R: ParserOutput>(c: Conv<R>) -> Conv<(R::UserType,)> {
    Conv { pre: c.pre, post: |o: (R::UserType,)| exists|v: R| #[trigger] (c.post)(v) && o.0 == v.user(), n: c.n }
}
/// The region's text must match `p` from end to end; only its first such match counts.
spec fn region_in<'parse, R: Region, P: Parser<'parse>>(p: P, t: Seq<u8>, err: Option<ErrV>) -> St<P::RawOutput> {
    step(full_tr(p.trace(t, 0), t.len() as int, R::extra()), err)
}
spec fn region_tr<'parse, R: Region, P: Parser<'parse>>(p: P, src: Seq<u8>, start: int) -> Seq<Ev<(P::Output,)>> {
    match R::start_err(src, start) {
        Some(rs) => seq![Ev::E(ErrV { loc: start, reason: rs })],
        None => match R::ends(src, start) {
            None => fail1(src.len() as int, R::noun()),
            Some(e) => {
                let s = region_in::<R, P>(p, src.subrange(start, e.0), None);
                match s.m {
                    Some(m) => one(e.1, conv_user(m.1)),
                    None => seq![Ev::E(ErrV { loc: s.err->Some_0.loc + start, reason: s.err->Some_0.reason })],
                }
            }
        }
    }
}
@@ in trait Region
    /// Why no such region can start here.
    spec fn start_err(src: Seq<u8>, start: int) -> Option<ReasonV>;
    /// End of the region's text, and of the region including its terminator.
    spec fn ends(src: Seq<u8>, start: int) -> Option<(int, int)>;
    spec fn noun() -> Seq<char>;
    spec fn extra() -> ReasonV;
    proof fn lemma_region(src: Seq<u8>, start: int)
        requires bd(src, start)
        ensures Self::ends(src, start) matches Some(e) ==> start <= e.0 <= e.1 && start < e.1 && bd(src, e.0) && bd(src, e.1);
@@ sig trait Region::check_at_start
        requires old(context).wf(), bd(old(context).src(), start as int)
        ensures final(context).wf(), final(context).source == old(context).source, final(context).rules() == old(context).rules(),
            match Self::start_err(old(context).src(), start as int) {
                None => r is Ok && final(context).err() == old(context).err(),
                Some(rs) => r is Err && final(context).err() == upd(old(context).err(), ErrV { loc: start as int, reason: rs }),
            }
@@ sig trait Region::find_end
        requires old(context).wf(), bd(old(context).src(), start as int)
        ensures final(context).wf(), final(context).source == old(context).source, final(context).rules() == old(context).rules(),
            match Self::ends(old(context).src(), start as int) {
                Some(e) => r is Ok && r->Ok_0.0 == e.0 && r->Ok_0.1 == e.1 && final(context).err() == old(context).err(),
                None => r is Err && final(context).err() == upd(old(context).err(),
                    ErrV { loc: old(context).src().len() as int, reason: ReasonV::Expected(Self::noun()) }),
            }
@@ sig trait Region::report_incomplete_match
        requires old(context).wf(), bd(old(context).src(), end as int)
        ensures final(context).wf(), final(context).source == old(context).source, final(context).rules() == old(context).rules(),
            final(context).err() == upd(old(context).err(), ErrV { loc: end as int, reason: Self::extra() })
@@ in Region for Line
    /// A line starts at the beginning of the text or just after a newline.
    spec fn start_err(src: Seq<u8>, start: int) -> Option<ReasonV> {
        if start == 0 || ends_with_nl(pfx(src, start)) { None } else { Some(ReasonV::NotAtLineStart) }
    }
    /// It ends before the next newline, or at the end of a non-empty rest.
    spec fn ends(src: Seq<u8>, start: int) -> Option<(int, int)> {
        if occurs_from(src, start, nl1()) { Some((first_from(src, start, nl1()), first_from(src, start, nl1()) + 1)) }
        else if start < src.len() { Some((src.len() as int, src.len() as int)) }
        else { None }
    }
    spec fn noun() -> Seq<char> { "line"@ }
    spec fn extra() -> ReasonV { ReasonV::LineExtra }
    proof fn lemma_region(src: Seq<u8>, start: int) {
        is_char_boundary_start_end_of_seq(src);
        if occurs_from(src, start, nl1()) { lemma_first_from(src, start, nl1()); lemma_nl_bd(src, first_from(src, start, nl1())); }
    }
@@ in Region for Section
    /// A section starts at the beginning of the text or just after a blank line.
    spec fn start_err(src: Seq<u8>, start: int) -> Option<ReasonV> {
        if start == 0 || pfx(src, start) == nl1() || ends_with_nl2(pfx(src, start)) { None } else { Some(ReasonV::NotAtSectionStart) }
    }
    /// It ends at the next blank line, or at the end of a non-empty rest.
    spec fn ends(src: Seq<u8>, start: int) -> Option<(int, int)> {
        if at(src, start, nl1()) { Some((start, start + 1)) }
        else if occurs_from(src, start, nl2()) { Some((first_from(src, start, nl2()) + 1, first_from(src, start, nl2()) + 2)) }
        else if start < src.len() { Some((src.len() as int, src.len() as int)) }
        else { None }
    }
    spec fn noun() -> Seq<char> { "section"@ }
    spec fn extra() -> ReasonV { ReasonV::SectionExtra }
    proof fn lemma_region(src: Seq<u8>, start: int) {
        is_char_boundary_start_end_of_seq(src);
        if at(src, start, nl1()) { lemma_nl_bd(src, start); }
        else if occurs_from(src, start, nl2()) {
            lemma_first_from(src, start, nl2());
            let j = first_from(src, start, nl2());
            assert(src.subrange(j, j + 2)[0] == src[j] && src.subrange(j, j + 2)[1] == src[j + 1]);
            assert(src.subrange(j, j + 1) =~= nl1());
            assert(src.subrange(j + 1, j + 2) =~= nl1());
            lemma_nl_bd(src, j); lemma_nl_bd(src, j + 1);
        }
    }
@@ append lines-lemmas
proof fn lemma_first_from_at(s: Seq<u8>, i: int, p: Seq<u8>, j: int)
    requires i <= j, at(s, j, p)
    ensures exists|k: int| is_first_from(s, i, p, k)
    decreases j - i
{
    if forall|k: int| i <= k < j ==> !#[trigger] at(s, k, p) { assert(is_first_from(s, i, p, j)); }
    else { let k = choose|k: int| i <= k < j && #[trigger] at(s, k, p); lemma_first_from_at(s, i, p, k); }
}
proof fn lemma_first_from(s: Seq<u8>, i: int, p: Seq<u8>)
    requires occurs_from(s, i, p)
    ensures is_first_from(s, i, p, first_from(s, i, p))
{
    let j = choose|j: int| i <= j && #[trigger] at(s, j, p);
    lemma_first_from_at(s, i, p, j);
}
/// Searching the rest of a text.
proof fn lemma_at_sfx(s: Seq<u8>, i: int, j: int, p: Seq<u8>)
    requires 0 <= i <= s.len(), 0 <= j
    ensures at(sfx(s, i), j, p) == at(s, i + j, p)
{
    if i + j + p.len() <= s.len() { assert(sfx(s, i).subrange(j, j + p.len()) =~= s.subrange(i + j, i + j + p.len())); }
}
proof fn lemma_find_sfx(s: Seq<u8>, i: int, p: Seq<u8>)
    requires 0 <= i <= s.len()
    ensures
        (forall|j: int| !#[trigger] at(sfx(s, i), j, p)) ==> !occurs_from(s, i, p),
        forall|j: int| #![trigger at(sfx(s, i), j, p)] at(sfx(s, i), j, p) && (forall|k: int| 0 <= k < j ==> !#[trigger] at(sfx(s, i), k, p))
            ==> occurs_from(s, i, p) && first_from(s, i, p) == i + j,
{
    if (forall|j: int| !#[trigger] at(sfx(s, i), j, p)) && occurs_from(s, i, p) {
        let j = choose|j: int| i <= j && #[trigger] at(s, j, p);
        lemma_at_sfx(s, i, j - i, p);
    }
    assert forall|j: int| #![trigger at(sfx(s, i), j, p)] at(sfx(s, i), j, p) && (forall|k: int| 0 <= k < j ==> !#[trigger] at(sfx(s, i), k, p))
        implies occurs_from(s, i, p) && first_from(s, i, p) == i + j by {
        lemma_at_sfx(s, i, j, p);
        lemma_first_from(s, i, p);
        let f = first_from(s, i, p);
        lemma_at_sfx(s, i, f - i, p);
        if f > i + j { assert(at(s, i + j, p)); }
        if f < i + j { assert(at(sfx(s, i), f - i, p)); }
    }
}
proof fn lemma_nl_bd(s: Seq<u8>, j: int)
    requires valid_utf8(s), at(s, j, nl1())
    ensures bd(s, j), bd(s, j + 1)
{
    assert(s.subrange(j, j + 1)[0] == s[j]);
    is_char_boundary_iff_not_is_continuation_byte(s, j);
    lemma_ascii_next(s, j);
}
/// After an ASCII byte comes a boundary.
proof fn lemma_ascii_next(s: Seq<u8>, j: int)
    requires bd(s, j), 0 <= j < s.len(), s[j] == 10u8
    ensures bd(s, j + 1)
{
    lemma_split(s, j);
    let t = sfx(s, j);
    assert(t[0] == s[j]);
    assert(length_of_first_scalar(t) == 1);
    assert(pop_first_scalar(t) =~= t.subrange(1, t.len() as int));
    assert(t.subrange(0, 1) =~= nl1());
    lemma_nl_utf8();
    lemma_prefix_boundary(t, 1);
    lemma_sfx_bd(s, j, 1);
}
proof fn lemma_nl_utf8()
    ensures valid_utf8(nl1()), char_bytes('\n') == nl1(), "\n"@ == seq!['\n'], "\n\n"@ == seq!['\n', '\n'], encode_utf8("\n"@) == nl1(), encode_utf8("\n\n"@) == nl2()
{
    reveal_strlit("\n"); reveal_strlit("\n\n");
    lemma_char_len('\n');
    assert(encode_scalar(10u32) =~= seq![10u8]) by (compute);
    assert(char_bytes('\n') =~= nl1());
    assert("\n"@ =~= seq!['\n']);
    assert("\n\n"@ =~= seq!['\n', '\n']);
    assert(seq!['\n', '\n'] =~= seq!['\n'] + seq!['\n']);
    encode_utf8_concat(seq!['\n'], seq!['\n']);
    assert(encode_utf8("\n\n"@) =~= nl2());
}
proof fn lemma_region_wf<'parse, R: Region, P: Parser<'parse>>(p: P, src: Seq<u8>, start: int)
    requires p.pwf(), bd(src, start)
    ensures wf_tr(src, start, region_tr::<R, P>(p, src, start)), solid(region_tr::<R, P>(p, src, start)),
        R::ends(src, start) matches Some(e) ==> {
            let t = src.subrange(start, e.0);
            let s = region_in::<R, P>(p, t, None);
            bd(t, 0) && bd(t, t.len() as int) && wf_tr(t, 0, p.trace(t, 0)) && wf_tr(t, 0, full_tr(p.trace(t, 0), t.len() as int, R::extra()))
            && (s.m is None ==> s.err is Some && bd(src, start + s.err->Some_0.loc) && s.err->Some_0.loc >= 0)
        }
{
    is_char_boundary_start_end_of_seq(src);
    R::lemma_region(src, start);
    match R::start_err(src, start) {
        Some(rs) => { lemma_err_wf::<(P::Output,)>(src, start, ErrV { loc: start, reason: rs }); }
        None => {}
    }
    match R::ends(src, start) {
        None => { lemma_err_wf::<(P::Output,)>(src, start, ErrV { loc: src.len() as int, reason: ReasonV::Expected(R::noun()) }); }
        Some(e) => {
            let t = src.subrange(start, e.0);
            lemma_cut(src, start, e.0);
            p.lemma_trace(t, 0);
            lemma_full_wf(t, 0, p.trace(t, 0), t.len() as int, R::extra());
            let f = full_tr(p.trace(t, 0), t.len() as int, R::extra());
            lemma_step_wf(t, 0, f, None);
            lemma_err_nonneg(t, 0, f, None);
            let s = step(f, None);
            match s.m {
                Some(m) => { lemma_one_wf(src, start, e.1, conv_user(m.1)); }
                None => {
                    lemma_cut_bd(src, start, e.0, s.err->Some_0.loc);
                    lemma_err_wf::<(P::Output,)>(src, start, ErrV { loc: s.err->Some_0.loc + start, reason: s.err->Some_0.reason });
                }
            }
        }
    }
}
proof fn lemma_err_nonneg<R>(src: Seq<u8>, lo: int, tr: Seq<Ev<R>>, err: Option<ErrV>)
    requires wf_tr(src, lo, tr), err matches Some(e) ==> lo <= e.loc
    ensures step(tr, err).err matches Some(e) ==> lo <= e.loc
    decreases tr.len()
{
    if tr.len() > 0 {
        let t = tr.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies wf_ev(src, lo, #[trigger] t[i]) by { assert(t[i] == tr[i + 1]); }
        assert(wf_ev(src, lo, tr[0]));
        match tr[0] {
            Ev::E(e) => lemma_err_nonneg(src, lo, t, upd(err, e)),
            Ev::T => lemma_err_nonneg(src, lo, t, err),
            Ev::M(p, c) => {}
        }
    }
}
@@ entry Region for Line::check_at_start
        proof { lemma_nl_utf8(); }
@@ entry Region for Line::find_end
        proof { lemma_nl_utf8(); is_char_boundary_start_end_of_seq(context.src()); lemma_find_sfx(context.src(), start as int, nl1()); }
@@ entry Region for Section::check_at_start
        proof { lemma_nl_utf8(); assert forall|t: &str| #[trigger] t.spec_bytes() == pfx(context.src(), start as int) implies ((t@ == "\n"@) == (t.spec_bytes() == nl1())) by { lemma_str(t); lemma_nl_str(t@); } }
@@ entry Region for Section::find_end
        proof { lemma_nl_utf8(); is_char_boundary_start_end_of_seq(context.src()); lemma_find_sfx(context.src(), start as int, nl2()); lemma_at_sfx(context.src(), start as int, 0, nl1()); }
@@ append lines-nlstr
proof fn lemma_nl_str(t: Seq<char>)
    ensures (encode_utf8(t) == nl1()) == (t == "\n"@)
{
    lemma_nl_utf8();
    if encode_utf8(t) == nl1() { encode_utf8_decode_utf8(t); encode_utf8_decode_utf8("\n"@); }
}
@@ attr match_fully
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@@ sig match_fully
    requires parser.pwf(), old(context).wf(), parser.needs().subset_of(old(context).rules()),
        bd(old(context).src(), 0)
    ensures final(context).wf(), final(context).source == old(context).source, old(context).rules().subset_of(final(context).rules()),
        ({
            let g = region_in::<R, P>(*parser, old(context).src(), old(context).err());
            match r {
                Ok(it) => g.m == Some(it.cur()) && it.inv(old(context).src(), 0),
                Err(_) => g.m is None && g.err == final(context).err(),
            }
        })
@@ entry match_fully
    let ghost vx_src = context.src();
    let ghost vx_len0 = context.src().len() as int;
    let ghost vx_goal = region_in::<R, P>(*parser, context.src(), context.err());
    let ghost vx_ctx0 = *context;
    proof {
        parser.lemma_trace(vx_src, 0);
        lemma_step_full(parser.trace(vx_src, 0), vx_len0, R::extra(), context.err());
    }
@@ loop match_fully 0
        invariant
            parser.pwf(), context.wf(), vx_ctx0 == *old(context), context.source == vx_ctx0.source, context.src() == vx_src, vx_len0 == vx_src.len(),
            source == context.source,
            it_needs_ok(iter.needs(), context.rules()), vx_ctx0.rules().subset_of(context.rules()),
            iter.inv(vx_src, 0),
            vx_goal == region_in::<R, P>(*parser, vx_src, vx_ctx0.err()),
            vx_goal == step(full_tr(pend(iter.cur(), iter.later(vx_src)), vx_len0, R::extra()), context.err()),
        ensures iter.cur().0 == vx_len0
        decreases iter.later(vx_src).len()
@@ loopbody match_fully 0
        proof {
            iter.lemma_inv(vx_src, 0);
            lemma_step_pend(iter.cur(), iter.later(vx_src), context.err());
            lemma_step_full(pend(iter.cur(), iter.later(vx_src)), vx_len0, R::extra(), context.err());
            lemma_step_full(iter.later(vx_src), vx_len0, R::extra(), upd(context.err(), ErrV { loc: iter.cur().0, reason: R::extra() }));
            lemma_step_rest(iter.later(vx_src), upd(context.err(), ErrV { loc: iter.cur().0, reason: R::extra() }));
        }
@@ append lines-needs
spec fn it_needs_ok(a: Set<usize>, b: Set<usize>) -> bool { a.subset_of(b) }
@@ in Parser for RegionParser
    spec fn needs(&self) -> Set<usize> { self.parser.needs() }
    spec fn pwf(&self) -> bool { self.parser.pwf() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(P::Output,)>> { region_tr::<R, P>(self.parser, src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) { lemma_region_wf::<R, P>(self.parser, src, start); }
@@ entry Parser for RegionParser::parse_iter
        broadcast use lemma_one_step, lemma_fail_step, lemma_err_step;
        let ghost vx_ctx0 = *context;
        proof { lemma_region_wf::<R, P>(self.parser, context.src(), start as int); R::lemma_region(context.src(), start as int); }
@@ closureparams Parser for RegionParser::parse_iter 0
&mut ParseContext<'parse>
@@ closure Parser for RegionParser::parse_iter 0
-> (q: Result<P::Iter, Reported>)
            requires old($0).wf(), bd(old($0).src(), 0), self.parser.pwf(), self.parser.needs().subset_of(old($0).rules())
            ensures final($0).wf(), final($0).source == old($0).source, old($0).rules().subset_of(final($0).rules()),
                match q {
                    Ok(it) => region_in::<R, P>(self.parser, old($0).src(), old($0).err()).m == Some(it.cur()) && it.inv(old($0).src(), 0),
                    Err(_) => region_in::<R, P>(self.parser, old($0).src(), old($0).err()).m is None
                        && region_in::<R, P>(self.parser, old($0).src(), old($0).err()).err == final($0).err(),
                }
@@ bindtail Parser for RegionParser::parse_iter
        proof {
            let it = vx_r->Ok_0;
            assert(vx_ctx0.src() == context.src());
            assert(R::ends(vx_ctx0.src(), start as int) == Some((inner_end as int, outer_end as int)));
            let t = vx_ctx0.src().subrange(start as int, inner_end as int);
            assert(it.outer_end == outer_end);
            assert(bd(context.src(), it.outer_end as int));
            assert(it.iter.inv(t, 0));
            assert(it.inv(context.src(), start as int));
        }
@@ in ParseIter for RegionParseIter
    spec fn needs(&self) -> Set<usize> { Set::empty() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        lo <= self.outer_end && bd(src, self.outer_end as int) && exists|s: Seq<u8>, l: int| #[trigger] self.iter.inv(s, l)
    }
    spec fn cur(&self) -> (int, Conv<(P::Output,)>) { (self.outer_end as int, conv_user(self.iter.cur().1)) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(P::Output,)>> { seq![] }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}
@@ entry ParseIter for RegionParseIter::convert
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); }
@@ sig line
    ensures r.parser == parser
@@ sig section
    ensures r.parser == parser
