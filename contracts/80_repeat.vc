@# ------------------------------------------------------------------ repeat.rs
@# `pattern sep pattern sep ...`: the trace of a greedy repetition as a function of
@# the traces of its parts, and the iterator state as a point in that trace.
@@ append repeat-spec
/// Assumption: fewer than 2^62 repetitions fit in memory.
axiom fn axiom_iters_len<T>(v: &Vec<T>)
    ensures v@.len() <= isize::MAX;

spec fn runs<R>(a: Seq<Ev<R>>, e1: Option<ErrV>, b: Seq<Ev<R>>, e2: Option<ErrV>) -> bool {
    step(a, e1) == step(b, e2) && b.len() <= a.len()
}
spec fn count_ok<P, S>(p: RepeatParser<P, S>, count: int) -> bool {
    let par = if p.sep_is_terminator { 0int } else { 1int };
    (count == 0 || count % 2 == par) && p.min <= (count + par) / 2 && (p.max matches Some(m) ==> (count + par) / 2 <= m)
}
spec fn rep_ok<P, S>(p: RepeatParser<P, S>) -> bool { p.max is None && !p.sep_is_terminator }
/// The value of a repetition: each element converted, in order.
spec fn conv_vec<'parse, P: Parser<'parse>>(cs: Seq<Conv<P::RawOutput>>) -> Conv<(Vec<P::Output>,)> {
    Conv {
        pre: forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).pre,
        post: |o: (Vec<P::Output>,)| o.0@.len() == cs.len()
            && forall|i: int| 0 <= i < cs.len() ==> elem_ok::<P>(cs, o.0@, i),
        n: sum_n(cs, cs.len() as int),
    }
}
/// How often the first `k` conversions call the user's code.
spec fn sum_n<R>(cs: Seq<Conv<R>>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { sum_n(cs, k - 1) + cs[k - 1].n }
}
proof fn lemma_sum_n<R>(cs: Seq<Conv<R>>, j: int, k: int)
    requires 0 <= j <= k
    ensures sum_n(cs, j) <= sum_n(cs, k)
    decreases k
{ if j < k { lemma_sum_n(cs, j, k - 1); } }
spec fn elem_ok<'parse, P: Parser<'parse>>(cs: Seq<Conv<P::RawOutput>>, o: Seq<P::Output>, i: int) -> bool {
    exists|v: P::RawOutput| #[trigger] (cs[i].post)(v) && o[i] == v.user()
}
spec fn yield_ev<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, count: int, pos: int, cs: Seq<Conv<P::RawOutput>>) -> Ev<(Vec<P::Output>,)> {
    if count_ok(p, count) { Ev::M(pos, conv_vec::<P>(cs)) } else { Ev::T }
}
/// Enough repetitions, and the last one consumed nothing: do not go on.
spec fn rep_stop<P, S>(p: RepeatParser<P, S>, n: int, pos: int, istart: int) -> bool {
    n > 0 && n >= p.min && pos == istart
}
spec fn rank_ns<P, S>(p: RepeatParser<P, S>, n: int) -> nat { if n >= p.min { 1 } else { (p.min - n + 1) as nat } }
spec fn rank<P, S>(p: RepeatParser<P, S>, n: int, pos: int, istart: int) -> nat {
    if rep_stop(p, n, pos, istart) { 0 } else { rank_ns(p, n) }
}
spec fn ab(i: int) -> nat { if i < 0 { 0 } else { i as nat } }
/// Everything that happens when a pattern is next.
spec fn rep_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, istart: int, cs: Seq<Conv<P::RawOutput>>) -> Seq<Ev<(Vec<P::Output>,)>>
    decreases ab(src.len() - pos), rank(p, cs.len() as int, pos, istart), 3nat, 0nat
{
    if rep_stop(p, cs.len() as int, pos, istart) { seq![yield_ev(p, 2 * cs.len() as int, pos, cs)] }
    else { flat_pat(p, src, pos, p.pattern.trace(src, pos), cs) + seq![yield_ev(p, 2 * cs.len() as int, pos, cs)] }
}
spec fn flat_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, tr: Seq<Ev<P::RawOutput>>, cs: Seq<Conv<P::RawOutput>>) -> Seq<Ev<(Vec<P::Output>,)>>
    decreases ab(src.len() - pos), rank_ns(p, cs.len() as int), 2nat, tr.len()
{
    if tr.len() == 0 { seq![] } else {
        (match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(e, c) => if pos <= e <= src.len() { rep_sep(p, src, e, pos, cs.push(c)) } else { seq![] },
        }) + flat_pat(p, src, pos, tr.drop_first(), cs)
    }
}
/// Everything that happens when a separator is next; `istart`: where the last pattern started.
spec fn rep_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, istart: int, cs: Seq<Conv<P::RawOutput>>) -> Seq<Ev<(Vec<P::Output>,)>>
    decreases ab(src.len() - istart), rank_ns(p, cs.len() - 1), 1nat, 0nat
{
    flat_sep(p, src, istart, p.sep.trace(src, pos), cs) + seq![yield_ev(p, 2 * cs.len() - 1, pos, cs)]
}
spec fn flat_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, istart: int, tr: Seq<Ev<S::RawOutput>>, cs: Seq<Conv<P::RawOutput>>) -> Seq<Ev<(Vec<P::Output>,)>>
    decreases ab(src.len() - istart), rank_ns(p, cs.len() - 1), 0nat, tr.len()
{
    if tr.len() == 0 { seq![] } else {
        (match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(e, _) => if istart <= e <= src.len() && cs.len() > 0 { rep_pat(p, src, e, istart, cs) } else { seq![] },
        }) + flat_sep(p, src, istart, tr.drop_first(), cs)
    }
}

proof fn lemma_wf_tail<R>(src: Seq<u8>, lo: int, tr: Seq<Ev<R>>)
    requires wf_tr(src, lo, tr), tr.len() > 0
    ensures wf_tr(src, lo, tr.drop_first()), wf_ev(src, lo, tr[0]), !(tr[0] is T) || !solid(tr) || solid(tr.drop_first())
{
    let t = tr.drop_first();
    assert forall|i: int| 0 <= i < t.len() implies wf_ev(src, lo, #[trigger] t[i]) by { assert(wf_ev(src, lo, tr[i + 1])); }
    if solid(tr) && tr[0] is T {
        let i = choose|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T);
        assert(!(t[i - 1] is T));
    }
}
proof fn lemma_rep_pat_wf<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, istart: int, cs: Seq<Conv<P::RawOutput>>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), bd(src, pos), istart <= pos
    ensures wf_tr(src, pos, rep_pat(p, src, pos, istart, cs)),
        !rep_stop(p, cs.len() as int, pos, istart) ==> solid(rep_pat(p, src, pos, istart, cs))
    decreases ab(src.len() - pos), rank(p, cs.len() as int, pos, istart), 3nat, 0nat
{
    let y = seq![yield_ev(p, 2 * cs.len() as int, pos, cs)];
    assert(wf_tr(src, pos, y));
    if !rep_stop(p, cs.len() as int, pos, istart) {
        p.pattern.lemma_trace(src, pos);
        lemma_flat_pat_wf(p, src, pos, p.pattern.trace(src, pos), cs);
        lemma_append_wf(src, pos, flat_pat(p, src, pos, p.pattern.trace(src, pos), cs), y);
    }
}
proof fn lemma_flat_pat_wf<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, tr: Seq<Ev<P::RawOutput>>, cs: Seq<Conv<P::RawOutput>>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), bd(src, pos), wf_tr(src, pos, tr)
    ensures wf_tr(src, pos, flat_pat(p, src, pos, tr, cs)), solid(tr) ==> solid(flat_pat(p, src, pos, tr, cs))
    decreases ab(src.len() - pos), rank_ns(p, cs.len() as int), 2nat, tr.len()
{
    if tr.len() > 0 {
        lemma_wf_tail(src, pos, tr);
        lemma_flat_pat_wf(p, src, pos, tr.drop_first(), cs);
        let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(e, c) => rep_sep(p, src, e, pos, cs.push(c)),
        };
        match tr[0] {
            Ev::E(e) => { assert(wf_tr(src, pos, a)); assert(!(a[0] is T)); },
            Ev::T => { assert(wf_tr(src, pos, a)); },
            Ev::M(e, c) => { lemma_rep_sep_wf(p, src, e, pos, cs.push(c)); lemma_wf_lo(src, e, pos, a); },
        }
        lemma_append_wf(src, pos, a, flat_pat(p, src, pos, tr.drop_first(), cs));
        assert(flat_pat(p, src, pos, tr, cs) == a + flat_pat(p, src, pos, tr.drop_first(), cs));
    }
}
proof fn lemma_rep_sep_wf<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, istart: int, cs: Seq<Conv<P::RawOutput>>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), bd(src, pos), bd(src, istart), istart <= pos, cs.len() > 0
    ensures wf_tr(src, pos, rep_sep(p, src, pos, istart, cs)), solid(rep_sep(p, src, pos, istart, cs))
    decreases ab(src.len() - istart), rank_ns(p, cs.len() - 1), 1nat, 0nat
{
    let y = seq![yield_ev(p, 2 * cs.len() - 1, pos, cs)];
    assert(wf_tr(src, pos, y));
    p.sep.lemma_trace(src, pos);
    lemma_flat_sep_wf(p, src, pos, istart, p.sep.trace(src, pos), cs);
    lemma_append_wf(src, pos, flat_sep(p, src, istart, p.sep.trace(src, pos), cs), y);
    if cs.len() >= p.min { assert(count_ok(p, 2 * cs.len() - 1)); assert(!(y[0] is T)); assert(solid(y)); }
}
proof fn lemma_flat_sep_wf<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, lo: int, istart: int, tr: Seq<Ev<S::RawOutput>>, cs: Seq<Conv<P::RawOutput>>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), bd(src, istart), istart <= lo, wf_tr(src, lo, tr), cs.len() > 0
    ensures wf_tr(src, lo, flat_sep(p, src, istart, tr, cs)),
        solid(tr) && cs.len() < p.min ==> solid(flat_sep(p, src, istart, tr, cs))
    decreases ab(src.len() - istart), rank_ns(p, cs.len() - 1), 0nat, tr.len()
{
    if tr.len() > 0 {
        lemma_wf_tail(src, lo, tr);
        lemma_flat_sep_wf(p, src, lo, istart, tr.drop_first(), cs);
        let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(e, _) => rep_pat(p, src, e, istart, cs),
        };
        match tr[0] {
            Ev::E(e) => { assert(wf_tr(src, lo, a)); assert(!(a[0] is T)); },
            Ev::T => { assert(wf_tr(src, lo, a)); },
            Ev::M(e, _) => { lemma_rep_pat_wf(p, src, e, istart, cs); lemma_wf_lo(src, e, lo, a); },
        }
        lemma_append_wf(src, lo, a, flat_sep(p, src, istart, tr.drop_first(), cs));
        assert(flat_sep(p, src, istart, tr, cs) == a + flat_sep(p, src, istart, tr.drop_first(), cs));
    }
}
/// One step of a trace that starts with `ev`.
proof fn lemma_step_head<R>(ev: Ev<R>, t: Seq<Ev<R>>, err: Option<ErrV>)
    ensures step(seq![ev] + t, err) == (match ev {
            Ev::E(e) => step(t, upd(err, e)),
            Ev::T => step(t, err),
            Ev::M(p, c) => St { m: Some((p, c)), rest: t, err },
        }), (seq![ev] + t).len() == t.len() + 1
{
    assert((seq![ev] + t).drop_first() =~= t);
}
proof fn lemma_step_uncons<R>(tr: Seq<Ev<R>>, err: Option<ErrV>)
    ensures
        tr.len() == 0 ==> step(tr, err).m is None && step(tr, err).err == err,
        tr.len() > 0 ==> step(tr, err) == (match tr[0] {
            Ev::E(e) => step(tr.drop_first(), upd(err, e)),
            Ev::T => step(tr.drop_first(), err),
            Ev::M(p, c) => St { m: Some((p, c)), rest: tr.drop_first(), err },
        })
{}
/// Running the pattern's trace inside the repetition.
proof fn lemma_flat_pat_step<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, tr: Seq<Ev<P::RawOutput>>, cs: Seq<Conv<P::RawOutput>>, suf: Seq<Ev<(Vec<P::Output>,)>>, err: Option<ErrV>)
    requires wf_tr(src, pos, tr)
    ensures ({
        let s = step(tr, err);
        let whole = flat_pat(p, src, pos, tr, cs) + suf;
        &&& s.m is None ==> runs(whole, err, suf, s.err)
        &&& s.m is Some ==> runs(whole, err, rep_sep(p, src, s.m->Some_0.0, pos, cs.push(s.m->Some_0.1)) + (flat_pat(p, src, pos, s.rest, cs) + suf), s.err)
    })
    decreases tr.len()
{
    hide(step);
    let whole = flat_pat(p, src, pos, tr, cs) + suf;
    lemma_step_uncons(tr, err);
    if tr.len() == 0 {
        assert(whole =~= suf);
    } else {
        lemma_wf_tail(src, pos, tr);
        let t = flat_pat(p, src, pos, tr.drop_first(), cs) + suf;
        match tr[0] {
            Ev::E(e) => {
                assert(whole =~= seq![Ev::E(e)] + t);
                lemma_step_head(Ev::E(e), t, err);
                lemma_flat_pat_step(p, src, pos, tr.drop_first(), cs, suf, upd(err, e));
            },
            Ev::T => {
                assert(whole =~= seq![Ev::T] + t);
                lemma_step_head(Ev::T, t, err);
                lemma_flat_pat_step(p, src, pos, tr.drop_first(), cs, suf, err);
            },
            Ev::M(e, c) => { assert(whole =~= rep_sep(p, src, e, pos, cs.push(c)) + t); },
        }
    }
}
proof fn lemma_flat_sep_step<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, lo: int, istart: int, tr: Seq<Ev<S::RawOutput>>, cs: Seq<Conv<P::RawOutput>>, suf: Seq<Ev<(Vec<P::Output>,)>>, err: Option<ErrV>)
    requires wf_tr(src, lo, tr), istart <= lo, cs.len() > 0
    ensures ({
        let s = step(tr, err);
        let whole = flat_sep(p, src, istart, tr, cs) + suf;
        &&& s.m is None ==> runs(whole, err, suf, s.err)
        &&& s.m is Some ==> runs(whole, err, rep_pat(p, src, s.m->Some_0.0, istart, cs) + (flat_sep(p, src, istart, s.rest, cs) + suf), s.err)
    })
    decreases tr.len()
{
    hide(step);
    let whole = flat_sep(p, src, istart, tr, cs) + suf;
    lemma_step_uncons(tr, err);
    if tr.len() == 0 {
        assert(whole =~= suf);
    } else {
        lemma_wf_tail(src, lo, tr);
        let t = flat_sep(p, src, istart, tr.drop_first(), cs) + suf;
        match tr[0] {
            Ev::E(e) => {
                assert(whole =~= seq![Ev::E(e)] + t);
                lemma_step_head(Ev::E(e), t, err);
                lemma_flat_sep_step(p, src, lo, istart, tr.drop_first(), cs, suf, upd(err, e));
            },
            Ev::T => {
                assert(whole =~= seq![Ev::T] + t);
                lemma_step_head(Ev::T, t, err);
                lemma_flat_sep_step(p, src, lo, istart, tr.drop_first(), cs, suf, err);
            },
            Ev::M(e, c) => { assert(whole =~= rep_pat(p, src, e, istart, cs) + t); },
        }
    }
}

// ------------------------------------------- the iterator: a path in that trace
spec fn rp_convs<'parse, I: ParseIter<'parse>>(pis: Seq<I>) -> Seq<Conv<I::RawOutput>> { Seq::new(pis.len(), |i: int| pis[i].cur().1) }
spec fn rp_end<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(start: int, pis: Seq<I>, sis: Seq<J>) -> int {
    if pis.len() == 0 && sis.len() == 0 { start } else if pis.len() == sis.len() { sis.last().cur().0 } else { pis.last().cur().0 }
}
/// Where the last pattern started.
spec fn rp_istart<'parse, J: ParseIter<'parse>>(start: int, n: int, sis: Seq<J>) -> int {
    if n <= 1 { start } else { sis[n - 2].cur().0 }
}
spec fn rp_shape<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>) -> bool {
    &&& bd(src, start)
    &&& sis.len() <= pis.len() <= sis.len() + 1
    &&& forall|i: int| 0 <= i < pis.len() ==> #[trigger] pi_ok(src, start, pis, sis, i)
    &&& forall|i: int| 0 <= i < sis.len() ==> #[trigger] si_ok(src, pis, sis, i)
}
spec fn rp_shaped<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(start: int, pis: Seq<I>, sis: Seq<J>) -> bool {
    exists|src: Seq<u8>| #[trigger] rp_shape(src, start, pis, sis)
}
spec fn pi_ok<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>, i: int) -> bool {
    pis[i].inv(src, if i == 0 { start } else { sis[i - 1].cur().0 })
}
spec fn si_ok<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, pis: Seq<I>, sis: Seq<J>, i: int) -> bool {
    sis[i].inv(src, pis[i].cur().0)
}
proof fn lemma_rp_pos<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>)
    requires rp_shape(src, start, pis, sis)
    ensures bd(src, rp_end(start, pis, sis)), bd(src, rp_istart(start, pis.len() as int, sis)),
        start <= rp_istart(start, pis.len() as int, sis) <= rp_end(start, pis, sis),
        pis.len() > 0 ==> pis.last().inv(src, rp_istart(start, pis.len() as int, sis)) && rp_istart(start, pis.len() as int, sis) <= pis.last().cur().0 && bd(src, pis.last().cur().0),
    decreases pis.len() + sis.len()
{
    if pis.len() == 0 {
    } else if pis.len() == sis.len() {
        let ss = sis.drop_last();
        assert(rp_shape(src, start, pis, ss)) by {
            assert forall|i: int| 0 <= i < pis.len() implies #[trigger] pi_ok(src, start, pis, ss, i) by { assert(pi_ok(src, start, pis, sis, i)); }
            assert forall|i: int| 0 <= i < ss.len() implies #[trigger] si_ok(src, pis, ss, i) by { assert(si_ok(src, pis, sis, i)); }
        }
        lemma_rp_pos(src, start, pis, ss);
        assert(si_ok(src, pis, sis, sis.len() - 1));
        sis.last().lemma_inv(src, pis.last().cur().0);
    } else {
        let ps = pis.drop_last();
        assert(rp_shape(src, start, ps, sis)) by {
            assert forall|i: int| 0 <= i < ps.len() implies #[trigger] pi_ok(src, start, ps, sis, i) by { assert(pi_ok(src, start, pis, sis, i)); }
            assert forall|i: int| 0 <= i < sis.len() implies #[trigger] si_ok(src, ps, sis, i) by { assert(si_ok(src, pis, sis, i)); }
        }
        lemma_rp_pos(src, start, ps, sis);
        let l = rp_istart(start, pis.len() as int, sis);
        assert(pi_ok(src, start, pis, sis, pis.len() - 1));
        pis.last().lemma_inv(src, l);
    }
}
/// Everything that happens going forward from this state.
spec fn rp_node<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> Seq<Ev<(Vec<P::Output>,)>> {
    if pis.len() == sis.len() { rep_pat(p, src, rp_end(start, pis, sis), rp_istart(start, pis.len() as int, sis), rp_convs(pis)) }
    else { rep_sep(p, src, rp_end(start, pis, sis), rp_istart(start, pis.len() as int, sis), rp_convs(pis)) }
}
spec fn rp_yield<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> Ev<(Vec<P::Output>,)> {
    yield_ev(p, (pis.len() + sis.len()) as int, rp_end(start, pis, sis), rp_convs(pis))
}
/// Everything that happens once this state is given up.
spec fn rp_rest<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> Seq<Ev<(Vec<P::Output>,)>>
    decreases pis.len() + sis.len()
{
    if pis.len() > sis.len() {
        let ps = pis.drop_last();
        flat_pat(p, src, rp_end(start, ps, sis), pis.last().later(src), rp_convs(ps))
            + (seq![rp_yield(p, start, ps, sis)] + rp_rest(p, src, start, ps, sis))
    } else if sis.len() > 0 {
        let ss = sis.drop_last();
        flat_sep(p, src, rp_istart(start, pis.len() as int, sis), sis.last().later(src), rp_convs(pis))
            + (seq![rp_yield(p, start, pis, ss)] + rp_rest(p, src, start, pis, ss))
    } else { seq![] }
}
@@ append repeat-lemmas
proof fn lemma_rp_shape_pop<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>)
    requires rp_shape(src, start, pis, sis), pis.len() > 0
    ensures pis.len() > sis.len() ==> rp_shape(src, start, pis.drop_last(), sis),
        pis.len() == sis.len() ==> rp_shape(src, start, pis, sis.drop_last()),
{
    if pis.len() == sis.len() {
        let ss = sis.drop_last();
        assert forall|i: int| 0 <= i < pis.len() implies #[trigger] pi_ok(src, start, pis, ss, i) by { assert(pi_ok(src, start, pis, sis, i)); }
        assert forall|i: int| 0 <= i < ss.len() implies #[trigger] si_ok(src, pis, ss, i) by { assert(si_ok(src, pis, sis, i)); }
    } else {
        let ps = pis.drop_last();
        assert forall|i: int| 0 <= i < ps.len() implies #[trigger] pi_ok(src, start, ps, sis, i) by { assert(pi_ok(src, start, pis, sis, i)); }
        assert forall|i: int| 0 <= i < sis.len() implies #[trigger] si_ok(src, ps, sis, i) by { assert(si_ok(src, pis, sis, i)); }
    }
}
proof fn lemma_rp_shape_push_pat<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>, it: I)
    requires rp_shape(src, start, pis, sis), pis.len() == sis.len(), it.inv(src, rp_end(start, pis, sis))
    ensures rp_shape(src, start, pis.push(it), sis), rp_convs(pis.push(it)) == rp_convs(pis).push(it.cur().1), pis.push(it).drop_last() == pis,
        rp_istart(start, pis.len() as int + 1, sis) == rp_end(start, pis, sis)
{
    let ps = pis.push(it);
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] pi_ok(src, start, ps, sis, i) by { if i < pis.len() { assert(pi_ok(src, start, pis, sis, i)); } }
    assert forall|i: int| 0 <= i < sis.len() implies #[trigger] si_ok(src, ps, sis, i) by { assert(si_ok(src, pis, sis, i)); }
    assert(rp_convs(ps) =~= rp_convs(pis).push(it.cur().1));
    assert(ps.drop_last() =~= pis);
}
proof fn lemma_rp_shape_push_sep<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>, it: J)
    requires rp_shape(src, start, pis, sis), pis.len() == sis.len() + 1, it.inv(src, rp_end(start, pis, sis))
    ensures rp_shape(src, start, pis, sis.push(it)), sis.push(it).drop_last() == sis,
        rp_istart(start, pis.len() as int, sis.push(it)) == rp_istart(start, pis.len() as int, sis)
{
    let ss = sis.push(it);
    assert forall|i: int| 0 <= i < pis.len() implies #[trigger] pi_ok(src, start, pis, ss, i) by { assert(pi_ok(src, start, pis, sis, i)); }
    assert forall|i: int| 0 <= i < ss.len() implies #[trigger] si_ok(src, pis, ss, i) by { if i < sis.len() { assert(si_ok(src, pis, sis, i)); } }
    assert(ss.drop_last() =~= sis);
}
/// Going forward when a pattern is next: its trace decides.
proof fn lemma_rp_fwd_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>)
    requires rep_ok(p), p.pattern.pwf(), rp_shape(src, start, pis, sis), pis.len() == sis.len()
    ensures ({
        let pos = rp_end(start, pis, sis);
        let here = rp_node(p, src, start, pis, sis) + rp_rest(p, src, start, pis, sis);
        let done = seq![rp_yield(p, start, pis, sis)] + rp_rest(p, src, start, pis, sis);
        let s = step(p.pattern.trace(src, pos), err);
        &&& rep_stop(p, pis.len() as int, pos, rp_istart(start, pis.len() as int, sis)) ==> here == done
        &&& !rep_stop(p, pis.len() as int, pos, rp_istart(start, pis.len() as int, sis)) ==> {
            &&& s.m is None ==> runs(here, err, done, s.err)
            &&& forall|it: P::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) ==>
                runs(here, err, rp_node(p, src, start, pis.push(it), sis) + rp_rest(p, src, start, pis.push(it), sis), s.err)
        }
    })
{
    let pos = rp_end(start, pis, sis);
    let cs = rp_convs(pis);
    let rest = rp_rest(p, src, start, pis, sis);
    let y = seq![rp_yield(p, start, pis, sis)];
    lemma_rp_pos(src, start, pis, sis);
    let tr = p.pattern.trace(src, pos);
    let s = step(tr, err);
    p.pattern.lemma_trace(src, pos);
    lemma_flat_pat_step(p, src, pos, tr, cs, y + rest, err);
    assert((flat_pat(p, src, pos, tr, cs) + y) + rest =~= flat_pat(p, src, pos, tr, cs) + (y + rest));
    assert forall|it: P::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos)
        && !rep_stop(p, pis.len() as int, pos, rp_istart(start, pis.len() as int, sis)) implies
        runs(rp_node(p, src, start, pis, sis) + rest, err, rp_node(p, src, start, pis.push(it), sis) + rp_rest(p, src, start, pis.push(it), sis), s.err) by {
        lemma_rp_shape_push_pat(src, start, pis, sis, it);
    }
}
proof fn lemma_rp_fwd_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>)
    requires rep_ok(p), p.sep.pwf(), rp_shape(src, start, pis, sis), pis.len() == sis.len() + 1
    ensures ({
        let pos = rp_end(start, pis, sis);
        let here = rp_node(p, src, start, pis, sis) + rp_rest(p, src, start, pis, sis);
        let done = seq![rp_yield(p, start, pis, sis)] + rp_rest(p, src, start, pis, sis);
        let s = step(p.sep.trace(src, pos), err);
        &&& s.m is None ==> runs(here, err, done, s.err)
        &&& forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) ==>
            runs(here, err, rp_node(p, src, start, pis, sis.push(it)) + rp_rest(p, src, start, pis, sis.push(it)), s.err)
    })
{
    let pos = rp_end(start, pis, sis);
    let istart = rp_istart(start, pis.len() as int, sis);
    let cs = rp_convs(pis);
    let rest = rp_rest(p, src, start, pis, sis);
    let y = seq![rp_yield(p, start, pis, sis)];
    lemma_rp_pos(src, start, pis, sis);
    let tr = p.sep.trace(src, pos);
    let s = step(tr, err);
    p.sep.lemma_trace(src, pos);
    lemma_flat_sep_step(p, src, pos, istart, tr, cs, y + rest, err);
    assert((flat_sep(p, src, istart, tr, cs) + y) + rest =~= flat_sep(p, src, istart, tr, cs) + (y + rest));
    assert forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) implies
        runs(rp_node(p, src, start, pis, sis) + rest, err, rp_node(p, src, start, pis, sis.push(it)) + rp_rest(p, src, start, pis, sis.push(it)), s.err) by {
        lemma_rp_shape_push_sep(src, start, pis, sis, it);
    }
}
/// Giving up the current state: the top iterator's remaining trace decides.
proof fn lemma_rp_back_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>)
    requires rp_shape(src, start, pis, sis), pis.len() == sis.len() + 1
    ensures ({
        let ps = pis.drop_last();
        let rest = rp_rest(p, src, start, pis, sis);
        let s = step(pis.last().later(src), err);
        &&& s.m is None ==> runs(rest, err, seq![rp_yield(p, start, ps, sis)] + rp_rest(p, src, start, ps, sis), s.err)
        &&& forall|it: P::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, rp_end(start, ps, sis)) ==>
            rp_shape(src, start, ps.push(it), sis)
            && runs(rest, err, rp_node(p, src, start, ps.push(it), sis) + rp_rest(p, src, start, ps.push(it), sis), s.err)
    })
{
    let ps = pis.drop_last();
    lemma_rp_shape_pop(src, start, pis, sis);
    lemma_rp_pos(src, start, ps, sis);
    let pos = rp_end(start, ps, sis);
    assert(pi_ok(src, start, pis, sis, pis.len() - 1));
    pis.last().lemma_inv(src, pos);
    let tr = pis.last().later(src);
    let s = step(tr, err);
    let suf = seq![rp_yield(p, start, ps, sis)] + rp_rest(p, src, start, ps, sis);
    lemma_flat_pat_step(p, src, pos, tr, rp_convs(ps), suf, err);
    assert forall|it: P::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) implies
        rp_shape(src, start, ps.push(it), sis)
        && runs(rp_rest(p, src, start, pis, sis), err, rp_node(p, src, start, ps.push(it), sis) + rp_rest(p, src, start, ps.push(it), sis), s.err) by {
        lemma_rp_shape_push_pat(src, start, ps, sis, it);
    }
}
proof fn lemma_rp_back_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>)
    requires rp_shape(src, start, pis, sis), pis.len() == sis.len(), pis.len() > 0
    ensures ({
        let ss = sis.drop_last();
        let rest = rp_rest(p, src, start, pis, sis);
        let s = step(sis.last().later(src), err);
        &&& s.m is None ==> runs(rest, err, seq![rp_yield(p, start, pis, ss)] + rp_rest(p, src, start, pis, ss), s.err)
        &&& forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pis.last().cur().0) ==>
            rp_shape(src, start, pis, ss.push(it))
            && runs(rest, err, rp_node(p, src, start, pis, ss.push(it)) + rp_rest(p, src, start, pis, ss.push(it)), s.err)
    })
{
    let ss = sis.drop_last();
    lemma_rp_shape_pop(src, start, pis, sis);
    lemma_rp_pos(src, start, pis, ss);
    let lo = pis.last().cur().0;
    assert(si_ok(src, pis, sis, sis.len() - 1));
    sis.last().lemma_inv(src, lo);
    let istart = rp_istart(start, pis.len() as int, sis);
    assert(istart == rp_istart(start, pis.len() as int, ss));
    let tr = sis.last().later(src);
    let s = step(tr, err);
    let suf = seq![rp_yield(p, start, pis, ss)] + rp_rest(p, src, start, pis, ss);
    lemma_flat_sep_step(p, src, lo, istart, tr, rp_convs(pis), suf, err);
    assert forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, lo) implies
        rp_shape(src, start, pis, ss.push(it))
        && runs(rp_rest(p, src, start, pis, sis), err, rp_node(p, src, start, pis, ss.push(it)) + rp_rest(p, src, start, pis, ss.push(it)), s.err) by {
        lemma_rp_shape_push_sep(src, start, pis, ss, it);
    }
}
proof fn lemma_rp_rest_wf<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), rp_shape(src, start, pis, sis)
    ensures wf_tr(src, start, rp_rest(p, src, start, pis, sis))
    decreases pis.len() + sis.len()
{
    if pis.len() > sis.len() {
        let ps = pis.drop_last();
        lemma_rp_shape_pop(src, start, pis, sis);
        lemma_rp_pos(src, start, ps, sis);
        let pos = rp_end(start, ps, sis);
        assert(pi_ok(src, start, pis, sis, pis.len() - 1));
        pis.last().lemma_inv(src, pos);
        lemma_flat_pat_wf(p, src, pos, pis.last().later(src), rp_convs(ps));
        lemma_wf_lo(src, pos, start, flat_pat(p, src, pos, pis.last().later(src), rp_convs(ps)));
        lemma_rp_rest_wf(p, src, start, ps, sis);
        let y = seq![rp_yield(p, start, ps, sis)];
        assert(wf_tr(src, start, y));
        lemma_append_wf(src, start, y, rp_rest(p, src, start, ps, sis));
        lemma_append_wf(src, start, flat_pat(p, src, pos, pis.last().later(src), rp_convs(ps)), y + rp_rest(p, src, start, ps, sis));
    } else if sis.len() > 0 {
        let ss = sis.drop_last();
        lemma_rp_shape_pop(src, start, pis, sis);
        lemma_rp_pos(src, start, pis, ss);
        let lo = pis.last().cur().0;
        assert(si_ok(src, pis, sis, sis.len() - 1));
        sis.last().lemma_inv(src, lo);
        let istart = rp_istart(start, pis.len() as int, sis);
        assert(istart == rp_istart(start, pis.len() as int, ss));
        let tr = sis.last().later(src);
        lemma_flat_sep_wf(p, src, lo, istart, tr, rp_convs(pis));
        lemma_wf_lo(src, lo, start, flat_sep(p, src, istart, tr, rp_convs(pis)));
        lemma_rp_rest_wf(p, src, start, pis, ss);
        let y = seq![rp_yield(p, start, pis, ss)];
        assert(wf_tr(src, start, y));
        lemma_append_wf(src, start, y, rp_rest(p, src, start, pis, ss));
        lemma_append_wf(src, start, flat_sep(p, src, istart, tr, rp_convs(pis)), y + rp_rest(p, src, start, pis, ss));
    }
}
spec fn rp_needs<'parse, I: ParseIter<'parse>>(its: Seq<I>) -> Set<usize>
    decreases its.len()
{
    if its.len() == 0 { Set::empty() } else { rp_needs(its.drop_last()).union(its.last().needs()) }
}
proof fn lemma_rp_needs<'parse, I: ParseIter<'parse>>(its: Seq<I>, it: I)
    ensures its.len() > 0 ==> rp_needs(its) == rp_needs(its.drop_last()).union(its.last().needs()),
        rp_needs(its.push(it)) == rp_needs(its).union(it.needs()),
{
    assert(its.push(it).drop_last() =~= its);
}
@@ in Parser for RepeatParser
    spec fn needs(&self) -> Set<usize> { self.pattern.needs().union(self.sep.needs()) }
    spec fn pwf(&self) -> bool { rep_ok(*self) && self.pattern.pwf() && self.sep.pwf() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(Vec<Pattern::Output>,)>> { rep_pat(*self, src, start, start, seq![]) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) { lemma_rep_pat_wf(*self, src, start, start, seq![]); }
@@ in ParseIter for RepeatParseIter
    spec fn needs(&self) -> Set<usize> { self.params.pattern.needs().union(self.params.sep.needs()).union(rp_needs(self.pattern_iters@)).union(rp_needs(self.sep_iters@)) }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        &&& rep_ok(*self.params) && self.params.pattern.pwf() && self.params.sep.pwf()
        &&& lo <= self.start && rp_shape(src, self.start as int, self.pattern_iters@, self.sep_iters@)
    }
    spec fn cur(&self) -> (int, Conv<(Vec<Pattern::Output>,)>) { (rp_end(self.start as int, self.pattern_iters@, self.sep_iters@), conv_vec::<Pattern>(rp_convs(self.pattern_iters@))) }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(Vec<Pattern::Output>,)>> { rp_rest(*self.params, src, self.start as int, self.pattern_iters@, self.sep_iters@) }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {
        lemma_rp_pos(src, self.start as int, self.pattern_iters@, self.sep_iters@);
        lemma_rp_rest_wf(*self.params, src, self.start as int, self.pattern_iters@, self.sep_iters@);
        lemma_wf_lo(src, self.start as int, lo, self.later(src));
    }
@@ sig impl RepeatParser::check_repeat_count
        requires count < usize::MAX
        ensures r == count_ok(*self, count as int)
@@ sig impl RepeatParseIter::num_matches
        requires self.pattern_iters@.len() + self.sep_iters@.len() <= usize::MAX
        ensures r == self.pattern_iters@.len() + self.sep_iters@.len()
@@ sig impl RepeatParseIter::is_pattern_next
        ensures r == (self.pattern_iters@.len() == self.sep_iters@.len())
@@ sig impl RepeatParseIter::end
        requires rp_shaped(self.start as int, self.pattern_iters@, self.sep_iters@)
        ensures r == rp_end(self.start as int, self.pattern_iters@, self.sep_iters@)
@@ entry impl RepeatParseIter::end
        proof {
            axiom_iters_len(&self.pattern_iters); axiom_iters_len(&self.sep_iters);
            let src = choose|src: Seq<u8>| #[trigger] rp_shape(src, self.start as int, self.pattern_iters@, self.sep_iters@);
            let n = self.pattern_iters@.len() as int; let m = self.sep_iters@.len() as int;
            if n > 0 { assert(pi_ok(src, self.start as int, self.pattern_iters@, self.sep_iters@, n - 1)); }
            if m > 0 { assert(si_ok(src, self.pattern_iters@, self.sep_iters@, m - 1)); }
        }
@@ sig impl RepeatParseIter::is_stuck
        requires rp_shaped(self.start as int, self.pattern_iters@, self.sep_iters@),
            self.pattern_iters@.len() == self.sep_iters@.len(),
        ensures r == rep_stop(*self.params, self.pattern_iters@.len() as int, rp_end(self.start as int, self.pattern_iters@, self.sep_iters@),
            rp_istart(self.start as int, self.pattern_iters@.len() as int, self.sep_iters@))
@@ entry impl RepeatParseIter::is_stuck
        proof {
            let src = choose|src: Seq<u8>| #[trigger] rp_shape(src, self.start as int, self.pattern_iters@, self.sep_iters@);
            let n = self.pattern_iters@.len() as int;
            if n > 1 { assert(si_ok(src, self.pattern_iters@, self.sep_iters@, n - 2)); }
        }
@@ attr impl RepeatParseIter::advance
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@@ sig impl RepeatParseIter::advance
        requires
            old(context).wf(), old(self).inv(old(context).src(), old(self).start as int),
            old(self).needs().subset_of(old(context).rules()),
        ensures
            r is Err, final(context).wf(), final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            final(self).inv(final(context).src(), final(self).start as int),
            final(self).needs().subset_of(final(context).rules()),
            final(self).start == old(self).start, final(self).params == old(self).params,
            runs(rp_fwd(*old(self), final(context).src()), old(context).err(), rp_done(*final(self), final(context).src()), final(context).err()),
@@ append repeat-iter
spec fn rp_fwd<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, src: Seq<u8>) -> Seq<Ev<(Vec<P::Output>,)>> {
    rp_fwd_at(*it.params, src, it.start as int, it.pattern_iters@, it.sep_iters@)
}
spec fn rp_done<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, src: Seq<u8>) -> Seq<Ev<(Vec<P::Output>,)>> {
    rp_done_at(*it.params, src, it.start as int, it.pattern_iters@, it.sep_iters@)
}
/// Pending events in each mode of `next`.
spec fn rp_pending<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, src: Seq<u8>, mode: Mode) -> Seq<Ev<(Vec<P::Output>,)>> {
    let (pis, sis) = (it.pattern_iters@, it.sep_iters@);
    match mode {
        Mode::BacktrackTopIter => rp_rest(*it.params, src, it.start as int, pis, sis),
        Mode::Advance => rp_fwd(it, src),
        Mode::YieldThenBacktrack => rp_done(it, src),
        Mode::Exhausted => {
            let (ps, ss) = if pis.len() > sis.len() { (pis.drop_last(), sis) } else { (pis, sis.drop_last()) };
            rp_done_at(*it.params, src, it.start as int, ps, ss)
        }
    }
}
spec fn mode_rank(m: Mode) -> nat { match m { Mode::BacktrackTopIter => 3, Mode::Advance => 2, Mode::Exhausted => 2, Mode::YieldThenBacktrack => 1 } }
spec fn rp_m1<'parse, I: ParseIter<'parse>, J: ParseIter<'parse>>(src: Seq<u8>, start: int, pis: Seq<I>, sis: Seq<J>) -> nat {
    if pis.len() == sis.len() { ab(src.len() - rp_end(start, pis, sis)) } else { ab(src.len() - rp_istart(start, pis.len() as int, sis)) }
}
spec fn rp_m2<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> nat {
    if pis.len() == sis.len() { rank(p, pis.len() as int, rp_end(start, pis, sis), rp_istart(start, pis.len() as int, sis)) } else { rank_ns(p, pis.len() - 1) }
}
spec fn rp_fwd_at<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> Seq<Ev<(Vec<P::Output>,)>> {
    rp_node(p, src, start, pis, sis) + rp_rest(p, src, start, pis, sis)
}
spec fn rp_done_at<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>) -> Seq<Ev<(Vec<P::Output>,)>> {
    seq![rp_yield(p, start, pis, sis)] + rp_rest(p, src, start, pis, sis)
}
/// A separator is next: what the separator's trace leads to.
spec fn sep_next_ok<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, all: Seq<Ev<(Vec<P::Output>,)>>, err0: Option<ErrV>, err: Option<ErrV>) -> bool {
    let pos = rp_end(start, pis, sis);
    let s = step(p.sep.trace(src, pos), err);
    &&& rp_shape(src, start, pis, sis) && rp_shaped(start, pis, sis) && pis.len() == sis.len() + 1 && bd(src, pos)
    &&& s.m is None ==> runs(all, err0, rp_done_at(p, src, start, pis, sis), s.err)
    &&& forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) ==> {
        &&& rp_shape(src, start, pis, sis.push(it)) && rp_shaped(start, pis, sis.push(it))
        &&& runs(all, err0, rp_fwd_at(p, src, start, pis, sis.push(it)), s.err)
        &&& rp_m1(src, start, pis, sis.push(it)) <= rp_m1(src, start, pis, sis)
        &&& rp_m1(src, start, pis, sis.push(it)) == rp_m1(src, start, pis, sis) ==> rp_m2(p, start, pis, sis.push(it)) < rp_m2(p, start, pis, sis)
    }
}
proof fn lemma_sep_next<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, all: Seq<Ev<(Vec<P::Output>,)>>, err0: Option<ErrV>, err: Option<ErrV>)
    requires rep_ok(p), p.sep.pwf(), rp_shape(src, start, pis, sis), pis.len() == sis.len() + 1,
        runs(all, err0, rp_fwd_at(p, src, start, pis, sis), err)
    ensures sep_next_ok(p, src, start, pis, sis, all, err0, err)
{
    hide(step);
    let pos = rp_end(start, pis, sis);
    let s = step(p.sep.trace(src, pos), err);
    lemma_rp_pos(src, start, pis, sis);
    lemma_rp_fwd_sep(p, src, start, pis, sis, err);
    assert forall|it: S::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) implies {
        &&& rp_shape(src, start, pis, sis.push(it)) && rp_shaped(start, pis, sis.push(it))
        &&& runs(all, err0, rp_fwd_at(p, src, start, pis, sis.push(it)), s.err)
        &&& rp_m1(src, start, pis, sis.push(it)) <= rp_m1(src, start, pis, sis)
        &&& rp_m1(src, start, pis, sis.push(it)) == rp_m1(src, start, pis, sis) ==> rp_m2(p, start, pis, sis.push(it)) < rp_m2(p, start, pis, sis)
    } by {
        lemma_rp_shape_push_sep(src, start, pis, sis, it);
        it.lemma_inv(src, pos);
    }
}
/// A pattern is next: what the pattern's trace leads to.
spec fn pat_next_ok<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, all: Seq<Ev<(Vec<P::Output>,)>>, err0: Option<ErrV>, err: Option<ErrV>) -> bool {
    let pos = rp_end(start, pis, sis);
    let s = step(p.pattern.trace(src, pos), err);
    let stop = rep_stop(p, pis.len() as int, pos, rp_istart(start, pis.len() as int, sis));
    &&& rp_shape(src, start, pis, sis) && rp_shaped(start, pis, sis) && pis.len() == sis.len() && bd(src, pos)
    &&& stop ==> runs(all, err0, rp_done_at(p, src, start, pis, sis), err)
    &&& !stop && s.m is None ==> runs(all, err0, rp_done_at(p, src, start, pis, sis), s.err)
    &&& !stop ==> forall|it: P::Iter| s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) ==> {
        &&& rp_shaped(start, pis.push(it), sis)
        &&& sep_next_ok(p, src, start, pis.push(it), sis, all, err0, s.err)
        &&& rp_m1(src, start, pis.push(it), sis) == rp_m1(src, start, pis, sis)
        &&& rp_m2(p, start, pis.push(it), sis) == rp_m2(p, start, pis, sis)
    }
}
proof fn lemma_pat_next<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, all: Seq<Ev<(Vec<P::Output>,)>>, err0: Option<ErrV>, err: Option<ErrV>)
    requires rep_ok(p), p.pattern.pwf(), p.sep.pwf(), rp_shape(src, start, pis, sis), pis.len() == sis.len(),
        runs(all, err0, rp_fwd_at(p, src, start, pis, sis), err)
    ensures pat_next_ok(p, src, start, pis, sis, all, err0, err)
{
    hide(step);
    let pos = rp_end(start, pis, sis);
    let s = step(p.pattern.trace(src, pos), err);
    let stop = rep_stop(p, pis.len() as int, pos, rp_istart(start, pis.len() as int, sis));
    lemma_rp_pos(src, start, pis, sis);
    lemma_rp_fwd_pat(p, src, start, pis, sis, err);
    assert forall|it: P::Iter| !stop && s.m == Some(it.cur()) && s.rest == it.later(src) && #[trigger] it.inv(src, pos) implies {
        &&& rp_shaped(start, pis.push(it), sis)
        &&& sep_next_ok(p, src, start, pis.push(it), sis, all, err0, s.err)
        &&& rp_m1(src, start, pis.push(it), sis) == rp_m1(src, start, pis, sis)
        &&& rp_m2(p, start, pis.push(it), sis) == rp_m2(p, start, pis, sis)
    } by {
        lemma_rp_shape_push_pat(src, start, pis, sis, it);
        lemma_sep_next(p, src, start, pis.push(it), sis, all, err0, s.err);
    }
}
@@ loop impl RepeatParseIter::advance 0
            invariant
                context.wf(), vx_ctx0 == *old(context), vx_it0 == *old(self), context.source == vx_ctx0.source, vx_src == context.src(), vx_src == vx_ctx0.src(),
                vx_ctx0.rules().subset_of(context.rules()),
                self.inv(vx_src, self.start as int), self.start == vx_it0.start, self.params == vx_it0.params,
                self.needs().subset_of(context.rules()),
                runs(rp_fwd(vx_it0, vx_src), vx_ctx0.err(), rp_fwd(*self, vx_src), context.err()),
            decreases rp_m1(vx_src, self.start as int, self.pattern_iters@, self.sep_iters@), rp_m2(*self.params, self.start as int, self.pattern_iters@, self.sep_iters@), if self.pattern_iters@.len() == self.sep_iters@.len() { 3nat } else { 1nat }
@@ entry impl RepeatParseIter::advance
        let ghost vx_ctx0 = *context;
        let ghost vx_it0 = *self;
        let ghost vx_src = context.src();
@@ loopbody impl RepeatParseIter::advance 0
            proof {
                axiom_iters_len(&self.pattern_iters); axiom_iters_len(&self.sep_iters);
                lemma_rp_pos(vx_src, self.start as int, self.pattern_iters@, self.sep_iters@);
                assert forall|it: Pattern::Iter| #[trigger] rp_needs(self.pattern_iters@.push(it)) == rp_needs(self.pattern_iters@).union(it.needs()) by { lemma_rp_needs(self.pattern_iters@, it); }
                assert forall|it: Sep::Iter| #[trigger] rp_needs(self.sep_iters@.push(it)) == rp_needs(self.sep_iters@).union(it.needs()) by { lemma_rp_needs(self.sep_iters@, it); }
                if self.pattern_iters@.len() == self.sep_iters@.len() {
                    lemma_pat_next(*self.params, vx_src, self.start as int, self.pattern_iters@, self.sep_iters@, rp_fwd(vx_it0, vx_src), vx_ctx0.err(), context.err());
                } else {
                    lemma_sep_next(*self.params, vx_src, self.start as int, self.pattern_iters@, self.sep_iters@, rp_fwd(vx_it0, vx_src), vx_ctx0.err(), context.err());
                }
            }
@@ sig impl RepeatParseIter::next
        requires
            old(context).wf(), old(self).inv(old(context).src(), old(self).start as int),
            old(self).needs().subset_of(old(context).rules()),
            mode is Advance || mode is BacktrackTopIter,
        ensures
            final(context).wf(), final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            ({
                let src = final(context).src();
                let all = rp_pending(*old(self), src, mode);
                match r {
                    Ok(_) => final(self).inv(src, final(self).start as int) && final(self).start == old(self).start && final(self).params == old(self).params
                        && final(self).needs().subset_of(final(context).rules())
                        && steps_to(all, old(context).err(), final(self).cur(), final(self).later(src), final(context).err()),
                    Err(_) => step(all, old(context).err()).m is None && step(all, old(context).err()).err == final(context).err(),
                }
            })
@@ head impl RepeatParseIter::next
        hide(step); hide(rp_rest); hide(rp_node); hide(rp_yield);
@@ attr impl RepeatParseIter::next
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(40)]
@@ entry impl RepeatParseIter::next

        let ghost vx_ctx0 = *context;
        let ghost vx_it0 = *self;
        let ghost vx_src = context.src();
        let ghost vx_all = rp_pending(*self, vx_src, mode);
@@ append repeat-live
/// The iterators that count in this mode: an exhausted top iterator no longer does.
spec fn rp_live_p<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, mode: Mode) -> Seq<P::Iter> {
    if mode is Exhausted && it.pattern_iters@.len() > it.sep_iters@.len() { it.pattern_iters@.drop_last() } else { it.pattern_iters@ }
}
spec fn rp_live_s<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, mode: Mode) -> Seq<S::Iter> {
    if mode is Exhausted && it.pattern_iters@.len() <= it.sep_iters@.len() { it.sep_iters@.drop_last() } else { it.sep_iters@ }
}
/// Between two attempts: hand out the match the state stands for, or go on backtracking.
proof fn lemma_rp_turn<'parse, P: Parser<'parse>, S: Parser<'parse>>(it: RepeatParseIter<'parse, P, S>, src: Seq<u8>, err: Option<ErrV>)
    ensures ({
        let n = (it.pattern_iters@.len() + it.sep_iters@.len()) as int;
        let done = rp_pending(it, src, Mode::YieldThenBacktrack);
        let back = rp_pending(it, src, Mode::BacktrackTopIter);
        &&& count_ok(*it.params, n) ==> steps_to(done, err, it.cur(), it.later(src), err)
        &&& !count_ok(*it.params, n) ==> step(done, err) == step(back, err)
        &&& back.len() < done.len()
        &&& n == 0 ==> step(back, err).m is None && step(back, err).err == err
    }),
{
    let done = rp_pending(it, src, Mode::YieldThenBacktrack);
    let y = rp_yield(*it.params, it.start as int, it.pattern_iters@, it.sep_iters@);
    assert(done[0] == y);
    assert(done.drop_first() =~= rp_pending(it, src, Mode::BacktrackTopIter));
    if y is M {
        assert(done == pend(it.cur(), it.later(src)));
        lemma_step_pend(it.cur(), it.later(src), err);
    }
}
/// What backtracking the top iterator leads to.
proof fn lemma_rp_back<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>)
    requires rp_shape(src, start, pis, sis), pis.len() > 0
    ensures
        pis.len() > sis.len() ==> pis.last().inv(src, rp_end(start, pis.drop_last(), sis)),
        pis.len() > sis.len() ==> back_pat_ok(p, src, start, pis, sis, err),
        pis.len() == sis.len() ==> sis.last().inv(src, pis.last().cur().0),
        pis.len() == sis.len() ==> back_sep_ok(p, src, start, pis, sis, err),
        rp_needs(pis) == rp_needs(pis.drop_last()).union(pis.last().needs()),
        sis.len() > 0 ==> rp_needs(sis) == rp_needs(sis.drop_last()).union(sis.last().needs()),
{
    if pis.len() > sis.len() {
        lemma_rp_back_pat(p, src, start, pis, sis, err);
        lemma_rp_shape_pop(src, start, pis, sis);
        assert(pi_ok(src, start, pis, sis, pis.len() - 1));
        assert forall|it: P::Iter| #[trigger] pis.update(pis.len() - 1, it) == pis.drop_last().push(it) && rp_needs(pis.update(pis.len() - 1, it)) == rp_needs(pis.drop_last()).union(it.needs())
            && pis.update(pis.len() - 1, it).drop_last() == pis.drop_last() by {
            assert(pis.update(pis.len() - 1, it) =~= pis.drop_last().push(it));
            assert(pis.update(pis.len() - 1, it).drop_last() =~= pis.drop_last());
            lemma_rp_needs(pis.drop_last(), it);
        }
    } else {
        lemma_rp_back_sep(p, src, start, pis, sis, err);
        lemma_rp_shape_pop(src, start, pis, sis);
        assert(si_ok(src, pis, sis, sis.len() - 1));
        assert forall|it: S::Iter| #[trigger] sis.update(sis.len() - 1, it) == sis.drop_last().push(it) && rp_needs(sis.update(sis.len() - 1, it)) == rp_needs(sis.drop_last()).union(it.needs())
            && sis.update(sis.len() - 1, it).drop_last() == sis.drop_last() by {
            assert(sis.update(sis.len() - 1, it) =~= sis.drop_last().push(it));
            assert(sis.update(sis.len() - 1, it).drop_last() =~= sis.drop_last());
            lemma_rp_needs(sis.drop_last(), it);
        }
    }
}
spec fn back_pat_ok<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>) -> bool {
    let ps = pis.drop_last();
    let rest = rp_rest(p, src, start, pis, sis);
    let s = step(pis.last().later(src), err);
    &&& rp_shape(src, start, ps, sis)
    &&& s.m is None ==> runs(rest, err, rp_done_at(p, src, start, ps, sis), s.err)
    &&& forall|it: P::Iter| #![trigger pis.update(pis.len() - 1, it)] {
        let ps2 = pis.update(pis.len() - 1, it);
        &&& ps2.drop_last() == ps
        &&& rp_needs(ps2) == rp_needs(ps).union(it.needs())
        &&& s.m == Some(it.cur()) && s.rest == it.later(src) && it.inv(src, rp_end(start, ps, sis)) ==>
            rp_shape(src, start, ps2, sis) && runs(rest, err, rp_fwd_at(p, src, start, ps2, sis), s.err)
    }
}
spec fn back_sep_ok<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, pis: Seq<P::Iter>, sis: Seq<S::Iter>, err: Option<ErrV>) -> bool {
    let ss = sis.drop_last();
    let rest = rp_rest(p, src, start, pis, sis);
    let s = step(sis.last().later(src), err);
    &&& rp_shape(src, start, pis, ss)
    &&& s.m is None ==> runs(rest, err, rp_done_at(p, src, start, pis, ss), s.err)
    &&& forall|it: S::Iter| #![trigger sis.update(sis.len() - 1, it)] {
        let ss2 = sis.update(sis.len() - 1, it);
        &&& ss2.drop_last() == ss
        &&& rp_needs(ss2) == rp_needs(ss).union(it.needs())
        &&& s.m == Some(it.cur()) && s.rest == it.later(src) && it.inv(src, pis.last().cur().0) ==>
            rp_shape(src, start, pis, ss2) && runs(rest, err, rp_fwd_at(p, src, start, pis, ss2), s.err)
    }
}
@@ loop impl RepeatParseIter::next 0
            invariant
                context.wf(), vx_ctx0 == *old(context), vx_it0 == *old(self), context.source == vx_ctx0.source, vx_src == context.src(), vx_src == vx_ctx0.src(),
                vx_ctx0.rules().subset_of(context.rules()),
                rep_ok(*self.params), self.params.pattern.pwf(), self.params.sep.pwf(),
                self.start == vx_it0.start, self.params == vx_it0.params,
                self.sep_iters@.len() <= self.pattern_iters@.len() <= self.sep_iters@.len() + 1,
                mode is Exhausted ==> self.pattern_iters@.len() > 0,
                rp_shape(vx_src, self.start as int, rp_live_p(*self, mode), rp_live_s(*self, mode)),
                self.params.pattern.needs().subset_of(context.rules()), self.params.sep.needs().subset_of(context.rules()),
                rp_needs(rp_live_p(*self, mode)).subset_of(context.rules()), rp_needs(rp_live_s(*self, mode)).subset_of(context.rules()),
                step(vx_all, vx_ctx0.err()) == step(rp_pending(*self, vx_src, mode), context.err()),
            decreases rp_pending(*self, vx_src, mode).len(), mode_rank(mode)
@@ loopbody impl RepeatParseIter::next 0
            proof {
                axiom_iters_len(&self.pattern_iters); axiom_iters_len(&self.sep_iters);
                lemma_rp_pos(vx_src, self.start as int, rp_live_p(*self, mode), rp_live_s(*self, mode));
                if mode is BacktrackTopIter && self.pattern_iters@.len() > 0 {
                    lemma_rp_back(*self.params, vx_src, self.start as int, self.pattern_iters@, self.sep_iters@, context.err());
                }
                lemma_rp_turn(*self, vx_src, context.err());
            }
@@ entry ParseIter for RepeatParseIter::match_end
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(rp_shape(s, self.start as int, self.pattern_iters@, self.sep_iters@)); }
@@ entry ParseIter for RepeatParseIter::backtrack
        let ghost vx_it0 = *self;
        proof { let l = choose|l: int| #[trigger] self.inv(context.src(), l); assert(self.inv(context.src(), self.start as int)); }
@@ bindtail ParseIter for RepeatParseIter::backtrack
        proof { assert(vx_r is Ok ==> forall|lo: int| #[trigger] vx_it0.inv(context.src(), lo) ==> self.inv(context.src(), lo)); }
@@ entry Parser for RepeatParser::parse_iter
        proof {
            let (src, st) = (context.src(), start as int);
            let (e1, e2) = (Seq::<Pattern::Iter>::empty(), Seq::<Sep::Iter>::empty());
            assert(rp_convs(e1) =~= seq![]);
            assert(rp_rest(*self, src, st, e1, e2) =~= seq![]);
            assert(rp_fwd_at(*self, src, st, e1, e2) =~= self.trace(src, st));
            assert(rp_needs(e1) == Set::<usize>::empty() && rp_needs(e2) == Set::<usize>::empty());
        }
@@ tail Parser for RepeatParser::parse_iter
        proof { assert(iter.inv(context.src(), start as int)); }
@@ entry ParseIter for RepeatParseIter::convert
        let ghost vx_src = choose|s: Seq<u8>| #[trigger] rp_shape(s, self.start as int, self.pattern_iters@, self.sep_iters@);
        let ghost vx_cs = rp_convs(self.pattern_iters@);
        let ghost vx_n0 = vx_fuel.n;
        proof {
            let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l);
            assert(rp_shape(s, self.start as int, self.pattern_iters@, self.sep_iters@));
            assert(conv_vec::<Pattern>(vx_cs).pre);
        }
@@ loop ParseIter for RepeatParseIter::convert 0
            invariant
                rp_shape(vx_src, self.start as int, self.pattern_iters@, self.sep_iters@),
                vx_cs == rp_convs(self.pattern_iters@), conv_vec::<Pattern>(vx_cs).pre,
                0 <= vx_i <= self.pattern_iters@.len(), vx_v@.len() == vx_i,
                vx_n0 >= sum_n(vx_cs, vx_cs.len() as int), vx_n0 == old(vx_fuel).n,
                vx_fuel.n == vx_n0 - sum_n(vx_cs, vx_i as int),
                forall|k: int| 0 <= k < vx_i ==> #[trigger] elem_ok::<Pattern>(vx_cs, vx_v@, k),
            decreases self.pattern_iters@.len() - vx_i
@@ loopbody ParseIter for RepeatParseIter::convert 0
            let ghost vx_v0 = vx_v@;
            proof {
                assert(pi_ok(vx_src, self.start as int, self.pattern_iters@, self.sep_iters@, vx_i as int));
                assert(vx_cs[vx_i as int].pre);
                lemma_sum_n(vx_cs, vx_i as int + 1, vx_cs.len() as int);
            }
@@ loopend ParseIter for RepeatParseIter::convert 0
            proof {
                assert forall|k: int| 0 <= k < vx_i implies #[trigger] elem_ok::<Pattern>(vx_cs, vx_v@, k) by {
                    if k < vx_i - 1 { assert(elem_ok::<Pattern>(vx_cs, vx_v0, k)); assert(vx_v@[k] == vx_v0[k]); }
                }
            }
@@ sig repeat
    ensures r.pattern == pattern, r.sep == sep, r.min == min, r.max == max, r.sep_is_terminator == sep_is_terminator
@@ sig star
    ensures r.pattern == pattern, r.min == 0, rep_ok(r)
@@ sig plus
    ensures r.pattern == pattern, r.min == 1, rep_ok(r)
@@ sig repeat_sep
    ensures r.pattern == pattern, r.sep == sep, r.min == 0, rep_ok(r)
@@ sig lines
    ensures r.pattern.parser == parser, r.min == 0, rep_ok(r)
@@ sig sections
    ensures r.pattern.parser == parser, r.min == 0, rep_ok(r)
