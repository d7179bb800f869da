@# What the traces amount to, said without traces: which matches there are, for every
@# pattern, text and position, and in which order.  Pure lemmas over the contracts.
@@ append theorems
/// `tr` offers a match ending at `e` with value `c`.
spec fn offers<R>(tr: Seq<Ev<R>>, e: int, c: Conv<R>) -> bool { exists|k: int| 0 <= k < tr.len() && #[trigger] tr[k] == Ev::M(e, c) }
spec fn within<R>(a: Seq<Ev<R>>, b: Seq<Ev<R>>) -> bool { forall|k: int| 0 <= k < a.len() ==> #[trigger] b.contains(a[k]) }
proof fn lemma_offers<R>(tr: Seq<Ev<R>>, ev: Ev<R>)
    requires tr.contains(ev), ev is M
    ensures offers(tr, ev->M_0, ev->M_1)
{
    let k = choose|k: int| 0 <= k < tr.len() && tr[k] == ev;
    assert(tr[k] == Ev::M(ev->M_0, ev->M_1));
}

// ------------------------------------------------------------------ C02
/// Where the block of the first `i` head events ends in the sequence's trace.
spec fn seq_off<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { seq_off(tr, tails, i - 1) + seq_blk(tr, tails, i - 1) }
}
/// How many events one head event contributes: itself, or everything the tail does after it.
spec fn seq_blk<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, i: int) -> int {
    match tr[i] { Ev::M(p, _) => tails(p).len() as int, _ => 1 }
}
spec fn seq_ev<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, i: int, j: int) -> Ev<(H, T)> {
    match tr[i] { Ev::E(e) => Ev::E(e), Ev::T => Ev::T, Ev::M(p, c) => map_ev(tails(p)[j], pair_f::<H, T>(c)) }
}
proof fn lemma_seq_off_shift<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, i: int)
    requires 0 <= i < tr.len()
    ensures seq_off(tr, tails, i + 1) == seq_blk(tr, tails, 0) + seq_off(tr.drop_first(), tails, i)
    decreases i
{
    if i > 0 {
        lemma_seq_off_shift(tr, tails, i - 1);
        assert(tr.drop_first()[i - 1] == tr[i]);
    } else {
        assert(seq_off(tr, tails, 0) == 0);
        assert(seq_off(tr, tails, 1) == seq_off(tr, tails, 0) + seq_blk(tr, tails, 0));
        assert(seq_off(tr.drop_first(), tails, 0) == 0);
    }
}
/// C02: the trace of a sequence is, head event by head event, in order, the tail's whole trace
/// after that head match: lexicographic order, nothing skipped, nothing repeated.
proof fn theorem_c02_order<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>)
    ensures seq_tr(tr, tails).len() == seq_off(tr, tails, tr.len() as int),
        forall|i: int, j: int| 0 <= i < tr.len() && 0 <= j < seq_blk(tr, tails, i) ==>
            0 <= seq_off(tr, tails, i) + j < seq_tr(tr, tails).len()
            && seq_tr(tr, tails)[seq_off(tr, tails, i) + j] == #[trigger] seq_ev(tr, tails, i, j)
    decreases tr.len()
{
    if tr.len() > 0 {
        let t = tr.drop_first();
        theorem_c02_order(t, tails);
        lemma_seq_off_shift(tr, tails, tr.len() - 1);
        let b: Seq<Ev<(H, T)>> = match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(p, c) => map_tr(tails(p), pair_f::<H, T>(c)),
        };
        assert(seq_tr(tr, tails) == b + seq_tr(t, tails));
        assert(b.len() == seq_blk(tr, tails, 0));
        assert forall|i: int, j: int| 0 <= i < tr.len() && 0 <= j < seq_blk(tr, tails, i) implies
            0 <= seq_off(tr, tails, i) + j < seq_tr(tr, tails).len()
            && seq_tr(tr, tails)[seq_off(tr, tails, i) + j] == #[trigger] seq_ev(tr, tails, i, j)
        by {
            if i > 0 {
                assert(t[i - 1] == tr[i]);
                assert(seq_blk(t, tails, i - 1) == seq_blk(tr, tails, i));
                assert(seq_ev(t, tails, i - 1, j) == seq_ev(tr, tails, i, j));
                lemma_seq_off_shift(tr, tails, i - 1);
            } else {
                assert(b[j] == seq_ev(tr, tails, 0, j));
            }
        }
    }
}
/// C02: a sequence offers exactly the combinations of a head match and a tail match after it.
proof fn theorem_c02_sound<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, k: int) -> (r: (int, Conv<H>, Conv<T>))
    requires 0 <= k < seq_tr(tr, tails).len(), seq_tr(tr, tails)[k] is M
    ensures offers(tr, r.0, r.1), offers(tails(r.0), seq_tr(tr, tails)[k]->M_0, r.2), seq_tr(tr, tails)[k]->M_1 == conv_pair(r.1, r.2)
    decreases tr.len()
{
    let t = tr.drop_first();
    match tr[0] {
        Ev::M(p, c) => {
            let b = map_tr(tails(p), pair_f::<H, T>(c));
            if k < b.len() {
                let e = tails(p)[k];
                assert(seq_tr(tr, tails)[k] == map_ev(e, pair_f::<H, T>(c)));
                assert(tails(p)[k] == Ev::M(e->M_0, e->M_1));
                assert(tr[0] == Ev::M(p, c));
                (p, c, e->M_1)
            } else {
                assert(seq_tr(tr, tails)[k] == seq_tr(t, tails)[k - b.len()]);
                let r = theorem_c02_sound(t, tails, k - b.len());
                let j = choose|j: int| 0 <= j < t.len() && t[j] == Ev::M(r.0, r.1);
                assert(tr[j + 1] == Ev::M(r.0, r.1));
                r
            }
        },
        _ => {
            assert(seq_tr(tr, tails)[k] == seq_tr(t, tails)[k - 1]);
            let r = theorem_c02_sound(t, tails, k - 1);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == Ev::M(r.0, r.1);
            assert(tr[j + 1] == Ev::M(r.0, r.1));
            r
        },
    }
}
proof fn theorem_c02_complete<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, p: int, h: Conv<H>, q: int, t: Conv<T>)
    requires offers(tr, p, h), offers(tails(p), q, t)
    ensures offers(seq_tr(tr, tails), q, conv_pair(h, t))
{
    theorem_c02_order(tr, tails);
    let i = choose|i: int| 0 <= i < tr.len() && tr[i] == Ev::M(p, h);
    let j = choose|j: int| 0 <= j < tails(p).len() && #[trigger] tails(p)[j] == Ev::M(q, t);
    assert(seq_ev(tr, tails, i, j) == Ev::M(q, conv_pair(h, t)));
    assert(seq_tr(tr, tails)[seq_off(tr, tails, i) + j] == Ev::M(q, conv_pair(h, t)));
}

// ------------------------------------------------------------------ C03
/// C03: an alternation is first all of the left's events, then all of the right's.
proof fn theorem_c03<'parse, A: Parser<'parse> + 'parse, B: Parser<'parse> + 'parse>(p: EitherParser<A, B>, src: Seq<u8>, start: int)
    ensures ({
        let a = p.left.trace(src, start); let b = p.right.trace(src, start); let t = p.trace(src, start);
        &&& t.len() == a.len() + b.len()
        &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] t[i] == map_ev(a[i], left_f::<A::RawOutput, B::Output>())
        &&& forall|i: int| 0 <= i < b.len() ==> t[a.len() + i] == map_ev(#[trigger] b[i], right_f::<A::Output, B::RawOutput>())
    })
{
}

// ------------------------------------------------------------------ C04
/// One copy: where it starts, where it ends, its value.
#[verifier::reject_recursive_types(R)]
ghost struct Copy1<R> { s: int, e: int, c: Conv<R> }
spec fn l_convs<R>(l: Seq<Copy1<R>>) -> Seq<Conv<R>> { Seq::new(l.len(), |i: int| l[i].c) }
spec fn l_end<R>(start: int, l: Seq<Copy1<R>>) -> int { if l.len() == 0 { start } else { l.last().e } }
spec fn l_at<R>(start: int, l: Seq<Copy1<R>>) -> int { if l.len() == 0 { start } else { l.last().s } }
/// The separator can take us from `e` to `s`.
spec fn sep_from<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, e: int, s: int) -> bool {
    exists|c: Conv<S::RawOutput>| offers(p.sep.trace(src, e), s, c)
}
/// Copy `i` of the list is a match of the pattern where the start, or the separator after the copy before, leaves off.
spec fn copy_ok<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, i: int) -> bool {
    &&& offers(p.pattern.trace(src, l[i].s), l[i].e, l[i].c)
    &&& if i == 0 { l[i].s == start } else { sep_from(p, src, l[i - 1].e, l[i].s) }
}
spec fn copies<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> #[trigger] copy_ok(p, src, start, l, i)
}
/// Another copy may start at `s`.
spec fn next_at<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, s: int) -> bool {
    if l.len() == 0 { s == start } else { sep_from(p, src, l.last().e, s) }
}
spec fn is_list<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, ev: Ev<(Vec<P::Output>,)>) -> bool {
    &&& copies(p, src, start, l) && l.len() >= p.min
    &&& ev == Ev::M(l_end(start, l), conv_vec::<P>(l_convs(l)))
}
proof fn lemma_copies_push<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, x: Copy1<P::RawOutput>)
    requires copies(p, src, start, l), next_at(p, src, start, l, x.s), offers(p.pattern.trace(src, x.s), x.e, x.c)
    ensures copies(p, src, start, l.push(x)), l_convs(l.push(x)) == l_convs(l).push(x.c)
{
    let m = l.push(x);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] copy_ok(p, src, start, m, i) by {
        if i < l.len() { assert(copy_ok(p, src, start, l, i)); }
    }
    assert(l_convs(m) =~= l_convs(l).push(x.c));
}
proof fn lemma_c04_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, pos: int, k: int) -> (r: Seq<Copy1<P::RawOutput>>)
    requires rep_ok(p), copies(p, src, start, l), next_at(p, src, start, l, pos),
        0 <= k < rep_pat(p, src, pos, l_at(start, l), l_convs(l)).len(), rep_pat(p, src, pos, l_at(start, l), l_convs(l))[k] is M
    ensures is_list(p, src, start, r, rep_pat(p, src, pos, l_at(start, l), l_convs(l))[k])
    decreases ab(src.len() - pos), rank(p, l.len() as int, pos, l_at(start, l)), 3nat, 0nat
{
    let cs = l_convs(l); let istart = l_at(start, l);
    if rep_stop(p, cs.len() as int, pos, istart) { l }
    else {
        let f = flat_pat(p, src, pos, p.pattern.trace(src, pos), cs);
        assert(rep_pat(p, src, pos, istart, cs) == f + seq![yield_ev(p, 2 * cs.len() as int, pos, cs)]);
        if k < f.len() { lemma_c04_flat_pat(p, src, start, l, pos, p.pattern.trace(src, pos), k) }
        else { assert(yield_ev(p, 2 * cs.len() as int, pos, cs) is M); assert(l.len() == 0); l }
    }
}
proof fn lemma_c04_flat_pat<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, pos: int, tr: Seq<Ev<P::RawOutput>>, k: int) -> (r: Seq<Copy1<P::RawOutput>>)
    requires rep_ok(p), copies(p, src, start, l), next_at(p, src, start, l, pos), within(tr, p.pattern.trace(src, pos)),
        0 <= k < flat_pat(p, src, pos, tr, l_convs(l)).len(), flat_pat(p, src, pos, tr, l_convs(l))[k] is M
    ensures is_list(p, src, start, r, flat_pat(p, src, pos, tr, l_convs(l))[k])
    decreases ab(src.len() - pos), rank_ns(p, l.len() as int), 2nat, tr.len()
{
    let cs = l_convs(l); let t = tr.drop_first();
    let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
        Ev::E(e) => seq![Ev::E(e)],
        Ev::T => seq![Ev::T],
        Ev::M(e, c) => if pos <= e <= src.len() { rep_sep(p, src, e, pos, cs.push(c)) } else { seq![] },
    };
    assert(flat_pat(p, src, pos, tr, cs) == a + flat_pat(p, src, pos, t, cs));
    if k < a.len() {
        let e = tr[0]->M_0; let c = tr[0]->M_1;
        assert(p.pattern.trace(src, pos).contains(tr[0]));
        lemma_offers(p.pattern.trace(src, pos), tr[0]);
        let x = Copy1 { s: pos, e, c };
        lemma_copies_push(p, src, start, l, x);
        lemma_c04_sep(p, src, start, l.push(x), k)
    } else {
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] p.pattern.trace(src, pos).contains(t[j]) by { assert(t[j] == tr[j + 1]); }
        lemma_c04_flat_pat(p, src, start, l, pos, t, k - a.len())
    }
}
proof fn lemma_c04_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, k: int) -> (r: Seq<Copy1<P::RawOutput>>)
    requires rep_ok(p), copies(p, src, start, l), l.len() > 0,
        0 <= k < rep_sep(p, src, l.last().e, l.last().s, l_convs(l)).len(), rep_sep(p, src, l.last().e, l.last().s, l_convs(l))[k] is M
    ensures is_list(p, src, start, r, rep_sep(p, src, l.last().e, l.last().s, l_convs(l))[k])
    decreases ab(src.len() - l.last().s), rank_ns(p, l.len() - 1), 1nat, 0nat
{
    let cs = l_convs(l); let pos = l.last().e; let istart = l.last().s;
    let f = flat_sep(p, src, istart, p.sep.trace(src, pos), cs);
    if k < f.len() { lemma_c04_flat_sep(p, src, start, l, p.sep.trace(src, pos), k) }
    else { assert(rep_sep(p, src, pos, istart, cs)[k] == yield_ev(p, 2 * cs.len() - 1, pos, cs)); l }
}
proof fn lemma_c04_flat_sep<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, tr: Seq<Ev<S::RawOutput>>, k: int) -> (r: Seq<Copy1<P::RawOutput>>)
    requires rep_ok(p), copies(p, src, start, l), l.len() > 0, within(tr, p.sep.trace(src, l.last().e)),
        0 <= k < flat_sep(p, src, l.last().s, tr, l_convs(l)).len(), flat_sep(p, src, l.last().s, tr, l_convs(l))[k] is M
    ensures is_list(p, src, start, r, flat_sep(p, src, l.last().s, tr, l_convs(l))[k])
    decreases ab(src.len() - l.last().s), rank_ns(p, l.len() - 1), 0nat, tr.len()
{
    let cs = l_convs(l); let t = tr.drop_first(); let istart = l.last().s;
    let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
        Ev::E(e) => seq![Ev::E(e)],
        Ev::T => seq![Ev::T],
        Ev::M(e, _) => if istart <= e <= src.len() && cs.len() > 0 { rep_pat(p, src, e, istart, cs) } else { seq![] },
    };
    assert(flat_sep(p, src, istart, tr, cs) == a + flat_sep(p, src, istart, t, cs));
    if k < a.len() {
        assert(p.sep.trace(src, l.last().e).contains(tr[0]));
        lemma_offers(p.sep.trace(src, l.last().e), tr[0]);
        assert(next_at(p, src, start, l, tr[0]->M_0));
        lemma_c04_pat(p, src, start, l, tr[0]->M_0, k)
    } else {
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] p.sep.trace(src, l.last().e).contains(t[j]) by { assert(t[j] == tr[j + 1]); }
        lemma_c04_flat_sep(p, src, start, l, t, k - a.len())
    }
}
/// C04, soundness: every match of a repetition is a list of at least `min` copies, each a match of
/// the pattern, with exactly a match of the separator between one and the next and none at the
/// ends; it ends where the last copy does, and its value is the copies' values in order.
proof fn theorem_c04_sound<'parse, P: Parser<'parse> + 'parse, S: Parser<'parse> + 'parse>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, k: int) -> (l: Seq<Copy1<P::RawOutput>>)
    requires p.pwf(), bd(src, start), 0 <= k < p.trace(src, start).len(), p.trace(src, start)[k] is M
    ensures is_list(p, src, start, l, p.trace(src, start)[k])
{
    let l: Seq<Copy1<P::RawOutput>> = seq![];
    assert(l_convs(l) =~= seq![]);
    lemma_c04_pat(p, src, start, l, start, k)
}
/// The list goes on only while there is progress (or there are too few copies).
spec fn moving<P, S, R>(p: RepeatParser<P, S>, l: Seq<Copy1<R>>, i: int) -> bool { !rep_stop(p, i, l[i].s, l[i - 1].s) }
proof fn lemma_within_trans<R>(a: Seq<Ev<R>>, b: Seq<Ev<R>>, c: Seq<Ev<R>>)
    requires within(a, b), within(b, c)
    ensures within(a, c)
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] c.contains(a[k]) by {
        assert(b.contains(a[k]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k];
        assert(c.contains(b[j]));
    }
}
proof fn lemma_within_part<R>(a: Seq<Ev<R>>, b: Seq<Ev<R>>)
    ensures within(a, a + b), within(b, a + b)
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] (a + b).contains(a[k]) by { assert((a + b)[k] == a[k]); }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] (a + b).contains(b[k]) by { assert((a + b)[a.len() + k] == b[k]); }
}
proof fn lemma_flat_pat_has<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, pos: int, tr: Seq<Ev<P::RawOutput>>, cs: Seq<Conv<P::RawOutput>>, k: int)
    requires 0 <= k < tr.len(), tr[k] is M, pos <= tr[k]->M_0 <= src.len()
    ensures within(rep_sep(p, src, tr[k]->M_0, pos, cs.push(tr[k]->M_1)), flat_pat(p, src, pos, tr, cs))
    decreases tr.len()
{
    let t = tr.drop_first(); let f = flat_pat(p, src, pos, t, cs);
    let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
        Ev::E(e) => seq![Ev::E(e)],
        Ev::T => seq![Ev::T],
        Ev::M(e, c) => if pos <= e <= src.len() { rep_sep(p, src, e, pos, cs.push(c)) } else { seq![] },
    };
    assert(flat_pat(p, src, pos, tr, cs) == a + f);
    lemma_within_part(a, f);
    if k > 0 {
        assert(t[k - 1] == tr[k]);
        lemma_flat_pat_has(p, src, pos, t, cs, k - 1);
        lemma_within_trans(rep_sep(p, src, tr[k]->M_0, pos, cs.push(tr[k]->M_1)), f, a + f);
    }
}
proof fn lemma_flat_sep_has<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, istart: int, tr: Seq<Ev<S::RawOutput>>, cs: Seq<Conv<P::RawOutput>>, k: int)
    requires 0 <= k < tr.len(), tr[k] is M, istart <= tr[k]->M_0 <= src.len(), cs.len() > 0
    ensures within(rep_pat(p, src, tr[k]->M_0, istart, cs), flat_sep(p, src, istart, tr, cs))
    decreases tr.len()
{
    let t = tr.drop_first(); let f = flat_sep(p, src, istart, t, cs);
    let a: Seq<Ev<(Vec<P::Output>,)>> = match tr[0] {
        Ev::E(e) => seq![Ev::E(e)],
        Ev::T => seq![Ev::T],
        Ev::M(e, _) => if istart <= e <= src.len() && cs.len() > 0 { rep_pat(p, src, e, istart, cs) } else { seq![] },
    };
    assert(flat_sep(p, src, istart, tr, cs) == a + f);
    lemma_within_part(a, f);
    if k > 0 {
        assert(t[k - 1] == tr[k]);
        lemma_flat_sep_has(p, src, istart, t, cs, k - 1);
        lemma_within_trans(rep_pat(p, src, tr[k]->M_0, istart, cs), f, a + f);
    }
}
/// Everything that happens once the first `n` copies are made.
spec fn after<'parse, P: Parser<'parse>, S: Parser<'parse>>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, n: int) -> Seq<Ev<(Vec<P::Output>,)>> {
    if n == 0 { rep_pat(p, src, start, start, seq![]) } else { rep_sep(p, src, l[n - 1].e, l[n - 1].s, l_convs(l.take(n))) }
}
proof fn lemma_c04_after<'parse, P: Parser<'parse> + 'parse, S: Parser<'parse> + 'parse>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>, n: int)
    requires p.pwf(), bd(src, start), copies(p, src, start, l), 0 <= n <= l.len(),
        forall|i: int| 1 <= i < l.len() ==> #[trigger] moving(p, l, i)
    ensures within(after(p, src, start, l, n), p.trace(src, start)),
        n > 0 ==> bd(src, l[n - 1].s) && bd(src, l[n - 1].e) && l[n - 1].s <= l[n - 1].e
    decreases n
{
    if n == 0 {
        assert forall|k: int| 0 <= k < p.trace(src, start).len() implies #[trigger] p.trace(src, start).contains(p.trace(src, start)[k]) by {}
    } else {
        lemma_c04_after(p, src, start, l, n - 1);
        assert(copy_ok(p, src, start, l, n - 1));
        let s = l[n - 1].s; let e = l[n - 1].e; let c = l[n - 1].c;
        let cs = l_convs(l.take(n - 1));
        assert(l_convs(l.take(n)) =~= cs.push(c));
        let istart = if n == 1 { start } else { l[n - 2].s };
        // from the end of the copy before to the start of this one
        if n == 1 {
            assert(cs =~= seq![]);
        } else {
            let pe = l[n - 2].e;
            let sc = choose|sc: Conv<S::RawOutput>| offers(p.sep.trace(src, pe), s, sc);
            let tr = p.sep.trace(src, pe);
            let k = choose|k: int| 0 <= k < tr.len() && tr[k] == Ev::M(s, sc);
            p.sep.lemma_trace(src, pe);
            assert(wf_ev(src, pe, tr[k]));
            lemma_flat_sep_has(p, src, istart, tr, cs, k);
            lemma_within_part(flat_sep(p, src, istart, tr, cs), seq![yield_ev(p, 2 * cs.len() - 1, pe, cs)]);
            lemma_within_trans(rep_pat(p, src, s, istart, cs), flat_sep(p, src, istart, tr, cs), rep_sep(p, src, pe, istart, cs));
            lemma_within_trans(rep_pat(p, src, s, istart, cs), rep_sep(p, src, pe, istart, cs), p.trace(src, start));
            assert(moving(p, l, n - 1));
        }
        assert(within(rep_pat(p, src, s, istart, cs), p.trace(src, start)));
        assert(!rep_stop(p, cs.len() as int, s, istart));
        let tr = p.pattern.trace(src, s);
        let k = choose|k: int| 0 <= k < tr.len() && tr[k] == Ev::M(e, c);
        p.pattern.lemma_trace(src, s);
        assert(wf_ev(src, s, tr[k]));
        lemma_flat_pat_has(p, src, s, tr, cs, k);
        lemma_within_part(flat_pat(p, src, s, tr, cs), seq![yield_ev(p, 2 * cs.len() as int, s, cs)]);
        lemma_within_trans(rep_sep(p, src, e, s, cs.push(c)), flat_pat(p, src, s, tr, cs), rep_pat(p, src, s, istart, cs));
        lemma_within_trans(rep_sep(p, src, e, s, cs.push(c)), rep_pat(p, src, s, istart, cs), p.trace(src, start));
    }
}
/// C04, completeness: every such list is offered, unless it goes on after enough copies although a
/// copy and the separator after it matched no text at all.
proof fn theorem_c04_complete<'parse, P: Parser<'parse> + 'parse, S: Parser<'parse> + 'parse>(p: RepeatParser<P, S>, src: Seq<u8>, start: int, l: Seq<Copy1<P::RawOutput>>)
    requires p.pwf(), bd(src, start), copies(p, src, start, l), l.len() >= p.min,
        forall|i: int| 1 <= i < l.len() ==> #[trigger] moving(p, l, i)
    ensures offers(p.trace(src, start), l_end(start, l), conv_vec::<P>(l_convs(l)))
{
    lemma_c04_after(p, src, start, l, l.len() as int);
    let n = l.len() as int;
    let a = after(p, src, start, l, n);
    assert(l.take(n) =~= l);
    assert(l_convs(l).len() == n);
    if n == 0 { assert(l_convs(l) =~= seq![]); }
    let y = a[a.len() - 1];
    assert(y == Ev::M(l_end(start, l), conv_vec::<P>(l_convs(l))));
    assert(p.trace(src, start).contains(y));
    lemma_offers(p.trace(src, start), y);
}

/// C03: `alt(a, b)` (and `{a, b}`): a's matches with their own values, then b's with theirs.
proof fn theorem_c03_alt<'parse, A: Parser<'parse, Output = T> + 'parse, B: Parser<'parse, Output = T> + 'parse, T, F: Fn(Either<T, T>) -> T>(p: MapParser<EitherParser<A, B>, F>, src: Seq<u8>, start: int, k: int, o: (T,))
    requires
        forall|e: Either<T, T>, v: T| #[trigger] call_ensures(p.mapper, (e,), v) ==> v == (match e { Either::Left(a) => a, Either::Right(b) => b }),
        0 <= k < p.trace(src, start).len(), p.trace(src, start)[k] is M, (p.trace(src, start)[k]->M_1.post)(o)
    ensures ({
        let a = p.inner.left.trace(src, start); let b = p.inner.right.trace(src, start); let ev = p.trace(src, start)[k];
        &&& p.trace(src, start).len() == a.len() + b.len()
        &&& k < a.len() ==> a[k] is M && a[k]->M_0 == ev->M_0 && exists|v: A::RawOutput| #[trigger] (a[k]->M_1.post)(v) && o.0 == v.user()
        &&& k >= a.len() ==> b[k - a.len()] is M && b[k - a.len()]->M_0 == ev->M_0 && exists|v: B::RawOutput| #[trigger] (b[k - a.len()]->M_1.post)(v) && o.0 == v.user()
    })
{
    let a = p.inner.left.trace(src, start); let b = p.inner.right.trace(src, start);
    theorem_c03(p.inner, src, start);
    let i = p.inner.trace(src, start);
    assert(p.trace(src, start)[k] == map_ev(i[k], map_f::<(Either<T, T>,), F>(p.mapper)));
    let x = choose|x: (Either<T, T>,)| #[trigger] (i[k]->M_1.post)(x) && p.mapper.map_post(x, o);
    if k < a.len() {
        let v = choose|v: A::RawOutput| #[trigger] (a[k]->M_1.post)(v) && x.0 == Either::<T, T>::Left(v.user());
        assert((a[k]->M_1.post)(v) && o.0 == v.user());
    } else {
        assert(i[k] == map_ev(b[k - a.len()], right_f::<A::Output, B::RawOutput>()));
        let v = choose|v: B::RawOutput| #[trigger] (b[k - a.len()]->M_1.post)(v) && x.0 == Either::<T, T>::Right(v.user());
        assert((b[k - a.len()]->M_1.post)(v) && o.0 == v.user());
    }
}
/// C03: `opt(p)`: p's matches with `Some` of their values, and last of all the empty text with `None`.
proof fn theorem_c03_opt<'parse, A: Parser<'parse> + 'parse, F: Fn(Either<A::Output, ()>) -> Option<A::Output>>(p: MapParser<EitherParser<A, EmptyParser>, F>, src: Seq<u8>, start: int, k: int, o: (Option<A::Output>,))
    requires
        forall|e: Either<A::Output, ()>, v: Option<A::Output>| #[trigger] call_ensures(p.mapper, (e,), v) ==> v == (match e { Either::Left(a) => Some(a), Either::Right(_) => None }),
        0 <= k < p.trace(src, start).len(), p.trace(src, start)[k] is M, (p.trace(src, start)[k]->M_1.post)(o)
    ensures ({
        let a = p.inner.left.trace(src, start); let ev = p.trace(src, start)[k];
        &&& p.trace(src, start).len() == a.len() + 1
        &&& k < a.len() ==> a[k] is M && a[k]->M_0 == ev->M_0 && exists|v: A::RawOutput| #[trigger] (a[k]->M_1.post)(v) && o.0 == Some(v.user())
        &&& k == a.len() ==> ev->M_0 == start && o.0 is None
    })
{
    let a = p.inner.left.trace(src, start); let b = p.inner.right.trace(src, start);
    theorem_c03(p.inner, src, start);
    let i = p.inner.trace(src, start);
    assert(p.trace(src, start)[k] == map_ev(i[k], map_f::<(Either<A::Output, ()>,), F>(p.mapper)));
    let x = choose|x: (Either<A::Output, ()>,)| #[trigger] (i[k]->M_1.post)(x) && p.mapper.map_post(x, o);
    assert(b =~= one(start, conv_eq(())));
    if k < a.len() {
        let v = choose|v: A::RawOutput| #[trigger] (a[k]->M_1.post)(v) && x.0 == Either::<A::Output, ()>::Left(v.user());
        assert((a[k]->M_1.post)(v) && o.0 == Some(v.user()));
    } else {
        assert(i[k] == map_ev(b[0], right_f::<A::Output, ()>()));
        let v = choose|v: ()| #[trigger] (b[0]->M_1.post)(v) && x.0 == Either::<A::Output, ()>::Right(v.user());
    }
}

// -------------------------------------------------------------- C06, C07
/// One region: it starts where one may start, its text is exactly what `ends` says, `inner` matches
/// all of that text, and it ends after its terminator.
spec fn region_ok<'parse, R: Region, P: Parser<'parse>>(p: RegionParser<R, P>, src: Seq<u8>, s: int, e: int, c: Conv<(P::Output,)>) -> bool {
    &&& R::start_err(src, s) is None
    &&& R::ends(src, s) matches Some(b) && e == b.1 && exists|ic: Conv<P::RawOutput>|
            #[trigger] offers(p.parser.trace(src.subrange(s, b.0), 0), b.0 - s, ic) && c == conv_user(ic)
}
proof fn theorem_c06_region<'parse, R: Region + 'parse, P: Parser<'parse> + 'parse>(p: RegionParser<R, P>, src: Seq<u8>, s: int, e: int, c: Conv<(P::Output,)>)
    requires p.pwf(), bd(src, s), offers(p.trace(src, s), e, c)
    ensures region_ok(p, src, s, e, c)
{
    let k = choose|k: int| 0 <= k < p.trace(src, s).len() && #[trigger] p.trace(src, s)[k] == Ev::M(e, c);
    R::lemma_region(src, s);
    let b = R::ends(src, s)->Some_0;
    let t = src.subrange(s, b.0);
    let tr = p.parser.trace(t, 0);
    let f = full_tr(tr, t.len() as int, R::extra());
    let st = step(f, None);
    lemma_step_rest(f, None);
    if st.m is Some {
        let j = f.len() - st.rest.len() - 1;
        assert(f[j] == Ev::M(st.m->Some_0.0, st.m->Some_0.1));
        assert(f[j] == full_ev(tr[j], t.len() as int, R::extra()));
        assert(tr[j] == Ev::M(t.len() as int, st.m->Some_0.1));
        assert(offers(tr, t.len() as int, st.m->Some_0.1));
    }
}
/// The `i`th element is a region matched by `p`, right where the one before ended.
spec fn run_at<'parse, R: Region, P: Parser<'parse>>(p: RegionParser<R, P>, src: Seq<u8>, start: int, l: Seq<Copy1<(P::Output,)>>, i: int) -> bool {
    region_ok(p, src, l[i].s, l[i].e, l[i].c) && l[i].s == (if i == 0 { start } else { l[i - 1].e }) && bd(src, l[i].e)
}
/// C06/C07: a match of `lines(p)` / `sections(p)` is a run of regions, the first at the start of the
/// match and each next one right where the one before ended, each wholly matched by `p`.
proof fn theorem_c06_lines<'parse, R: Region + 'parse, P: Parser<'parse> + 'parse>(p: RepeatParser<RegionParser<R, P>, EmptyParser>, src: Seq<u8>, start: int, k: int) -> (l: Seq<Copy1<(P::Output,)>>)
    requires p.pwf(), bd(src, start), 0 <= k < p.trace(src, start).len(), p.trace(src, start)[k] is M
    ensures is_list(p, src, start, l, p.trace(src, start)[k]),
        forall|i: int| 0 <= i < l.len() ==> #[trigger] run_at(p.pattern, src, start, l, i)
{
    let l = theorem_c04_sound(p, src, start, k);
    lemma_c06_run(p, src, start, l, l.len() as int);
    l
}
proof fn lemma_c06_run<'parse, R: Region + 'parse, P: Parser<'parse> + 'parse>(p: RepeatParser<RegionParser<R, P>, EmptyParser>, src: Seq<u8>, start: int, l: Seq<Copy1<(P::Output,)>>, n: int)
    requires p.pwf(), bd(src, start), copies(p, src, start, l), 0 <= n <= l.len()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] run_at(p.pattern, src, start, l, i)
    decreases n
{
    if n > 0 {
        lemma_c06_run(p, src, start, l, n - 1);
        assert(n >= 2 ==> run_at(p.pattern, src, start, l, n - 2));
        lemma_c06_one(p, src, start, l, n - 1);
    }
}
proof fn lemma_c06_one<'parse, R: Region + 'parse, P: Parser<'parse> + 'parse>(p: RepeatParser<RegionParser<R, P>, EmptyParser>, src: Seq<u8>, start: int, l: Seq<Copy1<(P::Output,)>>, i: int)
    requires p.pwf(), copies(p, src, start, l), 0 <= i < l.len(), bd(src, if i == 0 { start } else { l[i - 1].e })
    ensures run_at(p.pattern, src, start, l, i)
{
    let tr = p.pattern.trace(src, l[i].s);
    assert(copy_ok(p, src, start, l, i));
    if i > 0 {
        let pe = l[i - 1].e;
        let sc = choose|sc: Conv<()>| offers(p.sep.trace(src, pe), l[i].s, sc);
        assert(p.sep.trace(src, pe) =~= one(pe, conv_eq(())));
    }
    p.pattern.lemma_trace(src, l[i].s);
    let k = choose|k: int| 0 <= k < tr.len() && tr[k] == Ev::M(l[i].e, l[i].c);
    assert(wf_ev(src, l[i].s, tr[k]));
    theorem_c06_region(p.pattern, src, l[i].s, l[i].e, l[i].c);
}
