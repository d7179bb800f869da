@# Side-car: the mathematical vocabulary (event traces) and its lemmas.
@@ prelude core
verus! {

pub ghost enum ReasonV {
    Extra, NotAtLineStart, NotAtSectionStart, LineExtra, SectionExtra,
    Expected(Seq<char>),
    FromStrFailed { input: Seq<char>, type_name: Seq<char>, message: Seq<char> },
}
/// A parse error: byte offset and reason.
pub ghost struct ErrV { pub loc: int, pub reason: ReasonV }
/// What `convert()` may be asked for one match: callable at all / admissible results / how many
/// calls of conversion code it makes.
#[verifier::reject_recursive_types(R)]
pub ghost struct Conv<R> { pub pre: bool, pub post: spec_fn(R) -> bool, pub n: nat }

/// The right to call conversion code `n` times.  There is no way to make one in executable code;
/// `parse_raw` gets one for the accepted match.
pub tracked struct VxFuel { pub ghost n: nat }
pub axiom fn vx_fuel_for(n: nat) -> (tracked r: VxFuel) ensures r.n == n;
pub proof fn vx_no_fuel() -> (tracked r: VxFuel) ensures r.n == 0 { vx_fuel_for(0) }
pub proof fn vx_spend(tracked f: &mut VxFuel)
    requires old(f).n >= 1
    ensures final(f).n == old(f).n - 1
{ f.n = (f.n - 1) as nat; }
/// A call of a user's conversion function.
pub fn vx_user_call<A, R, F: Fn(A) -> R>(f: &F, a: A, Tracked(vx_fuel): Tracked<&mut VxFuel>) -> (r: R)
    requires
        call_requires(*f, (a,)),
        old(vx_fuel).n >= 1,
    ensures
        call_ensures(*f, (a,), r),
        final(vx_fuel).n == old(vx_fuel).n - 1
{ proof { vx_spend(vx_fuel); } f(a) }
/// One observable event of a backtracking parser, in the order it happens.
#[verifier::reject_recursive_types(R)]
pub ghost enum Ev<R> { E(ErrV), M(int, Conv<R>), T }

pub open spec fn upd(o: Option<ErrV>, e: ErrV) -> Option<ErrV> {
    match o { None => Some(e), Some(p) => if e.loc > p.loc { Some(e) } else { o } }
}

#[verifier::reject_recursive_types(R)]
pub ghost struct St<R> { pub m: Option<(int, Conv<R>)>, pub rest: Seq<Ev<R>>, pub err: Option<ErrV> }

/// Run a trace up to (and including) its next match.
pub open spec fn step<R>(tr: Seq<Ev<R>>, err: Option<ErrV>) -> St<R>
    decreases tr.len()
{
    if tr.len() == 0 { St { m: None, rest: seq![], err } } else {
        match tr[0] {
            Ev::E(e) => step(tr.drop_first(), upd(err, e)),
            Ev::T => step(tr.drop_first(), err),
            Ev::M(p, c) => St { m: Some((p, c)), rest: tr.drop_first(), err },
        }
    }
}
pub open spec fn steps_to<R>(tr: Seq<Ev<R>>, err0: Option<ErrV>, m: (int, Conv<R>), rest: Seq<Ev<R>>, err1: Option<ErrV>) -> bool {
    step(tr, err0).m == Some(m) && step(tr, err0).rest == rest && step(tr, err0).err == err1
}
pub open spec fn pend<R>(m: (int, Conv<R>), later: Seq<Ev<R>>) -> Seq<Ev<R>> { seq![Ev::M(m.0, m.1)] + later }

pub open spec fn wf_ev<R>(src: Seq<u8>, lo: int, e: Ev<R>) -> bool {
    match e { Ev::E(v) => lo <= v.loc && bd(src, v.loc), Ev::M(p, _) => lo <= p && bd(src, p), Ev::T => true }
}
pub open spec fn wf_tr<R>(src: Seq<u8>, lo: int, tr: Seq<Ev<R>>) -> bool {
    forall|i: int| 0 <= i < tr.len() ==> wf_ev(src, lo, #[trigger] tr[i])
}
/// At least one error or match happens.
pub open spec fn solid<R>(tr: Seq<Ev<R>>) -> bool {
    exists|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T)
}

pub open spec fn map_ev<A, B>(e: Ev<A>, f: spec_fn(int, Conv<A>) -> Conv<B>) -> Ev<B> {
    match e { Ev::E(v) => Ev::E(v), Ev::T => Ev::T, Ev::M(p, c) => Ev::M(p, f(p, c)) }
}
pub open spec fn map_tr<A, B>(tr: Seq<Ev<A>>, f: spec_fn(int, Conv<A>) -> Conv<B>) -> Seq<Ev<B>> {
    Seq::new(tr.len(), |i: int| map_ev(tr[i], f))
}
pub open spec fn map_m<A, B>(m: Option<(int, Conv<A>)>, f: spec_fn(int, Conv<A>) -> Conv<B>) -> Option<(int, Conv<B>)> {
    match m { None => None, Some(x) => Some((x.0, f(x.0, x.1))) }
}

pub open spec fn conv_eq<R>(v: R) -> Conv<R> { Conv { pre: true, post: |r: R| r == v, n: 0 } }

// ------------------------------------------------------------ lemmas about step

pub proof fn lemma_step_append<R>(a: Seq<Ev<R>>, b: Seq<Ev<R>>, err: Option<ErrV>)
    ensures ({
        let s = step(a, err);
        step(a + b, err) == if s.m is Some { St { m: s.m, rest: s.rest + b, err: s.err } } else { step(b, s.err) }
    })
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        match a[0] {
            Ev::E(e) => lemma_step_append(a.drop_first(), b, upd(err, e)),
            Ev::T => lemma_step_append(a.drop_first(), b, err),
            Ev::M(p, c) => {}
        }
    }
}

pub proof fn lemma_step_map<A, B>(tr: Seq<Ev<A>>, f: spec_fn(int, Conv<A>) -> Conv<B>, err: Option<ErrV>)
    ensures ({
        let s = step(tr, err);
        step(map_tr(tr, f), err) == St { m: map_m(s.m, f), rest: map_tr(s.rest, f), err: s.err }
    })
    decreases tr.len()
{
    if tr.len() == 0 {
        assert(map_tr(tr, f) =~= seq![]);
        assert(map_tr(step(tr, err).rest, f) =~= seq![]);
    } else {
        assert(map_tr(tr, f).drop_first() =~= map_tr(tr.drop_first(), f));
        match tr[0] {
            Ev::E(e) => lemma_step_map(tr.drop_first(), f, upd(err, e)),
            Ev::T => lemma_step_map(tr.drop_first(), f, err),
            Ev::M(p, c) => {}
        }
    }
}

/// A step consumes: the rest is strictly shorter, and is a suffix.
pub proof fn lemma_step_rest<R>(tr: Seq<Ev<R>>, err: Option<ErrV>)
    ensures ({
        let s = step(tr, err);
        &&& (s.m is Some ==> s.rest.len() < tr.len())
        &&& s.rest.len() <= tr.len()
        &&& s.rest =~= tr.subrange(tr.len() - s.rest.len(), tr.len() as int)
        &&& (s.m is None ==> s.rest.len() == 0)
        &&& (s.m is Some ==> tr[tr.len() - s.rest.len() - 1] == Ev::M(s.m->Some_0.0, s.m->Some_0.1))
        &&& (s.m is Some ==> forall|i: int| 0 <= i < tr.len() - s.rest.len() - 1 ==> !((#[trigger] tr[i]) is M))
        &&& (s.m is None ==> forall|i: int| 0 <= i < tr.len() ==> !((#[trigger] tr[i]) is M))
    })
    decreases tr.len()
{
    if tr.len() == 0 {
    } else {
        match tr[0] {
            Ev::E(e) => { lemma_step_rest(tr.drop_first(), upd(err, e)); lemma_shift(tr, step(tr, err)); }
            Ev::T => { lemma_step_rest(tr.drop_first(), err); lemma_shift(tr, step(tr, err)); }
            Ev::M(p, c) => {}
        }
    }
}
proof fn lemma_shift<R>(tr: Seq<Ev<R>>, s: St<R>)
    requires tr.len() > 0, !(tr[0] is M),
        s.rest.len() <= tr.drop_first().len(),
        s.m is Some ==> forall|i: int| 0 <= i < tr.drop_first().len() - s.rest.len() - 1 ==> !((#[trigger] tr.drop_first()[i]) is M),
        s.m is None ==> forall|i: int| 0 <= i < tr.drop_first().len() ==> !((#[trigger] tr.drop_first()[i]) is M),
    ensures
        (s.m is Some ==> forall|i: int| 0 <= i < tr.len() - s.rest.len() - 1 ==> !((#[trigger] tr[i]) is M)),
        (s.m is None ==> forall|i: int| 0 <= i < tr.len() ==> !((#[trigger] tr[i]) is M)),
{
    assert forall|i: int| 1 <= i < tr.len() implies tr[i] == tr.drop_first()[i - 1] by {}
    if s.m is Some {
        assert forall|i: int| 0 <= i < tr.len() - s.rest.len() - 1 implies !((#[trigger] tr[i]) is M) by {
            if i > 0 { assert(!(tr.drop_first()[i - 1] is M)); }
        }
    } else {
        assert forall|i: int| 0 <= i < tr.len() implies !((#[trigger] tr[i]) is M) by {
            if i > 0 { assert(!(tr.drop_first()[i - 1] is M)); }
        }
    }
}

/// Running a well-formed trace keeps everything well formed.
pub open spec fn wf_err(src: Seq<u8>, e: Option<ErrV>) -> bool {
    match e { None => true, Some(v) => bd(src, v.loc) }
}
pub proof fn lemma_step_wf<R>(src: Seq<u8>, lo: int, tr: Seq<Ev<R>>, err: Option<ErrV>)
    requires wf_tr(src, lo, tr), wf_err(src, err)
    ensures ({
        let s = step(tr, err);
        &&& wf_tr(src, lo, s.rest)
        &&& wf_err(src, s.err)
        &&& (s.m is Some ==> lo <= s.m->Some_0.0 && bd(src, s.m->Some_0.0))
        &&& (err is Some ==> s.err is Some)
        &&& (s.m is None && solid(tr) ==> s.err is Some)
    })
    decreases tr.len()
{
    if tr.len() > 0 {
        let t = tr.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies wf_ev(src, lo, #[trigger] t[i]) by { assert(t[i] == tr[i + 1]); }
        assert(wf_ev(src, lo, tr[0]));
        match tr[0] {
            Ev::E(e) => lemma_step_wf(src, lo, t, upd(err, e)),
            Ev::T => {
                lemma_step_wf(src, lo, t, err);
                if solid(tr) {
                    let i = choose|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T);
                    assert(t[i - 1] == tr[i]);
                    assert(solid(t));
                }
            }
            Ev::M(p, c) => {}
        }
    }
}

pub proof fn lemma_map_append<A, B>(a: Seq<Ev<A>>, b: Seq<Ev<A>>, f: spec_fn(int, Conv<A>) -> Conv<B>)
    ensures map_tr(a + b, f) == map_tr(a, f) + map_tr(b, f)
{
    assert(map_tr(a + b, f) =~= map_tr(a, f) + map_tr(b, f));
}
pub proof fn lemma_map_pend<A, B>(m: (int, Conv<A>), l: Seq<Ev<A>>, f: spec_fn(int, Conv<A>) -> Conv<B>)
    ensures map_tr(pend(m, l), f) == pend((m.0, f(m.0, m.1)), map_tr(l, f))
{
    assert(map_tr(pend(m, l), f) =~= pend((m.0, f(m.0, m.1)), map_tr(l, f)));
}
pub proof fn lemma_map_wf<A, B>(src: Seq<u8>, lo: int, tr: Seq<Ev<A>>, f: spec_fn(int, Conv<A>) -> Conv<B>)
    requires wf_tr(src, lo, tr)
    ensures wf_tr(src, lo, map_tr(tr, f)), solid(tr) ==> solid(map_tr(tr, f))
{
    assert forall|i: int| 0 <= i < map_tr(tr, f).len() implies wf_ev(src, lo, #[trigger] map_tr(tr, f)[i]) by { assert(wf_ev(src, lo, tr[i])); }
    if solid(tr) {
        let i = choose|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T);
        assert(!(map_tr(tr, f)[i] is T));
    }
}
pub proof fn lemma_append_wf<R>(src: Seq<u8>, lo: int, a: Seq<Ev<R>>, b: Seq<Ev<R>>)
    requires wf_tr(src, lo, a), wf_tr(src, lo, b)
    ensures wf_tr(src, lo, a + b), solid(a) || solid(b) ==> solid(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies wf_ev(src, lo, #[trigger] (a + b)[i]) by {
        if i < a.len() { assert(wf_ev(src, lo, a[i])); } else { assert(wf_ev(src, lo, b[i - a.len()])); }
    }
    if solid(a) {
        let i = choose|i: int| 0 <= i < a.len() && !((#[trigger] a[i]) is T);
        assert(!((a + b)[i] is T));
    } else if solid(b) {
        let i = choose|i: int| 0 <= i < b.len() && !((#[trigger] b[i]) is T);
        assert((a + b)[i + a.len()] == b[i]);
    }
}
pub proof fn lemma_wf_lo<R>(src: Seq<u8>, lo: int, lo2: int, tr: Seq<Ev<R>>)
    requires wf_tr(src, lo, tr), lo2 <= lo
    ensures wf_tr(src, lo2, tr)
{
    assert forall|i: int| 0 <= i < tr.len() implies wf_ev(src, lo2, #[trigger] tr[i]) by { assert(wf_ev(src, lo, tr[i])); }
}
pub proof fn lemma_pend_wf<R>(src: Seq<u8>, lo: int, m: (int, Conv<R>), l: Seq<Ev<R>>)
    requires wf_tr(src, lo, l), lo <= m.0, bd(src, m.0)
    ensures wf_tr(src, lo, pend(m, l)), solid(pend(m, l)), wf_tr(src, lo, l)
{
    let p = pend(m, l);
    assert forall|i: int| 0 <= i < p.len() implies wf_ev(src, lo, #[trigger] p[i]) by { if i > 0 { assert(wf_ev(src, lo, l[i - 1])); } }
    assert(!(p[0] is T));
}
pub proof fn lemma_step_pend<R>(m: (int, Conv<R>), l: Seq<Ev<R>>, err: Option<ErrV>)
    ensures step(pend(m, l), err) == (St { m: Some(m), rest: l, err })
{
    assert(pend(m, l).drop_first() =~= l);
}

// --------------------------------------------------- whole-input (full) matches

/// Demand that a match ends at `len`: any other match counts as the error `rsn` there.
pub open spec fn full_ev<R>(e: Ev<R>, len: int, rsn: ReasonV) -> Ev<R> {
    match e { Ev::M(p, _) if p != len => Ev::E(ErrV { loc: p, reason: rsn }), _ => e }
}
pub open spec fn full_tr<R>(tr: Seq<Ev<R>>, len: int, rsn: ReasonV) -> Seq<Ev<R>> {
    Seq::new(tr.len(), |i: int| full_ev(tr[i], len, rsn))
}
pub open spec fn full_at<R>(tr: Seq<Ev<R>>, len: int, i: int) -> bool {
    0 <= i < tr.len() && tr[i] is M && tr[i]->M_0 == len
}
/// `i` is the most preferred match that consumes everything.
pub open spec fn first_full<R>(tr: Seq<Ev<R>>, len: int, i: int) -> bool {
    full_at(tr, len, i) && forall|j: int| 0 <= j < i ==> !#[trigger] full_at(tr, len, j)
}
/// `v` is the first of the furthest errors of `tr`.
pub open spec fn foremost<R>(tr: Seq<Ev<R>>, v: ErrV) -> bool {
    exists|i: int| #[trigger] is_foremost_at(tr, v, i)
}
pub open spec fn is_foremost_at<R>(tr: Seq<Ev<R>>, v: ErrV, i: int) -> bool {
    &&& 0 <= i < tr.len() && tr[i] == Ev::<R>::E(v)
    &&& forall|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]) is E ==> tr[j]->E_0.loc <= v.loc
    &&& forall|j: int| 0 <= j < i && (#[trigger] tr[j]) is E ==> tr[j]->E_0.loc < v.loc
}

pub proof fn lemma_step_full<R>(tr: Seq<Ev<R>>, len: int, rsn: ReasonV, err: Option<ErrV>)
    ensures ({
        let s = step(tr, err);
        let f = step(full_tr(tr, len, rsn), err);
        &&& s.m is None ==> f.m is None && f.err == s.err
        &&& s.m is Some && s.m->Some_0.0 == len ==> f.m == s.m && f.err == s.err
        &&& s.m is Some && s.m->Some_0.0 != len ==>
              f == step(full_tr(s.rest, len, rsn), upd(s.err, ErrV { loc: s.m->Some_0.0, reason: rsn }))
        &&& s.m is Some ==> f == step(full_tr(pend(s.m->Some_0, s.rest), len, rsn), s.err)
    })
    decreases tr.len()
{
    if tr.len() == 0 {
        assert(full_tr(tr, len, rsn).len() == 0);
    } else {
        assert(full_tr(tr, len, rsn).drop_first() =~= full_tr(tr.drop_first(), len, rsn));
        assert(full_tr(tr, len, rsn)[0] == full_ev(tr[0], len, rsn));
        match tr[0] {
            Ev::E(e) => lemma_step_full(tr.drop_first(), len, rsn, upd(err, e)),
            Ev::T => lemma_step_full(tr.drop_first(), len, rsn, err),
            Ev::M(p, c) => { assert(pend((p, c), tr.drop_first()) =~= tr); }
        }
    }
}
pub proof fn lemma_full_wf<R>(src: Seq<u8>, lo: int, tr: Seq<Ev<R>>, len: int, rsn: ReasonV)
    requires wf_tr(src, lo, tr)
    ensures wf_tr(src, lo, full_tr(tr, len, rsn)), solid(tr) ==> solid(full_tr(tr, len, rsn))
{
    let f = full_tr(tr, len, rsn);
    assert forall|i: int| 0 <= i < f.len() implies wf_ev(src, lo, #[trigger] f[i]) by { assert(wf_ev(src, lo, tr[i])); }
    if solid(tr) {
        let i = choose|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T);
        assert(!(f[i] is T));
    }
}

/// Error part of running out a trace that has no match: the first of the furthest errors wins.
pub open spec fn fold_ok<R>(tr: Seq<Ev<R>>, err: Option<ErrV>, out: Option<ErrV>) -> bool {
    match out {
        None => err is None && (forall|j: int| 0 <= j < tr.len() ==> !((#[trigger] tr[j]) is E)),
        Some(v) => {
            ||| err == out && (forall|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]) is E ==> tr[j]->E_0.loc <= v.loc)
            ||| (err is None || err->Some_0.loc < v.loc) && foremost(tr, v)
        }
    }
}
pub proof fn lemma_fold<R>(tr: Seq<Ev<R>>, err: Option<ErrV>)
    requires step(tr, err).m is None
    ensures fold_ok(tr, err, step(tr, err).err)
    decreases tr.len()
{
    if tr.len() > 0 {
        let t = tr.drop_first();
        assert forall|i: int| 1 <= i < tr.len() implies #[trigger] tr[i] == t[i - 1] by {}
        let e1 = match tr[0] { Ev::E(e) => upd(err, e), _ => err };
        lemma_fold(t, e1);
        let out = step(tr, err).err;
        if out is Some {
            let v = out->Some_0;
            if e1 == out && (forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]) is E ==> t[j]->E_0.loc <= v.loc) {
                if err == out {
                    assert forall|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]) is E implies tr[j]->E_0.loc <= v.loc by {
                        if j > 0 { assert(t[j - 1] == tr[j]); }
                    }
                } else {
                    assert(tr[0] == Ev::<R>::E(v));
                    assert forall|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]) is E implies tr[j]->E_0.loc <= v.loc by {
                        if j > 0 { assert(t[j - 1] == tr[j]); }
                    }
                    assert(is_foremost_at(tr, v, 0));
                }
            } else {
                let i = choose|i: int| #[trigger] is_foremost_at(t, v, i);
                assert(tr[i + 1] == Ev::<R>::E(v));
                assert forall|j: int| 0 <= j < tr.len() && (#[trigger] tr[j]) is E implies tr[j]->E_0.loc <= v.loc by {
                    if j > 0 { assert(t[j - 1] == tr[j]); }
                }
                assert forall|j: int| 0 <= j < i + 1 && (#[trigger] tr[j]) is E implies tr[j]->E_0.loc < v.loc by {
                    if j > 0 { assert(t[j - 1] == tr[j]); }
                }
                assert(is_foremost_at(tr, v, i + 1));
            }
        } else {
            assert forall|j: int| 0 <= j < tr.len() implies !((#[trigger] tr[j]) is E) by { if j > 0 { assert(t[j - 1] == tr[j]); } }
        }
    }
}

/// Result of demanding a full match of a trace: what `parse` promises.
pub proof fn lemma_full_result<R>(tr: Seq<Ev<R>>, len: int, rsn: ReasonV)
    ensures ({
        let f = step(full_tr(tr, len, rsn), None);
        &&& f.m is Some ==> exists|i: int| #[trigger] first_full(tr, len, i) && tr[i] == Ev::M(f.m->Some_0.0, f.m->Some_0.1)
        &&& f.m is None ==> (forall|i: int| !#[trigger] full_at(tr, len, i))
        &&& f.m is None && f.err is Some ==> foremost(full_tr(tr, len, rsn), f.err->Some_0)
    })
{
    let ft = full_tr(tr, len, rsn);
    let f = step(ft, None);
    lemma_step_rest(ft, None);
    if f.m is Some {
        let i = ft.len() - f.rest.len() - 1;
        assert(ft[i] == full_ev(tr[i], len, rsn));
        assert forall|j: int| 0 <= j < i implies !#[trigger] full_at(tr, len, j) by { assert(!(ft[j] is M)); }
        assert(first_full(tr, len, i));
    } else {
        assert forall|i: int| !#[trigger] full_at(tr, len, i) by { if full_at(tr, len, i) { assert(ft[i] is M); } }
        lemma_fold(ft, None);
    }
}

// ------------------------------------------------------------ sequences (pairs)

pub open spec fn conv_pair<H, T>(h: Conv<H>, t: Conv<T>) -> Conv<(H, T)> {
    Conv { pre: h.pre && t.pre, post: |p: (H, T)| (h.post)(p.0) && (t.post)(p.1), n: h.n + t.n }
}
pub open spec fn pair_f<H, T>(h: Conv<H>) -> spec_fn(int, Conv<T>) -> Conv<(H, T)> { |p: int, t: Conv<T>| conv_pair(h, t) }
/// All ways to match head then tail: each head match, in order, with each tail match after it.
pub open spec fn seq_tr<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>) -> Seq<Ev<(H, T)>>
    decreases tr.len()
{
    if tr.len() == 0 { seq![] } else {
        (match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(p, c) => map_tr(tails(p), pair_f::<H, T>(c)),
        }) + seq_tr(tr.drop_first(), tails)
    }
}
pub proof fn lemma_seq_step<H, T>(tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>, err: Option<ErrV>)
    ensures ({
        let s = step(tr, err);
        let q = step(seq_tr(tr, tails), err);
        &&& s.m is None ==> q.m is None && q.err == s.err
        &&& s.m is Some ==> q == step(seq_tr(pend(s.m->Some_0, s.rest), tails), s.err)
    })
    decreases tr.len()
{
    if tr.len() == 0 {
    } else {
        let t = tr.drop_first();
        match tr[0] {
            Ev::E(e) => {
                lemma_seq_step(t, tails, upd(err, e));
                lemma_step_append(seq![Ev::<(H, T)>::E(e)], seq_tr(t, tails), err);
                reveal_with_fuel(step, 3);
            }
            Ev::T => {
                lemma_seq_step(t, tails, err);
                lemma_step_append(seq![Ev::<(H, T)>::T], seq_tr(t, tails), err);
                reveal_with_fuel(step, 3);
            }
            Ev::M(p, c) => { assert(pend((p, c), t) =~= tr); }
        }
    }
}
pub proof fn lemma_seq_pend<H, T>(m: (int, Conv<H>), l: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>)
    ensures seq_tr(pend(m, l), tails) == map_tr(tails(m.0), pair_f::<H, T>(m.1)) + seq_tr(l, tails)
{
    assert(pend(m, l).drop_first() =~= l);
}
pub proof fn lemma_seq_wf<H, T>(src: Seq<u8>, lo: int, tr: Seq<Ev<H>>, tails: spec_fn(int) -> Seq<Ev<T>>)
    requires wf_tr(src, lo, tr),
        forall|p: int| lo <= p && bd(src, p) ==> wf_tr(src, p, #[trigger] tails(p)) && solid(tails(p)),
    ensures wf_tr(src, lo, seq_tr(tr, tails)), solid(tr) ==> solid(seq_tr(tr, tails))
    decreases tr.len()
{
    if tr.len() > 0 {
        let t = tr.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies wf_ev(src, lo, #[trigger] t[i]) by { assert(wf_ev(src, lo, tr[i + 1])); }
        lemma_seq_wf(src, lo, t, tails);
        assert(wf_ev(src, lo, tr[0]));
        let a: Seq<Ev<(H, T)>> = match tr[0] {
            Ev::E(e) => seq![Ev::E(e)],
            Ev::T => seq![Ev::T],
            Ev::M(p, c) => map_tr(tails(p), pair_f::<H, T>(c)),
        };
        match tr[0] {
            Ev::M(p, c) => { lemma_map_wf(src, p, tails(p), pair_f::<H, T>(c)); lemma_wf_lo(src, p, lo, a); }
            _ => {}
        }
        if !(tr[0] is T) { if tr[0] is E { assert(!(a[0] is T)); } assert(solid(a)); }
        else if solid(tr) {
            let i = choose|i: int| 0 <= i < tr.len() && !((#[trigger] tr[i]) is T);
            assert(t[i - 1] == tr[i]);
        }
        lemma_append_wf(src, lo, a, seq_tr(t, tails));
    }
}

} // verus!
