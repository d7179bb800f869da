@# Contracts: map.rs either.rs sequence.rs
@@ append map-spec
spec fn conv_map<T, M: Mapping<T>>(c: Conv<T>, m: M) -> Conv<M::RawOutput> {
    Conv {
        pre: c.pre && forall|v: T| #[trigger] (c.post)(v) ==> m.map_pre(v),
        post: |o: M::RawOutput| exists|v: T| #[trigger] (c.post)(v) && m.map_post(v, o),
        n: c.n + m.cost(),
    }
}
spec fn map_f<T, M: Mapping<T>>(m: M) -> spec_fn(int, Conv<T>) -> Conv<M::RawOutput> { |p: int, c: Conv<T>| conv_map(c, m) }
@@ in trait Mapping
    spec fn map_pre(&self, v: T) -> bool;
    spec fn map_post(&self, v: T, r: Self::RawOutput) -> bool;
    /// how often one application calls the user's code
    spec fn cost(&self) -> nat;
@@ sig trait Mapping::apply
        requires
            self.map_pre(value),
            old(vx_fuel).n >= self.cost(),
        ensures
            self.map_post(value, r),
            final(vx_fuel).n == old(vx_fuel).n - self.cost()
@@ in Mapping for F
    spec fn cost(&self) -> nat { 1 }
    spec fn map_pre(&self, v: T) -> bool { call_requires(*self, (v.user(),)) }
    spec fn map_post(&self, v: T, r: (U,)) -> bool { call_ensures(*self, (v.user(),), r.0) }
@@ in Mapping for Skip
    spec fn cost(&self) -> nat { 0 }
    spec fn map_pre(&self, v: T) -> bool { true }
    spec fn map_post(&self, v: T, r: ()) -> bool { true }
@@ in Mapping for SingleValue
    spec fn cost(&self) -> nat { 0 }
    spec fn map_pre(&self, v: T) -> bool { true }
    spec fn map_post(&self, v: T, r: (T::UserType,)) -> bool { r.0 == v.user() }
@@ append map-fnptr
impl<A, U, T> Mapping<T> for VxFn1<A, U> where T: ParserOutput<UserType = A> {
    type RawOutput = (U,);
    spec fn cost(&self) -> nat { 1 }
    spec fn map_pre(&self, v: T) -> bool { self.req(v.user()) }
    spec fn map_post(&self, v: T, r: (U,)) -> bool { r.0 == self.out(v.user()) }
    fn apply(&self, value: T, Tracked(vx_fuel): Tracked<&mut VxFuel>) -> (r: (U,)) { proof { vx_spend(vx_fuel); } (self.vx_call(value.into_user_type()),) }
}
@@ in Parser for MapParser
    spec fn needs(&self) -> Set<usize> { self.inner.needs() }
    spec fn pwf(&self) -> bool { self.inner.pwf() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<F::RawOutput>> {
        map_tr(self.inner.trace(src, start), map_f::<P::RawOutput, F>(self.mapper))
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        self.inner.lemma_trace(src, start);
        lemma_map_wf(src, start, self.inner.trace(src, start), map_f::<P::RawOutput, F>(self.mapper));
    }
@@ entry Parser for MapParser::parse_iter
        proof { lemma_step_map(self.inner.trace(context.src(), start as int), map_f::<P::RawOutput, F>(self.mapper), context.err()); }
@@ bindtail Parser for MapParser::parse_iter
        proof { assert(vx_r matches Ok(it) ==> it.inv(context.src(), start as int)); }
@@ in ParseIter for MapParseIter
    spec fn needs(&self) -> Set<usize> { self.inner.needs() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool { self.inner.inv(src, lo) }
    spec fn cur(&self) -> (int, Conv<F::RawOutput>) {
        (self.inner.cur().0, map_f::<P::RawOutput, F>(*self.mapper)(self.inner.cur().0, self.inner.cur().1))
    }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<F::RawOutput>> { map_tr(self.inner.later(src), map_f::<P::RawOutput, F>(*self.mapper)) }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {
        self.inner.lemma_inv(src, lo);
        lemma_map_wf(src, lo, self.inner.later(src), map_f::<P::RawOutput, F>(*self.mapper));
    }
@@ entry ParseIter for MapParseIter::match_end
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.inner.inv(s, l)); }
@@ entry ParseIter for MapParseIter::convert
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.inner.inv(s, l)); }
@@ entry ParseIter for MapParseIter::backtrack
        let ghost vx_it0 = *self;
        proof {
            let l = choose|l: int| #[trigger] self.inv(context.src(), l); assert(self.inner.inv(context.src(), l));
            lemma_step_map(self.inner.later(context.src()), map_f::<P::RawOutput, F>(*self.mapper), context.err());
        }
@@ bindtail ParseIter for MapParseIter::backtrack
        proof { if vx_r is Ok { assert forall|lo: int| #[trigger] vx_it0.inv(context.src(), lo) implies self.inv(context.src(), lo) by { assert(vx_it0.inner.inv(context.src(), lo)); } } }
@@ sig map
    ensures r.inner == parser, r.mapper == mapper
@@ sig skip
    ensures r.inner == parser
@@ sig single_value
    ensures r.inner == parser

@# ------------------------------------------------------------------ either.rs
@@ append either-spec
spec fn left_f<A: ParserOutput, B>() -> spec_fn(int, Conv<A>) -> Conv<(Either<A::UserType, B>,)> {
    |p: int, c: Conv<A>| Conv { pre: c.pre, post: |o: (Either<A::UserType, B>,)| exists|v: A| #[trigger] (c.post)(v) && o.0 == Either::<A::UserType, B>::Left(v.user()), n: c.n }
}
spec fn right_f<A, B: ParserOutput>() -> spec_fn(int, Conv<B>) -> Conv<(Either<A, B::UserType>,)> {
    |p: int, c: Conv<B>| Conv { pre: c.pre, post: |o: (Either<A, B::UserType>,)| exists|v: B| #[trigger] (c.post)(v) && o.0 == Either::<A, B::UserType>::Right(v.user()), n: c.n }
}
@@ in Parser for EitherParser
    spec fn needs(&self) -> Set<usize> { self.left.needs().union(self.right.needs()) }
    spec fn pwf(&self) -> bool { self.left.pwf() && self.right.pwf() }
    /// Everything the left alternative does, then everything the right one does.
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(Either<A::Output, B::Output>,)>> {
        map_tr(self.left.trace(src, start), left_f::<A::RawOutput, B::Output>())
            + map_tr(self.right.trace(src, start), right_f::<A::Output, B::RawOutput>())
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        self.left.lemma_trace(src, start); self.right.lemma_trace(src, start);
        lemma_map_wf(src, start, self.left.trace(src, start), left_f::<A::RawOutput, B::Output>());
        lemma_map_wf(src, start, self.right.trace(src, start), right_f::<A::Output, B::RawOutput>());
        lemma_append_wf(src, start, map_tr(self.left.trace(src, start), left_f::<A::RawOutput, B::Output>()), map_tr(self.right.trace(src, start), right_f::<A::Output, B::RawOutput>()));
    }
@@ entry Parser for EitherParser::parse_iter
        proof {
            let src = context.src(); let l = self.left.trace(src, start as int); let r = self.right.trace(src, start as int);
            lemma_step_map(l, left_f::<A::RawOutput, B::Output>(), context.err());
            lemma_step_append(map_tr(l, left_f::<A::RawOutput, B::Output>()), map_tr(r, right_f::<A::Output, B::RawOutput>()), context.err());
            lemma_step_map(r, right_f::<A::Output, B::RawOutput>(), step(l, context.err()).err);
        }
@@ bindtail Parser for EitherParser::parse_iter
        proof { assert(vx_r matches Ok(it) ==> it.inv(context.src(), start as int)); }
@@ in ParseIter for EitherParseIter
    spec fn needs(&self) -> Set<usize> { self.parsers.left.needs().union(self.parsers.right.needs()).union(match self.iter { Either::Left(it) => it.needs(), Either::Right(it) => it.needs() }) }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        self.parsers.left.pwf() && self.parsers.right.pwf() && lo <= self.start && bd(src, self.start as int) && match self.iter {
            Either::Left(it) => it.inv(src, self.start as int),
            Either::Right(it) => it.inv(src, self.start as int),
        }
    }
    spec fn cur(&self) -> (int, Conv<(Either<A::Output, B::Output>,)>) {
        match self.iter {
            Either::Left(it) => (it.cur().0, left_f::<A::RawOutput, B::Output>()(it.cur().0, it.cur().1)),
            Either::Right(it) => (it.cur().0, right_f::<A::Output, B::RawOutput>()(it.cur().0, it.cur().1)),
        }
    }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(Either<A::Output, B::Output>,)>> {
        match self.iter {
            Either::Left(it) => map_tr(it.later(src), left_f::<A::RawOutput, B::Output>())
                + map_tr(self.parsers.right.trace(src, self.start as int), right_f::<A::Output, B::RawOutput>()),
            Either::Right(it) => map_tr(it.later(src), right_f::<A::Output, B::RawOutput>()),
        }
    }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {
        let s = self.start as int;
        match self.iter {
            Either::Left(it) => {
                it.lemma_inv(src, s); self.parsers.right.lemma_trace(src, s);
                lemma_map_wf(src, s, it.later(src), left_f::<A::RawOutput, B::Output>());
                lemma_map_wf(src, s, self.parsers.right.trace(src, s), right_f::<A::Output, B::RawOutput>());
                lemma_append_wf(src, s, map_tr(it.later(src), left_f::<A::RawOutput, B::Output>()), map_tr(self.parsers.right.trace(src, s), right_f::<A::Output, B::RawOutput>()));
            }
            Either::Right(it) => { it.lemma_inv(src, s); lemma_map_wf(src, s, it.later(src), right_f::<A::Output, B::RawOutput>()); }
        }
        lemma_wf_lo(src, s, lo, self.later(src));
    }
@@ entry ParseIter for EitherParseIter::match_end
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l);
            match self.iter { Either::Left(ref it) => { assert(it.inv(s, self.start as int)); } Either::Right(ref it) => { assert(it.inv(s, self.start as int)); } } }
@@ entry ParseIter for EitherParseIter::convert
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l);
            match self.iter { Either::Left(ref it) => { assert(it.inv(s, self.start as int)); } Either::Right(ref it) => { assert(it.inv(s, self.start as int)); } } }
@@ entry ParseIter for EitherParseIter::backtrack
        proof {
            let l = choose|l: int| #[trigger] self.inv(context.src(), l);
            let src = context.src();
            match self.iter {
                Either::Left(ref it) => {
                    assert(it.inv(src, self.start as int));
                    let r = self.parsers.right.trace(src, self.start as int);
                    lemma_step_map(it.later(src), left_f::<A::RawOutput, B::Output>(), context.err());
                    lemma_step_append(map_tr(it.later(src), left_f::<A::RawOutput, B::Output>()), map_tr(r, right_f::<A::Output, B::RawOutput>()), context.err());
                    lemma_step_map(r, right_f::<A::Output, B::RawOutput>(), step(it.later(src), context.err()).err);
                }
                Either::Right(ref it) => {
                    assert(it.inv(src, self.start as int));
                    lemma_step_map(it.later(src), right_f::<A::Output, B::RawOutput>(), context.err());
                }
            }
        }
@@ sig either
    ensures r.left == left, r.right == right
@@ sig alt
    ensures r.inner.left == left, r.inner.right == right,
        forall|e: Either<T, T>| #[trigger] call_requires(r.mapper, (e,)),
        forall|e: Either<T, T>, v: T| #[trigger] call_ensures(r.mapper, (e,), v) ==> v == (match e { Either::Left(a) => a, Either::Right(b) => b }),
@@ closureparams alt 0
Either<T, T>
@@ closure alt 0
-> (v: T) ensures v == (match $0 { Either::Left(a) => a, Either::Right(b) => b })
@@ sig opt
    ensures r.inner.left == pattern,
        forall|e: Either<P::Output, ()>| #[trigger] call_requires(r.mapper, (e,)),
        forall|e: Either<P::Output, ()>, v: Option<P::Output>| #[trigger] call_ensures(r.mapper, (e,), v)
            ==> v == (match e { Either::Left(a) => Some(a), Either::Right(_) => None }),
@@ closureparams opt 0
Either<P::Output, ()>
@@ closure opt 0
-> (v: Option<P::Output>) ensures v == (match $0 { Either::Left(a) => Some(a), Either::Right(_) => None })

@# ---------------------------------------------------------------- sequence.rs
@@ append seq-spec
spec fn tails_f<'parse, P: Parser<'parse>>(p: P, src: Seq<u8>) -> spec_fn(int) -> Seq<Ev<P::RawOutput>> { |i: int| p.trace(src, i) }
spec fn op_f<H, T, Op: BinaryOp<H, T>>() -> spec_fn(int, Conv<(H, T)>) -> Conv<Op::Output> {
    |p: int, c: Conv<(H, T)>| Conv { pre: c.pre, post: |o: Op::Output| exists|h: H, t: T| #[trigger] (c.post)((h, t)) && o == Op::ap(h, t), n: c.n }
}
@@ in trait BinaryOp
    spec fn ap(head: Head, tail: Tail) -> Self::Output;
@@ sig trait BinaryOp::apply
        ensures r == Self::ap(head, tail)
@@ in BinaryOp for Concat
    spec fn ap(head: Head, tail: Tail) -> <Head as RawOutputConcat<Tail>>::Output { head.cat(tail) }
@@ in BinaryOp for Pair
    spec fn ap(head: Head, tail: Tail) -> (Head::UserType, Tail::UserType) { (head.user(), tail.user()) }
@@ in Parser for SequenceParser
    spec fn needs(&self) -> Set<usize> { self.head.needs().union(self.tail.needs()) }
    spec fn pwf(&self) -> bool { self.head.pwf() && self.tail.pwf() }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<Op::Output>> {
        map_tr(seq_tr(self.head.trace(src, start), tails_f::<Tail>(self.tail, src)), op_f::<Head::RawOutput, Tail::RawOutput, Op>())
    }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        self.head.lemma_trace(src, start);
        assert forall|p: int| start <= p && bd(src, p) implies wf_tr(src, p, #[trigger] tails_f::<Tail>(self.tail, src)(p)) && solid(tails_f::<Tail>(self.tail, src)(p)) by { self.tail.lemma_trace(src, p); }
        lemma_seq_wf(src, start, self.head.trace(src, start), tails_f::<Tail>(self.tail, src));
        lemma_map_wf(src, start, seq_tr(self.head.trace(src, start), tails_f::<Tail>(self.tail, src)), op_f::<Head::RawOutput, Tail::RawOutput, Op>());
    }
@@ entry Parser for SequenceParser::parse_iter
        proof {
            let src = context.src(); let h = self.head.trace(src, start as int); let t = tails_f::<Tail>(self.tail, src);
            lemma_seq_step(h, t, context.err());
            lemma_step_map(seq_tr(h, t), op_f::<Head::RawOutput, Tail::RawOutput, Op>(), context.err());
        }
@@ attr first_tail_match
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@@ sig first_tail_match
    requires
        tail.pwf(), old(context).wf(),
        exists|lo: int| #[trigger] old(head).inv(old(context).src(), lo),
        old(head).needs().subset_of(old(context).rules()), tail.needs().subset_of(old(context).rules()),
    ensures
        final(context).wf(), final(context).source == old(context).source,
        old(context).rules().subset_of(final(context).rules()),
        ({
            let src = final(context).src();
            let tails = tails_f::<Tail>(*tail, src);
            let s = step(seq_tr(pend(old(head).cur(), old(head).later(src)), tails), old(context).err());
            match r {
                Ok(t) => t.inv(src, final(head).cur().0)
                    && final(head).needs().subset_of(final(context).rules()) && t.needs().subset_of(final(context).rules())
                    && (forall|lo: int| #[trigger] old(head).inv(src, lo) ==> final(head).inv(src, lo))
                    && s == (St {
                        m: Some((t.cur().0, conv_pair(final(head).cur().1, t.cur().1))),
                        rest: map_tr(t.later(src), pair_f::<Head::RawOutput, Tail::RawOutput>(final(head).cur().1)) + seq_tr(final(head).later(src), tails),
                        err: final(context).err() }),
                Err(_) => s.m is None && s.err == final(context).err(),
            }
        })
@@ entry first_tail_match
    let ghost vx_src = context.src();
    let ghost vx_tails = tails_f::<Tail>(*tail, context.src());
    let ghost vx_head0 = *head;
    let ghost vx_goal = step(seq_tr(pend(head.cur(), head.later(vx_src)), vx_tails), context.err());
    let ghost vx_ctx0 = *context;
@@ loop first_tail_match 0
        invariant
            tail.pwf(), context.wf(), vx_ctx0 == *old(context), vx_head0 == *old(head), context.source == vx_ctx0.source, vx_src == context.src(),
            head.needs().subset_of(context.rules()), tail.needs().subset_of(context.rules()), vx_ctx0.rules().subset_of(context.rules()),
            vx_tails == tails_f::<Tail>(*tail, vx_src),
            exists|lo: int| #[trigger] head.inv(vx_src, lo),
            forall|lo: int| #[trigger] vx_head0.inv(vx_src, lo) ==> head.inv(vx_src, lo),
            vx_goal == step(seq_tr(pend(head.cur(), head.later(vx_src)), vx_tails), context.err()),
            vx_goal == step(seq_tr(pend(vx_head0.cur(), vx_head0.later(vx_src)), vx_tails), vx_ctx0.err()),
        decreases head.later(vx_src).len()
@@ loopbody first_tail_match 0
        proof {
            let lo = choose|lo: int| #[trigger] head.inv(vx_src, lo);
            head.lemma_inv(vx_src, lo);
            let m = head.cur(); let l = head.later(vx_src);
            let tt = tail.trace(vx_src, m.0);
            lemma_seq_pend(m, l, vx_tails);
            lemma_step_append(map_tr(tt, pair_f::<Head::RawOutput, Tail::RawOutput>(m.1)), seq_tr(l, vx_tails), context.err());
            lemma_step_map(tt, pair_f::<Head::RawOutput, Tail::RawOutput>(m.1), context.err());
            lemma_seq_step(l, vx_tails, step(tt, context.err()).err);
            lemma_step_rest(l, step(tt, context.err()).err);
        }
@@ bindtail Parser for SequenceParser::parse_iter
        proof { assert(vx_r matches Ok(it) ==> it.inv(context.src(), start as int)); }
@@ in ParseIter for SequenceParseIter
    spec fn needs(&self) -> Set<usize> { self.parsers.head.needs().union(self.parsers.tail.needs()).union(self.head_iter.needs()).union(self.tail_iter.needs()) }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        self.parsers.head.pwf() && self.parsers.tail.pwf() && self.head_iter.inv(src, lo) && self.tail_iter.inv(src, self.head_iter.cur().0)
    }
    spec fn cur(&self) -> (int, Conv<Op::Output>) {
        (self.tail_iter.cur().0, op_f::<Head::RawOutput, Tail::RawOutput, Op>()(self.tail_iter.cur().0, conv_pair(self.head_iter.cur().1, self.tail_iter.cur().1)))
    }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<Op::Output>> {
        map_tr(map_tr(self.tail_iter.later(src), pair_f::<Head::RawOutput, Tail::RawOutput>(self.head_iter.cur().1))
            + seq_tr(self.head_iter.later(src), tails_f::<Tail>(self.parsers.tail, src)), op_f::<Head::RawOutput, Tail::RawOutput, Op>())
    }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {
        self.head_iter.lemma_inv(src, lo);
        let m = self.head_iter.cur().0;
        self.tail_iter.lemma_inv(src, m);
        let tails = tails_f::<Tail>(self.parsers.tail, src);
        let a = map_tr(self.tail_iter.later(src), pair_f::<Head::RawOutput, Tail::RawOutput>(self.head_iter.cur().1));
        lemma_map_wf(src, m, self.tail_iter.later(src), pair_f::<Head::RawOutput, Tail::RawOutput>(self.head_iter.cur().1));
        lemma_wf_lo(src, m, lo, a);
        assert forall|p: int| lo <= p && bd(src, p) implies wf_tr(src, p, #[trigger] tails(p)) && solid(tails(p)) by { self.parsers.tail.lemma_trace(src, p); }
        lemma_seq_wf(src, lo, self.head_iter.later(src), tails);
        lemma_append_wf(src, lo, a, seq_tr(self.head_iter.later(src), tails));
        lemma_map_wf(src, lo, a + seq_tr(self.head_iter.later(src), tails), op_f::<Head::RawOutput, Tail::RawOutput, Op>());
    }
@@ entry ParseIter for SequenceParseIter::match_end
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.tail_iter.inv(s, self.head_iter.cur().0)); }
@@ entry ParseIter for SequenceParseIter::convert
        proof { let (s, l) = choose|s: Seq<u8>, l: int| #[trigger] self.inv(s, l); assert(self.tail_iter.inv(s, self.head_iter.cur().0)); assert(self.head_iter.inv(s, l));
            assert forall|h: Head::RawOutput, t: Tail::RawOutput| #[trigger] (self.head_iter.cur().1.post)(h) && #[trigger] (self.tail_iter.cur().1.post)(t)
                implies (conv_pair(self.head_iter.cur().1, self.tail_iter.cur().1).post)((h, t)) by {}
        }
@@ entry ParseIter for SequenceParseIter::backtrack
        let ghost vx_it0 = *self;
        proof {
            let src = context.src();
            let l = choose|l: int| #[trigger] self.inv(src, l); assert(self.tail_iter.inv(src, self.head_iter.cur().0)); assert(self.head_iter.inv(src, l));
            let tails = tails_f::<Tail>(self.parsers.tail, src);
            let pf = pair_f::<Head::RawOutput, Tail::RawOutput>(self.head_iter.cur().1);
            let a = map_tr(self.tail_iter.later(src), pf);
            let b = seq_tr(self.head_iter.later(src), tails);
            lemma_step_map(a + b, op_f::<Head::RawOutput, Tail::RawOutput, Op>(), context.err());
            lemma_step_append(a, b, context.err());
            lemma_step_map(self.tail_iter.later(src), pf, context.err());
            lemma_seq_step(self.head_iter.later(src), tails, step(self.tail_iter.later(src), context.err()).err);
            assert forall|lo: int| #[trigger] vx_it0.inv(src, lo) implies vx_it0.head_iter.inv(src, lo) by {}
        }
@@ sig sequence
    ensures r.head == head, r.tail == tail
@@ sig pair
    ensures r.head == head, r.tail == tail
