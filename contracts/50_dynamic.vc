@# Contracts: parsers/dynamic.rs (type-erased parsers and iterators)
@@ append dynamic
/// What `lemma_inv` says of an iterator standing on `m` with `l` to come.
spec fn it_ok<R>(src: Seq<u8>, lo: int, m: (int, Conv<R>), l: Seq<Ev<R>>) -> bool {
    lo <= m.0 && bd(src, m.0) && wf_tr(src, lo, l)
}
/// Object-safe mirror of `ParseIter` (the crate writes `dyn ParseIter<RawOutput = ..>`).
trait VxDyn<'parse, R> {
    spec fn dinv(&self, src: Seq<u8>, lo: int) -> bool;
    spec fn dcur(&self) -> (int, Conv<R>);
    spec fn dneeds(&self) -> Set<usize>;
    spec fn dlater(&self, src: Seq<u8>) -> Seq<Ev<R>>;
    fn dmatch_end(&self) -> (r: usize)
        requires exists|src: Seq<u8>, lo: int| #[trigger] self.dinv(src, lo)
        ensures r == self.dcur().0;
    fn dbacktrack(&mut self, context: &mut ParseContext<'parse>) -> (r: std::result::Result<(), Reported>)
        requires
            old(context).wf(),
            exists|lo: int| #[trigger] old(self).dinv(old(context).src(), lo),
            old(self).dneeds().subset_of(old(context).rules()),
        ensures
            final(context).wf(),
            final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            match r {
                Ok(_) => final(self).dneeds().subset_of(final(context).rules()) && (forall|lo: int| #[trigger] old(self).dinv(final(context).src(), lo) ==> final(self).dinv(final(context).src(), lo)
                        && it_ok(final(context).src(), lo, final(self).dcur(), final(self).dlater(final(context).src())))
                    && steps_to(old(self).dlater(final(context).src()), old(context).err(), final(self).dcur(), final(self).dlater(final(context).src()), final(context).err()),
                Err(_) => step(old(self).dlater(final(context).src()), old(context).err()).m is None
                    && step(old(self).dlater(final(context).src()), old(context).err()).err == final(context).err(),
            };
    fn dconvert(&self, Tracked(vx_fuel): Tracked<&mut VxFuel>) -> (r: R)
        requires
            exists|src: Seq<u8>, lo: int| #[trigger] self.dinv(src, lo),
            self.dcur().1.pre,
            old(vx_fuel).n >= self.dcur().1.n,
        ensures
            (self.dcur().1.post)(r),
            final(vx_fuel).n == old(vx_fuel).n - self.dcur().1.n;
}
impl<'parse, I: ParseIter<'parse>> VxDyn<'parse, I::RawOutput> for I {
    spec fn dinv(&self, src: Seq<u8>, lo: int) -> bool { self.inv(src, lo) }
    spec fn dcur(&self) -> (int, Conv<I::RawOutput>) { self.cur() }
    spec fn dneeds(&self) -> Set<usize> { self.needs() }
    spec fn dlater(&self, src: Seq<u8>) -> Seq<Ev<I::RawOutput>> { self.later(src) }
    fn dmatch_end(&self) -> (r: usize) {
        proof { let (src, lo) = choose|src: Seq<u8>, lo: int| #[trigger] self.dinv(src, lo); assert(self.inv(src, lo)); }
        self.match_end()
    }
    fn dbacktrack(&mut self, context: &mut ParseContext<'parse>) -> (r: std::result::Result<(), Reported>) {
        let ghost it0 = *self;
        proof { let lo = choose|lo: int| #[trigger] self.dinv(context.src(), lo); assert(self.inv(context.src(), lo)); }
        let r = self.backtrack(context);
        proof { if r is Ok { assert forall|lo: int| #[trigger] it0.dinv(context.src(), lo) implies self.dinv(context.src(), lo) && it_ok(context.src(), lo, self.dcur(), self.dlater(context.src()))
            by { assert(it0.inv(context.src(), lo)); self.lemma_inv(context.src(), lo); } } }
        r
    }
    fn dconvert(&self, Tracked(vx_fuel): Tracked<&mut VxFuel>) -> (r: I::RawOutput) {
        proof { let (src, lo) = choose|src: Seq<u8>, lo: int| #[trigger] self.dinv(src, lo); assert(self.inv(src, lo)); }
        self.convert(Tracked(&mut *vx_fuel))
    }
}
@@ in ParseIter for DynParseIter
    spec fn needs(&self) -> Set<usize> { self.inner.dneeds() }
    spec fn inv(&self, src: Seq<u8>, lo: int) -> bool {
        self.inner.dinv(src, lo) && it_ok(src, lo, self.inner.dcur(), self.inner.dlater(src))
    }
    spec fn cur(&self) -> (int, Conv<(T,)>) { self.inner.dcur() }
    spec fn later(&self, src: Seq<u8>) -> Seq<Ev<(T,)>> { self.inner.dlater(src) }
    proof fn lemma_inv(&self, src: Seq<u8>, lo: int) {}
@@ in trait MyDynParserTrait
    spec fn dpwf(&self) -> bool;
    spec fn dneeds(&self) -> Set<usize>;
    spec fn dtrace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(Out,)>>;
@@ sig trait MyDynParserTrait::parse_iter
        requires
            self.dpwf(), old(context).wf(), bd(old(context).src(), start as int),
            self.dneeds().subset_of(old(context).rules()),
        ensures
            final(context).wf(),
            final(context).source == old(context).source,
            old(context).rules().subset_of(final(context).rules()),
            match r {
                Ok(it) => it.inv(final(context).src(), start as int)
                    && it.needs().subset_of(final(context).rules())
                    && steps_to(self.dtrace(final(context).src(), start as int), old(context).err(), it.cur(), it.later(final(context).src()), final(context).err()),
                Err(_) => step(self.dtrace(final(context).src(), start as int), old(context).err()).m is None
                    && step(self.dtrace(final(context).src(), start as int), old(context).err()).err == final(context).err(),
            }
@@ in MyDynParserTrait for SingleValueParser
    spec fn dpwf(&self) -> bool { self.pwf() }
    spec fn dneeds(&self) -> Set<usize> { self.needs() }
    spec fn dtrace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(P::Output,)>> { self.trace(src, start) }
@@ entry MyDynParserTrait for SingleValueParser::parse_iter
        proof { assert forall|it: MapParseIter<'parse, P, SingleValue>, s: Seq<u8>, lo: int| #[trigger] it.inv(s, lo) implies it_ok(s, lo, it.cur(), it.later(s)) by { it.lemma_inv(s, lo); } }
@@ bindtail MyDynParserTrait for SingleValueParser::parse_iter
        proof { assert(vx_r matches Ok(it) ==> it.inv(context.src(), start as int)); }
@@ in Parser for DynParser
    spec fn needs(&self) -> Set<usize> { self.inner.dneeds() }
    spec fn pwf(&self) -> bool {
        self.inner.dpwf() && forall|src: Seq<u8>, start: int| bd(src, start) ==>
            wf_tr(src, start, #[trigger] self.inner.dtrace(src, start)) && solid(self.inner.dtrace(src, start))
    }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(Out,)>> { self.inner.dtrace(src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {}
@@ sig impl DynParser::new
        ensures parser.pwf() ==> r.pwf(), r.needs() == parser.needs(),
            forall|src: Seq<u8>, start: int| #[trigger] r.trace(src, start)
                == map_tr(parser.trace(src, start), map_f::<P::RawOutput, SingleValue>(SingleValue))
@@ entry impl DynParser::new
        proof {
            assert forall|src: Seq<u8>, start: int, q: MapParser<P, SingleValue>| parser.pwf() && q.inner == parser && bd(src, start) implies
                wf_tr(src, start, #[trigger] q.trace(src, start)) && solid(q.trace(src, start)) by { q.lemma_trace(src, start); }
        }
