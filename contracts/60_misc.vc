@# Contracts: collections.rs rule_set.rs util.rs lib.rs types.rs
@@ append collections-spec
impl<C> Collect<C> {
    /// stands for `#[derive(Default)]`
    fn default() -> (r: Collect<C>) { Collect { phantom: PhantomData } }
}
@# ------------------------------------------------------------------- util.rs
@@ extend aoc_parse
*
@@ append util-spec
/// The text `aoc_parse` parses: the input, with a final newline supplied if missing.
spec fn with_newline(s: Seq<char>) -> Seq<char> {
    let b = encode_utf8(s);
    if at(b, b.len() - 1, char_bytes('\n')) { s } else { s.push('\n') }
}
/// `x` is what the caller's error type makes of the parse error `e`.
spec fn err_from<E: From<ParseError>>(e: ParseError, x: E) -> bool {
    vstd::std_specs::control_flow::spec_from::<E, ParseError>(e, x) || call_ensures(<E as From<ParseError>>::from, (e,), x)
}
@# `T::from(e)`, `e.into()`: what `?` applies to the error.
@@ append util-from
#[verifier::external_body]
fn vx_from<S, T: From<S>>(s: S) -> (r: T) ensures vstd::std_specs::control_flow::spec_from::<T, S>(s, r) { T::from(s) }
#[verifier::external_body]
fn vx_into<S, T: From<S>>(s: S) -> (r: T) ensures vstd::std_specs::control_flow::spec_from::<T, S>(s, r) { T::from(s) }
@@ sig aoc_parse
    requires
        parser.pwf(), parser.needs().subset_of(Set::empty()),
        forall|i: int| #[trigger] first_full(parser.trace(encode_utf8(with_newline(puzzle_input@)), 0), encode_utf8(with_newline(puzzle_input@)).len() as int, i)
            ==> parser.trace(encode_utf8(with_newline(puzzle_input@)), 0)[i]->M_1.pre,
    ensures
        match r {
            Ok(v) => exists|i: int, raw: P::RawOutput| #[trigger] first_full(parser.trace(encode_utf8(with_newline(puzzle_input@)), 0), encode_utf8(with_newline(puzzle_input@)).len() as int, i)
                && #[trigger] (parser.trace(encode_utf8(with_newline(puzzle_input@)), 0)[i]->M_1.post)(raw) && v == raw.user(),
            Err(x) => (forall|i: int| !#[trigger] full_at(parser.trace(encode_utf8(with_newline(puzzle_input@)), 0), encode_utf8(with_newline(puzzle_input@)).len() as int, i))
                && exists|e: ParseError| #[trigger] err_from::<E>(e, x) && e.source@ == with_newline(puzzle_input@) && e.wf()
                    && foremost(full_tr(parser.trace(encode_utf8(with_newline(puzzle_input@)), 0), encode_utf8(with_newline(puzzle_input@)).len() as int, ReasonV::Extra), e.ev()),
        }
@@ entry aoc_parse
    proof {
        lemma_nl_utf8(); lemma_str(puzzle_input);
        assert forall|e: ParseError, x: E| #[trigger] vstd::std_specs::control_flow::spec_from::<E, ParseError>(e, x) implies err_from::<E>(e, x) by {}
        assert forall|e: ParseError, x: E| #[trigger] call_ensures(<E as From<ParseError>>::from, (e,), x) implies err_from::<E>(e, x) by {}
        assert forall|t: &str| #[trigger] t.spec_bytes() == encode_utf8(t@) by { lemma_str(t); }
        let b = encode_utf8(puzzle_input@);
        reveal_strlit("\n"); reveal_strlit("{}\n");
        axiom_fmt_str("{}\n"@, puzzle_input@);
        assert(puzzle_input@ + "{}\n"@.skip(2) =~= puzzle_input@.push('\n'));
        assert(puzzle_input@ + "\n"@ =~= puzzle_input@.push('\n'));
        assert forall|t: &str| (if at(b, b.len() - 1, char_bytes('\n')) { t@ == puzzle_input@ } else { t@ == puzzle_input@.push('\n') })
            implies #[trigger] t.spec_bytes() == encode_utf8(with_newline(puzzle_input@)) by { lemma_str(t); }
    }
@@ bindtail aoc_parse
    proof {
        let tr = parser.trace(encode_utf8(with_newline(puzzle_input@)), 0);
        let n = encode_utf8(with_newline(puzzle_input@)).len() as int;
        if vx_r is Err {
            let x = vx_r->Err_0;
            assert(forall|i: int| !#[trigger] full_at(tr, n, i));
            assert(exists|e: ParseError| #[trigger] err_from::<E>(e, x) && e.source@ == with_newline(puzzle_input@) && e.wf() && foremost(full_tr(tr, n, ReasonV::Extra), e.ev()));
        }
    }
@# ------------------------------------------------------------- collections.rs
@@ in Mapping for Collect
    spec fn cost(&self) -> nat { 0 }
    spec fn map_pre(&self, v: (V,)) -> bool { true }
    /// `v.into_iter().collect()`, whose meaning is left to std.
    spec fn map_post(&self, v: (V,), r: (C,)) -> bool { collected(v.0, r.0) }
@@ sig hash_map
    ensures r.inner == parser
@@ sig hash_set
    ensures r.inner == parser
@@ sig btree_map
    ensures r.inner == parser
@@ sig btree_set
    ensures r.inner == parser
@@ sig vec_deque
    ensures r.inner == parser

@# ---------------------------------------------------------------- rule_set.rs
@@ append rules-spec
/// What rule `idx` of rule set `id` does (the least solution of the grammar's equations).
uninterp spec fn rule_trace<T>(id: usize, idx: usize, src: Seq<u8>, start: int) -> Seq<Ev<(T,)>>;
/// The rule sets in scope inside rule set `id` (itself included).
uninterp spec fn rule_env(id: usize) -> Set<usize>;
/// A boxed parser that does what `p` does, its output made a single value.
spec fn boxes<'parse, T: 'static, P: Parser<'parse, Output = T>>(d: DynParser<T>, p: P) -> bool {
    forall|src: Seq<u8>, start: int| #[trigger] d.trace(src, start) == map_tr(p.trace(src, start), map_f::<P::RawOutput, SingleValue>(SingleValue))
}
@@ in Parser for RuleParser
    spec fn needs(&self) -> Set<usize> { rule_env(self.rule_set_id) }
    /// The grammar defines this rule, with this type, and gives it a meaning.
    spec fn pwf(&self) -> bool {
        &&& rule_env(self.rule_set_id).contains(self.rule_set_id)
        &&& self.index < rule_def(self.rule_set_id).len()
        &&& (match rule_def(self.rule_set_id)[self.index as int].holds::<DynParser<T>>() {
                Some(p) => p.pwf() && p.needs().subset_of(rule_env(self.rule_set_id))
                    && forall|src: Seq<u8>, start: int| bd(src, start) ==> #[trigger] p.trace(src, start) == rule_trace::<T>(self.rule_set_id, self.index, src, start),
                None => false,
            })
    }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(T,)>> { rule_trace::<T>(self.rule_set_id, self.index, src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) {
        let p = rule_def(self.rule_set_id)[self.index as int].holds::<DynParser<T>>()->Some_0;
        p.lemma_trace(src, start);
        assert(p.trace(src, start) == self.trace(src, start));
    }
@@ in Parser for RuleSetParser
    spec fn needs(&self) -> Set<usize> { rule_env(self.id.addr()).remove(self.id.addr()) }
    spec fn pwf(&self) -> bool {
        &&& rule_def(self.id.addr()) == self.rule_parsers@
        &&& self.entry_parser.pwf()
        &&& self.entry_parser.needs().subset_of(rule_env(self.id.addr()))
    }
    spec fn trace(&self, src: Seq<u8>, start: int) -> Seq<Ev<(T,)>> { self.entry_parser.trace(src, start) }
    proof fn lemma_trace(&self, src: Seq<u8>, start: int) { self.entry_parser.lemma_trace(src, start); }
@@ sig impl RuleSetBuilder::new
    ensures r.capacity == 0, r.rule_parsers@.len() == 0
@@ sig impl RuleSetBuilder::id
    ensures r == self.id.addr()
@@ sig impl RuleSetParser::id
    ensures r == self.id.addr()
@@ sig impl RuleSetBuilder::new_rule
    requires old(self).capacity < usize::MAX
    ensures r.index == old(self).capacity, r.rule_set_id == old(self).id.addr(),
        final(self).capacity == old(self).capacity + 1, final(self).id == old(self).id, final(self).rule_parsers == old(self).rule_parsers
@@ sig impl RuleSetBuilder::assign_parser_for_rule
    requires nt.rule_set_id == old(self).id.addr(), nt.index == old(self).rule_parsers@.len()
    ensures final(self).id == old(self).id, final(self).capacity == old(self).capacity,
        final(self).rule_parsers@.len() == nt.index + 1,
        final(self).rule_parsers@.drop_last() == old(self).rule_parsers@,
        final(self).rule_parsers@[nt.index as int].holds::<DynParser<T>>() matches Some(p) && (parser.pwf() ==> p.pwf()) && p.needs() == parser.needs()
            && boxes(p, parser)
@@ sig impl RuleSetBuilder::build
    ensures r.id == self.id, r.rule_parsers == self.rule_parsers,
        parser.pwf() ==> r.entry_parser.pwf(), r.entry_parser.needs() == parser.needs(),
        boxes(r.entry_parser, parser)
@@ sig Clone for RuleParser::clone
    ensures r == *self
