@# What parser each `parser!` form of src/lib.rs is, for every sub-pattern: `head`/`tail`
@# of sequences, `left`/`right` of alternatives, `pattern`/`sep`/`min` of repetitions,
@# and what the mapper computes. The meaning of those parsers is in the other contracts.
@@ tail form_one
    proof { assert(f.inner == a); }
@@ tail form_seq2
    proof { assert(f.inner.head == a && f.inner.tail == b); }
@@ tail form_seq3
    proof { assert(f.inner.head == a && f.inner.tail.head == b && f.inner.tail.tail == c); }
@@ tail form_seq5
    proof { assert(f.inner.head == a && f.inner.tail.head == b && f.inner.tail.tail.head == c && f.inner.tail.tail.tail.head == d && f.inner.tail.tail.tail.tail == e); }
@@ tail form_literals
    proof { assert(f.inner.head@ == "one"@ && f.inner.tail.head == a && f.inner.tail.tail.head == 'c' && f.inner.tail.tail.tail@ == "two"@); }
@@ tail form_star
    proof { assert(f.inner.pattern == a && f.inner.min == 0 && rep_ok(f.inner)); }
@@ tail form_plus
    proof { assert(f.inner.pattern == a && f.inner.min == 1 && rep_ok(f.inner)); }
@@ tail form_opt
    proof { assert(f.inner.inner.left == a); assert(is_opt(f.inner.mapper)); }
@@ tail form_quantified
    proof {
        assert(f.inner.head.pattern == a && f.inner.head.min == 0 && rep_ok(f.inner.head));
        assert(f.inner.tail.head.pattern == b && f.inner.tail.head.min == 1 && rep_ok(f.inner.tail.head));
        assert(f.inner.tail.tail.head.inner.left == c && is_opt(f.inner.tail.tail.head.mapper));
        assert(f.inner.tail.tail.tail == d);
    }
@@ tail form_group
    proof { assert(f.inner.head.inner.head == a && f.inner.head.inner.tail == b && f.inner.tail == c); }
@@ tail form_group_quantified
    proof {
        assert(f.inner.head@ == "x"@);
        assert(f.inner.tail.head.pattern.inner.head == b && f.inner.tail.head.pattern.inner.tail == c && f.inner.tail.head.min == 0 && rep_ok(f.inner.tail.head));
        assert(f.inner.tail.tail.head.pattern.inner.head == c && f.inner.tail.tail.head.pattern.inner.tail == a && f.inner.tail.tail.head.min == 1 && rep_ok(f.inner.tail.tail.head));
        assert(f.inner.tail.tail.tail.inner.left.inner.head == a && f.inner.tail.tail.tail.inner.left.inner.tail == a && is_opt(f.inner.tail.tail.tail.mapper));
    }
@@ tail form_call
    proof { assert(f.inner.pattern == a && f.inner.sep == b && f.inner.min == 0 && rep_ok(f.inner)); }
@@ tail form_call_seq
    proof {
        assert(f.inner.head == a);
        assert(f.inner.tail.head.pattern.head == b && f.inner.tail.head.pattern.tail == c && f.inner.tail.head.sep == a && f.inner.tail.head.min == 0 && rep_ok(f.inner.tail.head));
        assert(f.inner.tail.tail == c);
    }
@@ tail form_call_group
    proof {
        let q = f.inner.pattern;
        assert(f.inner.min == 1 && rep_ok(f.inner));
        assert(q.pattern.pattern.inner.head == a && q.pattern.pattern.inner.tail == b && q.pattern.min == 0 && rep_ok(q.pattern));
        assert(q.sep.inner.left == c && is_opt(q.sep.mapper) && q.min == 0 && rep_ok(q));
    }
@@ tail form_line
    proof { assert(f.inner.parser.head == a && f.inner.parser.tail == b); }
@@ tail form_lines
    proof {
        assert(f.inner.head.pattern.parser.head == a && f.inner.head.pattern.parser.tail == b && f.inner.head.min == 0 && rep_ok(f.inner.head));
        assert(f.inner.tail.parser == a);
    }
@@ tail form_sections
    proof {
        assert(f.inner.head.parser == a);
        assert(f.inner.tail.pattern.parser.parser == b && f.inner.tail.min == 0 && rep_ok(f.inner.tail));
    }
@@ tail form_string
    proof { assert(f.inner.parser.head == a && f.inner.parser.tail == b); }
@@ closure form_map 0
    -> (o: u8) ensures o == 7u8
@@ tail form_map
    proof {
        assert(f.inner.inner.head == a && f.inner.inner.tail == b);
        assert(forall|x: T, y: T| #[trigger] call_requires(f.inner.mapper, ((x, y),)));
        assert(forall|x: T, y: T, o: u8| #[trigger] call_ensures(f.inner.mapper, ((x, y),), o) ==> o == 7);
    }
@@ closure form_map_one 0
    -> (o: (T, u8)) ensures o == ($0, 7u8)
@@ tail form_map_one
    proof {
        assert(f.inner.inner == a);
        assert(forall|x: T| #[trigger] call_requires(f.inner.mapper, (x,)));
        assert(forall|x: T, o: (T, u8)| #[trigger] call_ensures(f.inner.mapper, (x,), o) ==> o == (x, 7u8));
    }
@@ closure form_map_first 0
    -> (o: T) ensures o == $0.0
@@ tail form_map_first
    proof {
        assert(f.inner.inner.head == a && f.inner.inner.tail.head == b && f.inner.inner.tail.tail == c);
        assert(forall|x: T, y: T, z: T| #[trigger] call_requires(f.inner.mapper, ((x, (y, z)),)));
        assert(forall|x: T, y: T, z: T, o: T| #[trigger] call_ensures(f.inner.mapper, ((x, (y, z)),), o) ==> o == x);
    }
@@ closure form_map_middle 0
    -> (o: T) ensures o == $0.1.0
@@ tail form_map_middle
    proof {
        assert(f.inner.inner.head == a && f.inner.inner.tail.head == b && f.inner.inner.tail.tail == c);
        assert(forall|x: T, y: T, z: T| #[trigger] call_requires(f.inner.mapper, ((x, (y, z)),)));
        assert(forall|x: T, y: T, z: T, o: T| #[trigger] call_ensures(f.inner.mapper, ((x, (y, z)),), o) ==> o == y);
    }
@@ closure form_map_last 0
    -> (o: T) ensures o == $0.1.1
@@ tail form_map_last
    proof {
        assert(f.inner.inner.head == a && f.inner.inner.tail.head == b && f.inner.inner.tail.tail == c);
        assert(forall|x: T, y: T, z: T| #[trigger] call_requires(f.inner.mapper, ((x, (y, z)),)));
        assert(forall|x: T, y: T, z: T, o: T| #[trigger] call_ensures(f.inner.mapper, ((x, (y, z)),), o) ==> o == z);
    }
@@ closure form_map_labels 0
    -> (o: (T, T, T, T)) ensures o == ($0.1.1.1, $0.1.0, $0.0, $0.1.1.0)
@@ tail form_map_labels
    proof {
        assert(f.inner.inner.head == a && f.inner.inner.tail.head == b && f.inner.inner.tail.tail.head == c && f.inner.inner.tail.tail.tail == d);
        assert(forall|w: T, x: T, y: T, z: T| #[trigger] call_requires(f.inner.mapper, ((w, (x, (y, z))),)));
        assert(forall|w: T, x: T, y: T, z: T, o: (T, T, T, T)| #[trigger] call_ensures(f.inner.mapper, ((w, (x, (y, z))),), o) ==> o == (z, x, w, y));
    }
@@ closure form_map_literals 0
    -> (o: (T, T)) ensures o == ($0.1.1.1.0, $0.1.0)
@@ tail form_map_literals
    proof {
        assert(f.inner.inner.head@ == "p"@ && f.inner.inner.tail.head == a && f.inner.inner.tail.tail.head == ',' && f.inner.inner.tail.tail.tail.head == b && f.inner.inner.tail.tail.tail.tail@ == "q"@);
        assert(forall|x: T, y: T| #[trigger] call_requires(f.inner.mapper, (((), (x, ((), (y, ())))),)));
        assert(forall|x: T, y: T, o: (T, T)| #[trigger] call_ensures(f.inner.mapper, (((), (x, ((), (y, ())))),), o) ==> o == (y, x));
    }
@@ closure form_map_quantified 0
    -> (o: (Option<T>, Vec<T>)) ensures o == ($0.1.1, $0.0)
@@ tail form_map_quantified
    proof {
        assert(f.inner.inner.head.pattern == a && f.inner.inner.head.min == 0 && rep_ok(f.inner.inner.head));
        assert(f.inner.inner.tail.head.pattern == b && f.inner.inner.tail.head.min == 1 && rep_ok(f.inner.inner.tail.head));
        assert(f.inner.inner.tail.tail.inner.left == c && is_opt(f.inner.inner.tail.tail.mapper));
        assert(forall|x: Vec<T>, z: Vec<T>, y: Option<T>| #[trigger] call_requires(f.inner.mapper, ((x, (z, y)),)));
        assert(forall|x: Vec<T>, z: Vec<T>, y: Option<T>, o: (Option<T>, Vec<T>)| #[trigger] call_ensures(f.inner.mapper, ((x, (z, y)),), o) ==> o == (y, x));
    }
@@ closure form_map_group 0
    -> (o: (T, (T, T))) ensures o == ($0.1, $0.0)
@@ tail form_map_group
    proof {
        assert(f.inner.inner.head.inner.head == a && f.inner.inner.head.inner.tail == b && f.inner.inner.tail == c);
        assert(forall|x: (T, T), y: T| #[trigger] call_requires(f.inner.mapper, ((x, y),)));
        assert(forall|x: (T, T), y: T, o: (T, (T, T))| #[trigger] call_ensures(f.inner.mapper, ((x, y),), o) ==> o == (y, x));
    }
@@ closure form_map_nested 0
    -> (o: T) ensures o == $0.0
@@ tail form_map_nested
    proof {
        assert(f.inner.head.inner.head == a && f.inner.head.inner.tail == b && f.inner.tail.min == 0 && rep_ok(f.inner.tail));
        assert(f.inner.tail.pattern.inner.inner.head == b && f.inner.tail.pattern.inner.inner.tail == c);
        assert(forall|x: T, y: T| #[trigger] call_requires(f.inner.tail.pattern.inner.mapper, ((x, y),)));
        assert(forall|x: T, y: T, o: T| #[trigger] call_ensures(f.inner.tail.pattern.inner.mapper, ((x, y),), o) ==> o == x);
    }
@@ closure form_label_call 0
    -> (o: (T, Vec<T>)) ensures o == ($0.1, $0.0)
@@ tail form_label_call
    proof {
        assert(f.inner.inner.head.pattern == a && f.inner.inner.head.sep == b && f.inner.inner.head.min == 0 && rep_ok(f.inner.inner.head) && f.inner.inner.tail.parser == b);
        assert(forall|x: Vec<T>, y: T| #[trigger] call_requires(f.inner.mapper, ((x, y),)));
        assert(forall|x: Vec<T>, y: T, o: (T, Vec<T>)| #[trigger] call_ensures(f.inner.mapper, ((x, y),), o) ==> o == (y, x));
    }
@@ tail form_alt2
    proof {
        assert(f.inner.inner.left == a && f.inner.inner.right == b && is_alt(f.inner.mapper));
    }
@@ tail form_alt3
    proof {
        assert(f.inner.inner.left.inner.left == a && f.inner.inner.left.inner.right == b && is_alt(f.inner.inner.left.mapper) && f.inner.inner.right == c && is_alt(f.inner.mapper));
    }
@@ tail form_alt_one
    proof {
        assert(f.inner == a);
    }
@@ tail form_alt_seq
    proof {
        assert(f.inner.head == a && f.inner.tail.tail == b && is_alt(f.inner.tail.head.mapper));
        assert(f.inner.tail.head.inner.left.head == b && f.inner.tail.head.inner.left.tail == c);
        assert(f.inner.tail.head.inner.right.head == c && f.inner.tail.head.inner.right.tail == b);
    }
@@ tail form_alt_quantified
    proof {
        assert(f.inner.head.min == 0 && rep_ok(f.inner.head) && f.inner.head.pattern.inner.left == a && f.inner.head.pattern.inner.right == b && is_alt(f.inner.head.pattern.mapper));
        assert(f.inner.tail.head.min == 1 && rep_ok(f.inner.tail.head) && f.inner.tail.head.pattern.inner.left == b && f.inner.tail.head.pattern.inner.right == a && is_alt(f.inner.tail.head.pattern.mapper));
        assert(f.inner.tail.tail.inner.left.inner.left == a && f.inner.tail.tail.inner.left.inner.right == a && is_alt(f.inner.tail.tail.inner.left.mapper) && is_opt(f.inner.tail.tail.mapper));
    }
@@ closure form_alt_map 0
    -> (o: u8) ensures o == 1u8
@@ closure form_alt_map 1
    -> (o: u8) ensures o == 2u8
@@ tail form_alt_map
    proof {
        assert(f.inner.inner.left.inner.head@ == "x"@ && f.inner.inner.left.inner.tail == a && f.inner.inner.right.inner == b && is_alt(f.inner.mapper));
        assert(forall|x: T| #[trigger] call_requires(f.inner.inner.left.mapper, (((), x),)));
        assert(forall|x: T, o: u8| #[trigger] call_ensures(f.inner.inner.left.mapper, (((), x),), o) ==> o == 1);
        assert(forall|x: T| #[trigger] call_requires(f.inner.inner.right.mapper, (x,)));
        assert(forall|x: T, o: u8| #[trigger] call_ensures(f.inner.inner.right.mapper, (x,), o) ==> o == 2);
    }
@@ closure form_alt_label 0
    -> (o: (T, T)) ensures o == ($0.1, $0.0)
@@ tail form_alt_label
    proof {
        assert(f.inner.inner.head.inner.left == a && f.inner.inner.head.inner.right == b && is_alt(f.inner.inner.head.mapper) && f.inner.inner.tail == c);
        assert(forall|x: T, y: T| #[trigger] call_requires(f.inner.mapper, ((x, y),)));
        assert(forall|x: T, y: T, o: (T, T)| #[trigger] call_ensures(f.inner.mapper, ((x, y),), o) ==> o == (y, x));
    }
@@ tail form_rules1
    proof {
        let s = f.inner;
        assert(s.rule_parsers@.len() == 1);
        assert(is_rule::<T, A>(s.rule_parsers@[0], a));
        assert(exists|e: RuleParser<T>| e.index == 0 && e.rule_set_id == s.id.addr() && #[trigger] boxes(s.entry_parser, e));
    }
@@ tail form_rules2
    proof {
        let s = f.inner;
        assert(s.rule_parsers@.len() == 2);
        assert(s.rule_parsers@.drop_last()[0] == s.rule_parsers@[0]);
        assert(is_rule::<T, A>(s.rule_parsers@[0], a));
        assert(is_rule::<T, A>(s.rule_parsers@[1], b));
        assert(exists|e: SequenceParser<RuleParser<T>, SequenceParser<RuleParser<T>, B, Concat>, Concat>|
            e.head.index == 1 && e.head.rule_set_id == s.id.addr() && e.tail.head.index == 0 && e.tail.head.rule_set_id == s.id.addr()
                && e.tail.tail == c && #[trigger] boxes(s.entry_parser, e));
    }
@@ tail form_rules_forward
    proof {
        let b = f.inner;
        assert(b.rule_parsers@.len() == 2);
        assert(b.rule_parsers@.drop_last()[0] == b.rule_parsers@[0]);
        assert(is_rule::<T, A>(b.rule_parsers@[1], a));
        let d = b.rule_parsers@[0].holds::<DynParser<T>>()->Some_0;
        assert(exists|e: SequenceParser<&str, SequenceParser<RuleParser<T>, &str, Concat>, Concat>|
            e.head@ == "["@ && e.tail.head.index == 1 && e.tail.head.rule_set_id == b.id.addr() && e.tail.tail@ == "]"@ && #[trigger] boxes(d, e));
        assert(exists|e: SequenceParser<RuleParser<T>, RuleParser<T>, Concat>|
            e.head.index == 0 && e.tail.index == 1 && e.head.rule_set_id == b.id.addr() && e.tail.rule_set_id == b.id.addr() && #[trigger] boxes(b.entry_parser, e));
    }
@@ tail form_empty_group
    proof { assert(f.inner.tail == a); }
@@ append forms-spec
/// The mapper of `p?`.
spec fn is_opt<A, F: Fn(Either<A, ()>) -> Option<A>>(f: F) -> bool {
    &&& forall|e: Either<A, ()>| #[trigger] call_requires(f, (e,))
    &&& forall|e: Either<A, ()>, v: Option<A>| #[trigger] call_ensures(f, (e,), v) ==> v == (match e { Either::Left(a) => Some(a), Either::Right(_) => None })
}
@@ append forms-spec2
/// The mapper of `{p, q}`.
spec fn is_alt<A, F: Fn(Either<A, A>) -> A>(f: F) -> bool {
    &&& forall|e: Either<A, A>| #[trigger] call_requires(f, (e,))
    &&& forall|e: Either<A, A>, v: A| #[trigger] call_ensures(f, (e,), v) ==> v == (match e { Either::Left(a) => a, Either::Right(b) => b })
}
/// The rule set holds parser `a` (boxed) at this index.
spec fn is_rule<'parse, T: 'static, A: Parser<'parse, Output = T>>(x: VxAny, a: A) -> bool {
    x.holds::<DynParser<T>>() matches Some(p) && boxes(p, a)
}
