@# Contracts: what the collection parsers yield (collections.rs), given what std's
@# FromIterator implementations are assumed to build from a Vec.
@@ append collect-theorems
/// The map built by inserting the pairs in order: the last value given for a key stays.
spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
axiom fn axiom_collect_vec_deque<T>(v: Vec<T>, c: VecDeque<T>)
    requires collected(v, c)
    ensures c@ == v@;
axiom fn axiom_collect_hash_set<T>(v: Vec<T>, c: HashSet<T>)
    requires collected(v, c), vstd::std_specs::hash::obeys_key_model::<T>()
    ensures c@ == v@.to_set();
axiom fn axiom_collect_btree_set<T>(v: Vec<T>, c: BTreeSet<T>)
    requires collected(v, c), vstd::std_specs::btree::key_obeys_cmp_spec::<T>()
    ensures c@ == v@.to_set();
axiom fn axiom_collect_hash_map<K, V>(v: Vec<(K, V)>, c: HashMap<K, V>)
    requires collected(v, c), vstd::std_specs::hash::obeys_key_model::<K>()
    ensures c@ == map_of(v@);
axiom fn axiom_collect_btree_map<K, V>(v: Vec<(K, V)>, c: BTreeMap<K, V>)
    requires collected(v, c), vstd::std_specs::btree::key_obeys_cmp_spec::<K>()
    ensures c@ == map_of(v@);
/// Last wins.
proof fn lemma_map_of_last<K, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(), forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0
    ensures map_of(s).dom().contains(s[i].0), map_of(s)[s[i].0] == s[i].1
    decreases s.len()
{
    let d = s.drop_last();
    if i < d.len() {
        assert(s[d.len() as int].0 != s[i].0);
        assert forall|j: int| i < j < d.len() implies (#[trigger] d[j]).0 != d[i].0 by { assert(s[j].0 != s[i].0); }
        lemma_map_of_last(d, i);
    }
}
/// And there are no other keys.
proof fn lemma_map_of_dom<K, V>(s: Seq<(K, V)>, k: K) -> (i: int)
    requires map_of(s).dom().contains(k)
    ensures 0 <= i < s.len(), s[i].0 == k
    decreases s.len()
{
    if s.last().0 == k { s.len() - 1 } else { lemma_map_of_dom(s.drop_last(), k) }
}
/// A match of a collecting parser is a match of its inner parser, collected.
proof fn lemma_collect_match<'parse, P: Parser<'parse, RawOutput = (V,)>, V: IntoIterator, C: FromIterator<V::Item>>(p: MapParser<P, Collect<C>>, src: Seq<u8>, start: int, i: int, r: (C,)) -> (v: (V,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r)
    ensures p.inner.trace(src, start).len() == p.trace(src, start).len(), p.inner.trace(src, start)[i] is M,
        p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        (p.inner.trace(src, start)[i]->M_1.post)(v), collected(v.0, r.0)
{
    let c = p.inner.trace(src, start)[i]->M_1;
    assert(p.trace(src, start)[i] == map_ev(p.inner.trace(src, start)[i], map_f::<(V,), Collect<C>>(p.mapper)));
    let v = choose|v: (V,)| #[trigger] (c.post)(v) && p.mapper.map_post(v, r);
    v
}
/// C17: a match of `vec_deque(p)` is a match of `p`, with the elements of p's value for it.
proof fn theorem_c17_vec_deque<'parse, P: Parser<'parse, RawOutput = (Vec<T>,)>, T>(p: MapParser<P, Collect<VecDeque<T>>>, src: Seq<u8>, start: int, i: int, r: (VecDeque<T>,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r), true
    ensures p.inner.trace(src, start)[i] is M, p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        exists|v: (Vec<T>,)| #[trigger] (p.inner.trace(src, start)[i]->M_1.post)(v) && r.0@ == v.0@
{
    let v = lemma_collect_match(p, src, start, i, r);
    axiom_collect_vec_deque(v.0, r.0);
}
/// C17: a match of `hash_set(p)` is a match of `p`, with the elements of p's value for it.
proof fn theorem_c17_hash_set<'parse, P: Parser<'parse, RawOutput = (Vec<T>,)>, T: Eq + std::hash::Hash>(p: MapParser<P, Collect<HashSet<T>>>, src: Seq<u8>, start: int, i: int, r: (HashSet<T>,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r), vstd::std_specs::hash::obeys_key_model::<T>()
    ensures p.inner.trace(src, start)[i] is M, p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        exists|v: (Vec<T>,)| #[trigger] (p.inner.trace(src, start)[i]->M_1.post)(v) && r.0@ == v.0@.to_set()
{
    let v = lemma_collect_match(p, src, start, i, r);
    axiom_collect_hash_set(v.0, r.0);
}
/// C17: a match of `btree_set(p)` is a match of `p`, with the elements of p's value for it.
proof fn theorem_c17_btree_set<'parse, P: Parser<'parse, RawOutput = (Vec<T>,)>, T: Ord>(p: MapParser<P, Collect<BTreeSet<T>>>, src: Seq<u8>, start: int, i: int, r: (BTreeSet<T>,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r), vstd::std_specs::btree::key_obeys_cmp_spec::<T>()
    ensures p.inner.trace(src, start)[i] is M, p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        exists|v: (Vec<T>,)| #[trigger] (p.inner.trace(src, start)[i]->M_1.post)(v) && r.0@ == v.0@.to_set()
{
    let v = lemma_collect_match(p, src, start, i, r);
    axiom_collect_btree_set(v.0, r.0);
}
/// C17: a match of `hash_map(p)` is a match of `p`, with the elements of p's value for it.
proof fn theorem_c17_hash_map<'parse, P: Parser<'parse, RawOutput = (Vec<(K, V)>,)>, K: Eq + std::hash::Hash, V>(p: MapParser<P, Collect<HashMap<K, V>>>, src: Seq<u8>, start: int, i: int, r: (HashMap<K, V>,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r), vstd::std_specs::hash::obeys_key_model::<K>()
    ensures p.inner.trace(src, start)[i] is M, p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        exists|v: (Vec<(K, V)>,)| #[trigger] (p.inner.trace(src, start)[i]->M_1.post)(v) && r.0@ == map_of(v.0@)
{
    let v = lemma_collect_match(p, src, start, i, r);
    axiom_collect_hash_map(v.0, r.0);
}
/// C17: a match of `btree_map(p)` is a match of `p`, with the elements of p's value for it.
proof fn theorem_c17_btree_map<'parse, P: Parser<'parse, RawOutput = (Vec<(K, V)>,)>, K: Ord, V>(p: MapParser<P, Collect<BTreeMap<K, V>>>, src: Seq<u8>, start: int, i: int, r: (BTreeMap<K, V>,))
    requires p.pwf(), bd(src, start), 0 <= i < p.trace(src, start).len(), p.trace(src, start)[i] is M, (p.trace(src, start)[i]->M_1.post)(r), vstd::std_specs::btree::key_obeys_cmp_spec::<K>()
    ensures p.inner.trace(src, start)[i] is M, p.inner.trace(src, start)[i]->M_0 == p.trace(src, start)[i]->M_0,
        exists|v: (Vec<(K, V)>,)| #[trigger] (p.inner.trace(src, start)[i]->M_1.post)(v) && r.0@ == map_of(v.0@)
{
    let v = lemma_collect_match(p, src, start, i, r);
    axiom_collect_btree_map(v.0, r.0);
}
