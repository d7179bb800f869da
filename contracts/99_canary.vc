@# Vacuity guard: must NOT verify.  If it does, the axioms are inconsistent and the
@# driver discards the proof.
@@ append canary
proof fn vx_canary(p: Seq<char>, t: Seq<u8>)
    requires valid_utf8(t)
    ensures false
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    axiom_re_bounds(p, t);
    axiom_re_literals();
    lemma_int_rx(t, 10); lemma_float_rx(t);
}
