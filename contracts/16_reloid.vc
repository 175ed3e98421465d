@file ber/relative_oid.rs
@in BerDecoder for SnmpRelativeOid
    open spec fn tag_no() -> nat { 13 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.0@ == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@fn BerDecoder for SnmpRelativeOid::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@fn SnmpRelativeOid::is_complete
@ret r
@spec
    ensures r == complete(data@),
@entry
    broadcast use crate::vspec::group_bits;
@fn SnmpRelativeOid::subelements
@ret r
@attr #[verifier::loop_isolation(false)]
@rw
c & 0x80 ==> *c & 0x80
@spec
    ensures r == nsub(data@), r <= data@.len(),
@entry
    broadcast use crate::vspec::group_bits;
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); }
@loop 0
    invariant 0 <= vf_i0 <= vf_n0, vf_n0 == data@.len(), vf_s0@ == data@, vf_acc0 == nsub(data@.subrange(0, vf_i0 as int)), vf_acc0 <= vf_i0,
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof { lemma_nsub_step(data@, vf_i0 as int); }
@fn SnmpRelativeOid::find_subelement
@ret r
@attr #[verifier::loop_isolation(false)]
@rw
c & 0x80 ==> *c & 0x80
(start < data.len()).then_some(start) ==> if start < data.len() { Some(start) } else { None }
@spec
    ensures r matches Some(k) ==> k < data@.len() && nsub(data@.subrange(0, k as int)) == n && (k > 0 ==> data@[k - 1] < 128),
        n < nsub(data@) ==> r is Some,
@entry
    broadcast use crate::vspec::group_bits;
    proof { assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); }
@loop 0
    invariant 0 <= vf_i0 <= vf_n0, vf_n0 == data@.len(), vf_s0@ == data@, start <= vf_i0,
        nsub(data@.subrange(0, start as int)) + left == n,
        start > 0 ==> data@[start - 1] < 128,
        forall|j: int| start <= j < vf_i0 ==> data@[j] >= 128,
        nsub(data@.subrange(0, vf_i0 as int)) == nsub(data@.subrange(0, start as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof { lemma_nsub_step(data@, vf_i0 - 1); }
@tail
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
@fn SnmpRelativeOid::is_applicable
@ret r
@spec
    ensures r == rel_applicable(self.0@, cow(oid.0)),
@entry
    broadcast use crate::vspec::group_bits;
@fn SnmpRelativeOid::normalize
@ret r
@spec
    requires rel_applicable(self.0@, cow(oid.0)),
    ensures rel_is(self.0@, cow(oid.0), cow(r.0)),
@entry
    broadcast use crate::vshim::axiom_slice_max;
    proof {
        let p = cow(oid.0); let p1 = p.subrange(1, p.len() as int);
        lemma_nsub_pos(self.0@);
        assert forall|k: int| 0 <= k <= p1.len() implies #[trigger] p.subrange(0, k + 1) =~= p.subrange(0, 1) + p1.subrange(0, k) by {}
    }
@after r.extend_from_slice(self.0);
    proof {
        let p = cow(oid.0); let p1 = p.subrange(1, p.len() as int);
        assert(sub_off(p1, nsub(p1) - nsub(self.0@), offset - 1));
        assert(r@ =~= p.subrange(0, offset as int) + self.0@);
    }
@after r.extend_from_slice(&self.0[2..]);
    proof { assert(r@ =~= seq![(self.0@[0] * 40 + self.0@[1]) as u8] + self.0@.subrange(2, self.0@.len() as int)); }
@end
