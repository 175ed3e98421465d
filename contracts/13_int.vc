@file ber/int.rs
@in BerDecoder for SnmpInt
    open spec fn tag_no() -> nat { 2 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { i.len() <= 8 && v.0 == twos(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { i.len() <= 8 }
@in BerEncoder for SnmpInt
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(tlv(2, int_content(self.0 as int))) }
@fn BerDecoder for SnmpInt::decode
@attr #[verifier::loop_isolation(false)]
@entry
    broadcast use crate::vspec::group_bits;
    proof { reveal_with_fuel(be, 2); reveal_with_fuel(pow256, 2); lemma_twos_spre(i@); lemma_pow256_values(); }
@loop 0
    invariant
        0 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@, 1 <= vf_n0 <= 8,
        vf_acc0 == spre(i@, vf_i0 as int),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_spre_bound(i@, vf_i0 as int);
        lemma_shl8_or_i64(vf_acc0, i@[vf_i0 as int] as i64);
        reveal_with_fuel(spre, 2);
    }
@fn From<i64> for SnmpInt::from
@ret r
@spec
    ensures r.0 == value,
@fn From<SnmpInt> for u8::from
@ret r
@spec
    ensures r == (if 0 <= value.0 <= 255 { value.0 as u8 } else { 255u8 }),
@fn From<SnmpInt> for i64::from
@ret r
@spec
    ensures r == value.0,
@fn SnmpInt::is_zero
@ret r
@spec
    ensures r == (self.0 == 0),
@end
@fn BerEncoder for SnmpInt::push_ber
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    let ghost o = *buf;
    let ghost mut w = Seq::<u8>::empty();
    proof {
        lemma_pow256_values();
        lemma_int_len(self.0 as int, 8);
        assert(ZERO_BER@ =~= tlv(2, int_content(0)));
    }
@loopbefore 0
    proof { assert(int_content(left as int) =~= int_content(left as int) + w); }
@loop 0
    invariant_except_break
        left >= 0,
        w.len() < 8, buf@ == w + o@,
        int_content(self.0 as int) == int_content(left as int) + w,
    invariant
        self.0 > 0,
        buf.wf(), buf.keeps(o), buf.bookmark == o.bookmark, o.wf(),
        w.len() <= 8,
        int_content(self.0 as int).len() <= 8,
    ensures
        buf@ == int_content(self.0 as int) + o@,
    decreases left,
@loopbegin 0
    let ghost l0 = left; let ghost w0 = w;
    proof {
        lemma_i64_octet(left);
        lemma_int_content(left as int);
        lemma_int_content((left / 256) as int);
        assert(int_content(self.0 as int).len() == int_content(left as int).len() + w.len());
        w = seq![(l0 % 256) as u8] + w;
        assert(w + o@ =~= seq![(l0 % 256) as u8] + (w0 + o@));
        if left >= 128 { assert(int_content(left as int) + w0 =~= int_content((left / 256) as int) + w); }
        else { assert(int_content(left as int) + w0 =~= w); }
        assert(int_content(0) =~= seq![0u8]);
        if 128 <= left <= 255 {
            assert(left / 256 == 0);
            assert(int_content(self.0 as int) + o@ =~= seq![0u8] + (w + o@));
        }
    }
@loopbefore 1
    proof { assert(int_content(left as int) =~= int_content(left as int) + w); }
@loop 1
    invariant_except_break
        left < 0,
        w.len() < 8, buf@ == w + o@,
        int_content(self.0 as int) == int_content(left as int) + w,
    invariant
        self.0 < 0,
        buf.wf(), buf.keeps(o), buf.bookmark == o.bookmark, o.wf(),
        w.len() <= 8,
        int_content(self.0 as int).len() <= 8,
    ensures
        buf@ == int_content(self.0 as int) + o@,
    decreases -left,
@loopbegin 1
    let ghost l0 = left; let ghost w0 = w;
    proof {
        lemma_i64_octet(left);
        lemma_int_content(left as int);
        lemma_int_content((left / 256) as int);
        assert(int_content(self.0 as int).len() == int_content(left as int).len() + w.len());
        w = seq![(l0 % 256) as u8] + w;
        assert(w + o@ =~= seq![(l0 % 256) as u8] + (w0 + o@));
        if left < -128 { assert(int_content(left as int) + w0 =~= int_content((left / 256) as int) + w); }
        else { assert(int_content(left as int) + w0 =~= w); }
    }
@tail
    proof { if vf_r is Ok { assert(buf@ =~= tlv(2, int_content(self.0 as int)) + o@); } }
@end
