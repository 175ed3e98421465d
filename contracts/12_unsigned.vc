@file ber/counter32.rs
@in BerDecoder for SnmpCounter32
    open spec fn tag_no() -> nat { 1 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { be(i) < 0x1_0000_0000 ==> v.0 == be(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { be(i) < 0x1_0000_0000 }
@fn BerDecoder for SnmpCounter32::decode
@attr #[verifier::loop_isolation(false)]
@entry
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        if i@.len() > 0 { lemma_be_step(i@, 0, 0); }
        assert(i@.subrange(0, 0) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        1 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@,
        be(i@.subrange(0, vf_i0 as int)) < 0x1_0000_0000 ==> vf_acc0 == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 as int);
        lemma_shl8_or_u32(vf_acc0, i@[vf_i0 as int] as u32);
    }
@end
@file ber/gauge32.rs
@in BerDecoder for SnmpGauge32
    open spec fn tag_no() -> nat { 2 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { be(i) < 0x1_0000_0000 ==> v.0 == be(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { be(i) < 0x1_0000_0000 }
@fn BerDecoder for SnmpGauge32::decode
@attr #[verifier::loop_isolation(false)]
@entry
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        if i@.len() > 0 { lemma_be_step(i@, 0, 0); }
        assert(i@.subrange(0, 0) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        1 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@,
        be(i@.subrange(0, vf_i0 as int)) < 0x1_0000_0000 ==> vf_acc0 == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 as int);
        lemma_shl8_or_u32(vf_acc0, i@[vf_i0 as int] as u32);
    }
@end
@file ber/timeticks.rs
@in BerDecoder for SnmpTimeTicks
    open spec fn tag_no() -> nat { 3 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { be(i) < 0x1_0000_0000 ==> v.0 == be(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { be(i) < 0x1_0000_0000 }
@fn BerDecoder for SnmpTimeTicks::decode
@attr #[verifier::loop_isolation(false)]
@entry
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        if i@.len() > 0 { lemma_be_step(i@, 0, 0); }
        assert(i@.subrange(0, 0) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        1 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@,
        be(i@.subrange(0, vf_i0 as int)) < 0x1_0000_0000 ==> vf_acc0 == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 as int);
        lemma_shl8_or_u32(vf_acc0, i@[vf_i0 as int] as u32);
    }
@end
@file ber/uinteger32.rs
@in BerDecoder for SnmpUInteger32
    open spec fn tag_no() -> nat { 7 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { be(i) < 0x1_0000_0000 ==> v.0 == be(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { be(i) < 0x1_0000_0000 }
@fn BerDecoder for SnmpUInteger32::decode
@attr #[verifier::loop_isolation(false)]
@entry
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        if i@.len() > 0 { lemma_be_step(i@, 0, 0); }
        assert(i@.subrange(0, 0) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        1 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@,
        be(i@.subrange(0, vf_i0 as int)) < 0x1_0000_0000 ==> vf_acc0 == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 as int);
        lemma_shl8_or_u32(vf_acc0, i@[vf_i0 as int] as u32);
    }
@end
@file ber/counter64.rs
@in BerDecoder for SnmpCounter64
    open spec fn tag_no() -> nat { 6 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { be(i) < 0x1_0000_0000_0000_0000 ==> v.0 == be(i) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { be(i) < 0x1_0000_0000_0000_0000 }
@fn BerDecoder for SnmpCounter64::decode
@attr #[verifier::loop_isolation(false)]
@entry
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        if i@.len() > 0 { lemma_be_step(i@, 0, 0); }
        assert(i@.subrange(0, 0) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        1 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@,
        be(i@.subrange(0, vf_i0 as int)) < 0x1_0000_0000_0000_0000 ==> vf_acc0 == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 as int);
        lemma_shl8_or_u64(vf_acc0, i@[vf_i0 as int] as u64);
    }
@end
