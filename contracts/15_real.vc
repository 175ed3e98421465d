@file ber/real.rs
@prepend
broadcast use crate::error::group_question;
@in BerDecoder for SnmpReal
    open spec fn tag_no() -> nat { 9 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool {
        if i.len() == 0 { v.0 == 0.0f64 }
        else if i[0] >= 128 { real_bin(i) == Some(v.0) }
        else if i[0] == 0x40 { v.0 == crate::vshim::f_special(0) }
        else if i[0] == 0x41 { v.0 == crate::vshim::f_special(1) }
        else if i[0] == 0x42 { v.0 == crate::vshim::f_special(2) }
        else if i[0] == 0x43 { v.0 == crate::vshim::f_minus(0.0f64) }
        else { 1 <= i[0] <= 3 && crate::vshim::f_text(i.subrange(1, i.len() as int), real_marks(i[0])) == Some(v.0) }
    }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool {
        i.len() == 0 || (i[0] >= 128 && real_bin(i) is Some) || 0x40 <= i[0] <= 0x43
        || (1 <= i[0] <= 3 && crate::vshim::f_text(i.subrange(1, i.len() as int), real_marks(i[0])) is Some)
    }
@append
/// characters besides the digits, ISO 6093 NR1/NR2/NR3
pub open spec fn real_marks(f: u8) -> Seq<u8> {
    if f == 1 { seq![0x2bu8, 0x2d] } else if f == 2 { seq![0x2bu8, 0x2d, 0x2e, 0x2c] } else { seq![0x2bu8, 0x2d, 0x2e, 0x2c, 0x65, 0x45] }
}
/// 8.5.7 over opaque floating point operations; exponents of at most 4 octets, mantissa below 2^128
pub open spec fn real_bin(i: Seq<u8>) -> Option<f64> {
    let f = i[0];
    let es: int = if f % 4 == 3 { 2 } else { 1 };
    let el: int = if f % 4 == 3 { i[1] as int } else { f % 4 + 1 };
    if i.len() < es || es + el > i.len() || el < 1 || el > 4 || (f / 16) % 4 == 3 { None }
    else {
        let e = twos(i.subrange(es, es + el));
        let n = be(i.subrange(es + el, i.len() as int));
        let bb: int = if (f / 16) % 4 == 0 { 1 } else if (f / 16) % 4 == 1 { 3 } else { 4 };
        if n >= 0x1_0000_0000_0000_0000_0000_0000_0000_0000 { None }
        else {
            let v = crate::vshim::f_scale(crate::vshim::f_nat(n), e * bb + ((f / 4) % 4) as int);
            Some(if (f / 64) % 2 == 1 { crate::vshim::f_minus(v) } else { v })
        }
    }
}
@fn BerDecoder for SnmpReal::decode
@rw
n as f64 ==> crate::vshim::f_of_u128(n)
v = -v ==> v = crate::vshim::f_neg(v)
f64::INFINITY ==> crate::vshim::f_inf()
f64::NEG_INFINITY ==> crate::vshim::f_ninf()
f64::NAN ==> crate::vshim::f_nan()
b"+-" ==> &[b'+', b'-']
b"+-.," ==> &[b'+', b'-', b'.', b',']
b"+-.,eE" ==> &[b'+', b'-', b'.', b',', b'e', b'E']
-0.0 ==> crate::vshim::f_neg(0.0)
@entry
    broadcast use crate::vspec::group_real;
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); lemma_pow256_values(); }
@fn SnmpReal::parse_exponent
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r is Ok <==> 1 <= i@.len() <= 4,
        r matches Err(e) ==> crate::error::bad(e),
        r matches Ok(v) ==> v == twos(i@) && -0x8000_0000 <= v < 0x8000_0000,
@entry
    broadcast use crate::vspec::group_bits;
    proof { lemma_twos_spre(i@); lemma_pow256_values(); lemma_spre_bound(i@, i@.len() as int); reveal_with_fuel(spre, 2); }
@loop 0
    invariant 0 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@, 1 <= vf_n0 <= 4, v == spre(i@, vf_i0 as int),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_spre_bound(i@, vf_i0 - 1);
        lemma_shl8_or_i64(v, i@[vf_i0 - 1] as i64);
    }
@fn SnmpReal::parse_mantissa
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r matches Ok(v) ==> v == be(i@),
        r is Err ==> be(i@) >= 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        r matches Err(e) ==> crate::error::bad(e),
@entry
    proof { assert(i@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(i@.subrange(0, i@.len() as int) =~= i@); }
@loop 0
    invariant 0 <= vf_i0 <= vf_n0, vf_n0 == i@.len(), vf_s0@ == i@, v == be(i@.subrange(0, vf_i0 as int)),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof {
        lemma_be_step(i@, 0, vf_i0 - 1);
        lemma_be_prefix_le(i@, vf_i0 as int);
        lemma_shl8_or_u128(v, i@[vf_i0 - 1] as u128);
        assert((u128::MAX >> 8) == 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by (bit_vector);
    }
@fn SnmpReal::scale
@ret r
@attr #[verifier::loop_isolation(false)]
@rw
e.clamp( ==> e.vf_clamp(
left.clamp( ==> left.vf_clamp(
f64::MIN_EXP ==> crate::vshim::F64_MIN_EXP
f64::MAX_EXP ==> crate::vshim::F64_MAX_EXP
r *= 2.0f64.powi(step) ==> r = r.vf_times(crate::vshim::f_pow2i(step))
@spec
    ensures r == crate::vshim::f_scale(v, e as int),
@loop 0
    invariant -4096 <= left <= 4096, crate::vshim::f_steps(r, left as int) == crate::vshim::f_scale(v, e as int),
    decreases if left < 0 { -left as int } else { left as int },
@fn SnmpReal::parse_decimal
@attr #[verifier::loop_isolation(false)]
@ret r
@rw
from_utf8(i) ==> vf_from_utf8(i)
.trim_start_matches(' ') ==> .vf_trim_spaces()
c.is_ascii_digit() ==> c.vf_is_ascii_digit()
extra.contains(&c) ==> vf_contains(extra, &c)
.replace(',', ".") ==> .vf_points()
.parse::<f64>() ==> .vf_f64()
@spec
    requires forall|k: int| 0 <= k < extra@.len() ==> 0x20 < #[trigger] extra@[k] < 128,
    ensures r matches Ok(v) ==> crate::vshim::f_text(i@, extra@) == Some(v), r matches Err(e) ==> crate::vshim::f_text(i@, extra@) is None && crate::error::bad(e),
@entry
    proof {
        if exists|k: int| 0 <= k < i@.len() && #[trigger] i@[k] >= 128 {
            let k = choose|k: int| 0 <= k < i@.len() && #[trigger] i@[k] >= 128;
            lemma_no_space(i@, k);
            let t = no_space(i@);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == i@[k];
            assert(!extra@.contains(t[j]));
            assert(f_text(i@, extra@) is None);
        }
    }
@loop 0
    invariant 0 <= vf_i0 <= vf_n0, vf_n0 == no_space(i@).len(), vf_s0@ == no_space(i@),
        vf_acc0 ==> forall|k: int| 0 <= k < vf_i0 ==> 0x30 <= #[trigger] no_space(i@)[k] <= 0x39 || extra@.contains(no_space(i@)[k]),
        !vf_acc0 ==> exists|k: int| 0 <= k < vf_n0 && !(0x30 <= #[trigger] no_space(i@)[k] <= 0x39 || extra@.contains(no_space(i@)[k])),
    decreases vf_n0 - vf_i0,
@end
