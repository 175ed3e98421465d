use crate::vshim::dec;
// Mathematical specifications (X.690 / RFC), independent of the implementation.

/// big-endian value of an octet string
pub open spec fn be(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}

/// identifier octets: high tag number form, X.690 8.1.2.4
/// Some((tag number, index of the first octet after it))
pub open spec fn hightag(s: Seq<u8>, p: nat, acc: nat) -> Option<(nat, nat)>
    decreases s.len() - p,
{
    if p >= s.len() { None }
    else {
        let n = acc * 128 + (s[p as int] % 128) as nat;
        if s[p as int] < 128 { Some((n, p + 1)) } else { hightag(s, p + 1, n) }
    }
}

pub struct HdrV { pub class: nat, pub constructed: bool, pub tag: nat, pub length: nat, pub hlen: nat }

pub open spec fn ident(s: Seq<u8>) -> Option<(nat, nat)> {
    if s.len() == 0 { None }
    else if s[0] % 32 == 31 { hightag(s, 1, 0) }
    else { Some(((s[0] % 32) as nat, 1)) }
}

/// definite length octets at p, X.690 8.1.3: Some((length, index after))
pub open spec fn lengthat(s: Seq<u8>, p: nat) -> Option<(nat, nat)> {
    if p >= s.len() { None }
    else if s[p as int] < 128 { Some((s[p as int] as nat, p + 1)) }
    else if s[p as int] == 128 { None }
    else {
        let k = (s[p as int] - 128) as nat;
        if p + 1 + k > s.len() { None }
        else { Some((be(s.subrange(p as int + 1, p as int + 1 + k as int)), p + 1 + k)) }
    }
}

/// whole header with its contents inside s
pub open spec fn header(s: Seq<u8>) -> Option<HdrV> {
    match ident(s) {
        None => None,
        Some((tag, p)) => if tag > 255 { None } else {
            match lengthat(s, p) {
                None => None,
                Some((len, q)) => if q + len > s.len() { None } else {
                    Some(HdrV { class: (s[0] / 64) as nat, constructed: (s[0] / 32) % 2 == 1, tag, length: len, hlen: q })
                }
            }
        }
    }
}

pub proof fn lemma_hightag_mono(s: Seq<u8>, p: nat, acc: nat)
    ensures hightag(s, p, acc) matches Some((t, q)) ==> t >= acc && t >= acc * 128 && q <= s.len() && q > p,
    decreases s.len() - p,
{
    if p < s.len() {
        let n = acc * 128 + (s[p as int] % 128) as nat;
        assert(n >= acc) by (nonlinear_arith) requires n == acc * 128 + (s[p as int] % 128) as nat;
        if s[p as int] >= 128 { lemma_hightag_mono(s, p + 1, n); }
    }
}

pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

pub proof fn lemma_be_bound(s: Seq<u8>)
    ensures be(s) < pow256(s.len()),
    decreases s.len(),
{
    reveal_with_fuel(pow256, 2);
    if s.len() > 0 { lemma_be_bound(s.drop_last());
        let a = be(s.drop_last()); let b = pow256((s.len() - 1) as nat); let c = s.last() as nat;
        assert(a * 256 + c < 256 * b) by (nonlinear_arith) requires a < b, c < 256;
    }
}

/// appending octets only grows the value
pub proof fn lemma_be_prefix_le(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures be(s.subrange(0, k)) <= be(s),
    decreases s.len(),
{
    if k == s.len() { assert(s.subrange(0, k) =~= s); }
    else {
        lemma_be_prefix_le(s.drop_last(), k);
        assert(s.drop_last().subrange(0, k) =~= s.subrange(0, k));
    }
}

/// contents octets of the first element of s
pub open spec fn content(s: Seq<u8>) -> Seq<u8> {
    let h = header(s).unwrap();
    s.subrange(h.hlen as int, h.hlen as int + h.length as int)
}

pub proof fn lemma_hightag_big(s: Seq<u8>, p: nat, acc: nat)
    ensures acc >= 2 ==> (hightag(s, p, acc) matches Some((t, q)) ==> t >= 256),
{
    if acc >= 2 && p < s.len() {
        let n = acc * 128 + (s[p as int] % 128) as nat;
        lemma_hightag_mono(s, p + 1, n);
    }
}

pub proof fn lemma_be_step(s: Seq<u8>, p: int, c: int)
    requires 0 <= p <= c < s.len(),
    ensures be(s.subrange(p, c + 1)) == be(s.subrange(p, c)) * 256 + s[c],
{
    assert(s.subrange(p, c + 1).drop_last() =~= s.subrange(p, c));
}

pub proof fn lemma_be_grow(s: Seq<u8>, p: int, c: int, e: int)
    requires 0 <= p <= c <= e <= s.len(),
    ensures c < e ==> be(s.subrange(p, e)) >= be(s.subrange(p, c)) * 256,
        be(s.subrange(p, e)) >= be(s.subrange(p, c)),
    decreases e - c,
{
    if c < e {
        lemma_be_step(s, p, e - 1);
        lemma_be_grow(s, p, c, e - 1);
    }
}

// ---- machine arithmetic vs. mathematical arithmetic
pub broadcast proof fn bits_u8_7f(t: u8) ensures #[trigger] (t & 0x7f) == t % 128 { assert((t & 0x7f) == t % 128) by (bit_vector); }
pub broadcast proof fn bits_u8_80(t: u8) ensures #[trigger] (t & 0x80) == (if t >= 128 { 0x80u8 } else { 0u8 }) { assert((t & 0x80) == (if t >= 128 { 0x80u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn bits_u8_1f(t: u8) ensures #[trigger] (t & 0x1f) == t % 32 { assert((t & 0x1f) == t % 32) by (bit_vector); }
pub broadcast proof fn bits_u8_cls(t: u8) ensures #[trigger] ((t >> 6u8) & 0x3) == t / 64 { assert(((t >> 6u8) & 0x3) == t / 64) by (bit_vector); }
pub broadcast proof fn bits_u8_con(t: u8) ensures #[trigger] ((t >> 5u8) & 0x1) == (t / 32) % 2 { assert(((t >> 5u8) & 0x1) == (t / 32) % 2) by (bit_vector); }
pub broadcast proof fn bits_u8_shl7(n: u8, t: u8) ensures n <= 1 ==> #[trigger] ((n << 7u8) | (t & 0x7f)) == n * 128 + t % 128 { assert(n <= 1 ==> ((n << 7u8) | (t & 0x7f)) == n * 128 + t % 128) by (bit_vector); }
pub broadcast proof fn bits_usize_shl8(n: usize) ensures n <= 0xff_ffff_ffff_ffff ==> #[trigger] (n << 8usize) == n * 256 { assert(n <= 0xff_ffff_ffff_ffff ==> (n << 8usize) == n * 256) by (bit_vector); }
pub broadcast proof fn bits_usize_shl8_or(n: usize, x: u8) ensures n <= 0xff_ffff_ffff_ffff ==> #[trigger] ((n << 8usize) | (x as usize)) == n * 256 + x
    { assert(n <= 0xff_ffff_ffff_ffff ==> ((n << 8usize) | (x as usize)) == add(mul(n, 256), x as usize)) by (bit_vector); }
pub broadcast proof fn bits_usize_or_shl8(n: usize, x: u8) ensures n <= 0xff_ffff_ffff_ffff ==> #[trigger] ((x as usize) | (n << 8usize)) == n * 256 + x
    { assert(n <= 0xff_ffff_ffff_ffff ==> ((x as usize) | (n << 8usize)) == add(mul(n, 256), x as usize)) by (bit_vector); }
pub broadcast proof fn bits_xor_u8(a: u8, b: u8) ensures #[trigger] (a ^ b) == b ^ a { assert((a ^ b) == b ^ a) by (bit_vector); }
pub broadcast proof fn bits_usize_max() ensures #[trigger] (usize::MAX >> 8usize) == 0xff_ffff_ffff_ffffusize { assert((usize::MAX >> 8usize) == 0xff_ffff_ffff_ffffusize) by (bit_vector); }
pub broadcast proof fn bits_u8max() ensures #[trigger] (u8::MAX >> 7u8) == 1u8 { assert((u8::MAX >> 7u8) == 1u8) by (bit_vector); }
pub broadcast group group_bits { bits_u8_7f, bits_u8_80, bits_u8_1f, bits_u8_cls, bits_u8_con, bits_u8_shl7, bits_usize_shl8, bits_usize_shl8_or, bits_usize_or_shl8, bits_usize_max, bits_u8max }
global size_of usize == 8;

// ---- encoding side
/// minimal definite length octets, X.690 8.1.3 / 10.1 (lengths below 65536)
pub open spec fn enc_len(n: nat) -> Seq<u8> {
    if n < 128 { seq![n as u8] }
    else if n < 256 { seq![0x81u8, n as u8] }
    else { seq![0x82u8, (n / 256) as u8, (n % 256) as u8] }
}
pub open spec fn tlv(tag: u8, body: Seq<u8>) -> Seq<u8> { seq![tag] + enc_len(body.len()) + body }

/// a minimally encoded element is read back exactly, whatever follows
pub proof fn lemma_tlv(tag: u8, body: Seq<u8>, rest: Seq<u8>)
    requires tag % 32 != 31, body.len() < 65536,
    ensures
        header(tlv(tag, body) + rest) == Some(HdrV {
            class: (tag / 64) as nat, constructed: (tag / 32) % 2 == 1, tag: (tag % 32) as nat,
            length: body.len(), hlen: 1 + enc_len(body.len()).len() }),
        content(tlv(tag, body) + rest) == body,
        (tlv(tag, body) + rest).subrange(1 + enc_len(body.len()).len() as int + body.len() as int, (tlv(tag, body) + rest).len() as int) == rest,
{
    let s = tlv(tag, body) + rest;
    let n = body.len();
    let l = enc_len(n);
    assert(s[0] == tag);
    assert(s[1] == l[0]);
    assert(ident(s) == Some(((tag % 32) as nat, 1nat)));
    reveal_with_fuel(be, 3);
    if n < 128 {
        assert(lengthat(s, 1) == Some((n, 2nat)));
    } else if n < 256 {
        assert(s[2] == n as u8);
        assert(s.subrange(2, 3) =~= seq![n as u8]);
        assert(seq![n as u8].drop_last() =~= Seq::<u8>::empty());
        assert(lengthat(s, 1) == Some((n, 3nat)));
    } else {
        assert(s[2] == l[1] && s[3] == l[2]);
        assert(s.subrange(2, 4) =~= seq![l[1], l[2]]);
        assert(seq![l[1], l[2]].drop_last() =~= seq![l[1]]);
        assert(seq![l[1]].drop_last() =~= Seq::<u8>::empty());
        assert(be(s.subrange(2, 4)) == n);
        assert(lengthat(s, 1) == Some((n, 4nat)));
    }
    assert(content(s) =~= body);
    assert(s.subrange(1 + l.len() as int + n as int, s.len() as int) =~= rest);
}

pub broadcast proof fn bits_usize_lo(v: usize) ensures #[trigger] (v as u8) == v % 256 { assert((v as u8) == v % 256) by (bit_vector); }
pub broadcast proof fn bits_usize_hi(v: usize) ensures v < 65536 ==> #[trigger] (v >> 8usize) == v / 256 { assert((v >> 8usize) == v / 256) by (bit_vector); }
pub broadcast proof fn seq_cons(a: u8, s: Seq<u8>, t: Seq<u8>) ensures #[trigger] ((seq![a] + s) + t) == seq![a] + (s + t) { assert((seq![a] + s) + t =~= seq![a] + (s + t)); }
pub broadcast group group_len { bits_usize_lo, bits_usize_hi }

// ---- INTEGER, X.690 8.3
/// value of the first k octets, the first one being signed
pub open spec fn spre(s: Seq<u8>, k: int) -> int
    decreases k,
{
    if k <= 0 { if s.len() > 0 && s[0] >= 128 { -1 } else { 0 } } else { spre(s, k - 1) * 256 + s[k - 1] }
}
/// two's complement value of the contents octets
pub open spec fn twos(s: Seq<u8>) -> int {
    be(s) - (if s.len() > 0 && s[0] >= 128 { pow256(s.len()) as int } else { 0 })
}
pub proof fn lemma_spre(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures spre(s, k) == be(s.subrange(0, k)) - (if s.len() > 0 && s[0] >= 128 { pow256(k as nat) as int } else { 0 }),
    decreases k,
{
    if k > 0 { lemma_spre(s, k - 1); lemma_be_step(s, 0, k - 1); }
}
pub proof fn lemma_twos_spre(s: Seq<u8>)
    ensures spre(s, s.len() as int) == twos(s),
{
    lemma_spre(s, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
}
pub open spec fn half256(k: nat) -> int { if k == 0 { 1 } else { 128 * pow256((k - 1) as nat) as int } }
pub proof fn lemma_spre_bound(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures -half256(k as nat) <= spre(s, k) < half256(k as nat),
    decreases k,
{
    reveal_with_fuel(pow256, 3);
    if k > 0 { lemma_spre_bound(s, k - 1); }
    reveal_with_fuel(spre, 3);
    if k > 1 {
        let p = pow256((k - 2) as nat) as int; let v = spre(s, k - 1); let x = s[k - 1] as int;
        assert(half256((k - 1) as nat) == 128 * p);
        assert(half256(k as nat) == 128 * (256 * p));
        assert(-(128 * (256 * p)) <= v * 256 + x < 128 * (256 * p)) by (nonlinear_arith) requires -(128 * p) <= v < 128 * p, 0 <= x < 256;
    }
}
pub proof fn lemma_pow256_values()
    ensures pow256(0) == 1, pow256(1) == 256, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000,
        pow256(8) == 0x1_0000_0000_0000_0000,
{ reveal_with_fuel(pow256, 9); }
pub proof fn lemma_shl8_or_i64(acc: i64, x: i64)
    requires -0x80_0000_0000_0000 <= acc < 0x80_0000_0000_0000, 0 <= x < 256,
    ensures ((acc << 8) | x) == acc * 256 + x, (x | (acc << 8)) == acc * 256 + x, (acc << 8) == acc * 256,
{
    assert((acc << 8) == mul(acc, 256)) by (bit_vector);
    assert((x | (acc << 8)) == ((acc << 8) | x)) by (bit_vector);
    assert(((acc << 8) | x) == add(mul(acc, 256), x)) by (bit_vector) requires -0x80_0000_0000_0000 <= acc < 0x80_0000_0000_0000, 0 <= x < 256;
}
pub proof fn lemma_shl8_or_u32(acc: u32, x: u32)
    requires x < 256,
    ensures
        acc < 0x100_0000 ==> ((acc << 8) | x) == acc * 256 + x && (x | (acc << 8)) == acc * 256 + x && ((acc << 8) ^ x) == acc * 256 + x && (acc << 8) == acc * 256,
        (acc << 8) <= 0xffff_ff00,
{
    assert((acc << 8) <= 0xffff_ff00) by (bit_vector);
    assert((acc << 8) == mul(acc, 256)) by (bit_vector);
    assert((x | (acc << 8)) == ((acc << 8) | x)) by (bit_vector);
    assert(((acc << 8) ^ x) == ((acc << 8) | x)) by (bit_vector) requires x < 256;
    assert(((acc << 8) | x) == add(mul(acc, 256), x)) by (bit_vector) requires x < 256u32;
}
pub proof fn lemma_shl8_or_u64(acc: u64, x: u64)
    requires x < 256,
    ensures
        acc < 0x100_0000_0000_0000 ==> ((acc << 8) | x) == acc * 256 + x && (x | (acc << 8)) == acc * 256 + x && ((acc << 8) ^ x) == acc * 256 + x && (acc << 8) == acc * 256,
        (acc << 8) <= 0xffff_ffff_ffff_ff00,
{
    assert((acc << 8) <= 0xffff_ffff_ffff_ff00) by (bit_vector);
    assert((acc << 8) == mul(acc, 256)) by (bit_vector);
    assert((x | (acc << 8)) == ((acc << 8) | x)) by (bit_vector);
    assert(((acc << 8) ^ x) == ((acc << 8) | x)) by (bit_vector) requires x < 256;
    assert(((acc << 8) | x) == add(mul(acc, 256), x)) by (bit_vector) requires x < 256u64;
}
/// minimal two's complement contents octets, X.690 8.3.2
pub open spec fn int_content(v: int) -> Seq<u8>
    decreases (if v < 0 { -v } else { v }),
{
    if -128 <= v < 128 { seq![(v % 256) as u8] } else { int_content(v / 256).push((v % 256) as u8) }
}

/// round trip and minimality of INTEGER
pub proof fn lemma_int_content(v: int)
    ensures
        int_content(v).len() >= 1,
        twos(int_content(v)) == v,
        int_content(v).len() >= 2 ==> !(int_content(v)[0] == 0 && int_content(v)[1] < 128) && !(int_content(v)[0] == 255 && int_content(v)[1] >= 128),
    decreases (if v < 0 { -v } else { v }),
{
    let s = int_content(v);
    if -128 <= v < 128 {
        reveal_with_fuel(be, 2); reveal_with_fuel(pow256, 2);
        assert(s.drop_last() =~= Seq::<u8>::empty());
        assert(s.last() == s[0]);
    } else {
        let q = v / 256; let c = (v % 256) as u8;
        lemma_int_content(q);
        let p = int_content(q);
        assert(s == p.push(c));
        assert(s.drop_last() =~= p);
        assert(s[0] == p[0]);
        reveal_with_fuel(pow256, 1);
        assert(pow256(s.len()) == 256 * pow256(p.len()));
        assert(be(s) == be(p) * 256 + c);
        assert(twos(s) == twos(p) * 256 + c);
        if p.len() >= 2 { assert(s[1] == p[1]); }
        else {
            reveal_with_fuel(be, 2); reveal_with_fuel(pow256, 2);
            assert(p.drop_last() =~= Seq::<u8>::empty());
            assert(s[1] == c);
        }
    }
}
pub proof fn lemma_int_len(v: int, k: nat)
    requires k >= 1, -half256(k) <= v < half256(k),
    ensures int_content(v).len() <= k,
    decreases k,
{
    if !(-128 <= v < 128) {
        if k == 1 { reveal_with_fuel(pow256, 2); }
        else {
            let p = pow256((k - 2) as nat) as int;
            reveal_with_fuel(pow256, 2);
            assert(half256(k) == 128 * (256 * p));
            assert(-(128 * p) <= v / 256 < 128 * p) by (nonlinear_arith) requires -(128 * (256 * p)) <= v < 128 * (256 * p);
            lemma_int_len(v / 256, (k - 1) as nat);
        }
    }
}

// ---- OBJECT IDENTIFIER, X.690 8.19
pub open spec fn enc_hi(n: nat) -> Seq<u8> decreases n {
    if n < 128 { seq![(n + 128) as u8] } else { enc_hi(n / 128).push((n % 128 + 128) as u8) }
}
pub open spec fn enc_arc(n: nat) -> Seq<u8> {
    if n < 128 { seq![n as u8] } else { enc_hi(n / 128).push((n % 128) as u8) }
}
pub open spec fn enc_arcs(a: Seq<nat>) -> Seq<u8> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { enc_arcs(a.drop_last()) + enc_arc(a.last()) }
}
/// canonical contents octets of an OBJECT IDENTIFIER given its arcs
pub open spec fn enc_oid(a: Seq<nat>) -> Seq<u8> {
    enc_arc(40 * a[0] + a[1]) + enc_arcs(a.subrange(2, a.len() as int))
}
pub open spec fn oid_text_ok(a: Seq<nat>) -> bool { a.len() >= 2 && a[0] <= 2 && a[1] <= 39 && forall|i: int| 0 <= i < a.len() ==> a[i] <= 0xffff_ffff }
pub proof fn lemma_shl8_or_u128(acc: u128, x: u128)
    requires x < 256,
    ensures
        acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff ==> ((acc << 8) | x) == acc * 256 + x && (x | (acc << 8)) == acc * 256 + x && (acc << 8) == acc * 256,
        ((acc >> 120) == 0) == (acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff),
{
    assert(((acc >> 120) == 0) == (acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) by (bit_vector);
    assert((x | (acc << 8)) == ((acc << 8) | x)) by (bit_vector);
    if acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff { assert((acc << 8) == mul(acc, 256)) by (bit_vector) requires acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128; }
    if acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff {
    assert(((acc << 8) | x) == add(mul(acc, 256), x)) by (bit_vector) requires acc <= 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128, x < 256u128; }
}
pub broadcast proof fn bits_u8_03(t: u8) ensures #[trigger] (t & 0x03) == t % 4 { assert((t & 0x03) == t % 4) by (bit_vector); }
pub broadcast proof fn bits_u8_0c(t: u8) ensures #[trigger] ((t & 0x0c) >> 2u8) == (t / 4) % 4 { assert(((t & 0x0c) >> 2u8) == (t / 4) % 4) by (bit_vector); }
pub broadcast proof fn bits_u8_30(t: u8) ensures #[trigger] (t & 0x30) == ((t / 16) % 4) * 16 { assert((t & 0x30) == mul(((t / 16) % 4), 16)) by (bit_vector); }
pub broadcast proof fn bits_u8_40(t: u8) ensures #[trigger] (t & 0x40) == ((t / 64) % 2) * 64 { assert((t & 0x40) == mul(((t / 64) % 2), 64)) by (bit_vector); }
pub broadcast proof fn bits_u8_c0(t: u8) ensures #[trigger] (t & 0xc0) == (t / 64) * 64 { assert((t & 0xc0) == mul((t / 64), 64)) by (bit_vector); }
pub broadcast proof fn bits_u8_3f(t: u8) ensures #[trigger] (t & 0x3f) == t % 64 { assert((t & 0x3f) == t % 64) by (bit_vector); }
pub broadcast group group_real { bits_u8_03, bits_u8_0c, bits_u8_30, bits_u8_40, bits_u8_c0, bits_u8_3f, bits_u8_80 }

// ---- sub-identifiers
/// number of complete sub-identifiers
pub open spec fn nsub(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nsub(s.drop_last()) + (if s.last() < 128 { 1nat } else { 0nat }) }
}
pub proof fn lemma_nsub_le(s: Seq<u8>) ensures nsub(s) <= s.len(), decreases s.len() { if s.len() > 0 { lemma_nsub_le(s.drop_last()); } }
pub proof fn lemma_nsub_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures nsub(s.subrange(0, k + 1)) == nsub(s.subrange(0, k)) + (if s[k] < 128 { 1nat } else { 0nat }),
{ assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub open spec fn complete(s: Seq<u8>) -> bool { s.len() > 0 && s.last() < 128 }
/// a relative OID which may replace the tail of (or the whole of) an absolute one
pub open spec fn rel_applicable(r: Seq<u8>, o: Seq<u8>) -> bool {
    complete(r) && complete(o) && (nsub(r) < nsub(o.subrange(1, o.len() as int)) || (r.len() >= 2 && r[0] <= 2 && r[1] <= 39))
}
/// k is where the sub-identifiers after the first n ones start
pub open spec fn sub_off(s: Seq<u8>, n: int, k: int) -> bool {
    0 <= k <= s.len() && nsub(s.subrange(0, k)) == n && (k > 0 ==> s[k - 1] < 128)
}
/// r replaces as many trailing sub-identifiers of p as it has, or all of p
pub open spec fn rel_is(r: Seq<u8>, p: Seq<u8>, x: Seq<u8>) -> bool {
    let p1 = p.subrange(1, p.len() as int);
    if nsub(r) < nsub(p1) {
        exists|k: int| #[trigger] sub_off(p1, nsub(p1) - nsub(r), k) && x == p.subrange(0, k + 1) + r
    } else {
        x == seq![(r[0] * 40 + r[1]) as u8] + r.subrange(2, r.len() as int)
    }
}
pub proof fn lemma_nsub_pos(s: Seq<u8>) ensures complete(s) ==> nsub(s) >= 1, {}
/// first sub-identifier: (value, octets)
pub open spec fn subid(s: Seq<u8>) -> Option<(nat, nat)> { hightag(s, 0, 0) }
/// sub-identifier list of contents octets; None when malformed or out of the RFC 2578 range
pub open spec fn subids(s: Seq<u8>, max: nat) -> Option<Seq<nat>>
    decreases s.len(),
    via subids_dec
{
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        match subid(s) {
            None => None,
            Some((v, k)) => if v > max { None } else {
                match subids(s.subrange(k as int, s.len() as int), max) { None => None, Some(t) => Some(seq![v] + t) }
            }
        }
    }
}
#[via_fn]
proof fn subids_dec(s: Seq<u8>, max: nat) {
    lemma_hightag_mono(s, 0, 0);
}
pub open spec fn MAXSUB() -> nat { 0xffff_ffff }
/// arcs of an OBJECT IDENTIFIER, X.690 8.19.4
pub open spec fn arcs(s: Seq<u8>) -> Option<Seq<nat>> {
    match subid(s) {
        None => None,
        Some((v, k)) => {
            let first = if v < 80 { v / 40 } else { 2 };
            if v - 40 * first > MAXSUB() { None } else {
                match subids(s.subrange(k as int, s.len() as int), MAXSUB()) {
                    None => None,
                    Some(t) => Some(seq![first, (v - 40 * first) as nat] + t),
                }
            }
        }
    }
}
/// ".n" for every arc
pub open spec fn dotted(a: Seq<nat>) -> Seq<char> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { dotted(a.drop_last()) + (seq!['.'] + dec(a.last())) }
}
pub open spec fn oid_text(a: Seq<nat>) -> Seq<char> { dec(a[0]) + dotted(a.subrange(1, a.len() as int)) }
/// lexicographic order of sub-identifiers: l strictly after r
pub open spec fn oid_after(l: Seq<u8>, r: Seq<u8>) -> bool
    decreases r.len(),
    via oid_after_dec
{
    if r.len() == 0 { l.len() > 0 }
    else {
        match (subid(l), subid(r)) {
            (Some((x, a)), Some((y, b))) => if x != y { x > y } else {
                oid_after(l.subrange(a as int, l.len() as int), r.subrange(b as int, r.len() as int))
            },
            _ => false,
        }
    }
}
#[via_fn]
proof fn oid_after_dec(l: Seq<u8>, r: Seq<u8>) { lemma_hightag_mono(r, 0, 0); }

/// the order of the raw octets is the order of the arcs
pub open spec fn lex_after(a: Seq<nat>, b: Seq<nat>) -> bool decreases b.len() {
    if b.len() == 0 { a.len() > 0 }
    else if a.len() == 0 { false }
    else if a[0] != b[0] { a[0] > b[0] }
    else { lex_after(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub proof fn lemma_after_lex(l: Seq<u8>, r: Seq<u8>, m: nat)
    requires subids(l, m) is Some, subids(r, m) is Some,
    ensures oid_after(l, r) == lex_after(subids(l, m).unwrap(), subids(r, m).unwrap()),
    decreases r.len(),
{
    lemma_hightag_mono(l, 0, 0);
    lemma_hightag_mono(r, 0, 0);
    if r.len() > 0 && l.len() > 0 {
        let (x, a) = subid(l).unwrap(); let (y, b) = subid(r).unwrap();
        let lt = l.subrange(a as int, l.len() as int); let rt = r.subrange(b as int, r.len() as int);
        lemma_after_lex(lt, rt, m);
        let sl = subids(l, m).unwrap(); let sr = subids(r, m).unwrap();
        assert(sl.subrange(1, sl.len() as int) =~= subids(lt, m).unwrap());
        assert(sr.subrange(1, sr.len() as int) =~= subids(rt, m).unwrap());
    }
}
pub proof fn lemma_lex_irreflexive(a: Seq<nat>) ensures !lex_after(a, a), decreases a.len()
{ if a.len() > 0 { lemma_lex_irreflexive(a.subrange(1, a.len() as int)); } }
pub proof fn lemma_lex_transitive(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
    requires lex_after(a, b), lex_after(b, c),
    ensures lex_after(a, c),
    decreases c.len(),
{
    if c.len() > 0 && b.len() > 0 && a.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_lex_transitive(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}

// ---- encoding of arcs is canonical and is read back
pub proof fn lemma_enc_hi(n: nat, rest: Seq<u8>)
    ensures hightag(enc_hi(n) + rest, 0, 0) == hightag(enc_hi(n) + rest, enc_hi(n).len(), n),
        enc_hi(n).len() >= 1, enc_hi(n)[0] != 0x80 || n == 0,
    decreases n,
{
    let s = enc_hi(n) + rest;
    if n < 128 {
        assert(s[0] == (n + 128) as u8);
        reveal_with_fuel(hightag, 2);
    } else {
        let q = n / 128; let c = (n % 128 + 128) as u8;
        lemma_enc_hi(q, seq![c] + rest);
        assert(enc_hi(q) + (seq![c] + rest) =~= s);
        assert(s[enc_hi(q).len() as int] == c);
        assert(enc_hi(n)[0] == enc_hi(q)[0]);
    }
}
pub proof fn lemma_enc_arc(n: nat, rest: Seq<u8>)
    ensures subid(enc_arc(n) + rest) == Some((n, enc_arc(n).len())), enc_arc(n).len() >= 1,
        enc_arc(n)[0] != 0x80,
{
    let s = enc_arc(n) + rest;
    if n < 128 { assert(s[0] == n as u8); }
    else {
        let c = (n % 128) as u8;
        lemma_enc_hi(n / 128, seq![c] + rest);
        assert(enc_hi(n / 128) + (seq![c] + rest) =~= s);
        assert(s[enc_hi(n / 128).len() as int] == c);
    }
}
pub proof fn lemma_enc_arcs_cons(a: Seq<nat>)
    requires a.len() > 0,
    ensures enc_arcs(a) == enc_arc(a[0]) + enc_arcs(a.subrange(1, a.len() as int)),
    decreases a.len(),
{
    if a.len() == 1 {
        assert(a.drop_last() =~= Seq::<nat>::empty());
        assert(a.subrange(1, 1) =~= Seq::<nat>::empty());
        assert(enc_arcs(Seq::<nat>::empty()) =~= Seq::<u8>::empty());
        assert(a.last() == a[0]);
        assert(enc_arcs(a) =~= enc_arc(a[0]));
    } else {
        let d = a.drop_last();
        lemma_enc_arcs_cons(d);
        let t = a.subrange(1, a.len() as int);
        assert(t.drop_last() =~= d.subrange(1, d.len() as int));
        assert(enc_arcs(a) =~= enc_arc(a[0]) + enc_arcs(t));
    }
}
pub proof fn lemma_subids_enc(a: Seq<nat>, m: nat)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] <= m,
    ensures subids(enc_arcs(a), m) == Some(a),
    decreases a.len(),
{
    if a.len() > 0 {
        let t = a.subrange(1, a.len() as int);
        lemma_enc_arcs_cons(a);
        lemma_enc_arc(a[0], enc_arcs(t));
        let s = enc_arcs(a);
        assert(s.subrange(enc_arc(a[0]).len() as int, s.len() as int) =~= enc_arcs(t));
        lemma_subids_enc(t, m);
        assert(seq![a[0]] + t =~= a);
    }
}
/// C08: the arcs read back from the encoding of valid arcs are those arcs
pub proof fn lemma_oid_roundtrip(a: Seq<nat>)
    requires oid_text_ok(a),
    ensures arcs(enc_oid(a)) == Some(a),
{
    let t = a.subrange(2, a.len() as int);
    lemma_enc_arc(40 * a[0] + a[1], enc_arcs(t));
    let s = enc_oid(a);
    assert(s.subrange(enc_arc(40 * a[0] + a[1]).len() as int, s.len() as int) =~= enc_arcs(t));
    assert forall|i: int| 0 <= i < t.len() implies t[i] <= MAXSUB() by { assert(t[i] == a[i + 2]); }
    lemma_subids_enc(t, MAXSUB());
    assert(seq![a[0], a[1]] + t =~= a);
}

// bits of the arc encoder
pub broadcast proof fn bits_u32_lo(n: u32) ensures #[trigger] ((n as u8) & 0x7f) == n % 128 { assert(((n as u8) & 0x7f) == n % 128) by (bit_vector); }
pub broadcast proof fn bits_u32_7(n: u32) ensures #[trigger] ((((n >> 7u32) as u8) & 0x7f) | 0x80) == (n / 128) % 128 + 128 { assert(((((n >> 7u32) as u8) & 0x7f) | 0x80) == (n / 128) % 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_14(n: u32) ensures #[trigger] ((((n >> 14u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128) % 128 + 128 { assert(((((n >> 14u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128) % 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_21(n: u32) ensures #[trigger] ((((n >> 21u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128 / 128) % 128 + 128 { assert(((((n >> 21u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128 / 128) % 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_h7(n: u32) ensures n < 0x4000 ==> #[trigger] (((n >> 7u32) as u8) | 0x80) == n / 128 + 128 { assert(n < 0x4000 ==> (((n >> 7u32) as u8) | 0x80) == n / 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_h14(n: u32) ensures n < 0x20_0000 ==> #[trigger] (((n >> 14u32) as u8) | 0x80) == n / 128 / 128 + 128 { assert(n < 0x20_0000 ==> (((n >> 14u32) as u8) | 0x80) == n / 128 / 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_h21(n: u32) ensures n < 0x1000_0000 ==> #[trigger] (((n >> 21u32) as u8) | 0x80) == n / 128 / 128 / 128 + 128 { assert(n < 0x1000_0000 ==> (((n >> 21u32) as u8) | 0x80) == n / 128 / 128 / 128 + 128) by (bit_vector); }
pub broadcast proof fn bits_u32_h28(n: u32) ensures #[trigger] (((n >> 28u32) as u8) | 0x80) == n / 128 / 128 / 128 / 128 + 128 { assert((((n >> 28u32) as u8) | 0x80) == n / 128 / 128 / 128 / 128 + 128) by (bit_vector); }
pub broadcast group group_arc { bits_u32_lo, bits_u32_7, bits_u32_14, bits_u32_21, bits_u32_h7, bits_u32_h14, bits_u32_h21, bits_u32_h28 }
pub proof fn lemma_arc_bits(n: u32)
    ensures
        n < 0x80 ==> (n as u8) == n,
        (((n as u8) & 0x7f)) == n % 128,
        ((((n >> 7u32) as u8) & 0x7f) | 0x80) == (n / 128) % 128 + 128,
        ((((n >> 14u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128) % 128 + 128,
        ((((n >> 21u32) as u8) & 0x7f) | 0x80) == (n / 128 / 128 / 128) % 128 + 128,
        n < 0x4000 ==> (((n >> 7u32) as u8) | 0x80) == n / 128 + 128,
        n < 0x20_0000 ==> (((n >> 14u32) as u8) | 0x80) == n / 128 / 128 + 128,
        n < 0x1000_0000 ==> (((n >> 21u32) as u8) | 0x80) == n / 128 / 128 / 128 + 128,
        (((n >> 28u32) as u8) | 0x80) == n / 128 / 128 / 128 / 128 + 128,
{ broadcast use group_arc; }
/// enc_arc spelled out for 32 bit values
pub proof fn lemma_enc_arc_u32(n: nat)
    requires n <= 0xffff_ffff,
    ensures
        n < 0x80 ==> enc_arc(n) == seq![n as u8],
        0x80 <= n < 0x4000 ==> enc_arc(n) == seq![(n / 128 + 128) as u8, (n % 128) as u8],
        0x4000 <= n < 0x20_0000 ==> enc_arc(n) == seq![(n / 128 / 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8],
        0x20_0000 <= n < 0x1000_0000 ==> enc_arc(n) == seq![(n / 128 / 128 / 128 + 128) as u8, ((n / 128 / 128) % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8],
        0x1000_0000 <= n ==> enc_arc(n) == seq![(n / 128 / 128 / 128 / 128 + 128) as u8, ((n / 128 / 128 / 128) % 128 + 128) as u8, ((n / 128 / 128) % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8],
{
    reveal_with_fuel(enc_hi, 6);
    if n < 0x80 { }
    else if n < 0x4000 { assert(enc_arc(n) =~= seq![(n / 128 + 128) as u8, (n % 128) as u8]); }
    else if n < 0x20_0000 { assert(enc_arc(n) =~= seq![(n / 128 / 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8]); }
    else if n < 0x1000_0000 { assert(enc_arc(n) =~= seq![(n / 128 / 128 / 128 + 128) as u8, ((n / 128 / 128) % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8]); }
    else { assert(enc_arc(n) =~= seq![(n / 128 / 128 / 128 / 128 + 128) as u8, ((n / 128 / 128 / 128) % 128 + 128) as u8, ((n / 128 / 128) % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n % 128) as u8]); }
}
pub proof fn lemma_shl7_or_u64(v: u64, t: u8)
    requires v <= 0xffff_ffff,
    ensures ((v << 7) | ((t & 0x7f) as u64)) == v * 128 + t % 128,
{
    assert(((v << 7) | ((t & 0x7f) as u64)) == add(mul(v, 128), (t % 128) as u64)) by (bit_vector) requires v <= 0xffff_ffffu64;
}
pub broadcast proof fn seq_sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn seq_sub_full(s: Seq<u8>)
    ensures #[trigger] s.subrange(0, s.len() as int) == s,
{ assert(s.subrange(0, s.len() as int) =~= s); }
pub broadcast group group_seq { seq_sub_sub, seq_sub_full }
pub proof fn lemma_i64_octet(left: i64)
    ensures ((left & 0xff) as u8) == (left as int) % 256, (left >> 8) == (left as int) / 256,
        left & 0x80 == 0x80 <==> (left as int) % 256 >= 128,
{
    assert(0 <= (left & 0xff) < 256) by (bit_vector);
    assert(add(mul(left >> 8, 256), (left & 0xff)) == left && -0x80_0000_0000_0000 <= (left >> 8) <= 0x7f_ffff_ffff_ffff) by (bit_vector);
    let q = left >> 8; let m = left & 0xff;
    assert(q * 256 + m == left);
    assert((left & 0x80 == 0x80) <==> (left & 0xff) >= 128) by (bit_vector);
    assert(left as int / 256 == q && left as int % 256 == m) by (nonlinear_arith) requires q * 256 + m == left, 0 <= m < 256;
}
pub broadcast proof fn bits_reqid(x: i64) ensures 0 <= #[trigger] (x & 0x7fff_ffff) <= 0x7fff_ffff { assert(0 <= (x & 0x7fff_ffff) <= 0x7fff_ffff) by (bit_vector); }

// ---- functional view of the elements used by the message layer
/// what is left after the first element of s
pub open spec fn after(s: Seq<u8>) -> Seq<u8> {
    let h = header(s).unwrap();
    s.subrange(h.hlen as int + h.length as int, s.len() as int)
}
/// contents of the first element of s when it is primitive with that tag number
pub open spec fn prim(s: Seq<u8>, tag: nat) -> Option<Seq<u8>> {
    match header(s) { Some(h) => if h.tag == tag && !h.constructed { Some(content(s)) } else { None }, None => None }
}
pub open spec fn cons(s: Seq<u8>, tag: nat) -> Option<Seq<u8>> {
    match header(s) { Some(h) => if h.tag == tag && h.constructed { Some(content(s)) } else { None }, None => None }
}
pub open spec fn seq_at(s: Seq<u8>) -> Option<Seq<u8>> { cons(s, 16) }
pub open spec fn oct_at(s: Seq<u8>) -> Option<Seq<u8>> { prim(s, 4) }
pub open spec fn oid_at(s: Seq<u8>) -> Option<Seq<u8>> { prim(s, 6) }
pub open spec fn int_at(s: Seq<u8>) -> Option<int> {
    match prim(s, 2) { Some(c) => if c.len() <= 8 { Some(twos(c)) } else { None }, None => None }
}
/// input left after k elements
pub open spec fn sp_rest(s: Seq<u8>, k: nat) -> Seq<u8> decreases k { if k == 0 { s } else { after(sp_rest(s, (k - 1) as nat)) } }
pub proof fn lemma_after_shorter(s: Seq<u8>)
    ensures header(s) is Some ==> after(s).len() < s.len() && content(s).len() < s.len()
        && header(s).unwrap().hlen >= 2 && content(s).len() == header(s).unwrap().length,
{
    lemma_hightag_mono(s, 1, 0);
}
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + (b + c) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
/// pushing identifier and length octets in front of a body makes the element
pub proof fn lemma_push_tlv(tag: u8, body: Seq<u8>, o: Seq<u8>)
    ensures seq![tag] + enc_len(body.len()) + (body + o) == tlv(tag, body) + o,
        tlv(tag, body).len() == 1 + enc_len(body.len()).len() + body.len(),
{ assert(seq![tag] + enc_len(body.len()) + (body + o) =~= tlv(tag, body) + o); }
/// lemma_tlv in terms of the functional view
pub proof fn lemma_el(tag: u8, body: Seq<u8>, r: Seq<u8>)
    requires tag % 32 != 31, tlv(tag, body).len() < 65536,
    ensures
        after(tlv(tag, body) + r) == r,
        content(tlv(tag, body) + r) == body,
        aoff(tlv(tag, body) + r) == tlv(tag, body).len(),
        header(tlv(tag, body) + r) matches Some(h) && h.tag == tag % 32 && h.class == tag / 64 && h.constructed == ((tag / 32) % 2 == 1) && h.length == body.len(),
        tag < 32 ==> prim(tlv(tag, body) + r, tag as nat) == Some(body),
        tag == 0x30 ==> seq_at(tlv(tag, body) + r) == Some(body),
{
    assert(tlv(tag, body).len() > body.len());
    lemma_tlv(tag, body, r);
}
pub proof fn lemma_empty_r(a: Seq<u8>) ensures a + Seq::<u8>::empty() == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn bits_u8_1(t: u8) ensures #[trigger] (t & 1) == t % 2 { assert((t & 1) == t % 2) by (bit_vector); }
pub broadcast proof fn bits_u8_2(t: u8) ensures #[trigger] (t & 2) == 2 * ((t / 2) % 2) { assert((t & 2) == mul(2, (t / 2) % 2)) by (bit_vector); }
pub broadcast proof fn bits_u8_4(t: u8) ensures #[trigger] (t & 4) == 4 * ((t / 4) % 2) { assert((t & 4) == mul(4, (t / 4) % 2)) by (bit_vector); }
pub broadcast group group_flags { bits_u8_1, bits_u8_2, bits_u8_4 }
pub proof fn lemma_bits_flags()
    ensures 0u8 | 1 == 1, 0u8 | 2 == 2, 0u8 | 4 == 4, 1u8 | 2 == 3, 1u8 | 4 == 5, 2u8 | 4 == 6, 3u8 | 4 == 7,
{ assert(0u8 | 1 == 1 && 0u8 | 2 == 2 && 0u8 | 4 == 4 && 1u8 | 2 == 3 && 1u8 | 4 == 5 && 2u8 | 4 == 6 && 3u8 | 4 == 7) by (bit_vector); }

/// offsets of the contents and of the end of the first element
pub open spec fn coff(s: Seq<u8>) -> int { header(s).unwrap().hlen as int }
pub open spec fn aoff(s: Seq<u8>) -> int { header(s).unwrap().hlen as int + header(s).unwrap().length as int }
pub proof fn lemma_oct_el(body: Seq<u8>, r: Seq<u8>)
    requires tlv(4, body).len() < 65536,
    ensures oct_at(tlv(4, body) + r) == Some(body), after(tlv(4, body) + r) == r, content(tlv(4, body) + r) == body,
        coff(tlv(4, body) + r) == tlv(4, body).len() - body.len(), aoff(tlv(4, body) + r) == tlv(4, body).len(),
{ lemma_el(4, body, r); lemma_tlv(4, body, r); }
pub proof fn lemma_seq_el(body: Seq<u8>, r: Seq<u8>)
    requires tlv(0x30, body).len() < 65536,
    ensures seq_at(tlv(0x30, body) + r) == Some(body), after(tlv(0x30, body) + r) == r, content(tlv(0x30, body) + r) == body,
        coff(tlv(0x30, body) + r) == tlv(0x30, body).len() - body.len(), aoff(tlv(0x30, body) + r) == tlv(0x30, body).len(),
{ lemma_el(0x30, body, r); lemma_tlv(0x30, body, r); }
