@file privacy/mod.rs
@use
use crate::vshim::*;
use crate::buf::buffer::MAX_SIZE;
use crate::snmp::msg::v3::scoped::*;
@prepend
// RFC 3414 8.1.1 (DES-CBC), RFC 3826 3.1 (AES-128-CFB); alg 1: DES, 2: AES
pub open spec fn blk(alg: int) -> nat { if alg == 1 { 8 } else { 16 } }
pub open spec fn salt_mod(alg: int) -> nat { if alg == 1 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 } }
/// msgPrivacyParameters of the message with the counter value `salt`
pub open spec fn salt_octets(alg: int, boots: u32, salt: nat) -> Seq<u8> { if alg == 1 { be4(boots) + be4(salt as u32) } else { be8(salt as u64) } }
pub open spec fn priv_iv(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>) -> Seq<u8> {
    if alg == 1 { Seq::new(8, |i: int| pp[i] ^ pk[8 + i]) } else { be4(boots) + be4(time) + pp }
}
pub open spec fn priv_ckey(alg: int, pk: Seq<u8>) -> Seq<u8> { if alg == 1 { pk.subrange(0, 8) } else { pk } }
pub open spec fn priv_enc(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    cipher_enc(if alg == 1 { 0 } else { 1 }, alg, priv_ckey(alg, pk), priv_iv(alg, pk, boots, time, pp), m)
}
pub open spec fn priv_dec(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>, d: Seq<u8>) -> Seq<u8> {
    cipher_dec(if alg == 1 { 0 } else { 1 }, alg, priv_ckey(alg, pk), priv_iv(alg, pk, boots, time, pp), d)
}
/// less than one block of padding up to a multiple of the block
pub open spec fn pads(alg: int, m: Seq<u8>, pad: Seq<u8>) -> bool { pad.len() < blk(alg) && (m.len() + pad.len()) % blk(alg) == 0 }
pub open spec fn is_cipher_of(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>, m: Seq<u8>, d: Seq<u8>) -> bool {
    exists|pad: Seq<u8>| #[trigger] pads(alg, m, pad) && d == priv_enc(alg, pk, boots, time, pp, m + pad)
}
/// C11: what the receiver decrypts is the message and less than one block of padding
pub proof fn lemma_priv_roundtrip(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>, m: Seq<u8>, d: Seq<u8>)
    requires 1 <= alg <= 2, is_cipher_of(alg, pk, boots, time, pp, m, d),
    ensures exists|pad: Seq<u8>| #[trigger] pads(alg, m, pad) && priv_dec(alg, pk, boots, time, pp, d) == m + pad,
{
    broadcast use axiom_dec_enc;
    let pad = choose|pad: Seq<u8>| #[trigger] pads(alg, m, pad) && d == priv_enc(alg, pk, boots, time, pp, m + pad);
    assert(pads(alg, m, pad));
}
/// C14: the n-th message after the keys were set uses the start value advanced by n
pub open spec fn salt_after(alg: int, s: nat, n: nat) -> nat { (s + n) % salt_mod(alg) }
pub proof fn lemma_be_inj()
    ensures forall|a: u32, b: u32| #[trigger] be4(a) == #[trigger] be4(b) ==> a == b, forall|a: u64, b: u64| #[trigger] be8(a) == #[trigger] be8(b) ==> a == b,
{
    assert forall|a: u32, b: u32| #[trigger] be4(a) == #[trigger] be4(b) implies a == b by {
        let (x, y) = (be4(a), be4(b));
        assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]);
        assert((a >> 24) as u8 == (b >> 24) as u8 && (a >> 16) as u8 == (b >> 16) as u8 && (a >> 8) as u8 == (b >> 8) as u8 && a as u8 == b as u8 ==> a == b) by (bit_vector);
    }
    assert forall|a: u64, b: u64| #[trigger] be8(a) == #[trigger] be8(b) implies a == b by {
        let (x, y) = (be8(a), be8(b));
        assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
        assert((a >> 56) as u8 == (b >> 56) as u8 && (a >> 48) as u8 == (b >> 48) as u8 && (a >> 40) as u8 == (b >> 40) as u8 && (a >> 32) as u8 == (b >> 32) as u8
            && (a >> 24) as u8 == (b >> 24) as u8 && (a >> 16) as u8 == (b >> 16) as u8 && (a >> 8) as u8 == (b >> 8) as u8 && a as u8 == b as u8 ==> a == b) by (bit_vector);
    }
}
/// C14: two messages less than 2^32 (DES) or 2^64 (AES) sends apart carry different privacy parameters
pub proof fn lemma_salts_differ(alg: int, b1: u32, b2: u32, s: nat, n: nat, k: nat)
    requires 1 <= alg <= 2, 0 < k < salt_mod(alg), s < salt_mod(alg),
    ensures salt_octets(alg, b1, salt_after(alg, s, n)) != salt_octets(alg, b2, salt_after(alg, s, n + k)),
{
    let m = salt_mod(alg);
    let (x, y) = (salt_after(alg, s, n), salt_after(alg, s, n + k));
    if x == y {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod((s + n) as int, m as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod((s + n + k) as int, m as int);
        let (q1, q2) = ((s + n) as int / m as int, (s + n + k) as int / m as int);
        assert(m * q2 - m * q1 == m * (q2 - q1)) by (nonlinear_arith);
        assert(k == m * (q2 - q1));
        assert(q2 - q1 <= 0 ==> m * (q2 - q1) <= 0) by (nonlinear_arith) requires m > 0;
        assert(q2 - q1 >= 1 ==> m * (q2 - q1) >= m) by (nonlinear_arith) requires m > 0;
    }
    lemma_be_inj();
    let (p, q) = (salt_octets(alg, b1, x), salt_octets(alg, b2, y));
    if p == q && alg == 1 {
        assert(p.subrange(4, 8) =~= be4(x as u32));
        assert(q.subrange(4, 8) =~= be4(y as u32));
    }
}
pub proof fn lemma_ciphers()
    ensures <Des as VfCipher>::id() == 1, <Aes128 as VfCipher>::id() == 2, cipher_blk(1) == 8, cipher_blk(2) == 16, cipher_ksz(1) == 8, cipher_ksz(2) == 16,
        <ModeCbc as VfMode>::mode() == 0, <ModeCfb as VfMode>::mode() == 1, NoPadding::none(),
{}
pub proof fn lemma_be_len() ensures forall|x: u32| #[trigger] be4(x).len() == 4, forall|x: u64| #[trigger] be8(x).len() == 8 {}
pub proof fn lemma_salt_step(alg: int, s: nat)
    requires 1 <= alg <= 2, s < salt_mod(alg),
    ensures salt_after(alg, s, 1) == (if s + 1 == salt_mod(alg) { 0 } else { s + 1 }),
{
    if s + 1 < salt_mod(alg) { vstd::arithmetic::div_mod::lemma_small_mod(s + 1, salt_mod(alg)); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(salt_mod(alg) as int); }
}
@in SnmpPriv
    /// 0 none, 1 DES, 2 AES-128
    spec fn alg(&self) -> int;
    spec fn wf(&self) -> bool;
    /// the 16 octets of localized key material in use
    spec fn pk(&self) -> Seq<u8>;
    /// value the next message uses
    spec fn salt(&self) -> nat;
@in SnmpPriv for PrivKey
    open spec fn alg(&self) -> int { match self { PrivKey::NoPriv(x) => 0, PrivKey::Des(x) => 1, PrivKey::Aes128(x) => 2 } }
    open spec fn wf(&self) -> bool { match self { PrivKey::NoPriv(x) => x.wf() && x.alg() == 0, PrivKey::Des(x) => x.wf() && x.alg() == 1, PrivKey::Aes128(x) => x.wf() && x.alg() == 2 } }
    open spec fn pk(&self) -> Seq<u8> { match self { PrivKey::NoPriv(x) => x.pk(), PrivKey::Des(x) => x.pk(), PrivKey::Aes128(x) => x.pk() } }
    open spec fn salt(&self) -> nat { match self { PrivKey::NoPriv(x) => x.salt(), PrivKey::Des(x) => x.salt(), PrivKey::Aes128(x) => x.salt() } }
@fn SnmpPriv::as_localized
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).alg() == old(self).alg(),
        r matches Err(e) ==> e is InvalidKey,
        old(self).alg() == 0 ==> r is Ok,
        old(self).alg() != 0 ==> (r is Ok <==> key@.len() >= 16),
        old(self).alg() != 0 && r is Ok ==> final(self).pk() == key@.subrange(0, 16),
@fn SnmpPriv::has_priv
@ret r
@spec
    requires self.wf(),
    ensures r == (self.alg() != 0),
@fn SnmpPriv::encrypt
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).alg() == old(self).alg(), final(self).pk() == old(self).pk(),
        old(self).alg() == 0 ==> r is Err,
        old(self).alg() != 0 ==> {
            let a = old(self).alg();
            &&& final(self).salt() == salt_after(a, old(self).salt(), 1)
            &&& match enc_scoped(pdu.engine_id@, pdu.pdu) {
                Some(e) => {
                    &&& (r is Ok <==> e.len() + blk(a) <= MAX_SIZE)
                    &&& (r matches Err(x) ==> x is OutOfBuffer)
                    &&& (r matches Ok((d, pp)) ==> pp@ == salt_octets(a, boots, old(self).salt())
                            && is_cipher_of(a, old(self).pk(), boots, time, pp@, e, d@))
                },
                None => r is Err,
            }
        },
@fn SnmpPriv::decrypt
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).alg() == old(self).alg(), final(self).pk() == old(self).pk(), final(self).salt() == old(self).salt(),
        old(self).alg() == 0 ==> r is Err,
        old(self).alg() != 0 ==> {
            let a = old(self).alg();
            let m = priv_dec(a, old(self).pk(), usm.engine_boots as u32, usm.engine_time as u32, usm.privacy_params@, data@);
            let ok = usm.privacy_params@.len() == 8 && data@.len() <= MAX_SIZE && (a == 1 ==> data@.len() % 8 == 0);
            &&& (r matches Ok(x) ==> ok && scoped_is(m, x))
            &&& (r is Err ==> !(ok && must_scoped(m)))
        },
@fn PrivKey::new
@ret r
@spec
    ensures
        r matches Err(e) ==> e is InvalidVersion,
        code & 0x3f > 2 ==> r is Err,
        code & 0x3f <= 2 ==> (r matches Ok(k) && k.wf() && k.alg() == code & 0x3f),
@file privacy/nopriv.rs
@in SnmpPriv for NoPriv
    open spec fn alg(&self) -> int { 0 }
    open spec fn wf(&self) -> bool { true }
    open spec fn pk(&self) -> Seq<u8> { Seq::empty() }
    open spec fn salt(&self) -> nat { 0 }
@file privacy/des.rs
@use
use super::*;
use crate::vshim::*;
use crate::buf::buffer::MAX_SIZE;
use crate::snmp::msg::v3::scoped::*;
@filerw
rand::rng() ==> crate::vshim::rng()
self.priv_params.as_ref() ==> &self.priv_params
@in SnmpPriv for DesKey
    open spec fn alg(&self) -> int { 1 }
    open spec fn wf(&self) -> bool { self.buf.wf() }
    open spec fn pk(&self) -> Seq<u8> { self.key@ + self.pre_iv@ }
    open spec fn salt(&self) -> nat { self.salt_value as nat }
@fn Default for DesKey::default
@ret r
@spec
    ensures r.buf.wf(),
@fn SnmpPriv for DesKey::encrypt
@entry
        hide(enc_scoped);
        broadcast use axiom_enc_len, crate::vspec::bits_xor_u8;
        let ghost pk0 = self.pk();
        let ghost s0 = self.salt();
        proof { lemma_salt_step(1, self.salt_value as nat); lemma_be_len(); lemma_ciphers(); }
@loop 0
            invariant
                iv@.len() == 8, vf_n0 == 8, vf_i0 <= 8, vf_s0@ == self.priv_params@, vf_z0@ == self.pre_iv@,
                forall|i: int| 0 <= i < vf_i0 ==> #[trigger] iv@[i] == vf_s0@[i] ^ vf_z0@[i],
            decreases vf_n0 - vf_i0,
@loopbegin 0
        broadcast use crate::vspec::bits_xor_u8;
@before let encryptor =
        proof {
            assert(self.priv_params@ =~= salt_octets(1, boots, s0));
            assert(iv@ =~= priv_iv(1, pk0, boots, _time, self.priv_params@));
            assert(priv_ckey(1, pk0) =~= self.key@);
        }
@after let b = self.buf.data_mut();
        let ghost e = enc_scoped(pdu.engine_id@, pdu.pdu).unwrap();
        let ghost pad = b@.subrange(e.len() as int, padded_len as int);
        let ghost m = e + pad;
        proof {
            assert(b@.subrange(0, padded_len as int) =~= m);
            assert(padded_len as int % 8 == 0);
            assert(pads(1, e, pad));
            assert(m.subrange(0, m.len() as int) =~= m);
            assert(m.subrange(m.len() as int, m.len() as int) =~= Seq::<u8>::empty());
            assert(forall|z: Seq<u8>| #[trigger] (z + Seq::<u8>::empty()) =~= z);
        }
@before Ok((
        proof {
            assert(b@.subrange(0, padded_len as int) =~= priv_enc(1, pk0, boots, _time, self.priv_params@, m));
        }
@fn SnmpPriv for DesKey::decrypt
@entry
        hide(must_scoped); hide(scoped_is);
        broadcast use axiom_dec_len, crate::vspec::bits_xor_u8;
        let ghost pk0 = self.pk();
        proof { lemma_ciphers(); }
@loop 0
            invariant
                iv@.len() == 8, vf_n0 == 8, vf_i0 <= 8, vf_s0@ == usm.privacy_params@, usm.privacy_params@.len() == 8, vf_z0@ == self.pre_iv@,
                forall|i: int| 0 <= i < vf_i0 ==> #[trigger] iv@[i] == vf_s0@[i] ^ vf_z0@[i],
            decreases vf_n0 - vf_i0,
@loopbegin 0
        broadcast use crate::vspec::bits_xor_u8;
@before let decryptor =
        proof {
            assert(iv@ =~= priv_iv(1, pk0, usm.engine_boots as u32, usm.engine_time as u32, usm.privacy_params@));
            assert(priv_ckey(1, pk0) =~= self.key@);
        }
@before let scoped_pdu =
        proof { assert(data@.subrange(data@.len() as int, data@.len() as int) =~= Seq::<u8>::empty());
            assert(self.buf@.len() == data@.len());
            assert(self.buf@ =~= priv_dec(1, pk0, usm.engine_boots as u32, usm.engine_time as u32, usm.privacy_params@, data@)); }
@file privacy/aes128.rs
@use
use super::*;
use crate::vshim::*;
use crate::buf::buffer::MAX_SIZE;
use crate::snmp::msg::v3::scoped::*;
@filerw
rand::rng() ==> crate::vshim::rng()
@in SnmpPriv for Aes128Key
    open spec fn alg(&self) -> int { 2 }
    open spec fn wf(&self) -> bool { self.buf.wf() }
    open spec fn pk(&self) -> Seq<u8> { self.key@ }
    open spec fn salt(&self) -> nat { self.salt_value as nat }
@fn Default for Aes128Key::default
@ret r
@spec
    ensures r.buf.wf(),
@fn SnmpPriv for Aes128Key::encrypt
@entry
        hide(enc_scoped);
        broadcast use axiom_enc_len;
        let ghost pk0 = self.pk();
        let ghost s0 = self.salt();
        proof { lemma_salt_step(2, self.salt_value as nat); lemma_be_len(); lemma_ciphers(); }
@before let encryptor =
        proof {
            assert(self.priv_params@.subrange(8, 16) =~= salt_octets(2, boots, s0));
            assert(self.priv_params@ =~= priv_iv(2, pk0, boots, time, self.priv_params@.subrange(8, 16)));
            assert(priv_ckey(2, pk0) =~= self.key@);
        }
@after let b = self.buf.data_mut();
        let ghost e = enc_scoped(pdu.engine_id@, pdu.pdu).unwrap();
        let ghost pad = b@.subrange(e.len() as int, padded_len as int);
        let ghost m = e + pad;
        proof {
            assert(b@.subrange(0, padded_len as int) =~= m);
            assert(padded_len as int % 16 == 0);
            assert(pads(2, e, pad));
            assert(m.subrange(0, m.len() as int) =~= m);
            assert(m.subrange(m.len() as int, m.len() as int) =~= Seq::<u8>::empty());
            assert(forall|z: Seq<u8>| #[trigger] (z + Seq::<u8>::empty()) =~= z);
        }
@before Ok((
        proof {
            assert(b@.subrange(0, padded_len as int) =~= priv_enc(2, pk0, boots, time, self.priv_params@.subrange(8, 16), m));
        }
@fn SnmpPriv for Aes128Key::decrypt
@entry
        hide(must_scoped); hide(scoped_is);
        broadcast use axiom_dec_len;
        let ghost pk0 = self.pk();
        proof { lemma_be_len(); lemma_ciphers(); }
@after self.buf.skip(data.len());
        let ghost g = self.buf@;
        proof { assert(g.len() == (if data@.len() <= MAX_SIZE { data@.len() } else { MAX_SIZE as nat })); }
@before let decryptor =
        proof { assert(iv@ =~= priv_iv(2, pk0, usm.engine_boots as u32, usm.engine_time as u32, usm.privacy_params@)); }
@before let scoped_pdu =
        proof { 
            assert(self.buf@.len() == data@.len());
            assert(self.buf@ =~= priv_dec(2, pk0, usm.engine_boots as u32, usm.engine_time as u32, usm.privacy_params@, data@)); }
