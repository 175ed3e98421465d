@file auth/mod.rs
@use
use crate::vshim::*;
@prepend
/// RFC 3414 A.2: the octets of the password repeated up to n octets
pub open spec fn cyc(p: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| p[i % (p.len() as int)]) }
/// RFC 3414 A.2.1/A.2.2: password to key, key localization
pub open spec fn pass_key(alg: int, p: Seq<u8>) -> Seq<u8> { hash_of(alg, cyc(p, 1048576)) }
pub open spec fn local_key(alg: int, k: Seq<u8>, engine: Seq<u8>) -> Seq<u8> { hash_of(alg, k + engine + k) }
/// RFC 3414 6.3.1/7.3.1: HMAC-MD5-96, HMAC-SHA-96
pub open spec fn xpad(k: Seq<u8>, v: u8) -> Seq<u8> { Seq::new(64, |i: int| if i < k.len() { k[i] ^ v } else { v }) }
pub open spec fn hmac(alg: int, k: Seq<u8>, m: Seq<u8>) -> Seq<u8> { hash_of(alg, xpad(k, 0x5c) + hash_of(alg, xpad(k, 0x36) + m)) }
pub open spec fn mac96(alg: int, k: Seq<u8>, m: Seq<u8>) -> Seq<u8> { hmac(alg, k, m).subrange(0, 12) }
@in SnmpAuth
    /// 0 no authentication, 1 MD5, 2 SHA-1
    spec fn alg(&self) -> int;
    spec fn wf(&self) -> bool;
    spec fn kv(&self) -> Seq<u8>;
@in SnmpAuth for AuthKey
    open spec fn alg(&self) -> int { match self { AuthKey::NoAuth(x) => 0, AuthKey::Md5(x) => 1, AuthKey::Sha1(x) => 2 } }
    open spec fn wf(&self) -> bool { match self { AuthKey::NoAuth(x) => x.wf(), AuthKey::Md5(x) => x.wf() && x.alg() == 1, AuthKey::Sha1(x) => x.wf() && x.alg() == 2 } }
    open spec fn kv(&self) -> Seq<u8> { match self { AuthKey::NoAuth(x) => x.kv(), AuthKey::Md5(x) => x.kv(), AuthKey::Sha1(x) => x.kv() } }
@append
/// holds for every key: the hash, its size and the MAC size of each variant fit together
pub proof fn lemma_auth_wf(k: AuthKey)
    ensures k.wf(),
{}
@fn SnmpAuth::as_localized
@spec
    requires old(self).wf(), old(self).alg() != 0 ==> key@.len() == osz(old(self).alg()),
    ensures final(self).wf(), final(self).alg() == old(self).alg(), old(self).alg() != 0 ==> final(self).kv() == key@,
@fn SnmpAuth::as_master
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).alg() == old(self).alg(),
        old(self).alg() != 0 ==> final(self).kv() == local_key(old(self).alg(), key@, locality@),
@fn SnmpAuth::as_password
@spec
    requires old(self).wf(), password@.len() > 0,
    ensures final(self).wf(), final(self).alg() == old(self).alg(),
        old(self).alg() != 0 ==> final(self).kv() == local_key(old(self).alg(), pass_key(old(self).alg(), password@), locality@),
@fn SnmpAuth::localize
@spec
    requires self.wf(), self.alg() != 0 ==> old(out)@.len() == osz(self.alg()),
    ensures final(out)@.len() == old(out)@.len(), self.alg() != 0 ==> final(out)@ == local_key(self.alg(), key@, locality@),
@fn SnmpAuth::password_to_master
@spec
    requires self.wf(), password@.len() > 0, self.alg() != 0 ==> old(out)@.len() == osz(self.alg()),
    ensures final(out)@.len() == old(out)@.len(), self.alg() != 0 ==> final(out)@ == pass_key(self.alg(), password@),
@fn SnmpAuth::get_key_size
@ret r
@spec
    requires self.wf(),
    ensures r == (if self.alg() == 0 { 0 } else { osz(self.alg()) }),
@fn SnmpAuth::get_key
@ret r
@spec
    requires self.wf(),
    ensures r@ == self.kv(), self.alg() != 0 ==> r@.len() == osz(self.alg()),
@fn SnmpAuth::has_auth
@ret r
@spec
    requires self.wf(),
    ensures r == (self.alg() != 0),
@fn SnmpAuth::placeholder
@ret r
@spec
    requires self.wf(),
    ensures r@ == (if self.alg() == 0 { Seq::<u8>::empty() } else { Seq::new(12, |i: int| 0u8) }),
@fn SnmpAuth::sign
@ret r
@spec
    requires self.wf(), self.alg() != 0 ==> offset + 12 <= old(data)@.len(),
    ensures r is Ok, self.alg() == 0 ==> final(data)@ == old(data)@,
        self.alg() != 0 ==> final(data)@ == splice(old(data)@, offset as int, mac96(self.alg(), self.kv(), old(data)@)),
@fn AuthKey::new
@ret r
@spec
    ensures
        r matches Err(e) ==> e is InvalidVersion,
        code & 0x3f > 2 ==> r is Err,
        code & 0x3f <= 2 ==> (r matches Ok(k) && k.wf() && k.alg() == code & 0x3f),
@fn AuthKey::as_key_type
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).alg() == old(self).alg(),
        r matches Err(e) ==> e is InvalidKey,
        old(self).alg() == 0 ==> r is Ok,
        old(self).alg() != 0 ==> {
            let a = old(self).alg();
            let t = alg & 0xc0;
            &&& (t == 0 ==> if key@.len() > 0 { r is Ok && final(self).kv() == local_key(a, pass_key(a, key@), engine_id@) } else { r is Err })
            &&& (t == 0x40 ==> if key@.len() == osz(a) { r is Ok && final(self).kv() == local_key(a, key@, engine_id@) } else { r is Err })
            &&& (t == 0x80 ==> if key@.len() == osz(a) { r is Ok && final(self).kv() == key@ } else { r is Err })
            &&& (t == 0xc0 ==> r is Err)
        },
@file auth/digest.rs
@use
use crate::vshim::*;
use super::{cyc, pass_key, local_key, xpad, hmac, mac96};
use core::marker::PhantomData;
@prepend
pub proof fn lemma_cyc_step(p: Seq<u8>, k: nat)
    requires p.len() > 0,
    ensures cyc(p, k * p.len()) + p == cyc(p, (k + 1) * p.len()),
{
    let l = p.len() as int;
    assert((k + 1) * l == k * l + l) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < l implies #[trigger] p[i] == p[(k * l + i) % l] by {
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k as int, i, l);
        vstd::arithmetic::div_mod::lemma_small_mod(i as nat, l as nat);
        assert(k * l + i == l * k + i) by (nonlinear_arith);
    }
    let a = cyc(p, k * p.len()) + p;
    let b = cyc(p, (k + 1) * p.len());
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i >= k * l { assert(p[i - k * l] == p[(k * l + (i - k * l)) % l]); }
    }
    assert(a =~= b);
}
pub proof fn lemma_cyc_rem(p: Seq<u8>, k: nat, m: nat)
    requires p.len() > 0, m < p.len(),
    ensures cyc(p, k * p.len()) + p.subrange(0, m as int) == cyc(p, k * p.len() + m),
{
    let l = p.len() as int;
    let a = cyc(p, k * p.len()) + p.subrange(0, m as int);
    let b = cyc(p, k * p.len() + m);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i >= k * l {
            let j = i - k * l;
            vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k as int, j, l);
            vstd::arithmetic::div_mod::lemma_small_mod(j as nat, l as nat);
            assert(k * l + j == l * k + j) by (nonlinear_arith);
        }
    }
    assert(a =~= b);
}
@in SnmpAuth for DigestAuth<D,KS,SS>
    open spec fn alg(&self) -> int { D::alg() }
    open spec fn wf(&self) -> bool { (D::alg() == 1 || D::alg() == 2) && KS == osz(D::alg()) && SS == 12 }
    open spec fn kv(&self) -> Seq<u8> { self.key@ }
@fn SnmpAuth for DigestAuth<D,KS,SS>::localize
@entry
        broadcast use axiom_hash_len;
@before let digest = hasher
        proof { assert(hasher.st() =~= key@ + locality@ + key@); }
@fn SnmpAuth for DigestAuth<D,KS,SS>::password_to_master
@entry
        broadcast use axiom_hash_len;
        proof {
            let pl = password@.len() as int;
            assert((MEGABYTE as int / pl) * pl <= MEGABYTE && MEGABYTE as int == (MEGABYTE as int / pl) * pl + MEGABYTE as int % pl) by {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(MEGABYTE as int, pl);
                vstd::arithmetic::div_mod::lemma_mod_bound(MEGABYTE as int, pl);
                assert(pl * (MEGABYTE as int / pl) == (MEGABYTE as int / pl) * pl) by (nonlinear_arith); }
        }
@loopbefore 0
        proof {
            assert(n * pass_len + rem == MEGABYTE) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(MEGABYTE as int, pass_len as int); assert(pass_len * n == n * pass_len) by (nonlinear_arith); }
            assert(0 * password@.len() == 0) by (nonlinear_arith);
            assert(cyc(password@, 0) =~= Seq::<u8>::empty());
        }
@loop 0
            invariant
                pass_len == password@.len(), pass_len > 0, vf_n0 == n, vf_i0 <= vf_n0,
                hasher.st() == cyc(password@, vf_i0 as nat * password@.len()),
            decreases vf_n0 - vf_i0,
@loopend 0
            proof { lemma_cyc_step(password@, (vf_i0 - 1) as nat); }
@loopafter 0
        proof { lemma_cyc_rem(password@, n as nat, rem as nat); }
@before let digest = hasher
        proof { assert(hasher.st() =~= cyc(password@, 1048576)); }
@fn SnmpAuth for DigestAuth<D,KS,SS>::sign
@entry
        broadcast use axiom_hash_len, axiom_slice_max, crate::vspec::bits_xor_u8;
@loop 0
            invariant
                vf_n0 == KS, vf_s0@ == self.key@, vf_i0 <= KS, vf_acc0@.len() == vf_i0,
                forall|i: int| 0 <= i < vf_i0 ==> vf_acc0@[i] == self.key@[i] ^ 0x36u8,
            decreases vf_n0 - vf_i0,
@loopbegin 0
        broadcast use crate::vspec::bits_xor_u8;
@loop 1
            invariant
                vf_n1 == KS, vf_s1@ == self.key@, vf_i1 <= KS, vf_acc1@.len() == vf_i1,
                forall|i: int| 0 <= i < vf_i1 ==> vf_acc1@[i] == self.key@[i] ^ 0x5cu8,
            decreases vf_n1 - vf_i1,
@loopbegin 1
        broadcast use crate::vspec::bits_xor_u8;
@before let d1 = ctx1
        proof { assert(ctx1.st() =~= xpad(self.key@, 0x36) + data@); }
@before let d2 = ctx2
        proof { assert(d1@.subrange(0, KS as int) =~= d1@); assert(ctx2.st() =~= xpad(self.key@, 0x5c) + d1@); }
@file auth/noauth.rs
@in SnmpAuth for NoAuth
    open spec fn alg(&self) -> int { 0 }
    open spec fn wf(&self) -> bool { true }
    open spec fn kv(&self) -> Seq<u8> { Seq::empty() }
