@file socket/v3.rs
@use
use crate::vshim::*;
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::pdu::*;
use crate::snmp::op::*;
use crate::snmp::msg::v3::*;
use crate::snmp::msg::v3::data::*;
use crate::snmp::msg::v3::msg::*;
use crate::snmp::msg::v3::scoped::*;
use crate::snmp::msg::v3::usm::*;
use crate::auth::*;
use crate::privacy::*;
use crate::buf::buffer::MAX_SIZE;
use crate::error::*;
use super::snmpsocket::*;
broadcast use {group_slice_eq, crate::error::group_question};
@filerw
auth_params.as_ptr() as usize - data.as_ptr() as usize ==> vf_offset(data, auth_params)
self.engine_id).into() ==> self.engine_id).vf_into()
@prepend
/// where the parser's slice of the authentication parameters starts in the message (assumed: pointer arithmetic)
#[verifier::external_body]
pub fn vf_offset(data: &[u8], a: &[u8]) -> (r: usize)
    requires v3_at(data@) matches Some(v) && v.usm.auth == a@,
    ensures r == auth_off(data@),
{ unimplemented!() }
pub open spec fn zeros12() -> Seq<u8> { Seq::new(12, |i: int| 0u8) }
pub proof fn lemma_content(e: Seq<u8>)
    requires header(e) is Some,
    ensures coff(e) + content(e).len() + after(e).len() == e.len(), coff(e) >= 0, aoff(e) + after(e).len() == e.len(), aoff(e) >= 0,
        content(e) == e.subrange(coff(e), coff(e) + content(e).len()), after(e) == e.subrange(aoff(e), e.len() as int),
{}
pub proof fn lemma_auth_off(d: Seq<u8>)
    requires v3_at(d) is Some,
    ensures 0 <= auth_off(d), auth_off(d) + v3_at(d).unwrap().usm.auth.len() <= d.len(),
        v3_at(d).unwrap().usm.auth == d.subrange(auth_off(d), auth_off(d) + v3_at(d).unwrap().usm.auth.len()),
{
    hide(header); hide(content); hide(after); hide(coff); hide(aoff); hide(int_at);
    let e = content(d); let e1 = after(e); let e2 = after(e1);
    let s = content(e2);
    let u = content(s); let u1 = after(u); let u2 = after(u1); let u3 = after(u2); let u4 = after(u3);
    assert(header(e) is Some && header(e1) is Some && header(e2) is Some && header(d) is Some) by { reveal(int_at); }
    assert(header(s) is Some && header(u) is Some && header(u1) is Some && header(u2) is Some && header(u3) is Some && header(u4) is Some) by { reveal(int_at); }
    lemma_content(d); lemma_content(e); lemma_content(e1); lemma_content(e2);
    lemma_content(s); lemma_content(u); lemma_content(u1); lemma_content(u2); lemma_content(u3); lemma_content(u4);
    let a = content(u4);
    assert(a =~= d.subrange(auth_off(d), auth_off(d) + a.len()));
}
/// C12: the localized key for key material of the type given in the upper two bits of the code
pub open spec fn key_of(a: int, code: u8, k: Seq<u8>, engine: Seq<u8>) -> Option<Seq<u8>> {
    let t = code & 0xc0;
    if a == 0 { Some(Seq::empty()) }
    else if t == 0 { if k.len() > 0 { Some(local_key(a, pass_key(a, k), engine)) } else { None } }
    else if t == 0x40 { if k.len() == osz(a) { Some(local_key(a, k, engine)) } else { None } }
    else if t == 0x80 { if k.len() == osz(a) { Some(k) } else { None } }
    else { None }
}
pub proof fn lemma_kt(c: u8)
    ensures c & 0xc0 == 0 || c & 0xc0 == 0x40 || c & 0xc0 == 0x80 || c & 0xc0 == 0xc0,
{ assert(c & 0xc0 == 0 || c & 0xc0 == 0x40 || c & 0xc0 == 0x80 || c & 0xc0 == 0xc0) by (bit_vector); }
/// the keys of a session: authentication and privacy with the same hash
pub open spec fn keyed(c: CoreV, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>) -> bool {
    &&& c.aalg == acode & 0x3f && c.palg == pcode & 0x3f
    &&& (c.aalg != 0 ==> key_of(c.aalg, acode, ak, c.engine) == Some(c.akey))
    &&& (c.palg != 0 ==> (key_of(c.aalg, pcode, pk, c.engine) matches Some(k) && k.len() >= 16 && c.pkey == k.subrange(0, 16)))
}
/// key material that has to be accepted
pub open spec fn keys_ok(engine: Seq<u8>, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>) -> bool {
    &&& acode & 0x3f <= 2 && pcode & 0x3f <= 2
    &&& key_of((acode & 0x3f) as int, acode, ak, engine) is Some
    &&& (pcode & 0x3f != 0 ==> acode & 0x3f != 0 && key_of((acode & 0x3f) as int, pcode, pk, engine) is Some)
}
@in SnmpSocket for SnmpV3ClientSocket
    open spec fn core(&self) -> CoreV { CoreV { ver: 3, community: Seq::empty(), user: utf8(self.user_name@), engine: self.engine_id@, boots: self.engine_boots as int, time: self.engine_time as int,
        rid: self.request_id.0 as int, mid: self.msg_id.0 as int, aalg: self.auth_key.alg(), akey: self.auth_key.kv(), palg: self.priv_key.alg(), pkey: self.priv_key.pk(), salt: self.priv_key.salt() } }
    open spec fn sv(&self) -> SockV { self.io.sv() }
    open spec fn wf(&self) -> bool { self.auth_key.wf() && self.priv_key.wf() }
    open spec fn msg_is<'a>(d: Seq<u8>, m: Self::Message<'a>) -> bool where Self: 'a { v3_is(d, m) }
    open spec fn must<'a>(d: Seq<u8>) -> bool where Self: 'a { must_v3(d) }
    fn vf_decode<'a>(data: &'a [u8]) -> (r: SnmpResult<Self::Message<'a>>) where Self: 'a { SnmpV3Message::try_from(data) }
    proof fn lemma_must<'a>(&self, d: Seq<u8>) where Self: 'a {}
@fn SnmpV3ClientSocket::is_authentic
@ret r
@spec
    requires self.wf(), v3_at(data@) matches Some(v) && v.usm.auth == auth_params@,
    ensures self.auth_key.alg() != 0 ==> r == mac_ok(self.core(), data@, v3_at(data@).unwrap()),
@entry
    hide(v3_at); hide(auth_off);
    broadcast use axiom_hash_len, axiom_slice_max;
    proof { lemma_auth_off(data@); }
@after let mut signed = data.to_vec();
    let ghost z = splice(data@, offset as int, Seq::new(size as nat, |i: int| 0u8));
    let ghost m = mac96(self.auth_key.alg(), self.auth_key.kv(), z);
@after signed[offset..offset + size].fill(0);
    proof { assert(signed@ =~= z); }
@before match self.auth_key.sign(&mut signed, offset) {
    proof { if self.auth_key.alg() != 0 { assert(m.len() == 12); assert(splice(z, offset as int, m).subrange(offset as int, offset + 12) =~= m); } }
@fn SnmpSocket for SnmpV3ClientSocket::push_pdu
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@entry
    hide(enc_scoped); hide(enc_v3); hide(is_cipher_of); hide(auth_off); hide(mac96); hide(salt_octets); hide(tlv); hide(enc_len); hide(v3_at); hide(usm_mark); hide(plain_v3); hide(data_part); hide(splice); hide(salt_after); hide(flags_of); hide(enc_req); hide(is_mid);
    let ghost c0 = self.core();
    let ghost pdu0 = pdu;
    proof { lemma_auth_wf(self.auth_key); assert(enc_scoped(c0.engine, pdu0) is Some) by { reveal(enc_scoped); } assert(EMPTY@ =~= Seq::<u8>::empty()); }
@before let msg = SnmpV3Message {
    let ghost pp = privacy_params@;
    let ghost dp = enc_data(data).unwrap();
    proof { assert(data_part(c0, pdu0, pp, dp)) by { reveal(data_part); } }
@before msg.push_ber(buf)?;
    let ghost p = plain_v3(c0, msg.msg_id as int, pdu0, pp, dp);
    proof {
        assert(msg.usm.v() == (UsmV { engine: c0.engine, boots: c0.boots, time: c0.time, user: c0.user, auth: no_mac(c0.aalg), privp: pp }));
        assert(is_mid(msg.msg_id as int)) by { reveal(is_mid); }
        assert(msg.enc() == Some(p)) by { reveal(plain_v3); }
        if p.len() < 65536 { reveal(plain_v3); lemma_v3_roundtrip(msg.msg_id as int, flags_of(c0.aalg != 0, c0.palg != 0, wants_report(pdu0)), msg.usm.v(), dp); lemma_auth_off(p); }
    }
@after msg.push_ber(buf)?;
    proof {
        reveal(is_mid); reveal(salt_after);
        assert(buf@ == p);
        assert(self.core().rid == c0.rid); assert(self.core().engine == c0.engine);
        assert(self.core().salt == (if c0.palg == 0 { c0.salt } else { salt_after(c0.palg, c0.salt, 1) }));
        assert(self.core() == (CoreV { mid: self.core().mid, salt: self.core().salt, ..c0 }));
        assert(advanced(c0, self.core()));
        assert(data_part(c0, pdu0, pp, dp) && p == plain_v3(c0, self.core().mid, pdu0, pp, dp));
    }
@after let offset = buf.get_bookmark();
    proof { assert(offset == auth_off(p)); assert(signed(c0, p) == splice(p, auth_off(p), mac96(c0.aalg, c0.akey, p))); assert(signed(c0, p).len() == p.len()) by { reveal(splice); } }
@fn SnmpSocket for SnmpV3ClientSocket::unwrap_pdu
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@entry
    hide(v3_at); hide(pdu_is); hide(must_pdu); hide(priv_dec); hide(auth_off); hide(mac96); hide(secure); hide(opened); hide(data_is); hide(scoped_at); hide(rid_at); hide(is_report); hide(splice); hide(oct_at); hide(mac_ok);
    let ghost c0 = self.core();
    let ghost d0 = data@;
    let ghost v = v3_at(d0).unwrap();
@before let data = match msg.data {
    proof {
        assert(is_secure == secure(c0, d0, v)) by { reveal(secure); reveal(data_is); }
        assert(match msg.data { MsgData::Plaintext(x) => opened(c0, v) == Some(v.data) && scoped_is(v.data, x),
            MsgData::Encrypted(x) => opened(c0, v) == (if c0.palg == 0 || v.usm.privp.len() != 8 { None::<Seq<u8>> }
                else if x@.len() <= MAX_SIZE && (c0.palg == 1 ==> x@.len() % 8 == 0) { Some(priv_dec(c0.palg, c0.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, x@)) } else { None }) }) by { reveal(opened); reveal(data_is); }
    }
@before if !is_secure
    let ghost e = scoped_at(opened(c0, v).unwrap()).unwrap().1;
    proof { assert(pdu_is(e, data.pdu)); lemma_rid(e, data.pdu); }
@before Some(data.pdu)
    proof { assert(self.engine_id@ =~= learnt(c0, v.usm).engine); }
@fn SnmpV3ClientSocket::new
@ret r
@spec
    ensures r matches Ok(s) ==> s.wf() && s.core().ver == 3 && s.core().user == utf8(user_name@) && s.core().engine == engine_id@ && s.core().boots == 0 && s.core().time == 0
        && keyed(s.core(), auth_alg, auth_key@, priv_alg, priv_key@) && s.sv().sent.len() == 0 && s.sv().got.len() == 0
        && if timeout_ns > 0 { s.sv().timeout == Some(Duration { ns: if timeout_ns > 1000 { timeout_ns as u128 } else { 1000 } }) && !s.sv().nonblock } else { s.sv().timeout is None && s.sv().nonblock },
        r matches Err(e) ==> e.cls == PyExc::OSError || ((e.cls == PyExc::ValueError || e.cls == PyExc::SnmpDecodeError) && !keys_ok(engine_id@, auth_alg, auth_key@, priv_alg, priv_key@)),
@entry
    
    broadcast use axiom_hash_len;
    proof { lemma_kt(auth_alg); lemma_kt(priv_alg); }
@fn SnmpV3ClientSocket::set_keys
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).sv() == old(self).sv(),
        r is Ok ==> keyed(final(self).core(), auth_alg, auth_key@, priv_alg, priv_key@) && final(self).core().user == utf8(user_name@),
        r matches Err(e) ==> (e.cls == PyExc::ValueError || e.cls == PyExc::SnmpDecodeError) && !keys_ok(old(self).core().engine, auth_alg, auth_key@, priv_alg, priv_key@),
        ({ let (a, b) = (old(self).core(), final(self).core()); b.ver == a.ver && b.engine == a.engine && b.boots == a.boots && b.time == a.time && b.rid == a.rid && b.mid == a.mid }),
@entry
    
    broadcast use axiom_hash_len;
    proof { lemma_kt(auth_alg); lemma_kt(priv_alg); }
@fn SnmpV3ClientSocket::get_engine_id
@ret r
@spec
    ensures pyo(r) == Ok::<PyV, PyErr>(PyV::Bytes(self.engine_id@)),
@fn SnmpV3ClientSocket::get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV3ClientSocket::send_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, final(self).core(), final(self).sv(), r),
@fn SnmpV3ClientSocket::recv_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV3ClientSocket::get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV3ClientSocket::send_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, final(self).core(), final(self).sv(), r),
@fn SnmpV3ClientSocket::recv_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV3ClientSocket::get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == old(iter).cur()
        && #[trigger] exchanged::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV3ClientSocket::send_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == iter.cur() && #[trigger] asked::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, final(self).core(), final(self).sv(), r),
@fn SnmpV3ClientSocket::recv_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV3ClientSocket::get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == old(iter).cur() && n == old(iter).max_repetitions
        && #[trigger] exchanged::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV3ClientSocket::send_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == iter.cur() && n == iter.max_repetitions
        && #[trigger] asked::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), final(self).core(), final(self).sv(), r),
@fn SnmpV3ClientSocket::recv_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV3ClientSocket::refresh
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpRefresh, ()>(old(self).core(), old(self).sv(), (), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV3ClientSocket::send_refresh
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpRefresh, ()>(old(self).core(), old(self).sv(), (), final(self).core(), final(self).sv(), r),
@fn SnmpV3ClientSocket::recv_refresh
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpRefresh, ()>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@end
