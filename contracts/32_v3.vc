@file snmp/msg/v3/mod.rs
@file snmp/msg/v3/scoped.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::pdu::*;
@append
/// ScopedPDU ::= SEQUENCE { contextEngineID, contextName, data } (RFC 3412)
pub open spec fn scoped_at(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match seq_at(s) {
        None => None,
        Some(e) => match (oct_at(e), oct_at(after(e))) {
            (Some(eng), Some(_)) => Some((eng, after(after(e)))),
            _ => None,
        },
    }
}
pub open spec fn scoped_is(s: Seq<u8>, x: ScopedPdu) -> bool {
    scoped_at(s) matches Some((eng, p)) && x.engine_id@ == eng && pdu_is(p, x.pdu)
}
pub open spec fn must_scoped(s: Seq<u8>) -> bool { scoped_at(s) matches Some((eng, p)) && must_pdu(p) }
pub open spec fn enc_scoped(engine: Seq<u8>, pdu: SnmpPdu) -> Option<Seq<u8>> {
    match enc_pdu(pdu) {
        Some(p) => Some(tlv(0x30, tlv(4, engine) + (tlv(4, Seq::empty()) + p))),
        None => None,
    }
}
pub proof fn lemma_empty_os() ensures tlv(4, Seq::<u8>::empty()) == seq![4u8, 0] { assert(tlv(4, Seq::<u8>::empty()) =~= seq![4u8, 0]); }
pub proof fn lemma_scoped_parts(engine: Seq<u8>, p: Seq<u8>, o: Seq<u8>)
    ensures
        ({
            let e = tlv(4, engine); let n = tlv(4, Seq::<u8>::empty()); let b = e + (n + p);
            &&& n + (p + o) == (n + p) + o
            &&& e + ((n + p) + o) == b + o
            &&& b.len() == e.len() + 2 + p.len()
            &&& seq![0x30u8] + enc_len(b.len()) + (b + o) == tlv(0x30, b) + o
            &&& tlv(0x30, b).len() == 1 + enc_len(b.len()).len() + b.len()
        }),
{
    let e = tlv(4, engine); let n = tlv(4, Seq::<u8>::empty()); let b = e + (n + p);
    lemma_assoc(n, p, o);
    lemma_assoc(e, n + p, o);
    lemma_push_tlv(0x30, b, o);
    lemma_empty_os();
}
/// C15: what is in the scoped PDU is read back
pub proof fn lemma_scoped_roundtrip(engine: Seq<u8>, pdu: SnmpPdu, r: Seq<u8>)
    requires enc_scoped(engine, pdu) matches Some(e) && e.len() < 65536,
    ensures
        must_scoped(enc_scoped(engine, pdu).unwrap() + r), after(enc_scoped(engine, pdu).unwrap() + r) == r,
        forall|d: ScopedPdu| #[trigger] scoped_is(enc_scoped(engine, pdu).unwrap() + r, d) ==> d.engine_id@ == engine && pdu_req(d.pdu) == pdu_req(pdu),
{
    hide(tlv); hide(pdu_is); hide(must_pdu); hide(header); hide(content); hide(enc_req); hide(after);
    let p = enc_pdu(pdu).unwrap(); let e = tlv(4, engine); let em = Seq::<u8>::empty(); let n = tlv(4, em); let b = e + (n + p);
    assert(tlv(0x30, b).len() > b.len() && e.len() > engine.len() && n.len() == 2) by { reveal(tlv); }
    lemma_el(0x30, b, r);
    lemma_el(4, engine, n + p);
    lemma_el(4, em, p);
    lemma_pdu_roundtrip(pdu, em);
    lemma_empty_r(p);
}
@in BerEncoder for ScopedPdu
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_scoped(self.engine_id@, self.pdu) }
@fn TryFrom<&[u8]> for ScopedPdu::try_from
@ret r
@spec
    ensures
        r matches Ok(x) ==> scoped_is(i@, x),
        r is Err ==> !must_scoped(i@),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(pdu_is); hide(must_pdu);
@fn BerEncoder for ScopedPdu::push_ber
@entry
    hide(enc_len); hide(tlv); hide(enc_req);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    proof {
        lemma_empty_os();
        assert(EMPTY_BER@ =~= seq![4u8, 0]);
        if self.engine_id@.len() == 0 { assert(self.engine_id@ =~= Seq::<u8>::empty()); }
        if enc_pdu(self.pdu) is Some { lemma_scoped_parts(self.engine_id@, enc_pdu(self.pdu).unwrap(), buf@); }
    }
@end
@file snmp/msg/v3/data.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::get::*;
use super::scoped::*;
@append
/// msgData: plaintext scoped PDU or OCTET STRING with the encrypted one
pub open spec fn data_is(s: Seq<u8>, d: MsgData) -> bool {
    s.len() > 0 && match d {
        MsgData::Plaintext(x) => s[0] != 4 && scoped_is(s, x),
        MsgData::Encrypted(x) => s[0] == 4 && oct_at(s) == Some(x@),
    }
}
pub open spec fn must_data(s: Seq<u8>) -> bool {
    s.len() > 0 && if s[0] == 4 { oct_at(s) is Some } else { must_scoped(s) }
}
pub open spec fn enc_data(d: MsgData) -> Option<Seq<u8>> {
    match d {
        MsgData::Plaintext(x) => enc_scoped(x.engine_id@, x.pdu),
        MsgData::Encrypted(x) => Some(tlv(4, x@)),
    }
}
@in BerEncoder for MsgData
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_data(*self) }
@fn TryFrom<&[u8]> for MsgData::try_from
@ret r
@spec
    ensures
        r matches Ok(x) ==> data_is(i@, x),
        r is Err ==> !must_data(i@),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(scoped_is); hide(must_scoped);
@fn BerEncoder for MsgData::push_ber
@entry
    hide(enc_len); hide(tlv); hide(enc_req);
@end
@file snmp/msg/v3/usm.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::pdu::{i64r, lemma_int_at};
@append
pub struct UsmV { pub engine: Seq<u8>, pub boots: int, pub time: int, pub user: Seq<u8>, pub auth: Seq<u8>, pub privp: Seq<u8> }
/// UsmSecurityParameters (RFC 3414 section 2.4)
pub open spec fn usm_at(s: Seq<u8>) -> Option<UsmV> {
    match seq_at(s) {
        None => None,
        Some(e) => {
            let e1 = after(e); let e2 = after(e1); let e3 = after(e2); let e4 = after(e3); let e5 = after(e4);
            if after(s).len() != 0 { None } else {
                match (oct_at(e), int_at(e1), int_at(e2), oct_at(e3), oct_at(e4), oct_at(e5)) {
                    (Some(engine), Some(boots), Some(time), Some(user), Some(auth), Some(privp)) =>
                        Some(UsmV { engine, boots, time, user, auth, privp }),
                    _ => None,
                }
            }
        }
    }
}
impl UsmParameters<'_> {
    pub open spec fn v(&self) -> UsmV {
        UsmV { engine: self.engine_id@, boots: self.engine_boots as int, time: self.engine_time as int, user: self.user_name@,
            auth: self.auth_params@, privp: self.privacy_params@ }
    }
}
pub open spec fn usm_tail(u: UsmV) -> Seq<u8> { tlv(4, u.user) + (tlv(4, u.auth) + tlv(4, u.privp)) }
pub open spec fn usm_body(u: UsmV) -> Seq<u8> {
    tlv(4, u.engine) + (tlv(2, int_content(u.boots)) + (tlv(2, int_content(u.time)) + usm_tail(u)))
}
pub open spec fn enc_usm(u: UsmV) -> Seq<u8> { tlv(0x30, usm_body(u)) }
/// where the authentication parameters start
pub open spec fn usm_off(s: Seq<u8>) -> int {
    let e = content(s); let e1 = after(e); let e2 = after(e1); let e3 = after(e2); let e4 = after(e3);
    coff(s) + aoff(e) + aoff(e1) + aoff(e2) + aoff(e3) + coff(e4)
}
/// distance of the authentication parameters (below 128 octets) from the end
pub open spec fn usm_mark(u: UsmV) -> int { tlv(4, u.auth).len() as int - 2 + tlv(4, u.privp).len() as int }
pub proof fn lemma_os_head(body: Seq<u8>)
    requires body.len() < 128,
    ensures tlv(4, body).len() == body.len() + 2, tlv(4, body) == seq![4u8, body.len() as u8] + body,
{ assert(tlv(4, body) =~= seq![4u8, body.len() as u8] + body); }
pub proof fn lemma_usm_parts(u: UsmV, o: Seq<u8>)
    ensures
        ({
            let (en, bo, ti, us, au, pr) = (tlv(4, u.engine), tlv(2, int_content(u.boots)), tlv(2, int_content(u.time)), tlv(4, u.user), tlv(4, u.auth), tlv(4, u.privp));
            let b = usm_body(u);
            &&& en + (bo + (ti + (us + (au + (pr + o))))) == b + o
            &&& b.len() == en.len() + bo.len() + ti.len() + us.len() + au.len() + pr.len()
            &&& seq![0x30u8] + enc_len(b.len()) + (b + o) == enc_usm(u) + o
            &&& enc_usm(u).len() == 1 + enc_len(b.len()).len() + b.len()
            &&& au.len() >= 2
        }),
{
    let (en, bo, ti, us, au, pr) = (tlv(4, u.engine), tlv(2, int_content(u.boots)), tlv(2, int_content(u.time)), tlv(4, u.user), tlv(4, u.auth), tlv(4, u.privp));
    assert(en + (bo + (ti + (us + (au + (pr + o))))) =~= usm_body(u) + o);
    lemma_push_tlv(0x30, usm_body(u), o);
}
/// C15: what is in the security parameters is read back
pub proof fn lemma_usm_roundtrip(u: UsmV)
    requires enc_usm(u).len() < 65536, i64r(u.boots), i64r(u.time),
    ensures usm_at(enc_usm(u)) == Some(u), enc_usm(u).len() == usm_off(enc_usm(u)) + u.auth.len() + tlv(4, u.privp).len(),
{
    hide(tlv); hide(header); hide(content); hide(int_content); hide(int_at); hide(oct_at); hide(seq_at); hide(after);
    let (en, bo, ti, us, au, pr) = (tlv(4, u.engine), tlv(2, int_content(u.boots)), tlv(2, int_content(u.time)), tlv(4, u.user), tlv(4, u.auth), tlv(4, u.privp));
    let b = usm_body(u); let em = Seq::<u8>::empty();
    assert(b.len() == en.len() + bo.len() + ti.len() + us.len() + au.len() + pr.len());
    assert(tlv(0x30, b).len() > b.len()) by { reveal(tlv); }
    assert(b =~= en + (bo + (ti + (us + (au + pr)))));
    lemma_empty_r(tlv(0x30, b)); lemma_empty_r(pr);
    lemma_el(0x30, b, em);
    lemma_oct_el(u.engine, bo + (ti + (us + (au + pr))));
    lemma_int_at(u.boots, ti + (us + (au + pr)));
    lemma_int_at(u.time, us + (au + pr));
    lemma_oct_el(u.user, au + pr);
    lemma_oct_el(u.auth, pr);
    lemma_oct_el(u.privp, em);
    lemma_seq_el(b, em);
}
@in BerEncoder for UsmParameters
    open spec fn whole() -> bool { false }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(enc_usm(self.v())) }
    open spec fn mark(&self) -> Option<int> { if self.auth_params@.len() == 0 { None } else { Some(usm_mark(self.v())) } }
@fn TryFrom<&[u8]> for UsmParameters::try_from
@ret r
@spec
    ensures
        match r { Ok(x) => usm_at(i@) == Some(x.v()), Err(e) => usm_at(i@) is None && crate::error::bad(e) },
@entry
    hide(header); hide(content); hide(twos);
@fn BerEncoder for UsmParameters::push_ber
@entry
    hide(enc_len); hide(int_content); hide(tlv);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    proof {
        crate::snmp::msg::v3::scoped::lemma_empty_os();
        assert(EMPTY_BER@ =~= seq![4u8, 0]);
        if self.engine_id@.len() == 0 { assert(self.engine_id@ =~= Seq::<u8>::empty()); }
        if self.auth_params@.len() == 0 { assert(self.auth_params@ =~= Seq::<u8>::empty()); }
        if self.privacy_params@.len() == 0 { assert(self.privacy_params@ =~= Seq::<u8>::empty()); }
        lemma_usm_parts(self.v(), buf@);
    }
@end
@file snmp/msg/v3/msg.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::pdu::{i64r, lemma_int_at};
use super::usm::*;
use super::data::{data_is, must_data, enc_data};
@append
pub struct V3V { pub id: int, pub flags: u8, pub usm: UsmV, pub data: Seq<u8> }
/// SNMPv3Message (RFC 3412 section 6), security model 3
pub open spec fn v3_at(s: Seq<u8>) -> Option<V3V> {
    match seq_at(s) {
        None => None,
        Some(e) => {
            let e1 = after(e); let e2 = after(e1);
            match (seq_at(e1), oct_at(e2)) {
                (Some(g), Some(sp)) => {
                    let g1 = after(g); let g2 = after(g1); let g3 = after(g2);
                    match (int_at(g), int_at(g1), oct_at(g2), int_at(g3), usm_at(sp)) {
                        (Some(id), Some(_), Some(f), Some(sm), Some(usm)) =>
                            if after(s).len() == 0 && int_at(e) == Some(3int) && f.len() == 1 && sm == 3 {
                                Some(V3V { id, flags: f[0], usm, data: after(e2) })
                            } else { None },
                        _ => None,
                    }
                },
                _ => None,
            }
        }
    }
}
pub open spec fn flags_of(auth: bool, privacy: bool, report: bool) -> u8 {
    ((if auth { 1int } else { 0 }) + (if privacy { 2int } else { 0 }) + (if report { 4int } else { 0 })) as u8
}
pub open spec fn v3_is(s: Seq<u8>, m: SnmpV3Message) -> bool {
    v3_at(s) matches Some(v) && m.msg_id == v.id && m.usm.v() == v.usm && data_is(v.data, m.data)
        && m.flag_auth == (v.flags % 2 == 1) && m.flag_priv == ((v.flags / 2) % 2 == 1) && m.flag_report == ((v.flags / 4) % 2 == 1)
}
pub open spec fn must_v3(s: Seq<u8>) -> bool { v3_at(s) matches Some(v) && must_data(v.data) }
pub open spec fn enc_glob(id: int, flags: u8) -> Seq<u8> {
    tlv(2, int_content(id)) + (tlv(2, int_content(MAX_SIZE as int)) + (tlv(4, seq![flags]) + seq![2u8, 1, 3]))
}
pub open spec fn v3_body(id: int, flags: u8, u: UsmV, d: Seq<u8>) -> Seq<u8> {
    seq![2u8, 1, 3] + (tlv(0x30, enc_glob(id, flags)) + (tlv(4, enc_usm(u)) + d))
}
pub open spec fn enc_v3(id: int, flags: u8, u: UsmV, d: Seq<u8>) -> Seq<u8> { tlv(0x30, v3_body(id, flags, u, d)) }
pub proof fn lemma_v3_parts(id: int, flags: u8, u: UsmV, d: Seq<u8>)
    ensures
        ({
            let g = enc_glob(id, flags); let us = enc_usm(u); let b = v3_body(id, flags, u, d);
            let (i, m, f) = (tlv(2, int_content(id)), tlv(2, int_content(MAX_SIZE as int)), tlv(4, seq![flags]));
            let r = tlv(4, us) + d;
            &&& seq![4u8] + enc_len(us.len()) + (us + d) == r
            &&& tlv(4, us).len() == 1 + enc_len(us.len()).len() + us.len()
            &&& seq![4u8] + enc_len(1) + (seq![flags] + (seq![2u8, 1, 3] + r)) == f + (seq![2u8, 1, 3] + r)
            &&& f.len() == 3
            &&& i + (m + (f + (seq![2u8, 1, 3] + r))) == g + r
            &&& g.len() == i.len() + m.len() + 6
            &&& seq![0x30u8] + enc_len(g.len()) + (g + r) == tlv(0x30, g) + r
            &&& tlv(0x30, g).len() == 1 + enc_len(g.len()).len() + g.len()
            &&& seq![2u8, 1, 3] + (tlv(0x30, g) + r) == b
            &&& b.len() == 3 + tlv(0x30, g).len() + tlv(4, us).len() + d.len()
            &&& seq![0x30u8] + enc_len(b.len()) + b == enc_v3(id, flags, u, d)
            &&& enc_v3(id, flags, u, d).len() == 1 + enc_len(b.len()).len() + b.len()
            &&& enc_v3(id, flags, u, d) + Seq::<u8>::empty() == enc_v3(id, flags, u, d)
            &&& d + Seq::<u8>::empty() == d
            &&& enc_len(1).len() == 1
        }),
{
    let g = enc_glob(id, flags); let us = enc_usm(u); let b = v3_body(id, flags, u, d); let em = Seq::<u8>::empty();
    let (i, m, f) = (tlv(2, int_content(id)), tlv(2, int_content(MAX_SIZE as int)), tlv(4, seq![flags]));
    let r = tlv(4, us) + d;
    lemma_push_tlv(4, us, d);
    lemma_push_tlv(4, seq![flags], seq![2u8, 1, 3] + r);
    assert(i + (m + (f + (seq![2u8, 1, 3] + r))) =~= g + r);
    lemma_push_tlv(0x30, g, r);
    lemma_push_tlv(0x30, b, em);
    lemma_empty_r(b); lemma_empty_r(d); lemma_empty_r(enc_v3(id, flags, u, d));
}
/// where msgAuthenticationParameters start in the whole message
pub open spec fn auth_off(s: Seq<u8>) -> int {
    let e = content(s); let e1 = after(e); let e2 = after(e1);
    coff(s) + aoff(e) + aoff(e1) + coff(e2) + usm_off(content(e2))
}
/// C15, C09: what is in the message is read back, and the bookmark is on the authentication parameters
pub proof fn lemma_v3_roundtrip(id: int, flags: u8, u: UsmV, d: Seq<u8>)
    requires enc_v3(id, flags, u, d).len() < 65536, i64r(id), i64r(u.boots), i64r(u.time),
    ensures
        v3_at(enc_v3(id, flags, u, d)) == Some(V3V { id, flags, usm: u, data: d }),
        u.auth.len() < 128 ==> enc_v3(id, flags, u, d).len() - (usm_mark(u) + d.len()) == auth_off(enc_v3(id, flags, u, d)),
{
    hide(tlv); hide(header); hide(content); hide(int_content); hide(int_at); hide(oct_at); hide(seq_at); hide(after); hide(usm_at); hide(usm_off); hide(enc_usm);
    let g = enc_glob(id, flags); let us = enc_usm(u); let b = v3_body(id, flags, u, d); let em = Seq::<u8>::empty();
    let (i, m, f) = (tlv(2, int_content(id)), tlv(2, int_content(MAX_SIZE as int)), tlv(4, seq![flags]));
    let v = seq![2u8, 1, 3];
    assert(int_content(3) == seq![3u8] && tlv(2, seq![3u8]) =~= v) by { reveal(tlv); reveal(int_content); }
    let gt = tlv(0x30, g); let ut = tlv(4, us);
    assert(b.len() == 3 + gt.len() + ut.len() + d.len());
    assert(tlv(0x30, b).len() > b.len() && gt.len() > g.len() && ut.len() > us.len()) by { reveal(tlv); }
    lemma_empty_r(tlv(0x30, b)); lemma_empty_r(v);
    lemma_seq_el(b, em);
    lemma_int_at(3, gt + (ut + d));
    lemma_seq_el(g, ut + d);
    lemma_oct_el(us, d);
    lemma_int_at(id, m + (f + v));
    lemma_int_at(MAX_SIZE as int, f + v);
    assert(f.len() == 3) by { reveal(tlv); }
    lemma_oct_el(seq![flags], v);
    lemma_int_at(3, em);
    lemma_usm_roundtrip(u);
    if u.auth.len() < 128 { lemma_os_head(u.auth); }
}
@in BerEncoder for SnmpV3Message
    open spec fn whole() -> bool { true }
    open spec fn enc(&self) -> Option<Seq<u8>> {
        match enc_data(self.data) {
            Some(d) => Some(enc_v3(self.msg_id as int, flags_of(self.flag_auth, self.flag_priv, self.flag_report), self.usm.v(), d)),
            None => None,
        }
    }
    open spec fn mark(&self) -> Option<int> {
        if self.usm.auth_params@.len() == 0 { None } else { Some(usm_mark(self.usm.v()) + enc_data(self.data).unwrap().len()) }
    }
@fn TryFrom<&[u8]> for SnmpV3Message::try_from
@ret r
@spec
    ensures
        r matches Ok(m) ==> v3_is(i@, m),
        r is Err ==> !must_v3(i@),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(twos); hide(usm_at); hide(data_is); hide(must_data);
    broadcast use crate::vspec::group_flags;
@fn BerEncoder for SnmpV3Message::push_ber
@entry
    hide(enc_len); hide(int_content); hide(tlv); hide(enc_usm); hide(enc_data); hide(enc_glob); hide(usm_mark);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    broadcast use crate::vspec::group_flags;
    proof {
        assert(USM_MODEL_BER@ =~= seq![2u8, 1, 3]);
        assert(V3_BER@ =~= seq![2u8, 1, 3]);
        lemma_bits_flags();
        if enc_data(self.data) is Some {
            lemma_v3_parts(self.msg_id as int, flags_of(self.flag_auth, self.flag_priv, self.flag_report), self.usm.v(), enc_data(self.data).unwrap());
        }
    }
@end
