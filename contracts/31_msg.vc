@file snmp/pdu.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::getresponse::{resp_is, must_resp};
@append
/// `s` starts with the element of the protocol data unit `p` (RFC 3416 section 3)
pub open spec fn pdu_is(s: Seq<u8>, p: SnmpPdu) -> bool {
    match header(s) {
        None => false,
        Some(h) => h.constructed && (h.class == 2 || h.class == 0) && match p {
            SnmpPdu::GetRequest(g) => h.tag == 0 && get_at(content(s)) == Some(g.v()),
            SnmpPdu::GetNextRequest(g) => h.tag == 1 && get_at(content(s)) == Some(g.v()),
            SnmpPdu::GetResponse(r) => h.tag == 2 && resp_is(content(s), r),
            SnmpPdu::GetBulkRequest(g) => h.tag == 5 && req_at(content(s)) == Some(g.v()),
            SnmpPdu::Report(r) => h.tag == 8 && r.0@ == content(s),
        },
    }
}
pub open spec fn must_pdu(s: Seq<u8>) -> bool {
    match header(s) {
        None => false,
        Some(h) => h.constructed && h.class == 2 && s.len() >= 3 && (
            ((h.tag == 0 || h.tag == 1) && get_at(content(s)) is Some)
            || (h.tag == 2 && must_resp(content(s)))
            || (h.tag == 5 && req_at(content(s)) is Some)
            || h.tag == 8),
    }
}
/// what a request asks for: PDU tag octet and fields
pub open spec fn pdu_req(p: SnmpPdu) -> Option<(u8, ReqV)> {
    match p {
        SnmpPdu::GetRequest(g) => Some((160u8, g.v())),
        SnmpPdu::GetNextRequest(g) => Some((161u8, g.v())),
        SnmpPdu::GetBulkRequest(g) => Some((165u8, g.v())),
        _ => None,
    }
}
pub open spec fn enc_pdu(p: SnmpPdu) -> Option<Seq<u8>> {
    match pdu_req(p) { Some((t, r)) => Some(tlv(t, enc_req(r))), None => None }
}
pub open spec fn pdu_req_id(p: SnmpPdu) -> Option<int> {
    match p {
        SnmpPdu::GetRequest(g) => Some(g.request_id as int),
        SnmpPdu::GetNextRequest(g) => Some(g.request_id as int),
        SnmpPdu::GetBulkRequest(g) => Some(g.request_id as int),
        SnmpPdu::GetResponse(g) => Some(g.request_id as int),
        SnmpPdu::Report(_) => None,
    }
}
// ---- what is sent is read back (C15)
pub proof fn lemma_int_at(v: int, r: Seq<u8>)
    requires i64r(v),
    ensures int_at(tlv(2, int_content(v)) + r) == Some(v), after(tlv(2, int_content(v)) + r) == r,
        aoff(tlv(2, int_content(v)) + r) == tlv(2, int_content(v)).len(),
{
    hide(tlv); hide(header); hide(content); hide(int_content); hide(twos);
    lemma_int_content(v);
    assert(half256(8) == 0x8000_0000_0000_0000) by { lemma_pow256_values(); }
    lemma_int_len(v, 8);
    assert(enc_len(int_content(v).len()).len() == 1) by { reveal(tlv); };
    assert(tlv(2, int_content(v)).len() < 20) by { reveal(tlv); };
    lemma_el(2, int_content(v), r);
}
pub proof fn lemma_var_at(o: Seq<u8>, r: Seq<u8>)
    requires enc_var(o).len() < 65536,
    ensures seq_at(enc_var(o) + r) matches Some(c) && nullvar_at(c) == Some(o), after(enc_var(o) + r) == r,
{
    hide(header); hide(content); hide(tlv);
    let e = Seq::<u8>::empty();
    let b = tlv(6, o) + tlv(5, e);
    assert(tlv(0x30, b).len() > b.len()) by { reveal(tlv); };
    lemma_empty_r(tlv(5, e));
    lemma_el(0x30, b, r);
    lemma_el(6, o, tlv(5, e));
    lemma_el(5, e, e);
}
pub proof fn lemma_oids_at(v: Seq<Seq<u8>>)
    requires enc_vars(v).len() < 65536,
    ensures oids_at(enc_vars(v)) == Some(v),
    decreases v.len(),
{
    hide(enc_var); hide(header); hide(content); hide(nullvar_at); hide(seq_at); hide(after);
    if v.len() > 0 {
        let t = v.subrange(1, v.len() as int);
        lemma_oids_at(t);
        lemma_var_at(v[0], enc_vars(t));
        assert(enc_var(v[0]).len() > 0) by { reveal(enc_var); }
        assert(seq![v[0]] + t =~= v);
    }
}
pub open spec fn i64r(v: int) -> bool { -0x8000_0000_0000_0000 <= v <= 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_req_at(q: ReqV)
    requires enc_req(q).len() < 65536, i64r(q.id), i64r(q.a), i64r(q.b),
    ensures req_at(enc_req(q)) == Some(q), enc_req(q).len() > 1,
{
    hide(int_content); hide(oids_at); hide(enc_vars); hide(header); hide(content); hide(tlv); hide(enc_req); hide(int_at); hide(after);
    let (i, a, b, v) = (tlv(2, int_content(q.id)), tlv(2, int_content(q.a)), tlv(2, int_content(q.b)), tlv(0x30, enc_vars(q.oids)));
    let e = Seq::<u8>::empty();
    assert(enc_req(q) =~= i + (a + (b + v))) by { reveal(enc_req); };
    assert(enc_req(q).len() == i.len() + a.len() + b.len() + v.len()) by { reveal(tlv); reveal(enc_req); };
    assert(v.len() > enc_vars(q.oids).len() && i.len() > 1) by { reveal(tlv); reveal(enc_req); };
    lemma_int_at(q.id, a + (b + v));
    lemma_int_at(q.a, b + v);
    lemma_int_at(q.b, v);
    lemma_oids_at(q.oids);
    lemma_el(0x30, enc_vars(q.oids), e);
    lemma_empty_r(v);
}
/// any reading of an encoded request has the fields it was made from, and the reader may not refuse it
pub proof fn lemma_pdu_roundtrip(p: SnmpPdu, r: Seq<u8>)
    requires pdu_req(p) matches Some((t, q)) && tlv(t, enc_req(q)).len() < 65536,
    ensures
        must_pdu(enc_pdu(p).unwrap() + r), after(enc_pdu(p).unwrap() + r) == r,
        forall|d: SnmpPdu| #[trigger] pdu_is(enc_pdu(p).unwrap() + r, d) ==> pdu_req(d) == pdu_req(p),
{
    hide(tlv); hide(enc_req); hide(header); hide(content); hide(req_at); hide(resp_is); hide(must_resp); hide(after);
    let (t, q) = pdu_req(p).unwrap();
    assert(tlv(t, enc_req(q)).len() > enc_req(q).len() + 1) by { reveal(tlv); reveal(enc_req); };
    lemma_el(t, enc_req(q), r);
    lemma_req_at(q);
}
@in BerEncoder for SnmpPdu
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_pdu(*self) }
@fn TryFrom<&[u8]> for SnmpPdu::try_from
@ret r
@spec
    ensures
        r matches Ok(p) ==> pdu_is(value@, p),
        r is Err ==> !must_pdu(value@),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(req_at); hide(get_at); hide(resp_is); hide(must_resp);
@fn BerEncoder for SnmpPdu::push_ber
@entry
    hide(enc_len); hide(tlv); hide(enc_req);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    proof {
        if pdu_req(*self) is Some {
            lemma_push_tlv(pdu_req(*self).unwrap().0, enc_req(pdu_req(*self).unwrap().1), buf@);
        }
    }
@fn SnmpPdu::check
@ret r
@spec
    ensures r == (pdu_req_id(*self) is None || pdu_req_id(*self) == Some(request_id.0 as int)),
@fn SnmpPdu::as_getresponse
@ret r
@spec
    ensures
        match *self { SnmpPdu::GetResponse(g) => r is Some && *r.unwrap() == g, _ => r is None },
@end
@file snmp/msg/mod.rs
@file snmp/msg/v1.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::snmp::get::*;
use crate::ber::*;
use crate::snmp::pdu::*;
@append
/// Message ::= SEQUENCE { version INTEGER, community OCTET STRING, data ANY } (RFC 1157, RFC 1901)
pub open spec fn cmsg_at(s: Seq<u8>, version: int) -> Option<(Seq<u8>, Seq<u8>)> {
    match seq_at(s) {
        None => None,
        Some(e) => if after(s).len() == 0 && int_at(e) == Some(version) {
            match oct_at(after(e)) { Some(c) => Some((c, after(after(e)))), None => None }
        } else { None },
    }
}
pub open spec fn enc_cmsg(version: u8, community: Seq<u8>, pdu: SnmpPdu) -> Option<Seq<u8>> {
    match enc_pdu(pdu) { Some(p) => Some(tlv(0x30, seq![2u8, 1, version] + (tlv(4, community) + p))), None => None }
}
/// what the pushes around the PDU amount to
pub proof fn lemma_cmsg_parts(version: u8, community: Seq<u8>, pdu: SnmpPdu)
    requires enc_pdu(pdu) is Some,
    ensures
        ({
            let p = enc_pdu(pdu).unwrap();
            let c = tlv(4, community);
            let b = seq![2u8, 1, version] + (c + p);
            &&& seq![0x30u8] + enc_len(b.len()) + b == enc_cmsg(version, community, pdu).unwrap()
            &&& b.len() == 3 + c.len() + p.len()
            &&& enc_cmsg(version, community, pdu).unwrap().len() == 1 + enc_len(b.len()).len() + b.len()
            &&& c + (p + Seq::<u8>::empty()) == c + p
            &&& p + Seq::<u8>::empty() == p
            &&& enc_cmsg(version, community, pdu).unwrap() + Seq::<u8>::empty() == enc_cmsg(version, community, pdu).unwrap()
        }),
{
    let p = enc_pdu(pdu).unwrap(); let c = tlv(4, community); let b = seq![2u8, 1, version] + (c + p);
    let e = Seq::<u8>::empty();
    lemma_push_tlv(0x30, b, e);
    assert(b + e =~= b);
    assert(p + e =~= p);
    assert(tlv(0x30, b) + e =~= tlv(0x30, b));
}
/// C15: a community message is read back as it was written
pub proof fn lemma_cmsg_roundtrip(version: u8, community: Seq<u8>, pdu: SnmpPdu)
    requires version < 128, enc_cmsg(version, community, pdu) matches Some(e) && e.len() < 65536,
    ensures
        ({
            let e = enc_cmsg(version, community, pdu).unwrap();
            &&& cmsg_at(e, version as int) matches Some((c, p)) && c == community && must_pdu(p)
                && forall|d: SnmpPdu| #[trigger] pdu_is(p, d) ==> pdu_req(d) == pdu_req(pdu)
        }),
{
    hide(pdu_is); hide(must_pdu); hide(enc_req);
    let p = enc_pdu(pdu).unwrap(); let c = tlv(4, community); let v = seq![2u8, 1, version];
    let b = v + (c + p); let e = Seq::<u8>::empty();
    let s = tlv(0x30, b);
    assert(s.len() > b.len() && b.len() > c.len() + p.len() && c.len() > community.len());
    lemma_tlv(0x30, b, e);
    assert(s + e =~= s);
    assert(after(s) =~= e);
    assert(int_content(version as int) =~= seq![version]);
    assert(tlv(2, int_content(version as int)) =~= v);
    lemma_int_at(version as int, c + p);
    lemma_tlv(4, community, p);
    lemma_pdu_roundtrip(pdu, e);
    assert(p + e =~= p);
}
@in BerEncoder for SnmpV1Message
    open spec fn whole() -> bool { true }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_cmsg(0, self.community@, self.pdu) }
@fn TryFrom<&[u8]> for SnmpV1Message::try_from
@ret r
@spec
    ensures
        r matches Ok(m) ==> (cmsg_at(i@, 0) matches Some((c, p)) && m.community@ == c && pdu_is(p, m.pdu)),
        r is Err ==> !(cmsg_at(i@, 0) matches Some((c, p)) && must_pdu(p)),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(twos); hide(pdu_is); hide(must_pdu);
@fn BerEncoder for SnmpV1Message::push_ber
@entry
    hide(enc_len); hide(tlv); hide(enc_req);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    proof {
        assert(V1_BER@ =~= seq![2u8, 1, 0]);
        if enc_pdu(self.pdu) is Some { lemma_cmsg_parts(0, self.community@, self.pdu); }
    }
@end
@file snmp/msg/v2c.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::pdu::*;
use crate::snmp::get::*;
use crate::snmp::msg::v1::*;
@in BerEncoder for SnmpV2cMessage
    open spec fn whole() -> bool { true }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_cmsg(1, self.community@, self.pdu) }
@fn TryFrom<&[u8]> for SnmpV2cMessage::try_from
@ret r
@spec
    ensures
        r matches Ok(m) ==> (cmsg_at(i@, 1) matches Some((c, p)) && m.community@ == c && pdu_is(p, m.pdu)),
        r is Err ==> !(cmsg_at(i@, 1) matches Some((c, p)) && must_pdu(p)),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(twos); hide(pdu_is); hide(must_pdu);
@fn BerEncoder for SnmpV2cMessage::push_ber
@entry
    hide(enc_len); hide(tlv); hide(enc_req);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    proof {
        assert(V2C_BER@ =~= seq![2u8, 1, 1]);
        if enc_pdu(self.pdu) is Some { lemma_cmsg_parts(1, self.community@, self.pdu); }
    }
@end
