@file socket/v1.rs
@use
use crate::vshim::*;
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::pdu::*;
use crate::snmp::op::*;
use crate::snmp::msg::v1::*;
use crate::snmp::msg::v1::*;
use super::snmpsocket::*;
use crate::error::*;
broadcast use {group_slice_eq, crate::error::group_question};
@in SnmpSocket for SnmpV1ClientSocket
    open spec fn core(&self) -> CoreV { CoreV { ver: 0, community: utf8(self.community@), user: Seq::empty(), engine: Seq::empty(), boots: 0, time: 0,
        rid: self.request_id.0 as int, mid: 0, aalg: 0, akey: Seq::empty(), palg: 0, pkey: Seq::empty(), salt: 0 } }
    open spec fn sv(&self) -> SockV { self.io.sv() }
    open spec fn wf(&self) -> bool { true }
    open spec fn msg_is<'a>(d: Seq<u8>, m: Self::Message<'a>) -> bool where Self: 'a { cmsg_at(d, 0) matches Some((c, p)) && m.community@ == c && pdu_is(p, m.pdu) }
    open spec fn must<'a>(d: Seq<u8>) -> bool where Self: 'a { cmsg_at(d, 0) matches Some((c, p)) && must_pdu(p) }
    fn vf_decode<'a>(data: &'a [u8]) -> (r: SnmpResult<Self::Message<'a>>) where Self: 'a { SnmpV1Message::try_from(data) }
    proof fn lemma_must<'a>(&self, d: Seq<u8>) where Self: 'a {}
@fn SnmpSocket for SnmpV1ClientSocket::push_pdu
@entry
    hide(enc_cmsg);
    proof { assert(enc_cmsg(0, utf8(self.community@), pdu) is Some) by { reveal(enc_cmsg); } }
@fn SnmpSocket for SnmpV1ClientSocket::unwrap_pdu
@entry
    hide(cmsg_at); hide(pdu_is); hide(must_pdu);
    proof { assert forall|e: Seq<u8>| pdu_is(e, msg.pdu) implies match pdu_req_id(msg.pdu) { None => msg.pdu is Report && rid_at(e) is None, Some(i) => !(msg.pdu is Report) && rid_at(e) == Some(i) } by { lemma_rid(e, msg.pdu); } }
@fn SnmpV1ClientSocket::new
@ret r
@spec
    ensures r matches Ok(s) ==> s.wf() && s.core() == (CoreV { rid: s.core().rid, ver: 0, community: utf8(community@), user: Seq::empty(), engine: Seq::empty(), boots: 0, time: 0,
        mid: 0, aalg: 0, akey: Seq::empty(), palg: 0, pkey: Seq::empty(), salt: 0 }) && s.sv().sent.len() == 0 && s.sv().got.len() == 0
        && if timeout_ns > 0 { s.sv().timeout == Some(Duration { ns: if timeout_ns > 1000 { timeout_ns as u128 } else { 1000 } }) && !s.sv().nonblock } else { s.sv().timeout is None && s.sv().nonblock },
        r matches Err(e) ==> e.cls == PyExc::OSError,
@fn SnmpV1ClientSocket::get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV1ClientSocket::send_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, final(self).core(), final(self).sv(), r),
@fn SnmpV1ClientSocket::recv_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV1ClientSocket::get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV1ClientSocket::send_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, final(self).core(), final(self).sv(), r),
@fn SnmpV1ClientSocket::recv_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV1ClientSocket::get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == old(iter).cur()
        && #[trigger] exchanged::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV1ClientSocket::send_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == iter.cur() && #[trigger] asked::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, final(self).core(), final(self).sv(), r),
@fn SnmpV1ClientSocket::recv_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV1ClientSocket::get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == old(iter).cur() && n == old(iter).max_repetitions
        && #[trigger] exchanged::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV1ClientSocket::send_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == iter.cur() && n == iter.max_repetitions
        && #[trigger] asked::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), final(self).core(), final(self).sv(), r),
@fn SnmpV1ClientSocket::recv_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@end
@file socket/v2c.rs
@use
use crate::vshim::*;
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::pdu::*;
use crate::snmp::op::*;
use crate::snmp::msg::v1::*;
use crate::snmp::msg::v2c::*;
use super::snmpsocket::*;
use crate::error::*;
broadcast use {group_slice_eq, crate::error::group_question};
@in SnmpSocket for SnmpV2cClientSocket
    open spec fn core(&self) -> CoreV { CoreV { ver: 1, community: utf8(self.community@), user: Seq::empty(), engine: Seq::empty(), boots: 0, time: 0,
        rid: self.request_id.0 as int, mid: 0, aalg: 0, akey: Seq::empty(), palg: 0, pkey: Seq::empty(), salt: 0 } }
    open spec fn sv(&self) -> SockV { self.io.sv() }
    open spec fn wf(&self) -> bool { true }
    open spec fn msg_is<'a>(d: Seq<u8>, m: Self::Message<'a>) -> bool where Self: 'a { cmsg_at(d, 1) matches Some((c, p)) && m.community@ == c && pdu_is(p, m.pdu) }
    open spec fn must<'a>(d: Seq<u8>) -> bool where Self: 'a { cmsg_at(d, 1) matches Some((c, p)) && must_pdu(p) }
    fn vf_decode<'a>(data: &'a [u8]) -> (r: SnmpResult<Self::Message<'a>>) where Self: 'a { SnmpV2cMessage::try_from(data) }
    proof fn lemma_must<'a>(&self, d: Seq<u8>) where Self: 'a {}
@fn SnmpSocket for SnmpV2cClientSocket::push_pdu
@entry
    hide(enc_cmsg);
    proof { assert(enc_cmsg(1, utf8(self.community@), pdu) is Some) by { reveal(enc_cmsg); } }
@fn SnmpSocket for SnmpV2cClientSocket::unwrap_pdu
@entry
    hide(cmsg_at); hide(pdu_is); hide(must_pdu);
    proof { assert forall|e: Seq<u8>| pdu_is(e, msg.pdu) implies match pdu_req_id(msg.pdu) { None => msg.pdu is Report && rid_at(e) is None, Some(i) => !(msg.pdu is Report) && rid_at(e) == Some(i) } by { lemma_rid(e, msg.pdu); } }
@fn SnmpV2cClientSocket::new
@ret r
@spec
    ensures r matches Ok(s) ==> s.wf() && s.core() == (CoreV { rid: s.core().rid, ver: 1, community: utf8(community@), user: Seq::empty(), engine: Seq::empty(), boots: 0, time: 0,
        mid: 0, aalg: 0, akey: Seq::empty(), palg: 0, pkey: Seq::empty(), salt: 0 }) && s.sv().sent.len() == 0 && s.sv().got.len() == 0
        && if timeout_ns > 0 { s.sv().timeout == Some(Duration { ns: if timeout_ns > 1000 { timeout_ns as u128 } else { 1000 } }) && !s.sv().nonblock } else { s.sv().timeout is None && s.sv().nonblock },
        r matches Err(e) ==> e.cls == PyExc::OSError,
@fn SnmpV2cClientSocket::get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV2cClientSocket::send_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), oid, final(self).core(), final(self).sv(), r),
@fn SnmpV2cClientSocket::recv_get
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGet, PyBackedStr>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV2cClientSocket::get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exchanged::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV2cClientSocket::send_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), oids, final(self).core(), final(self).sv(), r),
@fn SnmpV2cClientSocket::recv_get_many
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetMany, Vec<PyBackedStr>>(old(self).core(), old(self).sv(), None, final(self).core(), final(self).sv(), None, pyo(r)),
@fn SnmpV2cClientSocket::get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == old(iter).cur()
        && #[trigger] exchanged::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV2cClientSocket::send_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid| cow(o.0) == iter.cur() && #[trigger] asked::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), o, final(self).core(), final(self).sv(), r),
@fn SnmpV2cClientSocket::recv_get_next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetNext, SnmpOid>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV2cClientSocket::get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == old(iter).cur() && n == old(iter).max_repetitions
        && #[trigger] exchanged::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@fn SnmpV2cClientSocket::send_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), exists|o: SnmpOid, n: i64| cow(o.0) == iter.cur() && n == iter.max_repetitions
        && #[trigger] asked::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), (o, n), final(self).core(), final(self).sv(), r),
@fn SnmpV2cClientSocket::recv_get_bulk
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), waited::<OpGetBulk, (SnmpOid, i64)>(old(self).core(), old(self).sv(), Some(*old(iter)), final(self).core(), final(self).sv(), Some(*final(iter)), pyo(r)),
@end
