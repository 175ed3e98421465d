@file buf/pool.rs
@use
use crate::vspec::*;
use crate::buf::buffer::*;
@drop BUFFER_POOL
@filerw
impl Drop for BufferHandle ==> impl BufferHandle
impl AsMut<Buffer> for BufferHandle ==> impl BufferHandle
.unwrap_or_default() ==> .vf_or_default()
@append
/// the lock invariant of the pool: every buffer in it is empty
pub open spec fn idle(b: Buffer) -> bool { b.wf() && b.pos == MAX_SIZE }
// std::sync (assumed): a lock is never poisoned, the invariant holds whenever the lock is free
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { p: core::marker::PhantomData<T> }
impl Mutex<Vec<Buffer>> {
    #[verifier::external_body]
    pub fn new(v: Vec<Buffer>) -> Self
        requires forall|i: int| 0 <= i < v@.len() ==> idle(v@[i]),
    { unimplemented!() }
}
impl Arc<Mutex<Vec<Buffer>>> {
    #[verifier::external_body]
    pub fn new(v: Mutex<Vec<Buffer>>) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(v: &Self) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> Locked { unimplemented!() }
}
pub struct Locked {}
pub struct Guard {}
impl Locked {
    #[verifier::external_body]
    pub fn unwrap(self) -> Guard { unimplemented!() }
}
impl Guard {
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Buffer>)
        ensures r matches Some(b) ==> idle(b),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, b: Buffer)
        requires idle(b),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_empty_pool() -> (r: Vec<Buffer>) ensures r@.len() == 0, { Vec::new() }
impl BufferHandle {
    pub open spec fn has(&self) -> bool { self.buf matches Some(b) && b.wf() }
}
pub trait VfOptBuf: Sized { spec fn ob(self) -> Option<Buffer>; fn vf_or_default(self) -> (r: Buffer) ensures match self.ob() { Some(b) => r == b, None => idle(r) }; }
impl VfOptBuf for Option<Buffer> {
    open spec fn ob(self) -> Option<Buffer> { self }
    fn vf_or_default(self) -> (r: Buffer) { proof { assert(self.ob() == self); } match self { Some(b) => b, None => Buffer::default() } }
}
/// std::sync::OnceLock<BufferPool> (assumed): the value it was initialized with
#[verifier::external_body]
pub fn vf_once(p: BufferPool) -> (r: &'static BufferPool) { unimplemented!() }
@fn BufferPool::acquire
@ret r
@spec
    ensures r.buf matches Some(b) && idle(b),
@fn AsMut<Buffer> for BufferHandle::as_mut
@name as_mut
@ret r
@spec
    requires old(self).buf is Some,
    ensures *r == old(self).buf.unwrap(), final(self).buf == Some(*final(r)),
@fn Drop for BufferHandle::drop
@fn get_buffer_pool
@rw
BUFFER_POOL.get_or_init(BufferPool::default) ==> vf_once(BufferPool::default())
@end
@file socket/mod.rs
@file socket/snmpsocket.rs
@use
use crate::vshim::*;
use crate::ber::*;
use crate::snmp::get::*;
use crate::snmp::pdu::*;
use crate::snmp::op::*;
use crate::snmp::msg::v1::*;
use crate::snmp::msg::v3::scoped::*;
use crate::snmp::msg::v3::usm::*;
use crate::snmp::msg::v3::msg::*;
use crate::auth::*;
use crate::privacy::*;
use crate::buf::buffer::MAX_SIZE;
use crate::error::*;
broadcast use crate::error::group_question;
@filerw
Instant::now() ==> self.get_io().vf_now()
let io = Socket::new ==> let mut io = Socket::new
addr.parse() ==> vf_parse_addr(&addr)
sock_addr.into() ==> sock_addr.vf_into()
std::io::ErrorKind:: ==> ErrorKind::
io.recv(buf.as_mut()) ==> io.recv(buf.vf_as_mut_uninit())
?.into() ==> ?.vf_into()
Self::Message::try_from( ==> Self::vf_decode(
@prepend
/// a session: version on the wire, credentials, engine state, outstanding ids, keys
pub struct CoreV {
    pub ver: int, pub community: Seq<u8>, pub user: Seq<u8>, pub engine: Seq<u8>, pub boots: int, pub time: int, pub rid: int, pub mid: int,
    pub aalg: int, pub akey: Seq<u8>, pub palg: int, pub pkey: Seq<u8>, pub salt: nat,
}
// ---------------------------------------------------------------- sending
pub open spec fn no_mac(aalg: int) -> Seq<u8> { if aalg == 0 { Seq::<u8>::empty() } else { Seq::new(12, |i: int| 0u8) } }
/// a request with no names asks for a report (engine discovery)
pub open spec fn wants_report(pdu: SnmpPdu) -> bool { pdu matches SnmpPdu::GetRequest(g) && g.v().oids.len() == 0 }
/// C11, C14: msgPrivacyParameters and msgData
pub open spec fn data_part(c: CoreV, pdu: SnmpPdu, pp: Seq<u8>, dp: Seq<u8>) -> bool {
    match enc_scoped(c.engine, pdu) {
        None => false,
        Some(e) => if c.palg == 0 { pp.len() == 0 && dp == e } else {
            pp == salt_octets(c.palg, c.boots as u32, c.salt)
            && exists|ct: Seq<u8>| dp == #[trigger] tlv(4, ct) && is_cipher_of(c.palg, c.pkey, c.boots as u32, c.time as u32, pp, e, ct)
        },
    }
}
/// C09: the whole message with the MAC over the message with zeros in its place
pub open spec fn signed(c: CoreV, m: Seq<u8>) -> Seq<u8> {
    if c.aalg == 0 { m } else { splice(m, auth_off(m), mac96(c.aalg, c.akey, m)) }
}
pub open spec fn plain_v3(c: CoreV, mid: int, pdu: SnmpPdu, pp: Seq<u8>, dp: Seq<u8>) -> Seq<u8> {
    enc_v3(mid, flags_of(c.aalg != 0, c.palg != 0, wants_report(pdu)),
        UsmV { engine: c.engine, boots: c.boots, time: c.time, user: c.user, auth: no_mac(c.aalg), privp: pp }, dp)
}
pub open spec fn is_mid(v: int) -> bool { 0 <= v <= 0x7fff_ffff }
/// what changes in a session when a message is made
pub open spec fn advanced(c0: CoreV, c1: CoreV) -> bool {
    if c0.ver != 3 { c1 == c0 } else {
        c1 == (CoreV { mid: c1.mid, salt: c1.salt, ..c0 }) && (is_mid(c1.mid) || c1.mid == c0.mid)
        && c1.salt == (if c0.palg == 0 { c0.salt } else { salt_after(c0.palg, c0.salt, 1) })
    }
}
/// C03: `d` is the message for `pdu`
pub open spec fn sends(c0: CoreV, pdu: SnmpPdu, d: Seq<u8>, c1: CoreV) -> bool {
    d.len() <= MAX_SIZE && advanced(c0, c1) && if c0.ver != 3 { enc_cmsg(c0.ver as u8, c0.community, pdu) == Some(d) } else {
        is_mid(c1.mid) && exists|pp: Seq<u8>, dp: Seq<u8>| #[trigger] data_part(c0, pdu, pp, dp) && d == signed(c0, plain_v3(c0, c1.mid, pdu, pp, dp))
    }
}
/// C17: the message does not fit
pub open spec fn too_big(c0: CoreV, pdu: SnmpPdu, c1: CoreV) -> bool {
    advanced(c0, c1) && if c0.ver != 3 { enc_cmsg(c0.ver as u8, c0.community, pdu).unwrap().len() > MAX_SIZE } else {
        ||| c0.palg != 0 && enc_scoped(c0.engine, pdu).unwrap().len() + blk(c0.palg) > MAX_SIZE
        ||| exists|pp: Seq<u8>, dp: Seq<u8>| #[trigger] data_part(c0, pdu, pp, dp) && is_mid(c1.mid) && plain_v3(c0, c1.mid, pdu, pp, dp).len() > MAX_SIZE
    }
}
// ---------------------------------------------------------------- receiving
/// request-id of the octets of a PDU other than Report
pub open spec fn rid_at(e: Seq<u8>) -> Option<int> { if header(e) is Some && header(e).unwrap().tag != 8 { int_at(content(e)) } else { None } }
pub open spec fn is_report(e: Seq<u8>) -> bool { header(e) is Some && header(e).unwrap().tag == 8 }
/// the scoped PDU octets: in clear, or what the session's key opens
pub open spec fn opened(c: CoreV, v: V3V) -> Option<Seq<u8>> {
    if v.data.len() == 0 { None } else if v.data[0] != 4 { Some(v.data) }
    else if c.palg == 0 || v.usm.privp.len() != 8 { None }
    else { match oct_at(v.data) {
        Some(ct) => if ct.len() <= MAX_SIZE && (c.palg == 1 ==> ct.len() % 8 == 0) { Some(priv_dec(c.palg, c.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, ct)) } else { None },
        None => None,
    } }
}
/// C10: carries a good MAC when the session has a key, is encrypted when the session has a privacy key
pub open spec fn mac_ok(c: CoreV, d: Seq<u8>, v: V3V) -> bool {
    v.usm.auth.len() == 12 && v.usm.auth == mac96(c.aalg, c.akey, splice(d, auth_off(d), Seq::new(12, |i: int| 0u8)))
}
pub open spec fn secure(c: CoreV, d: Seq<u8>, v: V3V) -> bool {
    (c.aalg != 0 ==> v.flags % 2 == 1 && mac_ok(c, d, v)) && (c.palg != 0 ==> v.data.len() > 0 && v.data[0] == 4)
}
/// C13: the engine's parameters follow the message
pub open spec fn learnt(c: CoreV, u: UsmV) -> CoreV { CoreV { boots: u.boots, time: u.time, engine: if c.engine.len() == 0 { u.engine } else { c.engine }, ..c } }
/// C04, C10: the PDU octets of a datagram this session accepts for the outstanding request
pub open spec fn reply_at(c: CoreV, d: Seq<u8>) -> Option<Seq<u8>> {
    if c.ver != 3 {
        match cmsg_at(d, c.ver) { Some((m, e)) => if m == c.community && rid_at(e) == Some(c.rid) { Some(e) } else { None }, None => None }
    } else {
        match v3_at(d) {
            None => None,
            Some(v) => if v.usm.user == c.user && (c.engine.len() == 0 || v.usm.engine == c.engine) && v.id == c.mid && opened(c, v) is Some {
                match scoped_at(opened(c, v).unwrap()) {
                    Some((n, e)) => if is_report(e) || (rid_at(e) == Some(c.rid) && secure(c, d, v)) { Some(e) } else { None },
                    None => None,
                }
            } else { None },
        }
    }
}
pub open spec fn core_after(c: CoreV, d: Seq<u8>) -> CoreV { if c.ver == 3 && v3_at(d) is Some { learnt(c, v3_at(d).unwrap().usm) } else { c } }
/// the datagram may be delivered as `p`
pub open spec fn takes(c0: CoreV, d: Seq<u8>, p: SnmpPdu, c1: CoreV) -> bool {
    reply_at(c0, d) matches Some(e) && pdu_is(e, p) && c1 == core_after(c0, d)
}
/// the datagram has to be delivered
pub open spec fn wants(c: CoreV, d: Seq<u8>) -> bool { reply_at(c, d) matches Some(e) && must_pdu(e) }
/// a message of the session's version
pub open spec fn must_msg(c: CoreV, d: Seq<u8>) -> bool { if c.ver != 3 { cmsg_at(d, c.ver) matches Some((m, e)) && must_pdu(e) } else { must_v3(d) } }
/// the datagram decodes as a message of the session's version
pub open spec fn is_msg(c: CoreV, d: Seq<u8>) -> bool {
    if c.ver != 3 { cmsg_at(d, c.ver) matches Some((m, e)) && exists|p: SnmpPdu| #[trigger] pdu_is(e, p) } else { exists|m: SnmpV3Message| #[trigger] v3_is(d, m) }
}
/// C04: a message of the session's version which does not have to be delivered
pub open spec fn passed(c: CoreV, d: Seq<u8>) -> bool { !wants(c, d) && is_msg(c, d) }
pub open spec fn skipped(c: CoreV, ds: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ds.len() ==> passed(c, #[trigger] ds[i]) }
pub proof fn lemma_rid(e: Seq<u8>, p: SnmpPdu)
    requires pdu_is(e, p),
    ensures match pdu_req_id(p) { None => p is Report && is_report(e) && rid_at(e) is None, Some(i) => !(p is Report) && !is_report(e) && rid_at(e) == Some(i) },
{}
// ---------------------------------------------------------------- exchanges
/// datagrams received since
pub open spec fn since(s0: SockV, s1: SockV) -> Seq<Seq<u8>> { s1.got.subrange(s0.got.len() as int, s1.got.len() as int) }
pub open spec fn grows(s0: SockV, s1: SockV) -> bool { s0.got.is_prefix_of(s1.got) && s1.sent == s0.sent && s1.nonblock == s0.nonblock && s1.clk >= s0.clk }
/// without the timeout in force
pub open spec fn log(s: SockV) -> SockV { SockV { timeout: None, ..s } }
pub open spec fn pyo(r: PyResult<PyObject>) -> PyResult<PyV> { match r { Ok(b) => Ok(b.pv()), Err(e) => Err(e) } }
pub open spec fn fails<T>(r: PyResult<T>, c: PyExc) -> bool { r matches Err(e) && e.cls == c }
/// C03, C17: one datagram with the request went out, or nothing did and the error tells why
pub open spec fn sent_pdu(c0: CoreV, s0: SockV, pdu: SnmpPdu, c1: CoreV, s1: SockV, r: PyResult<()>) -> bool {
    ||| r is Ok && s1.sent.len() > 0 && s1 == (SockV { sent: s0.sent.push(s1.sent.last()), ..s0 }) && sends(c0, pdu, s1.sent.last(), c1)
    ||| s1 == s0 && advanced(c0, c1) && fails(r, PyExc::OSError)
    ||| s1 == s0 && fails(r, PyExc::SnmpEncodeError) && too_big(c0, pdu, c1)
}
pub open spec fn asked<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, req: V, c1: CoreV, s1: SockV, r: PyResult<()>) -> bool {
    exists|id: i64, p: PyResult<SnmpPdu<'a>>| is_mid(id as int) && #[trigger] T::asks(req, id, p) && match p {
        Ok(pdu) => sent_pdu(CoreV { rid: id as int, ..c0 }, s0, pdu, c1, s1, r),
        Err(e) => c1 == (CoreV { rid: id as int, ..c0 }) && s1 == s0 && r == Err::<(), PyErr>(e),
    }
}
/// how the wait for the reply ended, apart from the time it took
pub open spec fn answered<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
    let ds = since(s0, s1);
    grows(s0, s1) && {
        // C04, C10: the last one is the reply, the ones before are not
        ||| ds.len() > 0 && skipped(c0, ds.drop_last()) && exists|p: SnmpPdu| #[trigger] takes(c0, ds.last(), p, c1) && T::answers(p, it0, it1, r)
        // not a message of this version
        ||| ds.len() > 0 && skipped(c0, ds.drop_last()) && c1 == c0 && it1 == it0 && fails(r, PyExc::SnmpDecodeError) && !must_msg(c0, ds.last())
        // nothing to deliver
        ||| skipped(c0, ds) && c1 == c0 && it1 == it0 && (fails(r, PyExc::BlockingIOError) || fails(r, PyExc::TimeoutError) || fails(r, PyExc::OSError))
    }
}
/// C18: a wait with a timeout ends in time (and 1us), and gives up only after that time
pub open spec fn in_time(c0: CoreV, s0: SockV, s1: SockV, r: PyResult<PyV>) -> bool {
    s0.timeout matches Some(t) ==> s0.clk + t.ns <= INSTANT_MAX() ==> {
        &&& s1.clk <= s0.clk + t.ns + 1000
        &&& (!s0.nonblock && fails(r, PyExc::BlockingIOError) ==> s1.clk >= s0.clk + t.ns)
    }
}
/// C18: without a timeout (non-blocking, the caller watches the time) a call takes no more than so many datagrams, however fast they come
pub open spec fn UNWANTED() -> int { 1024 }
pub open spec fn in_turn(s0: SockV, s1: SockV) -> bool { s0.timeout is None ==> s1.got.len() - s0.got.len() <= UNWANTED() }
/// a wait for the reply
pub open spec fn waited<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
    &&& grows(s0, s1)
    &&& answered::<T, V>(c0, log(s0), it0, c1, log(s1), it1, r) || fails(r, PyExc::OSError)
    &&& fails(r, PyExc::OSError) || s1.timeout == s0.timeout
    &&& in_time(c0, s0, s1, r)
    &&& in_turn(s0, s1)
}
/// a request and the wait for its reply
pub open spec fn exchanged<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, req: V, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
    ||| exists|cm: CoreV, sm: SockV| #[trigger] asked::<T, V>(c0, s0, req, cm, sm, Ok(())) && waited::<T, V>(cm, sm, it0, c1, s1, it1, r)
    ||| (r matches Err(e) && it1 == it0 && asked::<T, V>(c0, s0, req, c1, s1, Err(e)))
}
pub proof fn lemma_since(s0: SockV, s: SockV, s1: SockV, d: Seq<u8>)
    requires s0.got.is_prefix_of(s.got), s1.got == s.got.push(d),
    ensures s0.got.is_prefix_of(s1.got), since(s0, s1) == since(s0, s).push(d), since(s0, s1).drop_last() == since(s0, s), since(s0, s1).last() == d, since(s0, s1).len() > 0,
{
    assert(since(s0, s1) =~= since(s0, s).push(d));
    assert(since(s0, s1).drop_last() =~= since(s0, s));
}
pub proof fn lemma_skip(c: CoreV, ds: Seq<Seq<u8>>, d: Seq<u8>)
    requires skipped(c, ds), passed(c, d),
    ensures skipped(c, ds.push(d)),
{
    hide(passed);
    assert forall|i: int| 0 <= i < ds.push(d).len() implies passed(c, #[trigger] ds.push(d)[i]) by { if i < ds.len() { assert(ds.push(d)[i] == ds[i]); } }
}
@in SnmpSocket
    spec fn core(&self) -> CoreV;
    spec fn sv(&self) -> SockV;
    spec fn wf(&self) -> bool;
    spec fn msg_is<'a>(d: Seq<u8>, m: Self::Message<'a>) -> bool where Self: 'a;
    spec fn must<'a>(d: Seq<u8>) -> bool where Self: 'a;
    fn vf_decode<'a>(data: &'a [u8]) -> (r: SnmpResult<Self::Message<'a>>) where Self: 'a
        ensures r matches Ok(m) ==> Self::msg_is(data@, m), r matches Err(e) ==> !Self::must(data@) && crate::error::bad(e);
    proof fn lemma_must<'a>(&self, d: Seq<u8>) where Self: 'a
        requires self.wf(),
        ensures must_msg(self.core(), d) ==> Self::must(d), forall|m: Self::Message<'a>| Self::msg_is(d, m) ==> #[trigger] is_msg(self.core(), d);
@fn SnmpSocket::get_io
@ret r
@spec
    requires old(self).wf(),
    ensures r.sv() == old(self).sv(), final(self).sv() == final(r).sv(), final(self).core() == old(self).core(), final(self).wf(),
@fn SnmpSocket::get_request_id
@ret r
@spec
    requires old(self).wf(),
    ensures r.0 == old(self).core().rid, final(self).core() == (CoreV { rid: final(r).0 as int, ..old(self).core() }), final(self).sv() == old(self).sv(), final(self).wf(),
@fn SnmpSocket::push_pdu
@ret r
@spec
    requires old(self).wf(), old(buf).wf(), old(buf)@.len() == 0, pdu_req(pdu) is Some,
    ensures
        final(self).wf(), final(self).sv() == old(self).sv(), final(buf).wf(),
        r is Ok ==> sends(old(self).core(), pdu, final(buf)@, final(self).core()),
        r matches Err(e) ==> e is OutOfBuffer && too_big(old(self).core(), pdu, final(self).core()),
@fn SnmpSocket::unwrap_pdu
@ret r
@spec
    requires old(self).wf(), Self::msg_is(data@, msg),
    ensures
        final(self).wf(), final(self).sv() == old(self).sv(),
        r matches Some(p) ==> takes(old(self).core(), data@, p, final(self).core()),
        r is None ==> !wants(old(self).core(), data@) && final(self).core() == old(self).core(),
@fn SnmpSocket::get_socket
@ret r
@spec
    ensures
        r matches Ok(s) ==> s.sv().sent.len() == 0 && s.sv().got.len() == 0 && (
            if timeout_ns > 0 { s.sv().timeout == Some(Duration { ns: if timeout_ns > 1000 { timeout_ns as u128 } else { 1000 } }) && !s.sv().nonblock }
            else { s.sv().timeout is None && s.sv().nonblock }),
        r matches Err(e) ==> e is SocketError,
@fn SnmpSocket::set_send_buffer_size
@ret r
@spec
    ensures r matches Err(e) ==> e is SocketError,
@loop 0
    decreases effective_size,
@loopbegin 0
    assert(effective_size > 0 ==> (effective_size >> 1) < effective_size) by (bit_vector);
@fn SnmpSocket::set_recv_buffer_size
@ret r
@spec
    ensures r matches Err(e) ==> e is SocketError,
@loop 0
    decreases effective_size,
@loopbegin 0
    assert(effective_size > 0 ==> (effective_size >> 1) < effective_size) by (bit_vector);
@fn SnmpSocket::recv_socket
@ret r
@spec
    ensures
        final(io).sv().clk >= old(io).sv().clk, final(io).sv().nonblock == old(io).sv().nonblock, final(io).sv().sent == old(io).sv().sent, final(io).sv().timeout == old(io).sv().timeout,
        old(io).sv().nonblock ==> final(io).sv().clk == old(io).sv().clk,
        old(io).sv().timeout matches Some(t) ==> final(io).sv().clk <= old(io).sv().clk + t.ns,
        final(buf).pos == old(buf).pos,
        r matches Ok(d) ==> final(io).sv().got == old(io).sv().got.push(d@),
        r matches Err(e) ==> final(io).sv().got == old(io).sv().got && (e is WouldBlock || e is ConnectionRefused || e is SocketError)
            && (e is WouldBlock ==> old(io).sv().nonblock || (old(io).sv().timeout matches Some(t) && final(io).sv().clk == old(io).sv().clk + t.ns)),
@fn SnmpSocket::_send_inner
@ret r
@spec
    requires old(self).wf(), pdu_req(pdu) is Some,
    ensures final(self).wf(), sent_pdu(old(self).core(), old(self).sv(), pdu, final(self).core(), final(self).sv(), r),
@fn SnmpSocket::_recv_until
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), grows(old(self).sv(), final(self).sv()), answered::<T, V>(old(self).core(), log(old(self).sv()), it_now(iter), final(self).core(), log(final(self).sv()), it_fin(iter), pyo(r)),
        deadline is None ==> final(self).sv().timeout == old(self).sv().timeout && final(self).sv().got.len() - old(self).sv().got.len() <= UNWANTED(),
        (deadline matches Some(d) && old(self).sv().timeout matches Some(t) && d.ns == old(self).sv().clk + t.ns && t.ns >= 1000) ==> {
            &&& final(self).sv().clk <= deadline.unwrap().ns + 1000
            &&& (!old(self).sv().nonblock && fails(pyo(r), PyExc::BlockingIOError) ==> final(self).sv().clk >= deadline.unwrap().ns)
        },
@entry
    hide(reply_at); hide(pdu_is); hide(must_msg); hide(is_msg); hide(wants); hide(takes); hide(skipped); hide(since); hide(core_after);
    let ghost c0 = self.core();
    let ghost s0 = self.sv();
    let ghost i0 = it_now(iter);
    let ghost timed = deadline matches Some(d) && s0.timeout matches Some(t) && d.ns == s0.clk + t.ns && t.ns >= 1000;
    proof { reveal(skipped); reveal(since); assert(skipped(c0, since(log(s0), log(s0)))); }
@loop 0
    invariant
        self.wf(), self.core() == c0, grows(s0, self.sv()), skipped(c0, since(log(s0), log(self.sv()))), it_now(iter) == i0,
        deadline is None ==> self.sv().timeout == s0.timeout && self.sv().got.len() - s0.got.len() == unwanted < MAX_UNWANTED,
        timed ==> (deadline matches Some(d) && self.sv().timeout matches Some(t) && t.ns >= 1000 && d.ns <= self.sv().clk + t.ns <= d.ns + 1000),
@loopbegin 0
    let ghost s = self.sv();
@after let data = { let io = self.get_io(); Self::recv_socket(io, buf)? };
    proof { lemma_since(log(s0), log(s), log(self.sv()), data@); self.lemma_must(data@); assert forall|p: SnmpPdu, i1: Option<GetIter>, r: PyResult<PyV>| #[trigger] T::answers(p, i0, i1, r) implies !fails(r, PyExc::BlockingIOError) by { T::classes(p, i0, i1, r); } }
@fn SnmpSocket::_recv_inner
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), waited::<T, V>(old(self).core(), old(self).sv(), it_now(iter), final(self).core(), final(self).sv(), it_fin(iter), pyo(r)),
@entry
    hide(answered); hide(since);
@fn SnmpSocket::send_request
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), asked::<T, V>(old(self).core(), old(self).sv(), req, final(self).core(), final(self).sv(), r),
@entry
    hide(sent_pdu);
@after let pdu = T::from_python(req, request_id)?;
    proof { assert(T::asks(req, request_id, Ok(pdu))); }
@fn SnmpSocket::recv_reply
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), waited::<T, V>(old(self).core(), old(self).sv(), it_now(iter), final(self).core(), final(self).sv(), it_fin(iter), pyo(r)),
@entry
    hide(answered);
@fn SnmpSocket::send_and_recv
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), exchanged::<T, V>(old(self).core(), old(self).sv(), req, it_now(iter), final(self).core(), final(self).sv(), it_fin(iter), pyo(r)),
@entry
    hide(sent_pdu); hide(waited);
    let ghost c0 = self.core();
    let ghost s0 = self.sv();
@after let pdu = T::from_python(req, request_id)?;
    proof { assert(T::asks(req, request_id, Ok(pdu))); }
@after self._send_inner(pdu)?;
    proof { assert(asked::<T, V>(c0, s0, req, self.core(), self.sv(), Ok(()))); }
@end
