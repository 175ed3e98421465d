@file error.rs
@prepend
pub open spec fn exc_of(e: SnmpError) -> PyExc {
    match e {
        SnmpError::InvalidKey => PyExc::ValueError,
        SnmpError::OutOfBuffer => PyExc::SnmpEncodeError,
        SnmpError::NotImplemented => PyExc::NotImplementedError,
        SnmpError::NoSuchInstance => PyExc::NoSuchInstance,
        SnmpError::WouldBlock => PyExc::BlockingIOError,
        SnmpError::SocketError(_) => PyExc::OSError,
        SnmpError::ConnectionRefused => PyExc::TimeoutError,
        SnmpError::AuthenticationFailed => PyExc::SnmpAuthError,
        _ => PyExc::SnmpDecodeError,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<SnmpError> for PyErr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SnmpError) -> PyErr { PyErr { cls: exc_of(v) } }
}
/// `?` converts the error with From
pub broadcast axiom fn ax_question(e: SnmpError, r: PyErr)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<PyErr, SnmpError>(e, r) ==> r.cls == exc_of(e);
pub broadcast axiom fn ax_question_nom(e: nom::Err<SnmpError>, r: SnmpError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<SnmpError, nom::Err<SnmpError>>(e, r) ==> r == nom_err(e);
pub broadcast axiom fn ax_question_fail(e: SnmpError, r: nom::Err<SnmpError>)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<nom::Err<SnmpError>, SnmpError>(e, r) ==> r == nom::Err::<SnmpError>::Failure(e);
pub broadcast group group_question { ax_question, ax_question_nom, ax_question_fail }
impl ConvErr for SnmpError { open spec fn is_cls(&self, c: PyExc) -> bool { exc_of(*self) == c } }
/// SnmpDecodeError
pub open spec fn bad(e: SnmpError) -> bool { exc_of(e) == PyExc::SnmpDecodeError }
pub open spec fn nbad(e: nom::Err<SnmpError>) -> bool { bad(nom_err(e)) }
@fn From<SnmpError> for PyErr::from
@ret r
@spec
    ensures r.cls == exc_of(value),
@end
@drop From<Infallible> for SnmpError
@append
impl From<Infallible> for SnmpError {
    #[verifier::external_body]
    fn from(v: Infallible) -> SnmpError { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<Infallible> for SnmpError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Infallible) -> SnmpError { arbitrary() }
}
@file ber/bool.rs
@filerw
.to_owned() ==> .vf_to_owned()
@in IntoPyObject for &SnmpBool
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Bool(self.0)) }
@file ber/int.rs
@in IntoPyObject for &SnmpInt
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/counter32.rs
@in IntoPyObject for &SnmpCounter32
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/gauge32.rs
@in IntoPyObject for &SnmpGauge32
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/timeticks.rs
@in IntoPyObject for &SnmpTimeTicks
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/uinteger32.rs
@in IntoPyObject for &SnmpUInteger32
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/counter64.rs
@in IntoPyObject for &SnmpCounter64
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(self.0 as int)) }
@file ber/real.rs
@in IntoPyObject for &SnmpReal
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Float(self.0)) }
@file ber/octetstring.rs
@in IntoPyObject for &SnmpOctetString
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Bytes(self.0@)) }
@file ber/objectdescriptor.rs
@in IntoPyObject for &SnmpObjectDescriptor
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Bytes(self.0@)) }
@file ber/opaque.rs
@in IntoPyObject for &SnmpOpaque
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Bytes(self.0@)) }
@file ber/ipaddress.rs
@append
pub open spec fn ip_text(x: SnmpIpAddress) -> Seq<char> {
    dec(x.0 as nat) + seq!['.'] + dec(x.1 as nat) + seq!['.'] + dec(x.2 as nat) + seq!['.'] + dec(x.3 as nat)
}
@fn From<&SnmpIpAddress> for String::from
@fmt
@ret r
@spec
    ensures r@ == ip_text(*value),
@in IntoPyObject for &SnmpIpAddress
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Str(ip_text(**self))) }
@file ber/objectid.rs
@in IntoPyObject for &SnmpOid
    open spec fn pyof(&self) -> Option<PyV> { oid_py(cow(self.0)) }
    open spec fn pyerr(&self) -> PyExc { PyExc::SnmpDecodeError }
@append
/// the dotted text of the octets of an OBJECT IDENTIFIER
pub open spec fn oid_py(o: Seq<u8>) -> Option<PyV> { match arcs(o) { Some(a) => Some(PyV::Str(oid_text(a))), None => None } }
@end
@file snmp/value.rs
@use
use crate::ber::objectid::*;
use crate::ber::ipaddress::*;
@append
/// the Python object for a value: C02
pub open spec fn val_py(v: SnmpValue) -> Option<PyV> {
    match v {
        SnmpValue::Bool(x) => Some(PyV::Bool(x.0)),
        SnmpValue::Int(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::Null => Some(PyV::None),
        SnmpValue::OctetString(x) => Some(PyV::Bytes(x.0@)),
        SnmpValue::Oid(x) => oid_py(cow(x.0)),
        SnmpValue::ObjectDescriptor(x) => Some(PyV::Bytes(x.0@)),
        SnmpValue::Real(x) => Some(PyV::Float(x.0)),
        SnmpValue::IpAddress(x) => Some(PyV::Str(ip_text(x))),
        SnmpValue::Counter32(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::Gauge32(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::TimeTicks(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::Opaque(x) => Some(PyV::Bytes(x.0@)),
        SnmpValue::Counter64(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::UInteger32(x) => Some(PyV::Int(x.0 as int)),
        SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => None,
    }
}
/// no value for this name
pub open spec fn no_val(v: SnmpValue) -> bool { v is Null || v is NoSuchObject || v is NoSuchInstance || v is EndOfMibView }
@in IntoPyObject for &SnmpValue
    open spec fn pyof(&self) -> Option<PyV> { val_py(**self) }
    open spec fn pyerr(&self) -> PyExc { if **self is NoSuchObject || **self is NoSuchInstance || **self is EndOfMibView { PyExc::NoSuchInstance } else { PyExc::SnmpDecodeError } }
@file snmp/op/mod.rs
@use
use crate::ber::*;
use crate::snmp::get::*;
@in PyOp
    /// what the caller asked for
    spec fn asks(obj: T, request_id: i64, r: PyResult<SnmpPdu>) -> bool;
    /// what the caller gets for a reply, with the iterator's state before and after
    spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool;
    /// C01: and the exceptions there are
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>)
        ensures Self::answers(pdu, it0, it1, r) ==> (r matches Err(e) ==> answer_cls(e.cls));
@append
pub open spec fn answer_cls(c: PyExc) -> bool { c is SnmpDecodeError || c is NoSuchInstance || c is SnmpAuthError || c is StopAsyncIteration || c is ValueError }
pub open spec fn pyr(r: PyResult<Bound<PyAny>>) -> PyResult<PyV> { match r { Ok(b) => Ok(b.pv()), Err(e) => Err(e) } }
pub open spec fn it_now(i: Option<&mut GetIter>) -> Option<GetIter> { match i { Some(g) => Some(*g), None => None } }
#[verifier::prophetic]
pub open spec fn it_fin(i: Option<&mut GetIter>) -> Option<GetIter> { match i { Some(g) => Some(*final(g)), None => None } }
pub open spec fn req_is(v: ReqV, id: int, a: int, b: int, o: Seq<Seq<u8>>) -> bool { v.id == id && v.a == a && v.b == b && v.oids =~= o }
pub open spec fn raises(r: PyResult<PyV>, c: PyExc) -> bool { r matches Err(e) && e.cls == c }
@fn PyOp::from_python
@ret r
@spec
    ensures Self::asks(obj, request_id, r), r matches Ok(p) ==> crate::snmp::pdu::pdu_req(p) is Some,
@fn PyOp::to_python
@ret r
@spec
    ensures Self::answers(*pdu, it_now(iter), it_fin(iter), pyr(r)),
@end
@file snmp/op/getiter.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::ber::objectid::*;
@append
impl GetIter {
    pub open spec fn start(&self) -> Seq<u8> { self.start_oid@ }
    pub open spec fn cur(&self) -> Seq<u8> { self.next_oid@ }
    /// C06: the name is in the subtree and after the last one
    pub open spec fn steps(&self, o: Seq<u8>) -> bool { walk_step(self.start(), self.cur(), o) }
}
pub open spec fn walk_step(start: Seq<u8>, cur: Seq<u8>, o: Seq<u8>) -> bool { start.is_prefix_of(o) && oid_after(o, cur) }
/// every subidentifier is readable
pub open spec fn readable(o: Seq<u8>) -> bool { subids(o, MAXSUB()) is Some }
@fn GetIter::new
@ret r
@spec
    ensures
        r matches Ok(g) ==> (denotes(oid@) matches Some(a) && g.start() == enc_oid(a) && g.cur() == enc_oid(a))
            && g.max_repetitions == (match max_repetitions { Some(x) => x, None => 0 }),
        r matches Err(e) ==> denotes(oid@) is None && e.cls == PyExc::ValueError,
@fn GetIter::get_next_oid
@ret r
@spec
    ensures cow(r.0) == self.cur(),
@fn GetIter::set_next_oid
@ret r
@spec
    ensures
        final(self).start() == old(self).start(), final(self).max_repetitions == old(self).max_repetitions,
        r ==> old(self).steps(cow(oid.0)) && final(self).cur() == cow(oid.0),
        !r ==> final(self).cur() == old(self).cur() && !(old(self).steps(cow(oid.0)) && readable(cow(oid.0)) && readable(old(self).cur())),
@fn GetIter::get_max_repetitions
@ret r
@spec
    ensures r == self.max_repetitions,
@end
@file snmp/op/get.rs
@prepend
broadcast use crate::error::group_question;
@use
use super::*;
use super::getiter::*;
use crate::ber::*;
use crate::ber::objectid::*;
use crate::snmp::value::*;
use crate::snmp::getresponse::*;
use crate::snmp::get::*;
use crate::snmp::getbulk::*;
@filerw
.to_owned() ==> .vf_to_owned()
@in PyOp<PyBackedStr> for OpGet
    open spec fn asks(obj: PyBackedStr, request_id: i64, r: PyResult<SnmpPdu>) -> bool {
        match denotes(obj.v@) {
            None => r matches Err(e) && e.cls == PyExc::SnmpDecodeError,
            Some(a) => r matches Ok(SnmpPdu::GetRequest(g)) && req_is(g.v(), request_id as int, 0, 0, seq![enc_oid(a)]),
        }
    }
    open spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
        match pdu {
            SnmpPdu::GetResponse(resp) => if resp.vars@.len() == 0 { r == Ok::<PyV, PyErr>(PyV::None) }
                else if resp.vars@.len() > 1 { raises(r, PyExc::SnmpDecodeError) }
                else {
                    let v = resp.vars@[0].value;
                    if v is NoSuchObject || v is NoSuchInstance || v is EndOfMibView { raises(r, PyExc::NoSuchInstance) }
                    else { match val_py(v) { Some(p) => r == Ok::<PyV, PyErr>(p), None => raises(r, PyExc::SnmpDecodeError) } }
                },
            SnmpPdu::Report(_) => raises(r, PyExc::SnmpAuthError),
            _ => raises(r, PyExc::SnmpDecodeError),
        }
    }
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) {}
@file snmp/op/refresh.rs
@prepend
broadcast use crate::error::group_question;
@use
use super::*;
use crate::snmp::get::*;
@filerw
.to_owned() ==> .vf_to_owned()
@in PyOp<()> for OpRefresh
    open spec fn asks(obj: (), request_id: i64, r: PyResult<SnmpPdu>) -> bool {
        r matches Ok(SnmpPdu::GetRequest(g)) && req_is(g.v(), request_id as int, 0, 0, Seq::empty())
    }
    open spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool { r == Ok::<PyV, PyErr>(PyV::None) }
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) {}
@file snmp/op/getnext.rs
@prepend
broadcast use crate::error::group_question;
@use
use super::*;
use super::getiter::*;
use crate::ber::*;
use crate::ber::objectid::*;
use crate::snmp::value::*;
use crate::snmp::getresponse::*;
use crate::snmp::get::*;
use crate::snmp::getbulk::*;
@filerw
.to_owned() ==> .vf_to_owned()
iter.ok_or_else( ==> iter.vf_ok_or_else(
@in PyOp<SnmpOid> for OpGetNext
    open spec fn asks(obj: SnmpOid<'a>, request_id: i64, r: PyResult<SnmpPdu>) -> bool {
        r matches Ok(SnmpPdu::GetNextRequest(g)) && req_is(g.v(), request_id as int, 0, 0, seq![cow(obj.0)])
    }
    open spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
        match (it0, it1) {
            (Some(i0), Some(i1)) => i1.start() == i0.start() && i1.max_repetitions == i0.max_repetitions && match pdu {
                SnmpPdu::GetResponse(resp) => if resp.vars@.len() == 0 { raises(r, PyExc::StopAsyncIteration) && i1.cur() == i0.cur() }
                    else if resp.vars@.len() > 1 { raises(r, PyExc::SnmpDecodeError) && i1.cur() == i0.cur() }
                    else { getnext_is(resp.vars@[0], i0, i1, r) },
                SnmpPdu::Report(_) => raises(r, PyExc::SnmpAuthError) && i1.cur() == i0.cur(),
                _ => raises(r, PyExc::SnmpDecodeError) && i1.cur() == i0.cur(),
            },
            _ => raises(r, PyExc::ValueError),
        }
    }
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) {}
@append
pub open spec fn getnext_is(v: SnmpVar, i0: GetIter, i1: GetIter, r: PyResult<PyV>) -> bool {
    let o = cow(v.oid.0);
    // the walk only moves forward within the subtree
    &&& (i1.cur() == i0.cur() || (i1.cur() == o && i0.steps(o)))
    &&& (r matches Ok(p) ==> i0.steps(o) && i1.cur() == o && !no_val(v.value) && oid_py(o) is Some && val_py(v.value) is Some
            && (p matches PyV::Tuple(t) && t =~= seq![oid_py(o).unwrap(), val_py(v.value).unwrap()]))
    &&& (!i0.steps(o) || no_val(v.value) ==> raises(r, PyExc::StopAsyncIteration))
    &&& (r matches Err(e) ==> e.cls == PyExc::StopAsyncIteration || e.cls == PyExc::SnmpDecodeError)
    &&& (i0.steps(o) && readable(o) && readable(i0.cur()) && !no_val(v.value) && oid_py(o) is Some && val_py(v.value) is Some ==> r is Ok)
}
@file snmp/op/getmany.rs
@prepend
broadcast use crate::error::group_question;
@use
use super::*;
use super::getiter::*;
use crate::ber::*;
use crate::ber::objectid::*;
use crate::snmp::value::*;
use crate::snmp::getresponse::*;
use crate::snmp::get::*;
use crate::snmp::getbulk::*;
@filerw
.to_owned() ==> .vf_to_owned()
let dict = ==> let mut dict =
@in PyOp<Vec<PyBackedStr>> for OpGetMany
    open spec fn asks(obj: Vec<PyBackedStr>, request_id: i64, r: PyResult<SnmpPdu>) -> bool {
        if forall|i: int| 0 <= i < obj@.len() ==> denotes((#[trigger] obj@[i]).v@) is Some {
            r matches Ok(SnmpPdu::GetRequest(g)) && req_is(g.v(), request_id as int, 0, 0, Seq::new(obj@.len(), |i: int| enc_oid(denotes(obj@[i].v@).unwrap())))
        } else { r matches Err(e) && e.cls == PyExc::SnmpDecodeError }
    }
    open spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
        match pdu {
            SnmpPdu::GetResponse(resp) => match many_py(resp.vars@, resp.vars@.len()) { Some(d) => r == Ok::<PyV, PyErr>(PyV::Dict(d)), None => raises(r, PyExc::SnmpDecodeError) },
            SnmpPdu::Report(_) => raises(r, PyExc::SnmpAuthError),
            _ => raises(r, PyExc::SnmpDecodeError),
        }
    }
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) {}
@append
pub proof fn lemma_many_none(v: Seq<SnmpVar>, j: nat, k: nat)
    requires many_py(v, j) is None, j <= k,
    ensures many_py(v, k) is None,
    decreases k,
{ if j < k { lemma_many_none(v, j, (k - 1) as nat); } }
/// C05: the values by name, names without a value are left out
pub open spec fn many_py(v: Seq<SnmpVar>, k: nat) -> Option<Map<Seq<char>, PyV>>
    decreases k,
{
    if k == 0 { Some(Map::empty()) }
    else {
        match many_py(v, (k - 1) as nat) {
            None => None,
            Some(d) => {
                let x = v[k - 1];
                if no_val(x.value) { Some(d) }
                else if oid_py(cow(x.oid.0)) is Some && val_py(x.value) is Some { Some(d.insert(oid_py(cow(x.oid.0)).unwrap()->Str_0, val_py(x.value).unwrap())) }
                else { None }
            },
        }
    }
}
@fn PyOp<Vec<PyBackedStr>> for OpGetMany::from_python
@loop 0
    invariant
        vf_n0 == vf_s0@.len(), vf_s0@ == obj@, 0 <= vf_i0 <= vf_n0,
        vf_e0 is None ==> vf_acc0@.len() == vf_i0 && forall|i: int| 0 <= i < vf_i0 ==> denotes((#[trigger] obj@[i]).v@) is Some && cow(vf_acc0@[i].0) == enc_oid(denotes(obj@[i].v@).unwrap()),
        vf_e0 matches Some(e) ==> crate::error::bad(e),
        vf_e0 is Some ==> exists|i: int| 0 <= i < vf_n0 && denotes((#[trigger] obj@[i]).v@) is None,
    decreases vf_n0 - vf_i0,
@fn PyOp<Vec<PyBackedStr>> for OpGetMany::to_python
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant
        vf_n0 == vf_s0@.len(), *vf_s0 == resp.vars, 0 <= vf_i0 <= vf_n0,
        dict.pv() is Dict, many_py(resp.vars@, vf_i0 as nat) == Some(dict.pv()->Dict_0),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    assert(var == &resp.vars@[vf_i0 - 1]);
    proof { if many_py(resp.vars@, vf_i0 as nat) is None { lemma_many_none(resp.vars@, vf_i0 as nat, resp.vars@.len()); } }
    let ghost one = many_py(resp.vars@, vf_i0 as nat);
    assert(!no_val(var.value) ==> (one is Some <==> oid_py(cow(var.oid.0)) is Some && val_py(var.value) is Some));

@file snmp/op/getbulk.rs
@prepend
broadcast use crate::error::group_question;
@use
use super::*;
use super::getiter::*;
use crate::ber::*;
use crate::ber::objectid::*;
use crate::snmp::value::*;
use crate::snmp::getresponse::*;
use crate::snmp::get::*;
use crate::snmp::getbulk::*;
@filerw
.to_owned() ==> .vf_to_owned()
iter.ok_or_else( ==> iter.vf_ok_or_else(
let list = ==> let mut list =
@in PyOp<(SnmpOid,i64)> for OpGetBulk
    open spec fn asks(obj: (SnmpOid<'a>, i64), request_id: i64, r: PyResult<SnmpPdu>) -> bool {
        r matches Ok(SnmpPdu::GetBulkRequest(g)) && req_is(g.v(), request_id as int, 0, obj.1 as int, seq![cow(obj.0.0)])
    }
    open spec fn answers(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> bool {
        match (it0, it1) {
            (Some(i0), Some(i1)) => i1.start() == i0.start() && i1.max_repetitions == i0.max_repetitions && match pdu {
                SnmpPdu::GetResponse(resp) => bulk_is(resp.vars@, i0, i1, r),
                SnmpPdu::Report(_) => raises(r, PyExc::SnmpAuthError) && i1.cur() == i0.cur(),
                _ => raises(r, PyExc::SnmpDecodeError) && i1.cur() == i0.cur(),
            },
            _ => raises(r, PyExc::ValueError),
        }
    }
    proof fn classes(pdu: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) { hide(taken); hide(kept); hide(walk_step); hide(leaves); hide(val_py); hide(oid_py); }
@append
/// indices of the variables with a value, among the first k
pub open spec fn kept(v: Seq<SnmpVar>, k: nat) -> Seq<int>
    decreases k,
{
    if k == 0 { Seq::empty() } else if no_val(v[k - 1].value) { kept(v, (k - 1) as nat) } else { kept(v, (k - 1) as nat).push(k - 1) }
}
/// position of the walk after m of the kept variables
pub open spec fn at_after(v: Seq<SnmpVar>, ks: Seq<int>, cur: Seq<u8>, m: int) -> Seq<u8> { if m == 0 { cur } else { cow(v[ks[m - 1]].oid.0) } }
pub open spec fn pair_py(x: SnmpVar) -> Option<PyV> {
    if oid_py(cow(x.oid.0)) is Some && val_py(x.value) is Some { Some(PyV::Tuple(seq![oid_py(cow(x.oid.0)).unwrap(), val_py(x.value).unwrap()])) } else { None }
}
/// the first m kept variables advance the walk and are in the list
pub open spec fn taken(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, m: int, items: Seq<PyV>) -> bool {
    0 <= m <= ks.len() && items.len() == m
    && forall|i: int| 0 <= i < m ==> walk_step(i0.start(), at_after(v, ks, i0.cur(), i), #[trigger] cow(v[ks[i]].oid.0)) && pair_py(v[ks[i]]) == Some(items[i])
}
/// the m-th kept variable ends the walk: out of the subtree or not after the last name
pub open spec fn leaves(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, m: int) -> bool {
    let (c, o) = (at_after(v, ks, i0.cur(), m), cow(v[ks[m]].oid.0));
    0 <= m < ks.len() && !(walk_step(i0.start(), c, o) && readable(o) && readable(c))
}
pub open spec fn bulk_is(v: Seq<SnmpVar>, i0: GetIter, i1: GetIter, r: PyResult<PyV>) -> bool {
    let ks = kept(v, v.len());
    &&& exists|m: int, items: Seq<PyV>| #[trigger] taken(v, ks, i0, m, items) && match r {
            Ok(p) => i1.cur() == at_after(v, ks, i0.cur(), m) && ks.len() > 0
                && ((m == ks.len() && p == PyV::List(items)) || (leaves(v, ks, i0, m) && p == PyV::List(items.push(PyV::None)))),
            // no values, or a name or a value that can not be shown
            Err(e) => (ks.len() == 0 && e.cls == PyExc::StopAsyncIteration && i1.cur() == i0.cur())
                || (e.cls == PyExc::SnmpDecodeError && m < ks.len() && pair_py(v[ks[m]]) is None && walk_step(i0.start(), at_after(v, ks, i0.cur(), m), cow(v[ks[m]].oid.0))
                    && i1.cur() == cow(v[ks[m]].oid.0)),
        }
}
pub proof fn lemma_taken_step(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, m: int, items: Seq<PyV>)
    requires
        taken(v, ks, i0, m, items), m < ks.len(), pair_py(v[ks[m]]) is Some,
        walk_step(i0.start(), at_after(v, ks, i0.cur(), m), cow(v[ks[m]].oid.0)),
    ensures taken(v, ks, i0, m + 1, items.push(pair_py(v[ks[m]]).unwrap())),
{
    hide(walk_step); hide(pair_py);
    let it2 = items.push(pair_py(v[ks[m]]).unwrap());
    assert forall|i: int| 0 <= i < m + 1 implies walk_step(i0.start(), at_after(v, ks, i0.cur(), i), #[trigger] cow(v[ks[i]].oid.0)) && pair_py(v[ks[i]]) == Some(it2[i]) by {
        if i < m { assert(it2[i] == items[i]); let x = cow(v[ks[i]].oid.0); }
    }
}
pub proof fn lemma_taken(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, m: int, items: Seq<PyV>)
    ensures
        taken(v, ks, i0, 0, Seq::empty()), kept(v, 0).len() == 0,
        taken(v, ks, i0, m, items) ==> 0 <= m <= ks.len() && items.len() == m,
{}
pub proof fn lemma_kept(v: Seq<SnmpVar>, j: nat, k: nat)
    requires j <= k,
    ensures kept(v, j).len() <= kept(v, k).len(), forall|i: int| 0 <= i < kept(v, j).len() ==> kept(v, k)[i] == kept(v, j)[i],
    decreases k,
{ if j < k { lemma_kept(v, j, (k - 1) as nat); } }
@fn PyOp<(SnmpOid,i64)> for OpGetBulk::to_python
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@entry
    hide(taken); hide(kept); hide(walk_step); hide(oid_py); hide(val_py); hide(leaves);
    let ghost i0 = it_now(iter);
@loop 0
    invariant_except_break
        taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), kept(resp.vars@, vf_i0 as nat).len() as int, list.pv()->List_0),
        b_iter.cur() == at_after(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap().cur(), kept(resp.vars@, vf_i0 as nat).len() as int),
    invariant
        vf_n0 == vf_s0@.len(), *vf_s0 == resp.vars, 0 <= vf_i0 <= vf_n0, list.pv() is List,
        b_iter.start() == i0.unwrap().start(), b_iter.max_repetitions == i0.unwrap().max_repetitions,
    ensures
        list.pv() is List,
        exists|m: int, items: Seq<PyV>| #[trigger] taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), m, items)
            && b_iter.cur() == at_after(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap().cur(), m)
            && ((m == kept(resp.vars@, resp.vars@.len()).len() && list.pv() == PyV::List(items))
                || (leaves(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), m) && list.pv() == PyV::List(items.push(PyV::None)))),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof { reveal_with_fuel(kept, 2); lemma_kept(resp.vars@, vf_i0 as nat, resp.vars@.len()); }
    let ghost items = list.pv()->List_0;
    let ghost m = kept(resp.vars@, (vf_i0 - 1) as nat).len() as int;
    let ghost ks = kept(resp.vars@, resp.vars@.len());
    assert(var == &resp.vars@[vf_i0 - 1]);
    assert(!no_val(var.value) ==> m < ks.len() && ks[m] == vf_i0 - 1 && kept(resp.vars@, vf_i0 as nat).len() == m + 1) by {
        if !no_val(var.value) { assert(kept(resp.vars@, vf_i0 as nat)[m] == vf_i0 - 1); }
    }
@loopend 0
    proof {
        let t = (list.pv()->List_0.last())->Tuple_0;
        assert(t =~= seq![oid_py(cow(var.oid.0)).unwrap(), val_py(var.value).unwrap()]);
        assert(list.pv()->List_0 =~= items.push(pair_py(*var).unwrap()));
        lemma_taken_step(resp.vars@, ks, i0.unwrap(), m, items);
    }
@before break;
    proof {
        assert(leaves(resp.vars@, ks, i0.unwrap(), m)) by { reveal(leaves); }
        assert(taken(resp.vars@, ks, i0.unwrap(), m, items));
        assert(list.pv() == PyV::List(items.push(PyV::None)));
    }
@loopbefore 0
    proof { lemma_taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), 0, Seq::empty()); }
@before #0 return Err(PyStopAsyncIteration::new_err("stop"));
    proof { lemma_taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), 0, Seq::empty()); }
@before if list.is_empty()
    let ghost (m, items) = choose|m: int, items: Seq<PyV>| #[trigger] taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), m, items)
            && b_iter.cur() == at_after(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap().cur(), m)
            && ((m == kept(resp.vars@, resp.vars@.len()).len() && list.pv() == PyV::List(items))
                || (leaves(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), m) && list.pv() == PyV::List(items.push(PyV::None))));
    proof { lemma_taken(resp.vars@, kept(resp.vars@, resp.vars@.len()), i0.unwrap(), m, items); reveal(leaves); }
@end
