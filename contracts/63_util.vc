@file util.rs
@use
use crate::vshim::*;
use crate::auth::*;
use crate::socket::snmpsocket::pyo;
broadcast use crate::error::group_question;
@filerw
&out).into() ==> &out).vf_into()
@fn get_master_key
@ret r
@spec
    ensures
        r matches Err(e) ==> e.cls == PyExc::ValueError || e.cls == PyExc::SnmpDecodeError,
        // C12: an unknown hash or an empty password is refused
        (alg & 0x3f > 2 || passwd@.len() == 0) ==> r is Err,
        (alg & 0x3f == 1 || alg & 0x3f == 2) && passwd@.len() > 0 ==> pyo(r) == Ok::<PyV, PyErr>(PyV::Bytes(pass_key((alg & 0x3f) as int, passwd@))),
@fn get_localized_key
@ret r
@spec
    ensures
        r matches Err(e) ==> e.cls == PyExc::ValueError || e.cls == PyExc::SnmpDecodeError,
        alg & 0x3f > 2 ==> r is Err,
        (alg & 0x3f == 1 || alg & 0x3f == 2) ==> (if master_key@.len() == osz((alg & 0x3f) as int) {
            pyo(r) == Ok::<PyV, PyErr>(PyV::Bytes(local_key((alg & 0x3f) as int, master_key@, engine_id@))) } else { r is Err }),
@end
