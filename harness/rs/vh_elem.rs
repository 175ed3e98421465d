use crate::ber::*;
use crate::snmp::value::SnmpValue;
use pyo3::BoundObject;
use pyo3::prelude::*;
use pyo3::types::PyBytes;

type R = Option<(PyObject, usize)>;

fn py<'a, T>(py: Python<'_>, r: nom::IResult<&[u8], T, crate::error::SnmpError>, f: impl Fn(&T) -> PyObject) -> R {
    let _ = py;
    match r {
        Ok((tail, v)) => Some((f(&v), tail.len())),
        Err(_) => None,
    }
}

/// Decode one element of the given kind at the start of `data`: (value, octets left), None when refused.
#[pyfunction]
fn elem(p: Python, kind: &str, data: &[u8]) -> PyResult<R> {
    fn obj<'py, T>(p: Python<'py>, v: T) -> PyObject
    where
        T: IntoPyObject<'py>,
        PyErr: From<T::Error>,
    {
        match v.into_pyobject(p) {
            Ok(x) => x.into_any().unbind(),
            Err(e) => {
                let e: PyErr = e.into();
                format!("exception {}", e).into_pyobject(p).unwrap().into_any().unbind()
            }
        }
    }
    macro_rules! t {
        ($t:ty) => {
            py(p, <$t>::from_ber(data), |v| obj(p, v))
        };
    }
    fn b(p: Python<'_>, x: &[u8]) -> PyObject {
        PyBytes::new(p, x).into()
    }
    Ok(match kind {
        "header" => py(p, BerHeader::from_ber(data), |h| {
            let c = match h.class {
                BerClass::Universal => 0u8,
                BerClass::Application => 1,
                BerClass::Context => 2,
                BerClass::Private => 3,
            };
            (c, h.constructed, h.tag, h.length).into_pyobject(p).unwrap().into_any().unbind()
        }),
        "bool" => t!(SnmpBool),
        "int" => t!(SnmpInt),
        "null" => py(p, SnmpNull::from_ber(data), |_| p.None()),
        "octets" => t!(SnmpOctetString),
        "oid" => t!(SnmpOid),
        "objdesc" => t!(SnmpObjectDescriptor),
        "real" => t!(SnmpReal),
        "reloid" => py(p, SnmpRelativeOid::from_ber(data), |_| p.None()),
        "sequence" => py(p, SnmpSequence::from_ber(data), |v| b(p, v.0)),
        "option" => py(p, SnmpOption::from_ber(data), |v| {
            (v.tag, b(p, v.value)).into_pyobject(p).unwrap().into_any().unbind()
        }),
        "ipaddress" => t!(SnmpIpAddress),
        "counter32" => t!(SnmpCounter32),
        "gauge32" => t!(SnmpGauge32),
        "timeticks" => t!(SnmpTimeTicks),
        "opaque" => t!(SnmpOpaque),
        "counter64" => t!(SnmpCounter64),
        "uinteger32" => t!(SnmpUInteger32),
        "value" => py(p, SnmpValue::from_ber(data), |v| obj(p, v)),
        _ => None,
    })
}

pub fn register(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(elem, m)?)?;
    Ok(())
}
