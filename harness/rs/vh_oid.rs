use crate::ber::SnmpOid;
use pyo3::prelude::*;
use pyo3::types::PyBytes;

/// contents octets of the parsed text, None when refused
#[pyfunction]
fn oid_parse(p: Python, s: &str) -> Option<Py<PyBytes>> {
    let o = SnmpOid::try_from(s).ok()?;
    Some(PyBytes::new(p, &Vec::<u8>::from(&o)).into())
}
/// text of the contents octets
#[pyfunction]
fn oid_print(d: Vec<u8>) -> Option<String> {
    let o: SnmpOid = d.into();
    String::try_from(&o).ok()
}

pub fn register(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(oid_parse, m)?)?;
    m.add_function(wrap_pyfunction!(oid_print, m)?)?;
    Ok(())
}
