use crate::buf::Buffer;
use pyo3::prelude::*;
use pyo3::types::PyBytes;

/// Run a script of buffer operations on one Buffer: (op, number, bytes).
/// Returns after every operation (accepted, len, free, contents, bookmark offset or -1).
#[pyfunction]
fn buf_run(py: Python, ops: Vec<(String, usize, Vec<u8>)>) -> Vec<(bool, usize, usize, Py<PyBytes>, i64)> {
    let mut b = Buffer::default();
    let mut out = Vec::new();
    let mut marked = false;
    for (op, n, data) in ops {
        let ok = match op.as_str() {
            "push" => b.push(&data).is_ok(),
            "push_u8" => b.push_u8(n as u8).is_ok(),
            "push_tag_len" => b.push_tag_len(data[0], n).is_ok(),
            "push_tagged" => b.push_tagged(n as u8, &data).is_ok(),
            "skip" => {
                b.skip(n);
                true
            }
            "reset" => {
                b.reset();
                marked = false;
                true
            }
            "bookmark" => {
                b.set_bookmark(n);
                marked = true;
                true
            }
            "data_mut" => {
                let d = b.data_mut();
                for (i, x) in d.iter_mut().enumerate() {
                    *x ^= (n as u8).wrapping_add(i as u8);
                }
                true
            }
            "ensure" => b.ensure_size(n).is_ok(),
            "full" => b.is_full(),
            _ => false,
        };
        let mark = if marked { b.get_bookmark() as i64 } else { -1 };
        out.push((ok, b.len(), b.free(), PyBytes::new(py, b.data()).into(), mark));
    }
    out
}

pub fn register(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(buf_run, m)?)?;
    Ok(())
}
