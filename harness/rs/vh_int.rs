use crate::ber::{BerDecoder, BerEncoder, SnmpInt};
use crate::buf::Buffer;
use pyo3::prelude::*;
use pyo3::types::PyBytes;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// X.690 8.3: shortest two's complement content (independent of the code under test)
fn minimal(v: i64) -> Vec<u8> {
    let be = v.to_be_bytes();
    let mut s = 0;
    while s < 7 && ((be[s] == 0 && be[s + 1] < 0x80) || (be[s] == 0xff && be[s + 1] >= 0x80)) {
        s += 1;
    }
    let mut r = vec![2u8, (8 - s) as u8];
    r.extend_from_slice(&be[s..]);
    r
}

fn one(v: i64, buf: &mut Buffer) -> Result<(), String> {
    buf.reset();
    let x: SnmpInt = v.into();
    if x.push_ber(buf).is_err() {
        return Err("encoder refused".into());
    }
    if buf.data() != &minimal(v)[..] {
        return Err(format!("encoded as {:02x?}, expected {:02x?}", buf.data(), minimal(v)));
    }
    match SnmpInt::from_ber(buf.data()) {
        Ok((tail, y)) => {
            let w: i64 = y.into();
            if w != v || !tail.is_empty() {
                return Err(format!("decoded back as {} ({} octets left)", w, tail.len()));
            }
        }
        Err(_) => return Err("own encoding is rejected".into()),
    }
    Ok(())
}

fn guarded(v: i64, buf: &mut Buffer) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(|| one(v, buf))).unwrap_or_else(|_| Err("panic".into()))
}

/// every value lo..=hi; first failing one
#[pyfunction]
fn int_range(py: Python, lo: i64, hi: i64) -> Option<(i64, String)> {
    py.allow_threads(|| {
        let mut buf = Buffer::default();
        let mut v = lo;
        loop {
            if let Err(e) = guarded(v, &mut buf) {
                return Some((v, e));
            }
            if v >= hi {
                return None;
            }
            v += 1;
        }
    })
}

#[pyfunction]
fn int_random(py: Python, seed: u64, n: u64) -> Option<(i64, String)> {
    py.allow_threads(|| {
        let mut buf = Buffer::default();
        let mut s = seed | 1;
        for _ in 0..n {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            let v = (s as i64) >> (s.rotate_left(17) % 64);
            if let Err(e) = guarded(v, &mut buf) {
                return Some((v, e));
            }
        }
        None
    })
}

#[pyfunction]
fn int_enc(py: Python, v: i64) -> Option<Py<PyBytes>> {
    let mut buf = Buffer::default();
    let x: SnmpInt = v.into();
    x.push_ber(&mut buf).ok()?;
    Some(PyBytes::new(py, buf.data()).into())
}

pub fn register(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(int_range, m)?)?;
    m.add_function(wrap_pyfunction!(int_random, m)?)?;
    m.add_function(wrap_pyfunction!(int_enc, m)?)?;
    Ok(())
}
