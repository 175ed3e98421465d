use crate::ber::{BerEncoder, SnmpOid};
use crate::buf::Buffer;
use crate::snmp::get::SnmpGet;
use crate::snmp::getbulk::SnmpGetBulk;
use crate::snmp::msg::v3::{MsgData, ScopedPdu, SnmpV3Message, UsmParameters};
use crate::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage};
use pyo3::prelude::*;
use pyo3::types::PyBytes;
use std::panic::{AssertUnwindSafe, catch_unwind};

type Desc = (i64, i64, i64, i64, Vec<Py<PyBytes>>);

fn oids(p: Python, v: &[SnmpOid]) -> Vec<Py<PyBytes>> {
    v.iter().map(|o| PyBytes::new(p, &Vec::<u8>::from(o)).into()).collect()
}
/// (kind, request id, non-repeaters, max-repetitions, oids)
fn desc(p: Python, pdu: &SnmpPdu) -> Desc {
    match pdu {
        SnmpPdu::GetRequest(x) => (0, x.request_id, 0, 0, oids(p, &x.vars)),
        SnmpPdu::GetNextRequest(x) => (1, x.request_id, 0, 0, oids(p, &x.vars)),
        SnmpPdu::GetBulkRequest(x) => (5, x.request_id, x.non_repeaters, x.max_repetitions, oids(p, &x.vars)),
        SnmpPdu::GetResponse(x) => (
            2,
            x.request_id,
            x.error_status,
            x.error_index,
            x.vars.iter().map(|v| PyBytes::new(p, &Vec::<u8>::from(&v.oid)).into()).collect(),
        ),
        SnmpPdu::Report(_) => (8, 0, 0, 0, vec![]),
    }
}
fn build(kind: i64, id: i64, nr: i64, mr: i64, names: &[String]) -> Option<SnmpPdu<'static>> {
    let mut vars = Vec::new();
    for n in names {
        vars.push(SnmpOid::try_from(n.as_str()).ok()?);
    }
    Some(match kind {
        0 => SnmpPdu::GetRequest(SnmpGet { request_id: id, vars }),
        1 => SnmpPdu::GetNextRequest(SnmpGet { request_id: id, vars }),
        _ => SnmpPdu::GetBulkRequest(SnmpGetBulk {
            request_id: id,
            non_repeaters: nr,
            max_repetitions: mr,
            vars,
        }),
    })
}

type Usm = (Vec<u8>, i64, i64, Vec<u8>, Vec<u8>, Vec<u8>);

/// Encode a v1/v2c request (ver 0/1) and decode it with the library's own decoder.
/// None: refused by the encoder. (bytes, None): own decoder rejected it.
#[pyfunction]
fn comm_rt(
    p: Python,
    ver: i64,
    community: &[u8],
    kind: i64,
    id: i64,
    nr: i64,
    mr: i64,
    names: Vec<String>,
) -> Option<(Py<PyBytes>, Option<(Py<PyBytes>, Desc)>)> {
    let pdu = build(kind, id, nr, mr, &names)?;
    let mut buf = Buffer::default();
    if ver == 0 {
        SnmpV1Message { community, pdu }.push_ber(&mut buf).ok()?;
        let r = SnmpV1Message::try_from(buf.data()).ok().map(|m| (PyBytes::new(p, m.community).into(), desc(p, &m.pdu)));
        Some((PyBytes::new(p, buf.data()).into(), r))
    } else {
        SnmpV2cMessage { community, pdu }.push_ber(&mut buf).ok()?;
        let r = SnmpV2cMessage::try_from(buf.data()).ok().map(|m| (PyBytes::new(p, m.community).into(), desc(p, &m.pdu)));
        Some((PyBytes::new(p, buf.data()).into(), r))
    }
}

/// The same for v3. enc: use the bytes as encrypted data instead of the scoped pdu.
#[pyfunction]
#[allow(clippy::too_many_arguments)]
fn v3_rt(
    p: Python,
    msg_id: i64,
    flags: u8,
    usm: Usm,
    enc: Option<Vec<u8>>,
    ctx: Vec<u8>,
    kind: i64,
    id: i64,
    nr: i64,
    mr: i64,
    names: Vec<String>,
) -> Option<(Py<PyBytes>, i64, Option<(i64, u8, (Py<PyBytes>, i64, i64, Py<PyBytes>, Py<PyBytes>, Py<PyBytes>), Option<Py<PyBytes>>, Option<(Py<PyBytes>, Desc)>)>)> {
    let pdu = build(kind, id, nr, mr, &names)?;
    let data = match enc {
        Some(ref x) => MsgData::Encrypted(x),
        None => MsgData::Plaintext(ScopedPdu { engine_id: &ctx, pdu }),
    };
    let msg = SnmpV3Message {
        msg_id,
        flag_auth: flags & 1 != 0,
        flag_priv: flags & 2 != 0,
        flag_report: flags & 4 != 0,
        usm: UsmParameters {
            engine_id: &usm.0,
            engine_boots: usm.1,
            engine_time: usm.2,
            user_name: &usm.3,
            auth_params: &usm.4,
            privacy_params: &usm.5,
        },
        data,
    };
    let mut buf = Buffer::default();
    msg.push_ber(&mut buf).ok()?;
    let mark = if usm.4.is_empty() { -1 } else { buf.get_bookmark() as i64 };
    let b = |x: &[u8]| -> Py<PyBytes> { PyBytes::new(p, x).into() };
    let r = SnmpV3Message::try_from(buf.data()).ok().map(|m| {
        let f = m.flag_auth as u8 | (m.flag_priv as u8) << 1 | (m.flag_report as u8) << 2;
        let u = (
            b(m.usm.engine_id),
            m.usm.engine_boots,
            m.usm.engine_time,
            b(m.usm.user_name),
            b(m.usm.auth_params),
            b(m.usm.privacy_params),
        );
        match m.data {
            MsgData::Encrypted(x) => (m.msg_id, f, u, Some(b(x)), None),
            MsgData::Plaintext(ref s) => (m.msg_id, f, u, None, Some((b(s.engine_id), desc(p, &s.pdu)))),
        }
    });
    Some((b(buf.data()), mark, r))
}

fn decode(which: u8, d: &[u8]) -> Result<bool, ()> {
    catch_unwind(AssertUnwindSafe(|| match which {
        0 => SnmpV1Message::try_from(d).is_ok(),
        1 => SnmpV2cMessage::try_from(d).is_ok(),
        2 => SnmpV3Message::try_from(d).is_ok(),
        _ => ScopedPdu::try_from(d).is_ok(),
    }))
    .map_err(|_| ())
}

/// 0 refused, 1 accepted, 2 panic
#[pyfunction]
fn msg_decode(which: u8, d: &[u8]) -> u8 {
    match decode(which, d) {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(()) => 2,
    }
}

/// Mutate the templates at random, decode the result with all decoders.
/// (cases, accepted, failing input)
#[pyfunction]
fn msg_fuzz(py: Python, seed: u64, n: u64, templates: Vec<Vec<u8>>) -> (u64, u64, Option<(u8, Vec<u8>)>) {
    py.allow_threads(|| {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut rnd = move || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        let special = [0u8, 1, 2, 3, 4, 5, 6, 9, 0xd, 0x1f, 0x30, 0x3f, 0x40, 0x42, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0x89, 0x90, 0x9f, 0xa2, 0xa8, 0xbf, 0xc3, 0xfe, 0xff];
        let mut accepted = 0;
        for k in 0..n {
            let which = (rnd() % 4) as u8;
            let t = &templates[(rnd() % templates.len() as u64) as usize];
            let mut d = t.clone();
            for _ in 0..1 + rnd() % 4 {
                if d.is_empty() {
                    break;
                }
                let i = (rnd() % d.len() as u64) as usize;
                match rnd() % 8 {
                    0 => d[i] = rnd() as u8,
                    1 | 2 => d[i] = special[(rnd() % special.len() as u64) as usize],
                    3 => d[i] = d[i].wrapping_add(if rnd() & 1 == 0 { 1 } else { 255 }),
                    4 => {
                        d.remove(i);
                    }
                    5 => d.insert(i, special[(rnd() % special.len() as u64) as usize]),
                    6 => d.truncate(i),
                    _ => {
                        let j = (i + 1 + (rnd() % 8) as usize).min(d.len());
                        let c: Vec<u8> = d[i..j].to_vec();
                        let at = (rnd() % (d.len() as u64 + 1)) as usize;
                        for (o, x) in c.into_iter().enumerate() {
                            d.insert(at + o, x);
                        }
                    }
                }
            }
            match decode(which, &d) {
                Ok(true) => accepted += 1,
                Ok(false) => {}
                Err(()) => return (k, accepted, Some((which, d))),
            }
        }
        (n, accepted, None)
    })
}

pub fn register(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(comm_rt, m)?)?;
    m.add_function(wrap_pyfunction!(v3_rt, m)?)?;
    m.add_function(wrap_pyfunction!(msg_decode, m)?)?;
    m.add_function(wrap_pyfunction!(msg_fuzz, m)?)?;
    Ok(())
}
