// The listed properties as lemmas over the contracts. `sends`, `takes`, `answered`, `walk_step`, ... are what the functions of
// /repo/src are proved to do (contracts/*.vc); a lemma says what follows for the property, against X.690, RFC 3414, RFC 3416.
use crate::vshim::*;
use crate::ber::*;
use crate::ber::objectid::*;
use crate::snmp::get::*;
use crate::snmp::value::*;
use crate::snmp::getresponse::*;
use crate::snmp::pdu::*;
use crate::snmp::op::*;
use crate::snmp::op::getiter::*;
use crate::snmp::op::getnext::*;
use crate::snmp::op::getbulk::*;
use crate::snmp::op::get::*;
use crate::snmp::op::getmany::*;
use crate::snmp::op::refresh::*;
use crate::snmp::msg::v1::*;
use crate::snmp::msg::v3::scoped::*;
use crate::snmp::msg::v3::usm::*;
use crate::snmp::msg::v3::msg::*;
use crate::auth::*;
use crate::privacy::*;
use crate::socket::snmpsocket::*;
use crate::socket::v3::{zeros12, lemma_auth_off, key_of, keyed, keys_ok};
use crate::buf::buffer::MAX_SIZE;

// ---------------------------------------------------------------- C03, C15: what is on the wire is the request
/// an independent reader of a community message gets the version, the community, and the PDU type, request-id and names asked for
pub proof fn c03_community(c0: CoreV, pdu: SnmpPdu, d: Seq<u8>, c1: CoreV)
    requires 0 <= c0.ver <= 1, pdu_req(pdu) is Some, sends(c0, pdu, d, c1),
    ensures cmsg_at(d, c0.ver) matches Some((m, e)) && m == c0.community && must_pdu(e) && forall|p: SnmpPdu| #[trigger] pdu_is(e, p) ==> pdu_req(p) == pdu_req(pdu),
{
    lemma_cmsg_roundtrip(c0.ver as u8, c0.community, pdu);
}
/// the session's numbers are in the range of the wire
pub open spec fn sane(c: CoreV) -> bool {
    c.ver == 3 && i64r(c.boots) && i64r(c.time) && 0 <= c.aalg <= 2 && 0 <= c.palg <= 2 && (c.palg != 0 ==> c.salt < salt_mod(c.palg))
}
/// the fields of a v3 message before it is signed, and what signing changes
pub proof fn lemma_signed(c: CoreV, mid: int, pdu: SnmpPdu, pp: Seq<u8>, dp: Seq<u8>)
    requires sane(c), is_mid(mid), plain_v3(c, mid, pdu, pp, dp).len() <= MAX_SIZE,
    ensures
        ({
            let m = plain_v3(c, mid, pdu, pp, dp);
            let d = signed(c, m);
            let mac = if c.aalg == 0 { Seq::<u8>::empty() } else { mac96(c.aalg, c.akey, m) };
            &&& v3_at(m) == Some(V3V { id: mid, flags: flags_of(c.aalg != 0, c.palg != 0, wants_report(pdu)),
                    usm: UsmV { engine: c.engine, boots: c.boots, time: c.time, user: c.user, auth: no_mac(c.aalg), privp: pp }, data: dp })
            &&& v3_at(d) == Some(V3V { id: mid, flags: flags_of(c.aalg != 0, c.palg != 0, wants_report(pdu)),
                    usm: UsmV { engine: c.engine, boots: c.boots, time: c.time, user: c.user, auth: mac, privp: pp }, data: dp })
            &&& d.len() == m.len()
            &&& (c.aalg != 0 ==> auth_off(d) == auth_off(m) && splice(d, auth_off(d), zeros12()) == m)
        }),
{
    hide(tlv); hide(v3_at); hide(auth_off); hide(enc_v3); hide(mac96);
    let m = plain_v3(c, mid, pdu, pp, dp);
    let fl = flags_of(c.aalg != 0, c.palg != 0, wants_report(pdu));
    let u0 = UsmV { engine: c.engine, boots: c.boots, time: c.time, user: c.user, auth: no_mac(c.aalg), privp: pp };
    lemma_v3_roundtrip(mid, fl, u0, dp);
    if c.aalg != 0 {
        let mac = mac96(c.aalg, c.akey, m);
        assert(mac.len() == 12) by { reveal(mac96); broadcast use axiom_hash_len; }
        let u1 = UsmV { auth: mac, ..u0 };
        lemma_splice_enc(mid, fl, u0, u1, dp);
        lemma_v3_roundtrip(mid, fl, u1, dp);
        lemma_auth_off(m);
        assert(signed(c, m) == enc_v3(mid, fl, u1, dp));
        lemma_os_head(u0.auth); lemma_os_head(u1.auth);
        assert(usm_mark(u0) == usm_mark(u1));
        assert(auth_off(signed(c, m)) == auth_off(m));
        let o = auth_off(m);
        let x = splice(signed(c, m), o, zeros12());
        assert(m.subrange(o, o + 12) == zeros12());
        assert forall|i: int| 0 <= i < m.len() implies x[i] == m[i] by { if o <= i < o + 12 { assert(m.subrange(o, o + 12)[i - o] == m[i]); } }
        assert(x =~= m);
    }
}
pub open spec fn join3(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a + x + b }
pub open spec fn head(t: u8, n: nat) -> Seq<u8> { seq![t] + enc_len(n) }
pub proof fn lemma_wrap(t: u8, a: Seq<u8>, x: Seq<u8>, b: Seq<u8>)
    ensures tlv(t, join3(a, x, b)) == join3(head(t, a.len() + x.len() + b.len()) + a, x, b),
{ assert(tlv(t, join3(a, x, b)) =~= join3(head(t, a.len() + x.len() + b.len()) + a, x, b)); }
pub proof fn lemma_before(g: Seq<u8>, a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    ensures g + (join3(a, x, b) + d) == join3(g + a, x, b + d), join3(a, x, b).len() == a.len() + x.len() + b.len(),
{ assert(g + (join3(a, x, b) + d) =~= join3(g + a, x, b + d)); }
pub proof fn lemma_splice3(a: Seq<u8>, x: Seq<u8>, y: Seq<u8>, b: Seq<u8>)
    requires x.len() == y.len(),
    ensures splice(join3(a, x, b), a.len() as int, y) == join3(a, y, b),
{ assert(splice(join3(a, x, b), a.len() as int, y) =~= join3(a, y, b)); }
/// the octets before and after the authentication parameters do not depend on these
pub open spec fn pre_mac(mid: int, fl: u8, u: UsmV, dp: Seq<u8>) -> Seq<u8> {
    let pre = tlv(4, u.engine) + tlv(2, int_content(u.boots)) + tlv(2, int_content(u.time)) + tlv(4, u.user) + seq![4u8, 12];
    let post = tlv(4, u.privp);
    let n = pre.len() + 12 + post.len();
    let h1 = head(0x30, n) + pre;
    let h2 = head(4, h1.len() + 12 + post.len()) + h1;
    let h3 = seq![2u8, 1, 3] + tlv(0x30, enc_glob(mid, fl)) + h2;
    head(0x30, h3.len() + 12 + (post + dp).len()) + h3
}
pub proof fn lemma_mac_place(mid: int, fl: u8, u: UsmV, dp: Seq<u8>)
    requires u.auth.len() == 12,
    ensures enc_v3(mid, fl, u, dp) == join3(pre_mac(mid, fl, u, dp), u.auth, tlv(4, u.privp) + dp),
{
    hide(tlv); hide(enc_len); hide(int_content); hide(enc_glob); hide(head);
    lemma_os_head(u.auth);
    let pre = tlv(4, u.engine) + tlv(2, int_content(u.boots)) + tlv(2, int_content(u.time)) + tlv(4, u.user) + seq![4u8, 12];
    let post = tlv(4, u.privp);
    assert(tlv(4, u.auth) == seq![4u8, 12] + u.auth);
    assert(usm_body(u) =~= join3(pre, u.auth, post));
    lemma_wrap(0x30, pre, u.auth, post);
    let n = pre.len() + 12 + post.len();
    let h1 = head(0x30, n) + pre;
    assert(enc_usm(u) == join3(h1, u.auth, post));
    lemma_wrap(4, h1, u.auth, post);
    let h2 = head(4, h1.len() + 12 + post.len()) + h1;
    let g = seq![2u8, 1, 3] + tlv(0x30, enc_glob(mid, fl));
    lemma_before(g, h2, u.auth, post, dp);
    assert(v3_body(mid, fl, u, dp) =~= g + (tlv(4, enc_usm(u)) + dp));
    lemma_wrap(0x30, g + h2, u.auth, post + dp);
}
/// replacing the 12 octets of the authentication parameters in place is encoding with the other 12 octets
pub proof fn lemma_splice_enc(mid: int, fl: u8, u0: UsmV, u1: UsmV, dp: Seq<u8>)
    requires u0.auth.len() == 12, u1 == (UsmV { auth: u1.auth, ..u0 }), u1.auth.len() == 12, enc_v3(mid, fl, u0, dp).len() < 65536, i64r(mid), i64r(u0.boots), i64r(u0.time),
    ensures enc_v3(mid, fl, u1, dp) == splice(enc_v3(mid, fl, u0, dp), auth_off(enc_v3(mid, fl, u0, dp)), u1.auth),
        enc_v3(mid, fl, u1, dp).len() == enc_v3(mid, fl, u0, dp).len(),
{
    hide(tlv); hide(enc_len); hide(int_content); hide(auth_off); hide(v3_at); hide(enc_v3); hide(pre_mac);
    lemma_v3_roundtrip(mid, fl, u0, dp);
    lemma_mac_place(mid, fl, u0, dp);
    lemma_mac_place(mid, fl, u1, dp);
    let (h, t) = (pre_mac(mid, fl, u0, dp), tlv(4, u0.privp) + dp);
    assert(pre_mac(mid, fl, u1, dp) == h) by { reveal(pre_mac); }
    lemma_os_head(u0.auth);
    assert(enc_v3(mid, fl, u0, dp).len() - (usm_mark(u0) + dp.len()) == h.len());
    lemma_splice3(h, u0.auth, u1.auth, t);
}
/// C03, C09, C11, C13, C14: the fields of every v3 message that is sent
pub proof fn c03_v3(c0: CoreV, pdu: SnmpPdu, d: Seq<u8>, c1: CoreV)
    requires sane(c0), pdu_req(pdu) is Some, sends(c0, pdu, d, c1),
    ensures
        v3_at(d) matches Some(v)
            // C03: the session's user, a message id, the flags of its security level; C13: engine id, boots and time as last learnt
            && v.id == c1.mid && is_mid(v.id) && v.usm.user == c0.user && v.usm.engine == c0.engine && v.usm.boots == c0.boots && v.usm.time == c0.time
            && v.flags == flags_of(c0.aalg != 0, c0.palg != 0, wants_report(pdu))
            // C09: the MAC over the message with zeros in its place, or nothing
            && (c0.aalg == 0 ==> v.usm.auth.len() == 0 && v.flags % 2 == 0)
            && (c0.aalg != 0 ==> v.flags % 2 == 1 && mac_ok(c0, d, v))
            // C14: privacy parameters from the counter
            && (c0.palg == 0 ==> v.usm.privp.len() == 0 && (v.flags / 2) % 2 == 0)
            && (c0.palg != 0 ==> v.usm.privp == salt_octets(c0.palg, c0.boots as u32, c0.salt) && v.usm.privp.len() == 8 && (v.flags / 2) % 2 == 1)
            // C11: what is in msgData
            && data_part(c0, pdu, v.usm.privp, v.data),
{
    hide(v3_at); hide(auth_off); hide(data_part); hide(mac96);
    let (pp, dp) = choose|pp: Seq<u8>, dp: Seq<u8>| #[trigger] data_part(c0, pdu, pp, dp) && d == signed(c0, plain_v3(c0, c1.mid, pdu, pp, dp));
    let m = plain_v3(c0, c1.mid, pdu, pp, dp);
    assert(m.len() <= MAX_SIZE) by {
        if m.len() != d.len() { assert(c0.aalg != 0); }
    }
    lemma_signed(c0, c1.mid, pdu, pp, dp);
    assert((c0.palg == 0 ==> pp.len() == 0) && (c0.palg != 0 ==> pp == salt_octets(c0.palg, c0.boots as u32, c0.salt))) by { reveal(data_part); }
    lemma_be_len();
    let (a, b, r) = (c0.aalg != 0, c0.palg != 0, wants_report(pdu));
    let f = (if a { 1int } else { 0 }) + (if b { 2int } else { 0 }) + (if r { 4int } else { 0 });
    assert(flags_of(a, b, r) as int == f);
    let v = v3_at(d).unwrap();
    assert(data_part(c0, pdu, v.usm.privp, v.data));
    assert(v.flags % 2 == (if a { 1int } else { 0 }) && (v.flags / 2) % 2 == (if b { 1int } else { 0 }));
    if c0.aalg != 0 { assert(v.usm.auth == mac96(c0.aalg, c0.akey, m)); assert(v.usm.auth.len() == 12) by { reveal(mac96); broadcast use axiom_hash_len; } assert(zeros12() =~= Seq::new(12, |i: int| 0u8)); assert(mac_ok(c0, d, v)); }
    if c0.palg != 0 { assert(v.usm.privp.len() == 8); }
}
// ---------------------------------------------------------------- C11: what is encrypted
/// an independent reader of `m` sees the scoped PDU of the request
pub open spec fn reads(m: Seq<u8>, engine: Seq<u8>, pdu: SnmpPdu) -> bool {
    scoped_at(m) matches Some((n, e)) && n == engine && must_pdu(e) && forall|p: SnmpPdu| #[trigger] pdu_is(e, p) ==> pdu_req(p) == pdu_req(pdu)
}
pub proof fn lemma_reads(engine: Seq<u8>, pdu: SnmpPdu, r: Seq<u8>)
    requires enc_scoped(engine, pdu) matches Some(e) && e.len() < 65536,
    ensures reads(enc_scoped(engine, pdu).unwrap() + r, engine, pdu), after(enc_scoped(engine, pdu).unwrap() + r) == r,
{
    hide(tlv); hide(pdu_is); hide(must_pdu); hide(header); hide(content); hide(enc_req); hide(after);
    let p = enc_pdu(pdu).unwrap(); let e = tlv(4, engine); let em = Seq::<u8>::empty(); let n = tlv(4, em); let b = e + (n + p);
    assert(tlv(0x30, b).len() > b.len() && e.len() > engine.len() && n.len() == 2) by { reveal(tlv); }
    lemma_el(0x30, b, r);
    lemma_el(4, engine, n + p);
    lemma_el(4, em, p);
    lemma_pdu_roundtrip(pdu, em);
    lemma_empty_r(p);
}
/// msgData of a message that is sent: the scoped PDU, or an OCTET STRING that decrypts with the salt, boots and time in the message to
/// exactly the scoped PDU and less than one block of padding
pub proof fn c11_sent(c0: CoreV, pdu: SnmpPdu, d: Seq<u8>, c1: CoreV)
    requires sane(c0), pdu_req(pdu) is Some, sends(c0, pdu, d, c1),
    ensures
        v3_at(d) matches Some(v)
            && (c0.palg == 0 ==> v.data == enc_scoped(c0.engine, pdu).unwrap() && reads(v.data, c0.engine, pdu))
            && (c0.palg != 0 ==> (oct_at(v.data) matches Some(ct) && after(v.data).len() == 0 && ({
                let m = priv_dec(c0.palg, c0.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, ct);
                &&& ct.len() % blk(c0.palg) == 0 && ct.len() < enc_scoped(c0.engine, pdu).unwrap().len() + blk(c0.palg)
                &&& exists|pad: Seq<u8>| #[trigger] pads(c0.palg, enc_scoped(c0.engine, pdu).unwrap(), pad) && m == enc_scoped(c0.engine, pdu).unwrap() + pad
                &&& reads(m, c0.engine, pdu)
            }))),
{
    hide(v3_at); hide(reads); hide(is_cipher_of); hide(priv_dec); hide(enc_scoped); hide(sends); hide(tlv); hide(salt_octets); hide(flags_of); hide(mac_ok); hide(oct_at); hide(after); hide(enc_v3);
    c03_v3(c0, pdu, d, c1);
    let v = v3_at(d).unwrap();
    let e = enc_scoped(c0.engine, pdu).unwrap();
    assert(v.data.len() <= d.len() && d.len() <= MAX_SIZE) by { reveal(v3_at); reveal(sends); reveal(after); lemma_data_len(d); }
    if c0.palg == 0 {
        lemma_reads(c0.engine, pdu, Seq::empty());
        lemma_empty_r(e);
    } else {
        let ct = choose|ct: Seq<u8>| v.data == #[trigger] tlv(4, ct) && is_cipher_of(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, v.usm.privp, e, ct);
        lemma_empty_r(v.data);
        lemma_oct_el(ct, Seq::empty());
        lemma_priv_roundtrip(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, v.usm.privp, e, ct);
        let pad = choose|pad: Seq<u8>| #[trigger] pads(c0.palg, e, pad) && priv_dec(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, v.usm.privp, ct) == e + pad;
        assert(ct.len() == e.len() + pad.len()) by {
            reveal(is_cipher_of); reveal(priv_dec);
            let pad2 = choose|pad2: Seq<u8>| #[trigger] pads(c0.palg, e, pad2) && ct == priv_enc(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, v.usm.privp, e + pad2);
            broadcast use axiom_enc_len, axiom_dec_enc;
        }
        assert(tlv(4, ct).len() > ct.len()) by { reveal(tlv); }
        lemma_reads(c0.engine, pdu, pad);
    }
}
pub proof fn lemma_data_len(d: Seq<u8>)
    requires v3_at(d) is Some,
    ensures v3_at(d).unwrap().data.len() <= d.len(),
{
    hide(header); hide(content); hide(after); hide(int_at); hide(usm_at); hide(oct_at);
    let e = content(d); let e1 = after(e); let e2 = after(e1);
    assert(header(e) is Some && header(e1) is Some && header(e2) is Some) by { reveal(int_at); reveal(oct_at); }
    lemma_after_shorter(d); lemma_after_shorter(e); lemma_after_shorter(e1); lemma_after_shorter(e2);
}
/// what the agent encrypted under the session's key, with the boots, time and salt in its message, is what the session reads
pub proof fn c11_received(c: CoreV, v: V3V, m: Seq<u8>)
    requires 1 <= c.palg <= 2, v.usm.privp.len() == 8, m.len() <= MAX_SIZE, c.palg == 1 ==> m.len() % 8 == 0,
        v.data == tlv(4, priv_enc(c.palg, c.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, m)),
    ensures opened(c, v) == Some(m),
{
    broadcast use axiom_enc_len, axiom_dec_enc;
    let ct = priv_enc(c.palg, c.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, m);
    lemma_empty_r(v.data);
    assert(cipher_blk(1) == 8 && cipher_blk(2) == 16) by { lemma_ciphers(); }
    assert(ct.len() == m.len());
    lemma_oct_el(ct, Seq::empty());
    assert(v.data[0] == 4);
}
// ---------------------------------------------------------------- C04, C10: what is delivered
/// a delivered datagram of v1 or v2c is of this version, community and request
pub proof fn c04_community(c0: CoreV, d: Seq<u8>, p: SnmpPdu, c1: CoreV)
    requires c0.ver == 0 || c0.ver == 1, takes(c0, d, p, c1),
    ensures c1 == c0, cmsg_at(d, c0.ver) matches Some((m, e)) && m == c0.community && pdu_is(e, p) && pdu_req_id(p) == Some(c0.rid),
{
    let e = reply_at(c0, d).unwrap();
    lemma_rid(e, p);
}
/// a delivered datagram of v3 is of this user, engine and message; it is a report or of this request and secure
pub proof fn c04_c10_v3(c0: CoreV, d: Seq<u8>, p: SnmpPdu, c1: CoreV)
    requires c0.ver == 3, takes(c0, d, p, c1),
    ensures
        v3_at(d) matches Some(v) && v.usm.user == c0.user && v.id == c0.mid && (c0.engine.len() > 0 ==> v.usm.engine == c0.engine)
            && (p is Report || (pdu_req_id(p) == Some(c0.rid)
                // C10
                && (c0.aalg != 0 ==> v.flags % 2 == 1 && v.usm.auth.len() == 12 && v.usm.auth == mac96(c0.aalg, c0.akey, splice(d, auth_off(d), zeros12())))
                && (c0.palg != 0 ==> (oct_at(v.data) matches Some(ct) && opened(c0, v) == Some(priv_dec(c0.palg, c0.pkey, v.usm.boots as u32, v.usm.time as u32, v.usm.privp, ct))))))
            // C13
            && c1 == learnt(c0, v.usm),
{
    hide(v3_at); hide(auth_off); hide(mac96); hide(scoped_at);
    let e = reply_at(c0, d).unwrap();
    lemma_rid(e, p);
    assert(zeros12() =~= Seq::new(12, |i: int| 0u8));
}
/// the reply that was asked for is not passed over, whatever came before
pub proof fn c04_not_skipped(c: CoreV, ds: Seq<Seq<u8>>, i: int)
    requires 0 <= i < ds.len(), skipped(c, ds),
    ensures !wants(c, ds[i]),
{}
//@part
// ---------------------------------------------------------------- C13: time and engine in the next message
pub proof fn lemma_v3_range(d: Seq<u8>)
    requires v3_at(d) is Some,
    ensures i64r(v3_at(d).unwrap().usm.boots), i64r(v3_at(d).unwrap().usm.time), i64r(v3_at(d).unwrap().id),
{
    hide(header); hide(content); hide(after); hide(twos);
    lemma_twos_range();
}
pub proof fn lemma_twos_range()
    ensures forall|s: Seq<u8>| s.len() <= 8 ==> i64r(#[trigger] twos(s)),
{
    assert forall|s: Seq<u8>| s.len() <= 8 implies i64r(#[trigger] twos(s)) by {
        lemma_twos_spre(s);
        lemma_spre_bound(s, s.len() as int);
        lemma_pow256_values();
    }
}
/// after an accepted message from the agent, whatever is received and skipped, the next request carries that message's boots and time,
/// and the engine id the session has, or has just learnt
pub proof fn c13(c0: CoreV, d0: Seq<u8>, p: SnmpPdu, c1: CoreV, rid: int, pdu: SnmpPdu, d: Seq<u8>, c2: CoreV)
    requires sane(c0), takes(c0, d0, p, c1), pdu_req(pdu) is Some, sends(CoreV { rid, ..c1 }, pdu, d, c2),
    ensures
        v3_at(d) matches Some(v) && v3_at(d0) matches Some(v0) && v.usm.boots == v0.usm.boots && v.usm.time == v0.usm.time
            && v.usm.engine == (if c0.engine.len() == 0 { v0.usm.engine } else { c0.engine })
            && (c0.engine.len() > 0 || v0.usm.engine.len() > 0 ==> v.usm.engine == v0.usm.engine),
{
    hide(v3_at); hide(auth_off); hide(mac96); hide(scoped_at); hide(sends); hide(flags_of); hide(data_part); hide(mac_ok); hide(salt_octets);
    c04_c10_v3(c0, d0, p, c1);
    lemma_v3_range(d0);
    c03_v3(CoreV { rid, ..c1 }, pdu, d, c2);
}
// ---------------------------------------------------------------- C14: salts
/// the i-th attempt to send in a session: it changes the session as `advanced` says, and between attempts replies change other things
pub open spec fn history(b: Seq<CoreV>, a: Seq<CoreV>) -> bool {
    b.len() == a.len() && forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> sane(b[i]) && b[i].palg == b[0].palg && b[i].palg != 0 && advanced(b[i], a[i])
        && (i + 1 < b.len() ==> b[i + 1].salt == a[i].salt)
}
pub proof fn lemma_history(b: Seq<CoreV>, a: Seq<CoreV>, i: int)
    requires history(b, a), 0 <= i < b.len(),
    ensures b[i].salt == salt_after(b[0].palg, b[0].salt, i as nat),
    decreases i,
{
    let m = salt_mod(b[0].palg);
    let (x, y, z) = (b[0], b[i], b[i - 1]);
    if i == 0 { vstd::arithmetic::div_mod::lemma_small_mod(x.salt, m); }
    else {
        lemma_history(b, a, i - 1);
        let s = (x.salt + (i - 1)) as int;
        vstd::arithmetic::div_mod::lemma_add_mod_noop(s, 1, m as int);
        vstd::arithmetic::div_mod::lemma_small_mod(1, m);
    }
}
/// two messages sent by a session carry different privacy parameters
pub proof fn c14_differ(b: Seq<CoreV>, a: Seq<CoreV>, i: int, j: int, p1: SnmpPdu, d1: Seq<u8>, p2: SnmpPdu, d2: Seq<u8>)
    requires
        history(b, a), 0 <= i < j < b.len(), j - i < 0x1_0000_0000,
        pdu_req(p1) is Some, pdu_req(p2) is Some, sends(b[i], p1, d1, a[i]), sends(b[j], p2, d2, a[j]),
    ensures
        v3_at(d1) matches Some(v1) && v3_at(d2) matches Some(v2) && v1.usm.privp.len() == 8 && v2.usm.privp.len() == 8 && v1.usm.privp != v2.usm.privp
            && (v1.flags / 2) % 2 == 1 && (v2.flags / 2) % 2 == 1,
{
    hide(v3_at); hide(sends); hide(advanced); hide(flags_of); hide(data_part); hide(mac_ok); hide(salt_octets); hide(salt_after); hide(sane);
    let (x, y, x0) = (b[i], b[j], b[0]);
    lemma_history(b, a, i); lemma_history(b, a, j);
    c03_v3(x, p1, d1, a[i]);
    c03_v3(y, p2, d2, a[j]);
    assert(1 <= x0.palg <= 2 && x0.salt < salt_mod(x0.palg)) by { reveal(sane); }
    lemma_salts_differ(x0.palg, x.boots as u32, y.boots as u32, x0.salt, i as nat, (j - i) as nat);
    assert(salt_after(x0.palg, x0.salt, i as nat + (j - i) as nat) == salt_after(x0.palg, x0.salt, j as nat));
}
/// outside the ciphertext and the MAC over the whole, no octet of a message depends on the scoped PDU: two requests with ciphertexts of
/// the same length give the same octets up to the ciphertext
pub proof fn c14_clear(mid: int, fl: u8, u: UsmV, ct1: Seq<u8>, ct2: Seq<u8>)
    requires ct1.len() == ct2.len(),
    ensures
        ({
            let (m1, m2) = (enc_v3(mid, fl, u, tlv(4, ct1)), enc_v3(mid, fl, u, tlv(4, ct2)));
            let n = m1.len() - ct1.len();
            m1.len() == m2.len() && n >= 0 && m1 == m1.subrange(0, n) + ct1 && m2 == m1.subrange(0, n) + ct2
        }),
{
    hide(enc_glob); hide(enc_usm);
    let f = seq![2u8, 1, 3] + (tlv(0x30, enc_glob(mid, fl)) + tlv(4, enc_usm(u))) + (seq![4u8] + enc_len(ct1.len()));
    assert(v3_body(mid, fl, u, tlv(4, ct1)) =~= f + ct1);
    assert(v3_body(mid, fl, u, tlv(4, ct2)) =~= f + ct2);
    let h = seq![0x30u8] + enc_len(f.len() + ct1.len()) + f;
    assert(enc_v3(mid, fl, u, tlv(4, ct1)) =~= h + ct1);
    assert(enc_v3(mid, fl, u, tlv(4, ct2)) =~= h + ct2);
    assert((h + ct1).subrange(0, h.len() as int) =~= h);
}
// ---------------------------------------------------------------- C16: extents
/// an element is read from its own octets, whatever follows
pub proof fn lemma_hightag_ext(d: Seq<u8>, s: Seq<u8>, p: nat, acc: nat)
    ensures hightag(d, p, acc) is Some ==> hightag(d + s, p, acc) == hightag(d, p, acc),
    decreases d.len() - p,
{
    if p < d.len() {
        assert((d + s)[p as int] == d[p as int]);
        lemma_hightag_ext(d, s, p + 1, acc * 128 + (d[p as int] % 128) as nat);
    }
}
pub proof fn c16_extent(d: Seq<u8>, s: Seq<u8>)
    requires header(d) is Some,
    ensures header(d + s) == header(d), content(d + s) == content(d), after(d + s) == after(d) + s,
        content(d).len() + after(d).len() < d.len(),
{
    lemma_hightag_ext(d, s, 1, 0);
    lemma_hightag_mono(d, 1, 0);
    assert((d + s)[0] == d[0]);
    let (t, p) = ident(d).unwrap();
    assert((d + s)[p as int] == d[p as int]);
    if d[p as int] > 128 {
        let k = d[p as int] - 128;
        assert((d + s).subrange(p as int + 1, p as int + 1 + k) =~= d.subrange(p as int + 1, p as int + 1 + k));
    }
    lemma_after_shorter(d);
    assert(content(d + s) =~= content(d));
    assert(after(d + s) =~= after(d) + s);
}
/// octets after a message make it no message
pub proof fn c16_trailing(d: Seq<u8>, s: Seq<u8>, ver: int)
    requires s.len() > 0,
    ensures cmsg_at(d, ver) is Some ==> cmsg_at(d + s, ver) is None, v3_at(d) is Some ==> v3_at(d + s) is None,
{
    hide(header); hide(content); hide(after); hide(int_at); hide(usm_at); hide(oct_at);
    if header(d) is Some { c16_extent(d, s); }
}
// ---------------------------------------------------------------- C06: order
pub proof fn lemma_after_irreflexive(a: Seq<u8>)
    ensures !oid_after(a, a),
    decreases a.len(),
{
    if a.len() > 0 && subid(a) is Some {
        lemma_hightag_mono(a, 0, 0);
        lemma_after_irreflexive(a.subrange(subid(a).unwrap().1 as int, a.len() as int));
    }
}
pub proof fn lemma_after_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires oid_after(a, b), oid_after(b, c),
    ensures oid_after(a, c),
    decreases c.len(),
{
    if c.len() > 0 && b.len() > 0 && a.len() > 0 {
        lemma_hightag_mono(a, 0, 0); lemma_hightag_mono(b, 0, 0); lemma_hightag_mono(c, 0, 0);
        let ((x, i), (y, j), (z, k)) = (subid(a).unwrap(), subid(b).unwrap(), subid(c).unwrap());
        if x == y && y == z {
            lemma_after_transitive(a.subrange(i as int, a.len() as int), b.subrange(j as int, b.len() as int), c.subrange(k as int, c.len() as int));
        }
    }
}
/// names accepted by a walk: each in the subtree and after the one before
pub open spec fn chain(start: Seq<u8>, cur: Seq<u8>, os: Seq<Seq<u8>>) -> bool {
    forall|i: int| 0 <= i < os.len() ==> walk_step(start, if i == 0 { cur } else { os[i - 1] }, #[trigger] os[i])
}
pub open spec fn last_of(cur: Seq<u8>, os: Seq<Seq<u8>>) -> Seq<u8> { if os.len() == 0 { cur } else { os.last() } }
pub proof fn lemma_chain_join(start: Seq<u8>, cur: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires chain(start, cur, a), chain(start, last_of(cur, a), b),
    ensures chain(start, cur, a + b), last_of(cur, a + b) == last_of(last_of(cur, a), b),
{
    hide(walk_step);
    assert forall|i: int| 0 <= i < (a + b).len() implies walk_step(start, if i == 0 { cur } else { (a + b)[i - 1] }, #[trigger] (a + b)[i]) by {
        if i < a.len() { let x = a[i]; } else { let x = b[i - a.len()]; }
    }
    if b.len() > 0 { assert((a + b).last() == b.last()); } else { assert(a + b =~= a); }
}
/// C06: the names are in the subtree and strictly increasing, so none comes twice
#[verifier::spinoff_prover]
pub proof fn c06_increasing(start: Seq<u8>, cur: Seq<u8>, os: Seq<Seq<u8>>, i: int, j: int)
    requires chain(start, cur, os), 0 <= i < j < os.len(),
    ensures start.is_prefix_of(os[i]), oid_after(os[i], cur), oid_after(os[j], os[i]), os[i] != os[j],
        arcs(os[i]) is Some && arcs(os[j]) is Some ==> arcs(os[i]) != arcs(os[j]),
    decreases j,
{
    hide(oid_after);
    let (x, y) = (os[i], os[j]);
    let p = os[j - 1];
    if i + 1 < j { c06_increasing(start, cur, os, i, j - 1); lemma_after_transitive(y, p, x); }
    if i > 0 { c06_first(start, cur, os, i); }
    lemma_after_irreflexive(x);
    if arcs(x) is Some && arcs(x) == arcs(y) { lemma_arcs_after(y, x); }
}
pub proof fn c06_first(start: Seq<u8>, cur: Seq<u8>, os: Seq<Seq<u8>>, i: int)
    requires chain(start, cur, os), 0 <= i < os.len(),
    ensures start.is_prefix_of(os[i]), oid_after(os[i], cur),
    decreases i,
{
    hide(oid_after);
    let x = os[i];
    if i > 0 { let p = os[i - 1]; c06_first(start, cur, os, i - 1); lemma_after_transitive(x, p, cur); }
}
/// names that are shown alike are not after one another
pub proof fn lemma_arcs_after(a: Seq<u8>, b: Seq<u8>)
    requires arcs(a) is Some, arcs(a) == arcs(b),
    ensures !oid_after(a, b),
{
    let ((x, i), (y, j)) = (subid(a).unwrap(), subid(b).unwrap());
    lemma_hightag_mono(a, 0, 0); lemma_hightag_mono(b, 0, 0);
    let (s, t) = (a.subrange(i as int, a.len() as int), b.subrange(j as int, b.len() as int));
    let (fa, fb) = (arcs(a).unwrap(), arcs(b).unwrap());
    assert(fa[0] == fb[0] && fa[1] == fb[1]);
    assert(x == y);
    assert(subids(s, MAXSUB()).unwrap() =~= fa.subrange(2, fa.len() as int));
    assert(subids(t, MAXSUB()).unwrap() =~= fb.subrange(2, fb.len() as int));
    lemma_after_lex(s, t, MAXSUB());
    lemma_lex_irreflexive(subids(s, MAXSUB()).unwrap());
}
/// number for an octet string of at most n octets
pub open spec fn code(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { code(s.drop_last()) * 257 + s.last() as nat + 1 } }
pub open spec fn pow257(n: nat) -> nat decreases n { if n == 0 { 1 } else { 257 * pow257((n - 1) as nat) } }
pub proof fn lemma_code(a: Seq<u8>, b: Seq<u8>)
    ensures code(a) == code(b) ==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_code(a.drop_last(), b.drop_last());
        let (p, q) = (code(a.drop_last()), code(b.drop_last()));
        if code(a) == code(b) {
            assert(p == q && a.last() == b.last()) by (nonlinear_arith) requires p * 257 + a.last() as nat + 1 == q * 257 + b.last() as nat + 1;
            assert(a =~= a.drop_last().push(a.last()));
            assert(b =~= b.drop_last().push(b.last()));
        }
    } else { assert(code(a) == code(b) ==> a =~= b); }
}
pub proof fn lemma_code_bound(a: Seq<u8>, n: nat)
    requires a.len() <= n,
    ensures code(a) < pow257(n),
    decreases n,
{
    if a.len() > 0 {
        lemma_code_bound(a.drop_last(), (n - 1) as nat);
        let (p, q) = (code(a.drop_last()), pow257((n - 1) as nat));
        assert(p * 257 + a.last() as nat + 1 < 257 * q) by (nonlinear_arith) requires p < q, a.last() as nat <= 255;
    } else if n > 0 { lemma_code_bound(a, (n - 1) as nat); }
}
/// C06: a walk has an end: there are not more names than octet strings that fit in a datagram
pub proof fn c06_ends(start: Seq<u8>, cur: Seq<u8>, os: Seq<Seq<u8>>, n: nat)
    requires chain(start, cur, os), forall|i: int| 0 <= i < os.len() ==> (#[trigger] os[i]).len() <= n,
    ensures os.len() <= pow257(n),
{
    let cs = Seq::new(os.len(), |i: int| code(os[i]) as int);
    assert forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j implies cs[i] != cs[j] by {
        if i < j { c06_increasing(start, cur, os, i, j); } else { c06_increasing(start, cur, os, j, i); }
        lemma_code(os[i], os[j]);
    }
    cs.unique_seq_to_set();
    let u = vstd::set_lib::set_int_range(0, pow257(n) as int);
    vstd::set_lib::lemma_int_range(0, pow257(n) as int);
    assert forall|x: int| cs.to_set().contains(x) implies u.contains(x) by {
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == x;
        lemma_code_bound(os[i], n);
    }
    vstd::set_lib::lemma_len_subset(cs.to_set(), u);
}
/// what one call of the iterator adds to the walk
pub proof fn c06_getnext(p: SnmpPdu, i0: GetIter, i1: GetIter, r: PyResult<PyV>) -> (os: Seq<Seq<u8>>)
    requires <OpGetNext as PyOp<SnmpOid>>::answers(p, Some(i0), Some(i1), r),
    ensures
        i1.start() == i0.start(), chain(i0.start(), i0.cur(), os), i1.cur() == last_of(i0.cur(), os),
        r matches Ok(x) ==> os.len() == 1 && (x matches PyV::Tuple(t) && t.len() == 2 && Some(t[0]) == oid_py(os[0])),
{
    if i1.cur() == i0.cur() && r is Err { Seq::empty() } else { seq![i1.cur()] }
}
pub open spec fn names(v: Seq<SnmpVar>, ks: Seq<int>, m: int) -> Seq<Seq<u8>> { Seq::new(m as nat, |i: int| cow(v[ks[i]].oid.0)) }
pub proof fn lemma_names(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, m: int, items: Seq<PyV>)
    requires taken(v, ks, i0, m, items),
    ensures chain(i0.start(), i0.cur(), names(v, ks, m)), at_after(v, ks, i0.cur(), m) == last_of(i0.cur(), names(v, ks, m)), names(v, ks, m).len() == m,
        forall|i: int| 0 <= i < m ==> pair_py(v[ks[i]]) == Some(#[trigger] items[i]),
{
    hide(walk_step); hide(pair_py);
    let os = names(v, ks, m);
    assert forall|i: int| 0 <= i < os.len() implies walk_step(i0.start(), if i == 0 { i0.cur() } else { os[i - 1] }, #[trigger] os[i]) by {
        let x = cow(v[ks[i]].oid.0);
        if i > 0 { assert(os[i - 1] == cow(v[ks[i - 1]].oid.0)); }
        assert(walk_step(i0.start(), at_after(v, ks, i0.cur(), i), x));
    }
    assert forall|i: int| 0 <= i < m implies pair_py(v[ks[i]]) == Some(#[trigger] items[i]) by { let x = cow(v[ks[i]].oid.0); }
}
/// the list yields these names, and a mark that the walk has left the subtree
pub open spec fn lists(r: PyResult<PyV>, os: Seq<Seq<u8>>) -> bool {
    r matches Ok(x) ==> (x matches PyV::List(l) && (l.len() == os.len() || (l.len() == os.len() + 1 && l.last() is None))
        && forall|i: int| 0 <= i < os.len() ==> (#[trigger] l[i] matches PyV::Tuple(t) && t.len() == 2 && Some(t[0]) == oid_py(os[i])))
}
pub proof fn c06_getbulk(p: SnmpPdu, i0: GetIter, i1: GetIter, r: PyResult<PyV>) -> (os: Seq<Seq<u8>>)
    requires <OpGetBulk as PyOp<(SnmpOid, i64)>>::answers(p, Some(i0), Some(i1), r),
    ensures i1.start() == i0.start(), chain(i0.start(), i0.cur(), os), i1.cur() == last_of(i0.cur(), os), lists(r, os),
{
    hide(walk_step); hide(kept); hide(taken); hide(leaves); hide(chain); hide(oid_py); hide(val_py);
    match p {
        SnmpPdu::GetResponse(resp) => {
            let v = resp.vars@; let ks = kept(v, v.len());
            let (m, items) = choose|m: int, items: Seq<PyV>| #[trigger] taken(v, ks, i0, m, items) && match r {
                Ok(p) => i1.cur() == at_after(v, ks, i0.cur(), m) && ks.len() > 0
                    && ((m == ks.len() && p == PyV::List(items)) || (leaves(v, ks, i0, m) && p == PyV::List(items.push(PyV::None)))),
                Err(e) => (ks.len() == 0 && e.cls == PyExc::StopAsyncIteration && i1.cur() == i0.cur())
                    || (m < ks.len() && pair_py(v[ks[m]]) is None && walk_step(i0.start(), at_after(v, ks, i0.cur(), m), cow(v[ks[m]].oid.0))
                        && i1.cur() == cow(v[ks[m]].oid.0)),
            };
            lemma_names(v, ks, i0, m, items);
            lemma_taken(v, ks, i0, m, items);
            let os = names(v, ks, m);
            match r {
                Ok(x) => {
                    let l = x->List_0;
                    assert forall|i: int| 0 <= i < os.len() implies (#[trigger] l[i] matches PyV::Tuple(t) && t.len() == 2 && Some(t[0]) == oid_py(os[i])) by { assert(l[i] == items[i]); assert(pair_py(v[ks[i]]) == Some(items[i])); }
                    os
                },
                Err(e) => if ks.len() == 0 { assert(chain(i0.start(), i0.cur(), Seq::empty())) by { reveal(chain); } Seq::empty() } else {
                    let o = cow(v[ks[m]].oid.0);
                    assert(chain(i0.start(), last_of(i0.cur(), os), seq![o])) by { reveal(chain); }
                    lemma_chain_join(i0.start(), i0.cur(), os, seq![o]);
                    os + seq![o]
                },
            }
        },
        _ => { assert(chain(i0.start(), i0.cur(), Seq::empty())) by { reveal(chain); } Seq::empty() },
    }
}
//@part
// ---------------------------------------------------------------- C05: a walk over a MIB
/// names as sub-identifiers (X.690 8.19.4: the first two arcs in one); readable as RFC 2578 limits them
pub open spec fn name_ok(s: Seq<nat>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> s[i] <= MAXSUB() }
/// the entries of an agent: names in lexicographic order
pub open spec fn mib_ok(b: Seq<Seq<nat>>) -> bool {
    (forall|i: int| 0 <= i < b.len() ==> name_ok(#[trigger] b[i])) && forall|i: int, j: int| 0 <= i < j < b.len() ==> lex_after(#[trigger] b[j], #[trigger] b[i])
}
pub proof fn lemma_lex_prefix(a: Seq<nat>, p: Seq<nat>)
    requires p.is_prefix_of(a), a != p,
    ensures lex_after(a, p),
    decreases p.len(),
{
    if p.len() > 0 {
        let (t, q) = (a.subrange(1, a.len() as int), p.subrange(1, p.len() as int));
        assert(a[0] == p[0]);
        assert forall|i: int| 0 <= i < q.len() implies q[i] == t[i] by { assert(p[i + 1] == a[i + 1]); }
        assert(q =~= t.subrange(0, q.len() as int));
        if t == q { assert(a =~= seq![a[0]] + t); assert(p =~= seq![p[0]] + q); assert(a == p); }
        lemma_lex_prefix(t, q);
    } else if a.len() == 0 { assert(a =~= p); }
}
/// what lies between a name and one below it is below it
pub proof fn lemma_between(p: Seq<nat>, x: Seq<nat>, y: Seq<nat>)
    requires p.is_prefix_of(y), lex_after(x, p), lex_after(y, x),
    ensures p.is_prefix_of(x),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(y[0] == p[0]);
        assert(x[0] == p[0]);
        let (p1, x1, y1) = (p.subrange(1, p.len() as int), x.subrange(1, x.len() as int), y.subrange(1, y.len() as int));
        assert(p1 =~= y1.subrange(0, p1.len() as int)) by { assert forall|i: int| 0 <= i < p1.len() implies p1[i] == y1[i] by { assert(p[i + 1] == y[i + 1]); } }
        lemma_between(p1, x1, y1);
        assert(p =~= x.subrange(0, p.len() as int)) by {
            assert forall|i: int| 0 <= i < p.len() implies p[i] == x[i] by { if i > 0 { assert(p1[i - 1] == x1[i - 1]); } }
        }
    } else { assert(p =~= x.subrange(0, 0)); }
}
pub proof fn lemma_arcs_join(a: Seq<nat>, b: Seq<nat>)
    ensures enc_arcs(a + b) == enc_arcs(a) + enc_arcs(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(enc_arcs(a) + enc_arcs(b) =~= enc_arcs(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_arcs_join(a, b.drop_last());
        assert(enc_arcs(a + b) =~= enc_arcs(a) + enc_arcs(b));
    }
}
/// the prefix of the octets is the prefix of the sub-identifiers
pub proof fn lemma_enc_prefix(p: Seq<nat>, x: Seq<nat>)
    ensures enc_arcs(p).is_prefix_of(enc_arcs(x)) <==> p.is_prefix_of(x),
    decreases p.len(),
{
    if p.is_prefix_of(x) {
        let r = x.subrange(p.len() as int, x.len() as int);
        assert(x =~= p + r);
        lemma_arcs_join(p, r);
        assert(enc_arcs(p) =~= enc_arcs(x).subrange(0, enc_arcs(p).len() as int));
    }
    if enc_arcs(p).is_prefix_of(enc_arcs(x)) {
        if p.len() == 0 { assert(p =~= x.subrange(0, 0)); }
        else {
            lemma_enc_arcs_cons(p);
            let (pt, ep, ex) = (p.subrange(1, p.len() as int), enc_arcs(p), enc_arcs(x));
            lemma_enc_arc(p[0], enc_arcs(pt));
            let n = enc_arc(p[0]).len() as int;
            assert(x.len() > 0) by { if x.len() == 0 { assert(ex.len() == 0); assert(ep.len() >= n); } }
            lemma_enc_arcs_cons(x);
            let xt = x.subrange(1, x.len() as int);
            lemma_enc_arc(x[0], enc_arcs(xt));
            let rest = ex.subrange(ep.len() as int, ex.len() as int);
            assert(ex =~= ep + rest);
            lemma_hightag_ext(ep, rest, 0, 0);
            assert(x[0] == p[0]);
            assert(enc_arcs(pt) =~= ep.subrange(n, ep.len() as int));
            assert(enc_arcs(xt) =~= ex.subrange(n, ex.len() as int));
            assert(enc_arcs(pt) =~= enc_arcs(xt).subrange(0, enc_arcs(pt).len() as int));
            lemma_enc_prefix(pt, xt);
            assert(p =~= x.subrange(0, p.len() as int)) by {
                assert forall|i: int| 0 <= i < p.len() implies p[i] == x[i] by { if i > 0 { assert(pt[i - 1] == xt[i - 1]); } }
            }
        }
    }
}
pub proof fn lemma_name_after(a: Seq<nat>, b: Seq<nat>)
    requires name_ok(a), name_ok(b),
    ensures oid_after(enc_arcs(a), enc_arcs(b)) == lex_after(a, b), readable(enc_arcs(a)), oid_py(enc_arcs(a)) is Some,
{
    lemma_subids_enc(a, MAXSUB()); lemma_subids_enc(b, MAXSUB());
    lemma_after_lex(enc_arcs(a), enc_arcs(b), MAXSUB());
    let t = a.subrange(1, a.len() as int);
    lemma_enc_arcs_cons(a);
    lemma_enc_arc(a[0], enc_arcs(t));
    assert(enc_arcs(a).subrange(enc_arc(a[0]).len() as int, enc_arcs(a).len() as int) =~= enc_arcs(t));
    assert forall|i: int| 0 <= i < t.len() implies t[i] <= MAXSUB() by { assert(t[i] == a[i + 1]); }
    lemma_subids_enc(t, MAXSUB());
}
/// a walk over the entries b below base, with j entries done
pub open spec fn walking(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, j: int, it: GetIter) -> bool {
    it.start() == enc_arcs(base) && lo <= j && it.cur() == (if j == lo { enc_arcs(base) } else { enc_arcs(b[j - 1]) })
}
/// RFC 3416 4.2.2: the entry which is the successor of the name asked for is j, or there is none
pub open spec fn successor(b: Seq<Seq<nat>>, cur: Seq<u8>, j: int) -> bool {
    0 <= j <= b.len() && (forall|i: int| 0 <= i < j ==> !oid_after(enc_arcs(#[trigger] b[i]), cur)) && (j < b.len() ==> oid_after(enc_arcs(b[j]), cur))
}
/// a variable of a reply is this entry
pub open spec fn entry_is(x: SnmpVar, b: Seq<Seq<nat>>, vals: Seq<PyV>, j: int) -> bool {
    0 <= j < b.len() && cow(x.oid.0) == enc_arcs(b[j]) && !no_val(x.value) && val_py(x.value) == Some(vals[j])
}
pub open spec fn shown(b: Seq<Seq<nat>>, vals: Seq<PyV>, j: int) -> PyV { PyV::Tuple(seq![oid_py(enc_arcs(b[j])).unwrap(), vals[j]]) }
/// entries lo to hi: the ones from the successor of `base` on that have `base` in front
pub open spec fn subtree(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, hi: int) -> bool {
    successor(b, enc_arcs(base), lo) && lo <= hi <= b.len() && (forall|i: int| lo <= i < hi ==> base.is_prefix_of(#[trigger] b[i])) && (hi < b.len() ==> !base.is_prefix_of(b[hi]))
}
/// these are the entries strictly below `base`, and there is such a range for every `base`
pub proof fn c05_subtree(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, hi: int, i: int)
    requires mib_ok(b), name_ok(base), subtree(b, base, lo, hi), 0 <= i < b.len(),
    ensures (lo <= i < hi) <==> (base.is_prefix_of(b[i]) && b[i] != base),
{
    lemma_name_after(b[i], base);
    if lo < b.len() { lemma_name_after(b[lo], base); }
    let x = b[i];
    lemma_lex_irreflexive(base);
    if base.is_prefix_of(x) && x != base {
        lemma_lex_prefix(x, base);
        assert(i >= lo);
        if i >= hi {
            let h = b[hi];
            if hi > lo { let l = b[lo]; lemma_lex_transitive(h, l, base); }
            if i > hi { lemma_between(base, h, x); }
        }
    }
    if lo <= i < hi && x == base {
        let l = b[lo];
        if i > lo { lemma_lex_transitive(x, l, base); }
    }
}
pub open spec fn first_after(b: Seq<Seq<nat>>, cur: Seq<u8>, i: int) -> int decreases b.len() - i { if i >= b.len() || oid_after(enc_arcs(b[i]), cur) { i } else { first_after(b, cur, i + 1) } }
pub open spec fn first_out(b: Seq<Seq<nat>>, base: Seq<nat>, i: int) -> int decreases b.len() - i { if i >= b.len() || !base.is_prefix_of(b[i]) { i } else { first_out(b, base, i + 1) } }
pub proof fn lemma_first(b: Seq<Seq<nat>>, cur: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), forall|k: int| 0 <= k < i ==> !oid_after(enc_arcs(#[trigger] b[k]), cur),
    ensures successor(b, cur, first_after(b, cur, i)),
    decreases b.len() - i,
{ hide(oid_after); hide(enc_arcs); if !(i >= b.len() || oid_after(enc_arcs(b[i]), cur)) { lemma_first(b, cur, i + 1); } }
pub proof fn lemma_out(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, i: int)
    requires 0 <= lo <= i <= b.len(), forall|k: int| lo <= k < i ==> base.is_prefix_of(#[trigger] b[k]),
    ensures i <= first_out(b, base, i) <= b.len(), forall|k: int| lo <= k < first_out(b, base, i) ==> base.is_prefix_of(#[trigger] b[k]),
        first_out(b, base, i) < b.len() ==> !base.is_prefix_of(b[first_out(b, base, i)]),
    decreases b.len() - i,
{ if !(i >= b.len() || !base.is_prefix_of(b[i])) { lemma_out(b, base, lo, i + 1); } }
pub proof fn c05_range(b: Seq<Seq<nat>>, base: Seq<nat>) -> (r: (int, int))
    ensures subtree(b, base, r.0, r.1),
{
    let lo = first_after(b, enc_arcs(base), 0);
    lemma_first(b, enc_arcs(base), 0);
    lemma_out(b, base, lo, lo);
    (lo, first_out(b, base, lo))
}
/// the entry the agent finds is the next one of the walk; it is in the subtree or the walk is done
pub proof fn lemma_next(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, hi: int, j: int, it: GetIter, k: int)
    requires mib_ok(b), name_ok(base), subtree(b, base, lo, hi), j <= hi, walking(b, base, lo, j, it), successor(b, it.cur(), k),
    ensures
        k == j, readable(it.cur()),
        j < b.len() ==> (j < hi <==> it.start().is_prefix_of(enc_arcs(b[j]))) && oid_after(enc_arcs(b[j]), it.cur()) && readable(enc_arcs(b[j])) && oid_py(enc_arcs(b[j])) is Some,
{
    let c = if j == lo { base } else { b[j - 1] };
    assert(name_ok(c));
    lemma_name_after(c, c);
    if j < b.len() { lemma_name_after(b[j], c); lemma_enc_prefix(base, b[j]); }
    if k < b.len() { lemma_name_after(b[k], c); }
    if j == lo {
        if k < j { let x = b[k]; }
        if j < k { let x = b[j]; }
    } else {
        assert(j < b.len() ==> lex_after(b[j], c));
        if k < j {
            if k < j - 1 { let x = b[k]; lemma_lex_transitive(x, c, x); lemma_lex_irreflexive(x); } else { lemma_lex_irreflexive(c); }
        }
        if j < k { let x = b[j]; }
    }
}
// ---- GetNext
/// RFC 3416 4.2.2, RFC 1157 4.1.3: the reply to GetNext; at the end endOfMibView, or the error of v1 with the name and NULL
pub open spec fn next_reply(p: SnmpPdu, b: Seq<Seq<nat>>, vals: Seq<PyV>, cur: Seq<u8>) -> bool {
    p matches SnmpPdu::GetResponse(resp) && exists|k: int| #[trigger] successor(b, cur, k) && if k < b.len() { resp.vars@.len() == 1 && entry_is(resp.vars@[0], b, vals, k) }
        else { resp.vars@.len() == 0 || (resp.vars@.len() == 1 && no_val(resp.vars@[0].value)) }
}
pub proof fn c05_getnext_step(b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, lo: int, hi: int, j: int, i0: GetIter, p: SnmpPdu, i1: GetIter, r: PyResult<PyV>)
    requires
        mib_ok(b), name_ok(base), subtree(b, base, lo, hi), j <= hi, walking(b, base, lo, j, i0), vals.len() == b.len(),
        next_reply(p, b, vals, i0.cur()), <OpGetNext as PyOp<SnmpOid>>::answers(p, Some(i0), Some(i1), r),
    ensures
        j < hi ==> r == Ok::<PyV, PyErr>(shown(b, vals, j)) && walking(b, base, lo, j + 1, i1),
        j == hi ==> raises(r, PyExc::StopAsyncIteration),
{
    hide(oid_after); hide(enc_arcs); hide(oid_py); hide(val_py); hide(readable); hide(mib_ok); hide(subtree); hide(successor);
    let resp = p->GetResponse_0;
    let k = choose|k: int| #[trigger] successor(b, i0.cur(), k) && if k < b.len() { resp.vars@.len() == 1 && entry_is(resp.vars@[0], b, vals, k) }
        else { resp.vars@.len() == 0 || (resp.vars@.len() == 1 && no_val(resp.vars@[0].value)) };
    lemma_next(b, base, lo, hi, j, i0, k);
    assert(hi <= b.len()) by { reveal(subtree); }
    if j < b.len() {
        let o = enc_arcs(b[j]);
        assert(resp.vars@.len() == 1);
        assert(getnext_is(resp.vars@[0], i0, i1, r));
        assert(cow(resp.vars@[0].oid.0) == o);
        assert(i0.steps(o) == (j < hi));
        if j < hi {
            let t = (r->Ok_0)->Tuple_0;
            assert(t =~= seq![oid_py(o).unwrap(), vals[j]]);
        }
    }
}
/// C05: the n-th call of the iterator gives the n-th entry of the subtree, the one after the last ends the walk
pub proof fn c05_getnext(b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, lo: int, hi: int, its: Seq<GetIter>, ps: Seq<SnmpPdu>, rs: Seq<PyResult<PyV>>, n: int)
    requires
        mib_ok(b), name_ok(base), subtree(b, base, lo, hi), vals.len() == b.len(),
        0 <= n <= hi - lo, its.len() == n + 2, ps.len() == n + 1, rs.len() == n + 1,
        its[0].start() == enc_arcs(base), its[0].cur() == enc_arcs(base),
        forall|i: int| 0 <= i <= n ==> next_reply(#[trigger] ps[i], b, vals, its[i].cur()) && <OpGetNext as PyOp<SnmpOid>>::answers(ps[i], Some(its[i]), Some(its[i + 1]), rs[i]),
    ensures
        n < hi - lo ==> rs[n] == Ok::<PyV, PyErr>(shown(b, vals, lo + n)) && walking(b, base, lo, lo + n + 1, its[n + 1]),
        n == hi - lo ==> raises(rs[n], PyExc::StopAsyncIteration),
    decreases n,
{
    hide(mib_ok); hide(subtree); hide(next_reply); hide(raises); hide(enc_arcs); hide(oid_after); hide(successor); hide(getnext_is); hide(bulk_is);
    if n > 0 {
        let (a, c, d) = (its.subrange(0, n + 1), ps.subrange(0, n), rs.subrange(0, n));
        assert forall|i: int| 0 <= i <= n - 1 implies next_reply(#[trigger] c[i], b, vals, a[i].cur()) && <OpGetNext as PyOp<SnmpOid>>::answers(c[i], Some(a[i]), Some(a[i + 1]), d[i]) by {
            assert(c[i] == ps[i]); assert(a[i] == its[i] && a[i + 1] == its[i + 1] && d[i] == rs[i]);
        }
        c05_getnext(b, vals, base, lo, hi, a, c, d, n - 1);
    }
    let (x, y, p, r) = (its[n], its[n + 1], ps[n], rs[n]);
    c05_getnext_step(b, vals, base, lo, hi, lo + n, x, p, y, r);
}
// ---- GetBulk
/// RFC 3416 4.2.3 with no non-repeaters: the successor and the ones after it, as many as the agent likes but at least one, endOfMibView past the end
pub open spec fn bulk_reply(p: SnmpPdu, b: Seq<Seq<nat>>, vals: Seq<PyV>, cur: Seq<u8>) -> bool {
    p matches SnmpPdu::GetResponse(resp) && exists|k: int, m: int| #[trigger] run(resp.vars@, b, vals, cur, k, m)
}
pub open spec fn run(v: Seq<SnmpVar>, b: Seq<Seq<nat>>, vals: Seq<PyV>, cur: Seq<u8>, k: int, m: int) -> bool {
    successor(b, cur, k) && 0 <= m <= v.len() && k + m <= b.len() && (k < b.len() ==> m >= 1) && (m < v.len() ==> k + m == b.len())
    && (forall|i: int| 0 <= i < m ==> entry_is(#[trigger] v[i], b, vals, k + i)) && (forall|i: int| m <= i < v.len() ==> no_val(#[trigger] v[i].value))
}
pub open spec fn entries(b: Seq<Seq<nat>>, vals: Seq<PyV>, j: int, k: int) -> Seq<PyV> { Seq::new((k - j) as nat, |i: int| shown(b, vals, j + i)) }
pub proof fn lemma_kept_run(v: Seq<SnmpVar>, b: Seq<Seq<nat>>, vals: Seq<PyV>, cur: Seq<u8>, k: int, m: int, n: nat)
    requires run(v, b, vals, cur, k, m), n <= v.len(),
    ensures kept(v, n) == Seq::new(if n <= m { n } else { m as nat }, |i: int| i),
    decreases n,
{
    hide(successor); hide(enc_arcs); hide(val_py);
    if n > 0 {
        lemma_kept_run(v, b, vals, cur, k, m, (n - 1) as nat);
        let x = v[n - 1];
        if n <= m { assert(entry_is(x, b, vals, k + n - 1)); } else { assert(no_val(x.value)); }
        assert(kept(v, n) =~= Seq::new(if n <= m { n } else { m as nat }, |i: int| i));
    } else { assert(kept(v, 0) =~= Seq::new(0, |i: int| i)); }
}
/// the variables taken from a reply are the next entries of the walk; a name that ends the walk is past the subtree
pub proof fn lemma_bulk_taken(v: Seq<SnmpVar>, b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, lo: int, hi: int, j: int, i0: GetIter, m: int, n: int, items: Seq<PyV>)
    requires
        mib_ok(b), name_ok(base), subtree(b, base, lo, hi), lo <= j <= hi, walking(b, base, lo, j, i0), vals.len() == b.len(),
        run(v, b, vals, i0.cur(), j, m), taken(v, kept(v, v.len()), i0, n, items),
    ensures
        kept(v, v.len()).len() == m, 0 <= n <= m, j + n <= hi, items == entries(b, vals, j, j + n),
        n > 0 ==> at_after(v, kept(v, v.len()), i0.cur(), n) == enc_arcs(b[j + n - 1]),
        n < m ==> pair_py(v[kept(v, v.len())[n]]) is Some,
        leaves(v, kept(v, v.len()), i0, n) ==> j + n == hi,
        hi <= b.len(),
{
    hide(oid_after); hide(enc_arcs); hide(oid_py); hide(val_py); hide(readable); hide(mib_ok); hide(subtree); hide(successor); hide(taken); hide(leaves); hide(kept);
    lemma_kept_run(v, b, vals, i0.cur(), j, m, v.len());
    let ks = kept(v, v.len());
    assert(hi <= b.len()) by { reveal(subtree); }
    lemma_names(v, ks, i0, n, items);
    lemma_taken(v, ks, i0, n, items);
    assert forall|i: int| 0 <= i < n implies j + i < hi && #[trigger] items[i] == shown(b, vals, j + i) by {
        assert(ks[i] == i);
        let x = v[i];
        assert(entry_is(x, b, vals, j + i));
        lemma_at(b, base, lo, hi, j + i);
        let os = names(v, ks, n);
        assert(os[i] == cow(x.oid.0));
        assert(walk_step(i0.start(), if i == 0 { i0.cur() } else { os[i - 1] }, os[i]));
        lemma_in(b, base, lo, hi, j + i);
        assert(pair_py(v[ks[i]]) == Some(items[i]));
    }
    assert(j + n <= hi) by { if n > 0 { let x = items[n - 1]; } }
    assert(items =~= entries(b, vals, j, j + n));
    if n > 0 { let x = v[n - 1]; assert(ks[n - 1] == n - 1); assert(entry_is(x, b, vals, j + (n - 1))); }
    if n < m {
        assert(ks[n] == n);
        let x = v[n];
        assert(entry_is(x, b, vals, j + n));
        lemma_at(b, base, lo, hi, j + n);
        lemma_in(b, base, lo, hi, j + n);
        let c = at_after(v, ks, i0.cur(), n);
        let o = cow(x.oid.0);
        lemma_next(b, base, lo, hi, j, i0, j);
        assert(oid_after(o, c) && readable(c) && readable(o)) by {
            if n > 0 { lemma_at(b, base, lo, hi, j + n - 1); lemma_step(b, j + n - 1); }
        }
        if leaves(v, ks, i0, n) { reveal(leaves); assert(!i0.start().is_prefix_of(o)); }
    } else { reveal(leaves); }
}
pub open spec fn bulk_case(v: Seq<SnmpVar>, ks: Seq<int>, i0: GetIter, i1: GetIter, r: PyResult<PyV>, m: int, items: Seq<PyV>) -> bool {
    taken(v, ks, i0, m, items) && match r {
        Ok(p) => i1.cur() == at_after(v, ks, i0.cur(), m) && ks.len() > 0
            && ((m == ks.len() && p == PyV::List(items)) || (leaves(v, ks, i0, m) && p == PyV::List(items.push(PyV::None)))),
        Err(e) => (ks.len() == 0 && e.cls == PyExc::StopAsyncIteration && i1.cur() == i0.cur())
            || (m < ks.len() && pair_py(v[ks[m]]) is None),
    }
}
pub proof fn lemma_bulk_case(v: Seq<SnmpVar>, i0: GetIter, i1: GetIter, r: PyResult<PyV>) -> (x: (int, Seq<PyV>))
    requires bulk_is(v, i0, i1, r),
    ensures bulk_case(v, kept(v, v.len()), i0, i1, r, x.0, x.1),
{
    hide(kept); hide(taken); hide(leaves); hide(walk_step); hide(pair_py);
    let ks = kept(v, v.len());
    choose|m: int, items: Seq<PyV>| #[trigger] taken(v, ks, i0, m, items) && match r {
            Ok(p) => i1.cur() == at_after(v, ks, i0.cur(), m) && ks.len() > 0
                && ((m == ks.len() && p == PyV::List(items)) || (leaves(v, ks, i0, m) && p == PyV::List(items.push(PyV::None)))),
            Err(e) => (ks.len() == 0 && e.cls == PyExc::StopAsyncIteration && i1.cur() == i0.cur())
                || (m < ks.len() && pair_py(v[ks[m]]) is None && walk_step(i0.start(), at_after(v, ks, i0.cur(), m), cow(v[ks[m]].oid.0))
                    && i1.cur() == cow(v[ks[m]].oid.0)),
        }
}
pub proof fn c05_bulk_step(b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, lo: int, hi: int, j: int, i0: GetIter, p: SnmpPdu, i1: GetIter, r: PyResult<PyV>) -> (j1: int)
    requires
        mib_ok(b), name_ok(base), subtree(b, base, lo, hi), j <= hi, walking(b, base, lo, j, i0), vals.len() == b.len(),
        bulk_reply(p, b, vals, i0.cur()), <OpGetBulk as PyOp<(SnmpOid, i64)>>::answers(p, Some(i0), Some(i1), r),
    ensures
        j <= j1 <= hi,
        (j < j1 && r == Ok::<PyV, PyErr>(PyV::List(entries(b, vals, j, j1))) && walking(b, base, lo, j1, i1))
        || (j1 == hi && r == Ok::<PyV, PyErr>(PyV::List(entries(b, vals, j, hi).push(PyV::None))))
        || (j == hi && j1 == hi && raises(r, PyExc::StopAsyncIteration)),
{
    hide(oid_after); hide(enc_arcs); hide(mib_ok); hide(subtree); hide(successor); hide(taken); hide(leaves); hide(kept); hide(run); hide(shown); hide(entry_is); hide(pair_py); hide(bulk_is);
    let v = p->GetResponse_0.vars@;
    let (k, m) = choose|k: int, m: int| #[trigger] run(v, b, vals, i0.cur(), k, m);
    assert(run(v, b, vals, i0.cur(), k, m));
    assert(successor(b, i0.cur(), k)) by { reveal(run); }
    lemma_next(b, base, lo, hi, j, i0, k);
    assert(bulk_is(v, i0, i1, r));
    let (n, items) = lemma_bulk_case(v, i0, i1, r);
    lemma_bulk_taken(v, b, vals, base, lo, hi, j, i0, m, n, items);
    assert(m == 0 ==> j == hi) by { reveal(run); }
    j + n
}
pub proof fn lemma_at(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, hi: int, i: int)
    requires mib_ok(b), name_ok(base), subtree(b, base, lo, hi), lo <= i < b.len(),
    ensures readable(enc_arcs(b[i])), oid_py(enc_arcs(b[i])) is Some,
{ lemma_name_after(b[i], b[i]); }
/// past the subtree nothing has `base` in front
pub proof fn lemma_in(b: Seq<Seq<nat>>, base: Seq<nat>, lo: int, hi: int, i: int)
    requires mib_ok(b), name_ok(base), subtree(b, base, lo, hi), lo <= i < b.len(),
    ensures i < hi <==> enc_arcs(base).is_prefix_of(enc_arcs(b[i])),
{
    hide(oid_after); hide(enc_arcs);
    lemma_enc_prefix(base, b[i]);
    c05_subtree(b, base, lo, hi, i);
    if base == b[i] { lemma_name_after(b[i], base); lemma_lex_irreflexive(base); if lo < i { lemma_name_after(b[lo], base); lemma_name_after(b[i], b[lo]); let (x, y) = (b[lo], b[i]); lemma_lex_transitive(y, x, base); } }
}
pub proof fn lemma_step(b: Seq<Seq<nat>>, i: int)
    requires mib_ok(b), 0 <= i, i + 1 < b.len(),
    ensures oid_after(enc_arcs(b[i + 1]), enc_arcs(b[i])),
{ lemma_name_after(b[i + 1], b[i]); }
/// the list ends the walk
pub open spec fn over(r: PyResult<PyV>) -> bool { match r { Ok(PyV::List(l)) => l.len() > 0 && l.last() is None, _ => true } }
/// what the iterator yields for the list: all before the mark
pub open spec fn part(r: PyResult<PyV>) -> Seq<PyV> { match r { Ok(PyV::List(l)) => if l.len() > 0 && l.last() is None { l.drop_last() } else { l }, _ => Seq::empty() } }
pub open spec fn parts(rs: Seq<PyResult<PyV>>) -> Seq<PyV> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { parts(rs.drop_last()) + part(rs.last()) } }
pub open spec fn bulk_call(b: Seq<Seq<nat>>, vals: Seq<PyV>, i0: GetIter, p: SnmpPdu, i1: GetIter, r: PyResult<PyV>) -> bool {
    bulk_reply(p, b, vals, i0.cur()) && <OpGetBulk as PyOp<(SnmpOid, i64)>>::answers(p, Some(i0), Some(i1), r)
}
pub open spec fn bulk_calls(b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, its: Seq<GetIter>, ps: Seq<SnmpPdu>, rs: Seq<PyResult<PyV>>) -> bool {
    its.len() == rs.len() + 1 && ps.len() == rs.len() && its[0].start() == enc_arcs(base) && its[0].cur() == enc_arcs(base)
    && (forall|i: int| 0 <= i < rs.len() - 1 ==> !over(#[trigger] rs[i])) && forall|i: int| 0 <= i < rs.len() ==> bulk_call(b, vals, its[i], #[trigger] ps[i], its[i + 1], rs[i])
}
/// C05: the lists the calls give, put together, are the entries of the subtree in order; when one ends the walk they are all of them, and
/// one does: each call before adds an entry
pub proof fn c05_getbulk(b: Seq<Seq<nat>>, vals: Seq<PyV>, base: Seq<nat>, lo: int, hi: int, its: Seq<GetIter>, ps: Seq<SnmpPdu>, rs: Seq<PyResult<PyV>>) -> (j: int)
    requires mib_ok(b), name_ok(base), subtree(b, base, lo, hi), vals.len() == b.len(), bulk_calls(b, vals, base, its, ps, rs),
    ensures
        lo <= j <= hi, parts(rs) == entries(b, vals, lo, j),
        rs.len() > 0 && over(rs.last()) ==> j == hi && parts(rs) == entries(b, vals, lo, hi),
        rs.len() == 0 || !over(rs.last()) ==> walking(b, base, lo, j, its.last()) && j >= lo + rs.len(),
    decreases rs.len(),
{
    hide(mib_ok); hide(subtree); hide(bulk_call); hide(enc_arcs); hide(oid_after); hide(successor); hide(bulk_is); hide(shown);
    assert(lo <= hi) by { reveal(subtree); }
    if rs.len() == 0 { assert(parts(rs) =~= entries(b, vals, lo, lo)); lo }
    else {
        let n = rs.len() - 1;
        let (a, c, d) = (its.drop_last(), ps.drop_last(), rs.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies bulk_call(b, vals, a[i], #[trigger] c[i], a[i + 1], d[i]) by {
            assert(c[i] == ps[i]); assert(a[i] == its[i] && a[i + 1] == its[i + 1] && d[i] == rs[i]);
        }
        assert forall|i: int| 0 <= i < d.len() - 1 implies !over(#[trigger] d[i]) by { assert(d[i] == rs[i]); }
        assert(a[0] == its[0]);
        assert(a.len() == d.len() + 1 && c.len() == d.len());
        assert(bulk_calls(b, vals, base, a, c, d));
        let j = c05_getbulk(b, vals, base, lo, hi, a, c, d);
        assert(bulk_call(b, vals, its[n], ps[n], its[n + 1], rs[n])); reveal(bulk_call);
        if n > 0 { assert(d.last() == rs[n - 1]); assert(!over(rs[n - 1])); }
        let j1 = c05_bulk_step(b, vals, base, lo, hi, j, its[n], ps[n], its[n + 1], rs[n]);
        let r = rs[n];
        assert(entries(b, vals, j, j1).len() > 0 ==> entries(b, vals, j, j1).last() !is None) by { reveal(shown); }
        assert(part(r) =~= entries(b, vals, j, j1));
        assert(entries(b, vals, lo, j) + entries(b, vals, j, j1) =~= entries(b, vals, lo, j1));
        j1
    }
}
// ---------------------------------------------------------------- C08: text
pub proof fn lemma_digit(d: nat)
    requires d < 10,
    ensures is_digit(digit(d)), digit(d) as u32 - 0x30 == d, digit(d) != '.',
{ assert(((0x30 + d) as u8) as char as u32 == 0x30 + d); }
/// the decimal text of a number denotes it
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, all_digits(dec(n)), decval(dec(n)) == n,
    decreases n,
{
    lemma_digit(n % 10);
    let t = dec(n / 10);
    if n < 10 {
        lemma_digit(n);
        let s = dec(n);
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(decval(Seq::<char>::empty()) == 0);
        assert(decval(s) == n);
    } else {
        lemma_dec(n / 10);
        let s = dec(n);
        assert(s.drop_last() =~= t);
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < t.len() { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_split_nonempty(s: Seq<char>)
    ensures split_text(s, '.').len() > 0,
    decreases s.len(),
{ reveal(split_text); if s.len() > 0 { lemma_split_nonempty(s.drop_last()); } }
/// digits go to the last part
pub proof fn lemma_split_digits(s: Seq<char>, d: Seq<char>)
    requires all_digits(d),
    ensures split_text(s + d, '.') == split_text(s, '.').drop_last().push(split_text(s, '.').last() + d),
    decreases d.len(),
{
    reveal(split_text);
    lemma_split_nonempty(s);
    let p = split_text(s, '.');
    if d.len() == 0 { assert(s + d =~= s); assert(p.last() + d =~= p.last()); assert(p =~= p.drop_last().push(p.last())); }
    else {
        let e = d.drop_last();
        assert((s + d).drop_last() =~= s + e);
        assert forall|i: int| 0 <= i < e.len() implies is_digit(#[trigger] e[i]) by { assert(d[i] == e[i]); }
        lemma_split_digits(s, e);
        assert(is_digit(d[d.len() - 1]));
        assert(d.last() != '.');
        let q = split_text(s + e, '.');
        assert(q.drop_last() =~= p.drop_last());
        assert((p.last() + e).push(d.last()) =~= p.last() + d);
    }
}
pub open spec fn decs(a: Seq<nat>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| dec(a[i])) }
pub proof fn lemma_split_dotted(n: nat, a: Seq<nat>)
    ensures split_text(dec(n) + dotted(a), '.') == seq![dec(n)] + decs(a),
    decreases a.len(),
{
    let d = dec(n);
    if a.len() == 0 {
        lemma_dec(n);
        let e = Seq::<char>::empty();
        assert(d + dotted(a) =~= e + d);
        assert(split_text(e, '.') == seq![e]) by { reveal(split_text); }
        lemma_split_digits(e, d);
        assert(e + d =~= d);
        assert(seq![e].drop_last().push(d) =~= seq![d] + decs(a));
    } else {
        let b = a.drop_last(); let l = dec(a.last());
        lemma_split_dotted(n, b);
        lemma_dec(a.last());
        let s = d + dotted(b);
        let sd = s.push('.');
        assert(d + dotted(a) =~= sd + l);
        assert(sd.drop_last() =~= s);
        assert(split_text(sd, '.') == split_text(s, '.').push(Seq::empty())) by { reveal(split_text); }
        lemma_split_digits(sd, l);
        let p = split_text(s, '.').push(Seq::<char>::empty());
        assert(Seq::<char>::empty() + l =~= l);
        assert(p.drop_last() =~= split_text(s, '.'));
        assert(decs(a) =~= decs(b).push(l));
        assert(p.drop_last().push(l) =~= seq![d] + decs(a));
    }
}
/// print then parse: the dotted text of arcs denotes these arcs
pub proof fn c08_text(a: Seq<nat>)
    requires oid_text_ok(a),
    ensures denotes(oid_text(a)) == Some(a), arcs(enc_oid(a)) == Some(a), oid_py(enc_oid(a)) == Some(PyV::Str(oid_text(a))),
{
    let t = a.subrange(1, a.len() as int);
    lemma_split_dotted(a[0], t);
    let p = split_text(oid_text(a), '.');
    assert(p =~= decs(a));
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] subid_text(p[i])) == Some(a[i]) by { lemma_dec(a[i]); }
    assert(text_arcs(p) =~= a);
    lemma_oid_roundtrip(a);
}
/// an OID is sent as asked for, and shown as it is sent: what a text denotes comes back as the text of the same arcs
pub proof fn c08_sent(s: Seq<char>)
    requires denotes(s) is Some,
    ensures arcs(enc_oid(denotes(s).unwrap())) == denotes(s), oid_py(enc_oid(denotes(s).unwrap())) == Some(PyV::Str(oid_text(denotes(s).unwrap()))),
        denotes(oid_text(denotes(s).unwrap())) == denotes(s),
{ c08_text(denotes(s).unwrap()); }
/// different texts are for different OIDs: the octets tell the arcs apart
pub proof fn c08_injective(a: Seq<nat>, b: Seq<nat>)
    requires oid_text_ok(a), oid_text_ok(b), enc_oid(a) == enc_oid(b),
    ensures a == b,
{ lemma_oid_roundtrip(a); lemma_oid_roundtrip(b); }

// ---------------------------------------------------------------- C17: a request is refused only when no message for it fits
pub proof fn lemma_cipher_len(alg: int, pk: Seq<u8>, boots: u32, time: u32, pp: Seq<u8>, m: Seq<u8>, d: Seq<u8>)
    requires 1 <= alg <= 2, is_cipher_of(alg, pk, boots, time, pp, m, d),
    ensures m.len() <= d.len() < m.len() + blk(alg), d.len() % blk(alg) == 0,
{
    broadcast use axiom_enc_len;
    let pad = choose|pad: Seq<u8>| #[trigger] pads(alg, m, pad) && d == priv_enc(alg, pk, boots, time, pp, m + pad);
}
pub proof fn lemma_multiple(a: nat, b: nat, n: nat)
    requires n > 0, a % n == 0, b % n == 0, a < b + n, b < a + n,
    ensures a == b,
{
    assert(a == n * (a / n)) by (nonlinear_arith) requires n > 0, a % n == 0;
    assert(b == n * (b / n)) by (nonlinear_arith) requires n > 0, b % n == 0;
    let (x, y) = (a / n, b / n);
    if x < y { assert(n * y >= n * x + n) by (nonlinear_arith) requires x + 1 <= y, n > 0; }
    if y < x { assert(n * x >= n * y + n) by (nonlinear_arith) requires y + 1 <= x, n > 0; }
}
/// SnmpEncodeError: every message that could be made for the request (whatever the padding) is over the limit
pub proof fn c17_refused(c0: CoreV, pdu: SnmpPdu, c1: CoreV, pp: Seq<u8>, dp: Seq<u8>)
    requires sane(c0), too_big(c0, pdu, c1), data_part(c0, pdu, pp, dp), is_mid(c1.mid),
    ensures plain_v3(c0, c1.mid, pdu, pp, dp).len() > MAX_SIZE,
{
    hide(is_cipher_of); hide(enc_scoped); hide(salt_octets); hide(int_content); hide(enc_usm); hide(flags_of); hide(advanced); hide(v3_body); hide(enc_glob);
    let e = enc_scoped(c0.engine, pdu).unwrap();
    let fl = flags_of(c0.aalg != 0, c0.palg != 0, wants_report(pdu));
    let u = UsmV { engine: c0.engine, boots: c0.boots, time: c0.time, user: c0.user, auth: no_mac(c0.aalg), privp: pp };
    if c0.palg != 0 {
        let ct = choose|ct: Seq<u8>| dp == #[trigger] tlv(4, ct) && is_cipher_of(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, pp, e, ct);
        lemma_cipher_len(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, pp, e, ct);
        if e.len() + blk(c0.palg) > MAX_SIZE {
            lemma_v3_parts(c1.mid, fl, u, dp);
            assert(enc_usm(u).len() > 10) by { reveal(enc_usm); lemma_len_usm(u); assert(pp.len() == 8) by { reveal(salt_octets); lemma_be_len(); } }
        } else {
            let (p2, d2) = choose|p2: Seq<u8>, d2: Seq<u8>| #[trigger] data_part(c0, pdu, p2, d2) && is_mid(c1.mid) && plain_v3(c0, c1.mid, pdu, p2, d2).len() > MAX_SIZE;
            let c2 = choose|ct: Seq<u8>| d2 == #[trigger] tlv(4, ct) && is_cipher_of(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, p2, e, ct);
            lemma_cipher_len(c0.palg, c0.pkey, c0.boots as u32, c0.time as u32, p2, e, c2);
            lemma_multiple(ct.len(), c2.len(), blk(c0.palg));
            lemma_v3_parts(c1.mid, fl, u, dp);
            lemma_v3_parts(c1.mid, fl, u, d2);
        }
    } else {
        assert(pp =~= Seq::<u8>::empty() && dp == e);
        let (p2, d2) = choose|p2: Seq<u8>, d2: Seq<u8>| #[trigger] data_part(c0, pdu, p2, d2) && is_mid(c1.mid) && plain_v3(c0, c1.mid, pdu, p2, d2).len() > MAX_SIZE;
        assert(p2 =~= Seq::<u8>::empty() && d2 == e);
    }
}
pub proof fn lemma_len_usm(u: UsmV)
    ensures enc_usm(u).len() >= u.privp.len() + u.auth.len() + u.user.len() + u.engine.len() + 10,
{ hide(int_content); }
/// nothing is sent and the session goes on, or one complete message is sent: there is no third outcome
pub proof fn c17_sent(c0: CoreV, s0: SockV, pdu: SnmpPdu, c1: CoreV, s1: SockV, r: PyResult<()>)
    requires sent_pdu(c0, s0, pdu, c1, s1, r),
    ensures
        r is Ok ==> s1.sent.len() == s0.sent.len() + 1 && sends(c0, pdu, s1.sent.last(), c1) && s1.sent.last().len() <= MAX_SIZE,
        r matches Err(e) ==> s1.sent == s0.sent && (e.cls == PyExc::SnmpEncodeError ==> too_big(c0, pdu, c1)) && (e.cls == PyExc::SnmpEncodeError || e.cls == PyExc::OSError),
{
    hide(enc_cmsg); hide(advanced); hide(too_big);
}
/// a community request is refused exactly when its message is over the limit
pub proof fn c17_community(c0: CoreV, s0: SockV, pdu: SnmpPdu, c1: CoreV, s1: SockV, r: PyResult<()>)
    requires 0 <= c0.ver <= 1, pdu_req(pdu) is Some, sent_pdu(c0, s0, pdu, c1, s1, r),
    ensures
        enc_cmsg(c0.ver as u8, c0.community, pdu) is Some,
        r is Ok ==> enc_cmsg(c0.ver as u8, c0.community, pdu).unwrap().len() <= MAX_SIZE && s1.sent.last() == enc_cmsg(c0.ver as u8, c0.community, pdu).unwrap(),
        fails(r, PyExc::SnmpEncodeError) ==> enc_cmsg(c0.ver as u8, c0.community, pdu).unwrap().len() > MAX_SIZE,
{}

// ---------------------------------------------------------------- C01: which exceptions there are
/// the exceptions the library documents
pub open spec fn documented(c: PyExc) -> bool {
    c is SnmpDecodeError || c is SnmpEncodeError || c is NoSuchInstance || c is SnmpAuthError || c is ValueError || c is BlockingIOError || c is OSError || c is TimeoutError || c is StopAsyncIteration
}
pub open spec fn fine<T>(r: PyResult<T>) -> bool { r matches Err(e) ==> documented(e.cls) }
pub proof fn c01_reply<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>)
    requires waited::<T, V>(c0, s0, it0, c1, s1, it1, r),
    ensures fine(r),
{
    hide(takes); hide(skipped); hide(must_msg); hide(in_time); hide(grows); hide(since);
    assert forall|p: SnmpPdu| #[trigger] T::answers(p, it0, it1, r) implies fine(r) by { T::classes(p, it0, it1, r); }
}
//@part
// ---------------------------------------------------------------- C04: how a wait ends
/// a datagram which is not a message of the session's version ends the call there, with SnmpDecodeError (or the call had failed with OSError)
pub proof fn c04_undecodable<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>, i: int)
    requires waited::<T, V>(c0, s0, it0, c1, s1, it1, r), 0 <= i < since(log(s0), log(s1)).len(), !is_msg(c0, since(log(s0), log(s1))[i]), reply_at(c0, since(log(s0), log(s1))[i]) is None,
    ensures (i == since(log(s0), log(s1)).len() - 1 && fails(r, PyExc::SnmpDecodeError)) || fails(r, PyExc::OSError),
{
    hide(is_msg); hide(wants); hide(reply_at); hide(in_time); hide(must_msg); hide(since); hide(pdu_is);
    let ds = since(log(s0), log(s1));
    if i < ds.len() - 1 { assert(ds.drop_last()[i] == ds[i]); if skipped(c0, ds.drop_last()) { assert(passed(c0, ds.drop_last()[i])); } if skipped(c0, ds) { assert(passed(c0, ds[i])); } }
    else { if skipped(c0, ds) { assert(passed(c0, ds[i])); } assert(ds.last() == ds[i]); }
}
/// a result is the answer in the last datagram received, which matches the outstanding request; no earlier one did
pub proof fn c04_result<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>)
    requires waited::<T, V>(c0, s0, it0, c1, s1, it1, r), r is Ok,
    ensures
        since(log(s0), log(s1)).len() > 0,
        exists|p: SnmpPdu| #[trigger] takes(c0, since(log(s0), log(s1)).last(), p, c1) && T::answers(p, it0, it1, r),
        forall|i: int| 0 <= i < since(log(s0), log(s1)).len() - 1 ==> !wants(c0, #[trigger] since(log(s0), log(s1))[i]),
{
    hide(is_msg); hide(wants); hide(in_time); hide(must_msg); hide(since); hide(takes);
    let ds = since(log(s0), log(s1));
    assert forall|i: int| 0 <= i < ds.len() - 1 implies !wants(c0, #[trigger] ds[i]) by { assert(passed(c0, ds.drop_last()[i])); }
}

// ---------------------------------------------------------------- C18: a wait with a timeout
/// it ends in time (and 1 us)
pub proof fn c18_ends<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>)
    requires waited::<T, V>(c0, s0, it0, c1, s1, it1, r), s0.timeout matches Some(t) && s0.clk + t.ns <= INSTANT_MAX(),
    ensures s1.clk <= s0.clk + s0.timeout.unwrap().ns + 1000,
{ hide(answered); }
/// without a timeout it does not wait, and hands the control back after a bounded number of datagrams: a stream of unwanted ones does not keep it
pub proof fn c18_in_turn<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>)
    requires waited::<T, V>(c0, s0, it0, c1, s1, it1, r), s0.timeout is None,
    ensures s1.got.len() - s0.got.len() <= UNWANTED(),
{ hide(answered); }
/// it gives up (the Python layer turns BlockingIOError into TimeoutError) only after the whole timeout and when no datagram that has to be delivered arrived
pub proof fn c18_gives_up<'a, T: PyOp<'a, V>, V: 'a>(c0: CoreV, s0: SockV, it0: Option<GetIter>, c1: CoreV, s1: SockV, it1: Option<GetIter>, r: PyResult<PyV>)
    requires
        waited::<T, V>(c0, s0, it0, c1, s1, it1, r), fails(r, PyExc::BlockingIOError), !s0.nonblock, s0.timeout matches Some(t) && s0.clk + t.ns <= INSTANT_MAX(),
    ensures
        s1.clk >= s0.clk + s0.timeout.unwrap().ns,
        forall|i: int| 0 <= i < since(log(s0), log(s1)).len() ==> !wants(c0, #[trigger] since(log(s0), log(s1))[i]),
{
    hide(is_msg); hide(wants); hide(must_msg); hide(since); hide(takes);
    let ds = since(log(s0), log(s1));
    assert forall|p: SnmpPdu| #[trigger] T::answers(p, it0, it1, r) implies false by { T::classes(p, it0, it1, r); }
    assert(skipped(c0, ds));
    assert forall|i: int| 0 <= i < ds.len() implies !wants(c0, #[trigger] ds[i]) by { assert(passed(c0, ds[i])); }
}
// ---------------------------------------------------------------- C02: the Python value of a value element
/// the Python object for the element `s` starts with, by its identifier and contents octets alone (X.690, RFC 2578, RFC 3416)
pub open spec fn denoted(s: Seq<u8>) -> Option<PyV> {
    let c = content(s);
    match header(s) {
        None => None,
        Some(h) => if h.constructed { None }
            else if h.class == 0 {
                if h.tag == 1 && c.len() == 1 { Some(PyV::Bool(c[0] != 0)) }
                else if h.tag == 2 && 1 <= c.len() <= 8 { Some(PyV::Int(twos(c))) }
                else if h.tag == 4 || h.tag == 7 { Some(PyV::Bytes(c)) }
                else if h.tag == 5 && c.len() == 0 { Some(PyV::None) }
                else if h.tag == 6 { match arcs(c) { Some(a) => Some(PyV::Str(oid_text(a))), None => None } }
                else if h.tag == 9 { match real_of(c) { Some(f) => Some(PyV::Float(f)), None => None } }
                else { None }
            } else if h.class == 1 {
                if h.tag == 0 && c.len() == 4 { Some(PyV::Str(dec(c[0] as nat) + seq!['.'] + dec(c[1] as nat) + seq!['.'] + dec(c[2] as nat) + seq!['.'] + dec(c[3] as nat))) }
                else if (h.tag == 1 || h.tag == 2 || h.tag == 3 || h.tag == 7) && be(c) < 0x1_0000_0000 { Some(PyV::Int(be(c) as int)) }
                else if h.tag == 4 { Some(PyV::Bytes(c)) }
                else if h.tag == 6 && be(c) < 0x1_0000_0000_0000_0000 { Some(PyV::Int(be(c) as int)) }
                else { None }
            } else { None },
    }
}
/// REAL: nothing, a special value, the binary form (8.5.7), the text of a number (8.5.8)
pub open spec fn real_of(c: Seq<u8>) -> Option<f64> {
    if c.len() == 0 { Some(0.0f64) }
    else if c[0] >= 128 { crate::ber::m_real::real_bin(c) }
    else if c[0] == 0x40 { Some(f_special(0)) } else if c[0] == 0x41 { Some(f_special(1)) } else if c[0] == 0x42 { Some(f_special(2)) }
    else if c[0] == 0x43 { Some(f_minus(0.0f64)) }
    else if 1 <= c[0] <= 3 { f_text(c.subrange(1, c.len() as int), crate::ber::m_real::real_marks(c[0])) }
    else { None }
}
/// what a decoded value is in Python is what the octets denote
pub proof fn c02_value(s: Seq<u8>, v: SnmpValue)
    requires val_is(s, v), denoted(s) is Some,
    ensures val_py(v) == denoted(s), v is Null <==> denoted(s) == Some(PyV::None), no_val(v) <==> v is Null,
{
    hide(header); hide(content); hide(twos); hide(arcs); hide(oid_text); hide(be); hide(dec);
}
/// every element that denotes a value is decoded
pub proof fn c02_accepted(s: Seq<u8>)
    requires denoted(s) is Some,
    ensures must_val(s),
{ hide(header); hide(content); hide(twos); hide(arcs); hide(oid_text); hide(be); hide(dec); }
// ---------------------------------------------------------------- C07: what get and get_many make of a reply
/// the octets of the list of variables of a response, and of its j-th variable
pub open spec fn list_of(e: Seq<u8>) -> Seq<u8> { seq_at(after(after(after(content(e))))).unwrap() }
pub open spec fn nth_var(e: Seq<u8>, j: nat) -> Seq<u8> { seq_at(sp_rest(list_of(e), j)).unwrap() }
pub open spec fn is_response(e: Seq<u8>) -> bool { header(e) matches Some(h) && h.tag == 2 }
/// noSuchObject, noSuchInstance, endOfMibView
pub open spec fn is_exception(s: Seq<u8>) -> bool { header(s) matches Some(h) && h.class == 2 && h.tag <= 2 }
pub proof fn lemma_count(e: Seq<u8>, p: SnmpPdu, n: nat)
    requires pdu_is(e, p), is_response(e), sp_rest(list_of(e), n).len() == 0, forall|j: nat| j < n ==> (#[trigger] sp_rest(list_of(e), j)).len() > 0,
    ensures p matches SnmpPdu::GetResponse(x) && x.vars@.len() == n && vars_are(list_of(e), x.vars@),
{
    hide(header); hide(content); hide(after); hide(twos); hide(var_is);
    let x = p->GetResponse_0;
    let vb = list_of(e);
    if x.vars@.len() < n { assert(sp_rest(vb, x.vars@.len()).len() > 0); }
    if x.vars@.len() > n { let i: int = n as int; assert(0 <= i < x.vars@.len()); assert(vars_are(vb, x.vars@)); assert(sp_rest(vb, i as nat).len() > 0); assert(i as nat == n); }
}
/// get(): nothing, one value, an exception, or an error; C02: the value is the one the octets denote
pub proof fn c02_c07_get(e: Seq<u8>, p: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>)
    requires pdu_is(e, p), is_response(e), OpGet::answers(p, it0, it1, r),
    ensures
        list_of(e).len() == 0 ==> r == Ok::<PyV, PyErr>(PyV::None),
        list_of(e).len() > 0 && after(list_of(e)).len() > 0 ==> fails(r, PyExc::SnmpDecodeError),
        list_of(e).len() > 0 && after(list_of(e)).len() == 0 ==> {
            let s = after(nth_var(e, 0));
            &&& (denoted(s) is Some ==> r == Ok::<PyV, PyErr>(denoted(s).unwrap()))
            &&& (is_exception(s) ==> fails(r, PyExc::NoSuchInstance))
            &&& (r matches Err(x) ==> x.cls == PyExc::NoSuchInstance || x.cls == PyExc::SnmpDecodeError)
            &&& (fails(r, PyExc::NoSuchInstance) ==> is_exception(s))
        },
{
    hide(header); hide(content); hide(after); hide(twos); hide(val_is); hide(denoted); hide(val_py);
    let vb = list_of(e);
    let x = p->GetResponse_0;
    assert(sp_rest(vb, 0) == vb && sp_rest(vb, 1) == after(vb)) by { reveal_with_fuel(sp_rest, 2); }
    if vb.len() == 0 { lemma_count(e, p, 0); }
    else if after(vb).len() == 0 {
        lemma_count(e, p, 1);
        let c = nth_var(e, 0);
        assert(seq_at(sp_rest(vb, 0int as nat)) is Some && var_is(seq_at(sp_rest(vb, 0int as nat)).unwrap(), prev_oid(x.vars@, 0), x.vars@[0]));
        let v = x.vars@[0].value;
        assert(val_is(after(c), v));
        if denoted(after(c)) is Some { c02_value(after(c), v); }
        assert((v is NoSuchObject || v is NoSuchInstance || v is EndOfMibView) <==> is_exception(after(c))) by { reveal(val_is); }
    } else {
        if x.vars@.len() == 1 { assert(sp_rest(vb, 1).len() == 0); }
        if x.vars@.len() == 0 { assert(sp_rest(vb, 0).len() == 0); }
    }
}
/// a v3 report in place of the response
pub proof fn c07_report(e: Seq<u8>, p: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>)
    requires pdu_is(e, p), is_report(e), OpGet::answers(p, it0, it1, r) || OpGetMany::answers(p, it0, it1, r),
    ensures fails(r, PyExc::SnmpAuthError),
{}
/// the key of a variable in the dictionary
pub open spec fn key_at(v: Seq<SnmpVar>, j: int) -> Seq<char> { oid_text(arcs(cow(v[j].oid.0)).unwrap()) }
pub open spec fn valued(v: Seq<SnmpVar>, j: int, k: nat) -> bool { 0 <= j < k && !no_val(v[j].value) }
pub open spec fn last_named(v: Seq<SnmpVar>, j: int, k: nat) -> bool { forall|l: int| j < l < k && #[trigger] valued(v, l, k) ==> key_at(v, l) != key_at(v, j) }
pub proof fn lemma_many(v: Seq<SnmpVar>, k: nat)
    requires many_py(v, k) is Some, k <= v.len(),
    ensures
        forall|s: Seq<char>| #[trigger] many_py(v, k).unwrap().contains_key(s) ==> exists|j: int| #[trigger] valued(v, j, k) && key_at(v, j) == s,
        forall|j: int| #[trigger] valued(v, j, k) ==> many_py(v, k).unwrap().contains_key(key_at(v, j)) && arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some,
        forall|j: int| #[trigger] valued(v, j, k) && last_named(v, j, k) ==> val_py(v[j].value) == Some(many_py(v, k).unwrap()[key_at(v, j)]),
    decreases k,
{
    hide(arcs); hide(oid_text); hide(val_py);
    if k > 0 {
        let k1 = (k - 1) as nat;
        lemma_many(v, k1);
        let (d0, d) = (many_py(v, k1).unwrap(), many_py(v, k).unwrap());
        assert forall|s: Seq<char>| #[trigger] d.contains_key(s) implies exists|j: int| #[trigger] valued(v, j, k) && key_at(v, j) == s by {
            if d0.contains_key(s) { let j = choose|j: int| #[trigger] valued(v, j, k1) && key_at(v, j) == s; assert(valued(v, j, k)); }
            else { assert(valued(v, k - 1, k)); }
        }
        assert forall|j: int| #[trigger] valued(v, j, k) implies d.contains_key(key_at(v, j)) && arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some by {
            if j < k - 1 { assert(valued(v, j, k1)); }
        }
        assert forall|j: int| #[trigger] valued(v, j, k) && last_named(v, j, k) implies val_py(v[j].value) == Some(d[key_at(v, j)]) by {
            if j < k - 1 {
                assert(valued(v, j, k1));
                assert(last_named(v, j, k1)) by { assert forall|l: int| j < l < k1 && #[trigger] valued(v, l, k1) implies key_at(v, l) != key_at(v, j) by { assert(valued(v, l, k)); } }
                if !no_val(v[k - 1].value) { assert(valued(v, k - 1, k)); }
            }
        }
    }
}
/// get_many(): exactly the variables with real values, by name
pub proof fn c07_many(e: Seq<u8>, p: SnmpPdu, it0: Option<GetIter>, it1: Option<GetIter>, r: PyResult<PyV>) -> (v: Seq<SnmpVar>)
    requires pdu_is(e, p), is_response(e), OpGetMany::answers(p, it0, it1, r),
    ensures
        vars_are(list_of(e), v) && sp_rest(list_of(e), v.len()).len() == 0,
        r matches Err(x) ==> x.cls == PyExc::SnmpDecodeError && !(forall|j: int| #[trigger] valued(v, j, v.len()) ==> arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some),
        r matches Ok(x) ==> (x matches PyV::Dict(d)
            && (forall|s: Seq<char>| #[trigger] d.contains_key(s) <==> exists|j: int| #[trigger] valued(v, j, v.len()) && key_at(v, j) == s)
            && (forall|j: int| #[trigger] valued(v, j, v.len()) && last_named(v, j, v.len()) ==> val_py(v[j].value) == Some(d[key_at(v, j)]))),
{
    hide(header); hide(content); hide(after); hide(twos); hide(var_is); hide(arcs); hide(val_py); hide(many_py);
    let v = p->GetResponse_0.vars@;
    if many_py(v, v.len()) is Some { lemma_many(v, v.len()); }
    else if forall|j: int| #[trigger] valued(v, j, v.len()) ==> arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some { lemma_many_all(v, v.len()); }
    v
}
pub proof fn lemma_many_all(v: Seq<SnmpVar>, k: nat)
    requires forall|j: int| #[trigger] valued(v, j, k) ==> arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some,
    ensures many_py(v, k) is Some,
    decreases k,
{
    hide(arcs); hide(val_py); hide(oid_text);
    if k > 0 {
        assert forall|j: int| #[trigger] valued(v, j, (k - 1) as nat) implies arcs(cow(v[j].oid.0)) is Some && val_py(v[j].value) is Some by { assert(valued(v, j, k)); }
        lemma_many_all(v, (k - 1) as nat);
        if !no_val(v[k - 1].value) { assert(valued(v, k - 1, k)); }
    }
}
/// C02: the name and value of a variable with an absolute name are the ones its octets denote, at any position
pub proof fn c02_variable(e: Seq<u8>, v: Seq<SnmpVar>, j: int)
    requires vars_are(list_of(e), v), 0 <= j < v.len(), denoted(after(nth_var(e, j as nat))) is Some, nth_var(e, j as nat)[0] == 6,
    ensures
        Some(cow(v[j].oid.0)) == oid_at(nth_var(e, j as nat)),
        val_py(v[j].value) == denoted(after(nth_var(e, j as nat))),
        no_val(v[j].value) <==> denoted(after(nth_var(e, j as nat))) == Some(PyV::None),
{
    hide(header); hide(content); hide(after); hide(twos); hide(val_is); hide(denoted); hide(val_py);
    assert(seq_at(sp_rest(list_of(e), j as nat)) is Some && var_is(nth_var(e, j as nat), prev_oid(v, j), v[j]));
    c02_value(after(nth_var(e, j as nat)), v[j].value);
}
//@part
// ---------------------------------------------------------------- C15, C03: what is encoded is minimal, and is read back
/// X.690 8.3.2
pub open spec fn min_int(c: Seq<u8>) -> bool {
    1 <= c.len() <= 8 && (c.len() >= 2 ==> !(c[0] == 0 && c[1] < 128) && !(c[0] == 255 && c[1] >= 128))
}
/// a sequence of elements with one identifier octet and definite lengths in the fewest octets, minimal INTEGERs, at every level
pub open spec fn minimal(s: Seq<u8>) -> bool
    decreases s.len(), via minimal_dec
{
    s.len() == 0 || match header(s) {
        None => false,
        Some(h) => s[0] % 32 != 31 && h.hlen == 1 + (if h.length < 128 { 1nat } else if h.length < 256 { 2 } else { 3 }) && h.length < 65536
            && (h.constructed ==> minimal(content(s))) && (h.class == 0 && h.tag == 2 ==> min_int(content(s))) && minimal(after(s)),
    }
}
#[via_fn]
proof fn minimal_dec(s: Seq<u8>) { lemma_after_shorter(s); }
pub proof fn lemma_minimal(t: u8, b: Seq<u8>, r: Seq<u8>)
    requires t % 32 != 31, tlv(t, b).len() < 65536, (t / 32) % 2 == 1 ==> minimal(b), t == 2 ==> min_int(b), t == 0x22 ==> false, minimal(r),
    ensures minimal(tlv(t, b) + r),
{
    hide(tlv); hide(header); hide(content); hide(min_int);
    let s = tlv(t, b) + r;
    lemma_el(t, b, r);
    assert(tlv(t, b).len() == 1 + enc_len(b.len()).len() + b.len() && tlv(t, b).len() > 0 && tlv(t, b)[0] == t && b.len() < 65536) by { reveal(tlv); }
    assert(s[0] == t);
    let h = header(s).unwrap();
    assert(h.hlen == 1 + enc_len(b.len()).len());
}
pub proof fn lemma_minimal_int(v: int, r: Seq<u8>)
    requires i64r(v), minimal(r),
    ensures minimal(tlv(2, int_content(v)) + r),
{
    hide(tlv); hide(int_content);
    lemma_int_content(v);
    lemma_pow256_values();
    lemma_int_len(v, 8);
    assert(tlv(2, int_content(v)).len() < 65536) by { reveal(tlv); }
    lemma_minimal(2, int_content(v), r);
}
pub proof fn lemma_minimal_vars(v: Seq<Seq<u8>>)
    requires enc_vars(v).len() < 65536,
    ensures minimal(enc_vars(v)),
    decreases v.len(),
{
    hide(tlv);
    if v.len() > 0 {
        let o = v[0]; let t = v.subrange(1, v.len() as int); let em = Seq::<u8>::empty(); let n = tlv(5, em); let b = tlv(6, o) + n;
        assert(tlv(0x30, b).len() > b.len() && tlv(6, o).len() > 0 && n.len() == 2) by { reveal(tlv); }
        lemma_minimal_vars(t);
        lemma_empty_r(n);
        lemma_minimal(5, em, em);
        lemma_minimal(6, o, n);
        lemma_minimal(0x30, b, enc_vars(t));
    }
}
pub proof fn lemma_minimal_pdu(p: SnmpPdu, r: Seq<u8>)
    requires pdu_req(p) matches Some((t, q)) && i64r(q.id) && i64r(q.a) && i64r(q.b), enc_pdu(p).unwrap().len() < 65536, minimal(r),
    ensures minimal(enc_pdu(p).unwrap() + r),
{
    hide(tlv); hide(int_content); hide(enc_vars);
    let (t, q) = pdu_req(p).unwrap();
    let (i, a, b, v) = (tlv(2, int_content(q.id)), tlv(2, int_content(q.a)), tlv(2, int_content(q.b)), tlv(0x30, enc_vars(q.oids)));
    let e = enc_req(q); let em = Seq::<u8>::empty();
    assert(tlv(t, e).len() > e.len() && v.len() > enc_vars(q.oids).len()) by { reveal(tlv); }
    assert(e =~= i + (a + (b + v)));
    lemma_minimal_vars(q.oids);
    lemma_empty_r(v);
    lemma_minimal(0x30, enc_vars(q.oids), em);
    lemma_minimal_int(q.b, v);
    lemma_minimal_int(q.a, b + v);
    lemma_minimal_int(q.id, a + (b + v));
    lemma_minimal(t, e, r);
}
/// the fields of a request are 64 bit numbers
pub proof fn lemma_req_range(p: SnmpPdu)
    ensures pdu_req(p) matches Some((t, q)) ==> i64r(q.id) && i64r(q.a) && i64r(q.b),
{}
/// INTEGER: the minimal form, read back by the library's decoder, whatever follows
pub proof fn c15_integer(x: SnmpInt, r: Seq<u8>)
    ensures
        x.enc() matches Some(e) && minimal(e) && has_elem::<SnmpInt>(e + r)
            && forall|tail: Seq<u8>, y: SnmpInt| #[trigger] is_elem::<SnmpInt>(e + r, tail, y) ==> tail == r && y.0 == x.0,
{
    hide(header); hide(content); hide(int_content); hide(tlv); hide(twos);
    let c = int_content(x.0 as int);
    let em = Seq::<u8>::empty();
    lemma_minimal_int(x.0 as int, em);
    lemma_int_content(x.0 as int); lemma_pow256_values(); lemma_int_len(x.0 as int, 8);
    assert(tlv(2, c).len() < 65536) by { reveal(tlv); }
    lemma_empty_r(tlv(2, c));
    lemma_el(2, c, r);
}
/// OBJECT IDENTIFIER
pub proof fn c15_oid(x: SnmpOid, r: Seq<u8>)
    requires tlv(6, cow(x.0)).len() < 65536,
    ensures
        x.enc() matches Some(e) && minimal(e) && has_elem::<SnmpOid>(e + r)
            && forall|tail: Seq<u8>, y: SnmpOid| #[trigger] is_elem::<SnmpOid>(e + r, tail, y) ==> tail == r && cow(y.0) == cow(x.0),
{
    hide(header); hide(content); hide(tlv);
    let em = Seq::<u8>::empty();
    lemma_minimal(6, cow(x.0), em);
    lemma_empty_r(tlv(6, cow(x.0)));
    lemma_el(6, cow(x.0), r);
}
/// OBJECT IDENTIFIER arcs are in the fewest octets and denote the same arcs
pub proof fn c15_arcs(a: Seq<nat>)
    requires oid_text_ok(a),
    ensures arcs(enc_oid(a)) == Some(a),
{ lemma_oid_roundtrip(a); }
/// NULL
pub proof fn c15_null(x: SnmpNull, r: Seq<u8>)
    ensures
        x.enc() matches Some(e) && minimal(e) && has_elem::<SnmpNull>(e + r) && forall|tail: Seq<u8>, y: SnmpNull| #[trigger] is_elem::<SnmpNull>(e + r, tail, y) ==> tail == r,
{
    hide(header); hide(content); hide(tlv);
    let em = Seq::<u8>::empty();
    assert(tlv(5, em).len() == 2) by { reveal(tlv); }
    lemma_minimal(5, em, em);
    lemma_empty_r(tlv(5, em));
    lemma_el(5, em, r);
}
/// OCTET STRING field
pub proof fn c15_octets(b: Seq<u8>, r: Seq<u8>)
    requires tlv(4, b).len() < 65536,
    ensures
        minimal(tlv(4, b)), has_elem::<SnmpOctetString>(tlv(4, b) + r),
        forall|tail: Seq<u8>, y: SnmpOctetString| #[trigger] is_elem::<SnmpOctetString>(tlv(4, b) + r, tail, y) ==> tail == r && y.0@ == b,
{
    hide(header); hide(content); hide(tlv);
    let em = Seq::<u8>::empty();
    lemma_minimal(4, b, em);
    lemma_empty_r(tlv(4, b));
    lemma_el(4, b, r);
}
/// a v1 or v2c request
pub proof fn c15_c03_community(ver: u8, community: Seq<u8>, pdu: SnmpPdu)
    requires ver < 128, enc_cmsg(ver, community, pdu) matches Some(d) && d.len() < 65536,
    ensures
        minimal(enc_cmsg(ver, community, pdu).unwrap()),
        cmsg_at(enc_cmsg(ver, community, pdu).unwrap(), ver as int) matches Some((m, e)) && m == community && must_pdu(e) && forall|p: SnmpPdu| #[trigger] pdu_is(e, p) ==> pdu_req(p) == pdu_req(pdu),
{
    hide(pdu_is); hide(must_pdu); hide(cmsg_at); hide(tlv); hide(enc_req);
    lemma_cmsg_roundtrip(ver, community, pdu);
    lemma_req_range(pdu);
    let p = enc_pdu(pdu).unwrap(); let c = tlv(4, community); let em = Seq::<u8>::empty(); let v = tlv(2, int_content(ver as int));
    let b = seq![2u8, 1, ver] + (c + p);
    assert(tlv(0x30, b).len() > b.len()) by { reveal(tlv); }
    assert(int_content(ver as int) =~= seq![ver]);
    assert(v =~= seq![2u8, 1, ver]) by { reveal(tlv); }
    lemma_empty_r(p); lemma_minimal_pdu(pdu, em);
    lemma_minimal(4, community, p);
    lemma_minimal_int(ver as int, c + p);
    lemma_empty_r(tlv(0x30, b)); lemma_minimal(0x30, b, em);
}
pub proof fn lemma_minimal_usm(u: UsmV)
    requires enc_usm(u).len() < 65536, i64r(u.boots), i64r(u.time),
    ensures minimal(enc_usm(u)),
{
    hide(tlv); hide(int_content); hide(minimal);
    let us = enc_usm(u); let ub = usm_body(u); let em = Seq::<u8>::empty();
    let (e, b, t, n, a, p) = (tlv(4, u.engine), tlv(2, int_content(u.boots)), tlv(2, int_content(u.time)), tlv(4, u.user), tlv(4, u.auth), tlv(4, u.privp));
    assert(us.len() > ub.len()) by { reveal(tlv); }
    assert(minimal(em)) by { reveal(minimal); }
    lemma_empty_r(p);
    lemma_minimal(4, u.privp, em);
    lemma_minimal(4, u.auth, p);
    lemma_minimal(4, u.user, a + p);
    lemma_minimal_int(u.time, usm_tail(u));
    lemma_minimal_int(u.boots, t + usm_tail(u));
    lemma_minimal(4, u.engine, b + (t + usm_tail(u)));
    lemma_empty_r(us); lemma_minimal(0x30, ub, em);
}
/// a v3 message and its security parameters
pub proof fn c15_c03_v3(id: int, flags: u8, u: UsmV, d: Seq<u8>)
    requires enc_v3(id, flags, u, d).len() < 65536, i64r(id), i64r(u.boots), i64r(u.time), minimal(d),
    ensures
        minimal(enc_v3(id, flags, u, d)), minimal(enc_usm(u)),
        v3_at(enc_v3(id, flags, u, d)) == Some(V3V { id, flags, usm: u, data: d }),
{
    hide(tlv); hide(int_content); hide(v3_at); hide(auth_off); hide(minimal); hide(enc_usm);
    lemma_v3_roundtrip(id, flags, u, d);
    let g = enc_glob(id, flags); let us = enc_usm(u); let b = v3_body(id, flags, u, d); let em = Seq::<u8>::empty();
    let (i, m, f) = (tlv(2, int_content(id)), tlv(2, int_content(crate::snmp::msg::v3::msg::MAX_SIZE as int)), tlv(4, seq![flags]));
    let v = seq![2u8, 1, 3];
    assert(int_content(3) == seq![3u8] && tlv(2, seq![3u8]) =~= v) by { reveal(tlv); reveal(int_content); }
    let gt = tlv(0x30, g); let ut = tlv(4, us);
    assert(tlv(0x30, b).len() > b.len() && gt.len() > g.len() && ut.len() > us.len() && f.len() == 3) by { reveal(tlv); }
    assert(b.len() == 3 + gt.len() + ut.len() + d.len());
    lemma_minimal_usm(u);
    assert(minimal(em)) by { reveal(minimal); }
    lemma_minimal_int(3, em); assert(tlv(2, int_content(3)) == v); assert(v + em =~= v); assert(minimal(v));
    lemma_minimal(4, seq![flags], v);
    lemma_minimal_int(crate::snmp::msg::v3::msg::MAX_SIZE as int, f + v);
    lemma_minimal_int(id, m + (f + v));
    assert(g =~= i + (m + (f + v))); assert(minimal(g));
    lemma_minimal(4, us, d);
    lemma_minimal(0x30, g, ut + d);
    lemma_minimal_int(3, gt + (ut + d));
    lemma_empty_r(tlv(0x30, b)); lemma_minimal(0x30, b, em);
}
/// the scoped PDU of a request
pub proof fn c15_c03_scoped(engine: Seq<u8>, pdu: SnmpPdu)
    requires enc_scoped(engine, pdu) matches Some(e) && e.len() < 65536,
    ensures minimal(enc_scoped(engine, pdu).unwrap()), reads(enc_scoped(engine, pdu).unwrap(), engine, pdu),
{
    hide(tlv); hide(enc_req); hide(reads);
    let p = enc_pdu(pdu).unwrap(); let e = tlv(4, engine); let em = Seq::<u8>::empty(); let n = tlv(4, em); let b = e + (n + p);
    assert(tlv(0x30, b).len() > b.len() && n.len() == 2) by { reveal(tlv); }
    lemma_req_range(pdu);
    lemma_empty_r(p); lemma_minimal_pdu(pdu, em);
    lemma_minimal(4, em, p);
    lemma_minimal(4, engine, n + p);
    lemma_empty_r(tlv(0x30, b)); lemma_minimal(0x30, b, em);
    lemma_reads(engine, pdu, em);
}

// ---------------------------------------------------------------- C09: the MAC under the user's key localized to the engine in the message
pub proof fn c09_sent(c0: CoreV, pdu: SnmpPdu, d: Seq<u8>, c1: CoreV, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>)
    requires sane(c0), pdu_req(pdu) is Some, sends(c0, pdu, d, c1), keyed(c0, acode, ak, pcode, pk),
    ensures
        v3_at(d) matches Some(v)
            && (acode & 0x3f == 0 ==> v.usm.auth.len() == 0 && v.flags % 2 == 0)
            && (acode & 0x3f != 0 ==> v.flags % 2 == 1 && (key_of(c0.aalg, acode, ak, v.usm.engine) matches Some(k)
                && v.usm.auth == hmac(c0.aalg, k, splice(d, auth_off(d), zeros12())).subrange(0, 12))),
{
    hide(v3_at); hide(auth_off); hide(data_part); hide(hmac); hide(key_of);
    c03_v3(c0, pdu, d, c1);
    assert(zeros12() =~= Seq::new(12, |i: int| 0u8));
}
/// what was asked of a session changes nothing about whose key signs the next message
pub proof fn c09_c12_history(c0: CoreV, c1: CoreV, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>)
    requires keyed(c0, acode, ak, pcode, pk), advanced(c0, c1),
    ensures keyed(c1, acode, ak, pcode, pk),
{ hide(key_of); }
pub proof fn c09_c12_learnt(c0: CoreV, u: UsmV, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>)
    requires keyed(c0, acode, ak, pcode, pk), c0.engine.len() > 0,
    ensures keyed(learnt(c0, u), acode, ak, pcode, pk),
{ hide(key_of); }
// ---------------------------------------------------------------- C12: RFC 3414 A.2
/// master key: the digest of 2^20 octets of the password repeated; localized key: the digest of master, engine id, master;
/// one secret given as a password, as its master key or as its localized key is one key, of the digest's length
pub proof fn c12_key_types(a: int, p: Seq<u8>, engine: Seq<u8>)
    requires 1 <= a <= 2, p.len() > 0,
    ensures
        forall|i: int| 0 <= i < 1048576 ==> #[trigger] cyc(p, 1048576)[i] == p[i % p.len() as int],
        cyc(p, 1048576).len() == 1048576,
        ({
            let m = hash_of(a, cyc(p, 1048576)); let l = hash_of(a, m + engine + m);
            &&& m.len() == osz(a) && l.len() == osz(a)
            &&& pass_key(a, p) == m && local_key(a, m, engine) == l
            &&& forall|x: u8| x & 0xc0 == 0 ==> #[trigger] key_of(a, x, p, engine) == Some(l)
            &&& forall|x: u8| x & 0xc0 == 0x40 ==> #[trigger] key_of(a, x, m, engine) == Some(l)
            &&& forall|x: u8| x & 0xc0 == 0x80 ==> #[trigger] key_of(a, x, l, engine) == Some(l)
        }),
{
    broadcast use axiom_hash_len;
}
/// everything else is refused: an empty password, a key of another size, a type or algorithm that does not exist
pub proof fn c12_refused(engine: Seq<u8>, acode: u8, ak: Seq<u8>, pcode: u8, pk: Seq<u8>)
    ensures
        acode & 0x3f > 2 || pcode & 0x3f > 2 ==> !keys_ok(engine, acode, ak, pcode, pk),
        acode & 0x3f != 0 && acode & 0xc0 == 0 && ak.len() == 0 ==> !keys_ok(engine, acode, ak, pcode, pk),
        acode & 0x3f != 0 && (acode & 0xc0 == 0x40 || acode & 0xc0 == 0x80) && ak.len() != osz((acode & 0x3f) as int) ==> !keys_ok(engine, acode, ak, pcode, pk),
        acode & 0x3f != 0 && acode & 0xc0 == 0xc0 ==> !keys_ok(engine, acode, ak, pcode, pk),
        pcode & 0x3f != 0 && pcode & 0xc0 == 0 && pk.len() == 0 ==> !keys_ok(engine, acode, ak, pcode, pk),
        pcode & 0x3f != 0 && acode & 0x3f == 0 ==> !keys_ok(engine, acode, ak, pcode, pk),
        pcode & 0x3f != 0 && (pcode & 0xc0 == 0x40 || pcode & 0xc0 == 0x80) && pk.len() != osz((acode & 0x3f) as int) ==> !keys_ok(engine, acode, ak, pcode, pk),
{}
