@file ber/mod.rs
@append
// ---- functional view of the elements used by the message layer
/// decoded value of the first element (its header is irrelevant to the value)
pub open spec fn dec_at<'a, D: BerDecoder<'a>>(s: Seq<u8>, v: D) -> bool {
    exists|hdr: BerHeader| #[trigger] hdr.is_hdr(header(s).unwrap()) && D::decodes(content(s), hdr, v)
}
pub open spec fn mustdec_at<'a, D: BerDecoder<'a>>(s: Seq<u8>) -> bool {
    forall|hdr: BerHeader| #[trigger] hdr.is_hdr(header(s).unwrap()) ==> D::must_decode(content(s), hdr)
}
@file reqid.rs
@filerw
rand::rng() ==> crate::vshim::rng()
@fn RequestId::get_next
@ret r
@entry
    broadcast use crate::vspec::bits_reqid;
@spec
    ensures 0 <= r <= 0x7fff_ffff, final(self).0 == r,
@fn RequestId::check
@ret r
@spec
    ensures r == (self.0 == v),
@end
@file snmp/get.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
@append
pub open spec fn oids_view(v: Seq<SnmpOid>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| cow(v[i].0)) }
/// SEQUENCE { name OBJECT IDENTIFIER, NULL }
pub open spec fn nullvar_at(c: Seq<u8>) -> Option<Seq<u8>> {
    match oid_at(c) {
        Some(o) => match prim(after(c), 5) { Some(n) => if n.len() == 0 { Some(o) } else { None }, None => None },
        None => None,
    }
}
/// list of variables to read
pub open spec fn oids_at(s: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases s.len(), via oids_at_dec
{
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        match seq_at(s) {
            None => None,
            Some(c) => match nullvar_at(c) {
                None => None,
                Some(o) => match oids_at(after(s)) { None => None, Some(t) => Some(seq![o] + t) },
            }
        }
    }
}
#[via_fn]
proof fn oids_at_dec(s: Seq<u8>) { lemma_after_shorter(s); }
pub struct ReqV { pub id: int, pub a: int, pub b: int, pub oids: Seq<Seq<u8>> }
/// INTEGER, INTEGER, INTEGER, SEQUENCE OF varbind
pub open spec fn req_at(s: Seq<u8>) -> Option<ReqV> {
    let s1 = after(s); let s2 = after(s1); let s3 = after(s2);
    match (int_at(s), int_at(s1), int_at(s2), seq_at(s3)) {
        (Some(id), Some(a), Some(b), Some(vb)) => if after(s3).len() == 0 {
            match oids_at(vb) { Some(oids) => Some(ReqV { id, a, b, oids }), None => None }
        } else { None },
        _ => None,
    }
}
pub open spec fn get_at(s: Seq<u8>) -> Option<ReqV> {
    match req_at(s) { Some(r) => if r.a == 0 && r.b == 0 { Some(r) } else { None }, None => None }
}
impl SnmpGet<'_> {
    pub open spec fn v(&self) -> ReqV { ReqV { id: self.request_id as int, a: 0, b: 0, oids: oids_view(self.vars@) } }
}
pub open spec fn enc_var(o: Seq<u8>) -> Seq<u8> { tlv(0x30, tlv(6, o) + tlv(5, Seq::empty())) }
pub open spec fn enc_vars(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { enc_var(v[0]) + enc_vars(v.subrange(1, v.len() as int)) }
}
pub open spec fn enc_req(r: ReqV) -> Seq<u8> {
    tlv(2, int_content(r.id)) + tlv(2, int_content(r.a)) + tlv(2, int_content(r.b)) + tlv(0x30, enc_vars(r.oids))
}
pub proof fn lemma_enc_vars_suffix(v: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= v.len(),
    ensures enc_vars(v.subrange(i, v.len() as int)).len() <= enc_vars(v).len(),
        i < v.len() ==> enc_vars(v.subrange(i, v.len() as int)) == enc_var(v[i]) + enc_vars(v.subrange(i + 1, v.len() as int)),
    decreases i,
{
    let n = v.len() as int;
    if i < n {
        assert(v.subrange(i, n).subrange(1, n - i) =~= v.subrange(i + 1, n));
    }
    if i == 0 { assert(v.subrange(0, n) =~= v); }
    else {
        lemma_enc_vars_suffix(v, i - 1);
        assert(v.subrange(i - 1, n).subrange(1, n - i + 1) =~= v.subrange(i, n));
    }
}
pub proof fn lemma_zeroes()
    ensures tlv(2, int_content(0)) + tlv(2, int_content(0)) == seq![2u8, 1, 0, 2, 1, 0],
{ assert(int_content(0) =~= seq![0u8]); assert(tlv(2, int_content(0)) + tlv(2, int_content(0)) =~= seq![2u8, 1, 0, 2, 1, 0]); }
/// what the successive pushes of one variable (in front of w + o) amount to
pub proof fn lemma_var_parts(oid: Seq<u8>, w: Seq<u8>, o: Seq<u8>)
    ensures
        ({
            let a = tlv(6, oid); let b = tlv(5, Seq::<u8>::empty()); let r = w + o;
            &&& a + (b + r) == (a + b) + r
            &&& seq![0x30u8] + enc_len((a + b).len()) + ((a + b) + r) == enc_var(oid) + r
            &&& enc_var(oid).len() == 1 + enc_len((a + b).len()).len() + a.len() + b.len()
            &&& enc_var(oid) + r == (enc_var(oid) + w) + o
            &&& (a + b).len() == a.len() + b.len()
        }),
{
    let a = tlv(6, oid); let b = tlv(5, Seq::<u8>::empty()); let r = w + o;
    lemma_assoc(a, b, r);
    lemma_push_tlv(0x30, a + b, r);
    lemma_assoc(enc_var(oid), w, o);
}
/// what the pushes of the fixed fields in front of the variables amount to
pub proof fn lemma_req_parts(q: ReqV, o: Seq<u8>)
    ensures
        ({
            let v = enc_vars(q.oids); let t = tlv(0x30, v);
            let (i, a, b) = (tlv(2, int_content(q.id)), tlv(2, int_content(q.a)), tlv(2, int_content(q.b)));
            &&& seq![0x30u8] + enc_len(v.len()) + (v + o) == t + o
            &&& t.len() == 1 + enc_len(v.len()).len() + v.len()
            &&& (a + b) + (t + o) == a + (b + (t + o))
            &&& i + (a + (b + (t + o))) == enc_req(q) + o
            &&& enc_req(q).len() == i.len() + a.len() + b.len() + t.len()
            &&& (a + b).len() == a.len() + b.len()
        }),
{
    let v = enc_vars(q.oids); let t = tlv(0x30, v);
    let (i, a, b) = (tlv(2, int_content(q.id)), tlv(2, int_content(q.a)), tlv(2, int_content(q.b)));
    lemma_push_tlv(0x30, v, o);
    lemma_assoc(a, b, t + o);
    assert(i + (a + (b + (t + o))) =~= enc_req(q) + o);
}
@in BerEncoder for SnmpGet
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(enc_req(self.v())) }
@fn SnmpGet::parse_var
@ret r
@spec
    ensures
        match r {
            Ok((t, o)) => seq_at(i@) is Some && nullvar_at(seq_at(i@).unwrap()) == Some(cow(o.0)) && t@ == after(i@),
            Err(e) => (seq_at(i@) is None || nullvar_at(seq_at(i@).unwrap()) is None) && crate::error::nbad(e),
        },
@fn TryFrom<&[u8]> for SnmpGet::try_from
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        match r { Ok(g) => get_at(value@) == Some(g.v()), Err(e) => get_at(value@) is None && crate::error::bad(e) },
@entry
    hide(header); hide(content); hide(twos); hide(oids_at);
@loopbefore 0
    proof { reveal(oids_at); }
    proof { assert(oids_view(vars@) =~= Seq::<Seq<u8>>::empty()); if oids_at(vb.0@) is Some { assert(oids_at(vb.0@).unwrap() =~= oids_view(vars@) + oids_at(vb.0@).unwrap()); } }
@loop 0
    invariant
        match oids_at(v_tail@) { Some(t) => oids_at(vb.0@) == Some(oids_view(vars@) + t), None => oids_at(vb.0@) is None },
    decreases v_tail@.len(),
@loopbegin 0
    let ghost v0 = vars@;
    proof { lemma_after_shorter(v_tail@); }
@loopend 0
    proof {
        assert(oids_view(vars@) =~= oids_view(v0) + seq![cow(oid.0)]);
        if oids_at(v_tail@) is Some { let t = oids_at(v_tail@).unwrap(); assert(oids_view(vars@) + t =~= oids_view(v0) + (seq![cow(oid.0)] + t)); }
    }
@tail
    proof { assert(oids_view(vars@) + Seq::<Seq<u8>>::empty() =~= oids_view(vars@)); }
@fn BerEncoder for SnmpGet::push_ber
@attr #[verifier::loop_isolation(false)]
@entry
    hide(enc_len); hide(int_content); hide(tlv);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    let ghost o = *buf; let ghost vv = oids_view(self.vars@); let ghost n = vv.len() as int;
    proof {
        lemma_zeroes();
        assert(DOUBLE_ZEROES@ =~= seq![2u8, 1, 0, 2, 1, 0]);
        assert(vv.subrange(0, n) =~= vv);
        assert(vv.subrange(n, n) =~= Seq::<Seq<u8>>::empty());
        assert(enc_vars(vv.subrange(n, n)) + o@ =~= o@);
        lemma_req_parts(self.v(), o@);
    }
@loop 0
    invariant
        0 <= vf_i0 <= n, vf_s0@ == self.vars@,
        buf.wf(), buf.keeps(o), buf.bookmark == o.bookmark, buf@ == enc_vars(vv.subrange(vf_i0 as int, n)) + o@,
    decreases vf_i0,
@loopbegin 0
    proof {
        lemma_enc_vars_suffix(vv, vf_i0 as int);
        lemma_enc_vars_suffix(vv, vf_i0 as int + 1);
        lemma_var_parts(vv[vf_i0 as int], enc_vars(vv.subrange(vf_i0 + 1, n)), o@);
    }
@end
@file snmp/getbulk.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::get::*;
@append
impl SnmpGetBulk<'_> {
    pub open spec fn v(&self) -> ReqV {
        ReqV { id: self.request_id as int, a: self.non_repeaters as int, b: self.max_repetitions as int, oids: oids_view(self.vars@) }
    }
}
@in BerEncoder for SnmpGetBulk
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(enc_req(self.v())) }
@fn SnmpGetBulk::parse_var
@ret r
@spec
    ensures
        match r {
            Ok((t, o)) => seq_at(i@) is Some && nullvar_at(seq_at(i@).unwrap()) == Some(cow(o.0)) && t@ == after(i@),
            Err(e) => (seq_at(i@) is None || nullvar_at(seq_at(i@).unwrap()) is None) && crate::error::nbad(e),
        },
@fn TryFrom<&[u8]> for SnmpGetBulk::try_from
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        match r { Ok(g) => req_at(value@) == Some(g.v()), Err(e) => req_at(value@) is None && crate::error::bad(e) },
@entry
    hide(header); hide(content); hide(twos); hide(oids_at);
@loopbefore 0
    proof { reveal(oids_at); }
    proof { assert(oids_view(vars@) =~= Seq::<Seq<u8>>::empty()); if oids_at(vb.0@) is Some { assert(oids_at(vb.0@).unwrap() =~= oids_view(vars@) + oids_at(vb.0@).unwrap()); } }
@loop 0
    invariant
        match oids_at(v_tail@) { Some(t) => oids_at(vb.0@) == Some(oids_view(vars@) + t), None => oids_at(vb.0@) is None },
    decreases v_tail@.len(),
@loopbegin 0
    let ghost v0 = vars@;
    proof { lemma_after_shorter(v_tail@); }
@loopend 0
    proof {
        assert(oids_view(vars@) =~= oids_view(v0) + seq![cow(oid.0)]);
        if oids_at(v_tail@) is Some { let t = oids_at(v_tail@).unwrap(); assert(oids_view(vars@) + t =~= oids_view(v0) + (seq![cow(oid.0)] + t)); }
    }
@tail
    proof { assert(oids_view(vars@) + Seq::<Seq<u8>>::empty() =~= oids_view(vars@)); }
@fn BerEncoder for SnmpGetBulk::push_ber
@attr #[verifier::loop_isolation(false)]
@entry
    hide(enc_len); hide(int_content); hide(tlv);
    broadcast use crate::buf::buffer::lemma_keeps_trans;
    let ghost o = *buf; let ghost vv = oids_view(self.vars@); let ghost n = vv.len() as int;
    proof {
        assert(vv.subrange(0, n) =~= vv);
        assert(vv.subrange(n, n) =~= Seq::<Seq<u8>>::empty());
        assert(enc_vars(vv.subrange(n, n)) + o@ =~= o@);
        lemma_req_parts(self.v(), o@);
    }
@loop 0
    invariant
        0 <= vf_i0 <= n, vf_s0@ == self.vars@,
        buf.wf(), buf.keeps(o), buf.bookmark == o.bookmark, buf@ == enc_vars(vv.subrange(vf_i0 as int, n)) + o@,
    decreases vf_i0,
@loopbegin 0
    proof {
        lemma_enc_vars_suffix(vv, vf_i0 as int);
        lemma_enc_vars_suffix(vv, vf_i0 as int + 1);
        lemma_var_parts(vv[vf_i0 as int], enc_vars(vv.subrange(vf_i0 + 1, n)), o@);
    }
@end

@file snmp/value.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
@append
/// contents octets of the value element against the decoded value, by class and tag (X.690, RFC 2578)
pub open spec fn val_is(s: Seq<u8>, v: SnmpValue) -> bool {
    match header(s) {
        None => false,
        Some(h) => !h.constructed && match v {
            SnmpValue::Bool(x) => h.class == 0 && h.tag == 1 && dec_at(s, x),
            SnmpValue::Int(x) => h.class == 0 && h.tag == 2 && dec_at(s, x),
            SnmpValue::OctetString(x) => h.class == 0 && h.tag == 4 && dec_at(s, x),
            SnmpValue::Null => h.class == 0 && h.tag == 5 && h.length == 0,
            SnmpValue::Oid(x) => h.class == 0 && h.tag == 6 && dec_at(s, x),
            SnmpValue::ObjectDescriptor(x) => h.class == 0 && h.tag == 7 && dec_at(s, x),
            SnmpValue::Real(x) => h.class == 0 && h.tag == 9 && dec_at(s, x),
            SnmpValue::IpAddress(x) => h.class == 1 && h.tag == 0 && dec_at(s, x),
            SnmpValue::Counter32(x) => h.class == 1 && h.tag == 1 && dec_at(s, x),
            SnmpValue::Gauge32(x) => h.class == 1 && h.tag == 2 && dec_at(s, x),
            SnmpValue::TimeTicks(x) => h.class == 1 && h.tag == 3 && dec_at(s, x),
            SnmpValue::Opaque(x) => h.class == 1 && h.tag == 4 && dec_at(s, x),
            SnmpValue::Counter64(x) => h.class == 1 && h.tag == 6 && dec_at(s, x),
            SnmpValue::UInteger32(x) => h.class == 1 && h.tag == 7 && dec_at(s, x),
            SnmpValue::NoSuchObject => h.class == 2 && h.tag == 0,
            SnmpValue::NoSuchInstance => h.class == 2 && h.tag == 1,
            SnmpValue::EndOfMibView => h.class == 2 && h.tag == 2,
        },
    }
}
/// values which must be accepted
pub open spec fn must_val(s: Seq<u8>) -> bool {
    match header(s) {
        None => false,
        Some(h) => !h.constructed && (
            (h.class == 0 && h.tag == 1 && mustdec_at::<SnmpBool>(s))
            || (h.class == 0 && h.tag == 2 && mustdec_at::<SnmpInt>(s))
            || (h.class == 0 && h.tag == 4 && mustdec_at::<SnmpOctetString>(s))
            || (h.class == 0 && h.tag == 5 && mustdec_at::<SnmpNull>(s))
            || (h.class == 0 && h.tag == 6 && mustdec_at::<SnmpOid>(s))
            || (h.class == 0 && h.tag == 7 && mustdec_at::<SnmpObjectDescriptor>(s))
            || (h.class == 0 && h.tag == 9 && mustdec_at::<SnmpReal>(s))
            || (h.class == 1 && h.tag == 0 && mustdec_at::<SnmpIpAddress>(s))
            || (h.class == 1 && h.tag == 1 && mustdec_at::<SnmpCounter32>(s))
            || (h.class == 1 && h.tag == 2 && mustdec_at::<SnmpGauge32>(s))
            || (h.class == 1 && h.tag == 3 && mustdec_at::<SnmpTimeTicks>(s))
            || (h.class == 1 && h.tag == 4 && mustdec_at::<SnmpOpaque>(s))
            || (h.class == 1 && h.tag == 6 && mustdec_at::<SnmpCounter64>(s))
            || (h.class == 1 && h.tag == 7 && mustdec_at::<SnmpUInteger32>(s))
            || (h.class == 2 && h.tag <= 2)),
    }
}
@fn SnmpValue::from_ber
@ret r
@spec
    ensures
        r matches Ok((t, v)) ==> val_is(i@, v) && t@ == after(i@),
        r is Err ==> !must_val(i@),
        r matches Err(e) ==> crate::error::nbad(e),
@entry
    hide(content);
    broadcast use crate::vspec::group_seq;
    proof { reveal(content); }
@fn SnmpValue::is_end_of_mib_view
@ret r
@spec
    ensures r == (self is EndOfMibView),
@file snmp/getresponse.rs
@prepend
broadcast use crate::error::group_question;
@use
use crate::ber::*;
use crate::snmp::value::{val_is, must_val};
@append
/// one variable: `c` is the contents of its SEQUENCE, `prev` the OID of the variable before it
pub open spec fn var_is(c: Seq<u8>, prev: Option<Seq<u8>>, v: SnmpVar) -> bool {
    c.len() > 0 && val_is(after(c), v.value) && (
        (c[0] == 6 && oid_at(c) == Some(cow(v.oid.0)))
        || (c[0] == 13 && (prim(c, 13) matches Some(r) && prev matches Some(p) && rel_applicable(r, p) && rel_is(r, p, cow(v.oid.0)))))
}
pub open spec fn must_var(c: Seq<u8>) -> bool {
    c.len() > 0 && c[0] == 6 && oid_at(c) is Some && must_val(after(c))
}
pub open spec fn prev_oid(v: Seq<SnmpVar>, j: int) -> Option<Seq<u8>> { if j == 0 { None } else { Some(cow(v[j - 1].oid.0)) } }
/// the list of variables, in order, up to and including k
pub open spec fn vars_are(vb: Seq<u8>, v: Seq<SnmpVar>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> (#[trigger] sp_rest(vb, j as nat)).len() > 0 && seq_at(sp_rest(vb, j as nat)) is Some
        && var_is(seq_at(sp_rest(vb, j as nat)).unwrap(), prev_oid(v, j), v[j])
}
pub open spec fn must_vars(s: Seq<u8>) -> bool
    decreases s.len(), via must_vars_dec
{
    s.len() == 0 || (seq_at(s) is Some && must_var(seq_at(s).unwrap()) && must_vars(after(s)))
}
#[via_fn]
proof fn must_vars_dec(s: Seq<u8>) { lemma_after_shorter(s); }
/// response contents
pub open spec fn resp_is(s: Seq<u8>, r: SnmpGetResponse) -> bool {
    let s1 = after(s); let s2 = after(s1); let s3 = after(s2);
    int_at(s) == Some(r.request_id as int) && int_at(s1) == Some(r.error_status as int) && int_at(s2) == Some(r.error_index as int)
        && (seq_at(s3) matches Some(vb) && after(s3).len() == 0 && vars_are(vb, r.vars@) && sp_rest(vb, r.vars@.len()).len() == 0)
}
pub open spec fn must_resp(s: Seq<u8>) -> bool {
    let s1 = after(s); let s2 = after(s1); let s3 = after(s2);
    int_at(s) is Some && int_at(s1) is Some && int_at(s2) is Some
        && (seq_at(s3) matches Some(vb) && after(s3).len() == 0 && must_vars(vb))
}
@fn TryFrom<&[u8]> for SnmpGetResponse::try_from
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r matches Ok(g) ==> resp_is(value@, g),
        r is Err ==> !must_resp(value@),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    hide(header); hide(content); hide(twos); hide(val_is); hide(must_val); hide(rel_applicable); hide(rel_is);
@loopbefore 0
    let ghost mut k = 0nat;
@loop 0
    invariant
        k == vars@.len(), v_tail@ == sp_rest(vb.0@, k), must_vars(vb.0@) ==> must_vars(v_tail@), vars_are(vb.0@, vars@),
    decreases v_tail@.len(),
@loopbegin 0
    let ghost v0 = vars@;
    proof { lemma_after_shorter(v_tail@); assert(sp_rest(vb.0@, k + 1) == after(sp_rest(vb.0@, k))); }
@loopend 0
    proof { k = k + 1;
        assert forall|j: int| 0 <= j < vars@.len() implies (#[trigger] sp_rest(vb.0@, j as nat)).len() > 0 && seq_at(sp_rest(vb.0@, j as nat)) is Some
            && var_is(seq_at(sp_rest(vb.0@, j as nat)).unwrap(), prev_oid(vars@, j), vars@[j]) by {
            if j < v0.len() { assert(prev_oid(vars@, j) == prev_oid(v0, j)); }
        }
    }
@end
@file snmp/report.rs
@prepend
broadcast use crate::error::group_question;
@fn TryFrom<&[u8]> for SnmpReport::try_from
@ret r
@spec
    ensures r matches Ok(x) && x.0@ == value@,
@end
