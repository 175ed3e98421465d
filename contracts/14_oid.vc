@file ber/objectid.rs
@prepend
broadcast use crate::error::group_question;
@filerw
core::str::Split<'a, &'a str> ==> crate::vshim::StrSplit<'a>
oid.split(".") ==> crate::vshim::str_split_dot(oid)
part.starts_with('+') ==> crate::vshim::starts_with_plus(part)
part.parse::<u32>() ==> crate::vshim::parse_u32(part)
impl Iterator for OidSubelementIterator<'_> ==> impl OidSubelementIterator<'_>
type Item = Result<u32, SnmpError>; ==>
Option<Self::Item> ==> Option<Result<u32, SnmpError>>
@in BerDecoder for SnmpOid
    open spec fn tag_no() -> nat { 6 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { cow(v.0) == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@in BerEncoder for SnmpOid
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(tlv(6, cow(self.0))) }
@append
/// arcs denoted by a dotted text, None when the text is not a valid OID
pub open spec fn all_subids(p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] subid_text(p[i])) is Some }
pub open spec fn text_arcs(p: Seq<Seq<char>>) -> Seq<nat> { Seq::new(p.len(), |i: int| subid_text(p[i]).unwrap()) }
pub open spec fn denotes(s: Seq<char>) -> Option<Seq<nat>> {
    let p = split_text(s, '.');
    if all_subids(p) && oid_text_ok(text_arcs(p)) { Some(text_arcs(p)) } else { None }
}
pub proof fn lemma_text_arcs_push(p: Seq<Seq<char>>, k: int)
    requires 0 <= k < p.len(),
    ensures text_arcs(p.subrange(0, k + 1)) == text_arcs(p.subrange(0, k)).push(subid_text(p[k]).unwrap()),
{ assert(text_arcs(p.subrange(0, k + 1)) =~= text_arcs(p.subrange(0, k)).push(subid_text(p[k]).unwrap())); }
pub proof fn lemma_enc_oid_push(a: Seq<nat>, v: nat)
    requires a.len() >= 2,
    ensures enc_oid(a.push(v)) == enc_oid(a) + enc_arc(v),
{
    let t = a.subrange(2, a.len() as int);
    assert(a.push(v).subrange(2, a.len() as int + 1) =~= t.push(v));
    assert(t.push(v).drop_last() =~= t);
    assert(enc_oid(a.push(v)) =~= enc_oid(a) + enc_arc(v));
}
@end
@fn BerDecoder for SnmpOid::decode
@entry
    broadcast use crate::vshim::group_cow;
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@fn From<Vec<u8>> for SnmpOid::from
@ret r
@spec
    ensures cow(r.0) == value@,
@entry
    broadcast use crate::vshim::group_cow;
@fn split_subid
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r matches Ok((v, rest)) ==> (subid(data@) matches Some((n, k)) && v == n && k <= data@.len() && rest@ == data@.subrange(k as int, data@.len() as int) && 0 < k)
            && v <= 0x7f_ffff_ffff,
        r is Err ==> (subid(data@) matches Some((n, k)) ==> n > 0x7f_ffff_ffff),
        r matches Err(e) ==> crate::error::bad(e),
@entry
    broadcast use crate::vspec::group_bits;
@loop 0
    invariant
        0 <= vf_i0 <= vf_n0, vf_n0 == data@.len(), v <= 0x7f_ffff_ffff,
        hightag(data@, 0, 0) == hightag(data@, vf_i0 as nat, v as nat),
    decreases vf_n0 - vf_i0,
@loopbegin 0
    proof { lemma_hightag_mono(data@, n as nat, v as nat); if v <= 0xffff_ffff { lemma_shl7_or_u64(v, data@[n as int]); } }
@fn SnmpOid::starts_with
@ret r
@rw
oid.0.starts_with(&self.0) ==> crate::vshim::slice_starts_with(&oid.0, &self.0)
@spec
    ensures r == cow(self.0).is_prefix_of(cow(oid.0)),
@fn SnmpOid::is_after
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r ==> oid_after(cow(self.0), cow(other.0)),
        subids(cow(self.0), MAXSUB()) is Some && subids(cow(other.0), MAXSUB()) is Some ==> r == oid_after(cow(self.0), cow(other.0)),
@loop 0
    invariant
        oid_after(cow(self.0), cow(other.0)) == oid_after(left@, right@),
        subids(cow(self.0), MAXSUB()) is Some && subids(cow(other.0), MAXSUB()) is Some ==> subids(left@, MAXSUB()) is Some && subids(right@, MAXSUB()) is Some,
    decreases right@.len(),
@fn Iterator for OidSubelementIterator::next
@ret r
@rw
.map(|part| { ==> .map(|part: &str| -> (q: Result<u32, SnmpError>) ensures match subid_text(part@) { Some(n) => q matches Ok(v) && v == n, None => q matches Err(e) && crate::error::bad(e) } {
@spec
    ensures
        old(self).0.rest@.len() == 0 ==> r is None && final(self).0.rest@ == old(self).0.rest@,
        old(self).0.rest@.len() > 0 ==> final(self).0.rest@ == old(self).0.rest@.subrange(1, old(self).0.rest@.len() as int)
            && match subid_text(old(self).0.rest@[0]) { Some(n) => r matches Some(Ok(v)) && v == n, None => r matches Some(Err(e)) && crate::error::bad(e) },
@fn TryFrom<&str> for SnmpOid::try_from
@ret r
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    ensures
        r matches Ok(o) ==> (denotes(value@) matches Some(a) && cow(o.0) == enc_oid(a)),
        r is Err ==> denotes(value@) is None,
        r matches Err(e) ==> crate::error::bad(e),
@entry
    broadcast use crate::vshim::group_cow;
    let ghost p = split_text(value@, '.');
@loopbefore 0
    proof {
        assert(iter.0.rest@ =~= p.subrange(2, p.len() as int));
        assert(p.subrange(0, p.len() as int) =~= p);
        let a = text_arcs(p.subrange(0, 2));
        assert(a =~= seq![first as nat, second as nat]);
        assert(a.subrange(2, 2) =~= Seq::<nat>::empty());
        lemma_enc_arc_u32((40 * first + second) as nat);
        assert(vec@ =~= enc_oid(a));
    }
@loop 0
    invariant
        2 <= p.len(), vf_s0.0.rest@.len() <= p.len() - 2,
        vf_s0.0.rest@ == p.subrange(p.len() - vf_s0.0.rest@.len(), p.len() as int),
        all_subids(p.subrange(0, p.len() - vf_s0.0.rest@.len())),
        vec@ == enc_oid(text_arcs(p.subrange(0, p.len() - vf_s0.0.rest@.len()))),
        first <= 2, second <= 39,
        subid_text(p[0]) == Some(first as nat), subid_text(p[1]) == Some(second as nat),
    ensures
        all_subids(p), vec@ == enc_oid(text_arcs(p)),
    decreases vf_s0.0.rest@.len(),
@loopbegin 0
    proof {
        let k = p.len() - vf_s0.0.rest@.len() - 1;
        assert(vf_s0.0.rest@ =~= p.subrange(k + 1, p.len() as int));
        lemma_text_arcs_push(p, k);
        assert(p.subrange(k, p.len() as int)[0] == p[k]);
        lemma_enc_oid_push(text_arcs(p.subrange(0, k)), subid_text(p[k]).unwrap());
        if sr is Ok { lemma_arc_bits(sr->Ok_0); lemma_enc_arc_u32(sr->Ok_0 as nat); }
        assert(p.subrange(0, k + 1) =~= p.subrange(0, k).push(p[k]));
        assert(all_subids(p.subrange(0, k)));
    }
    let ghost v0 = vec@; let ghost k = p.len() - vf_s0.0.rest@.len() - 1;
@loopend 0
    proof {
        assert(vec@ =~= v0 + enc_arc(sub_id as nat));
        assert(p.subrange(0, p.len() as int) =~= p);
        assert forall|i: int| 0 <= i < p.subrange(0, k + 1).len() implies (#[trigger] subid_text(p.subrange(0, k + 1)[i])) is Some by {
            if i < k { assert(p.subrange(0, k)[i] == p[i]); }
        }
    }
@loopafter 0
    proof {
        assert forall|i: int| 0 <= i < p.len() implies text_arcs(p)[i] <= 0xffff_ffff by { assert(subid_text(p[i]) is Some); }
    }
@fn TryFrom<&SnmpOid> for String::try_from
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures
        r matches Ok(s) ==> (arcs(cow(value.0)) matches Some(a) && s@ == oid_text(a)),
        r is Err ==> arcs(cow(value.0)) is None,
        r matches Err(e) ==> crate::error::bad(e),
@entry
    proof { slice_max(cowv(value.0)); }
@loopbefore 0
    let ghost mut done = seq![first as nat, second as nat];
    proof {
        assert(done.subrange(1, 2) =~= seq![second as nat]);
        assert(seq![second as nat].drop_last() =~= Seq::<nat>::empty());
        assert(dotted(Seq::<nat>::empty()) =~= Seq::<char>::empty());
        assert(r@ =~= oid_text(done));
        if arcs(cow(value.0)) is Some { assert(seq![first as nat, second as nat] + subids(tail@, MAXSUB()).unwrap() =~= done + subids(tail@, MAXSUB()).unwrap()); }
    }
@loop 0
    invariant
        done.len() >= 2,
        r@ == oid_text(done),
        arcs(cow(value.0)) == (match subids(tail@, MAXSUB()) { Some(t) => Some(done + t), None => None }),
    decreases tail@.len(),
@loopbegin 0
    let ghost tail0 = tail@; let ghost done0 = done; let ghost r0 = r@;
    proof { lemma_hightag_mono(tail@, 0, 0); }
@loopend 0
    proof {
        done = done0.push(b as nat);
        assert(done.subrange(1, done.len() as int) =~= done0.subrange(1, done0.len() as int).push(b as nat));
        assert(done0.subrange(1, done0.len() as int).push(b as nat).drop_last() =~= done0.subrange(1, done0.len() as int));
        assert(r@ =~= oid_text(done));
        if subids(tail@, MAXSUB()) is Some {
            let t = subids(tail@, MAXSUB()).unwrap();
            assert(done0 + (seq![b as nat] + t) =~= done + t);
        }
    }
@tail
    proof { assert(done + Seq::<nat>::empty() =~= done); }
@fn OidStorage for Vec<u8>::as_owned
@entry
    broadcast use crate::vshim::group_cow;
@fn OidStorage for Vec<u8>::as_borrowed
@entry
    broadcast use crate::vshim::group_cow;
@fn From<&SnmpOid> for Vec<u8>::from
@ret r
@spec
    ensures r@ == cow(value.0),
@entry
    broadcast use crate::vshim::group_cow;
@end
@in OidStorage
    spec fn octets(&self) -> Seq<u8>;
@in OidStorage for Vec<u8>
    open spec fn octets(&self) -> Seq<u8> { self@ }
@fn OidStorage::as_owned
@ret r
@spec
    ensures cow(r.0) == self.octets(),
@fn OidStorage::as_borrowed
@ret r
@spec
    ensures cow(r.0) == self.octets(),
@fn OidStorage::store
@spec
    ensures final(self).octets() == cow(oid.0),
@fn BerEncoder for SnmpOid::push_ber
@entry
    broadcast use crate::buf::buffer::lemma_keeps_trans;
@tail
    proof { if vf_r is Ok { assert(buf@ =~= tlv(6, cow(self.0)) + old(buf)@); } }
@fn OidSubelementIterator::new
@ret r
@spec
    ensures r.0.rest@ == split_text(oid@, '.'),
@end
