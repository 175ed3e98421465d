@file error.rs
@prepend
pub open spec fn nom_err(value: nom::Err<SnmpError>) -> SnmpError {
    match value { nom::Err::Incomplete(_) => SnmpError::Incomplete, nom::Err::Error(e) => e, nom::Err::Failure(e) => e }
}
impl vstd::std_specs::convert::FromSpecImpl<nom::Err<SnmpError>> for SnmpError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: nom::Err<SnmpError>) -> SnmpError { nom_err(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<SnmpError> for nom::Err<SnmpError> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SnmpError) -> nom::Err<SnmpError> { nom::Err::Failure(v) }
}
@use
use crate::vshim::nom;
@file ber/header.rs
@prepend
broadcast use crate::error::group_question;
@append
pub open spec fn class_no(c: BerClass) -> nat {
    match c { BerClass::Universal => 0, BerClass::Application => 1, BerClass::Context => 2, BerClass::Private => 3 }
}
impl BerHeader {
    pub open spec fn is_hdr(&self, v: HdrV) -> bool {
        class_no(self.class) == v.class && self.constructed == v.constructed && self.tag == v.tag && self.length == v.length
    }
}
@fn BerHeader::from_ber
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@spec
    ensures
        r is Ok == header(i@) is Some,
        r matches Err(e) ==> crate::error::nbad(e),
        r matches Ok((tail, h)) ==> {
            let v = header(i@).unwrap();
            h.is_hdr(v) && tail@ == i@.subrange(v.hlen as int, i@.len() as int) && v.length <= tail@.len()
        },
@entry
    broadcast use crate::vspec::group_bits;
    let ghost ti = 1nat;
@loop 0
    invariant
        1 <= current <= i.len(),
        hightag(i@, 1, 0) == hightag(i@, current as nat, n as nat),
    ensures
        hightag(i@, 1, 0) == Some((n as nat, current as nat)), current <= i.len(),
    decreases i.len() - current,
@loopbegin 0
    proof { lemma_hightag_big(i@, current as nat, n as nat); }
@loopbefore 1
    let ghost p = current as int;
@loop 1
    invariant
        1 <= p <= current <= i.len(), current == p + vf_i1, 0 <= vf_i1 <= vf_n1,
        ln as nat == be(i@.subrange(p, current as int)),
    decreases vf_n1 - vf_i1,
@loopbegin 1
    proof {
        if p + vf_n1 <= i@.len() {
            lemma_be_grow(i@, p, current as int, p + vf_n1);
        }
        if current < i@.len() { lemma_be_step(i@, p, current as int); }
    }
@end
@fn BerHeader::is_empty
@ret r
@spec
    ensures r == (self.length == 0),

@file ber/mod.rs
@prepend
broadcast use crate::error::group_question;
@fn BerDecoder::decode
@ret r
@spec
    requires i@.len() == hdr.length,
    ensures
        r matches Ok(v) ==> Self::decodes(i@, *hdr, v),
        r is Err ==> !Self::must_decode(i@, *hdr),
        r matches Err(e) ==> crate::error::bad(e),
@fn BerDecoder::from_ber
@ret r
@spec
    ensures
        r matches Err(e) ==> crate::error::nbad(e),
        Self::is_generic() ==> {
            &&& (r matches Ok((tail, v)) ==> match header(i@) {
                    None => false,
                    Some(h) => h.tag == Self::tag_no() && (h.constructed ==> Self::forms().1) && (!h.constructed ==> Self::forms().0)
                        && tail@ == i@.subrange(h.hlen as int + h.length as int, i@.len() as int)
                        && exists|hdr: BerHeader| #[trigger] hdr.is_hdr(h) && Self::decodes(content(i@), hdr, v),
                })
            &&& (r is Err ==> match header(i@) {
                    None => true,
                    Some(h) => !(h.tag == Self::tag_no() && (h.constructed ==> Self::forms().1) && (!h.constructed ==> Self::forms().0)
                        && forall|hdr: BerHeader| #[trigger] hdr.is_hdr(h) ==> Self::must_decode(content(i@), hdr)),
                })
        },
@entry
    broadcast use crate::vspec::group_seq;
    proof { Self::consts(); }
@fn BerEncoder::push_ber
@ret r
@spec
    requires old(buf).wf(), Self::whole() ==> old(buf)@.len() == 0,
    ensures
        final(buf).wf(),
        final(buf).keeps(*old(buf)),
        match self.enc() {
            Some(e) => {
                &&& (r is Ok <==> e.len() + old(buf)@.len() <= crate::buf::buffer::MAX_SIZE)
                &&& (r is Ok ==> final(buf)@ == e + old(buf)@)
                &&& (r matches Err(x) ==> x is OutOfBuffer)
                &&& (r is Ok ==> final(buf).bookmark == (match self.mark() { Some(k) => old(buf).pos - k, None => old(buf).bookmark as int }))
            },
            None => r is Err,
        },
@in BerDecoder
    /// relation between the contents octets and the decoded value
    spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool;
    /// contents which must be accepted
    spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool;
    /// X.690 / RFC 2578 tag number; primitive and constructed forms allowed
    spec fn tag_no() -> nat;
    spec fn forms() -> (bool, bool);
    proof fn consts()
        ensures Self::TAG as nat == Self::tag_no(), Self::forms() == (Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED);
    /// uses the default from_ber
    open spec fn is_generic() -> bool { true }
@in BerEncoder
    /// complete X.690 encoding of self, None when it cannot be encoded
    spec fn enc(&self) -> Option<Seq<u8>>;
    /// a top level element, written into an empty buffer
    spec fn whole() -> bool;
    /// the bookmark is left at that distance from the end of the encoding
    spec fn mark(&self) -> Option<int>;
@append
/// header of the type `D`
pub open spec fn tag_ok<'a, D: BerDecoder<'a>>(v: HdrV) -> bool {
    v.tag == D::tag_no() && (v.constructed ==> D::forms().1) && (!v.constructed ==> D::forms().0)
}
/// `s` starts with an element of type D with the value `v`, followed by exactly `tail`
pub open spec fn is_elem<'a, D: BerDecoder<'a>>(s: Seq<u8>, tail: Seq<u8>, v: D) -> bool {
    match header(s) {
        None => false,
        Some(h) => tag_ok::<D>(h)
            && tail == s.subrange(h.hlen as int + h.length as int, s.len() as int)
            && exists|hdr: BerHeader| #[trigger] hdr.is_hdr(h) && D::decodes(content(s), hdr, v),
    }
}
pub open spec fn has_elem<'a, D: BerDecoder<'a>>(s: Seq<u8>) -> bool {
    match header(s) {
        None => false,
        Some(h) => tag_ok::<D>(h) && forall|hdr: BerHeader| #[trigger] hdr.is_hdr(h) ==> D::must_decode(content(s), hdr),
    }
}
