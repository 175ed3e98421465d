@file ber/bool.rs
@in BerDecoder for SnmpBool
    open spec fn tag_no() -> nat { 1 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { i.len() == 1 && v.0 == (i[0] != 0) }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { i.len() == 1 }
@fn From<SnmpBool> for bool::from
@ret r
@spec
    ensures r == value.0,
@end
@file ber/null.rs
@in BerDecoder for SnmpNull
    open spec fn tag_no() -> nat { 5 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { i.len() == 0 }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { i.len() == 0 }
@in BerEncoder for SnmpNull
    open spec fn whole() -> bool { false }
    open spec fn mark(&self) -> Option<int> { None }
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(tlv(5, Seq::empty())) }
@fn BerEncoder for SnmpNull::push_ber
@tail
    proof { assert(NULL_BER@ =~= tlv(5, Seq::empty())); }
@file ber/octetstring.rs
@in BerDecoder for SnmpOctetString
    open spec fn tag_no() -> nat { 4 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.0@ == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@fn BerDecoder for SnmpOctetString::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@file ber/objectdescriptor.rs
@in BerDecoder for SnmpObjectDescriptor
    open spec fn tag_no() -> nat { 7 }
    open spec fn forms() -> (bool, bool) { (true, true) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.0@ == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@fn BerDecoder for SnmpObjectDescriptor::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@file ber/opaque.rs
@in BerDecoder for SnmpOpaque
    open spec fn tag_no() -> nat { 4 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.0@ == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@fn BerDecoder for SnmpOpaque::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@file ber/sequence.rs
@in BerDecoder for SnmpSequence
    open spec fn tag_no() -> nat { 16 }
    open spec fn forms() -> (bool, bool) { (false, true) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.0@ == i }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
@fn BerDecoder for SnmpSequence::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@file ber/option.rs
@prepend
broadcast use crate::error::group_question;
@in BerDecoder for SnmpOption
    open spec fn tag_no() -> nat { 16 }
    open spec fn forms() -> (bool, bool) { (false, true) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool { v.value@ == i && v.tag == hdr.tag }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { true }
    open spec fn is_generic() -> bool { false }
@fn BerDecoder for SnmpOption::decode
@tail
    proof { assert(i@.subrange(0, i@.len() as int) =~= i@); }
@fn BerDecoder for SnmpOption::from_ber
@ret r
@spec
    ensures
        r matches Ok((tail, v)) ==> {
            &&& header(i@) matches Some(h) && h.constructed && (h.class == 2 || h.class == 0) && v.tag == h.tag
            &&& v.value@ == content(i@)
            &&& tail@ == i@.subrange(header(i@).unwrap().hlen as int + header(i@).unwrap().length as int, i@.len() as int)
        },
        r is Err ==> !(i@.len() >= 3 && (header(i@) matches Some(h) && h.constructed && (h.class == 2 || h.class == 0))),
        r matches Err(e) ==> crate::error::nbad(e),
@end
@file ber/ipaddress.rs
@in BerDecoder for SnmpIpAddress
    open spec fn tag_no() -> nat { 0 }
    open spec fn forms() -> (bool, bool) { (true, false) }
    proof fn consts() { let _ = (Self::TAG, Self::ALLOW_PRIMITIVE, Self::ALLOW_CONSTRUCTED); }
    open spec fn decodes(i: Seq<u8>, hdr: BerHeader, v: Self) -> bool {
        i.len() == 4 && v.0 == i[0] && v.1 == i[1] && v.2 == i[2] && v.3 == i[3]
    }
    open spec fn must_decode(i: Seq<u8>, hdr: BerHeader) -> bool { i.len() == 4 }
@end
