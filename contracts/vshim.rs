// Shims for items outside Verus' reach.  Everything `external_body` here is an
// assumption listed in DESIGN.md.
pub mod nom {
    use vstd::prelude::*;
    verus! {
    pub struct Needed(pub usize);
    impl Needed { pub fn new(s: usize) -> Needed { Needed(s) } }
    pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
    pub type IResult<I, O, E> = Result<(I, O), Err<E>>;
    }
}
pub fn vf_panic() -> !
    requires false,
{ vstd::pervasive::unreached() }

#[verifier::external_body]
pub fn opaque_string() -> String { String::new() }

pub fn umin(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }


// ---- text output (core::fmt::Write for String): literal characters and Display of integers
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(d: nat) -> char { ((0x30 + d) as u8) as char }

/// unsigned integers whose Display is the plain decimal representation (assumed, core::fmt)
pub trait VfDisp { spec fn vf_nat(&self) -> nat; }
impl VfDisp for u64 { open spec fn vf_nat(&self) -> nat { *self as nat } }
impl VfDisp for u32 { open spec fn vf_nat(&self) -> nat { *self as nat } }
impl VfDisp for u8 { open spec fn vf_nat(&self) -> nat { *self as nat } }
impl VfDisp for usize { open spec fn vf_nat(&self) -> nat { *self as nat } }

#[verifier::external_body]
pub fn w_disp<D: VfDisp + std::marker::Copy>(s: &mut String, d: D)
    ensures final(s)@ == old(s)@ + dec(d.vf_nat()),
{ unimplemented!() }
#[verifier::external_body]
pub fn w_char(s: &mut String, c: char)
    ensures final(s)@ == old(s)@.push(c),
{ s.push(c) }

/// X[a..b].copy_from_slice(c), X.copy_from_slice(c) and clone_from_slice on octets (R7; core::slice semantics)
pub open spec fn splice(o: Seq<u8>, a: int, c: Seq<u8>) -> Seq<u8> {
    Seq::new(o.len(), |i: int| if a <= i < a + c.len() { c[i - a] } else { o[i] })
}
pub trait VfSlice {
    spec fn oct(&self) -> Seq<u8>;
    fn vf_copy_into(&mut self, a: usize, b: usize, c: &[u8])
        requires a <= b <= old(self).oct().len(), b - a == c@.len(),
        ensures final(self).oct() == splice(old(self).oct(), a as int, c@);
    fn vf_set(&mut self, a: usize, b: usize, v: u8)
        requires a <= b <= old(self).oct().len(),
        ensures final(self).oct() == splice(old(self).oct(), a as int, Seq::new((b - a) as nat, |i: int| v));
    fn vf_fill(&mut self, c: &[u8])
        requires c@.len() == old(self).oct().len(),
        ensures final(self).oct() == c@;
}
impl VfSlice for [u8] {
    open spec fn oct(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vf_copy_into(&mut self, a: usize, b: usize, c: &[u8]) { self[a..b].copy_from_slice(c) }
    #[verifier::external_body]
    fn vf_set(&mut self, a: usize, b: usize, v: u8) { self[a..b].fill(v) }
    #[verifier::external_body]
    fn vf_fill(&mut self, c: &[u8]) { self.copy_from_slice(c) }
}
impl<const N: usize> VfSlice for [u8; N] {
    open spec fn oct(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vf_copy_into(&mut self, a: usize, b: usize, c: &[u8]) { self[a..b].copy_from_slice(c) }
    #[verifier::external_body]
    fn vf_set(&mut self, a: usize, b: usize, v: u8) { self[a..b].fill(v) }
    #[verifier::external_body]
    fn vf_fill(&mut self, c: &[u8]) { self.copy_from_slice(c) }
}

impl VfSlice for Vec<u8> {
    open spec fn oct(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vf_copy_into(&mut self, a: usize, b: usize, c: &[u8]) { self[a..b].copy_from_slice(c) }
    #[verifier::external_body]
    fn vf_set(&mut self, a: usize, b: usize, v: u8) { self[a..b].fill(v) }
    #[verifier::external_body]
    fn vf_fill(&mut self, c: &[u8]) { self.copy_from_slice(c) }
}
pub proof fn need_copy<T: std::marker::Copy>() {}

// ---- the `digest` crate: MD5 and SHA-1 are uninterpreted functions with their output sizes
pub uninterp spec fn hash_of(alg: int, m: Seq<u8>) -> Seq<u8>;
pub open spec fn osz(alg: int) -> nat { if alg == 1 { 16 } else { 20 } }
pub broadcast axiom fn axiom_hash_len(alg: int, m: Seq<u8>) ensures #[trigger] hash_of(alg, m).len() == osz(alg);
pub trait Octets { spec fn octs(&self) -> Seq<u8>; }
impl Octets for Vec<u8> { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl<'a> Octets for &'a [u8] { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl<'a, const N: usize> Octets for &'a [u8; N] { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl<'a> Octets for &'a Vec<u8> { open spec fn octs(&self) -> Seq<u8> { self@ } }
impl<'a, 'b> Octets for &'a &'b mut [u8] { open spec fn octs(&self) -> Seq<u8> { (**self)@ } }
pub trait Digest: Sized {
    spec fn alg() -> int;
    spec fn st(&self) -> Seq<u8>;
    fn new() -> (r: Self) ensures r.st() == Seq::<u8>::empty();
    fn update<T: Octets>(&mut self, data: T) ensures final(self).st() == old(self).st() + data.octs();
    fn finalize(self) -> (r: Vec<u8>) ensures r@ == hash_of(Self::alg(), self.st());
}
pub mod digest { pub use super::Digest; }
pub mod md5 { pub use super::Md5; }
pub mod sha1 { pub use super::Sha1; }
pub struct Md5 {}
pub struct Sha1 {}
impl Digest for Md5 {
    open spec fn alg() -> int { 1 }
    uninterp spec fn st(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn update<T: Octets>(&mut self, data: T) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl Digest for Sha1 {
    open spec fn alg() -> int { 2 }
    uninterp spec fn st(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn update<T: Octets>(&mut self, data: T) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self) -> (r: Vec<u8>) { unimplemented!() }
}

// ---- std::borrow::Cow
pub uninterp spec fn cowv<'a, B: ?Sized + std::borrow::ToOwned>(c: std::borrow::Cow<'a, B>) -> &'a B;
pub assume_specification<'a, 'b, B: ?Sized + std::borrow::ToOwned>[ <std::borrow::Cow<'a, B> as std::ops::Deref>::deref ](c: &'b std::borrow::Cow<'a, B>) -> (r: &'b B)
    ensures r == cowv(*c);
pub open spec fn cow(c: std::borrow::Cow<[u8]>) -> Seq<u8> { cowv(c)@ }
pub broadcast axiom fn cow_b<'a>(b: &'a [u8]) ensures (#[trigger] cowv(std::borrow::Cow::<'a, [u8]>::Borrowed(b))) == b;
pub broadcast axiom fn cow_o<'a>(b: Vec<u8>) ensures #[trigger] cowv(std::borrow::Cow::<'a, [u8]>::Owned(b))@ == b@;
pub broadcast group group_cow { cow_b, cow_o }

// ---- std::str
/// str::split with a character: the parts between its occurrences
#[verifier::opaque]
pub open spec fn split_text(s: Seq<char>, sep: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let p = split_text(s.drop_last(), sep);
        if s.last() == sep { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub struct StrSplit<'a> { pub rest: Ghost<Seq<Seq<char>>>, pub it: core::marker::PhantomData<&'a ()> }
impl<'a> StrSplit<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> (r matches Some(p) && p@ == old(self).rest@[0])
                && final(self).rest@ == old(self).rest@.subrange(1, old(self).rest@.len() as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn str_split_dot<'a>(s: &'a str) -> (r: StrSplit<'a>)
    ensures r.rest@ == split_text(s@, '.'),
{ unimplemented!() }
#[verifier::external_body]
pub fn starts_with_plus(s: &str) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == '+'),
{ s.starts_with('+') }

pub open spec fn is_digit(c: char) -> bool { 0x30 <= c as u32 <= 0x39 }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn decval(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { decval(s.drop_last()) * 10 + (s.last() as u32 - 0x30) as nat }
}
/// decimal digits only, RFC 2578 sub-identifier range
pub open spec fn subid_text(s: Seq<char>) -> Option<nat> {
    if s.len() > 0 && all_digits(s) && decval(s) <= 0xffff_ffff { Some(decval(s)) } else { None }
}
/// <u32 as FromStr>: an optional '+' followed by decimal digits, range checked
#[verifier::external_body]
pub fn parse_u32(s: &str) -> (r: Result<u32, ()>)
    ensures
        !(s@.len() > 0 && s@[0] == '+') ==> match subid_text(s@) { Some(n) => r matches Ok(v) && v == n, None => r is Err },
{ s.parse::<u32>().map_err(|_| ()) }

// ---- floating point: opaque (the numeric meaning is not verified)
pub uninterp spec fn f_nat(n: nat) -> f64;
/// product, power of two within the exponents of f64, value of a decimal text without leading spaces
pub uninterp spec fn f_times(a: f64, b: f64) -> f64;
pub uninterp spec fn f_pow2(e: int) -> f64;
pub uninterp spec fn f_parse(s: Seq<u8>) -> Option<f64>;
pub uninterp spec fn f_minus(v: f64) -> f64;
/// a power of two is applied in steps f64 can represent; past 2^+-4096 nothing changes any more
pub open spec fn f_steps(v: f64, e: int) -> f64
    decreases if e < 0 { -e } else { e },
{
    if e == 0 { v } else { let s = if e < -1022 { -1022 } else if e > 1023 { 1023 } else { e }; f_steps(f_times(v, f_pow2(s)), e - s) }
}
pub open spec fn f_scale(v: f64, e: int) -> f64 { f_steps(v, if e < -4096 { -4096 } else if e > 4096 { 4096 } else { e }) }
pub open spec fn no_space(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == 0x20 { no_space(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn points(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if s[i] == 0x2c { 0x2eu8 } else { s[i] }) }
/// ISO 6093: leading spaces, then digits and the marks of the form
pub open spec fn f_text(s: Seq<u8>, extra: Seq<u8>) -> Option<f64> {
    let t = no_space(s);
    if forall|i: int| 0 <= i < t.len() ==> 0x30 <= #[trigger] t[i] <= 0x39 || extra.contains(t[i]) { f_parse(points(t)) } else { None }
}
pub proof fn lemma_no_space(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), s[k] != 0x20,
    ensures no_space(s).contains(s[k]),
    decreases s.len(),
{
    if s[0] == 0x20 {
        assert(s.subrange(1, s.len() as int)[k - 1] == s[k]);
        lemma_no_space(s.subrange(1, s.len() as int), k - 1);
    }
}
pub trait VfF64: Sized { spec fn fv(self) -> f64; fn vf_times(self, b: f64) -> (r: f64) ensures r == f_times(self.fv(), b); }
impl VfF64 for f64 { open spec fn fv(self) -> f64 { self } #[verifier::external_body] fn vf_times(self, b: f64) -> (r: f64) { self * b } }
#[verifier::external_body]
pub fn f_pow2i(e: i32) -> (r: f64) requires -1022 <= e <= 1023, ensures r == f_pow2(e as int), { 2.0f64.powi(e) }
pub const F64_MIN_EXP: i32 = -1021;
pub const F64_MAX_EXP: i32 = 1024;
pub trait VfClamp: Sized { spec fn cv(self) -> int; fn vf_clamp(self, lo: Self, hi: Self) -> (r: Self) requires lo.cv() <= hi.cv(), ensures r.cv() == (if self.cv() < lo.cv() { lo.cv() } else if self.cv() > hi.cv() { hi.cv() } else { self.cv() }); }
impl VfClamp for i64 { open spec fn cv(self) -> int { self as int } fn vf_clamp(self, lo: i64, hi: i64) -> (r: i64) { proof { assert(self.cv() == self as int && lo.cv() == lo as int && hi.cv() == hi as int); } if self < lo { lo } else if self > hi { hi } else { self } } }
impl VfClamp for i32 { open spec fn cv(self) -> int { self as int } fn vf_clamp(self, lo: i32, hi: i32) -> (r: i32) { proof { assert(self.cv() == self as int && lo.cv() == lo as int && hi.cv() == hi as int); } if self < lo { lo } else if self > hi { hi } else { self } } }
// core::str (assumed): octets that are no UTF-8 have one above 127
#[verifier::external_body]
pub fn vf_from_utf8(i: &[u8]) -> (r: Result<&str, ()>)
    ensures r matches Ok(s) ==> utf8(s@) == i@, r is Err ==> exists|k: int| 0 <= k < i@.len() && #[trigger] i@[k] >= 128,
{ core::str::from_utf8(i).map_err(|_| ()) }
#[verifier::external_body]
pub fn vf_octets(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@), { s.as_bytes() }
pub trait VfStr { spec fn oc(&self) -> Seq<u8>; fn vf_trim_spaces(&self) -> (r: &str) ensures utf8(r@) == no_space(self.oc()); fn vf_points(&self) -> (r: VfText) ensures r.b@ == points(self.oc()); }
pub struct VfText { pub b: Ghost<Seq<u8>> }
impl VfStr for str {
    open spec fn oc(&self) -> Seq<u8> { utf8(self@) }
    #[verifier::external_body]
    fn vf_trim_spaces(&self) -> (r: &str) { self.trim_start_matches(' ') }
    #[verifier::external_body]
    fn vf_points(&self) -> (r: VfText) { unimplemented!() }
}
impl VfText {
    #[verifier::external_body]
    pub fn vf_f64(self) -> (r: Result<f64, ()>) ensures r matches Ok(v) ==> f_parse(self.b@) == Some(v), r is Err ==> f_parse(self.b@) is None, { unimplemented!() }
}
pub trait VfDigit { spec fn dg(&self) -> u8; fn vf_is_ascii_digit(&self) -> (r: bool) ensures r == (0x30 <= self.dg() <= 0x39); }
impl VfDigit for u8 { open spec fn dg(&self) -> u8 { *self } fn vf_is_ascii_digit(&self) -> (r: bool) { proof { assert(self.dg() == *self); } *self >= 0x30 && *self <= 0x39 } }
#[verifier::external_body]
pub fn vf_contains(s: &[u8], c: &u8) -> (r: bool) ensures r == s@.contains(*c), { s.contains(c) }
#[verifier::external_body]
pub fn f_of_u128(n: u128) -> (r: f64) ensures r == f_nat(n as nat), { n as f64 }
#[verifier::external_body]
pub fn f_neg(n: f64) -> (r: f64) ensures r == f_minus(n), { -n }
/// platform guarantee: an x86-64 user address space has 2^47 octets
pub broadcast axiom fn axiom_slice_max(s: &[u8]) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff;
pub proof fn slice_max(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff, { broadcast use axiom_slice_max; }
#[verifier::external_body]
pub fn slice_starts_with(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == b@.is_prefix_of(a@),
{ a.starts_with(b) }

pub assume_specification<T, E>[ std::result::Result::<T, E>::unwrap_or ](a: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (match a { Ok(v) => v, Err(_) => d }),;
pub assume_specification[ std::string::String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification<T>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    where T: std::clone::Clone,
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
pub uninterp spec fn f_special(k: int) -> f64;
#[verifier::external_body]
pub fn f_inf() -> (r: f64) ensures r == f_special(0), { f64::INFINITY }
#[verifier::external_body]
pub fn f_ninf() -> (r: f64) ensures r == f_special(1), { f64::NEG_INFINITY }
#[verifier::external_body]
pub fn f_nan() -> (r: f64) ensures r == f_special(2), { f64::NAN }

// ---- rand: an unspecified value
pub struct Rng {}
#[verifier::external_body]
pub fn rng() -> Rng { Rng {} }
impl Rng {
    #[verifier::external_body]
    pub fn random<T>(&mut self) -> T { unimplemented!() }
}

// ---- block ciphers: uninterpreted, decryption inverts encryption
// mode 0: CBC without padding, 1: CFB (full block feedback).  cipher 1: DES, 2: AES-128
pub uninterp spec fn cipher_enc(mode: int, c: int, key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn cipher_dec(mode: int, c: int, key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
pub open spec fn cipher_blk(c: int) -> nat { if c == 1 { 8 } else { 16 } }
pub open spec fn cipher_ksz(c: int) -> nat { if c == 1 { 8 } else { 16 } }
pub broadcast axiom fn axiom_dec_enc(mode: int, c: int, key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>)
    requires mode == 1 || m.len() % cipher_blk(c) == 0,
    ensures #[trigger] cipher_dec(mode, c, key, iv, cipher_enc(mode, c, key, iv, m)) == m;
pub broadcast axiom fn axiom_enc_len(mode: int, c: int, key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>)
    requires mode == 1 || m.len() % cipher_blk(c) == 0,
    ensures #[trigger] cipher_enc(mode, c, key, iv, m).len() == m.len();
pub broadcast axiom fn axiom_dec_len(mode: int, c: int, key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>)
    requires mode == 1 || m.len() % cipher_blk(c) == 0,
    ensures #[trigger] cipher_dec(mode, c, key, iv, m).len() == m.len();
pub trait VfCipher { spec fn id() -> int; }
pub struct Des {}
pub struct Aes128 {}
impl VfCipher for Des { open spec fn id() -> int { 1 } }
impl VfCipher for Aes128 { open spec fn id() -> int { 2 } }
pub trait VfMode { spec fn mode() -> int; }
pub struct ModeCbc {}
pub struct ModeCfb {}
impl VfMode for ModeCbc { open spec fn mode() -> int { 0 } }
impl VfMode for ModeCfb { open spec fn mode() -> int { 1 } }
pub struct NoPadding {}
pub trait VfPad { spec fn none() -> bool; }
impl VfPad for NoPadding { open spec fn none() -> bool { true } }
pub struct CipherErr {}
#[verifier::reject_recursive_types(M)]
#[verifier::reject_recursive_types(C)]
pub struct Enc<M, C> { pub key: Ghost<Seq<u8>>, pub iv: Ghost<Seq<u8>>, pub m: core::marker::PhantomData<M>, pub c: core::marker::PhantomData<C> }
#[verifier::reject_recursive_types(M)]
#[verifier::reject_recursive_types(C)]
pub struct Dec<M, C> { pub key: Ghost<Seq<u8>>, pub iv: Ghost<Seq<u8>>, pub m: core::marker::PhantomData<M>, pub c: core::marker::PhantomData<C> }
impl<M: VfMode, C: VfCipher> Enc<M, C> {
    #[verifier::external_body]
    pub fn new_from_slices(key: &[u8], iv: &[u8]) -> (r: Result<Self, CipherErr>)
        ensures
            r is Ok <==> key@.len() == cipher_ksz(C::id()) && iv@.len() == cipher_blk(C::id()),
            r matches Ok(e) ==> e.key@ == key@ && e.iv@ == iv@,
    { unimplemented!() }
    /// in place, the last argument is the length of the message in the buffer
    #[verifier::external_body]
    pub fn encrypt_padded_mut<P: VfPad>(self, buf: &mut [u8], n: usize) -> (r: Result<(), CipherErr>)
        requires P::none(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok <==> n <= old(buf)@.len() && n as int % cipher_blk(C::id()) as int == 0,
            r is Ok ==> final(buf)@ == cipher_enc(M::mode(), C::id(), self.key@, self.iv@, old(buf)@.subrange(0, n as int))
                + old(buf)@.subrange(n as int, old(buf)@.len() as int),
    { unimplemented!() }
}
impl<M: VfMode, C: VfCipher> Dec<M, C> {
    #[verifier::external_body]
    pub fn new_from_slices(key: &[u8], iv: &[u8]) -> (r: Result<Self, CipherErr>)
        ensures
            r is Ok <==> key@.len() == cipher_ksz(C::id()) && iv@.len() == cipher_blk(C::id()),
            r matches Ok(e) ==> e.key@ == key@ && e.iv@ == iv@,
    { unimplemented!() }
    /// whole blocks, the output may be longer than the input
    #[verifier::external_body]
    pub fn decrypt_padded_b2b_mut<P: VfPad>(self, data: &[u8], out: &mut [u8]) -> (r: Result<(), CipherErr>)
        requires P::none(),
        ensures
            final(out)@.len() == old(out)@.len(),
            r is Ok <==> data@.len() <= old(out)@.len() && data@.len() as int % cipher_blk(C::id()) as int == 0,
            r is Ok ==> final(out)@ == cipher_dec(M::mode(), C::id(), self.key@, self.iv@, data@)
                + old(out)@.subrange(data@.len() as int, old(out)@.len() as int),
    { unimplemented!() }
    /// stream mode, equal lengths
    #[verifier::external_body]
    pub fn decrypt_b2b(self, data: &[u8], out: &mut [u8]) -> (r: Result<(), CipherErr>)
        ensures
            final(out)@.len() == old(out)@.len(),
            r is Ok <==> data@.len() == old(out)@.len(),
            r is Ok ==> final(out)@ == cipher_dec(M::mode(), C::id(), self.key@, self.iv@, data@),
    { unimplemented!() }
}
pub mod des { pub use super::Des; }
pub mod aes { pub use super::Aes128; }
pub mod cbc { pub type Encryptor<C> = super::Enc<super::ModeCbc, C>; pub type Decryptor<C> = super::Dec<super::ModeCbc, C>; }
pub mod cfb_mode { pub type Encryptor<C> = super::Enc<super::ModeCfb, C>; pub type Decryptor<C> = super::Dec<super::ModeCfb, C>; }
pub open spec fn be4(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub open spec fn be8(x: u64) -> Seq<u8> {
    seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
/// u32/u64::to_be_bytes (R12)
pub trait VfBe4 { fn vf_to_be_bytes(self) -> [u8; 4]; }
pub trait VfBe8 { fn vf_to_be_bytes(self) -> [u8; 8]; }
impl VfBe4 for u32 {
    #[verifier::external_body]
    fn vf_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be4(self), { self.to_be_bytes() }
}
impl VfBe8 for u64 {
    #[verifier::external_body]
    fn vf_to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == be8(self), { self.to_be_bytes() }
}

#[verifier::external_body]
pub fn w_new() -> (s: String) ensures s@ == Seq::<char>::empty(), { String::new() }

// ---- pyo3: Python objects are seen through a ghost value; CPython memory errors are not modelled
pub enum PyV { None, Bool(bool), Int(int), Float(f64), Str(Seq<char>), Bytes(Seq<u8>), Tuple(Seq<PyV>), List(Seq<PyV>), Dict(Map<Seq<char>, PyV>) }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PyExc { SnmpDecodeError, SnmpEncodeError, NoSuchInstance, SnmpAuthError, ValueError, NotImplementedError, BlockingIOError, OSError, TimeoutError, RuntimeError, StopAsyncIteration }
pub struct PyErr { pub cls: PyExc }
impl PyErr {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { String::new() }
}
pub type PyResult<T> = Result<T, PyErr>;
pub struct PySnmpDecodeError; pub struct PySnmpEncodeError; pub struct PyNoSuchInstance; pub struct PySnmpAuthError; pub struct PyValueError;
pub struct PyNotImplementedError; pub struct PyBlockingIOError; pub struct PyOSError; pub struct PyTimeoutError; pub struct PyRuntimeError; pub struct PyStopAsyncIteration;
impl PySnmpDecodeError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::SnmpDecodeError }), { PyErr { cls: PyExc::SnmpDecodeError } } }
impl PySnmpEncodeError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::SnmpEncodeError }), { PyErr { cls: PyExc::SnmpEncodeError } } }
impl PyNoSuchInstance { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::NoSuchInstance }), { PyErr { cls: PyExc::NoSuchInstance } } }
impl PySnmpAuthError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::SnmpAuthError }), { PyErr { cls: PyExc::SnmpAuthError } } }
impl PyValueError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::ValueError }), { PyErr { cls: PyExc::ValueError } } }
impl PyNotImplementedError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::NotImplementedError }), { PyErr { cls: PyExc::NotImplementedError } } }
impl PyBlockingIOError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::BlockingIOError }), { PyErr { cls: PyExc::BlockingIOError } } }
impl PyOSError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::OSError }), { PyErr { cls: PyExc::OSError } } }
impl PyTimeoutError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::TimeoutError }), { PyErr { cls: PyExc::TimeoutError } } }
impl PyRuntimeError { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::RuntimeError }), { PyErr { cls: PyExc::RuntimeError } } }
impl PyStopAsyncIteration { pub fn new_err<A>(a: A) -> (r: PyErr) ensures r == (PyErr { cls: PyExc::StopAsyncIteration }), { PyErr { cls: PyExc::StopAsyncIteration } } }
pub struct Infallible { pub z: u8 }
#[derive(Clone, Copy)]
pub struct Python<'py> { p: core::marker::PhantomData<&'py ()> }
pub struct PyAny {} pub struct PyNone {} pub struct PyList {} pub struct PyTuple {} pub struct PyString {} pub struct PyBytes {} pub struct PyDict {} pub struct PyBool {} pub struct PyInt {} pub struct PyFloat {}
#[verifier::reject_recursive_types(T)]
pub struct Bound<'py, T> { p: core::marker::PhantomData<&'py ()>, q: core::marker::PhantomData<T>, v: Ghost<PyV> }
#[verifier::reject_recursive_types(T)]
pub struct Py<T> { q: core::marker::PhantomData<T>, v: Ghost<PyV> }
pub type PyObject = Py<PyAny>;
impl<T> Py<T> {
    pub closed spec fn pv(&self) -> PyV { self.v@ }
    #[verifier::external_body]
    pub fn into_bound<'py>(self, py: Python<'py>) -> (r: Bound<'py, T>) ensures r.pv() == self.pv(), { unimplemented!() }
}
impl<'py> Python<'py> {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn None(self) -> (r: Py<PyAny>) ensures r.pv() == PyV::None, { unimplemented!() }
    /// the token `Python::with_gil` passes to its closure
    #[verifier::external_body]
    pub fn vf_gil() -> Python<'py> { unimplemented!() }
}
impl<'py, T> Bound<'py, T> {
    pub closed spec fn pv(&self) -> PyV { self.v@ }
    #[verifier::external_body]
    pub fn into_any(self) -> (r: Bound<'py, PyAny>) ensures r.pv() == self.pv(), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_any(&self) -> (r: &Bound<'py, PyAny>) ensures r.pv() == self.pv(), { unimplemented!() }
    /// ToOwned::to_owned: a new reference to the same object
    #[verifier::external_body]
    pub fn vf_to_owned(&self) -> (r: Bound<'py, T>) ensures r.pv() == self.pv(), { unimplemented!() }
    /// Into<PyObject>
    #[verifier::external_body]
    pub fn vf_into(self) -> (r: Py<PyAny>) ensures r.pv() == self.pv(), { unimplemented!() }
}
pub trait HasV { spec fn hv(&self) -> PyV; }
impl<'py, T> HasV for Bound<'py, T> { open spec fn hv(&self) -> PyV { self.pv() } }
/// an error of a conversion to a Python object
pub trait ConvErr { spec fn is_cls(&self, c: PyExc) -> bool; }
impl ConvErr for Infallible { open spec fn is_cls(&self, c: PyExc) -> bool { false } }
pub trait IntoPyObject<'py>: Sized {
    type Target;
    type Output: HasV;
    type Error: ConvErr;
    /// the Python value, None when the conversion fails
    spec fn pyof(&self) -> Option<PyV>;
    /// the exception when it fails
    open spec fn pyerr(&self) -> PyExc { PyExc::SnmpDecodeError }
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>)
        ensures
            r is Ok <==> self.pyof() is Some,
            r matches Ok(o) ==> o.hv() == self.pyof().unwrap(),
            r matches Err(e) ==> e.is_cls(self.pyerr());
}
impl<'py> IntoPyObject<'py> for i64 {
    type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(*self as int)) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py> IntoPyObject<'py> for u64 {
    type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(*self as int)) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py> IntoPyObject<'py> for u32 {
    type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(*self as int)) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py> IntoPyObject<'py> for i32 {
    type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Int(*self as int)) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py> IntoPyObject<'py> for f64 {
    type Target = PyFloat; type Output = Bound<'py, PyFloat>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(PyV::Float(*self)) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py, T> IntoPyObject<'py> for Bound<'py, T> {
    type Target = T; type Output = Bound<'py, T>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(self.pv()) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl<'py, T> IntoPyObject<'py> for Py<T> {
    type Target = T; type Output = Bound<'py, T>; type Error = Infallible;
    open spec fn pyof(&self) -> Option<PyV> { Some(self.pv()) }
    #[verifier::external_body]
    fn into_pyobject(self, py: Python<'py>) -> (r: Result<Self::Output, Self::Error>) { unimplemented!() }
}
impl PyNone {
    #[verifier::external_body]
    pub fn get<'py>(py: Python<'py>) -> (r: Bound<'py, PyNone>) ensures r.pv() == PyV::None, { unimplemented!() }
}
impl PyBool {
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>, v: bool) -> (r: Bound<'py, PyBool>) ensures r.pv() == PyV::Bool(v), { unimplemented!() }
}
impl PyString {
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>, s: &str) -> (r: Bound<'py, PyString>) ensures r.pv() == PyV::Str(s@), { unimplemented!() }
}
impl PyBytes {
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>, s: &[u8]) -> (r: Bound<'py, PyBytes>) ensures r.pv() == PyV::Bytes(s@), { unimplemented!() }
}
pub open spec fn pvs(v: Seq<Bound<PyAny>>) -> Seq<PyV> { Seq::new(v.len(), |i: int| v[i].pv()) }
impl PyTuple {
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>, v: Vec<Bound<'py, PyAny>>) -> (r: PyResult<Bound<'py, PyTuple>>)
        ensures r matches Ok(t) && t.pv() == PyV::Tuple(pvs(v@)), { unimplemented!() }
}
impl PyList {
    #[verifier::external_body]
    pub fn empty<'py>(py: Python<'py>) -> (r: Bound<'py, PyList>) ensures r.pv() == PyV::List(Seq::empty()), { unimplemented!() }
}
/// (R14: a list or dict made in this function is mutated through `&mut`, there is no other reference to it yet)
impl<'py> Bound<'py, PyList> {
    #[verifier::external_body]
    pub fn append<T: IntoPyObject<'py>>(&mut self, x: T) -> (r: PyResult<()>)
        requires old(self).pv() is List,
        ensures
            final(self).pv() is List,
            r is Ok <==> x.pyof() is Some,
            r is Ok ==> final(self).pv() == PyV::List(old(self).pv()->List_0.push(x.pyof().unwrap())),
            r matches Err(e) ==> e.cls == x.pyerr(),
            r is Err ==> final(self).pv() == old(self).pv(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures self.pv() matches PyV::List(l) ==> r == (l.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self.pv() matches PyV::List(l) ==> r == l.len(), { unimplemented!() }
}
impl PyDict {
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>) -> (r: Bound<'py, PyDict>) ensures r.pv() == PyV::Dict(Map::empty()), { unimplemented!() }
}
impl<'py> Bound<'py, PyDict> {
    #[verifier::external_body]
    pub fn set_item<K: IntoPyObject<'py>, T: IntoPyObject<'py>>(&mut self, k: K, x: T) -> (r: PyResult<()>)
        requires old(self).pv() is Dict, k.pyof() is Some ==> k.pyof().unwrap() is Str,
        ensures
            final(self).pv() is Dict,
            r is Ok <==> k.pyof() is Some && x.pyof() is Some,
            r is Ok ==> final(self).pv() == PyV::Dict(old(self).pv()->Dict_0.insert(k.pyof().unwrap()->Str_0, x.pyof().unwrap())),
            r matches Err(e) ==> e.cls == (if k.pyof() is None { k.pyerr() } else { x.pyerr() }),
            r is Err ==> final(self).pv() == old(self).pv(), { unimplemented!() }
}
pub struct PyBackedStr { pub v: Ghost<Seq<char>> }
impl PyBackedStr {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.v@, { unimplemented!() }
}
pub trait VfOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vf_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>)
        requires f.requires(()),
        ensures match self.opt() { Some(x) => r == Ok::<T, E>(x), None => r matches Err(e) && f.ensures((), e) };
}
impl<T> VfOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn vf_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) { match self { Some(x) => Ok(x), None => Err(f()) } }
}

// ---- std::time: only blocking socket calls take time in this model (everything else counts as scheduling slack)
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub open spec fn micros(x: u64) -> Duration { Duration { ns: (x as u128 * 1000) as u128 } }
    #[verifier::when_used_as_spec(micros)]
    pub const fn from_micros(x: u64) -> (r: Duration) ensures r == Self::micros(x), { Duration { ns: x as u128 * 1000 } }
    pub open spec fn millis(x: u64) -> Duration { Duration { ns: (x as u128 * 1_000_000) as u128 } }
    #[verifier::when_used_as_spec(millis)]
    pub const fn from_millis(x: u64) -> (r: Duration) ensures r == Self::millis(x), { Duration { ns: x as u128 * 1_000_000 } }
    pub open spec fn nanos(x: u64) -> Duration { Duration { ns: x as u128 } }
    #[verifier::when_used_as_spec(nanos)]
    pub const fn from_nanos(x: u64) -> (r: Duration) ensures r == Self::nanos(x), { Duration { ns: x as u128 } }
    pub fn max(self, o: Duration) -> (r: Duration) ensures r.ns == (if self.ns >= o.ns { self.ns } else { o.ns }), { if self.ns >= o.ns { self } else { o } }
    pub fn min(self, o: Duration) -> (r: Duration) ensures r.ns == (if self.ns <= o.ns { self.ns } else { o.ns }), { if self.ns <= o.ns { self } else { o } }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0), { self.ns == 0 }
}
#[derive(Clone, Copy)]
pub struct Instant { pub ns: u128 }
pub open spec fn INSTANT_MAX() -> nat { 0x7fff_ffff_ffff_ffff * 1_000_000_000 }
impl Instant {
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Instant>)
        ensures r matches Some(i) ==> i.ns == self.ns + d.ns, r is None ==> self.ns + d.ns > INSTANT_MAX(), { unimplemented!() }
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration)
        ensures r.ns == (if self.ns >= o.ns { self.ns - o.ns } else { 0 }), { Duration { ns: if self.ns >= o.ns { self.ns - o.ns } else { 0 } } }
}
// ---- std::net, socket2: a connected datagram socket
pub enum SocketAddr { V4(u8), V6(u8) }
pub struct SockAddr {}
impl SocketAddr {
    #[verifier::external_body]
    pub fn vf_into(self) -> SockAddr { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_parse_addr(s: &String) -> Result<SocketAddr, ()> { unimplemented!() }
pub enum Domain { IPV4, IPV6 }
pub enum Type { DGRAM }
pub enum Protocol { UDP }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { WouldBlock, ConnectionRefused, Interrupted, TimedOut, Other }
pub struct IoError { pub k: ErrorKind }
impl IoError {
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k, { self.k }
    #[verifier::external_body]
    pub fn to_string(&self) -> String { String::new() }
}
/// what has happened on a socket: datagrams sent and received, the read timeout in force, the time spent waiting
pub struct SockV { pub sent: Seq<Seq<u8>>, pub got: Seq<Seq<u8>>, pub timeout: Option<Duration>, pub nonblock: bool, pub clk: int }
pub struct Socket { z: u8 }
impl Socket {
    pub uninterp spec fn sv(&self) -> SockV;
    #[verifier::external_body]
    pub fn new(d: Domain, t: Type, p: Option<Protocol>) -> (r: Result<Socket, IoError>)
        ensures r matches Ok(s) ==> s.sv().sent.len() == 0 && s.sv().got.len() == 0 && s.sv().timeout is None && !s.sv().nonblock, { unimplemented!() }
    /// SO_RCVTIMEO has a resolution of 1us, zero is no timeout at all
    #[verifier::external_body]
    pub fn set_read_timeout(&mut self, d: Option<Duration>) -> (r: Result<(), IoError>)
        requires d matches Some(x) ==> x.ns >= 1000,
        ensures r is Ok ==> final(self).sv() == (SockV { timeout: d, ..old(self).sv() }), r is Err ==> final(self).sv() == old(self).sv(), { unimplemented!() }
    #[verifier::external_body]
    pub fn read_timeout(&self) -> (r: Result<Option<Duration>, IoError>)
        ensures r matches Ok(t) ==> t == self.sv().timeout && (t matches Some(x) ==> x.ns >= 1000), { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nonblocking(&mut self, v: bool) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).sv() == (SockV { nonblock: v, ..old(self).sv() }), r is Err ==> final(self).sv() == old(self).sv(), { unimplemented!() }
    #[verifier::external_body]
    pub fn set_tos(&self, v: u32) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn set_send_buffer_size(&self, v: usize) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn set_recv_buffer_size(&self, v: usize) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(&self, a: &SockAddr) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn as_raw_fd(&self) -> i32 { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, d: &[u8]) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> final(self).sv() == (SockV { sent: old(self).sv().sent.push(d@), ..old(self).sv() }),
            r is Err ==> final(self).sv() == old(self).sv(), { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            final(self).sv().clk >= old(self).sv().clk,
            old(self).sv().nonblock ==> final(self).sv().clk == old(self).sv().clk,
            old(self).sv().timeout matches Some(t) ==> final(self).sv().clk <= old(self).sv().clk + t.ns,
            r matches Ok(n) ==> n <= old(buf)@.len()
                && final(self).sv() == (SockV { got: old(self).sv().got.push(final(buf)@.subrange(0, n as int)), clk: final(self).sv().clk, ..old(self).sv() }),
            r matches Err(e) ==> final(self).sv() == (SockV { clk: final(self).sv().clk, ..old(self).sv() })
                && (e.k == ErrorKind::WouldBlock ==> old(self).sv().nonblock
                    || (old(self).sv().timeout matches Some(t) && final(self).sv().clk == old(self).sv().clk + t.ns)), { unimplemented!() }
    /// Instant::now(), read on the clock the waiting on this socket advances
    #[verifier::external_body]
    pub fn vf_now(&self) -> (r: Instant)
        ensures r.ns == self.sv().clk, { unimplemented!() }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub assume_specification[String::as_bytes](s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification[<String as AsRef<[u8]>>::as_ref](s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification<T, const N: usize>[<[T; N] as AsRef<[T]>>::as_ref](s: &[T; N]) -> (r: &[T]) ensures r@ == s@;
pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8])
    ensures #![trigger <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(a, b)] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_slice_ob() ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sv_eq(a: &[u8], b: &Vec<u8>)
    ensures #![trigger <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(a, b)] <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_sv_ob() ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn ax_rv_eq(a: &[u8], b: &Vec<u8>)
    ensures #![trigger <&[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(&a, b)] <&[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_rv_ob() ensures #[trigger] <&[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
/// == on octets compares the octets
pub broadcast group group_slice_eq { ax_slice_eq, ax_slice_ob, ax_sv_eq, ax_sv_ob, ax_rv_eq, ax_rv_ob }
