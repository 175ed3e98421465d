@file buf/mod.rs
@file buf/buffer.rs
@filerw
AsMut<[MaybeUninit<u8>]> for Buffer ==> Buffer
&mut [MaybeUninit<u8>] ==> &mut [u8]
unsafe { &mut *(&mut self.data as *mut [u8; MAX_SIZE] as *mut [MaybeUninit<u8>; MAX_SIZE]) } ==> { &mut self.data }
@fn AsMut<[MaybeUninit<u8>]> for Buffer::as_mut
@name vf_as_mut_uninit
@ret r
@spec
    ensures r@ == old(self).data@, final(self).pos == old(self).pos, final(self).bookmark == old(self).bookmark,
        final(r)@.len() == r@.len() ==> final(self).data@ == final(r)@,
@append
impl Buffer {
    /// octets pushed so far (the message grows towards the front)
    pub open spec fn view(&self) -> Seq<u8> { self.data@.subrange(self.pos as int, MAX_SIZE as int) }
    pub open spec fn wf(&self) -> bool { self.pos <= MAX_SIZE }
    /// already pushed octets are still there
    pub open spec fn keeps(&self, o: Buffer) -> bool {
        self.pos <= o.pos && self.data@.subrange(o.pos as int, MAX_SIZE as int) == o.data@.subrange(o.pos as int, MAX_SIZE as int)
    }
}
pub broadcast proof fn lemma_keeps_trans(a: Buffer, b: Buffer, c: Buffer)
    requires a.wf(), #[trigger] b.keeps(a), #[trigger] c.keeps(b),
    ensures c.keeps(a),
{
    assert forall|i: int| a.pos <= i < MAX_SIZE implies c.data@[i] == a.data@[i] by {
        assert(c.data@.subrange(b.pos as int, MAX_SIZE as int)[i - b.pos] == b.data@.subrange(b.pos as int, MAX_SIZE as int)[i - b.pos]);
        assert(b.data@.subrange(a.pos as int, MAX_SIZE as int)[i - a.pos] == a.data@.subrange(a.pos as int, MAX_SIZE as int)[i - a.pos]);
    }
    assert(c.data@.subrange(a.pos as int, MAX_SIZE as int) =~= a.data@.subrange(a.pos as int, MAX_SIZE as int));
}
@fn Buffer::free
@ret r
@spec
    requires self.wf(),
    ensures r == MAX_SIZE - self@.len(), r == self.pos,
@fn Buffer::len
@ret r
@spec
    requires self.wf(),
    ensures r == self@.len(),
@fn Buffer::is_empty
@ret r
@spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
@fn Buffer::ensure_size
@ret r
@spec
    requires self.wf(),
    ensures
        r is Ok <==> self@.len() + v <= MAX_SIZE,
        r matches Err(x) ==> x is OutOfBuffer,
@fn Buffer::is_full
@ret r
@spec
    requires self.wf(),
    ensures r == (self@.len() == MAX_SIZE),
@fn Buffer::data
@ret r
@spec
    requires self.wf(),
    ensures r@ == self@,
@fn Buffer::set_bookmark
@spec
    requires old(self).wf(), delta <= old(self)@.len(),
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).keeps(*old(self)), final(self).bookmark == old(self).pos + delta,
        final(self).pos == old(self).pos,
@fn Buffer::get_bookmark
@ret r
@spec
    requires self.wf(), self.bookmark >= self.pos,
    ensures r == self.bookmark - self.pos,
@fn Buffer::skip
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
        final(self).pos == if old(self).pos < size { 0 } else { old(self).pos - size },
@fn Buffer::push_u8_unchecked
@spec
    requires old(self).wf(), old(self)@.len() < MAX_SIZE,
    ensures final(self).wf(), final(self)@ == seq![v] + old(self)@, final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
@exit
    proof {
        assert(final(self)@ =~= seq![v] + old(self)@);
        assert(final(self).data@.subrange(old(self).pos as int, MAX_SIZE as int) =~= old(self).data@.subrange(old(self).pos as int, MAX_SIZE as int));
    }
@fn Buffer::push_u8
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
        r is Ok <==> old(self)@.len() < MAX_SIZE,
        r is Ok ==> final(self)@ == seq![v] + old(self)@,
        r matches Err(x) ==> x is OutOfBuffer && final(self)@ == old(self)@,
@fn Buffer::push
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
        r is Ok <==> old(self)@.len() + chunk@.len() <= MAX_SIZE,
        r is Ok ==> final(self)@ == chunk@ + old(self)@,
        r matches Err(x) ==> x is OutOfBuffer && final(self)@ == old(self)@,
@tail
    proof {
        if vf_r is Ok { assert(final(self)@ =~= chunk@ + old(self)@); }
        assert(final(self).data@.subrange(old(self).pos as int, MAX_SIZE as int) =~= old(self).data@.subrange(old(self).pos as int, MAX_SIZE as int));
    }
@fn Buffer::push_tag_len
@ret r
@spec
    requires old(self).wf(), v < 65536,
    ensures final(self).wf(), final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
        r is Ok <==> old(self)@.len() + 1 + enc_len(v as nat).len() <= MAX_SIZE,
        r is Ok ==> final(self)@ == seq![tag] + enc_len(v as nat) + old(self)@,
        r matches Err(x) ==> x is OutOfBuffer,
@entry
    broadcast use crate::vspec::group_len, lemma_keeps_trans;
@tail
    proof { if v >= 128 { assert(final(self)@ =~= seq![tag] + enc_len(v as nat) + old(self)@); } }
@fn Buffer::push_tagged
@ret r
@entry
    broadcast use lemma_keeps_trans;
    proof { slice_max(data); }
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keeps(*old(self)), final(self).bookmark == old(self).bookmark,
        r is Ok <==> old(self)@.len() + tlv(tag, data@).len() <= MAX_SIZE,
        r is Ok ==> final(self)@ == tlv(tag, data@) + old(self)@,
        r matches Err(x) ==> x is OutOfBuffer,
@fn Buffer::reset
@spec
    ensures final(self).wf(), final(self)@ == Seq::<u8>::empty(), final(self).pos == MAX_SIZE,
@fn Buffer::as_slice
@ret r
@spec
    requires len <= MAX_SIZE,
    ensures r@ == self.data@.subrange(0, len as int),
@fn Buffer::data_mut
@ret r
@spec
    requires old(self).wf(),
    ensures r@ == old(self)@, final(self).pos == old(self).pos, final(self).bookmark == old(self).bookmark, final(self).wf(), final(r)@.len() == r@.len() ==> final(self)@ == final(r)@,
@fn AsMut<[u8]> for Buffer::as_mut
@ret r
@spec
    requires old(self).wf(),
    ensures r@ == old(self)@, final(self).pos == old(self).pos, final(self).bookmark == old(self).bookmark, final(self).wf(), final(r)@.len() == r@.len() ==> final(self)@ == final(r)@,
@fn Default for Buffer::default
@ret r
@spec
    ensures r.wf(), r@ == Seq::<u8>::empty(), r.pos == MAX_SIZE,
@end
