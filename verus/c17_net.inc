impl Rng for ChaCha12Rng { #[verifier::external_body] fn gen<T>(&mut self) -> (r: T) { unimplemented!() } }

// ---------------------------------------------------------------- bytes
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub struct BytesMut { pub b: Vec<u8> }
impl Bytes {
    #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Self) ensures r.b@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn from_array(v: [u8; 32]) -> (r: Self) ensures r.b@ == v@ { unimplemented!() }
}
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.b@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r.b@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice<A: ByteSlice + ?Sized>(&mut self, a: &A) ensures final(self).b@ == old(self).b@ + a.bytes() { unimplemented!() }
    /// reads the first 32 bytes (Buf::copy_to_slice; panics if there are fewer)
    #[verifier::external_body] pub fn copy_to_slice(&mut self, a: &mut [u8; 32]) requires old(self).b@.len() >= 32 ensures final(a)@ == old(self).b@.subrange(0, 32), final(self).b@ == old(self).b@.subrange(32, old(self).b@.len() as int) { unimplemented!() }
}
pub trait ByteSlice { spec fn bytes(&self) -> Seq<u8>; }
impl ByteSlice for [u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteSlice for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteSlice for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
/// vec[lo..hi].clone_into(&mut out) and out.copy_from_slice(&vec[lo..hi]): in range, else panic
#[verifier::external_body] pub fn clone_range(m: &BytesMut, lo: usize, hi: usize, out: &mut Vec<u8>) requires lo <= hi <= m.b@.len() ensures final(out)@ == m.b@.subrange(lo as int, hi as int) { unimplemented!() }
#[verifier::external_body] pub fn copy_range(m: &BytesMut, lo: usize, hi: usize, out: &mut [u8; 32]) requires lo <= hi <= m.b@.len(), hi - lo == 32 ensures final(out)@ == m.b@.subrange(lo as int, hi as int) { unimplemented!() }
/// the loops `*r = b ^ a` and `*r = b ^ a ^ c` over zipped bytes
#[verifier::external_body] pub fn xor2(r: &mut [u8; 32], a: &[u8; 32], b: Vec<u8>) requires b@.len() == 32 ensures final(r)@ == xor(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn xor3(r: &mut [u8; 32], a: &[u8; 32], b: Vec<u8>, c: Vec<u8>) requires b@.len() == 32, c@.len() == 32 ensures final(r)@ == xor(xor(a@, b@), c@) { unimplemented!() }
#[verifier::external_body] pub fn copy_vec(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }

/// RingElement<u8>: one byte each (convert_slice_rev reinterprets the slice)
pub struct El8(pub u8);
impl RingImpl for El8 { open spec fn enc1(self) -> Seq<u8> { seq![self.0] } open spec fn size() -> nat { 1 } proof fn fixed(a: Self, b: Self) { if a.enc1() == b.enc1() { assert(a.enc1()[0] == b.enc1()[0]); } } }
impl El8 { #[verifier::external_body] pub fn add_to_bytes(&self, m: &mut BytesMut) ensures final(m).b@ == old(m).b@ + self.enc1() { unimplemented!() } }
pub open spec fn els(b: Seq<u8>) -> Seq<El8> { Seq::new(b.len(), |i: int| El8(b[i])) }
#[verifier::external_body] pub fn elements<A: ByteSlice + ?Sized>(a: &A) -> (r: Vec<El8>) ensures r@ == els(a.bytes()) { unimplemented!() }
proof fn enc_els(b: Seq<u8>) ensures enc(els(b)) == b decreases b.len()
{
    if b.len() > 0 {
        enc_els(b.drop_last());
        assert(els(b).drop_last() =~= els(b.drop_last()));
        assert(enc(els(b)) =~= b);
    } else { assert(enc(els(b)) =~= b); }
}
proof fn enc_step(v: Seq<El8>, k: int) requires 0 <= k < v.len() ensures enc(v.subrange(0, k + 1)) == enc(v.subrange(0, k)) + v[k].enc1()
{ assert(v.subrange(0, k + 1).drop_last() =~= v.subrange(0, k)); }

impl Sha512 { pub fn output_size() -> (r: usize) ensures r == 64 { 64 } }
impl<R: RingImpl> Commitment<R> {
//@ extract iris-mpc/src/commitment/mod.rs fn get_comm_size in "impl<R: RingImpl> Commitment<R>"
//@ re "-> usize" => "-> (r: usize) ensures r == 64"
//@ end
//@ extract iris-mpc/src/commitment/mod.rs fn get_rand_size in "impl<R: RingImpl> Commitment<R>"
//@ re "-> usize" => "-> (r: usize) ensures r == 32"
//@ end
}

// ---------------------------------------------------------------- network: messages sent so far, messages still to be received
pub enum Error { Other, InvalidMessageSize, InvalidCommitment(usize), Network }
pub struct Net { pub id: usize, pub sent: Ghost<Map<int, Seq<Seq<u8>>>>, pub inb: Ghost<Map<int, Seq<Seq<u8>>>> }
pub open spec fn nx(i: int) -> int { if i == 2 { 0 } else { i + 1 } }
pub open spec fn pv(i: int) -> int { if i == 0 { 2 } else { i - 1 } }
impl Net {
    pub open spec fn sends(self, o: Net, to: int, d: Seq<u8>) -> bool { o.id == self.id && o.inb == self.inb && o.sent@ == self.sent@.insert(to, self.sent@[to].push(d)) }
    pub open spec fn takes(self, o: Net, from: int, d: Seq<u8>) -> bool { o.id == self.id && o.sent == self.sent && self.inb@[from].len() > 0 && d == self.inb@[from][0] && o.inb@ == self.inb@.insert(from, self.inb@[from].skip(1)) }
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == self.id { unimplemented!() }
    #[verifier::external_body] pub fn send(&mut self, to: usize, d: Bytes) -> (r: Result<(), Error>) requires old(self).id < 3, to < 3, to != old(self).id ensures r is Ok, old(self).sends(*final(self), to as int, d.b@) { unimplemented!() }
    #[verifier::external_body] pub fn receive(&mut self, from: usize) -> (r: Result<BytesMut, Error>) requires old(self).id < 3, from < 3, from != old(self).id
        ensures r is Ok ==> old(self).takes(*final(self), from as int, r->Ok_0.b@), old(self).inb@[from as int].len() > 0 ==> r is Ok { unimplemented!() }
    pub fn send_next_id(&mut self, d: Bytes) -> (r: Result<(), Error>) requires old(self).id < 3 ensures r is Ok, old(self).sends(*final(self), nx(old(self).id as int), d.b@) { let id = self.id; self.send(if id == 2 { 0 } else { id + 1 }, d) }
    pub fn send_prev_id(&mut self, d: Bytes) -> (r: Result<(), Error>) requires old(self).id < 3 ensures r is Ok, old(self).sends(*final(self), pv(old(self).id as int), d.b@) { let id = self.id; self.send(if id == 0 { 2 } else { id - 1 }, d) }
    pub fn receive_next_id(&mut self) -> (r: Result<BytesMut, Error>) requires old(self).id < 3
        ensures r is Ok ==> old(self).takes(*final(self), nx(old(self).id as int), r->Ok_0.b@), old(self).inb@[nx(old(self).id as int)].len() > 0 ==> r is Ok { let id = self.id; self.receive(if id == 2 { 0 } else { id + 1 }) }
    pub fn receive_prev_id(&mut self) -> (r: Result<BytesMut, Error>) requires old(self).id < 3
        ensures r is Ok ==> old(self).takes(*final(self), pv(old(self).id as int), r->Ok_0.b@), old(self).inb@[pv(old(self).id as int)].len() > 0 ==> r is Ok { let id = self.id; self.receive(if id == 0 { 2 } else { id - 1 }) }
}

/// what the previous party receives first is what this one appended
pub open spec fn delivered(from: Net, from0: Net, to: Net) -> bool { forall|k: int| 0 <= k < from.sent@[to.id as int].len() - from0.sent@[to.id as int].len() ==> k < to.inb@[from.id as int].len() && #[trigger] to.inb@[from.id as int][k] == from.sent@[to.id as int][from0.sent@[to.id as int].len() + k] }
