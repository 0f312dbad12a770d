#[derive(Debug)]
pub enum Error { JmpVerifyError, VerifyError, InvalidSizeError, IdError(usize), ValueError, ConversionError, Other }
/// Elements: a group under + and one under ^; the wire encoding has a fixed length and is injective (C09)
pub trait Elem: Sized + Copy {
    spec fn enc1(&self) -> Seq<u8>;
    spec fn size() -> nat;
    proof fn fixed(a: Self, b: Self) ensures a.enc1().len() == Self::size(), Self::size() > 0, a.enc1() == b.enc1() ==> a == b;
    spec fn plus(a: Self, b: Self) -> Self;
    spec fn exor(a: Self, b: Self) -> Self;
    proof fn plus_ac(a: Self, b: Self, c: Self) ensures Self::plus(a, b) == Self::plus(b, a), Self::plus(Self::plus(a, b), c) == Self::plus(a, Self::plus(b, c));
    proof fn exor_ac(a: Self, b: Self, c: Self) ensures Self::exor(a, b) == Self::exor(b, a), Self::exor(Self::exor(a, b), c) == Self::exor(a, Self::exor(b, c));
    fn add_to_hash(&self, h: &mut Sha512) ensures final(h).d@ == old(h).d@ + self.enc1();
    fn add_to_bytes(&self, other: &mut BytesMut) ensures final(other).v@ == old(other).v@ + self.enc1();
    fn to_bytes(self) -> (r: Bytes) ensures r.b@ == self.enc1();
    fn from_bytes_mut(o: BytesMut) -> (r: Result<Self, Error>) ensures r is Ok ==> r->Ok_0.enc1() == o.v@;
}
pub open spec fn plus3<S: Elem>(a: S, b: S, c: S) -> S { S::plus(S::plus(a, b), c) }
pub open spec fn exor3<S: Elem>(a: S, b: S, c: S) -> S { S::exor(S::exor(a, b), c) }
#[verifier::external_body] pub fn sum3<S: Elem>(a: S, b: S, c: S) -> (r: S) ensures r == plus3(a, b, c), r == plus3(b, c, a), r == plus3(a, c, b) { unimplemented!() }
#[verifier::external_body] pub fn xor3<S: Elem>(a: S, b: S, c: S) -> (r: S) ensures r == exor3(a, b, c), r == exor3(b, c, a), r == exor3(a, c, b) { unimplemented!() }
pub open spec fn enc<S: Elem>(v: Seq<S>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc(v.drop_last()) + v.last().enc1() } }
proof fn enc_next<S: Elem>(v: Seq<S>, i: int) requires 0 <= i < v.len() ensures enc(v.take(i + 1)) == enc(v.take(i)) + v[i].enc1()
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
proof fn enc_len<S: Elem>(v: Seq<S>) ensures enc(v).len() == v.len() * S::size() decreases v.len()
{ if v.len() > 0 { enc_len(v.drop_last()); S::fixed(v.last(), v.last()); let (n, z) = (v.len() as int, S::size() as int); assert(n * z == (n - 1) * z + z) by (nonlinear_arith); } else { assert(0 * S::size() == 0) by (nonlinear_arith); } }
proof fn enc_inj<S: Elem>(v: Seq<S>, w: Seq<S>) requires v.len() == w.len(), enc(v) == enc(w) ensures v == w decreases v.len()
{
    if v.len() > 0 {
        let (a, b) = (enc(v.drop_last()), enc(w.drop_last())); enc_len(v.drop_last()); enc_len(w.drop_last());
        S::fixed(v.last(), w.last());
        assert(a =~= enc(v).take(a.len() as int)); assert(b =~= enc(w).take(a.len() as int));
        assert(v.last().enc1() =~= enc(v).skip(a.len() as int)); assert(w.last().enc1() =~= enc(w).skip(a.len() as int));
        enc_inj(v.drop_last(), w.drop_last());
        assert(v =~= v.drop_last().push(v.last())); assert(w =~= w.drop_last().push(w.last()));
    } else { assert(v =~= w); }
}
// ---------------------------------------------------------------- bytes, hash, network
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { pub fn from(b: Vec<u8>) -> (r: Self) ensures r.b@ == b@ { Bytes { b } } }
pub struct BytesMut { pub v: Vec<u8> }
impl BytesMut { pub fn new() -> (r: Self) ensures r.v@.len() == 0 { BytesMut { v: Vec::new() } } pub fn freeze(self) -> (r: Bytes) ensures r.b@ == self.v@ { Bytes { b: self.v } } }
/// the hash: 64 bytes, and injective on what is ever digested (collision resistance, assumed: of all inputs no function of fixed length is)
pub uninterp spec fn sha(x: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn digested(x: Seq<u8>) -> bool;
pub axiom fn collision_free(x: Seq<u8>, y: Seq<u8>) requires digested(x), digested(y) ensures sha(x) == sha(y) ==> x == y;
pub axiom fn digest_len(x: Seq<u8>) ensures sha(x).len() == 64;
pub trait Absorb { spec fn bs(self) -> Seq<u8>; }
impl Absorb for Bytes { open spec fn bs(self) -> Seq<u8> { self.b@ } }
pub struct Sha512 { pub d: Ghost<Seq<u8>> }
pub struct Digest { pub d: Ghost<Seq<u8>> }
impl Sha512 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.d@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<A: Absorb>(&mut self, a: A) ensures final(self).d@ == old(self).d@ + a.bs() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.d@ == sha(self.d@), digested(self.d@) { unimplemented!() }
}
impl Digest { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.d@ { unimplemented!() } }
#[verifier::external_body] pub fn differs(a: &BytesMut, b: &Digest) -> (r: bool) ensures r == (a.v@ != b.d@) { unimplemented!() }
#[verifier::external_body] pub fn exchange_(a: &mut BytesMut, b: &mut BytesMut) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
/// what a party has sent and received, in order; an operation that fails may have done anything
pub enum Ev { ToNext(Seq<u8>), ToPrev(Seq<u8>), FromNext(Seq<u8>), FromPrev(Seq<u8>), To(int, Seq<u8>), From(int, Seq<u8>), Bcast(Seq<u8>, Seq<Seq<u8>>), Own(Own) }
pub open spec fn views(v: Seq<BytesMut>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].v@) }
#[verifier::external_body] pub fn unlike(a: &BytesMut, b: &BytesMut) -> (r: bool) ensures r == (a.v@ != b.v@) { unimplemented!() }
pub struct Net { pub log: Ghost<Seq<Ev>>, pub id: Ghost<nat> }
impl Net {
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == self.id@, r < 3 { unimplemented!() }
    #[verifier::external_body] pub fn send_next_id(&mut self, b: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::ToNext(b.b@)), final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] pub fn send_prev_id(&mut self, b: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::ToPrev(b.b@)), final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] pub fn receive_next_id(&mut self) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::FromNext(r->Ok_0.v@)), final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] pub fn receive_prev_id(&mut self) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::FromPrev(r->Ok_0.v@)), final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] pub fn broadcast(&mut self, b: Bytes) -> (r: Result<Vec<BytesMut>, Error>) ensures final(self).id == old(self).id, r is Ok ==> r->Ok_0@.len() == 3 && r->Ok_0@[old(self).id@ as int].v@ == b.b@ && final(self).log@ == old(self).log@.push(Ev::Bcast(b.b@, views(r->Ok_0@))) { unimplemented!() }
    #[verifier::external_body] pub fn send(&mut self, id: usize, b: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::To(id as int, b.b@)), final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body] pub fn receive(&mut self, id: usize) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> final(self).log@ == old(self).log@.push(Ev::From(id as int, r->Ok_0.v@)), final(self).id == old(self).id { unimplemented!() }
}
/// the helpers for messages of several elements: contracts decided by C09
#[verifier::external_body] pub fn ring_slice_to_bytes<S: Elem>(v: &[S]) -> (r: Bytes) ensures r.b@ == enc(v@) { unimplemented!() }
#[verifier::external_body] pub fn ring_vec_from_bytes<S: Elem>(b: BytesMut, n: usize) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == n && enc(r->Ok_0@) == b.v@ { unimplemented!() }
