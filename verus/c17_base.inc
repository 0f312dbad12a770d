// ---------------------------------------------------------------- rand: a generator is a state, each draw a function of it
pub type PrfSeed = [u8; 32];
pub struct Standard;
pub trait Distribution<T> {}
pub struct St { pub s: int }
pub uninterp spec fn init(seed: Seq<u8>) -> St;
pub uninterp spec fn val<T>(s: St) -> T;
pub uninterp spec fn adv<T>(s: St) -> St;
pub struct ChaCha12Rng { pub st: Ghost<St> }
impl ChaCha12Rng {
    #[verifier::external_body] pub fn from_seed(seed: PrfSeed) -> (r: Self) ensures r.st@ == init(seed@) { unimplemented!() }
    #[verifier::external_body] pub fn from_entropy() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn gen<T>(&mut self) -> (r: T)
        ensures r == val::<T>(old(self).st@), final(self).st@ == adv::<T>(old(self).st@) { unimplemented!() }
}
/// rand::Rng as the commitments use it
pub trait Rng { fn gen<T>(&mut self) -> (r: T); }

// ---------------------------------------------------------------- commitments
/// wire encoding of an element: fixed length and injective (contract decided by C09)
pub trait RingImpl: Sized { spec fn enc1(self) -> Seq<u8>; spec fn size() -> nat; proof fn fixed(a: Self, b: Self) ensures a.enc1().len() == Self::size(), Self::size() > 0, a.enc1() == b.enc1() ==> a == b; }
pub open spec fn enc<R: RingImpl>(v: Seq<R>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc(v.drop_last()) + v.last().enc1() } }
pub struct Bytes { pub b: Vec<u8> }
#[verifier::external_body] pub fn ring_slice_to_bytes<R: RingImpl>(v: &Vec<R>) -> (r: Bytes) ensures r.b@ == enc(v@) { unimplemented!() }
pub trait Absorb { spec fn bs(self) -> Seq<u8>; }
impl Absorb for Bytes { open spec fn bs(self) -> Seq<u8> { self.b@ } }
impl Absorb for [u8; 32] { open spec fn bs(self) -> Seq<u8> { self@ } }
/// the hash: 64 bytes, and injective on what is ever digested (collision resistance, assumed: of all inputs no function of fixed length is)
pub uninterp spec fn sha(x: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn digested(x: Seq<u8>) -> bool;
pub axiom fn collision_free(x: Seq<u8>, y: Seq<u8>) requires digested(x), digested(y) ensures sha(x) == sha(y) ==> x == y;
pub axiom fn digest_len(x: Seq<u8>) ensures sha(x).len() == 64;
pub struct Sha512 { pub d: Ghost<Seq<u8>> }
pub struct Digest { pub d: Ghost<Seq<u8>> }
impl Sha512 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.d@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<A: Absorb>(&mut self, a: A) ensures final(self).d@ == old(self).d@ + a.bs() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.d@ == sha(self.d@), digested(self.d@) { unimplemented!() }
}
impl Digest { #[verifier::external_body] pub fn to_vec(self) -> (r: Vec<u8>) ensures r@ == self.d@ { unimplemented!() } }

//@ extract iris-mpc/src/commitment/mod.rs struct Commitment
//@ end
//@ extract iris-mpc/src/commitment/mod.rs struct CommitOpening
//@ end
pub open spec fn com<R: RingImpl>(v: Seq<R>, rand: Seq<u8>) -> Seq<u8> { sha(enc(v) + rand) }
impl<R: RingImpl> Commitment<R> {
    pub open spec fn ok(self, v: Seq<R>) -> bool { self.values@ == v && self.comm@ == com(v, self.rand@) && digested(enc(v) + self.rand@) }
//@ extract iris-mpc/src/commitment/mod.rs fn commit_with_rand in "impl<R: RingImpl> Commitment<R>"
//@ re "-> Self" => "-> (r: Self) ensures r.ok(values@), r.rand == rand"
//@ re "hasher\.update\(rand\);" => "hasher.update(rand); proof { assert(Seq::<u8>::empty() + enc(values@) =~= enc(values@)); }"
//@ end
//@ extract iris-mpc/src/commitment/mod.rs fn commit in "impl<R: RingImpl> Commitment<R>"
//@ re "-> Self" => "-> (r: Self) ensures r.ok(values@)"
//@ end
//@ extract iris-mpc/src/commitment/mod.rs fn open in "impl<R: RingImpl> Commitment<R>"
//@ re "-> CommitOpening<R>" => "-> (r: CommitOpening<R>) ensures r.values == self.values, r.rand == self.rand"
//@ end
}
proof fn bytes_eq() ensures obeys_view_eq::<Vec<u8>>(), obeys_eq_spec::<Vec<u8>>()
{
    broadcast use vstd::laws_eq::group_laws_eq, vstd::std_specs::vec::lemma_vec_obeys_view_eq, vstd::std_specs::vec::lemma_vec_obeys_eq_spec;
    assert(obeys_eq_spec::<u8>());
    assert(obeys_concrete_eq::<u8>());
}
impl<R: RingImpl> CommitOpening<R> {
//@ extract iris-mpc/src/commitment/mod.rs fn verify in "impl<R: RingImpl> CommitOpening<R>"
//@ re "-> bool" => "-> (r: bool) ensures r == (comm@ == com(self.values@, self.rand@)), digested(enc(self.values@) + self.rand@)"
//@ re "let mut hasher" => "broadcast use vstd::laws_eq::group_laws_eq, vstd::std_specs::vec::lemma_vec_obeys_view_eq, vstd::std_specs::vec::lemma_vec_obeys_eq_spec; proof { bytes_eq(); reveal(obeys_view_eq); reveal(obeys_eq_spec); } let mut hasher"
//@ re "hasher\.update\(self\.rand\);" => "hasher.update(self.rand); proof { assert(Seq::<u8>::empty() + enc(self.values@) =~= enc(self.values@)); }"
//@ end
}
