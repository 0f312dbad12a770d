// C09: lists of elements on the wire, for every number of elements and every message.
// Element encoders and decoders: contract of RingImpl below, decided for every width by kani/c09.rs.
// `async fn` is read as a sequential function, the network as sequences of messages.
use vstd::prelude::*;
verus! {
#[derive(Debug)]
pub enum Error { ConversionError, Other, Io }
pub struct BytesMut { pub b: Vec<u8> }
pub struct Bytes { pub b: Vec<u8> }
impl BytesMut {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.b@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r.b@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.b@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn copy_to_slice(&mut self, a: &mut [u8; 32]) requires old(self).b@.len() >= 32 ensures final(a)@ == old(self).b@.subrange(0, 32), final(self).b@ == old(self).b@.subrange(32, old(self).b@.len() as int) { unimplemented!() }
}
pub type PrfSeed = [u8; 32];

/// wire encoding of one element: fixed length, injective (decided by kani/c09.rs for every width)
pub trait RingImpl: Sized {
    spec fn enc1(self) -> Seq<u8>;
    spec fn bits() -> nat;
    proof fn law(a: Self, b: Self) ensures a.enc1().len() == (Self::bits() + 7) / 8, 0 < Self::bits() <= 128, a.enc1() == b.enc1() ==> a == b;
    fn k() -> (r: usize) ensures r == Self::bits();
    fn add_to_bytes(&self, other: &mut BytesMut) ensures final(other).b@ == old(other).b@ + self.enc1();
    fn to_bytes(self) -> (r: Bytes) ensures r.b@ == self.enc1();
    fn from_bytes_mut(other: BytesMut) -> (r: Result<Self, Error>) ensures r is Ok ==> other.b@ == r->Ok_0.enc1(), r is Err ==> forall|v: Self| #[trigger] v.enc1() != other.b@;
    fn take_from_bytes_mut(other: &mut BytesMut) -> (r: Result<Self, Error>)
        ensures r is Ok ==> old(other).b@ == r->Ok_0.enc1() + final(other).b@, r is Err ==> forall|v: Self| !#[trigger] v.enc1().is_prefix_of(old(other).b@);
}
pub open spec fn sz<T: RingImpl>() -> nat { ((T::bits() + 7) / 8) as nat }
/// encoding of a list: the encodings in order
pub open spec fn enc<T: RingImpl>(v: Seq<T>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc(v.drop_last()) + v.last().enc1() } }
/// m is the encoding of n elements
pub open spec fn valid<T: RingImpl>(m: Seq<u8>, n: int) -> bool { exists|v: Seq<T>| v.len() == n && #[trigger] enc(v) == m }
proof fn enc_len<T: RingImpl>(v: Seq<T>) ensures enc(v).len() == v.len() * sz::<T>(), sz::<T>() > 0 decreases v.len()
{
    let x: T = arbitrary(); T::law(x, x);
    if v.len() > 0 { enc_len(v.drop_last()); T::law(v.last(), v.last()); assert((v.len() - 1) * sz::<T>() + sz::<T>() == v.len() * sz::<T>()) by (nonlinear_arith); }
}
proof fn enc_split<T: RingImpl>(v: Seq<T>, k: int) requires 0 <= k <= v.len() ensures enc(v) == enc(v.take(k)) + enc(v.skip(k)) decreases v.len() - k
{
    if k == v.len() { assert(v.take(k) =~= v); assert(enc(v.skip(k)) =~= Seq::<u8>::empty()); assert(enc(v) + Seq::<u8>::empty() =~= enc(v)); }
    else { enc_split(v.drop_last(), k); let w = v.skip(k);
        assert(w.drop_last() =~= v.drop_last().skip(k)); assert(v.drop_last().take(k) =~= v.take(k));
        assert(enc(v) =~= enc(v.take(k)) + enc(w)); }
}
proof fn enc_one<T: RingImpl>(x: T) ensures enc(seq![x]) == x.enc1() { assert(seq![x].drop_last() =~= Seq::<T>::empty()); assert(seq![x].last() == x); assert(enc(Seq::<T>::empty()) =~= Seq::<u8>::empty()); assert(enc(seq![x]) == enc(seq![x].drop_last()) + x.enc1()); assert(Seq::<u8>::empty() + x.enc1() =~= x.enc1()); }
/// the encoding determines the list
proof fn enc_inj<T: RingImpl>(v: Seq<T>, w: Seq<T>) requires enc(v) == enc(w) ensures v == w decreases v.len()
{
    enc_len(v); enc_len(w);
    assert(v.len() == w.len()) by (nonlinear_arith) requires v.len() * sz::<T>() == w.len() * sz::<T>(), sz::<T>() > 0;
    if v.len() > 0 {
        T::law(v.last(), w.last()); T::law(w.last(), w.last()); enc_len(v.drop_last()); enc_len(w.drop_last());
        let n = enc(v.drop_last()).len() as int;
        assert(enc(v.drop_last()) =~= enc(v).take(n)); assert(enc(w.drop_last()) =~= enc(w).take(n));
        assert(v.last().enc1() =~= enc(v).skip(n)); assert(w.last().enc1() =~= enc(w).skip(n));
        enc_inj(v.drop_last(), w.drop_last());
        assert(v =~= v.drop_last().push(v.last())); assert(w =~= w.drop_last().push(w.last()));
    } else { assert(v =~= w); }
}
/// decoding k elements in order left `rest`: then any list that encodes m starts with them and goes on with rest
proof fn goes_on<T: RingImpl>(m: Seq<u8>, pre: Seq<T>, rest: Seq<u8>, v: Seq<T>) requires m == enc(pre) + rest, m == enc(v), pre.len() <= v.len() ensures v.take(pre.len() as int) == pre, enc(v.skip(pre.len() as int)) == rest
{
    let k = pre.len() as int;
    enc_split(v, k); enc_len(pre); enc_len(v.take(k));
    let n = enc(pre).len() as int;
    assert(enc(pre) =~= m.take(n)); assert(enc(v.take(k)) =~= m.take(n));
    enc_inj(v.take(k), pre);
    assert(rest =~= m.skip(n)); assert(enc(v.skip(k)) =~= m.skip(n));
}
proof fn first<T: RingImpl>(w: Seq<T>) requires w.len() > 0 ensures w[0].enc1().is_prefix_of(enc(w)), enc(w) == w[0].enc1() + enc(w.skip(1))
{
    enc_split(w, 1); assert(w.take(1) =~= seq![w[0]]); enc_one(w[0]);
    assert(w[0].enc1() =~= enc(w).take(w[0].enc1().len() as int));
}
/// a failing element: no list of n elements encodes m
proof fn stuck<T: RingImpl>(m: Seq<u8>, pre: Seq<T>, rest: Seq<u8>, n: int) requires m == enc(pre) + rest, pre.len() < n, forall|x: T| !#[trigger] x.enc1().is_prefix_of(rest) ensures !valid::<T>(m, n)
{
    if valid::<T>(m, n) { let v = choose|v: Seq<T>| v.len() == n && #[trigger] enc(v) == m; goes_on(m, pre, rest, v); first(v.skip(pre.len() as int)); }
}
proof fn extend<T: RingImpl>(m: Seq<u8>, pre: Seq<T>, rest0: Seq<u8>, x: T, rest: Seq<u8>) requires m == enc(pre) + rest0, rest0 == x.enc1() + rest ensures m == enc(pre.push(x)) + rest
{ assert(pre.push(x).drop_last() =~= pre); assert(enc(pre) + (x.enc1() + rest) =~= enc(pre.push(x)) + rest); }
proof fn too_long<T: RingImpl>(m: Seq<u8>, pre: Seq<T>, rest: Seq<u8>) requires m == enc(pre) + rest, rest.len() > 0 ensures !valid::<T>(m, pre.len() as int)
{ if valid::<T>(m, pre.len() as int) { let v = choose|v: Seq<T>| v.len() == pre.len() && #[trigger] enc(v) == m; goes_on(m, pre, rest, v); assert(v.skip(pre.len() as int).len() == 0); } }
proof fn bad_length<T: RingImpl>(m: Seq<u8>, n: int) requires m.len() != n * sz::<T>() ensures !valid::<T>(m, n)
{ if valid::<T>(m, n) { let v = choose|v: Seq<T>| v.len() == n && #[trigger] enc(v) == m; enc_len(v); } }

/// the elements a message still holds, if it holds any number of them exactly
pub open spec fn holds<T: RingImpl>(m: Seq<u8>, v: Seq<T>) -> bool { enc(v) == m }
pub struct RingBytesIter<T> { pub bytes: BytesMut, pub _marker: std::marker::PhantomData<T> }

pub mod utils {
use super::*;
//@ extract iris-mpc/src/aby3/utils.rs fn bytes_to_seed
//@ re "-> Result<PrfSeed, Error>" => "-> (r: Result<PrfSeed, Error>) ensures r is Ok <==> bytes.b@.len() == 32, r is Ok ==> r->Ok_0@ == bytes.b@"
//@ re "Error::Other\([^;]*?\.to_owned\(\),?\s*\)" => "Error::Other"
//@ all "pub\(crate\)" => "pub"
//@ re "Ok\(their_seed\)" => "proof { assert(their_seed@ =~= bytes0); } Ok(their_seed)"
//@ re "let mut their_seed" => "let ghost bytes0 = bytes.b@; let mut their_seed"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn ring_slice_to_bytes
//@ all "pub\(crate\)" => "pub"
//@ all "T::K" => "T::k()"
//@ re "vec: &\[T\]\) -> Bytes\s+where\s+T: RingImpl,\s*\{" => "vec: &[T]) -> (r: Bytes) where T: RingImpl requires vec@.len() * sz::<T>() <= usize::MAX ensures r.b@ == enc(vec@) { proof { let x: T = arbitrary(); T::law(x, x); assert(sz::<T>() * vec@.len() == vec@.len() * sz::<T>()) by (nonlinear_arith); }"
//@ re "for (\w+) in vec \{" => "for \1 in it: vec.iter() invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i], out.b@ == enc(vec@.take(it.index@)) { proof { assert(vec@.take(it.index@ + 1).drop_last() =~= vec@.take(it.index@)); }"
//@ re "out\.freeze\(\)" => "proof { assert(vec@.take(vec@.len() as int) =~= vec@); } out.freeze()"
//@ end
#[verifier::loop_isolation(false)]
//@ extract iris-mpc/src/aby3/utils.rs fn ring_vec_from_bytes
//@ all "pub\(crate\)" => "pub"
//@ re "-> Result<Vec<T>, Error>\s+where\s+T: RingImpl," => "-> (r: Result<Vec<T>, Error>) where T: RingImpl ensures r is Ok ==> r->Ok_0@.len() == n && enc(r->Ok_0@) == bytes.b@, r is Err ==> !valid::<T>(bytes.b@, n as int)"
//@ re "let mut res = Vec::with_capacity\(n\);" => "let ghost m = bytes.b@; let mut res: Vec<T> = Vec::with_capacity(n); proof { assert(m =~= enc(res@) + bytes.b@); }"
//@ re "for _ in 0\.\.n \{" => "for _i in 0..n invariant res@.len() == _i, m == enc(res@) + bytes.b@ { let ghost rest0 = bytes.b@;"
//@ re "res\.push\(T::take_from_bytes_mut\(&mut bytes\)\?\);" => "let x = match T::take_from_bytes_mut(&mut bytes) { Ok(x) => x, Err(e) => { proof { stuck::<T>(m, res@, rest0, n as int); } return Err(e) } }; proof { extend(m, res@, rest0, x, bytes.b@); } res.push(x);"
//@ re "return Err\(Error::ConversionError\);" => "proof { too_long::<T>(m, res@, bytes.b@); } return Err(Error::ConversionError);"
//@ re "Ok\(res\)" => "proof { assert(m =~= enc(res@)); } Ok(res)"
//@ end
#[verifier::loop_isolation(false)]
//@ extract iris-mpc/src/aby3/utils.rs fn ring_iter_from_bytes
//@ all "pub\(crate\)" => "pub"
//@ all "T::K" => "T::k()"
//@ re "-> Result<RingBytesIter<T>, Error>\s+where\s+T: RingImpl,\s*\{" => "-> (r: Result<RingBytesIter<T>, Error>) where T: RingImpl requires n * sz::<T>() <= usize::MAX ensures r is Ok ==> r->Ok_0.bytes.b@ == bytes.b@ && exists|v: Seq<T>| v.len() == n && #[trigger] holds(bytes.b@, v), r is Err ==> !valid::<T>(bytes.b@, n as int) { let ghost m = bytes.b@; proof { let x: T = arbitrary(); T::law(x, x); }"
//@ re "return Err\(Error::ConversionError\);" => "proof { bad_length::<T>(m, n as int); } return Err(Error::ConversionError);"
//@ re "let mut check = bytes\.clone\(\);" => "let mut check = bytes.clone(); let ghost mut pre: Seq<T> = Seq::empty(); proof { assert(m =~= enc(pre) + check.b@); }"
//@ re "for _ in 0\.\.n \{" => "for _i in 0..n invariant pre.len() == _i, m == enc(pre) + check.b@ { let ghost rest0 = check.b@;"
//@ re "T::take_from_bytes_mut\(&mut check\)\?;" => "let x = match T::take_from_bytes_mut(&mut check) { Ok(x) => x, Err(e) => { proof { stuck::<T>(m, pre, rest0, n as int); } return Err(e) } }; proof { extend(m, pre, rest0, x, check.b@); pre = pre.push(x); }"
//@ re "Ok\(RingBytesIter \{" => "proof { enc_len(pre); assert(pre.len() == n); assert(check.b@.len() == 0); assert(m =~= enc(pre)); assert(holds(m, pre)); } Ok(RingBytesIter {"
//@ end
impl<T: RingImpl> RingBytesIter<T> {
//@ extract iris-mpc/src/aby3/utils.rs fn next in "impl<T: RingImpl> Iterator for RingBytesIter<T>"
//@ re "fn next\(&mut self\) -> Option<Self::Item> \{" => "pub fn next(&mut self, Ghost(v): Ghost<Seq<T>>) -> (r: Option<T>) requires holds(old(self).bytes.b@, v) ensures v.len() == 0 ==> r is None && final(self).bytes == old(self).bytes, v.len() > 0 ==> r == Some(v[0]) && holds(final(self).bytes.b@, v.skip(1)) { proof { enc_len(v); if v.len() > 0 { first(v); assert(v.len() * sz::<T>() > 0) by (nonlinear_arith) requires v.len() > 0, sz::<T>() > 0; } } let ghost m = self.bytes.b@;"
//@ re "Some\(T::take_from_bytes_mut\(&mut self\.bytes\)\.expect\(\"checked while constructing\"\)\)" => "let x = T::take_from_bytes_mut(&mut self.bytes).expect(\"checked while constructing\"); proof { T::law(x, v[0]); T::law(v[0], v[0]); let k = x.enc1().len() as int; assert(x.enc1() =~= m.take(k)); assert(v[0].enc1() =~= m.take(k)); assert(self.bytes.b@ =~= m.skip(k)); assert(enc(v.skip(1)) =~= m.skip(k)); } Some(x)"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn size_hint in "impl<T: RingImpl> Iterator for RingBytesIter<T>"
//@ all "T::K" => "T::k()"
//@ re "fn size_hint\(&self\) -> \(usize, Option<usize>\) \{" => "pub fn size_hint(&self, Ghost(v): Ghost<Seq<T>>) -> (r: (usize, Option<usize>)) requires holds(self.bytes.b@, v) ensures r.0 == v.len(), r.1 == Some(r.0) { proof { let x: T = arbitrary(); T::law(x, x); enc_len(v); let a = v.len(); let s = sz::<T>(); assert((a * s) / s == a) by (nonlinear_arith) requires s > 0; }"
//@ end
}

// ---------------------------------------------------------------- one message out, one message in
pub struct Net { pub id: usize, pub sent: Ghost<Map<int, Seq<Seq<u8>>>>, pub inb: Ghost<Map<int, Seq<Seq<u8>>>> }
pub open spec fn nx(i: int) -> int { if i == 2 { 0 } else { i + 1 } }
pub open spec fn pv(i: int) -> int { if i == 0 { 2 } else { i - 1 } }
impl Net {
    pub open spec fn sends(self, o: Net, to: int, d: Seq<u8>) -> bool { o.id == self.id && o.inb == self.inb && o.sent@ == self.sent@.insert(to, self.sent@[to].push(d)) }
    pub open spec fn takes(self, o: Net, from: int, d: Seq<u8>) -> bool { o.id == self.id && o.sent == self.sent && self.inb@[from].len() > 0 && d == self.inb@[from][0] && o.inb@ == self.inb@.insert(from, self.inb@[from].skip(1)) }
    /// sends d to `to` and then takes m from `from`
    pub open spec fn trades(self, o: Net, to: int, d: Seq<u8>, from: int, m: Seq<u8>) -> bool { o.id == self.id && self.inb@[from].len() > 0 && m == self.inb@[from][0] && o.sent@ == self.sent@.insert(to, self.sent@[to].push(d)) && o.inb@ == self.inb@.insert(from, self.inb@[from].skip(1)) }
    #[verifier::external_body] pub fn send(&mut self, to: usize, d: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> old(self).sends(*final(self), to as int, d.b@) { unimplemented!() }
    #[verifier::external_body] pub fn send_next_id(&mut self, d: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> old(self).sends(*final(self), nx(old(self).id as int), d.b@) { unimplemented!() }
    #[verifier::external_body] pub fn send_prev_id(&mut self, d: Bytes) -> (r: Result<(), Error>) ensures r is Ok ==> old(self).sends(*final(self), pv(old(self).id as int), d.b@) { unimplemented!() }
    #[verifier::external_body] pub fn receive(&mut self, from: usize) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> old(self).takes(*final(self), from as int, r->Ok_0.b@) { unimplemented!() }
    #[verifier::external_body] pub fn receive_next_id(&mut self) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> old(self).takes(*final(self), nx(old(self).id as int), r->Ok_0.b@) { unimplemented!() }
    #[verifier::external_body] pub fn receive_prev_id(&mut self) -> (r: Result<BytesMut, Error>) ensures r is Ok ==> old(self).takes(*final(self), pv(old(self).id as int), r->Ok_0.b@) { unimplemented!() }
}
//@ extract iris-mpc/src/aby3/utils.rs fn send_and_receive
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "<N: NetworkTrait>" => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<BytesMut, IOError>" => "-> (r: Result<BytesMut, Error>) ensures r is Ok ==> old(network).trades(*final(network), nx(old(network).id as int), data.b@, pv(old(network).id as int), r->Ok_0.b@)"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_and_receive_value
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<R, Error>" => "-> (r: Result<R, Error>) ensures r is Ok ==> old(network).trades(*final(network), nx(old(network).id as int), value.enc1(), pv(old(network).id as int), r->Ok_0.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_slice_and_receive_vec
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<Vec<R>, Error>" => "-> (r: Result<Vec<R>, Error>) requires values@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> r->Ok_0@.len() == values@.len() && old(network).trades(*final(network), nx(old(network).id as int), enc(values@), pv(old(network).id as int), enc(r->Ok_0@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_slice_and_receive_iter
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<RingBytesIter<R>, Error>" => "-> (r: Result<RingBytesIter<R>, Error>) requires values@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> old(network).trades(*final(network), nx(old(network).id as int), enc(values@), pv(old(network).id as int), r->Ok_0.bytes.b@) && exists|v: Seq<R>| v.len() == values@.len() && #[trigger] holds(r->Ok_0.bytes.b@, v)"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_slices_and_receive_iters
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(RingBytesIter<R>, RingBytesIter<R>\), Error> \{" => "-> (r: Result<(RingBytesIter<R>, RingBytesIter<R>), Error>) requires values1@.len() * sz::<R>() <= usize::MAX, values2@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> ({ let (i, o) = (old(network).id as int, *final(network)); let (t, p) = (old(network).sent@[nx(i)], old(network).inb@[pv(i)]); let (a, b) = r->Ok_0; o.sent@[nx(i)] == t.push(enc(values1@)).push(enc(values2@)) && p.len() >= 2 && a.bytes.b@ == p[0] && b.bytes.b@ == p[1] && o.inb@[pv(i)] == p.skip(2) && (exists|v: Seq<R>| v.len() == values1@.len() && #[trigger] holds(a.bytes.b@, v)) && (exists|v: Seq<R>| v.len() == values2@.len() && #[trigger] holds(b.bytes.b@, v)) }) { let ghost p0 = network.inb@[pv(network.id as int)];"
//@ re "let response2 = ([^;]*);" => "let response2 = \1; proof { assert(p0.skip(1)[0] == p0[1]); assert(p0.skip(1).skip(1) =~= p0.skip(2)); }"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_value
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) ensures r is Ok ==> old(network).sends(*final(network), id as int, value.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_value_next
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) ensures r is Ok ==> old(network).sends(*final(network), nx(old(network).id as int), value.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_value_prev
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) ensures r is Ok ==> old(network).sends(*final(network), pv(old(network).id as int), value.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_vec
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires value@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> old(network).sends(*final(network), id as int, enc(value@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_vec_next
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires value@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> old(network).sends(*final(network), nx(old(network).id as int), enc(value@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_vec_prev
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires value@.len() * sz::<R>() <= usize::MAX ensures r is Ok ==> old(network).sends(*final(network), pv(old(network).id as int), enc(value@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_value
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<R, Error>" => "-> (r: Result<R, Error>) ensures r is Ok ==> old(network).takes(*final(network), id as int, r->Ok_0.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_value_next
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<R, Error>" => "-> (r: Result<R, Error>) ensures r is Ok ==> old(network).takes(*final(network), nx(old(network).id as int), r->Ok_0.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_value_prev
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<R, Error>" => "-> (r: Result<R, Error>) ensures r is Ok ==> old(network).takes(*final(network), pv(old(network).id as int), r->Ok_0.enc1())"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_vec
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<Vec<R>, Error>" => "-> (r: Result<Vec<R>, Error>) ensures r is Ok ==> r->Ok_0@.len() == len && old(network).takes(*final(network), id as int, enc(r->Ok_0@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_vec_next
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<Vec<R>, Error>" => "-> (r: Result<Vec<R>, Error>) ensures r is Ok ==> r->Ok_0@.len() == len && old(network).takes(*final(network), nx(old(network).id as int), enc(r->Ok_0@))"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_vec_prev
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "N: NetworkTrait, " => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<Vec<R>, Error>" => "-> (r: Result<Vec<R>, Error>) ensures r is Ok ==> r->Ok_0@.len() == len && old(network).takes(*final(network), pv(old(network).id as int), enc(r->Ok_0@))"
//@ end
}
fn main() {}
}
