// C04, the AND protocols of Aby3 and MalAby3, for lists of every length, every word and every width. Extraction directives
// are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include bits.inc
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub enum PartyID { ID0, ID1, ID2 }
pub open spec fn pid(p: PartyID) -> int { match p { PartyID::ID0 => 0, PartyID::ID1 => 1, PartyID::ID2 => 2 } }
pub struct Known { pub id: u8 }
impl PartyID { pub fn try_from(x: u8) -> (r: Known) ensures r.id == x { Known { id: x } } }
impl Known { #[verifier::external_body] pub fn expect(self, s: &str) -> (r: PartyID) requires self.id <= 2 ensures pid(r) == self.id { unimplemented!() } }
impl Share {
    pub fn new(a: El, b: El) -> (r: Self) ensures r.a == a, r.b == b { Share { a, b } }
//@ extract iris-mpc/src/aby3/share.rs fn xor_assign_const
//@ re "^.*?\bfn xor_assign_const\b[^{]*\{" => "pub fn xor_assign_const(&mut self, other: &El, id: PartyID) ensures *final(self) == s_const(*old(self), other.w@, pid(id)) {"
//@ all "([\w.]+) \^= ([^;,]*)(;|,)" => "\1 = \1 ^ (\2)\3"
//@ end
}
/// a public word added to a sharing: party 0 has it in its first component, party 1 in its second
pub open spec fn s_const(x: Share, w: u128, id: int) -> Share { if id == 0 { sh(x.a.w@ ^ w, x.b.w@) } else if id == 1 { sh(x.a.w@, x.b.w@ ^ w) } else { x } }
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> Self { unimplemented!() } }
//@ include iters.inc
#[derive(Debug)]
pub enum Error { InvalidSizeError, Other }
pub enum Ev { Sent(Seq<El>), Got(Seq<El>) }
pub struct Net { pub log: Ghost<Seq<Ev>>, pub id: usize }
impl Net { pub fn get_id(&self) -> (r: usize) ensures r == self.id { self.id } }
pub open spec fn traded(l: Seq<Ev>, t: Seq<El>, g: Seq<El>) -> Seq<Ev> { l.push(Ev::Sent(t)).push(Ev::Got(g)) }
pub mod utils { use super::*;
    #[verifier::external_body] pub fn send_and_receive_value(n: &mut Net, v: El) -> (r: Result<El, Error>) ensures final(n).id == old(n).id, r is Ok ==> final(n).log@ == traded(old(n).log@, seq![v], seq![r->Ok_0]) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_iter(n: &mut Net, v: &Vec<El>) -> (r: Result<Items<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0.v@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0.v@) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_vec(n: &mut Net, v: &Vec<El>) -> (r: Result<Vec<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0@) { unimplemented!() }
}
/// zero shares in the order they are drawn (C17)
pub struct Prf { pub log: Ghost<Seq<El>> }
impl Prf { #[verifier::external_body] pub fn gen_binary_zero_share(&mut self) -> (r: El) ensures final(self).log@ == old(self).log@.push(r) { unimplemented!() } }
pub struct Aby3 { pub network: Net, pub prf: Prf }
pub open spec fn drawn(o: Aby3, s: Aby3, n: int) -> bool { s.prf.log@.len() == o.prf.log@.len() + n && forall|i: int| 0 <= i < o.prf.log@.len() ==> #[trigger] s.prf.log@[i] == o.prf.log@[i] }
pub open spec fn zero_of(o: Aby3, s: Aby3, i: int) -> u128 { s.prf.log@[o.prf.log@.len() + i].w@ }
pub open spec fn reshared(o: Aby3, s: Aby3, r: Seq<Share>) -> bool { exists|g: Seq<El>| #[trigger] joined(r, g) && s.network.log@ == traded(o.network.log@, firsts(r), g) }
pub open spec fn joined(r: Seq<Share>, g: Seq<El>) -> bool { g.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].b == g[i] }
pub open spec fn firsts(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].a) }
proof fn commute() ensures forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a
{ assert forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a by { assert(a ^ b == b ^ a) by (bit_vector); } }
impl Aby3 {
//@ extract iris-mpc/src/aby3/protocol.rs fn and
//@ re "^.*?\bfn and\b[^{]*\{" => "pub fn and(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) ensures r is Ok ==> drawn(*old(self), *final(self), 1) && r->Ok_0.a.w@ == local(a, b) ^ zero_of(*old(self), *final(self), 0) && final(self).network.log@ == traded(old(self).network.log@, seq![r->Ok_0.a], seq![r->Ok_0.b]) { proof { commute(); }"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "([\w.]+) \^= ([^;]*);" => "\1 = \1 ^ (\2);"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn and_many
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<Share>, b: &Vec<Share>) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> a@.len() == b@.len() && drawn(*old(self), *final(self), a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r->Ok_0@[k]).a.w@ == local(a@[k], b@[k]) ^ zero_of(*old(self), *final(self), k)) && reshared(*old(self), *final(self), r->Ok_0@) { proof { commute(); }"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for (\([^{}]*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for k_ in 0..n_ invariant forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a, n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_a@[k]).w@ == local(a@[k], b@[k]) ^ zero_of(*old(self), *self, k) { let \1 = its.at_(k_);"
//@ all "([\w.]+) \^= ([^;]*);" => "\1 = \1 ^ (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
}
/// A triple of bits as it is packed into words (C06: the triples; C10: the packing)
pub struct Bits { pub words: Ghost<Seq<Share>> }
/// the width of a word
pub uninterp spec fn kk() -> int;
#[verifier::external_body] proof fn width() ensures 1 <= kk() <= 128 {}
#[verifier::external_body] pub fn k_() -> (r: usize) ensures r == kk(), 1 <= r <= 128 { unimplemented!() }
pub struct Mal { pub network: Net, pub triples: Ghost<Seq<(Seq<Share>, Seq<Share>, Seq<Share>)>>, pub opened: Ghost<Seq<(Seq<Share>, Seq<El>)>> }
/// the conjunction from one triple and the two opened words
pub open spec fn beaver(id: int, z: Share, a: Share, b: Share, u: u128, v: u128) -> Share { s_const(s_xor(s_xor(z, s_mask(b, u)), s_mask(a, v)), u & v, id) }
pub open spec fn step(o: Mal, s: Mal, a: Seq<Share>, b: Seq<Share>, r: Seq<Share>) -> bool {
    let t = s.triples@.last(); let p = s.opened@.last(); let n = a.len();
    s.triples@.len() == o.triples@.len() + 1 && s.opened@.len() == o.opened@.len() + 1 && t.0.len() == n && t.1.len() == n && t.2.len() == n && p.0.len() == 2 * n && p.1.len() == 2 * n && r.len() == n && b.len() == n
    && (forall|k: int| 0 <= k < n ==> #[trigger] p.0[k] == s_xor(a[k], t.0[k])) && (forall|k: int| 0 <= k < n ==> p.0[n + k] == s_xor(#[trigger] b[k], t.1[k]))
    && (forall|k: int| 0 <= k < n ==> #[trigger] r[k] == beaver(s.network.id as int, t.2[k], a[k], b[k], p.1[k].w@, p.1[n + k].w@))
}
impl El { pub fn to_sharetype(&self) -> (r: El) ensures r == *self { El { w: self.w } } }
impl Mal {
    #[verifier::external_body] pub fn get_mul_triple_many(&mut self, n: usize) -> (r: Result<(Bits, Bits, Bits), Error>) ensures final(self).network.id == old(self).network.id, final(self).opened == old(self).opened, r is Ok ==> final(self).triples@ == old(self).triples@.push((r->Ok_0.0.words@, r->Ok_0.1.words@, r->Ok_0.2.words@)), r is Ok ==> forall|len: int| len >= 0 && n == #[trigger] (kk() * len) ==> r->Ok_0.0.words@.len() == len && r->Ok_0.1.words@.len() == len && r->Ok_0.2.words@.len() == len { unimplemented!() }
    #[verifier::external_body] pub fn pack(&self, x: Bits) -> (r: Vec<Share>) ensures r@ == x.words@ { unimplemented!() }
    #[verifier::external_body] pub fn pack_exact(&self, x: Bits) -> (r: Share) requires x.words@.len() == 1 ensures r == x.words@[0] { unimplemented!() }
    #[verifier::external_body] pub fn reconstruct_binary_many(&mut self, x: Vec<Share>) -> (r: Result<Vec<El>, Error>) ensures final(self).network.id == old(self).network.id, final(self).triples == old(self).triples, r is Ok ==> r->Ok_0@.len() == x@.len() && final(self).opened@ == old(self).opened@.push((x@, r->Ok_0@)) { unimplemented!() }
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn and
//@ re "^.*?\bfn and\b[^{]*\{" => "pub fn and(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> final(self).network.id == old(self).network.id && step(*old(self), *final(self), seq![a], seq![b], seq![r->Ok_0]) { proof { xor3(); assert(kk() * 1 == kk()); }"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "::<Bit, ChaCha12Rng>" => ""
//@ all "T::Share::K" => "k_()"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn and_many
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<Share>, b: &Vec<Share>) -> (r: Result<Vec<Share>, Error>) requires old(self).network.id <= 2, 128 * a@.len() <= usize::MAX ensures r is Ok ==> final(self).network.id == old(self).network.id && step(*old(self), *final(self), a@, b@, r->Ok_0@) { proof { xor3(); width(); assert(0 <= kk() * a@.len() <= 128 * a@.len()) by (nonlinear_arith) requires 1 <= kk() <= 128; }"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "::<Bit, ChaCha12Rng>" => ""
//@ all "T::Share::K" => "k_()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut uv_ = " => "let mut uv_: Vec<Share> = "
//@ re "let mut res = " => "let mut res: Vec<Share> = "
//@ re "for \((\w+), (\w+)\) in (a\.[^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), its.v@ == zipped(a@, x@), x@.len() == a@.len(), uv_@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] uv_@[k] == s_xor(a@[k], x@[k]) { let (\1, \2) = its.at_(k_);"
//@ re "for \((\w+), (\w+)\) in (b\.[^{]*?) \{" => "let jts = (\3); let n_ = jts.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == a@.len(), jts.v@ == zipped(b@, y@), y@.len() == a@.len(), uv_@.len() == a@.len() + k_, forall|k: int| 0 <= k < a@.len() ==> #[trigger] uv_@[k] == s_xor(a@[k], x@[k]), forall|k: int| 0 <= k < k_ ==> uv_@[a@.len() + k] == s_xor(#[trigger] b@[k], y@[k]) { let (\1, \2) = jts.at_(k_);"
//@ re "for (\(z, [^{}]*?\)) in (z[^{]*?) \{" => "let ghost zs = z@; let rts = (\2); let n_ = rts.count_(); for k_ in 0..n_ invariant forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a, forall|a: u128, b: u128, c: u128| #[trigger] ((a ^ b) ^ c) == (a ^ c) ^ b, self.network.id <= 2, n_ == a@.len(), b@.len() == a@.len(), zs.len() == a@.len(), uv@.len() == 2 * a@.len(), rts.v@ == zipped(zs, zipped(zipped(a@, b@), zipped(uv@.take(a@.len() as int), uv@.skip(a@.len() as int)))), res@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] res@[k] == beaver(self.network.id as int, zs[k], a@[k], b@[k], uv@[k].w@, uv@[a@.len() + k].w@) { let \1 = rts.at_(k_);"
//@ end
}
proof fn xor3() ensures forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a, forall|a: u128, b: u128, c: u128| #[trigger] ((a ^ b) ^ c) == (a ^ c) ^ b
{
    commute();
    assert forall|a: u128, b: u128, c: u128| #[trigger] ((a ^ b) ^ c) == (a ^ c) ^ b by { assert((a ^ b) ^ c == (a ^ c) ^ b) by (bit_vector); }
}
// ---------------------------------------------------------------- the three parties together
/// the parties 0, 1, 2 hold replicated shares of w
pub open spec fn held(s: [Share; 3], w: u128) -> bool { s[0].b == s[2].a && s[1].b == s[0].a && s[2].b == s[1].a && s[0].a.w@ ^ s[1].a.w@ ^ s[2].a.w@ == w }
proof fn aby3_and(a: [Share; 3], b: [Share; 3], c: [Share; 3], x: u128, y: u128, z0: u128, z1: u128, z2: u128)
    requires held(a, x), held(b, y), z0 ^ z1 ^ z2 == 0,
        c[0].a.w@ == local(a[0], b[0]) ^ z0, c[1].a.w@ == local(a[1], b[1]) ^ z1, c[2].a.w@ == local(a[2], b[2]) ^ z2,
        c[0].b == c[2].a, c[1].b == c[0].a, c[2].b == c[1].a // what each received is what the previous one sent
    ensures held(c, x & y)
{
    let (a0, a1, a2, b0, b1, b2) = (a[0].a.w@, a[1].a.w@, a[2].a.w@, b[0].a.w@, b[1].a.w@, b[2].a.w@);
    assert((((a0 & b0) ^ (a0 & b2) ^ (a2 & b0)) ^ z0) ^ (((a1 & b1) ^ (a1 & b0) ^ (a0 & b1)) ^ z1) ^ (((a2 & b2) ^ (a2 & b1) ^ (a1 & b2)) ^ z2) == (a0 ^ a1 ^ a2) & (b0 ^ b1 ^ b2)) by (bit_vector) requires z0 ^ z1 ^ z2 == 0;
}
proof fn mal_and(a: [Share; 3], b: [Share; 3], x: [Share; 3], y: [Share; 3], z: [Share; 3], p: u128, q: u128, s: u128, t: u128, u: u128, v: u128)
    requires held(a, p), held(b, q), held(x, s), held(y, t), held(z, s & t), // the triple: C06
        u == p ^ s, v == q ^ t // what is opened: C02
    ensures held([beaver(0, z[0], a[0], b[0], u, v), beaver(1, z[1], a[1], b[1], u, v), beaver(2, z[2], a[2], b[2], u, v)], p & q)
{
    let (a0, a1, a2, b0, b1, b2) = (a[0].a.w@, a[1].a.w@, a[2].a.w@, b[0].a.w@, b[1].a.w@, b[2].a.w@);
    let (z0, z1, z2) = (z[0].a.w@, z[1].a.w@, z[2].a.w@);
    assert((((z0 ^ (b0 & u)) ^ (a0 & v)) ^ (u & v)) ^ ((z1 ^ (b1 & u)) ^ (a1 & v)) ^ ((z2 ^ (b2 & u)) ^ (a2 & v)) == (a0 ^ a1 ^ a2) & (b0 ^ b1 ^ b2)) by (bit_vector) requires z0 ^ z1 ^ z2 == s & t, u == (a0 ^ a1 ^ a2) ^ s, v == (b0 ^ b1 ^ b2) ^ t;
}
fn main() {}
}
