// C04, the AND protocol of Swift3: the local products with their registration for the proof of multiplication, and what each
// party computes, sends, queues and shares from them; for lists of every length. Extraction directives are replaced by the
// text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include bits.inc
impl Share {
    pub fn new(a: El, b: El) -> (r: Self) ensures r.a == a, r.b == b { Share { a, b } }
    pub fn get_ab(self) -> (r: (El, El)) ensures r == (self.a, self.b) { (self.a, self.b) }
}
#[verifier::external_body] pub fn el_zero() -> (r: El) ensures r == el(0) { unimplemented!() }
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> Self { unimplemented!() } }
//@ include iters.inc
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Swift { pub a: El, pub b: El, pub c: El }
pub open spec fn w_xor(x: Swift, y: Swift) -> Swift { Swift { a: el(x.a.w@ ^ y.a.w@), b: el(x.b.w@ ^ y.b.w@), c: el(x.c.w@ ^ y.c.w@) } }
//@ each R rhs | Swift o | &Swift *o
impl BitXorSpecImpl<$R> for Swift { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: $R) -> bool { true } open spec fn bitxor_spec(self, o: $R) -> Swift { w_xor(self, $rhs) } }
impl BitXor<$R> for Swift { type Output = Swift; #[verifier::external_body] fn bitxor(self, o: $R) -> Swift { unimplemented!() } }
//@ done
impl Swift {
    pub fn new(a: El, b: El, c: El) -> (r: Self) ensures r == (Swift { a, b, c }) { Swift { a, b, c } }
    pub fn get_abc(self) -> (r: (El, El, El)) ensures r == (self.a, self.b, self.c) { (self.a, self.b, self.c) }
}
#[derive(Debug)]
pub enum Error { InvalidSizeError, Other }
pub enum Ev { Sent(Seq<El>), Got(Seq<El>) }
pub struct Net { pub log: Ghost<Seq<Ev>>, pub id: usize }
impl Net { pub fn get_id(&self) -> (r: usize) ensures r == self.id { self.id } }
pub open spec fn traded(l: Seq<Ev>, t: Seq<El>, g: Seq<El>) -> Seq<Ev> { l.push(Ev::Sent(t)).push(Ev::Got(g)) }
pub mod utils { use super::*;
    #[verifier::external_body] pub fn send_and_receive_value(n: &mut Net, v: El) -> (r: Result<El, Error>) ensures final(n).id == old(n).id, r is Ok ==> final(n).log@ == traded(old(n).log@, seq![v], seq![r->Ok_0]) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_vec(n: &mut Net, v: &Vec<El>) -> (r: Result<Vec<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_iter(n: &mut Net, v: &Vec<El>) -> (r: Result<Items<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0.v@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0.v@) { unimplemented!() }
}
/// the two streams of random words a party shares with its neighbours (C17)
pub uninterp spec fn s1(n: int) -> u128;
pub uninterp spec fn s2(n: int) -> u128;
pub struct Prf { pub n1: Ghost<int>, pub n2: Ghost<int> }
impl Prf {
    #[verifier::external_body] pub fn gen_1(&mut self) -> (r: El) ensures r == el(s1(old(self).n1@)), *final(self) == (Prf { n1: Ghost(old(self).n1@ + 1), n2: old(self).n2 }) { unimplemented!() }
    #[verifier::external_body] pub fn gen_2(&mut self) -> (r: El) ensures r == el(s2(old(self).n2@)), *final(self) == (Prf { n1: old(self).n1, n2: Ghost(old(self).n2@ + 1) }) { unimplemented!() }
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_for_zero_share
//@ re "^.*?\bfn gen_for_zero_share\b[^{]*\{" => "pub fn gen_for_zero_share(&mut self) -> (r: (El, El)) ensures r == (el(s1(old(self).n1@)), el(s2(old(self).n2@))), *final(self) == (Prf { n1: Ghost(old(self).n1@ + 1), n2: Ghost(old(self).n2@ + 1) }) {"
//@ all "::<(T|T::Share)>" => ""
//@ end
}
/// what is waiting for the proof of multiplication: a, b, r and the result, two components each
pub struct Proof { pub log: Ghost<Seq<(Share, Share, Share, Share)>> }
impl Proof { #[verifier::external_body] pub fn register_and(&mut self, a0: El, a1: El, b0: El, b1: El, r0: El, r1: El, s0: El, s1: El) ensures final(self).log@ == old(self).log@.push((Share { a: a0, b: a1 }, Share { a: b0, b: b1 }, Share { a: r0, b: r1 }, Share { a: s0, b: s1 })) { unimplemented!() } }
/// joint messages (contracts: verus/c15_swift3.rs)
/// kept apart by kind and by party: the order across them does not matter
pub struct JL { pub s1: Seq<Seq<El>>, pub s2: Seq<Seq<El>>, pub sx: Seq<(Seq<El>, int)>, pub q1: Seq<Seq<El>>, pub q2: Seq<Seq<El>>, pub qx: Seq<(Seq<El>, int)>, pub g: Seq<(Seq<El>, int)>, pub sh: Seq<(Option<Seq<El>>, int, int, int, Seq<Swift>)> }
impl JL { pub open spec fn push(self, j: J) -> JL { match j {
    J::Send(v, id) => if id == 1 { JL { s1: self.s1.push(v), ..self } } else if id == 2 { JL { s2: self.s2.push(v), ..self } } else { JL { sx: self.sx.push((v, id)), ..self } },
    J::Queue(v, id) => if id == 1 { JL { q1: self.q1.push(v), ..self } } else if id == 2 { JL { q2: self.q2.push(v), ..self } } else { JL { qx: self.qx.push((v, id)), ..self } },
    J::Got(v, id) => JL { g: self.g.push((v, id)), ..self },
    J::Shared(x, s, t, r, q) => JL { sh: self.sh.push((x, s, t, r, q)), ..self },
} } }
pub enum J { Send(Seq<El>, int), Queue(Seq<El>, int), Got(Seq<El>, int), Shared(Option<Seq<El>>, int, int, int, Seq<Swift>) }
pub struct Sw { pub network: Net, pub prf: Prf, pub and_proof: Proof, pub jlog: Ghost<JL> }
pub open spec fn kept(o: Sw, n: Sw) -> bool { n.network == o.network && n.and_proof == o.and_proof }
pub trait SetAt { fn set_at(&mut self, i: usize, v: El); }
impl SetAt for Vec<El> { #[verifier::external_body] fn set_at(&mut self, i: usize, v: El) ensures i < old(self)@.len() ==> final(self)@ == old(self)@.update(i as int, v) { unimplemented!() } }
/// the k-th pair of random words drawn
pub open spec fn rnd(o: Sw, k: int) -> Swift { Swift { a: el(s1(o.prf.n1@ + k)), b: el(s2(o.prf.n2@ + k)), c: el(0) } }
/// the products of public part and own component
pub open spec fn ya(o: Sw, a: Swift, b: Swift, de: Share, k: int) -> El { el((((a.a.w@ & b.c.w@) ^ (b.a.w@ & a.c.w@)) ^ de.a.w@) ^ s1(o.prf.n1@ + k)) }
pub open spec fn yb(o: Sw, a: Swift, b: Swift, de: Share, k: int) -> El { el((((a.b.w@ & b.c.w@) ^ (b.b.w@ & a.c.w@)) ^ de.b.w@) ^ s2(o.prf.n2@ + k)) }
/// what parties 1 and 2 share jointly
pub open spec fn zr_of(a: Swift, b: Swift, ya: El, yb: El, got: El) -> El { el(((ya.w@ ^ yb.w@) ^ got.w@) ^ (a.c.w@ & b.c.w@)) }
pub open spec fn yas(o: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>) -> Seq<El> { Seq::new(a.len(), |k: int| ya(o, a[k], b[k], de[k], k)) }
pub open spec fn ybs(o: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>) -> Seq<El> { Seq::new(a.len(), |k: int| yb(o, a[k], b[k], de[k], k)) }
pub open spec fn zrs(o: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>, g: Seq<El>) -> Seq<El> { Seq::new(a.len(), |k: int| zr_of(a[k], b[k], ya(o, a[k], b[k], de[k], k), yb(o, a[k], b[k], de[k], k), g[k])) }
pub open spec fn part0(o: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>, q: Seq<Swift>) -> bool { n.jlog@ == o.jlog@.push(J::Send(yas(o, a, b, de), 2)).push(J::Send(ybs(o, a, b, de), 1)).push(J::Shared(None, 1, 2, 0, q)) }
pub open spec fn part1(o: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>, g: Seq<El>, q: Seq<Swift>) -> bool { g.len() == a.len() && n.jlog@ == o.jlog@.push(J::Queue(ybs(o, a, b, de), 2)).push(J::Got(g, 0)).push(J::Shared(Some(zrs(o, a, b, de, g)), 1, 2, 0, q)) }
pub open spec fn part2(o: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>, g: Seq<El>, q: Seq<Swift>) -> bool { g.len() == a.len() && n.jlog@ == o.jlog@.push(J::Queue(yas(o, a, b, de), 1)).push(J::Got(g, 0)).push(J::Shared(Some(zrs(o, a, b, de, g)), 1, 2, 0, q)) }
pub open spec fn offset(o: Sw, q: Seq<Swift>, r: Seq<Swift>) -> bool { r.len() == q.len() && forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == w_xor(q[k], rnd(o, k)) }
/// everything the second half of the protocol does, and its result
pub open spec fn post(o: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, de: Seq<Share>, r: Seq<Swift>) -> bool {
    r.len() == a.len() && kept(o, n) && (o.network.id == 0 ==> exists|q: Seq<Swift>| offset(o, q, r) && #[trigger] part0(o, n, a, b, de, q))
    && (o.network.id == 1 ==> exists|g: Seq<El>, q: Seq<Swift>| offset(o, q, r) && #[trigger] part1(o, n, a, b, de, g, q))
    && (o.network.id == 2 ==> exists|g: Seq<El>, q: Seq<Swift>| offset(o, q, r) && #[trigger] part2(o, n, a, b, de, g, q))
}
/// the first half: local products, reshared, and registered for the proof
pub open spec fn reg(o: Sw, a: Share, b: Share, r: Share, k: int) -> (Share, Share, Share, Share) { (a, b, sh(s1(o.prf.n1@ + k), s2(o.prf.n2@ + k)), r) }
pub open spec fn firsts(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].a) }
pub open spec fn seconds(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].b) }
pub open spec fn pre(o: Sw, n: Sw, a: Seq<Share>, b: Seq<Share>, r: Seq<Share>) -> bool {
    r.len() == a.len() && b.len() == a.len() && n.network.id == o.network.id && n.jlog == o.jlog && n.prf.n1@ == o.prf.n1@ + a.len() && n.prf.n2@ == o.prf.n2@ + a.len()
    && n.network.log@ == traded(o.network.log@, firsts(r), seconds(r)) && n.and_proof.log@ == o.and_proof.log@ + Seq::new(a.len(), |k: int| reg(o, a[k], b[k], r[k], k))
    && (forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]).a.w@ == local(a[k], b[k]) ^ (s1(o.prf.n1@ + k) ^ s2(o.prf.n2@ + k)))
}
pub open spec fn alphas(a: Seq<Swift>) -> Seq<Share> { Seq::new(a.len(), |k: int| Share { a: a[k].a, b: a[k].b }) }
proof fn commute() ensures forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a
{ assert forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a by { assert(a ^ b == b ^ a) by (bit_vector); } }
/// the order of terms does not matter
proof fn perm3(a: u128, b: u128, c: u128) ensures (a ^ b) ^ c == (a ^ b) ^ c && (a ^ c) ^ b == (a ^ b) ^ c && (b ^ a) ^ c == (a ^ b) ^ c && (b ^ c) ^ a == (a ^ b) ^ c && (c ^ a) ^ b == (a ^ b) ^ c && (c ^ b) ^ a == (a ^ b) ^ c { assert((a ^ b) ^ c == (a ^ b) ^ c && (a ^ c) ^ b == (a ^ b) ^ c && (b ^ a) ^ c == (a ^ b) ^ c && (b ^ c) ^ a == (a ^ b) ^ c && (c ^ a) ^ b == (a ^ b) ^ c && (c ^ b) ^ a == (a ^ b) ^ c) by (bit_vector); }
proof fn perm4(a: u128, b: u128, c: u128, d: u128) ensures ((a ^ b) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ b) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ b) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ b) ^ a == ((a ^ b) ^ c) ^ d { assert(((a ^ b) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ b) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ b) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ b) ^ a == ((a ^ b) ^ c) ^ d) by (bit_vector); }
/// the same for what one position computes
proof fn forms(o: Sw, a: Swift, b: Swift, de: Share, k: int) ensures
    forms3(ya(o, a, b, de, k).w@, yb(o, a, b, de, k).w@, a.c.w@ & b.c.w@),
    forms4(a.a.w@ & b.c.w@, b.a.w@ & a.c.w@, de.a.w@, s1(o.prf.n1@ + k)), forms4(a.b.w@ & b.c.w@, b.b.w@ & a.c.w@, de.b.w@, s2(o.prf.n2@ + k)),
{ perm3(ya(o, a, b, de, k).w@, yb(o, a, b, de, k).w@, a.c.w@ & b.c.w@); perm4(a.a.w@ & b.c.w@, b.a.w@ & a.c.w@, de.a.w@, s1(o.prf.n1@ + k)); perm4(a.b.w@ & b.c.w@, b.b.w@ & a.c.w@, de.b.w@, s2(o.prf.n2@ + k)); }
pub open spec fn forms3(a: u128, b: u128, c: u128) -> bool { (a ^ b) ^ c == (a ^ b) ^ c && (a ^ c) ^ b == (a ^ b) ^ c && (b ^ a) ^ c == (a ^ b) ^ c && (b ^ c) ^ a == (a ^ b) ^ c && (c ^ a) ^ b == (a ^ b) ^ c && (c ^ b) ^ a == (a ^ b) ^ c }
pub open spec fn forms4(a: u128, b: u128, c: u128, d: u128) -> bool { ((a ^ b) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ b) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((a ^ c) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((a ^ d) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ c) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ a) ^ d) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((b ^ c) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((b ^ d) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ b) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ a) ^ d) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ a) ^ d == ((a ^ b) ^ c) ^ d && ((c ^ b) ^ d) ^ a == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((c ^ d) ^ b) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ a) ^ c) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ a) ^ c == ((a ^ b) ^ c) ^ d && ((d ^ b) ^ c) ^ a == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ a) ^ b == ((a ^ b) ^ c) ^ d && ((d ^ c) ^ b) ^ a == ((a ^ b) ^ c) ^ d }
proof fn last(a: u128, b: u128, z: u128, g: u128) ensures ((a ^ b) ^ z) ^ g == ((a ^ b) ^ g) ^ z { perm4(a, b, z, g); }
impl Sw {
    #[verifier::external_body] pub fn jmp_send(&mut self, v: El, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Send(seq![v], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_queue(&mut self, v: El, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Queue(seq![v], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_receive(&mut self, id: usize) -> (r: Result<El, Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Got(seq![r->Ok_0], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jshare_binary(&mut self, x: Option<El>, s1: usize, s2: usize, rc: usize) -> (r: Result<Swift, Error>) ensures kept(*old(self), *final(self)), r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Shared(one(x), s1 as int, s2 as int, rc as int, seq![r->Ok_0])) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_send_many(&mut self, v: &Vec<El>, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Send(v@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_queue_many(&mut self, v: &Vec<El>, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Queue(v@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_receive_many(&mut self, id: usize, len: usize) -> (r: Result<Vec<El>, Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> r->Ok_0@.len() == len && final(self).jlog@ == old(self).jlog@.push(J::Got(r->Ok_0@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jshare_binary_many(&mut self, x: Option<Vec<El>>, s1: usize, s2: usize, rc: usize, len: usize) -> (r: Result<Vec<Swift>, Error>) ensures kept(*old(self), *final(self)), r is Ok ==> r->Ok_0@.len() == len && final(self).jlog@ == old(self).jlog@.push(J::Shared(all_of(x), s1 as int, s2 as int, rc as int, r->Ok_0@)) { unimplemented!() }
//@ extract iris-mpc/src/swift3/protocol.rs fn mul_pre
//@ re "^.*?\bfn mul_pre\b[^{]*\{" => "pub fn mul_pre(&self, a: Swift, b: Swift) -> (r: (Share, Share)) ensures r == (Share { a: a.a, b: a.b }, Share { a: b.a, b: b.b }) {"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<T>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn aby_and
//@ re "^.*?\bfn aby_and\b[^{]*\{" => "pub fn aby_and(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) ensures r is Ok ==> pre(*old(self), *final(self), seq![a], seq![b], seq![r->Ok_0]) { proof { commute(); }"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<T>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ all "([\w.]+) \^= ([^;]*);" => "\1 = \1 ^ (\2);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(firsts(seq![\1]) =~= seq![\1.a]); assert(seconds(seq![\1]) =~= seq![\1.b]); assert(self.and_proof.log@ =~= old(self).and_proof.log@ + Seq::new(1, |k: int| reg(*old(self), seq![a][k], seq![b][k], seq![\1][k], k))); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn aby_and_many
//@ re "^.*?\bfn aby_and_many\b[^{]*\{" => "pub fn aby_and_many(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len() ensures r is Ok ==> pre(*old(self), *final(self), a@, b@, r->Ok_0@) { proof { commute(); }"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<T>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for \(((?:a|b)_), ((?:a|b)_)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant forall|a: u128, b: u128| #[trigger] (a ^ b) == b ^ a, n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), self.network == old(self).network, self.jlog == old(self).jlog, self.and_proof == old(self).and_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, shares_a@.len() == k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_a@[k]).w@ == local(a@[k], b@[k]) ^ (s1(old(self).prf.n1@ + k) ^ s2(old(self).prf.n2@ + k)), forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == sh(s1(old(self).prf.n1@ + k), s2(old(self).prf.n2@ + k)) { let (\1, \2) = its.at_(k_);"
//@ all "([\w.]+) \^= ([^;]*);" => "\1 = \1 ^ (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(seconds(res@) =~= shares_b.sq()); }"
//@ re "for (\(\(\(a, b\), c\), r\)) in ([^{]*?) \{" => "let ghost net = self.network; let ghost as_ = a@; let ghost bs_ = b@; let ghost p0 = self.and_proof.log@; let jts = (\2); let n_ = jts.count_(); for k_ in 0..n_ invariant self.network == net, self.jlog == old(self).jlog, self.prf.n1@ == old(self).prf.n1@ + as_.len(), self.prf.n2@ == old(self).prf.n2@ + as_.len(), n_ == as_.len(), bs_.len() == as_.len(), res@.len() == as_.len(), rs@.len() == as_.len(), jts.v@ == zipped(zipped(zipped(as_, bs_), res@), rs@), forall|k: int| 0 <= k < as_.len() ==> #[trigger] rs@[k] == sh(s1(old(self).prf.n1@ + k), s2(old(self).prf.n2@ + k)), self.and_proof.log@ =~= p0 + Seq::new(k_ as nat, |k: int| reg(*old(self), as_[k], bs_[k], res@[k], k)) { let \1 = jts.at_(k_);"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn and_post
//@ re "^.*?\bfn and_post\b[^{]*\{" => "pub fn and_post(&mut self, a: Swift, b: Swift, de: Share) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> post(*old(self), *final(self), seq![a], seq![b], seq![de], seq![r->Ok_0]) { let ghost me = *self; let ghost mut gs: Seq<El> = Seq::empty(); let ghost (a0, b0, de0) = (a, b, de); proof { forms(me, a, b, de, 0); assert(yas(me, seq![a], seq![b], seq![de]) =~= seq![ya(me, a, b, de, 0)]); assert(ybs(me, seq![a], seq![b], seq![de]) =~= seq![yb(me, a, b, de, 0)]); }"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "let (\w+) = (self\.jmp_receive\([^;]*);" => "let \1 = \2; proof { gs = seq![\1]; perm4(ya(me, a0, b0, de0, 0).w@, yb(me, a0, b0, de0, 0).w@, \1.w@, a0.c.w@ & b0.c.w@); assert(zrs(me, seq![a0], seq![b0], seq![de0], gs) =~= seq![zr_of(a0, b0, ya(me, a0, b0, de0, 0), yb(me, a0, b0, de0, 0), gs[0])]); }"
//@ re "Ok\(([^()]*)\)\s*\}\s*$" => "proof { let q = seq![share]; assert(offset(me, q, seq![w_xor(share, rnd(me, 0))])); if me.network.id == 0 { assert(part0(me, *self, seq![a0], seq![b0], seq![de0], q)); } else if me.network.id == 1 { assert(part1(me, *self, seq![a0], seq![b0], seq![de0], gs, q)); } else { assert(part2(me, *self, seq![a0], seq![b0], seq![de0], gs, q)); } } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn and_post_many
//@ re "^.*?\bfn and_post_many\b[^{]*\{" => "pub fn and_post_many(&mut self, a: &Vec<Swift>, b: &Vec<Swift>, de: Vec<Share>) -> (r: Result<Vec<Swift>, Error>) requires old(self).network.id <= 2, b@.len() == a@.len(), de@.len() == a@.len() ensures r is Ok ==> post(*old(self), *final(self), a@, b@, de@, r->Ok_0@) { let ghost me = *self; let ghost mut gs: Seq<El> = Seq::empty(); let ghost mut q: Seq<Swift> = Seq::empty(); let ghost de0 = de@;"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ re "let mut shares = " => "let mut shares: Vec<Swift> = "
//@ all "let mut (y1s|y3s|zr) = " => "let mut \1: Vec<El> = "
//@ all "let mut rs = " => "let mut rs: Vec<Swift> = "
//@ re "(\b0 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), self.network == old(self).network, self.jlog == old(self).jlog, self.and_proof == old(self).and_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), true, y1s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y1s@[k] == ya(*old(self), a@[k], b@[k], de0[k], k), y3s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y3s@[k] == yb(*old(self), a@[k], b@[k], de0[k], k) { proof { forms(*old(self), a@[k_ as int], b@[k_ as int], de0[k_ as int], k_ as int); } let (de, (\2, \3)) = its.at_(k_);"
//@ re "(\b1 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), self.network == old(self).network, self.jlog == old(self).jlog, self.and_proof == old(self).and_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), true, y1s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y1s@[k] == yb(*old(self), a@[k], b@[k], de0[k], k), zr@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] zr@[k] == el((ya(*old(self), a@[k], b@[k], de0[k], k).w@ ^ yb(*old(self), a@[k], b@[k], de0[k], k).w@) ^ (a@[k].c.w@ & b@[k].c.w@)) { proof { forms(*old(self), a@[k_ as int], b@[k_ as int], de0[k_ as int], k_ as int); } let (de, (\2, \3)) = its.at_(k_);"
//@ re "(\b2 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), self.network == old(self).network, self.jlog == old(self).jlog, self.and_proof == old(self).and_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), true, y3s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y3s@[k] == ya(*old(self), a@[k], b@[k], de0[k], k), zr@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] zr@[k] == el((ya(*old(self), a@[k], b@[k], de0[k], k).w@ ^ yb(*old(self), a@[k], b@[k], de0[k], k).w@) ^ (a@[k].c.w@ & b@[k].c.w@)) { proof { forms(*old(self), a@[k_ as int], b@[k_ as int], de0[k_ as int], k_ as int); } let (de, (\2, \3)) = its.at_(k_);"
//@ all "(self\.jmp_(?:send|queue)_many\(&y1s, )" => "proof { if me.network.id == 0 { assert(y1s@ =~= yas(me, a@, b@, de0)); } else { assert(y1s@ =~= ybs(me, a@, b@, de0)); } } \1"
//@ all "(self\.jmp_(?:send|queue)_many\(&y3s, )" => "proof { if me.network.id == 0 { assert(y3s@ =~= ybs(me, a@, b@, de0)); } else { assert(y3s@ =~= yas(me, a@, b@, de0)); } } \1"
//@ all "let (\w+) = (self\.jmp_receive_many\([^;]*);" => "let \1 = \2; proof { gs = \1@; }"
//@ all "for \((zr_), (\w+)\) in (\w+)\.iter_mut\(\)\.zip\((\w+)\) \{\s*\*zr_ \^= ([^;]*);\s*\}" => "let ghost z0 = \3@; let jts = (\4).items(); let m_ = jts.count_(); let l_ = \3.len(); for k_ in 0..(if m_ <= l_ { m_ } else { l_ }) invariant l_ == z0.len(), m_ == gs.len(), jts.v@ == gs, \3@.len() == z0.len(), forall|k: int| 0 <= k < z0.len() ==> #[trigger] \3@[k] == (if k < k_ { el(z0[k].w@ ^ gs[k].w@) } else { z0[k] }) { let \2 = jts.at_(k_); let v_ = \3[k_].dup() ^ (\5); \3.set_at(k_, v_); } proof { assert forall|k: int| 0 <= k < a@.len() implies #[trigger] \3@[k] == zrs(me, a@, b@, de0, gs)[k] by { last(ya(me, a@[k], b@[k], de0[k], k).w@, yb(me, a@[k], b@[k], de0[k], k).w@, a@[k].c.w@ & b@[k].c.w@, gs[k].w@); } assert(\3@ =~= zrs(me, a@, b@, de0, gs)); }"
//@ all "for \((\w+), (\w+)\) in (resp)([^{]*?) \{" => "proof { q = resp@; } let kts = (\3\4); let m_ = kts.count_(); for k_ in 0..m_ invariant m_ == q.len(), m_ == a@.len(), rs@.len() == m_, kts.v@ == zipped(q, rs@), shares@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] shares@[k] == w_xor(q[k], rs@[k]) { let (\1, \2) = kts.at_(k_);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(offset(me, q, \1@)); if me.network.id == 0 { assert(part0(me, *self, a@, b@, de0, q)); } else if me.network.id == 1 { assert(part1(me, *self, a@, b@, de0, gs, q)); } else { assert(part2(me, *self, a@, b@, de0, gs, q)); } } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn and
//@ re "^.*?\bfn and\b[^{]*\{" => "pub fn and(&mut self, a: Swift, b: Swift) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> conj(*old(self), *final(self), seq![a], seq![b], seq![r->Ok_0]) { let ghost me = *self; let ghost mut mid = *self; let ghost mut pr: Seq<Share> = Seq::empty(); proof { assert(alphas(seq![a]) =~= seq![Share { a: a.a, b: a.b }]); assert(alphas(seq![b]) =~= seq![Share { a: b.a, b: b.b }]); }"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ re "let (\w+) = (self\.aby_and\([^;]*\?);" => "let \1 = \2; proof { mid = *self; pr = seq![\1]; assert(pre(me, mid, alphas(seq![a]), alphas(seq![b]), pr)); }"
//@ re "(self\.and_post\([^;]*\))\s*\}\s*$" => "let res_ = \1; proof { if res_ is Ok { assert(chain(me, mid, *self, seq![a], seq![b], pr, seq![res_->Ok_0])); } } res_ }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn and_many
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<Swift>, b: &Vec<Swift>) -> (r: Result<Vec<Swift>, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> a@.len() == b@.len() && conj(*old(self), *final(self), a@, b@, r->Ok_0@) { let ghost me = *self; let ghost mut mid = *self; let ghost mut pr: Seq<Share> = Seq::empty();"
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "T::from_sharetype\((\w+)\)" => "\1"
//@ all "T::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "T::Share::zero\(\)" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "let mut (d|e) = " => "let mut \1: Vec<Share> = "
//@ re "for \((\w+), (\w+)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == a@.len(), its.v@ == zipped(a@, b@), d@.len() == k_, e@.len() == k_, *self == me, forall|k: int| 0 <= k < k_ ==> #[trigger] d@[k] == alphas(a@)[k], forall|k: int| 0 <= k < k_ ==> #[trigger] e@[k] == alphas(b@)[k] { let (\1, \2) = its.at_(k_);"
//@ re "let (\w+) = (self\.aby_and_many\([^;]*\?);" => "proof { assert(d@ =~= alphas(a@)); assert(e@ =~= alphas(b@)); } let \1 = \2; proof { mid = *self; pr = \1@; assert(pre(me, mid, alphas(a@), alphas(b@), pr)); }"
//@ re "(self\.and_post_many\([^;]*\))\s*\}\s*$" => "let res_ = \1; proof { if res_ is Ok { assert(chain(me, mid, *self, a@, b@, pr, res_->Ok_0@)); } } res_ }"
//@ end
}
pub open spec fn chain(o: Sw, m: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, pr: Seq<Share>, r: Seq<Swift>) -> bool { pre(o, m, alphas(a), alphas(b), pr) && post(m, n, a, b, pr, r) }
pub open spec fn conj(o: Sw, n: Sw, a: Seq<Swift>, b: Seq<Swift>, r: Seq<Swift>) -> bool { exists|m: Sw, pr: Seq<Share>| #[trigger] chain(o, m, n, a, b, pr, r) }
pub open spec fn one(x: Option<El>) -> Option<Seq<El>> { match x { Some(e) => Some(seq![e]), None => None } }
pub open spec fn all_of(x: Option<Vec<El>>) -> Option<Seq<El>> { match x { Some(e) => Some(e@), None => None } }
// ---------------------------------------------------------------- the three parties together
/// parties 0, 1, 2 hold a Swift3 sharing of w
pub open spec fn held(s: [Swift; 3], w: u128) -> bool { s[0].a == s[1].b && s[1].a == s[2].b && s[2].a == s[0].b && s[0].c == s[1].c && s[2].c == s[1].c && s[0].c.w@ ^ s[0].a.w@ ^ s[1].a.w@ ^ s[2].a.w@ == w }
/// the local products with the random words open to the product of the masks
proof fn products(a: [Share; 3], b: [Share; 3], d: [Share; 3], p: u128, q: u128, r0: u128, r1: u128, r2: u128)
    requires a[0].b == a[2].a && a[1].b == a[0].a && a[2].b == a[1].a && a[0].a.w@ ^ a[1].a.w@ ^ a[2].a.w@ == p, b[0].b == b[2].a && b[1].b == b[0].a && b[2].b == b[1].a && b[0].a.w@ ^ b[1].a.w@ ^ b[2].a.w@ == q,
        // party i draws r_i and r_(i-1): C17
        d[0].a.w@ == local(a[0], b[0]) ^ (r0 ^ r2), d[1].a.w@ == local(a[1], b[1]) ^ (r1 ^ r0), d[2].a.w@ == local(a[2], b[2]) ^ (r2 ^ r1)
    ensures d[0].a.w@ ^ d[1].a.w@ ^ d[2].a.w@ == p & q
{
    let (a0, a1, a2, b0, b1, b2) = (a[0].a.w@, a[1].a.w@, a[2].a.w@, b[0].a.w@, b[1].a.w@, b[2].a.w@);
    assert((((a0 & b0) ^ (a0 & b2) ^ (a2 & b0)) ^ (r0 ^ r2)) ^ (((a1 & b1) ^ (a1 & b0) ^ (a0 & b1)) ^ (r1 ^ r0)) ^ (((a2 & b2) ^ (a2 & b1) ^ (a1 & b2)) ^ (r2 ^ r1)) == (a0 ^ a1 ^ a2) & (b0 ^ b1 ^ b2)) by (bit_vector);
}
/// what is shared jointly, minus the random words, is the conjunction; the parties that send the same value agree on it
proof fn swift_and(a: [Swift; 3], b: [Swift; 3], de: [Share; 3], o: [Sw; 3], x: u128, y: u128, k: int, g1: El, g2: El, q: [Swift; 3], r: [Swift; 3])
    requires held(a, x), held(b, y),
        de[0].b == de[2].a && de[1].b == de[0].a && de[2].b == de[1].a, de[0].a.w@ ^ de[1].a.w@ ^ de[2].a.w@ == (a[0].a.w@ ^ a[1].a.w@ ^ a[2].a.w@) & (b[0].a.w@ ^ b[1].a.w@ ^ b[2].a.w@), // above
        rnd(o[0], k).b == rnd(o[2], k).a && rnd(o[1], k).b == rnd(o[0], k).a && rnd(o[2], k).b == rnd(o[1], k).a, // C17
        g1 == yb(o[0], a[0], b[0], de[0], k), g2 == ya(o[0], a[0], b[0], de[0], k), // party 1 receives y3 and party 2 receives y1
        // the joint sharing opens to what both hand in
        zr_of(a[1], b[1], ya(o[1], a[1], b[1], de[1], k), yb(o[1], a[1], b[1], de[1], k), g1) == zr_of(a[2], b[2], ya(o[2], a[2], b[2], de[2], k), yb(o[2], a[2], b[2], de[2], k), g2) ==> held(q, zr_of(a[1], b[1], ya(o[1], a[1], b[1], de[1], k), yb(o[1], a[1], b[1], de[1], k), g1).w@),
        r[0] == w_xor(q[0], rnd(o[0], k)), r[1] == w_xor(q[1], rnd(o[1], k)), r[2] == w_xor(q[2], rnd(o[2], k)),
    ensures held(r, x & y), yb(o[1], a[1], b[1], de[1], k) == ya(o[0], a[0], b[0], de[0], k), ya(o[2], a[2], b[2], de[2], k) == yb(o[0], a[0], b[0], de[0], k)
{
    let (a0, a1, a2, ac) = (a[0].a.w@, a[1].a.w@, a[2].a.w@, a[0].c.w@); let (b0, b1, b2, bc) = (b[0].a.w@, b[1].a.w@, b[2].a.w@, b[0].c.w@);
    let (d0, d1, d2) = (de[0].a.w@, de[1].a.w@, de[2].a.w@); let (r0, r1, r2) = (rnd(o[0], k).a.w@, rnd(o[1], k).a.w@, rnd(o[2], k).a.w@);
    let y1 = ya(o[0], a[0], b[0], de[0], k); let y2 = ya(o[1], a[1], b[1], de[1], k); let y3 = ya(o[2], a[2], b[2], de[2], k);
    assert(yb(o[1], a[1], b[1], de[1], k) == y1); assert(yb(o[2], a[2], b[2], de[2], k) == y2); assert(yb(o[0], a[0], b[0], de[0], k) == y3);
    let (v1, v2, v3) = (y1.w@, y2.w@, y3.w@);
    let z = ((v2 ^ v1) ^ v3) ^ (ac & bc);
    assert(((v3 ^ v2) ^ v1) ^ (ac & bc) == z) by (bit_vector) requires z == ((v2 ^ v1) ^ v3) ^ (ac & bc);
    assert(v1 == (((a0 & bc) ^ (b0 & ac)) ^ d0) ^ r0); assert(v2 == (((a1 & bc) ^ (b1 & ac)) ^ d1) ^ r1); assert(v3 == (((a2 & bc) ^ (b2 & ac)) ^ d2) ^ r2);
    assert(z ^ r0 ^ r1 ^ r2 == (ac ^ a0 ^ a1 ^ a2) & (bc ^ b0 ^ b1 ^ b2)) by (bit_vector)
        requires z == ((v2 ^ v1) ^ v3) ^ (ac & bc), v1 == (((a0 & bc) ^ (b0 & ac)) ^ d0) ^ r0, v2 == (((a1 & bc) ^ (b1 & ac)) ^ d1) ^ r1, v3 == (((a2 & bc) ^ (b2 & ac)) ^ d2) ^ r2, d0 ^ d1 ^ d2 == (a0 ^ a1 ^ a2) & (b0 ^ b1 ^ b2);
    let (q0, q1, q2, qc) = (q[0].a.w@, q[1].a.w@, q[2].a.w@, q[0].c.w@);
    assert((qc ^ 0) ^ (q0 ^ r0) ^ (q1 ^ r1) ^ (q2 ^ r2) == z ^ r0 ^ r1 ^ r2) by (bit_vector) requires qc ^ q0 ^ q1 ^ q2 == z;
}
fn main() {}
}
