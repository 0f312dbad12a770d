// C03, the products of Swift3: single products and dot products, for vectors and lists of every length: the local products
// with their registration for the proofs of multiplication, and what each party computes, sends, queues and shares from
// them. Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Swift { pub a: El, pub b: El, pub c: El }
pub open spec fn w_sub(x: Swift, y: Swift) -> Swift { Swift { a: el(x.a.w@ - y.a.w@), b: el(x.b.w@ - y.b.w@), c: el(x.c.w@ - y.c.w@) } }
//@ each R rhs | Swift o | &Swift *o
impl SubSpecImpl<$R> for Swift { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: $R) -> bool { true } open spec fn sub_spec(self, o: $R) -> Swift { w_sub(self, $rhs) } }
impl Sub<$R> for Swift { type Output = Swift; #[verifier::external_body] fn sub(self, o: $R) -> Swift { unimplemented!() } }
//@ done
impl Swift {
    pub fn new(a: El, b: El, c: El) -> (r: Self) ensures r == (Swift { a, b, c }) { Swift { a, b, c } }
    pub fn get_abc(self) -> (r: (El, El, El)) ensures r == (self.a, self.b, self.c) { (self.a, self.b, self.c) }
}
impl El { #[verifier::external_body] pub fn wrapping_add(&self, o: &El) -> (r: El) ensures r == el(self.w@ + o.w@) { unimplemented!() } }
#[derive(Debug)]
pub enum Error { InvalidSizeError, Other }
pub enum Ev { Sent(Seq<El>), Got(Seq<El>) }
pub struct Net { pub log: Ghost<Seq<Ev>>, pub id: usize }
impl Net { pub fn get_id(&self) -> (r: usize) ensures r == self.id { self.id } }
pub open spec fn traded(l: Seq<Ev>, t: Seq<El>, g: Seq<El>) -> Seq<Ev> { l.push(Ev::Sent(t)).push(Ev::Got(g)) }
pub mod utils { use super::*;
    #[verifier::external_body] pub fn send_and_receive_value(n: &mut Net, v: El) -> (r: Result<El, Error>) ensures final(n).id == old(n).id, r is Ok ==> final(n).log@ == traded(old(n).log@, seq![v], seq![r->Ok_0]) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_vec(n: &mut Net, v: &Vec<El>) -> (r: Result<Vec<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn send_slice_and_receive_iter(n: &mut Net, v: &Vec<El>) -> (r: Result<Items<El>, Error>) ensures final(n).id == old(n).id, r is Ok ==> r->Ok_0.v@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0.v@) { unimplemented!() }
}
/// the two streams of random elements a party shares with its neighbours (C17)
pub uninterp spec fn stream1(n: int) -> int;
pub uninterp spec fn stream2(n: int) -> int;
pub struct Prf { pub n1: Ghost<int>, pub n2: Ghost<int> }
impl Prf {
    #[verifier::external_body] pub fn gen_1(&mut self) -> (r: El) ensures r == el(stream1(old(self).n1@)), *final(self) == (Prf { n1: Ghost(old(self).n1@ + 1), n2: old(self).n2 }) { unimplemented!() }
    #[verifier::external_body] pub fn gen_2(&mut self) -> (r: El) ensures r == el(stream2(old(self).n2@)), *final(self) == (Prf { n1: old(self).n1, n2: Ghost(old(self).n2@ + 1) }) { unimplemented!() }
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_for_zero_share
//@ re "^.*?\bfn gen_for_zero_share\b[^{]*\{" => "pub fn gen_for_zero_share(&mut self) -> (r: (El, El)) ensures r == (el(stream1(old(self).n1@)), el(stream2(old(self).n2@))), *final(self) == (Prf { n1: Ghost(old(self).n1@ + 1), n2: Ghost(old(self).n2@ + 1) }) {"
//@ all "::<(T|T::Share)>" => ""
//@ end
}
/// what is waiting for the proofs of multiplication: the components of the factors, of the randomness and of the result
pub struct Item { pub a0: Seq<El>, pub a1: Seq<El>, pub b0: Seq<El>, pub b1: Seq<El>, pub r0: El, pub r1: El, pub s0: El, pub s1: El }
pub struct Proof { pub log: Ghost<Seq<Item>> }
impl Proof {
    #[verifier::external_body] pub fn register_mul(&mut self, a0: El, a1: El, b0: El, b1: El, r0: El, r1: El, s0: El, s1: El) ensures final(self).log@ == old(self).log@.push(Item { a0: seq![a0], a1: seq![a1], b0: seq![b0], b1: seq![b1], r0, r1, s0, s1 }) { unimplemented!() }
    #[verifier::external_body] pub fn register_dot(&mut self, a0: Vec<El>, a1: Vec<El>, b0: Vec<El>, b1: Vec<El>, r0: El, r1: El, s0: El, s1: El) ensures final(self).log@ == old(self).log@.push(Item { a0: a0@, a1: a1@, b0: b0@, b1: b1@, r0, r1, s0, s1 }) { unimplemented!() }
}
/// joint messages (contracts: verus/c15_swift3.rs)
/// kept apart by kind and by party: the order across them does not matter
pub struct JL { pub s1: Seq<Seq<El>>, pub s2: Seq<Seq<El>>, pub sx: Seq<(Seq<El>, int)>, pub q1: Seq<Seq<El>>, pub q2: Seq<Seq<El>>, pub qx: Seq<(Seq<El>, int)>, pub g: Seq<(Seq<El>, int)>, pub sh: Seq<(Option<Seq<El>>, int, int, int, Seq<Swift>)> }
impl JL { pub open spec fn push(self, j: J) -> JL { match j {
    J::Send(v, id) => if id == 1 { JL { s1: self.s1.push(v), ..self } } else if id == 2 { JL { s2: self.s2.push(v), ..self } } else { JL { sx: self.sx.push((v, id)), ..self } },
    J::Queue(v, id) => if id == 1 { JL { q1: self.q1.push(v), ..self } } else if id == 2 { JL { q2: self.q2.push(v), ..self } } else { JL { qx: self.qx.push((v, id)), ..self } },
    J::Got(v, id) => JL { g: self.g.push((v, id)), ..self },
    J::Shared(x, s, t, r, q) => JL { sh: self.sh.push((x, s, t, r, q)), ..self },
} } }
pub enum J { Send(Seq<El>, int), Queue(Seq<El>, int), Got(Seq<El>, int), Shared(Option<Seq<El>>, int, int, int, Seq<Swift>) }
pub struct Sw { pub network: Net, pub prf: Prf, pub mul_proof: Proof, pub dot_proof: Proof, pub jlog: Ghost<JL> }
pub open spec fn kept(o: Sw, n: Sw) -> bool { n.network == o.network && n.mul_proof == o.mul_proof && n.dot_proof == o.dot_proof }
pub trait SetAt { fn set_at(&mut self, i: usize, v: El); }
impl SetAt for Vec<El> { #[verifier::external_body] fn set_at(&mut self, i: usize, v: El) ensures i < old(self)@.len() ==> final(self)@ == old(self)@.update(i as int, v) { unimplemented!() } }
/// the k-th pair of random elements drawn
pub open spec fn rnd(o: Sw, k: int) -> Swift { Swift { a: el(stream1(o.prf.n1@ + k)), b: el(stream2(o.prf.n2@ + k)), c: el(0) } }
type V = Seq<Swift>;
/// sums of the products of public part and own components, and of the public parts
pub open spec fn xa(a: V, b: V, i: int) -> int decreases i { if i <= 0 { 0 } else { xa(a, b, i - 1) + (a[i - 1].a.w@ * b[i - 1].c.w@ + b[i - 1].a.w@ * a[i - 1].c.w@) } }
pub open spec fn xb(a: V, b: V, i: int) -> int decreases i { if i <= 0 { 0 } else { xb(a, b, i - 1) + (a[i - 1].b.w@ * b[i - 1].c.w@ + b[i - 1].b.w@ * a[i - 1].c.w@) } }
pub open spec fn xc(a: V, b: V, i: int) -> int decreases i { if i <= 0 { 0 } else { xc(a, b, i - 1) + a[i - 1].c.w@ * b[i - 1].c.w@ } }
pub open spec fn ya(o: Sw, a: V, b: V, de: Share, k: int) -> El { el(de.a.w@ - stream1(o.prf.n1@ + k) - xa(a, b, a.len() as int)) }
pub open spec fn yb(o: Sw, a: V, b: V, de: Share, k: int) -> El { el(de.b.w@ - stream2(o.prf.n2@ + k) - xb(a, b, a.len() as int)) }
/// what parties 1 and 2 share jointly
pub open spec fn zr_of(o: Sw, a: V, b: V, de: Share, k: int, got: El) -> El { el(ya(o, a, b, de, k).w@ + yb(o, a, b, de, k).w@ + got.w@ + xc(a, b, a.len() as int)) }
pub open spec fn yas(o: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>) -> Seq<El> { Seq::new(a.len(), |k: int| ya(o, a[k], b[k], de[k], k)) }
pub open spec fn ybs(o: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>) -> Seq<El> { Seq::new(a.len(), |k: int| yb(o, a[k], b[k], de[k], k)) }
pub open spec fn zrs(o: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>, g: Seq<El>) -> Seq<El> { Seq::new(a.len(), |k: int| zr_of(o, a[k], b[k], de[k], k, g[k])) }
pub open spec fn part0(o: Sw, n: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>, q: V) -> bool { n.jlog@ == o.jlog@.push(J::Send(yas(o, a, b, de), 2)).push(J::Send(ybs(o, a, b, de), 1)).push(J::Shared(None, 1, 2, 0, q)) }
pub open spec fn part1(o: Sw, n: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>, g: Seq<El>, q: V) -> bool { g.len() == a.len() && n.jlog@ == o.jlog@.push(J::Queue(ybs(o, a, b, de), 2)).push(J::Got(g, 0)).push(J::Shared(Some(zrs(o, a, b, de, g)), 1, 2, 0, q)) }
pub open spec fn part2(o: Sw, n: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>, g: Seq<El>, q: V) -> bool { g.len() == a.len() && n.jlog@ == o.jlog@.push(J::Queue(yas(o, a, b, de), 1)).push(J::Got(g, 0)).push(J::Shared(Some(zrs(o, a, b, de, g)), 1, 2, 0, q)) }
pub open spec fn offset(o: Sw, q: V, r: V) -> bool { r.len() == q.len() && forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == w_sub(q[k], rnd(o, k)) }
/// everything the second half of a product does, and its result
pub open spec fn post(o: Sw, n: Sw, a: Seq<V>, b: Seq<V>, de: Seq<Share>, r: V) -> bool {
    r.len() == a.len() && kept(o, n) && (o.network.id == 0 ==> exists|q: V| offset(o, q, r) && #[trigger] part0(o, n, a, b, de, q))
    && (o.network.id == 1 ==> exists|g: Seq<El>, q: V| offset(o, q, r) && #[trigger] part1(o, n, a, b, de, g, q))
    && (o.network.id == 2 ==> exists|g: Seq<El>, q: V| offset(o, q, r) && #[trigger] part2(o, n, a, b, de, g, q))
}
/// the first half: local products, reshared, and registered for the proof
pub open spec fn item(o: Sw, a: Seq<Share>, b: Seq<Share>, r: Share, k: int) -> Item { Item { a0: firsts(a), a1: seconds(a), b0: firsts(b), b1: seconds(b), r0: el(stream1(o.prf.n1@ + k)), r1: el(stream2(o.prf.n2@ + k)), s0: r.a, s1: r.b } }
pub open spec fn items_of(o: Sw, a: Seq<Seq<Share>>, b: Seq<Seq<Share>>, r: Seq<Share>) -> Seq<Item> { Seq::new(a.len(), |k: int| item(o, a[k], b[k], r[k], k)) }
pub open spec fn firsts(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].a) }
pub open spec fn seconds(r: Seq<Share>) -> Seq<El> { Seq::new(r.len(), |i: int| r[i].b) }
pub open spec fn lists<T>(v: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn pre(o: Sw, n: Sw, a: Seq<Seq<Share>>, b: Seq<Seq<Share>>, r: Seq<Share>, single: bool) -> bool {
    r.len() == a.len() && b.len() == a.len() && n.network.id == o.network.id && n.jlog == o.jlog && n.prf.n1@ == o.prf.n1@ + a.len() && n.prf.n2@ == o.prf.n2@ + a.len()
    && n.network.log@ == traded(o.network.log@, firsts(r), seconds(r))
    && (single ==> n.dot_proof == o.dot_proof && n.mul_proof.log@ == o.mul_proof.log@ + items_of(o, a, b, r)) && (!single ==> n.mul_proof == o.mul_proof && n.dot_proof.log@ == o.dot_proof.log@ + items_of(o, a, b, r))
    && (forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]).a.w@ == stream1(o.prf.n1@ + k) - stream2(o.prf.n2@ + k) + dsum(a[k], b[k], a[k].len() as int))
}
pub open spec fn alphas(a: V) -> Seq<Share> { Seq::new(a.len(), |k: int| Share { a: a[k].a, b: a[k].b }) }
pub open spec fn alphas_all(a: Seq<V>) -> Seq<Seq<Share>> { Seq::new(a.len(), |k: int| alphas(a[k])) }
impl Sw {
    #[verifier::external_body] pub fn jmp_send(&mut self, v: El, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Send(seq![v], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_queue(&mut self, v: El, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Queue(seq![v], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_receive(&mut self, id: usize) -> (r: Result<El, Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Got(seq![r->Ok_0], id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jshare(&mut self, x: Option<El>, s1: usize, s2: usize, rc: usize) -> (r: Result<Swift, Error>) ensures kept(*old(self), *final(self)), r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Shared(one(x), s1 as int, s2 as int, rc as int, seq![r->Ok_0])) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_send_many(&mut self, v: &Vec<El>, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Send(v@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_queue_many(&mut self, v: &Vec<El>, id: usize) -> (r: Result<(), Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> final(self).jlog@ == old(self).jlog@.push(J::Queue(v@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_receive_many(&mut self, id: usize, len: usize) -> (r: Result<Vec<El>, Error>) ensures kept(*old(self), *final(self)), final(self).prf == old(self).prf, r is Ok ==> r->Ok_0@.len() == len && final(self).jlog@ == old(self).jlog@.push(J::Got(r->Ok_0@, id as int)) { unimplemented!() }
    #[verifier::external_body] pub fn jshare_many(&mut self, x: Option<Vec<El>>, s1: usize, s2: usize, rc: usize, len: usize) -> (r: Result<Vec<Swift>, Error>) ensures kept(*old(self), *final(self)), r is Ok ==> r->Ok_0@.len() == len && final(self).jlog@ == old(self).jlog@.push(J::Shared(all_of(x), s1 as int, s2 as int, rc as int, r->Ok_0@)) { unimplemented!() }
//@ extract iris-mpc/src/swift3/protocol.rs fn mul_pre
//@ re "^.*?\bfn mul_pre\b[^{]*\{" => "pub fn mul_pre(&self, a: Swift, b: Swift) -> (r: (Share, Share)) ensures r == (Share { a: a.a, b: a.b }, Share { a: b.a, b: b.b }) {"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<[TU]>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn aby_mul
//@ re "^.*?\bfn aby_mul\b[^{]*\{" => "pub fn aby_mul(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) ensures r is Ok ==> pre(*old(self), *final(self), seq![seq![a]], seq![seq![b]], seq![r->Ok_0], true) { proof { reveal_with_fuel(dsum, 3); }"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<[TU]>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ all "([\w.]+) (\+|-)= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(firsts(seq![\1]) =~= seq![\1.a]); assert(seconds(seq![\1]) =~= seq![\1.b]); assert(firsts(seq![a]) =~= seq![a.a] && seconds(seq![a]) =~= seq![a.b] && firsts(seq![b]) =~= seq![b.a] && seconds(seq![b]) =~= seq![b.b]); assert(self.mul_proof.log@ =~= old(self).mul_proof.log@ + items_of(*old(self), seq![seq![a]], seq![seq![b]], seq![\1])); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn aby_dot
//@ re "^.*?\bfn aby_dot\b[^{]*\{" => "pub fn aby_dot(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Share, Error>) requires a@.len() == b@.len() ensures r is Ok ==> pre(*old(self), *final(self), seq![a@], seq![b@], seq![r->Ok_0], false) { let ghost me = *self; let ghost as_ = a@; let ghost bs_ = b@;"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<[TU]>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ all "let mut (a0|a1|b0|b1) = " => "let mut \1: Vec<El> = "
//@ re "for \((\w+), (\w+)\) in ([^{]*?) \{" => "let ghost c0 = c.a.w@; let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == as_.len(), bs_.len() == as_.len(), its.v@ == zipped(as_, bs_), c.a.w@ == c0 + dsum(as_, bs_, k_ as int), a0@ =~= firsts(as_.take(k_ as int)), a1@ =~= seconds(as_.take(k_ as int)), b0@ =~= firsts(bs_.take(k_ as int)), b1@ =~= seconds(bs_.take(k_ as int)) { let (\1, \2) = its.at_(k_);"
//@ all "([\w.]+) (\+|-)= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(as_.take(as_.len() as int) =~= as_ && bs_.take(as_.len() as int) =~= bs_); assert(firsts(seq![\1]) =~= seq![\1.a]); assert(seconds(seq![\1]) =~= seq![\1.b]); assert(self.dot_proof.log@ =~= me.dot_proof.log@ + items_of(me, seq![as_], seq![bs_], seq![\1])); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn aby_dot_many
//@ re "^.*?\bfn aby_dot_many\b[^{]*\{" => "pub fn aby_dot_many(&mut self, a: Vec<Vec<Share>>, b: Vec<Vec<Share>>) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len(), forall|k: int| 0 <= k < a@.len() ==> (#[trigger] a@[k])@.len() == b@[k]@.len() ensures r is Ok ==> pre(*old(self), *final(self), lists(a@), lists(b@), r->Ok_0@, false) { let ghost me = *self; let ghost as_ = a@; let ghost bs_ = b@;"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Aby3Share<[TU]>" => "Share"
//@ all "Aby3Share::new" => "Share::new"
//@ all "let mut (a0_|a1_|b0_|b1_|r0|r1|shares_a) = " => "let mut \1: Vec<El> = "
//@ all "let mut (a0|a1|b0|b1) = " => "let mut \1: Vec<Vec<El>> = "
//@ re "let mut res = " => "let mut res: Vec<Share> = "
//@ re "for \((a_), (b_)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == as_.len(), bs_.len() == as_.len(), its.v@ == zipped(as_, bs_), forall|k: int| 0 <= k < as_.len() ==> (#[trigger] as_[k])@.len() == bs_[k]@.len(), self.network == me.network, self.jlog == me.jlog, self.mul_proof == me.mul_proof, self.dot_proof == me.dot_proof, self.prf.n1@ == me.prf.n1@ + k_, self.prf.n2@ == me.prf.n2@ + k_, shares_a@.len() == k_, a0@.len() == k_, a1@.len() == k_, b0@.len() == k_, b1@.len() == k_, r0@.len() == k_, r1@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_a@[k]).w@ == stream1(me.prf.n1@ + k) - stream2(me.prf.n2@ + k) + dsum(as_[k]@, bs_[k]@, as_[k]@.len() as int), forall|k: int| 0 <= k < k_ ==> #[trigger] r0@[k] == el(stream1(me.prf.n1@ + k)), forall|k: int| 0 <= k < k_ ==> #[trigger] r1@[k] == el(stream2(me.prf.n2@ + k)), forall|k: int| 0 <= k < k_ ==> (#[trigger] a0@[k])@ == firsts(as_[k]@), forall|k: int| 0 <= k < k_ ==> (#[trigger] a1@[k])@ == seconds(as_[k]@), forall|k: int| 0 <= k < k_ ==> (#[trigger] b0@[k])@ == firsts(bs_[k]@), forall|k: int| 0 <= k < k_ ==> (#[trigger] b1@[k])@ == seconds(bs_[k]@) { let (\1, \2) = its.at_(k_); assert(\1 == as_[k_ as int] && \2 == bs_[k_ as int]); let ghost (av, bv) = (\1@, \2@);"
//@ re "for \((a__), (b__)\) in ([^{]*?) \{" => "let ghost c0 = rand.w@; let jts = (\3); let m_ = jts.count_(); for i_ in 0..m_ invariant m_ == av.len(), bv.len() == av.len(), jts.v@ == zipped(av, bv), rand.w@ == c0 + dsum(av, bv, i_ as int), a0_@ =~= firsts(av.take(i_ as int)), a1_@ =~= seconds(av.take(i_ as int)), b0_@ =~= firsts(bv.take(i_ as int)), b1_@ =~= seconds(bv.take(i_ as int)) { let (\1, \2) = jts.at_(i_);"
//@ re "(\ba0\.push)" => "proof { assert(av.take(av.len() as int) =~= av && bv.take(av.len() as int) =~= bv); } \1"
//@ re "for (\(a0, [^{}]*?\)) in (a0[^{]*?) \{" => "let ghost net = self.network; let ghost (ga0, ga1, gb0, gb1, gr0, gr1, gs0, gs1) = (a0@, a1@, b0@, b1@, r0@, r1@, shares_a@, shares_b@); let rts = (\2); let n_ = rts.count_(); for k_ in 0..n_ invariant self.network == net, self.jlog == me.jlog, self.mul_proof == me.mul_proof, self.prf.n1@ == me.prf.n1@ + as_.len(), self.prf.n2@ == me.prf.n2@ + as_.len(), n_ == as_.len(), bs_.len() == as_.len(), ga0.len() == n_, ga1.len() == n_, gb0.len() == n_, gb1.len() == n_, gr0.len() == n_, gr1.len() == n_, gs0.len() == n_, gs1.len() == n_, rts.v@ == zipped(ga0, zipped(ga1, zipped(gb0, zipped(gb1, zipped(gr0, zipped(gr1, zipped(gs0, gs1))))))), forall|k: int| 0 <= k < n_ ==> #[trigger] gr0[k] == el(stream1(me.prf.n1@ + k)), forall|k: int| 0 <= k < n_ ==> #[trigger] gr1[k] == el(stream2(me.prf.n2@ + k)), forall|k: int| 0 <= k < n_ ==> (#[trigger] ga0[k])@ == firsts(as_[k]@), forall|k: int| 0 <= k < n_ ==> (#[trigger] ga1[k])@ == seconds(as_[k]@), forall|k: int| 0 <= k < n_ ==> (#[trigger] gb0[k])@ == firsts(bs_[k]@), forall|k: int| 0 <= k < n_ ==> (#[trigger] gb1[k])@ == seconds(bs_[k]@), res@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] res@[k] == (Share { a: gs0[k], b: gs1[k] }), self.dot_proof.log@ =~= me.dot_proof.log@ + Seq::new(k_ as nat, |k: int| item(me, as_[k]@, bs_[k]@, res@[k], k)) { let \1 = rts.at_(k_); proof { assert(gr0[k_ as int] == el(stream1(me.prf.n1@ + k_)) && gr1[k_ as int] == el(stream2(me.prf.n2@ + k_))); assert(ga0[k_ as int]@ == firsts(as_[k_ as int]@) && ga1[k_ as int]@ == seconds(as_[k_ as int]@) && gb0[k_ as int]@ == firsts(bs_[k_ as int]@) && gb1[k_ as int]@ == seconds(bs_[k_ as int]@)); }"
//@ all "([\w.]+) (\+|-)= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(firsts(\1@) =~= gs0); assert(seconds(\1@) =~= gs1); assert(self.dot_proof.log@ =~= me.dot_proof.log@ + items_of(me, lists(as_), lists(bs_), \1@)); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn mul_post
//@ re "^.*?\bfn mul_post\b[^{]*\{" => "pub fn mul_post(&mut self, a: Swift, b: Swift, de: Share) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> post(*old(self), *final(self), seq![seq![a]], seq![seq![b]], seq![de], seq![r->Ok_0]) { let ghost me = *self; let ghost mut gs: Seq<El> = Seq::empty(); let ghost (av, bv, de0) = (seq![a], seq![b], de); proof { reveal_with_fuel(xa, 3); reveal_with_fuel(xb, 3); reveal_with_fuel(xc, 3); negs(a.a.w@, b.c.w@); negs(a.b.w@, b.c.w@); negs(b.a.w@, a.c.w@); negs(b.b.w@, a.c.w@); }"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "let (\w+) = (self\.jmp_receive\([^;]*);" => "let \1 = \2; proof { gs = seq![\1]; assert(zrs(me, seq![av], seq![bv], seq![de0], gs) =~= seq![zr_of(me, av, bv, de0, 0, gs[0])]); }"
//@ re "(let (?:mut )?share = match)" => "proof { assert(yas(me, seq![av], seq![bv], seq![de0]) =~= seq![ya(me, av, bv, de0, 0)]); assert(ybs(me, seq![av], seq![bv], seq![de0]) =~= seq![yb(me, av, bv, de0, 0)]); } \1"
//@ re "Ok\(([^()]*)\)\s*\}\s*$" => "proof { let q = seq![share]; assert(offset(me, q, seq![w_sub(share, rnd(me, 0))])); if me.network.id == 0 { assert(part0(me, *self, seq![av], seq![bv], seq![de0], q)); } else if me.network.id == 1 { assert(part1(me, *self, seq![av], seq![bv], seq![de0], gs, q)); } else { assert(part2(me, *self, seq![av], seq![bv], seq![de0], gs, q)); } } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn dot_post
//@ re "^.*?\bfn dot_post\b[^{]*\{" => "pub fn dot_post(&mut self, a: Vec<Swift>, b: Vec<Swift>, de: Share) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2, a@.len() == b@.len() ensures r is Ok ==> post(*old(self), *final(self), seq![a@], seq![b@], seq![de], seq![r->Ok_0]) { let ghost me = *self; let ghost mut gs: Seq<El> = Seq::empty(); let ghost (av, bv, de0) = (a@, b@, de);"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "([\w.]+) (\+|-)= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ re "for \((\w+), (\w+)\) in ([^{]*?) \{" => "let ghost (yax, ybx) = (y_a_.w@, y_b_.w@); let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == av.len(), bv.len() == av.len(), its.v@ == zipped(av, bv), y_a_.w@ == yax - xa(av, bv, k_ as int), y_b_.w@ == ybx - xb(av, bv, k_ as int), z_c.w@ == xc(av, bv, k_ as int) { let (\1, \2) = its.at_(k_);"
//@ all "let (\w+) = (self\.jmp_receive\([^;]*);" => "let \1 = \2; proof { gs = seq![\1]; assert(zrs(me, seq![av], seq![bv], seq![de0], gs) =~= seq![zr_of(me, av, bv, de0, 0, gs[0])]); }"
//@ re "(let (?:mut )?share = match)" => "proof { assert(yas(me, seq![av], seq![bv], seq![de0]) =~= seq![ya(me, av, bv, de0, 0)]); assert(ybs(me, seq![av], seq![bv], seq![de0]) =~= seq![yb(me, av, bv, de0, 0)]); } \1"
//@ re "Ok\(([^()]*)\)\s*\}\s*$" => "proof { let q = seq![share]; assert(offset(me, q, seq![w_sub(share, rnd(me, 0))])); if me.network.id == 0 { assert(part0(me, *self, seq![av], seq![bv], seq![de0], q)); } else if me.network.id == 1 { assert(part1(me, *self, seq![av], seq![bv], seq![de0], gs, q)); } else { assert(part2(me, *self, seq![av], seq![bv], seq![de0], gs, q)); } } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn dot_post_many
//@ re "^.*?\bfn dot_post_many\b[^{]*\{" => "pub fn dot_post_many(&mut self, a: &[Vec<Swift>], b: &[Vec<Swift>], de: Vec<Share>) -> (r: Result<Vec<Swift>, Error>) requires old(self).network.id <= 2, b@.len() == a@.len(), de@.len() == a@.len(), forall|k: int| 0 <= k < a@.len() ==> (#[trigger] a@[k])@.len() == b@[k]@.len() ensures r is Ok ==> post(*old(self), *final(self), lists(a@), lists(b@), de@, r->Ok_0@) { let ghost me = *self; let ghost mut gs: Seq<El> = Seq::empty(); let ghost mut q: Seq<Swift> = Seq::empty(); let ghost de0 = de@; let ghost (avs, bvs) = (lists(a@), lists(b@));"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ re "let mut shares = " => "let mut shares: Vec<Swift> = "
//@ all "let mut (y1s|y3s|zr) = " => "let mut \1: Vec<El> = "
//@ all "let mut rs = " => "let mut rs: Vec<Swift> = "
//@ re "(\b0 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{((?:(?!for ).)*?)for \((\w+), (\w+)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), (forall|k: int| 0 <= k < n_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len()), self.network == old(self).network, self.jlog == old(self).jlog, self.mul_proof == old(self).mul_proof, self.dot_proof == old(self).dot_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), avs == lists(a@), bvs == lists(b@), y1s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y1s@[k] == ya(*old(self), avs[k], bvs[k], de0[k], k), y3s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y3s@[k] == yb(*old(self), avs[k], bvs[k], de0[k], k) { let (de, (\2, \3)) = its.at_(k_); assert(a@ == avs[k_ as int] && b@ == bvs[k_ as int]); \5 let ghost (y10, y30) = (y1.w@, y3.w@); let jts = (\8).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a@.len() == b@.len(), m_ == a@.len(), jts.v@ == zipped(a@, b@), y1.w@ == y10 - xa(a@, b@, i_ as int), y3.w@ == y30 - xb(a@, b@, i_ as int) { let (\6, \7) = jts.at_(i_);"
//@ re "(\b1 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{((?:(?!for ).)*?)for \((\w+), (\w+)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), (forall|k: int| 0 <= k < n_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len()), self.network == old(self).network, self.jlog == old(self).jlog, self.mul_proof == old(self).mul_proof, self.dot_proof == old(self).dot_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), avs == lists(a@), bvs == lists(b@), y1s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y1s@[k] == yb(*old(self), avs[k], bvs[k], de0[k], k), zr@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] zr@[k] == el(ya(*old(self), avs[k], bvs[k], de0[k], k).w@ + yb(*old(self), avs[k], bvs[k], de0[k], k).w@ + xc(avs[k], bvs[k], avs[k].len() as int)) { let (de, (\2, \3)) = its.at_(k_); assert(a@ == avs[k_ as int] && b@ == bvs[k_ as int]); \5 let ghost (y20, y10) = (y2.w@, y1.w@); let jts = (\8).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a@.len() == b@.len(), m_ == a@.len(), jts.v@ == zipped(a@, b@), y2.w@ == y20 - xa(a@, b@, i_ as int), y1.w@ == y10 - xb(a@, b@, i_ as int), z_c.w@ == xc(a@, b@, i_ as int) { let (\6, \7) = jts.at_(i_);"
//@ re "(\b2 => \{(?:(?!\d => ).)*?)for \(de, \((\w+), (\w+)\)\) in ([^{]*?) \{((?:(?!for ).)*?)for \((\w+), (\w+)\) in ([^{]*?) \{" => "\1 let its = (\4).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == n_, de0.len() == n_, its.v@ == zipped(de0, zipped(a@, b@)), (forall|k: int| 0 <= k < n_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len()), self.network == old(self).network, self.jlog == old(self).jlog, self.mul_proof == old(self).mul_proof, self.dot_proof == old(self).dot_proof, self.prf.n1@ == old(self).prf.n1@ + k_, self.prf.n2@ == old(self).prf.n2@ + k_, rs@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] rs@[k] == rnd(*old(self), k), avs == lists(a@), bvs == lists(b@), y3s@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] y3s@[k] == ya(*old(self), avs[k], bvs[k], de0[k], k), zr@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] zr@[k] == el(ya(*old(self), avs[k], bvs[k], de0[k], k).w@ + yb(*old(self), avs[k], bvs[k], de0[k], k).w@ + xc(avs[k], bvs[k], avs[k].len() as int)) { let (de, (\2, \3)) = its.at_(k_); assert(a@ == avs[k_ as int] && b@ == bvs[k_ as int]); \5 let ghost (y30, y20) = (y3.w@, y2.w@); let jts = (\8).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a@.len() == b@.len(), m_ == a@.len(), jts.v@ == zipped(a@, b@), y3.w@ == y30 - xa(a@, b@, i_ as int), y2.w@ == y20 - xb(a@, b@, i_ as int), z_c.w@ == xc(a@, b@, i_ as int) { let (\6, \7) = jts.at_(i_);"
//@ all "(self\.jmp_(?:send|queue)_many\(&y1s, )" => "proof { if me.network.id == 0 { assert(y1s@ =~= yas(me, avs, bvs, de0)); } else { assert(y1s@ =~= ybs(me, avs, bvs, de0)); } } \1"
//@ all "(self\.jmp_(?:send|queue)_many\(&y3s, )" => "proof { if me.network.id == 0 { assert(y3s@ =~= ybs(me, avs, bvs, de0)); } else { assert(y3s@ =~= yas(me, avs, bvs, de0)); } } \1"
//@ all "let (\w+) = (self\.jmp_receive_many\([^;]*);" => "let \1 = \2; proof { gs = \1@; }"
//@ all "for \((zr_), (\w+)\) in (\w+)\.iter_mut\(\)\.zip\((\w+)\) \{\s*\*zr_ = ([^;]*);\s*\}" => "let ghost z0 = \3@; let jts = (\4).items(); let m_ = jts.count_(); let l_ = \3.len(); for k_ in 0..(if m_ <= l_ { m_ } else { l_ }) invariant l_ == z0.len(), m_ == gs.len(), jts.v@ == gs, \3@.len() == z0.len(), forall|k: int| 0 <= k < z0.len() ==> #[trigger] \3@[k] == (if k < k_ { el(z0[k].w@ + gs[k].w@) } else { z0[k] }) { let \2 = jts.at_(k_); let \1 = \3[k_].dup(); let v_ = (\5); \3.set_at(k_, v_); } proof { assert(\3@ =~= zrs(me, avs, bvs, de0, gs)); }"
//@ all "for \((\w+), (\w+)\) in (resp)([^{]*?) \{" => "proof { q = resp@; } let kts = (\3\4); let m_ = kts.count_(); for k_ in 0..m_ invariant m_ == q.len(), m_ == avs.len(), rs@.len() == m_, kts.v@ == zipped(q, rs@), shares@.len() == k_, forall|k: int| 0 <= k < k_ ==> #[trigger] shares@[k] == w_sub(q[k], rs@[k]) { let (\1, \2) = kts.at_(k_);"
//@ all "([\w.]+) (\+|-)= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ re "Ok\((\w+)\)\s*\}\s*$" => "proof { assert(offset(me, q, \1@)); if me.network.id == 0 { assert(part0(me, *self, avs, bvs, de0, q)); } else if me.network.id == 1 { assert(part1(me, *self, avs, bvs, de0, gs, q)); } else { assert(part2(me, *self, avs, bvs, de0, gs, q)); } } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn mul
//@ re "^.*?\bfn mul\b[^{]*\{" => "pub fn mul(&mut self, a: Swift, b: Swift) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> product(*old(self), *final(self), seq![seq![a]], seq![seq![b]], seq![r->Ok_0], true) { let ghost me = *self; let ghost mut mid = *self; let ghost mut pr: Seq<Share> = Seq::empty(); proof { assert(alphas(seq![a]) =~= seq![Share { a: a.a, b: a.b }]); assert(alphas(seq![b]) =~= seq![Share { a: b.a, b: b.b }]); assert(alphas_all(seq![seq![a]]) =~= seq![alphas(seq![a])]); assert(alphas_all(seq![seq![b]]) =~= seq![alphas(seq![b])]); }"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ re "let (\w+) = (self\.aby_mul\([^;]*\?);" => "let \1 = \2; proof { mid = *self; pr = seq![\1]; assert(pre(me, mid, alphas_all(seq![seq![a]]), alphas_all(seq![seq![b]]), pr, true)); }"
//@ re "(self\.mul_post\([^;]*\))\s*\}\s*$" => "let res_ = \1; proof { if res_ is Ok { assert(chain(me, mid, *self, seq![seq![a]], seq![seq![b]], pr, seq![res_->Ok_0], true)); } } res_ }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn dot
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<Swift>, b: Vec<Swift>) -> (r: Result<Swift, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> a@.len() == b@.len() && product(*old(self), *final(self), seq![a@], seq![b@], seq![r->Ok_0], false) { let ghost me = *self; let ghost mut mid = *self; let ghost mut pr: Seq<Share> = Seq::empty(); let ghost (av, bv) = (a@, b@);"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "let mut (d|e) = " => "let mut \1: Vec<Share> = "
//@ re "for \((\w+), (\w+)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == a@.len(), its.v@ == zipped(a@, b@), d@.len() == k_, e@.len() == k_, *self == me, forall|k: int| 0 <= k < k_ ==> #[trigger] d@[k] == alphas(a@)[k], forall|k: int| 0 <= k < k_ ==> #[trigger] e@[k] == alphas(b@)[k] { let (\1, \2) = its.at_(k_);"
//@ re "let (\w+) = (self\.aby_dot\([^;]*\?);" => "proof { assert(d@ =~= alphas(av)); assert(e@ =~= alphas(bv)); assert(alphas_all(seq![av]) =~= seq![alphas(av)]); assert(alphas_all(seq![bv]) =~= seq![alphas(bv)]); } let \1 = \2; proof { mid = *self; pr = seq![\1]; assert(pre(me, mid, alphas_all(seq![av]), alphas_all(seq![bv]), pr, false)); }"
//@ re "(self\.dot_post\([^;]*\))\s*\}\s*$" => "let res_ = \1; proof { if res_ is Ok { assert(chain(me, mid, *self, seq![av], seq![bv], pr, seq![res_->Ok_0], false)); } } res_ }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn dot_many
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<Swift>], b: &[Vec<Swift>]) -> (r: Result<Vec<Swift>, Error>) requires old(self).network.id <= 2 ensures r is Ok ==> a@.len() == b@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] a@[k])@.len() == b@[k]@.len()) && product(*old(self), *final(self), lists(a@), lists(b@), r->Ok_0@, false) { let ghost me = *self; let ghost mut mid = *self; let ghost mut pr: Seq<Share> = Seq::empty(); let ghost (avs, bvs) = (lists(a@), lists(b@));"
//@ all "tracing::debug!\([^;]*\);" => ""
//@ all "\s*\.await\?" => "?"
//@ all "\s*\.await\b" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<(T|U|T::Share|U::Share)>" => ""
//@ all "U::from_sharetype\((\w+)\)" => "\1"
//@ all "U::from_sharetype\(([^()]*)\)" => "(\1)"
//@ all "(?:U::Share|U)::zero\(\)(?:\.to_sharetype\(\))?" => "el_zero()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\bShare::new\(" => "Swift::new("
//@ all "let mut (d|e) = " => "let mut \1: Vec<Share> = "
//@ all "let mut (shares_d|shares_e) = " => "let mut \1: Vec<Vec<Share>> = "
//@ re "for \((a_), (b_)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), b@.len() == a@.len(), avs == lists(a@), bvs == lists(b@), its.v@ == zipped(a@, b@), shares_d@.len() == k_, shares_e@.len() == k_, *self == me, forall|k: int| 0 <= k < k_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len(), forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_d@[k])@ == alphas(avs[k]), forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_e@[k])@ == alphas(bvs[k]) { let (\1, \2) = its.at_(k_); let ghost (av, bv) = (\1@, \2@); assert(av == avs[k_ as int] && bv == bvs[k_ as int]);"
//@ re "for \((a__), (b__)\) in ([^{]*?) \{" => "let jts = (\3); let m_ = jts.count_(); for i_ in 0..m_ invariant m_ == av.len(), bv.len() == av.len(), jts.v@ == zipped(av, bv), d@.len() == i_, e@.len() == i_, *self == me, forall|k: int| 0 <= k < i_ ==> #[trigger] d@[k] == alphas(av)[k], forall|k: int| 0 <= k < i_ ==> #[trigger] e@[k] == alphas(bv)[k] { let (\1, \2) = jts.at_(i_);"
//@ re "(\bshares_d\.push)" => "proof { assert(d@ =~= alphas(av)); assert(e@ =~= alphas(bv)); } \1"
//@ re "let (\w+) = (self\.aby_dot_many\([^;]*\?);" => "proof { assert(lists(shares_d@) =~= alphas_all(avs)); assert(lists(shares_e@) =~= alphas_all(bvs)); } let \1 = \2; proof { mid = *self; pr = \1@; assert(pre(me, mid, alphas_all(avs), alphas_all(bvs), pr, false)); }"
//@ re "(self\.dot_post_many\([^;]*\))\s*\}\s*$" => "let res_ = \1; proof { if res_ is Ok { assert(chain(me, mid, *self, avs, bvs, pr, res_->Ok_0@, false)); } } res_ }"
//@ end
}
proof fn negs(x: int, y: int) ensures (-x) * y == -(x * y), y * (-x) == -(x * y), x * (-y) == -(x * y), (-y) * x == -(x * y) { assert((-x) * y == -(x * y) && y * (-x) == -(x * y) && x * (-y) == -(x * y) && (-y) * x == -(x * y)) by (nonlinear_arith); }
pub open spec fn chain(o: Sw, m: Sw, n: Sw, a: Seq<V>, b: Seq<V>, pr: Seq<Share>, r: V, single: bool) -> bool { pre(o, m, alphas_all(a), alphas_all(b), pr, single) && post(m, n, a, b, pr, r) }
pub open spec fn product(o: Sw, n: Sw, a: Seq<V>, b: Seq<V>, r: V, single: bool) -> bool { exists|m: Sw, pr: Seq<Share>| #[trigger] chain(o, m, n, a, b, pr, r, single) }
pub open spec fn one(x: Option<El>) -> Option<Seq<El>> { match x { Some(e) => Some(seq![e]), None => None } }
pub open spec fn all_of(x: Option<Vec<El>>) -> Option<Seq<El>> { match x { Some(e) => Some(e@), None => None } }
// ---------------------------------------------------------------- the three parties together
/// parties 0, 1, 2 hold Swift3 sharings of the values v
pub open spec fn held(s: [V; 3], v: Seq<int>) -> bool {
    s[0].len() == v.len() && s[1].len() == v.len() && s[2].len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] held1(s[0][i], s[1][i], s[2][i], v[i])
}
pub open spec fn held1(s: Swift, t: Swift, u: Swift, v: int) -> bool { s.a == t.b && t.a == u.b && u.a == s.b && s.c == t.c && u.c == t.c && s.c.w@ - s.a.w@ - t.a.w@ - u.a.w@ == v }
pub open spec fn masks(s: [V; 3], i: int) -> int { s[0][i].a.w@ + s[1][i].a.w@ + s[2][i].a.w@ }
pub open spec fn total(x: Seq<int>, y: Seq<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { total(x, y, i - 1) + x[i - 1] * y[i - 1] } }
/// the sum of the products of the masks
pub open spec fn mtotal(a: [V; 3], b: [V; 3], i: int) -> int decreases i { if i <= 0 { 0 } else { mtotal(a, b, i - 1) + masks(a, i - 1) * masks(b, i - 1) } }
/// the local products with the random elements open to the sum of the products of the masks
proof fn local_products(a: [V; 3], b: [V; 3], x: Seq<int>, y: Seq<int>, i: int) requires held(a, x), held(b, y), x.len() == y.len(), 0 <= i <= x.len()
    ensures dsum(alphas(a[0]), alphas(b[0]), i) + dsum(alphas(a[1]), alphas(b[1]), i) + dsum(alphas(a[2]), alphas(b[2]), i) == mtotal(a, b, i) decreases i
{
    if i > 0 {
        local_products(a, b, x, y, i - 1); let j = i - 1; assert(held1(a[0][j], a[1][j], a[2][j], x[j]) && held1(b[0][j], b[1][j], b[2][j], y[j]));
        let (a0, a1, a2, b0, b1, b2) = (a[0][j].a.w@, a[1][j].a.w@, a[2][j].a.w@, b[0][j].a.w@, b[1][j].a.w@, b[2][j].a.w@);
        assert((a0 * b0 + a0 * b2 + a2 * b0) + (a1 * b1 + a1 * b0 + a0 * b1) + (a2 * b2 + a2 * b1 + a1 * b2) == (a0 + a1 + a2) * (b0 + b1 + b2)) by (nonlinear_arith);
    }
}
proof fn sums(a: [V; 3], b: [V; 3], x: Seq<int>, y: Seq<int>, i: int) requires held(a, x), held(b, y), x.len() == y.len(), 0 <= i <= x.len()
    ensures xb(a[1], b[1], i) == xa(a[0], b[0], i), xb(a[2], b[2], i) == xa(a[1], b[1], i), xb(a[0], b[0], i) == xa(a[2], b[2], i), xc(a[1], b[1], i) == xc(a[2], b[2], i),
        mtotal(a, b, i) - xa(a[0], b[0], i) - xa(a[1], b[1], i) - xa(a[2], b[2], i) + xc(a[1], b[1], i) == total(x, y, i) decreases i
{
    if i > 0 {
        sums(a, b, x, y, i - 1); let j = i - 1; assert(held1(a[0][j], a[1][j], a[2][j], x[j]) && held1(b[0][j], b[1][j], b[2][j], y[j]));
        let (a0, a1, a2, b0, b1, b2, p, q) = (a[0][j].a.w@, a[1][j].a.w@, a[2][j].a.w@, b[0][j].a.w@, b[1][j].a.w@, b[2][j].a.w@, a[0][j].c.w@, b[0][j].c.w@);
        let (u, v) = (a0 + a1 + a2, b0 + b1 + b2);
        assert(a0 * q + a1 * q + a2 * q == u * q) by (nonlinear_arith) requires u == a0 + a1 + a2;
        assert(b0 * p + b1 * p + b2 * p == v * p) by (nonlinear_arith) requires v == b0 + b1 + b2;
        assert((p - u) * (q - v) == p * q - v * p - u * q + u * v) by (nonlinear_arith);
        assert(p - a0 - a1 - a2 == p - u && q - b0 - b1 - b2 == q - v);
    }
}
/// what is shared jointly, minus the random elements, is the sum of the products; the parties that send the same value agree on it
proof fn swift_product(a: [V; 3], b: [V; 3], de: [Share; 3], o: [Sw; 3], x: Seq<int>, y: Seq<int>, k: int, g1: El, g2: El, q: [Swift; 3], r: [Swift; 3])
    requires held(a, x), held(b, y), x.len() == y.len(),
        de[0].b == de[2].a && de[1].b == de[0].a && de[2].b == de[1].a, de[0].a.w@ + de[1].a.w@ + de[2].a.w@ == mtotal(a, b, x.len() as int), // above: the random elements cancel
        rnd(o[0], k).b == rnd(o[2], k).a && rnd(o[1], k).b == rnd(o[0], k).a && rnd(o[2], k).b == rnd(o[1], k).a, // C17
        g1 == yb(o[0], a[0], b[0], de[0], k), g2 == ya(o[0], a[0], b[0], de[0], k), // party 1 receives y3 and party 2 receives y1
        zr_of(o[1], a[1], b[1], de[1], k, g1) == zr_of(o[2], a[2], b[2], de[2], k, g2) ==> held1(q[0], q[1], q[2], zr_of(o[1], a[1], b[1], de[1], k, g1).w@), // joint sharing
        r[0] == w_sub(q[0], rnd(o[0], k)), r[1] == w_sub(q[1], rnd(o[1], k)), r[2] == w_sub(q[2], rnd(o[2], k)),
    ensures held1(r[0], r[1], r[2], total(x, y, x.len() as int)), yb(o[1], a[1], b[1], de[1], k) == ya(o[0], a[0], b[0], de[0], k), ya(o[2], a[2], b[2], de[2], k) == yb(o[0], a[0], b[0], de[0], k)
{ sums(a, b, x, y, x.len() as int); }
fn main() {}
}
