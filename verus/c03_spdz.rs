// C03 and C15 (what is queued for verification), SpdzWise: dot products of lists, for lists and vectors of every length.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
//@ include c03_base.inc
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct SShare { pub value: Share, pub mac: Share }
impl SShare { pub fn new(value: Share, mac: Share) -> (r: Self) ensures r.value == value, r.mac == mac { SShare { value, mac } } pub fn get(self) -> (r: (Share, Share)) ensures r == (self.value, self.mac) { (self.value, self.mac) } pub fn get_value(self) -> (r: Share) ensures r == self.value { self.value } pub fn get_mac(self) -> (r: Share) ensures r == self.mac { self.mac } }
pub struct VecShare { pub values: Vec<Share>, pub macs: Vec<Share> }
impl VecShare {
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn get
//@ re "-> [^{]*\{" => "-> (r: (Vec<Share>, Vec<Share>)) ensures r.0 == self.values, r.1 == self.macs {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn get_values
//@ re "-> [^{]*\{" => "-> (r: Vec<Share>) ensures r == self.values {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn len
//@ re "^fn" => "pub fn"
//@ re "debug_assert!\([^;]*\);" => ""
//@ re "-> [^{]*\{" => "-> (r: usize) ensures r == self.values@.len() {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn reserve
//@ re "^fn" => "pub fn"
//@ re "usize\) \{" => "usize) ensures final(self).values@ == old(self).values@, final(self).macs@ == old(self).macs@ {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn push
//@ re "^fn" => "pub fn"
//@ re "value: Self::Share\) \{" => "value: SShare) ensures final(self).values@ == old(self).values@.push(value.value), final(self).macs@ == old(self).macs@.push(value.mac) {"
//@ end
}
pub struct Spdz { pub aby3: Aby3, pub verifyqueue: VecShare, pub rest: Ghost<int> }
/// exactly these results, in order, have been added to what waits for verification
pub open spec fn queued(o: Spdz, s: Spdz, r: Seq<SShare>) -> bool {
    s.rest == o.rest && s.verifyqueue.values@.len() == o.verifyqueue.values@.len() + r.len() && s.verifyqueue.macs@.len() == o.verifyqueue.macs@.len() + r.len()
        && (forall|i: int| 0 <= i < o.verifyqueue.values@.len() ==> #[trigger] s.verifyqueue.values@[i] == o.verifyqueue.values@[i]) && (forall|i: int| 0 <= i < o.verifyqueue.macs@.len() ==> #[trigger] s.verifyqueue.macs@[i] == o.verifyqueue.macs@[i])
        && forall|i: int| 0 <= i < r.len() ==> s.verifyqueue.values@[o.verifyqueue.values@.len() + i] == (#[trigger] r[i]).value && s.verifyqueue.macs@[o.verifyqueue.macs@.len() + i] == r[i].mac
}
/// values and macs of these shares: first components sent, second ones received
pub open spec fn both_reshared(o: Aby3, s: Aby3, r: Seq<SShare>) -> bool { exists|g: Seq<El>, h: Seq<El>| #[trigger] both_joined(r, g, h) && s.network.log@ == o.network.log@.push(Ev::Sent(firsts(vals(r)))).push(Ev::Sent(firsts(macs(r)))).push(Ev::Got(g)).push(Ev::Got(h)) }
pub open spec fn both_joined(r: Seq<SShare>, g: Seq<El>, h: Seq<El>) -> bool { g.len() == r.len() && h.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).value.b == g[i] && r[i].mac.b == h[i] }
pub open spec fn vals(r: Seq<SShare>) -> Seq<Share> { Seq::new(r.len(), |i: int| r[i].value) }
pub open spec fn macs(r: Seq<SShare>) -> Seq<Share> { Seq::new(r.len(), |i: int| r[i].mac) }
impl Spdz {
//@ extract iris-mpc/src/spdzwise/protocol.rs fn dot_many
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[VecShare], b: &[VecShare]) -> (r: Result<Vec<SShare>, Error>) requires 2 * a@.len() <= usize::MAX ensures r is Ok ==> a@.len() == b@.len() && drawn(old(self).aby3, final(self).aby3, 2 * a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> spdz_dot(old(self).aby3, final(self).aby3, k, (#[trigger] a@[k]), b@[k], r->Ok_0@[k].value.a, r->Ok_0@[k].mac.a)) && both_reshared(old(self).aby3, final(self).aby3, r->Ok_0@) && queued(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "IrisCodeArray::" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T(::VerificationShare)?>" => ""
//@ all "Aby3Share::new\(" => "ABY3_NEW("
//@ all "\bShare::new\(" => "SShare::new("
//@ all "ABY3_NEW\(" => "Share::new("
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "let mut mac_shares_a = " => "let mut mac_shares_a: Vec<El> = "
//@ re "for \((a), (b)\) in ([^{]*?) \{" => "let its = (\3).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(old(self).aby3, self.aby3, 2 * k_ as int), self.aby3.network == old(self).aby3.network, self.verifyqueue == old(self).verifyqueue, self.rest == old(self).rest, shares_a@.len() == k_, mac_shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> spdz_dot(old(self).aby3, self.aby3, k, (#[trigger] a@[k]), b@[k], shares_a@[k], mac_shares_a@[k]) { let ghost (aa, bb, p_, q_) = (a@[k_ as int], b@[k_ as int], *self, (shares_a@, mac_shares_a@)); let (\1, \2) = its.at_(k_); assert(\1 == aa && \2 == bb);"
//@ re "for \((a_), (b_)\) in (a_v[^{]*?) \{" => "let ghost z_ = rand.w@; let jts = (\3).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant m_ == aa.values@.len(), m_ == bb.values@.len(), m_ == jts.v@.len(), jts.v@ == zipped(aa.values@, bb.values@), rand.w@ == z_ + dsum(aa.values@, bb.values@, i_ as int) { let (\1, \2) = jts.at_(i_);"
//@ re "for \((a_), (b_)\) in (a_m[^{]*?) \{" => "let ghost y_ = rand2.w@; let kts = (\3).items(); let l_ = kts.count_(); for i_ in 0..l_ invariant l_ == (if aa.macs@.len() <= bb.values@.len() { aa.macs@.len() } else { bb.values@.len() }), l_ == kts.v@.len(), kts.v@ == zipped(aa.macs@, bb.values@), rand2.w@ == y_ + dsum(aa.macs@, bb.values@, i_ as int) { let (\1, \2) = kts.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|([^|]*)\|\s*(\{.*?\})\s*\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == len && mac_shares_b.sq().len() == len); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<SShare> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, shares_a@.len() == len, mac_shares_a@.len() == len, shares_b.sq().len() == len, mac_shares_b.sq().len() == len, its2.v@ == zipped(zipped(shares_a@, mac_shares_a@), zipped(shares_b.sq(), mac_shares_b.sq())), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] res@[i]) == (SShare { value: Share { a: shares_a@[i], b: shares_b.sq()[i] }, mac: Share { a: mac_shares_a@[i], b: mac_shares_b.sq()[i] } }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(vals(res@)) =~= shares_a@); assert(firsts(macs(res@)) =~= mac_shares_a@); assert(both_joined(res@, shares_b.sq(), mac_shares_b.sq())); } let ghost log_ = self.aby3;"
//@ re "for (r) in ([^{]*?) \{" => "let its3 = (\2).items(); let n3 = its3.count_(); for j_ in 0..n3 invariant n3 == its3.v@.len(), its3.v@ == res@, self.aby3 == log_, queued(*old(self), *self, res@.take(j_ as int)) { let \1 = its3.at_(j_); assert(res@.take(j_ + 1) =~= res@.take(j_ as int).push(res@[j_ as int]));"
//@ re "Ok\(res\)" => "proof { assert(res@.take(res@.len() as int) =~= res@); } Ok(res)"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn masked_dot_many
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &VecShare, b: &[VecShare], masks: &[Code]) -> (r: Result<Vec<SShare>, Error>) requires a.macs@.len() == a.values@.len() ensures r is Ok ==> masks@.len() == b@.len() && a.values@.len() == 12800 && drawn(old(self).aby3, final(self).aby3, 2 * b@.len() as int) && r->Ok_0@.len() == b@.len() && (forall|k: int| 0 <= k < b@.len() ==> spdz_mdot(old(self).aby3, final(self).aby3, k, *a, (#[trigger] b@[k]), masks@[k].v@, r->Ok_0@[k].value.a, r->Ok_0@[k].mac.a)) && both_reshared(old(self).aby3, final(self).aby3, r->Ok_0@) && queued(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "IrisCodeArray::" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T(::VerificationShare)?>" => ""
//@ all "Aby3Share::new\(" => "ABY3_NEW("
//@ all "\bShare::new\(" => "SShare::new("
//@ all "ABY3_NEW\(" => "Share::new("
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "let mut mac_shares_a = " => "let mut mac_shares_a: Vec<El> = "
//@ re "for \((b), (mask)\) in ([^{]*?) \{" => "let ghost bs = b@; let its = (\3).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == bs.len(), len == bs.len(), masks@.len() == bs.len(), a.values@.len() == 12800, a.macs@.len() == 12800, its.v@ == zipped(bs, masks@), drawn(old(self).aby3, self.aby3, 2 * k_ as int), self.aby3.network == old(self).aby3.network, self.verifyqueue == old(self).verifyqueue, self.rest == old(self).rest, shares_a@.len() == k_, mac_shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> spdz_mdot(old(self).aby3, self.aby3, k, *a, (#[trigger] bs[k]), masks@[k].v@, shares_a@[k], mac_shares_a@[k]) { let ghost (bb, mk) = (bs[k_ as int], masks@[k_ as int].v@); let (\1, \2) = its.at_(k_); assert(\1 == bb && \2.v@ == mk);"
//@ re "for (\(bit, [^{]*?\)) in ([^{]*?) \{" => "let ghost (z_, y_) = (rand.w@, rand2.w@); let jts = (\2).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a.values@.len() == 12800, a.macs@.len() == 12800, bb.values@.len() == 12800, mk.len() == 12800, m_ == 12800, m_ == jts.v@.len(), jts.v@ == zipped(mk, zipped(zipped(a.values@, bb.values@), a.macs@)), rand.w@ == z_ + msum(a.values@, bb.values@, mk, i_ as int), rand2.w@ == y_ + msum(a.macs@, bb.values@, mk, i_ as int) { let \1 = jts.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|([^|]*)\|\s*(\{.*?\})\s*\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == len && mac_shares_b.sq().len() == len); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<SShare> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, shares_a@.len() == len, mac_shares_a@.len() == len, shares_b.sq().len() == len, mac_shares_b.sq().len() == len, its2.v@ == zipped(zipped(shares_a@, mac_shares_a@), zipped(shares_b.sq(), mac_shares_b.sq())), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] res@[i]) == (SShare { value: Share { a: shares_a@[i], b: shares_b.sq()[i] }, mac: Share { a: mac_shares_a@[i], b: mac_shares_b.sq()[i] } }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(vals(res@)) =~= shares_a@); assert(firsts(macs(res@)) =~= mac_shares_a@); assert(both_joined(res@, shares_b.sq(), mac_shares_b.sq())); } let ghost log_ = self.aby3;"
//@ re "for (r) in ([^{]*?) \{" => "let its3 = (\2).items(); let n3 = its3.count_(); for j_ in 0..n3 invariant n3 == its3.v@.len(), its3.v@ == res@, self.aby3 == log_, queued(*old(self), *self, res@.take(j_ as int)) { let \1 = its3.at_(j_); assert(res@.take(j_ + 1) =~= res@.take(j_ as int).push(res@[j_ as int]));"
//@ re "Ok\(res\)" => "proof { assert(res@.take(res@.len() as int) =~= res@); } Ok(res)"
//@ end
}
/// position k: the zero shares drawn for it plus the local parts of exactly the k-th operands, for the value and for its mac
pub open spec fn spdz_dot(o: Aby3, s: Aby3, k: int, a: VecShare, b: VecShare, v: El, m: El) -> bool {
    a.values@.len() == b.values@.len() && v.w@ == zero_of(o, s, 2 * k) + dsum(a.values@, b.values@, a.values@.len() as int)
        && (a.macs@.len() == a.values@.len() ==> m.w@ == zero_of(o, s, 2 * k + 1) + dsum(a.macs@, b.values@, a.values@.len() as int))
}
pub open spec fn spdz_mdot(o: Aby3, s: Aby3, k: int, a: VecShare, b: VecShare, mk: Seq<bool>, v: El, m: El) -> bool {
    b.values@.len() == 12800 && mk.len() == 12800 && v.w@ == zero_of(o, s, 2 * k) + msum(a.values@, b.values@, mk, 12800) && m.w@ == zero_of(o, s, 2 * k + 1) + msum(a.macs@, b.values@, mk, 12800)
}
//@ include c03_lemmas.inc
fn main() {}
}
