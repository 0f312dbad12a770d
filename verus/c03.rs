// C03, Aby3: products and dot products, for vectors and lists of
// every length. Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
//@ include c03_base.inc
impl Aby3 {
//@ extract iris-mpc/src/aby3/protocol.rs fn mul
//@ re "^.*?\bfn mul\b[^{]*\{" => "pub fn mul(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) ensures r is Ok ==> drawn(*old(self), *final(self), 1) && r->Ok_0.a.w@ == zero_of(*old(self), *final(self), 0) + prod(a, b) && final(self).network.log@ == traded(old(self).network.log@, seq![r->Ok_0.a], seq![r->Ok_0.b]) {"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn dot
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Share, Error>) ensures r is Ok ==> a@.len() == b@.len() && drawn(*old(self), *final(self), 1) && r->Ok_0.a.w@ == zero_of(*old(self), *final(self), 0) + dsum(a@, b@, a@.len() as int) && final(self).network.log@ == traded(old(self).network.log@, seq![r->Ok_0.a], seq![r->Ok_0.b]) {"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "T::zero\(\)\.to_sharetype\(\)" => "el_zero()"
//@ re "for \(([\w]+), ([\w]+)\) in ([^{]*?) \{" => "let ghost z_ = c.a.w@; let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), n_ == a@.len(), n_ == b@.len(), its.v@ == zipped(a@, b@), c.a.w@ == z_ + dsum(a@, b@, i_ as int) { let (\1, \2) = its.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn mul_many
//@ re "^.*?\bfn mul_many\b[^{]*\{" => "pub fn mul_many(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len() ensures r is Ok ==> drawn(*old(self), *final(self), a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r->Ok_0@[k]).a.w@ == zero_of(*old(self), *final(self), k) + prod(a@[k], b@[k])) && reshared(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for (\([^{}]*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_a@[k]).w@ == zero_of(*old(self), *self, k) + prod(a@[k], b@[k]) { let \1 = its.at_(k_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn dot_many
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<Share>], b: &[Vec<Share>]) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> a@.len() == b@.len() && drawn(*old(self), *final(self), a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] a@[k])@.len() == b@[k]@.len() && r->Ok_0@[k].a.w@ == zero_of(*old(self), *final(self), k) + dsum(a@[k]@, b@[k]@, a@[k]@.len() as int)) && reshared(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for \(((?:a|b)_), ((?:a|b)_)\) in ([^{]*?) \{" => "let its = (\3).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len() && shares_a@[k].w@ == zero_of(*old(self), *self, k) + dsum(a@[k]@, b@[k]@, a@[k]@.len() as int) { let (\1, \2) = its.at_(k_); assert(\1 == a@[k_ as int] && \2 == b@[k_ as int]);"
//@ re "for \(((?:a|b)__), ((?:a|b)__)\) in ([^{]*?) \{" => "let ghost z_ = rand.w@; let jts = (\3).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a_@.len() == b_@.len(), m_ == a_@.len(), m_ == jts.v@.len(), jts.v@ == zipped(a_@, b_@), rand.w@ == z_ + dsum(a_@, b_@, i_ as int) { let (\1, \2) = jts.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn masked_dot_many
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &Vec<Share>, b: &[Vec<Share>], masks: &[Code]) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> masks@.len() == b@.len() && a@.len() == 12800 && drawn(*old(self), *final(self), b@.len() as int) && r->Ok_0@.len() == b@.len() && (forall|k: int| 0 <= k < b@.len() ==> (#[trigger] b@[k])@.len() == 12800 && r->Ok_0@[k].a.w@ == zero_of(*old(self), *final(self), k) + msum(a@, b@[k]@, masks@[k].v@, 12800)) && reshared(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "IrisCodeArray::" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for \((b_), (mask_)\) in ([^{]*?) \{" => "let its = (\3).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == b@.len(), masks@.len() == b@.len(), a@.len() == 12800, its.v@ == zipped(b@, masks@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] b@[k])@.len() == 12800 && shares_a@[k].w@ == zero_of(*old(self), *self, k) + msum(a@, b@[k]@, masks@[k].v@, 12800) { let (\1, \2) = its.at_(k_); assert(\1 == b@[k_ as int] && \2 == masks@[k_ as int]);"
//@ re "for (\(\(a__, b__\), bit\)) in ([^{]*?) \{" => "let ghost z_ = rand.w@; let jts = (\2).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a@.len() == 12800, b_@.len() == 12800, mask_.v@.len() == 12800, m_ == 12800, m_ == jts.v@.len(), jts.v@ == zipped(zipped(a@, b_@), mask_.v@), rand.w@ == z_ + msum(a@, b_@, mask_.v@, i_ as int) { let \1 = jts.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn aby_mul_many
//@ re "^.*?\bfn aby_mul_many\b[^{]*\{" => "pub fn aby_mul_many(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len() ensures r is Ok ==> drawn(*old(self), *final(self), a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r->Ok_0@[k]).a.w@ == zero_of(*old(self), *final(self), k) + prod(a@[k], b@[k])) && reshared(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for (\([^{}]*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] shares_a@[k]).w@ == zero_of(*old(self), *self, k) + prod(a@[k], b@[k]) { let \1 = its.at_(k_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn aby_dot_many
//@ re "^.*?\bfn aby_dot_many\b[^{]*\{" => "pub fn aby_dot_many(&mut self, a: Vec<Vec<Share>>, b: Vec<Vec<Share>>) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> a@.len() == b@.len() && drawn(*old(self), *final(self), a@.len() as int) && r->Ok_0@.len() == a@.len() && (forall|k: int| 0 <= k < a@.len() ==> (#[trigger] a@[k])@.len() == b@[k]@.len() && r->Ok_0@[k].a.w@ == zero_of(*old(self), *final(self), k) + dsum(a@[k]@, b@[k]@, a@[k]@.len() as int)) && reshared(*old(self), *final(self), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "::<T>" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut shares_a = " => "let mut shares_a: Vec<El> = "
//@ re "for \(((?:a|b)_), ((?:a|b)_)\) in ([^{]*?) \{" => "let its = (\3).items(); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == a@.len(), a@.len() == b@.len(), its.v@ == zipped(a@, b@), drawn(*old(self), *self, k_ as int), self.network == old(self).network, shares_a@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] a@[k])@.len() == b@[k]@.len() && shares_a@[k].w@ == zero_of(*old(self), *self, k) + dsum(a@[k]@, b@[k]@, a@[k]@.len() as int) { let (\1, \2) = its.at_(k_); assert(\1 == a@[k_ as int] && \2 == b@[k_ as int]);"
//@ re "for \(((?:a|b)__), ((?:a|b)__)\) in ([^{]*?) \{" => "let ghost z_ = rand.w@; let jts = (\3).items(); let m_ = jts.count_(); for i_ in 0..m_ invariant a_@.len() == b_@.len(), m_ == a_@.len(), m_ == jts.v@.len(), jts.v@ == zipped(a_@, b_@), rand.w@ == z_ + dsum(a_@, b_@, i_ as int) { let (\1, \2) = jts.at_(i_);"
//@ all "([\w.]+) \+= ([^;]*);" => "\1 = \1 + (\2);"
//@ re "let res(?:: [^=]*)? = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*(.*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "proof { assert(shares_b.sq().len() == shares_a@.len()); } let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<Share> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares_a@, shares_b.sq()), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == (Share { a: shares_a@[i], b: shares_b.sq()[i] }) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(firsts(res@) =~= shares_a@); assert(joined(res@, shares_b.sq())); }"
//@ end
}
// ---------------------------------------------------------------- masked products of the other engines
/// an engine by its products of lists (above: MalAby3's; Swift3's are decided on the real code)
pub struct Eng { pub dots: Ghost<Seq<(Seq<Seq<Share>>, Seq<Seq<Share>>, Seq<Share>)>> }
pub open spec fn lists(v: Seq<Vec<Share>>) -> Seq<Seq<Share>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the positions that are not set are shares of zero
pub open spec fn zeroed(a: Seq<Share>, m: Seq<bool>, n: int) -> Seq<Share> { Seq::new(a.len(), |i: int| if i < n && !m[i] { sh(0, 0) } else { a[i] }) }
proof fn zeroed_sum(a: Seq<Share>, b: Seq<Share>, m: Seq<bool>, n: int, i: int) requires 0 <= i <= n, n == a.len(), n == b.len()
    ensures dsum(zeroed(a, m, n), zeroed(b, m, n), i) == msum(a, b, m, i) decreases i
{ if i > 0 { zeroed_sum(a, b, m, n, i - 1); assert(prod(sh(0, 0), sh(0, 0)) == 0); } }
pub open spec fn zeroed_all(a: Seq<Vec<Share>>, m: Seq<Code>, n: int) -> Seq<Seq<Share>> { Seq::new(n as nat, |k: int| zeroed(a[k]@, m[k].v@, 12800)) }
pub open spec fn zeroed_same(a: Seq<Share>, m: Seq<Code>, n: int) -> Seq<Seq<Share>> { Seq::new(n as nat, |k: int| zeroed(a, m[k].v@, 12800)) }
pub trait SetAt { fn set_at(&mut self, i: usize, v: Share); }
impl SetAt for Vec<Share> { #[verifier::external_body] fn set_at(&mut self, i: usize, v: Share) ensures i < old(self)@.len() ==> final(self)@ == old(self)@.update(i as int, v) { unimplemented!() } }
impl Eng {
    #[verifier::external_body] pub fn dot_many(&mut self, a: &Vec<Vec<Share>>, b: &Vec<Vec<Share>>) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> final(self).dots@ == old(self).dots@.push((lists(a@), lists(b@), r->Ok_0@)) { unimplemented!() }
//@ extract iris-mpc/src/traits/mpc_trait.rs fn masked_dot_many
//@ re "^.*?\bfn masked_dot_many\b[^{]*\{" => "pub fn masked_dot_many(&mut self, a: &Vec<Share>, b: &[Vec<Share>], masks: &[Code]) -> (r: Result<Vec<Share>, Error>) ensures r is Ok ==> masks@.len() == b@.len() && (b@.len() > 0 ==> a@.len() == 12800) && (forall|k: int| 0 <= k < b@.len() ==> (#[trigger] b@[k])@.len() == 12800) && final(self).dots@ == old(self).dots@.push((zeroed_same(a@, masks@, b@.len() as int), zeroed_all(b@, masks@, b@.len() as int), r->Ok_0@)) {"
//@ all "\s*\.await" => ""
//@ all "IrisCodeArray::" => ""
//@ all "Ashare::zero" => "Share::zero"
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "let mut ([ab]_vec) = " => "let mut \1: Vec<Vec<Share>> = "
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for \((b_), (mask)\) in ([^{]*?) \{" => "let its = (\3); let n_ = its.count_(); for k_ in 0..n_ invariant n_ == b@.len(), masks@.len() == b@.len(), its.v@ == zipped(b@, masks@), self.dots == old(self).dots, k_ > 0 ==> a@.len() == 12800, forall|k: int| 0 <= k < k_ ==> (#[trigger] b@[k])@.len() == 12800, a_vec@.len() == k_, b_vec@.len() == k_, forall|k: int| 0 <= k < k_ ==> (#[trigger] a_vec@[k])@ == zeroed(a@, masks@[k].v@, 12800), forall|k: int| 0 <= k < k_ ==> (#[trigger] b_vec@[k])@ == zeroed(b@[k]@, masks@[k].v@, 12800) { let (\1, \2) = its.at_(k_);"
//@ re "for \((i), (b)\) in ([^{]*?) \{" => "proof { assert(code1@ =~= zeroed(a@, mask.v@, 0)); assert(code2@ =~= zeroed(b_@, mask.v@, 0)); } let jts = (\3); let m_ = jts.count_(); for j_ in 0..m_ invariant m_ == 12800, m_ == jts.v@.len(), mask.v@.len() == 12800, a@.len() == 12800, b_@.len() == 12800, forall|i: int| 0 <= i < m_ ==> #[trigger] jts.v@[i] == (i as usize, mask.v@[i]) && i as usize == i, code1@ =~= zeroed(a@, mask.v@, j_ as int), code2@ =~= zeroed(b_@, mask.v@, j_ as int) { let (\1, \2) = jts.at_(j_);"
//@ re "(self\.dot_many\([^)]*\))\s*\}$" => "proof { assert(lists(a_vec@) =~= zeroed_same(a@, masks@, b@.len() as int)); assert(lists(b_vec@) =~= zeroed_all(b@, masks@, b@.len() as int)); } \1 }"
//@ end
}
//@ include c03_lemmas.inc
fn main() {}
}
