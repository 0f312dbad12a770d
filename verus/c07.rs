// C07: the whole decision of a query, for databases of every size and every chunk size: constructor check, usable-bit
// check, masked Hamming distances, thresholds, comparison by the sign of the difference, disjunction over the database,
// and the plaintext matcher. What the engines' operations do to the values that shares open to enters by contract
// (C01-C06), as do the operations on 12800-bit arrays (C08).
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use core::ops::*;
verus! {
global size_of usize == 8;
//@ include iters.inc
#[derive(Debug)]
pub enum Error { MaskHWError, InvalidCodeSizeError, InvalidSizeError, ConfigError, Other }
pub const MASK_THRESHOLD: usize = 8960;
pub const IRIS_CODE_SIZE: usize = 12800;
// ---------------------------------------------------------------- bit arrays (C08)
pub open spec fn ones(m: Seq<bool>) -> int decreases m.len() { if m.len() == 0 { 0 } else { ones(m.drop_last()) + if m.last() { 1int } else { 0 } } }
#[derive(Clone, Copy)]
pub struct IrisCodeArray { pub m: Ghost<Seq<bool>> }
pub open spec fn arr(m: Seq<bool>) -> IrisCodeArray { IrisCodeArray { m: Ghost(m) } }
pub open spec fn both(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] && b[i]) }
pub open spec fn differ(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] != b[i]) }
impl BitAndSpecImpl<IrisCodeArray> for IrisCodeArray { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, o: Self) -> bool { true } open spec fn bitand_spec(self, o: Self) -> Self { arr(both(self.m@, o.m@)) } }
impl BitAnd<IrisCodeArray> for IrisCodeArray { type Output = Self; #[verifier::external_body] fn bitand(self, o: Self) -> Self { unimplemented!() } }
impl BitXorSpecImpl<IrisCodeArray> for IrisCodeArray { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: Self) -> bool { true } open spec fn bitxor_spec(self, o: Self) -> Self { arr(differ(self.m@, o.m@)) } }
impl BitXor<IrisCodeArray> for IrisCodeArray { type Output = Self; #[verifier::external_body] fn bitxor(self, o: Self) -> Self { unimplemented!() } }
impl IrisCodeArray {
    #[verifier::external_body] pub fn dup(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn count_ones(&self) -> (r: usize) ensures r == ones(self.m@) { unimplemented!() }
    #[verifier::external_body] pub fn get_bit(&self, i: usize) -> (r: bool) requires i < self.m@.len() ensures r == self.m@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn bits(&self) -> (r: Items<bool>) ensures r.v@ == self.m@ { unimplemented!() }
}
proof fn ones_bound(m: Seq<bool>) ensures 0 <= ones(m) <= m.len() decreases m.len() { if m.len() > 0 { ones_bound(m.drop_last()); } }
// ---------------------------------------------------------------- the threshold, in floating point, as both matchers compute it
/// (n as f64 * MATCH_THRESHOLD_RATIO) as usize: decided natively for every n up to the size of a code
pub uninterp spec fn thr(n: int) -> int;
#[verifier::external_body] pub fn scaled(n: usize) -> (r: usize) ensures r == thr(n as int), n <= 12800 ==> 0 <= r <= n { unimplemented!() }
/// the decision: few enough of the jointly usable bits differ
pub open spec fn usable(ma: IrisCodeArray, mb: IrisCodeArray) -> bool { ones(both(ma.m@, mb.m@)) >= 8960 }
pub open spec fn distance(a: Seq<bool>, b: Seq<bool>, m: Seq<bool>) -> int { ones(both(differ(a, b), m)) }
pub open spec fn close(a: Seq<bool>, b: Seq<bool>, ma: IrisCodeArray, mb: IrisCodeArray) -> bool { distance(a, b, both(ma.m@, mb.m@)) < thr(ones(both(ma.m@, mb.m@))) }
// ---------------------------------------------------------------- the plaintext matcher
pub struct IrisCode { pub code: IrisCodeArray, pub mask: IrisCodeArray }
impl IrisCode {
//@ extract plain-reference/src/lib.rs fn is_close
//@ re "^.*?\bfn is_close\b[^{]*\{" => "pub fn is_close(&self, other: &Self) -> (r: bool) requires usable(self.mask, other.mask), self.code.m@.len() == 12800, other.code.m@.len() == 12800, self.mask.m@.len() == 12800, other.mask.m@.len() == 12800 ensures r == close(self.code.m@, other.code.m@, self.mask, other.mask) {"
//@ all "\((\w+) as f64 \* MATCH_THRESHOLD_RATIO\) as usize" => "scaled(\1)"
//@ all "panic!\([^()]*\)" => "unreached()"
//@ end
}
#[verifier::external_body] pub fn unreached() requires false { unimplemented!() }
// ---------------------------------------------------------------- shares, by the value they open to (a representative modulo 2^k())
pub uninterp spec fn k() -> nat;
pub open spec fn top(v: int) -> bool { (v % pow2(k()) as int) >= pow2((k() - 1) as nat) }
#[derive(Clone, Copy)]
pub struct Ash { pub v: Ghost<int> }
pub open spec fn ash(v: int) -> Ash { Ash { v: Ghost(v) } }
//@ each R | Ash | &Ash
impl AddSpecImpl<$R> for Ash { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: $R) -> bool { true } open spec fn add_spec(self, o: $R) -> Ash { ash(self.v@ + o.v@) } }
impl Add<$R> for Ash { type Output = Ash; #[verifier::external_body] fn add(self, o: $R) -> Ash { unimplemented!() } }
//@ done
#[verifier::external_body] pub fn zero_() -> (r: Ash) ensures r.v@ == 0 { unimplemented!() }
pub struct Bsh { pub v: Ghost<bool> }
impl Ash { pub fn dup(&self) -> (r: Ash) ensures r == *self { *self } }
pub open spec fn opened(s: Seq<Ash>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].v@) }
pub open spec fn as_int(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn code_of(s: Seq<Ash>, c: Seq<bool>) -> bool { s.len() == c.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v@ == as_int(c[i]) }
/// the sum over the positions of the mask
pub open spec fn msum(f: Seq<int>, m: Seq<bool>) -> int decreases f.len() { if f.len() == 0 { 0 } else { msum(f.drop_last(), m) + if m[f.len() - 1] { f.last() } else { 0 } } }
pub open spec fn products(a: Seq<Ash>, b: Seq<Ash>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i].v@ * b[i].v@) }
proof fn msum_step(f: Seq<int>, m: Seq<bool>, i: int) requires 0 <= i < f.len() ensures msum(f.take(i + 1), m) == msum(f.take(i), m) + if m[i] { f[i] } else { 0 }
{ assert(f.take(i + 1).drop_last() =~= f.take(i)); }
/// sum a + sum b - 2 a.b under the mask is the distance
proof fn distance_by_sums(a: Seq<Ash>, b: Seq<Ash>, ca: Seq<bool>, cb: Seq<bool>, m: Seq<bool>)
    requires code_of(a, ca), code_of(b, cb), a.len() == b.len(), m.len() >= a.len()
    ensures msum(opened(a), m) + msum(opened(b), m) - 2 * msum(products(a, b), m) == distance(ca, cb, m.take(a.len() as int))
    decreases a.len()
{
    let n = a.len() as int;
    let d = both(differ(ca, cb), m.take(n));
    if n > 0 {
        let (a1, b1, ca1, cb1) = (a.drop_last(), b.drop_last(), ca.drop_last(), cb.drop_last());
        assert(code_of(a1, ca1)) by { assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).v@ == as_int(ca1[i]) by { assert(a1[i] == a[i]); } }
        assert(code_of(b1, cb1)) by { assert forall|i: int| 0 <= i < b1.len() implies (#[trigger] b1[i]).v@ == as_int(cb1[i]) by { assert(b1[i] == b[i]); } }
        distance_by_sums(a1, b1, ca1, cb1, m);
        assert(opened(a).drop_last() =~= opened(a1)); assert(opened(b).drop_last() =~= opened(b1)); assert(products(a, b).drop_last() =~= products(a1, b1));
        assert(d.drop_last() =~= both(differ(ca1, cb1), m.take(n - 1)));
        assert(a[n - 1].v@ == as_int(ca[n - 1])); assert(b[n - 1].v@ == as_int(cb[n - 1]));
        assert(a[n - 1].v@ * b[n - 1].v@ == as_int(ca[n - 1] && cb[n - 1])) by (nonlinear_arith) requires a[n - 1].v@ == as_int(ca[n - 1]), b[n - 1].v@ == as_int(cb[n - 1]);
    }
}
/// the sign of a difference of two numbers up to 12800 is its top bit, if the ring has more bits than ceil_log2(12800)
proof fn sign_is_top(x: int, t: int) requires 0 <= x <= 12800, 0 <= t <= 12800, k() >= 15 ensures top(x - t) == (x < t)
{
    let h = pow2((k() - 1) as nat) as int; let m = pow2(k()) as int;
    lemma2_to64(); lemma_pow2_unfold(k());
    if k() - 1 > 14 { lemma_pow2_strictly_increases(14, (k() - 1) as nat); }
    assert(h >= 16384 && m == 2 * h);
    if x >= t { lemma_small_mod((x - t) as nat, m as nat); } else { lemma_mod_add_multiples_vanish(x - t, m); lemma_small_mod((x - t + m) as nat, m as nat); }
}
// ---------------------------------------------------------------- lists of shares
#[derive(Clone, Copy)]
pub struct Vsh { pub x: Ghost<Seq<Ash>> }
pub trait Vs { spec fn at(&self) -> Seq<Ash>; fn len(&self) -> (r: usize) ensures r == self.at().len(); fn is_empty(&self) -> (r: bool) ensures r == (self.at().len() == 0); fn iter(&self) -> (r: Items<Ash>) ensures r.v@ == self.at(); }
impl Vs for Vsh {
    open spec fn at(&self) -> Seq<Ash> { self.x@ }
    #[verifier::external_body] fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn iter(&self) -> Items<Ash> { unimplemented!() }
}
impl<V: Vs> Vs for &V { open spec fn at(&self) -> Seq<Ash> { (**self).at() } fn len(&self) -> usize { (**self).len() } fn is_empty(&self) -> bool { (**self).is_empty() } fn iter(&self) -> Items<Ash> { (**self).iter() } }
impl Listed<Ash> for Vsh { open spec fn sq(&self) -> Seq<Ash> { self.x@ } #[verifier::external_body] fn items(&self) -> Items<Ash> { unimplemented!() } }
pub struct Bvec { pub x: Ghost<Seq<bool>> }
impl Bvec {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.x@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Bvec) ensures final(self).x@ == old(self).x@ + o.x@ { unimplemented!() }
    #[verifier::external_body] pub fn get_at(&self, i: usize) -> (r: Bsh) requires i < self.x@.len() ensures r.v@ == self.x@[i as int] { unimplemented!() }
}
pub open spec fn summed(a: Seq<Ash>, b: Seq<Ash>, m: IrisCodeArray, r: Result<(Ash, Ash), Error>) -> bool
{ r is Ok ==> a.len() > 0 && a.len() == b.len() && r->Ok_0.0.v@ == msum(opened(a), m.m@) && r->Ok_0.1.v@ == msum(opened(b), m.m@) }
//@ each M file hdr | aby aby3 x | swift swift3 x
pub mod list_$M { use super::*;
//@ extract iris-mpc/src/$file/vecshare.rs fn filter_reduce_add_twice
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &Vsh, b: &Vsh, mask: &IrisCodeArray) -> (r: Result<(Ash, Ash), Error>) requires a.at().len() <= 12800, b.at().len() <= 12800, mask.m@.len() == 12800 ensures summed(a.at(), b.at(), *mask, r) {"
//@ all "\w+::<T>::zero\(\)" => "zero_()"
//@ all "let (\w+) = (a|b)((?:\s*\.(?:iter|enumerate|zip)\((?:[^()]|\(\))*\))*)\s*\.filter\(\|(\([^|]*\))\|\s*([^;]*?)\)\s*\.fold\(([^,]*), \|(\w+), (\([^|]*\))\|\s*([^;]*?)\);" => "let its = \2\3; let n_ = its.count_(); let mut acc_ = \6; for i_ in 0..n_ invariant n_ == its.v@.len(), n_ == \2.at().len(), \2.at().len() <= 12800, mask.m@.len() == 12800, forall|i: int| 0 <= i < n_ ==> same(#[trigger] its.v@[i], i, \2.at()[i], mask.m@[i]), acc_.v@ == msum(opened(\2.at()).take(i_ as int), mask.m@) { let it_ = its.at_(i_); proof { assert(same(its.v@[i_ as int], i_ as int, \2.at()[i_ as int], mask.m@[i_ as int])); msum_step(opened(\2.at()), mask.m@, i_ as int); } if { let \4 = &it_; \5 } { let \7 = acc_; let \8 = it_; acc_ = \9; } } proof { assert(opened(\2.at()).take(n_ as int) =~= opened(\2.at())); } let \1 = acc_;"
//@ end
}
//@ done
pub mod list_spdz { use super::*;
pub struct VecShare { pub values: Vsh, pub macs: Vsh }
impl VecShare { pub fn len(&self) -> (r: usize) requires self.values.at().len() == self.macs.at().len() ensures r == self.values.at().len() { self.values.len() } pub fn is_empty(&self) -> (r: bool) requires self.values.at().len() == self.macs.at().len() ensures r == (self.values.at().len() == 0) { self.values.is_empty() } }
pub struct Share { pub value: Ash, pub mac: Ash }
impl Share { pub fn new(value: Ash, mac: Ash) -> (r: Share) ensures r.value == value, r.mac == mac { Share { value, mac } } }
pub open spec fn row(s: (((Ash, Ash), (Ash, Ash)), bool), a: VecShare, b: VecShare, m: IrisCodeArray, i: int) -> bool { s.0.0.0 == a.values.at()[i] && s.0.0.1 == a.macs.at()[i] && s.0.1.0 == b.values.at()[i] && s.0.1.1 == b.macs.at()[i] && s.1 == m.m@[i] }
pub open spec fn upto_(r: (Ash, Ash, Ash, Ash), a: VecShare, b: VecShare, m: IrisCodeArray, i: int) -> bool { r.0.v@ == msum(opened(a.values.at()).take(i), m.m@) && r.1.v@ == msum(opened(a.macs.at()).take(i), m.m@) && r.2.v@ == msum(opened(b.values.at()).take(i), m.m@) && r.3.v@ == msum(opened(b.macs.at()).take(i), m.m@) }
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn filter_reduce_add_twice
//@ re "^.*?\bfn filter_reduce_add_twice\b[^{]*\{" => "pub fn filter_reduce_add_twice(a: &VecShare, b: &VecShare, mask: &IrisCodeArray) -> (r: Result<(Share, Share), Error>) requires a.values.at().len() == a.macs.at().len(), b.values.at().len() == b.macs.at().len(), a.values.at().len() <= 12800, b.values.at().len() <= 12800, mask.m@.len() == 12800 ensures r is Ok ==> a.values.at().len() > 0 && a.values.at().len() == b.values.at().len() && r->Ok_0.0.value.v@ == msum(opened(a.values.at()), mask.m@) && r->Ok_0.0.mac.v@ == msum(opened(a.macs.at()), mask.m@) && r->Ok_0.1.value.v@ == msum(opened(b.values.at()), mask.m@) && r->Ok_0.1.mac.v@ == msum(opened(b.macs.at()), mask.m@) {"
//@ all "\w+::<T>::zero\(\)" => "zero_()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let (\([^=]*\)) = ([^;]*?)\s*\.filter\(\|(\([^|]*\))\|\s*([^;]*?)\)\s*\.fold\(\s*(\([^;]*?\)),\s*\|(\([^()|]*\)), (\([^|]*\))\|\s*\{([^;]*?)\},?\s*\);" => "let its = \2; let n_ = its.count_(); let mut acc_: (Ash, Ash, Ash, Ash) = \5; for i_ in 0..n_ invariant n_ == its.v@.len(), n_ == a.values.at().len(), n_ == a.macs.at().len(), n_ == b.values.at().len(), n_ == b.macs.at().len(), n_ <= 12800, mask.m@.len() == 12800, forall|i: int| 0 <= i < n_ ==> row(#[trigger] its.v@[i], *a, *b, *mask, i), upto_(acc_, *a, *b, *mask, i_ as int) { let it_ = its.at_(i_); proof { assert(row(its.v@[i_ as int], *a, *b, *mask, i_ as int)); msum_step(opened(a.values.at()), mask.m@, i_ as int); msum_step(opened(a.macs.at()), mask.m@, i_ as int); msum_step(opened(b.values.at()), mask.m@, i_ as int); msum_step(opened(b.macs.at()), mask.m@, i_ as int); } if { let \3 = &it_; \4 } { let \6 = acc_; let \7 = it_; acc_ = { \8 }; } } proof { assert(opened(a.values.at()).take(n_ as int) =~= opened(a.values.at())); assert(opened(a.macs.at()).take(n_ as int) =~= opened(a.macs.at())); assert(opened(b.values.at()).take(n_ as int) =~= opened(b.values.at())); assert(opened(b.macs.at()).take(n_ as int) =~= opened(b.macs.at())); } let \1 = acc_;"
//@ end
}
pub trait Same: Sized { spec fn is(&self, i: int, a: Ash, m: bool) -> bool; }
impl Same for (usize, Ash) { open spec fn is(&self, i: int, a: Ash, m: bool) -> bool { self.0 == i && self.1 == a } }
impl Same for (Ash, bool) { open spec fn is(&self, i: int, a: Ash, m: bool) -> bool { self.0 == a && self.1 == m } }
pub open spec fn same<S: Same>(s: S, i: int, a: Ash, m: bool) -> bool { s.is(i, a, m) }
// ---------------------------------------------------------------- an engine, by what its operations do to opened values
/// constants of the ring: what a non-negative number smaller than 2^15 is converted to
pub struct Kc { pub n: Ghost<int> }
pub fn konst(n: usize) -> (r: Kc) requires n < 32768, k() >= 15 ensures r.n@ == n { Kc { n: Ghost(n as int) } }
/// T::Share::K
#[verifier::external_body] pub fn ring_bits() -> (r: usize) ensures r == k() { unimplemented!() }
pub const MATCH_THRESHOLD_RATIO_IN_RANGE: bool = true;
pub open spec fn dotted(a: Seq<Ash>, b: Seq<Ash>, m: IrisCodeArray, r: Ash) -> bool { a.len() == 12800 && b.len() == 12800 && r.v@ == msum(products(a, b), m.m@) }
pub open spec fn valued(a: Seq<Ash>, b: Seq<Ash>, m: IrisCodeArray, r: Ash) -> bool { a.len() == 12800 && b.len() == 12800 && r.v@ == dist_val(a, b, m.m@) }
pub struct Mpc { pub state: Ghost<int> }
pub open spec fn any_true(s: Seq<bool>) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] }
impl Mpc {
    #[verifier::external_body] pub fn mul_const(&self, a: Ash, c: Kc) -> (r: Ash) ensures r.v@ == a.v@ * c.n@ { unimplemented!() }
    #[verifier::external_body] pub fn add(&self, a: Ash, b: Ash) -> (r: Ash) ensures r.v@ == a.v@ + b.v@ { unimplemented!() }
    #[verifier::external_body] pub fn sub(&self, a: Ash, b: Ash) -> (r: Ash) ensures r.v@ == a.v@ - b.v@ { unimplemented!() }
    #[verifier::external_body] pub fn sub_const(&self, a: Ash, c: Kc) -> (r: Ash) ensures r.v@ == a.v@ - c.n@ { unimplemented!() }
    /// C03 and C19
    #[verifier::external_body] pub fn masked_dot_many(&mut self, a: &Vsh, b: &[Vsh], masks: &Vec<IrisCodeArray>) -> (r: Result<Vec<Ash>, Error>)
        ensures r is Ok ==> r->Ok_0@.len() == b@.len() && masks@.len() == b@.len() && forall|j: int| 0 <= j < b@.len() ==> #[trigger] dotted(a.at(), b@[j].at(), masks@[j], r->Ok_0@[j]) { unimplemented!() }
    /// C05
    #[verifier::external_body] pub fn get_msb(&mut self, a: Ash) -> (r: Result<Bsh, Error>) ensures r is Ok ==> r->Ok_0.v@ == top(a.v@) { unimplemented!() }
    #[verifier::external_body] pub fn get_msb_many(&mut self, a: Vec<Ash>) -> (r: Result<Bvec, Error>) ensures r is Ok ==> r->Ok_0.x@.len() == a@.len() && forall|j: int| 0 <= j < a@.len() ==> #[trigger] r->Ok_0.x@[j] == top(a@[j].v@) { unimplemented!() }
    /// C16
    #[verifier::external_body] pub fn precompute_and_triples(&mut self, n: usize) -> (r: Result<(), Error>) { unimplemented!() }
    /// C06
    #[verifier::external_body] pub fn reduce_binary_or(&mut self, b: Bvec, chunk_size: usize) -> (r: Result<Bsh, Error>) ensures r is Ok ==> r->Ok_0.v@ == any_true(b.x@) { unimplemented!() }
    #[verifier::external_body] pub fn verify(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
    /// C01
    #[verifier::external_body] pub fn open_bit(&mut self, b: Bsh) -> (r: Result<bool, Error>) ensures r is Ok ==> r->Ok_0 == b.v@ { unimplemented!() }
}
#[verifier::external_body] pub fn filter_reduce_add_twice<V: Vs, W: Vs>(a: V, b: W, mask: &IrisCodeArray) -> (r: Result<(Ash, Ash), Error>) requires a.at().len() <= 12800, b.at().len() <= 12800, mask.m@.len() == 12800 ensures summed(a.at(), b.at(), *mask, r) { unimplemented!() }
pub open spec fn whole(v: Seq<IrisCodeArray>) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).m@.len() == 12800 }
pub open spec fn piece<T>(x: Seq<T>, c: int, size: int) -> Seq<T> { x.subrange(c * size, if x.len() - c * size < size { x.len() as int } else { c * size + size }) }
pub open spec fn pieces(r: int, n: int, size: int) -> bool { r >= 0 && (r - 1) * size < n <= r * size }
/// [T]::chunks
#[verifier::external_body] pub fn chunks_<T>(v: &[T], size: usize) -> (r: Items<&[T]>) requires size > 0 ensures pieces(r.v@.len() as int, v@.len() as int, size as int), forall|c: int| 0 <= c < r.v@.len() ==> (#[trigger] r.v@[c])@ == piece(v@, c, size as int) { unimplemented!() }
pub open spec fn dist_val(a: Seq<Ash>, b: Seq<Ash>, m: Seq<bool>) -> int { msum(opened(a), m) + msum(opened(b), m) - 2 * msum(products(a, b), m) }
/// what compare_iris_many decides for entry j: the top bit of distance minus threshold
pub open spec fn verdict(a: Seq<Ash>, b: Seq<Ash>, m: Seq<bool>) -> bool { top(dist_val(a, b, m) - thr(ones(m))) }
pub open spec fn judged(r: Seq<bool>, a: Vsh, b: Seq<Vsh>, ma: IrisCodeArray, mb: Seq<IrisCodeArray>) -> bool {
    b.len() == mb.len() && r.len() == b.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] entry(r[j], a, b[j], ma, mb[j])
}
pub open spec fn entry(r: bool, a: Vsh, b: Vsh, ma: IrisCodeArray, mb: IrisCodeArray) -> bool { usable(ma, mb) && r == verdict(a.at(), b.at(), both(ma.m@, mb.m@)) && a.at().len() == 12800 && b.at().len() == 12800 }
//@ extract iris-mpc/src/aby3/utils.rs fn ceil_log2
//@ re "^.*?\bfn ceil_log2\b[^{]*\{" => "pub fn ceil_log2(x: usize) -> (r: usize) requires x >= 1 ensures pow2(r as nat) >= x, r > 0 ==> pow2((r - 1) as nat) < x, x == 12800 ==> is_log(r as int) { let ghost x0 = (x - 1) as int; proof { lemma2_to64(); }"
//@ re "let mut (\w+) = 0;(.*?)while (\w+) > 0 \{" => "let mut \1: usize = 0; \2 proof { assert(x0 / 1 == x0); } while \3 > 0 invariant \3 == x0 / (pow2(\1 as nat) as int), 0 <= x0 < 0x1_0000_0000_0000_0000, \1 <= 64, \1 > 0 ==> x0 / (pow2((\1 - 1) as nat) as int) > 0 decreases \3 { proof { lemma_pow2_unfold((\1 + 1) as nat); lemma_pow2_pos(\1 as nat); lemma_div_denominator(x0, pow2(\1 as nat) as int, 2); let w = \3; assert(w >> 1usize == w / 2) by (bit_vector); lemma2_to64_rest(); if \1 == 64 { lemma_basic_div(x0, pow2(64) as int); } }"
//@ re "(\w+) >>= 1;" => "\1 = \1 >> 1usize;"
//@ re "(\w+)\s*\}\s*$" => "proof { lemma_pow2_pos(\1 as nat); lemma_fundamental_div_mod(x0, pow2(\1 as nat) as int); lemma_mod_bound(x0, pow2(\1 as nat) as int); assert(pow2(\1 as nat) * 0 == 0) by (nonlinear_arith); if \1 > 0 { let q = pow2((\1 - 1) as nat) as int; lemma_pow2_pos((\1 - 1) as nat); if x0 < q { lemma_basic_div(x0, q); } } } \1 }"
//@ end
pub open spec fn is_log(r: int) -> bool { r >= 0 && pow2(r as nat) >= 12800 && (r > 0 ==> pow2((r - 1) as nat) < 12800) }
proof fn log_of_size() ensures forall|r: int| #[trigger] is_log(r) ==> r == 14
{ lemma2_to64(); assert forall|r: int| #[trigger] is_log(r) implies r == 14 by { if r < 14 { lemma_pow2_strictly_increases(r as nat, 14); if r < 13 { lemma_pow2_strictly_increases(r as nat, 13); } } else if r > 14 { if r > 15 { lemma_pow2_strictly_increases(14, (r - 1) as nat); } } } }
pub open spec fn at_distance(h: Ash, a: Vsh, b: Vsh, ma: IrisCodeArray, mb: IrisCodeArray) -> bool { a.at().len() == 12800 && b.at().len() == 12800 && h.v@ == dist_val(a.at(), b.at(), both(ma.m@, mb.m@)) }
proof fn judged_more(v: Seq<bool>, r: Seq<bool>, a: Vsh, b: Seq<Vsh>, ma: IrisCodeArray, mb: Seq<IrisCodeArray>, i: int, size: int)
    requires b.len() == mb.len(), size > 0, 0 <= i * size < b.len(), judged(v, a, b.take(upto(i * size, b.len())), ma, mb.take(upto(i * size, b.len()))), judged(r, a, piece(b, i, size), ma, piece(mb, i, size))
    ensures judged(v + r, a, b.take(upto((i + 1) * size, b.len())), ma, mb.take(upto((i + 1) * size, b.len())))
{
    assert((i + 1) * size == i * size + size) by (nonlinear_arith);
    let (s, e) = (i * size, upto((i + 1) * size, b.len()));
    let (b0, m0, bp, mp, b1, m1) = (b.take(s), mb.take(s), piece(b, i, size), piece(mb, i, size), b.take(e), mb.take(e));
    let w = v + r;
    assert forall|j: int| 0 <= j < e implies #[trigger] entry(w[j], a, b1[j], ma, m1[j]) by {
        if j < s { assert(m1[j] == m0[j] && b1[j] == b0[j] && w[j] == v[j]); assert(entry(v[j], a, b0[j], ma, m0[j])); } else { assert(m1[j] == mp[j - s] && b1[j] == bp[j - s] && w[j] == r[j - s]); assert(entry(r[j - s], a, bp[j - s], ma, mp[j - s])); }
    }
}
proof fn inside_piece(c: int, n: int, len: int, size: int) requires 0 <= c < n, pieces(n, len, size), size > 0 ensures 0 <= c * size < len
{ assert(c * size <= (n - 1) * size) by (nonlinear_arith) requires c <= n - 1, size > 0; assert(0 <= c * size) by (nonlinear_arith) requires 0 <= c, size > 0; }
pub struct IrisProtocol { pub mpc: Mpc }
impl IrisProtocol {
//@ extract iris-mpc/src/iris/protocol.rs fn new
//@ re "^.*?\bfn new\b[^{]*\{" => "pub fn new(mpc: Mpc) -> (r: Result<Self, Error>) ensures r is Ok == (k() >= 15), r is Ok ==> r->Ok_0.mpc == mpc { proof { log_of_size(); }"
//@ re "MATCH_THRESHOLD_RATIO >= 1\.\s*\|\| MATCH_THRESHOLD_RATIO <= 0\." => "!MATCH_THRESHOLD_RATIO_IN_RANGE"
//@ all "T::Share::K" => "ring_bits()"
//@ all ",?\s*phantom_\w+: PhantomData" => ""
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn combine_masks
//@ re "^.*?\bfn combine_masks\b[^{]*\{" => "pub fn combine_masks(&self, mask_a: &IrisCodeArray, mask_b: &IrisCodeArray) -> (r: Result<IrisCodeArray, Error>) ensures r is Ok == usable(*mask_a, *mask_b), r is Ok ==> r->Ok_0.m@ == both(mask_a.m@, mask_b.m@) {"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn masked_hamming_distance_post
//@ re "^.*?\bfn masked_hamming_distance_post\b[^{]*\{" => "pub fn masked_hamming_distance_post<V: Vs, W: Vs>(&self, a: V, b: W, mask: &IrisCodeArray, dot: Ash) -> (r: Result<Ash, Error>) requires k() >= 15, a.at().len() <= 12800, b.at().len() <= 12800, mask.m@.len() == 12800 ensures r is Ok ==> a.at().len() == b.at().len() && r->Ok_0.v@ == msum(opened(a.at()), mask.m@) + msum(opened(b.at()), mask.m@) - 2 * dot.v@ {"
//@ all "Ashare::VecShare::" => ""
//@ all "T::try_from\((\w+)\)\.unwrap\(\)" => "konst(\1)"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn masked_hamming_distance_many
//@ re "^.*?\bfn masked_hamming_distance_many\b[^{]*\{" => "pub fn masked_hamming_distance_many(&mut self, a: &Vsh, b: &[Vsh], masks: Vec<IrisCodeArray>) -> (r: Result<Vec<Ash>, Error>) requires k() >= 15, whole(masks@) ensures r is Ok ==> masks@.len() == b@.len() && r->Ok_0@.len() == b@.len() && forall|j: int| 0 <= j < b@.len() ==> #[trigger] valued(a.at(), b@[j].at(), masks@[j], r->Ok_0@[j]) {"
//@ all "\s*\.await" => ""
//@ all "Vec::with_capacity\([^()]*(?:\(\))?\)" => "Vec::<Ash>::new()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\(.*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant k() >= 15, whole(masks@), masks@.len() == b@.len(), dots@.len() == b@.len(), its.v@ == zipped(zipped(b@, dots@), masks@), n_ == its.v@.len(), n_ == b@.len(), forall|j: int| 0 <= j < b@.len() ==> #[trigger] dotted(a.at(), b@[j].at(), masks@[j], dots@[j]), res@.len() == i_, forall|j: int| 0 <= j < i_ ==> #[trigger] valued(a.at(), b@[j].at(), masks@[j], res@[j]) { let \1 = its.at_(i_); proof { assert(its.v@[i_ as int] == ((b@[i_ as int], dots@[i_ as int]), masks@[i_ as int])); assert(dotted(a.at(), b@[i_ as int].at(), masks@[i_ as int], dots@[i_ as int])); }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn get_cmp_diff
//@ re "^.*?\bfn get_cmp_diff\b[^{]*\{" => "pub fn get_cmp_diff(&self, hwd: Ash, mask_ones: usize) -> (r: Ash) requires k() >= 15, mask_ones <= 12800 ensures r.v@ == hwd.v@ - thr(mask_ones as int) {"
//@ all "\((\w+) as f64 \* MATCH_THRESHOLD_RATIO\) as usize" => "scaled(\1)"
//@ re "(\w+)\s*\.try_into\(\)\s*\.expect\([^()]*\)" => "konst(\1)"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_threshold
//@ re "^.*?\bfn compare_threshold\b[^{]*\{" => "pub fn compare_threshold(&mut self, hwd: Ash, mask_ones: usize) -> (r: Result<Bsh, Error>) requires k() >= 15, mask_ones <= 12800 ensures r is Ok ==> r->Ok_0.v@ == top(hwd.v@ - thr(mask_ones as int)) {"
//@ all "\s*\.await" => ""
//@ all "Mpc::get_msb\(&mut self\.mpc, " => "self.mpc.get_msb("
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_threshold_many
//@ re "^.*?\bfn compare_threshold_many\b[^{]*\{" => "pub fn compare_threshold_many(&mut self, hwds: Vec<Ash>, mask_lens: Vec<usize>) -> (r: Result<Bvec, Error>) requires k() >= 15, forall|j: int| 0 <= j < mask_lens@.len() ==> #[trigger] mask_lens@[j] <= 12800 ensures hwds@.len() != mask_lens@.len() ==> r is Err, r is Ok ==> r->Ok_0.x@.len() == hwds@.len() && forall|j: int| 0 <= j < hwds@.len() ==> #[trigger] r->Ok_0.x@[j] == top(hwds@[j].v@ - thr(mask_lens@[j] as int)) {"
//@ all "\s*\.await" => ""
//@ all "Vec::with_capacity\([^()]*(?:\(\))?\)" => "Vec::<Ash>::new()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\(.*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant k() >= 15, mask_lens@.len() == hwds@.len(), its.v@ == zipped(hwds@, mask_lens@), n_ == its.v@.len(), forall|j: int| 0 <= j < mask_lens@.len() ==> #[trigger] mask_lens@[j] <= 12800, diffs@.len() == i_, forall|j: int| 0 <= j < i_ ==> (#[trigger] diffs@[j]).v@ == hwds@[j].v@ - thr(mask_lens@[j] as int) { let \1 = its.at_(i_); proof { assert(mask_lens@[i_ as int] <= 12800); }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_iris
//@ re "^.*?\bfn compare_iris\b[^{]*\{" => "pub fn compare_iris(&mut self, a: Vsh, b: Vsh, mask_a: &IrisCodeArray, mask_b: &IrisCodeArray) -> (r: Result<Bsh, Error>) requires k() >= 15, mask_a.m@.len() == 12800, mask_b.m@.len() == 12800 ensures !usable(*mask_a, *mask_b) ==> r is Err, r is Ok ==> r->Ok_0.v@ == verdict(a.at(), b.at(), both(mask_a.m@, mask_b.m@)) && a.at().len() == 12800 && b.at().len() == 12800 {"
//@ all "\s*\.await" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ re "let (\w+) = self\s*\.compare_iris_many\(([^,]*), (&\[[^\]]*\]), ([^,]*), (&\[[^\]]*\])\)\?;" => "let bs_: &[Vsh] = \3; let ms_: &[IrisCodeArray] = \5; let \1 = self.compare_iris_many(\2, bs_, \4, ms_)?; proof { assert(entry(\1.x@[0], a, bs_@[0], *mask_a, ms_@[0])); }"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn compare_iris_many
//@ re "^.*?\bfn compare_iris_many\b[^{]*\{" => "pub fn compare_iris_many(&mut self, a: &Vsh, b: &[Vsh], mask_a: &IrisCodeArray, mask_b: &[IrisCodeArray]) -> (r: Result<Bvec, Error>) requires k() >= 15, mask_a.m@.len() == 12800, whole(mask_b@) ensures b@.len() == 0 || b@.len() != mask_b@.len() ==> r is Err, (exists|j: int| 0 <= j < mask_b@.len() && !#[trigger] usable(*mask_a, mask_b@[j])) ==> r is Err, r is Ok ==> judged(r->Ok_0.x@, *a, b@, *mask_a, mask_b@) {"
//@ all "\s*\.await" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let masks = ([^;]*?)\.map\(\|(\w+)\| ([^;]*?)\)\s*\.collect::<Result<Vec<_>, _>>\(\)\?;" => "let its = (\1).items(); let n_ = its.count_(); let mut masks: Vec<IrisCodeArray> = Vec::new(); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == mask_b@, mask_a.m@.len() == 12800, masks@.len() == i_, forall|j: int| 0 <= j < i_ ==> (#[trigger] masks@[j]).m@ == both(mask_a.m@, mask_b@[j].m@), forall|j: int| 0 <= j < i_ ==> #[trigger] usable(*mask_a, mask_b@[j]) { let b_ = its.at_(i_); let \2 = &b_; let one_ = \3?; masks.push(one_); }"
//@ re "let mask_lens: Vec<_> = ([^;]*?)\.map\(\|(\w+)\| ([^;]*?)\)\s*\.collect\(\);" => "let its = (\1).items(); let n_ = its.count_(); let mut mask_lens: Vec<usize> = Vec::new(); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == masks@, mask_lens@.len() == i_, whole(masks@), forall|j: int| 0 <= j < i_ ==> #[trigger] mask_lens@[j] == ones(masks@[j].m@) && mask_lens@[j] <= 12800 { let \2 = its.at_(i_); let one_ = \3; proof { ones_bound(masks@[i_ as int].m@); } mask_lens.push(one_); }"
//@ re "let hwds = ([^;]*);" => "let ghost ms_ = masks@; let hwds = \1; let ghost hw_ = hwds@; let ghost ml_ = mask_lens@; proof { assert forall|j: int| 0 <= j < b@.len() implies #[trigger] at_distance(hwds@[j], *a, b@[j], *mask_a, mask_b@[j]) by { assert(valued(a.at(), b@[j].at(), ms_[j], hwds@[j])); } }"
//@ re "(self\s*\.compare_threshold_many\([^()]*\))" => "let out_ = \1; proof { if out_ is Ok { let r_ = out_->Ok_0.x@; assert forall|j: int| 0 <= j < b@.len() implies #[trigger] entry(r_[j], *a, b@[j], *mask_a, mask_b@[j]) by { assert(at_distance(hw_[j], *a, b@[j], *mask_a, mask_b@[j])); assert(r_[j] == top(hw_[j].v@ - thr(ml_[j] as int))); assert(usable(*mask_a, mask_b@[j])); assert(ml_[j] == ones(ms_[j].m@)); assert(ms_[j].m@ == both(mask_a.m@, mask_b@[j].m@)); } } } out_"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn iris_in_db
//@ re "^.*?\bfn iris_in_db\b[^{]*\{" => "pub fn iris_in_db(&mut self, iris: &Vsh, db: &[Vsh], mask_iris: &IrisCodeArray, mask_db: &[IrisCodeArray], chunk_size: usize) -> (r: Result<bool, Error>) requires k() >= 15, chunk_size > 0, mask_iris.m@.len() == 12800, whole(mask_db@) ensures db@.len() == 0 || db@.len() != mask_db@.len() ==> r is Err, (exists|j: int| 0 <= j < mask_db@.len() && !#[trigger] usable(*mask_iris, mask_db@[j])) ==> r is Err, r is Ok ==> exists|v: Seq<bool>| #[trigger] judged(v, *iris, db@, *mask_iris, mask_db@) && r->Ok_0 == any_true(v) {"
//@ all "\s*\.await" => ""
//@ re "let (\w+) =\s*self\.msb_and_gates[^;]*;" => "let \1 = amount_of_triples();"
//@ all "Bshare::VecShare::" => "Bvec::"
//@ all "(\w+)\.chunks\((\w+)\)" => "chunks_(\1, \2)"
//@ re "for (\(.*?\)) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); proof { let z_ = chunk_size as int; assert(0 * z_ == 0) by (nonlinear_arith); assert(judged(bool_shares.x@, *iris, db@.take(0), *mask_iris, mask_db@.take(0))); } for i_ in 0..n_ invariant k() >= 15, chunk_size > 0, mask_iris.m@.len() == 12800, whole(mask_db@), db@.len() == mask_db@.len(), n_ == its.v@.len(), pieces(n_ as int, db@.len() as int, chunk_size as int), forall|c: int| 0 <= c < n_ ==> (#[trigger] its.v@[c]).0@ == piece(db@, c, chunk_size as int) && its.v@[c].1@ == piece(mask_db@, c, chunk_size as int), judged(bool_shares.x@, *iris, db@.take(upto(i_ * chunk_size, db@.len())), *mask_iris, mask_db@.take(upto(i_ * chunk_size, db@.len()))) { proof { inside_piece(i_ as int, n_ as int, db@.len() as int, chunk_size as int); } let ghost was_ = bool_shares.x@; let \1 = its.at_(i_); proof { assert(its.v@[i_ as int].0@ == piece(db@, i_ as int, chunk_size as int)); }"
//@ re "(bool_shares\.extend\((\w+)\);)" => "let ghost more_ = \2.x@; \1 proof { judged_more(was_, more_, *iris, db@, *mask_iris, mask_db@, i_ as int, chunk_size as int); }"
//@ re "let (\w+) = (self\s*\.mpc\s*\.reduce_binary_or)" => "let ghost v_ = bool_shares.x@; proof { assert(db@.take(upto(n_ * chunk_size, db@.len())) =~= db@); assert(mask_db@.take(upto(n_ * chunk_size, db@.len())) =~= mask_db@); assert(judged(v_, *iris, db@, *mask_iris, mask_db@)); assert forall|j: int| 0 <= j < mask_db@.len() implies #[trigger] usable(*mask_iris, mask_db@[j]) by { assert(entry(v_[j], *iris, db@[j], *mask_iris, mask_db@[j])); } } let \1 = \2"
//@ end
}
#[verifier::external_body] pub fn amount_of_triples() -> (r: usize) { unimplemented!() }
/// shares of codes: the secure verdict is the plaintext decision
proof fn same_decision(a: Vsh, b: Vsh, ca: Seq<bool>, cb: Seq<bool>, ma: IrisCodeArray, mb: IrisCodeArray)
    requires k() >= 15, code_of(a.at(), ca), code_of(b.at(), cb), ca.len() == 12800, cb.len() == 12800, ma.m@.len() == 12800, mb.m@.len() == 12800, 0 <= thr(ones(both(ma.m@, mb.m@))) <= ones(both(ma.m@, mb.m@))
    ensures verdict(a.at(), b.at(), both(ma.m@, mb.m@)) == close(ca, cb, ma, mb)
{
    let m = both(ma.m@, mb.m@);
    distance_by_sums(a.at(), b.at(), ca, cb, m);
    assert(m.take(12800) =~= m);
    ones_bound(both(differ(ca, cb), m)); ones_bound(m);
    sign_is_top(distance(ca, cb, m), thr(ones(m)));
}
/// a query answers whether some entry is close
proof fn query_decision(v: Seq<bool>, a: Vsh, b: Seq<Vsh>, ca: Seq<bool>, cb: Seq<Seq<bool>>, ma: IrisCodeArray, mb: Seq<IrisCodeArray>)
    requires judged(v, a, b, ma, mb), k() >= 15, code_of(a.at(), ca), cb.len() == b.len(), forall|j: int| 0 <= j < b.len() ==> #[trigger] code_of(b[j].at(), cb[j]) && mb[j].m@.len() == 12800, ma.m@.len() == 12800, forall|n: int| 0 <= n <= 12800 ==> 0 <= #[trigger] thr(n) <= n
    ensures any_true(v) == exists|j: int| 0 <= j < b.len() && #[trigger] close(ca, cb[j], ma, mb[j])
{
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] v[j] == close(ca, cb[j], ma, mb[j]) by {
        assert(entry(v[j], a, b[j], ma, mb[j])); assert(code_of(b[j].at(), cb[j])); ones_bound(both(ma.m@, mb[j].m@));
        same_decision(a, b[j], ca, cb[j], ma, mb[j]);
    }
    if any_true(v) { let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j]; assert(close(ca, cb[j], ma, mb[j])); }
    if exists|j: int| 0 <= j < b.len() && #[trigger] close(ca, cb[j], ma, mb[j]) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] close(ca, cb[j], ma, mb[j]); assert(v[j]); }
}
fn main() {}
}
