// C12: polynomials over an arbitrary commutative coefficient ring, all lengths and all coefficients.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
#[derive(Debug)]
pub enum Error { NoInverseError }
/// Coefficients are classes of integers modulo an ideal of which nothing is known but the axioms: what is an equation of
/// + - * up to members of the ideal holds in every commutative ring. z(x): the class of x is zero
pub uninterp spec fn z(x: int) -> bool;
pub axiom fn ideal(x: int, y: int, k: int) ensures z(0), !z(1), z(x) && z(y) ==> z(x + y), z(x) ==> z(x * k), z(x) ==> z(k * x), z(x) ==> z(-x);
pub open spec fn eqm(x: int, y: int) -> bool { z(x - y) }
impl El {
    #[verifier::external_body] pub fn zero() -> (r: El) ensures r == el(0) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: El) ensures r == el(1) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == z(self.w@) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == z(self.w@ - 1) { unimplemented!() }
    /// inverse of a ring element (C11)
    #[verifier::external_body] pub fn inverse(&self) -> (r: Result<El, Error>) ensures r is Ok ==> z(r->Ok_0.w@ * self.w@ - 1), r is Err ==> forall|t: int| !#[trigger] z(t * self.w@ - 1) { unimplemented!() }
    /// inverse of a non-zero element of a field (C13), of a difference of points modulo the polynomial (c12_inv.rs)
    #[verifier::external_body] pub fn inverse_(&self) -> (r: El) ensures invertible(self.w@) ==> z(r.w@ * self.w@ - 1) { unimplemented!() }
}
pub open spec fn invertible(x: int) -> bool { exists|t: int| #[trigger] z(t * x - 1) }
/// where coefficients are polynomials modulo another one: the remainder stands for the same class (decided below)
#[verifier::external_body] pub fn el_rem(a: El, m: &El) -> (r: El) ensures eqm(r.w@, a.w@) { unimplemented!() }
#[derive(Clone)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Poly { pub coeffs: Vec<El> }
pub open spec fn co(p: Seq<El>, k: int) -> int { if 0 <= k < p.len() { p[k].w@ } else { 0 } }
#[verifier::external_body] pub fn zeros_(n: usize) -> (r: Vec<El>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == el(0) { unimplemented!() }
#[verifier::external_body] pub fn resize_(v: &mut Vec<El>, n: usize) ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == if i < old(v)@.len() { old(v)@[i] } else { el(0) } { unimplemented!() }
pub fn max2(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
pub fn min2(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// what a polynomial operation returns, coefficient by coefficient
pub open spec fn summed(r: Seq<El>, a: Seq<El>, b: Seq<El>) -> bool { forall|k: int| eqm(#[trigger] co(r, k), co(a, k) + co(b, k)) }
pub open spec fn subtracted(r: Seq<El>, a: Seq<El>, b: Seq<El>) -> bool { forall|k: int| eqm(#[trigger] co(r, k), co(a, k) - co(b, k)) }
pub open spec fn scaled(r: Seq<El>, a: Seq<El>, x: int) -> bool { forall|k: int| eqm(#[trigger] co(r, k), co(a, k) * x) }
pub open spec fn multiplied(r: Seq<El>, a: Seq<El>, b: Seq<El>) -> bool { forall|k: int| eqm(#[trigger] co(r, k), conv(a, b, k, a.len() as int)) }
pub open spec fn same(r: Seq<El>, a: Seq<El>) -> bool { forall|k: int| eqm(#[trigger] co(r, k), co(a, k)) }
pub open spec fn all_z(p: Seq<El>) -> bool { forall|k: int| z(#[trigger] co(p, k)) }
/// the k-th coefficient of the product, from the first m coefficients of a
pub open spec fn conv(a: Seq<El>, b: Seq<El>, k: int, m: int) -> int decreases m { if m <= 0 { 0 } else { conv(a, b, k, m - 1) + co(a, m - 1) * co(b, k - (m - 1)) } }
proof fn eqm_refl() ensures forall|x: int, y: int| x == y ==> #[trigger] eqm(x, y) { ideal(0, 0, 0); }
proof fn conv_z(a: Seq<El>, b: Seq<El>, k: int, m: int) requires all_z(a) || all_z(b) ensures z(conv(a, b, k, m)) decreases m
{
    ideal(0, 0, 0);
    if m > 0 { conv_z(a, b, k, m - 1); let (x, y) = (co(a, m - 1), co(b, k - (m - 1))); assert(z(x) || z(y)); ideal(x, 0, y); ideal(y, 0, x); ideal(conv(a, b, k, m - 1), x * y, 0); }
}
proof fn conv_long(a: Seq<El>, b: Seq<El>, k: int, m: int, n: int) requires 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] co(a, i) == 0 || co(b, k - i) == 0 ensures conv(a, b, k, n) == conv(a, b, k, m) decreases n - m
{ if m < n { conv_long(a, b, k, m, n - 1); let (x, y) = (co(a, n - 1), co(b, k - (n - 1))); assert(x * y == 0) by (nonlinear_arith) requires x == 0 || y == 0; } }
proof fn conv_mirror(a: Seq<El>, b: Seq<El>, k: int, j: int) requires 0 <= j <= k + 1 ensures conv(a, b, k, k + 1) == conv(a, b, k, j) + conv(b, a, k, k + 1 - j) decreases k + 1 - j
{ if j < k + 1 { conv_mirror(a, b, k, j + 1); let (x, y) = (co(a, j), co(b, k - j)); assert(x * y == y * x) by (nonlinear_arith); assert(k - (k - j) == j); } }
proof fn conv_full(a: Seq<El>, b: Seq<El>, k: int) requires k >= 0 ensures conv(a, b, k, a.len() as int) == conv(a, b, k, k + 1)
{ if a.len() <= k + 1 { conv_long(a, b, k, a.len() as int, k + 1); } else { conv_long(a, b, k, k + 1, a.len() as int); } }
proof fn conv_comm(a: Seq<El>, b: Seq<El>, k: int) ensures conv(a, b, k, a.len() as int) == conv(b, a, k, b.len() as int)
{ if k < 0 { conv_long(a, b, k, 0, a.len() as int); conv_long(b, a, k, 0, b.len() as int); } else { conv_full(a, b, k); conv_full(b, a, k); conv_mirror(a, b, k, 0); } }
proof fn zero_product(r: Seq<El>, a: Seq<El>, b: Seq<El>) requires all_z(r), all_z(a) || all_z(b) ensures multiplied(r, a, b)
{ assert forall|k: int| eqm(#[trigger] co(r, k), conv(a, b, k, a.len() as int)) by { conv_z(a, b, k, a.len() as int); let (x, y) = (co(r, k), conv(a, b, k, a.len() as int)); assert(z(x)); ideal(y, 0, 0); ideal(x, -y, 0); } }
proof fn product_comm(r: Seq<El>, a: Seq<El>, b: Seq<El>) requires multiplied(r, a, b) ensures multiplied(r, b, a)
{ assert forall|k: int| eqm(#[trigger] co(r, k), conv(b, a, k, b.len() as int)) by { conv_comm(a, b, k); } }
proof fn conv_set(q: Seq<El>, p: Seq<El>, b: Seq<El>, k: int, m: int, c: int, n: int) requires 0 <= m < q.len(), q[m] == el(0), p == q.update(m, el(c)) ensures conv(p, b, k, n) == conv(q, b, k, n) + if m < n { c * co(b, k - m) } else { 0 } decreases n
{ if n > 0 { conv_set(q, p, b, k, m, c, n - 1); if n - 1 == m { let y = co(b, k - m); assert(co(p, m) == c && co(q, m) == 0); assert(0 * y == 0) by (nonlinear_arith); } else { assert(co(p, n - 1) == co(q, n - 1)); } } }
// ---------------------------------------------------------------- degree
pub open spec fn dg(p: Seq<El>, n: int) -> int decreases n { if n <= 0 { 0 } else if !z(co(p, n - 1)) { n - 1 } else { dg(p, n - 1) } }
pub open spec fn deg(p: Seq<El>) -> int { dg(p, p.len() as int) }
proof fn dg_top(p: Seq<El>, n: int) requires n <= p.len() ensures 0 <= dg(p, n), dg(p, n) < n || dg(p, n) == 0, forall|k: int| dg(p, n) < k < n ==> z(#[trigger] co(p, k)), !z(co(p, dg(p, n))) || dg(p, n) == 0 decreases n
{ if n > 0 { dg_top(p, n - 1); } }
proof fn deg_top(p: Seq<El>) ensures 0 <= deg(p), deg(p) < p.len() || deg(p) == 0, forall|k: int| deg(p) < k ==> z(#[trigger] co(p, k)), all_z(p) || !z(co(p, deg(p)))
{
    dg_top(p, p.len() as int); ideal(0, 0, 0);
    if z(co(p, deg(p))) { assert forall|k: int| z(#[trigger] co(p, k)) by { if k == 0 { assert(deg(p) == 0); } } }
}
// ---------------------------------------------------------------- values
pub open spec fn pw(x: int, k: int) -> int decreases k { if k <= 0 { 1 } else { pw(x, k - 1) * x } }
/// the value at x of the first m coefficients
pub open spec fn value(p: Seq<El>, x: int, m: int) -> int decreases m { if m <= 0 { 0 } else { value(p, x, m - 1) + co(p, m - 1) * pw(x, m - 1) } }
pub open spec fn at(p: Seq<El>, x: int) -> int { value(p, x, p.len() as int) }
pub open spec fn horner(p: Seq<El>, x: int, i: int) -> int decreases p.len() - i { if i >= p.len() { 0 } else { horner(p, x, i + 1) * x + co(p, i) } }
proof fn horner_is_value(p: Seq<El>, x: int, i: int) requires 0 <= i <= p.len() ensures value(p, x, i) + horner(p, x, i) * pw(x, i) == at(p, x) decreases p.len() - i
{
    if i < p.len() {
        horner_is_value(p, x, i + 1);
        let (h, c, w) = (horner(p, x, i + 1), co(p, i), pw(x, i));
        assert((h * x + c) * w == h * (w * x) + c * w) by (nonlinear_arith);
    } else { assert(0 * pw(x, i) == 0) by (nonlinear_arith); }
}
proof fn value_same(p: Seq<El>, q: Seq<El>, x: int, m: int) requires forall|k: int| eqm(#[trigger] co(p, k), co(q, k)) ensures eqm(value(p, x, m), value(q, x, m)) decreases m
{
    ideal(0, 0, 0);
    if m > 0 {
        value_same(p, q, x, m - 1);
        let (a, b, w) = (co(p, m - 1), co(q, m - 1), pw(x, m - 1)); assert(eqm(a, b));
        ideal(a - b, 0, w); assert((a - b) * w == a * w - b * w) by (nonlinear_arith);
        ideal(value(p, x, m - 1) - value(q, x, m - 1), a * w - b * w, 0);
    }
}
proof fn value_more(p: Seq<El>, x: int, m: int) requires m >= p.len() ensures value(p, x, m) == at(p, x) decreases m
{ if m > p.len() { value_more(p, x, m - 1); assert(0 * pw(x, m - 1) == 0) by (nonlinear_arith); } }
//@ each Tr SpecTr obeys req spec R | Add AddSpecImpl obeys_add_spec add_req add_spec Poly | Add AddSpecImpl obeys_add_spec add_req add_spec &Poly | Add AddSpecImpl obeys_add_spec add_req add_spec El | Add AddSpecImpl obeys_add_spec add_req add_spec &El | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec Poly | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec &Poly | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec El | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec &El
impl $SpecTr<$R> for Poly { open spec fn $obeys() -> bool { false } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> Poly { arbitrary() } }
//@ done
//@ each R | Poly | &Poly | El | &El
impl MulSpecImpl<$R> for Poly { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: $R) -> bool { true } open spec fn mul_spec(self, o: $R) -> Poly { arbitrary() } }
impl AddAssignSpecImpl<$R> for Poly { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: $R) -> bool { true } open spec fn add_assign_spec(&self, o: $R) -> &Self { arbitrary() } }
impl SubAssignSpecImpl<$R> for Poly { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: $R) -> bool { true } open spec fn sub_assign_spec(&self, o: $R) -> &Self { arbitrary() } }
impl MulAssignSpecImpl<$R> for Poly { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: $R) -> bool { true } open spec fn mul_assign_spec(&self, o: $R) -> &Self { arbitrary() } }
//@ done
impl NegSpecImpl for Poly { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Poly { arbitrary() } }
//@ each R | Poly | &Poly
impl RemSpecImpl<$R> for Poly { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, o: $R) -> bool { true } open spec fn rem_spec(self, o: $R) -> Poly { arbitrary() } }
//@ done
impl Poly {
    pub fn default() -> (r: Self) ensures r.coeffs@.len() == 0 { Poly { coeffs: Vec::new() } }
//@ extract iris-mpc/src/dzkp/polynomial.rs fn from_vec in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn from_vec\b[^{]*\{" => "pub fn from_vec(coeffs: Vec<El>) -> (r: Self) ensures r.coeffs@ == coeffs@ {"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn lift in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn lift\b[^{]*\{" => "pub fn lift(inp: El) -> (r: Self) ensures forall|k: int| eqm(#[trigger] co(r.coeffs@, k), if k == 0 { inp.w@ } else { 0 }) { proof { eqm_refl(); }"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn degree in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn degree\b[^{]*\{" => "pub fn degree(&self) -> (r: usize) ensures r == deg(self.coeffs@) {"
//@ re "for i in \(0\.\.(self\.coeffs\.len\(\))\)\.rev\(\) \{" => "let n_ = \1; for i_ in 0..n_ invariant n_ == self.coeffs@.len(), deg(self.coeffs@) == dg(self.coeffs@, n_ - i_) { let i = n_ - 1 - i_;"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn leading_coeff in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn leading_coeff\b[^{]*\{" => "pub fn leading_coeff(&self) -> (r: &El) requires self.coeffs@.len() > 0 ensures *r == self.coeffs@[deg(self.coeffs@)], 0 <= deg(self.coeffs@) < self.coeffs@.len() { proof { deg_top(self.coeffs@); }"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn shrink in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn shrink\b[^{]*\{" => "pub fn shrink(&mut self) requires old(self).coeffs@.len() < usize::MAX ensures same(final(self).coeffs@, old(self).coeffs@), final(self).coeffs@.len() == deg(old(self).coeffs@) + 1 { proof { deg_top(self.coeffs@); ideal(0, 0, 0); assert forall|x: int| z(x) implies #[trigger] z(-x) by { ideal(x, 0, 0); } }"
//@ re "self\.coeffs\.resize\(([^;]*), (?:T::default|T::zero)\(\)\);" => "let n_ = \1; resize_(&mut self.coeffs, n_);"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn evaluate in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn evaluate\b[^{]*\{" => "pub fn evaluate(self, x: &El) -> (r: El) ensures eqm(r.w@, at(self.coeffs@, x.w@)) { proof { eqm_refl(); horner_is_value(self.coeffs@, x.w@, 0); } let ghost p_ = self.coeffs@;"
//@ all "T::(zero|one)" => "El::\1"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\w+) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == p_.len(), its.v@ == p_.reverse(), res.w@ == horner(p_, x.w@, n_ - i_) { let \1 = its.at_(i_); assert(\1 == p_[n_ - 1 - i_]);"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "(\w+) ([+*])= ([^;]*);" => "\1 = \1 \2 (\3);"
//@ end
}
//@ each Tr f R what hdr | Add add Poly summed Add | Add add &Poly summed Add<&Self> | Sub sub Poly subtracted Sub | Sub sub &Poly subtracted Sub<&Self>
impl $Tr<$R> for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn $f in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn $f\b[^{]*\{" => "fn $f(self, rhs: $R) -> (r: Poly) ensures $what(r.coeffs@, self.coeffs@, rhs.coeffs@), r.coeffs@.len() <= if self.coeffs@.len() >= rhs.coeffs@.len() { self.coeffs@.len() } else { rhs.coeffs@.len() } { proof { eqm_refl(); }"
//@ all "(?:std::cmp::|usize::)?\bmax\(" => "max2("
//@ all "vec!\[(?:T::default|T::zero)\(\); ([^\]]*)\]" => "zeros_(\1)"
//@ all "for \(src, dest\) in ([\w.]+?)\.(?:into_)?iter\(\)\s*\.zip\((\w+)\.iter_mut\(\)\) \{\s*\*dest = src;\s*\}" => "let its = (\1).items(); let n_ = min2(its.count_(), \2.len()); let ghost d0 = \2@; for i_ in 0..n_ invariant n_ <= its.v@.len(), n_ <= d0.len(), \2@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] \2@[k] == if k < i_ { its.v@[k] } else { d0[k] } { let src = its.at_(i_); \2.set(i_, src); }"
//@ all "for \(src, dest\) in ([\w.]+?)\.(?:into_)?iter\(\)\s*\.zip\((\w+)\.iter_mut\(\)\) \{\s*\*dest ([+-])= src;\s*\}" => "let its = (\1).items(); let n_ = min2(its.count_(), \2.len()); let ghost d0 = \2@; for i_ in 0..n_ invariant n_ <= its.v@.len(), n_ <= d0.len(), \2@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] \2@[k] == if k < i_ { el(d0[k].w@ \3 its.v@[k].w@) } else { d0[k] } { let src = its.at_(i_); let dest = \2[i_] \3 src; \2.set(i_, dest); }"
//@ end
}
//@ done
//@ each Tr f R op hdr | Add add El + Add<T> | Add add &El + Add<&T> | Sub sub El - Sub<T> | Sub sub &El - Sub<&T>
impl $Tr<$R> for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn $f in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn $f\b[^{]*\{" => "fn $f(self, rhs: $R) -> (r: Poly) ensures forall|k: int| eqm(#[trigger] co(r.coeffs@, k), co(self.coeffs@, k) $op if k == 0 { rhs.w@ } else { 0 }) { proof { eqm_refl(); }"
//@ all "(?:std::cmp::|usize::)?\bmax\(" => "max2("
//@ all "vec!\[(?:T::default|T::zero)\(\); ([^\]]*)\]" => "zeros_(\1)"
//@ all "for \(src, dest\) in ([\w.]+?)\.(?:into_)?iter\(\)\s*\.zip\((\w+)\.iter_mut\(\)\) \{\s*\*dest = src;\s*\}" => "let its = (\1).items(); let n_ = min2(its.count_(), \2.len()); let ghost d0 = \2@; for i_ in 0..n_ invariant n_ <= its.v@.len(), n_ <= d0.len(), \2@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] \2@[k] == if k < i_ { its.v@[k] } else { d0[k] } { let src = its.at_(i_); \2.set(i_, src); }"
//@ all "(?<![\w.])coeffs\[0\] ([+-])= rhs;" => "let e_ = coeffs[0] \1 rhs; coeffs.set(0, e_);"
//@ end
}
//@ done
//@ each Tr f R what op hdr | AddAssign add_assign Poly summed + AddAssign | AddAssign add_assign &Poly summed + AddAssign<&Self> | SubAssign sub_assign Poly subtracted - SubAssign | SubAssign sub_assign &Poly subtracted - SubAssign<&Self>
impl $Tr<$R> for Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn $f in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn $f\b[^{]*\{" => "fn $f(&mut self, rhs: $R) ensures $what(final(self).coeffs@, old(self).coeffs@, rhs.coeffs@) { proof { eqm_refl(); }"
//@ all "(?:std::cmp::|usize::)?\bmax\(" => "max2("
//@ all "self\.coeffs\.resize\(([^;]*), (?:T::default|T::zero)\(\)\);" => "let l_ = \1; resize_(&mut self.coeffs, l_);"
//@ all "for \(src, dest\) in ([\w.]+?)\.(?:into_)?iter\(\)\s*\.zip\((self\.coeffs)\.iter_mut\(\)\) \{\s*\*dest ([+-])= src;\s*\}" => "let its = (\1).items(); let n_ = min2(its.count_(), \2.len()); let ghost d0 = \2@; for i_ in 0..n_ invariant n_ <= its.v@.len(), n_ <= d0.len(), \2@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] \2@[k] == if k < i_ { el(d0[k].w@ \3 its.v@[k].w@) } else { d0[k] } { let src = its.at_(i_); let dest = \2[i_] \3 src; \2.set(i_, dest); }"
//@ end
}
//@ done
//@ each Tr f R op hdr | AddAssign add_assign El + AddAssign<T> | AddAssign add_assign &El + AddAssign<&T> | SubAssign sub_assign El - SubAssign<T> | SubAssign sub_assign &El - SubAssign<&T>
impl $Tr<$R> for Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn $f in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn $f\b[^{]*\{" => "fn $f(&mut self, rhs: $R) ensures forall|k: int| eqm(#[trigger] co(final(self).coeffs@, k), co(old(self).coeffs@, k) $op if k == 0 { rhs.w@ } else { 0 }) { proof { eqm_refl(); }"
//@ all "(?:std::cmp::|usize::)?\bmax\(" => "max2("
//@ all "self\.coeffs\.resize\(([^;]*), (?:T::default|T::zero)\(\)\);" => "let l_ = \1; resize_(&mut self.coeffs, l_);"
//@ all "self\.coeffs\[0\] ([+-])= rhs;" => "let e_ = self.coeffs[0] \1 rhs; self.coeffs.set(0, e_);"
//@ end
}
//@ done
//@ each R hdr | Poly Mul | &Poly Mul<&Self>
impl Mul<$R> for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn mul in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn mul\b[^{]*\{" => "fn mul(self, rhs: $R) -> (r: Poly) ensures multiplied(r.coeffs@, self.coeffs@, rhs.coeffs@), r.coeffs@.len() < self.coeffs@.len() + rhs.coeffs@.len() || r.coeffs@.len() <= 1 { proof { eqm_refl(); fits_(&self.coeffs, &rhs.coeffs); assert forall|r: Seq<El>| all_z(r) && (all_z(self.coeffs@) || all_z(rhs.coeffs@)) implies #[trigger] multiplied(r, self.coeffs@, rhs.coeffs@) by { zero_product(r, self.coeffs@, rhs.coeffs@); } ideal(0, 0, 0); } let ghost (a_, b_) = (self.coeffs@, rhs.coeffs@);"
//@ all "vec!\[(?:T::default|T::zero)\(\); ([^\]]*)\]" => "zeros_(\1)"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ re "for \((i, \w+)\) in (self\.coeffs[^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); proof { assert(coeffs@.len() == a_.len() + b_.len() - 1); assert forall|k: int| co(coeffs@, k) == 0 && conv(a_, b_, k, 0) == 0 by {} } for i_ in 0..n_ invariant rhs.coeffs@ == b_, a_.len() + b_.len() <= usize::MAX, n_ == a_.len(), n_ == its.v@.len(), forall|i: int| 0 <= i < n_ ==> #[trigger] its.v@[i] == (i as usize, a_[i]) && i as usize == i, coeffs@.len() == a_.len() + b_.len() - 1, b_.len() > 0, forall|k: int| #[trigger] co(coeffs@, k) == conv(a_, b_, k, i_ as int) { let (\1) = its.at_(i_);"
//@ re "for \(j, (\w+)\) in (rhs\.coeffs[^{]*?) \{\s*coeffs\[i \+ j\] \+= ([^;]*);\s*\}" => "let jts = (\2).items(); let m_ = jts.count_(); for j_ in 0..m_ invariant i == i_, a_.len() + b_.len() <= usize::MAX, a == a_[i_ as int], i_ < a_.len(), m_ == b_.len(), m_ == jts.v@.len(), forall|j: int| 0 <= j < m_ ==> #[trigger] jts.v@[j] == (j as usize, b_[j]) && j as usize == j, coeffs@.len() == a_.len() + b_.len() - 1, forall|k: int| #[trigger] co(coeffs@, k) == conv(a_, b_, k, i_ as int) + if i_ <= k < i_ + j_ { co(a_, i_ as int) * co(b_, k - i_) } else { 0 } { let (j, \1) = jts.at_(j_); let ghost c0 = coeffs@; let e_ = coeffs[i + j] + (\3); coeffs.set(i + j, e_); proof { let (x, y) = (a_[i_ as int].w@, b_[j_ as int].w@); assert(x * y == y * x) by (nonlinear_arith); assert forall|k: int| #[trigger] co(coeffs@, k) == conv(a_, b_, k, i_ as int) + if i_ <= k < i_ + j_ + 1 { co(a_, i_ as int) * co(b_, k - i_) } else { 0 } by { assert(co(c0, k) == conv(a_, b_, k, i_ as int) + if i_ <= k < i_ + j_ { co(a_, i_ as int) * co(b_, k - i_) } else { 0 }); } } } proof { assert forall|k: int| #[trigger] co(coeffs@, k) == conv(a_, b_, k, i_ + 1) by { let (x, y) = (co(a_, i_ as int), co(b_, k - i_)); if !(i_ <= k < i_ + m_) { assert(y == 0); assert(x * y == 0) by (nonlinear_arith) requires y == 0; } } }"
//@ end
}
//@ done
/// a vector of elements that exist in memory is not longer than isize::MAX
pub axiom fn fits_(a: &Vec<El>, b: &Vec<El>) ensures a@.len() + b@.len() <= usize::MAX;
//@ each R hdr | El Mul<T> | &El Mul<&T>
impl Mul<$R> for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn mul in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn mul\b[^{]*\{" => "fn mul(self, rhs: $R) -> (r: Poly) ensures scaled(r.coeffs@, self.coeffs@, rhs.w@), r.coeffs@.len() <= self.coeffs@.len() { proof { eqm_refl(); assert(0 * rhs.w@ == 0) by (nonlinear_arith); }"
//@ all "vec!\[(?:T::default|T::zero)\(\); ([^\]]*)\]" => "zeros_(\1)"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ re "for \(src, dest\) in ([\w.]+?)\.(?:into_)?iter\(\)\s*\.zip\((\w+)\.iter_mut\(\)\) \{\s*\*dest = ([^;]*);\s*\}" => "let its = (\1).items(); let n_ = min2(its.count_(), \2.len()); let ghost d0 = \2@; for i_ in 0..n_ invariant n_ <= its.v@.len(), n_ <= d0.len(), \2@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] \2@[k] == if k < i_ { el(its.v@[k].w@ * rhs.w@) } else { d0[k] } { let src = its.at_(i_); let e_ = \3; \2.set(i_, e_); proof { let (x, y) = (its.v@[i_ as int].w@, rhs.w@); assert(x * y == y * x) by (nonlinear_arith); } }"
//@ end
}
//@ done
//@ each R hdr | El MulAssign<T> | &El MulAssign<&T>
impl MulAssign<$R> for Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn mul_assign in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn mul_assign\b[^{]*\{" => "fn mul_assign(&mut self, rhs: $R) ensures scaled(final(self).coeffs@, old(self).coeffs@, rhs.w@) { proof { eqm_refl(); assert(0 * rhs.w@ == 0) by (nonlinear_arith); }"
//@ re "for (\w+) in self\.coeffs\.iter_mut\(\) \{\s*\*\w+ \*= ([^;]*);\s*\}" => "let ghost d0 = self.coeffs@; let n_ = self.coeffs.len(); for i_ in 0..n_ invariant n_ == d0.len(), self.coeffs@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] self.coeffs@[k] == if k < i_ { el(d0[k].w@ * rhs.w@) } else { d0[k] } { let e_ = self.coeffs[i_] * (\2); self.coeffs.set(i_, e_); }"
//@ end
}
//@ done
//@ each R hdr | Poly MulAssign | &Poly MulAssign<&Self>
impl MulAssign<$R> for Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn mul_assign in "impl<T: PolyTrait> $hdr for Poly<T>"
//@ re "^.*?\bfn mul_assign\b[^{]*\{" => "fn mul_assign(&mut self, rhs: $R) ensures multiplied(final(self).coeffs@, old(self).coeffs@, rhs.coeffs@) { let ghost (a_, b_) = (self.coeffs@, rhs.coeffs@); proof { assert forall|r: Seq<El>| #[trigger] multiplied(r, b_, a_) implies multiplied(r, a_, b_) by { product_comm(r, b_, a_); } }"
//@ all "\bself\.(?:to_owned|clone)\(\)" => "(*self).dup()"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ end
}
//@ done
impl Neg for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn neg in "impl<T: PolyTrait> Neg for Poly<T>"
//@ re "^.*?\bfn neg\b[^{]*\{" => "fn neg(self) -> (r: Poly) ensures forall|k: int| eqm(#[trigger] co(r.coeffs@, k), -co(self.coeffs@, k)) { proof { eqm_refl(); }"
//@ all "Vec::with_capacity\(([^;]*)\);" => "Vec::<El>::new();"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\w+) in ([^{]*?) \{" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant its.v@ == self.coeffs@, n_ == its.v@.len(), coeffs@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] coeffs@[k] == el(-its.v@[k].w@) { let \1 = its.at_(i_);"
//@ end
}
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn zero in "impl<T: PolyTrait> Zero for Poly<T>"
//@ re "^.*?\bfn zero\b[^{]*\{" => "pub fn zero() -> (r: Self) ensures all_z(r.coeffs@), r.coeffs@.len() <= 1 { proof { ideal(0, 0, 0); }"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn is_zero in "impl<T: PolyTrait> Zero for Poly<T>"
//@ re "^.*?\bfn is_zero\b[^{]*\{" => "pub fn is_zero(&self) -> (r: bool) ensures r == all_z(self.coeffs@) { proof { ideal(0, 0, 0); all_z_is(self.coeffs@); }"
//@ all "self\.coeffs\.iter\(\)\.all\(\|(\w+)\| \1\.is_zero\(\)\)" => "all_zero_(&self.coeffs)"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn one in "impl<T: PolyTrait> One for Poly<T>"
//@ re "^.*?\bfn one\b[^{]*\{" => "pub fn one() -> (r: Self) ensures forall|k: int| eqm(#[trigger] co(r.coeffs@, k), if k == 0 { 1int } else { 0 }) { proof { eqm_refl(); }"
//@ all "T::one" => "El::one"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn is_one in "impl<T: PolyTrait> One for Poly<T>"
//@ re "^.*?\bfn is_one\b[^{]*\{" => "pub fn is_one(&self) -> (r: bool) ensures r == (forall|k: int| eqm(#[trigger] co(self.coeffs@, k), if k == 0 { 1int } else { 0 })) { proof { one_is(self.coeffs@); }"
//@ end
}
#[verifier::external_body] pub fn all_zero_(v: &Vec<El>) -> (r: bool) ensures r == forall|i: int| 0 <= i < v@.len() ==> z((#[trigger] v@[i]).w@) { unimplemented!() }
proof fn all_z_is(p: Seq<El>) ensures all_z(p) == (forall|i: int| 0 <= i < p.len() ==> z((#[trigger] p[i]).w@))
{
    ideal(0, 0, 0);
    if forall|i: int| 0 <= i < p.len() ==> z((#[trigger] p[i]).w@) { assert forall|k: int| z(#[trigger] co(p, k)) by {} }
    if all_z(p) { assert forall|i: int| 0 <= i < p.len() implies z((#[trigger] p[i]).w@) by { assert(z(co(p, i))); } }
}
proof fn one_is(p: Seq<El>) ensures all_z(p) ==> !(forall|k: int| eqm(#[trigger] co(p, k), if k == 0 { 1int } else { 0 })), !all_z(p) ==> 0 <= deg(p) < p.len() && (forall|k: int| eqm(#[trigger] co(p, k), if k == 0 { 1int } else { 0 })) == (deg(p) == 0 && z(p[deg(p)].w@ - 1)), !all_z(p) ==> p.len() > 0
{
    deg_top(p); ideal(0, 0, 0);
    let one = forall|k: int| eqm(#[trigger] co(p, k), if k == 0 { 1int } else { 0 });
    if all_z(p) { if one { assert(eqm(co(p, 0), 1)); let x = co(p, 0); ideal(x - 1, 0, 0); ideal(x, -(x - 1), 0); } }
    else {
        if p.len() == 0 { assert(all_z(p)) by { assert forall|k: int| z(#[trigger] co(p, k)) by {} } }
        if one { assert(eqm(co(p, deg(p)), if deg(p) == 0 { 1int } else { 0 })); }
        if deg(p) == 0 && z(p[0].w@ - 1) { assert forall|k: int| eqm(#[trigger] co(p, k), if k == 0 { 1int } else { 0 }) by {} }
    }
}
// ---------------------------------------------------------------- division
pub open spec fn divided(a: Seq<El>, b: Seq<El>, q: Seq<El>, r: Seq<El>) -> bool { forall|k: int| eqm(#[trigger] co(a, k), conv(q, b, k, q.len() as int) + co(r, k)) }
pub open spec fn divisible_by(b: Seq<El>) -> bool { !all_z(b) && exists|t: int| #[trigger] z(t * co(b, deg(b)) - 1) }
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn long_division
//@ re "^.*?\bfn long_division\b[^{]*\{" => "pub fn long_division(&self, other: &Self) -> (r: Result<(Self, Self), Error>) ensures r is Ok == divisible_by(other.coeffs@), r is Ok ==> divided(self.coeffs@, other.coeffs@, r->Ok_0.0.coeffs@, r->Ok_0.1.coeffs@) && (r->Ok_0.1.coeffs@.len() <= deg(other.coeffs@)) { proof { deg_top(other.coeffs@); one_is(other.coeffs@); ideal(0, 0, 0); eqm_refl(); fits_(&self.coeffs, &other.coeffs); } let ghost (a_, b_) = (self.coeffs@, other.coeffs@);"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "vec!\[(?:T::default|T::zero)\(\); ([^\]]*)\]" => "zeros_(\1)"
//@ all "\.expect\(\"[^\"]*\"\)" => ".unwrap()"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "while ([^{]*?) \{" => "proof { assert forall|k: int, m: int| #[trigger] conv(quotient@, b_, k, m) == 0 by { conv_zeros(quotient@, b_, k, m); } assert forall|k: int| eqm(#[trigger] co(a_, k), conv(quotient@, b_, k, quotient@.len() as int) + co(dividend@, k)) by {} } while \1 invariant other.coeffs@ == b_, other_len == deg(b_) + 1, 0 <= deg(b_) < b_.len(), z(inv.w@ * co(b_, deg(b_)) - 1), forall|k: int| deg(b_) < k ==> z(#[trigger] co(b_, k)), dividend@.len() >= other_len ==> quotient@.len() > dividend@.len() - other_len, forall|j: int| 0 <= j <= dividend@.len() - other_len && j < quotient@.len() ==> #[trigger] quotient@[j] == el(0), divided(a_, b_, quotient@, dividend@) decreases dividend.len() { let ghost (d0, q0) = (dividend@, quotient@);"
//@ re "for \(i, (\w+)\) in ([^{]*?) \{\s*dividend\[monomial \+ i\] -= ([^;]*);\s*\}" => "let ghost d1 = dividend@; let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == other_len - 1, monomial + other_len <= usize::MAX, n_ == its.v@.len(), other_len <= b_.len(), forall|i: int| 0 <= i < n_ ==> #[trigger] its.v@[i] == (i as usize, b_[i]) && i as usize == i, d1.len() == monomial + other_len - 1, dividend@.len() == d1.len(), forall|k: int| 0 <= k < d1.len() ==> #[trigger] dividend@[k] == if monomial <= k < monomial + i_ { el(d1[k].w@ - coeff.w@ * b_[k - monomial].w@) } else { d1[k] } { let (i, \1) = its.at_(i_); let e_ = dividend[monomial + i] - (\3); dividend.set(monomial + i, e_); proof { let (x, y) = (b_[i_ as int].w@, coeff.w@); assert(x * y == y * x) by (nonlinear_arith); } }"
//@ re "(quotient)\[monomial\] = ([^;]*);" => "let e_ = \2; quotient.set(monomial, e_); proof { step(a_, b_, d0, dividend@, q0, quotient@, inv.w@, coeff.w@, monomial as int); }"
//@ end
}
proof fn conv_zeros(q: Seq<El>, b: Seq<El>, k: int, m: int) requires forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == el(0) ensures conv(q, b, k, m) == 0 decreases m
{ if m > 0 { conv_zeros(q, b, k, m - 1); let y = co(b, k - (m - 1)); assert(co(q, m - 1) == 0); assert(0 * y == 0) by (nonlinear_arith); } }
proof fn step(a: Seq<El>, b: Seq<El>, d0: Seq<El>, d: Seq<El>, q0: Seq<El>, q: Seq<El>, inv: int, c: int, m: int)
    requires 0 <= deg(b) < b.len(), z(inv * co(b, deg(b)) - 1), forall|k: int| deg(b) < k ==> z(#[trigger] co(b, k)), d0.len() == m + deg(b) + 1, d.len() == d0.len() - 1, 0 <= m < q0.len(), q0[m] == el(0), q == q0.update(m, el(c)),
        c == d0.last().w@ * inv, forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == if m <= k { el(d0[k].w@ - c * b[k - m].w@) } else { d0[k] }, divided(a, b, q0, d0)
    ensures divided(a, b, q, d)
{
    let n = q.len() as int; let l = deg(b);
    assert forall|k: int| eqm(#[trigger] co(a, k), conv(q, b, k, n) + co(d, k)) by {
        assert(eqm(co(a, k), conv(q0, b, k, n) + co(d0, k)));
        conv_set(q0, q, b, k, m, c, n);
        let (x, y) = (co(b, k - m), c * co(b, k - m));
        // what is added on the one side less what is taken off on the other
        let e = y + co(d, k) - co(d0, k);
        assert(z(-e)) by {
            ideal(0, 0, 0);
            if k < m { assert(c * 0 == 0) by (nonlinear_arith); assert(x == 0); assert(e == 0); }
            else if k < m + l { assert(d[k] == el(d0[k].w@ - c * b[k - m].w@)); assert(e == 0); }
            else if k == m + l {
                let t = d0.last().w@; assert(co(d0, k) == t); assert(co(d, k) == 0); let f = inv * x - 1; ideal(f, 0, -t);
                assert(-((t * inv) * x - t) == f * (-t)) by (nonlinear_arith) requires f == inv * x - 1; assert(-e == f * (-t));
            } else { assert(z(co(b, k - m))); ideal(x, 0, -c); assert(-(c * x) == x * (-c)) by (nonlinear_arith); assert(-e == x * (-c)); }
        }
        ideal(co(a, k) - (conv(q0, b, k, n) + co(d0, k)), -e, 0);
    }
}
/// what a remainder is
pub open spec fn remainder(a: Seq<El>, b: Seq<El>, r: Seq<El>) -> bool { (exists|q: Seq<El>| #[trigger] divided(a, b, q, r)) && (forall|k: int| deg(b) <= k ==> z(#[trigger] co(r, k))) }
//@ each R hdr | Poly Rem | &Poly Rem<&Self>
impl Rem<$R> for Poly { type Output = Poly;
//@ extract iris-mpc/src/dzkp/polynomial.rs fn rem in "impl<T: RingImpl> $hdr for Poly<T>"
//@ re "^.*?\bfn rem\b[^{]*\{" => "fn rem(self, rhs: $R) -> (r: Poly) ensures divisible_by(rhs.coeffs@) ==> remainder(self.coeffs@, rhs.coeffs@, r.coeffs@) { let ghost (a_, b_) = (self.coeffs@, rhs.coeffs@);"
//@ all "let \((\w+), mut rem\) = ([^;]*?)\.expect\(\"[^\"]*\"\);" => "let (quo_, mut rem) = unwrap_(\2, Ghost(divisible_by(b_))); let ghost r0 = rem.coeffs@; proof { fits_(&rem.coeffs, &rem.coeffs); deg_top(b_); ideal(0, 0, 0); if divisible_by(b_) { assert(divided(a_, b_, quo_.coeffs@, r0)); assert forall|s: Seq<El>| #[trigger] same(s, r0) implies remainder(a_, b_, s) by { same_rem(a_, b_, quo_.coeffs@, r0, s); } } }"
//@ all "rem\.shrink\(\);" => "rem.shrink(); proof { assert(same(rem.coeffs@, r0)); }"
//@ end
}
//@ done
/// `expect` on the division: the precondition of `%` (callers divide by monic moduli)
#[verifier::external_body] pub fn unwrap_(r: Result<(Poly, Poly), Error>, ok: Ghost<bool>) -> (s: (Poly, Poly)) ensures r is Ok ==> s == r->Ok_0 { unimplemented!() }
proof fn same_rem(a: Seq<El>, b: Seq<El>, q: Seq<El>, r: Seq<El>, s: Seq<El>) requires divided(a, b, q, r), same(s, r), r.len() <= deg(b) ensures remainder(a, b, s)
{
    assert forall|k: int| eqm(#[trigger] co(a, k), conv(q, b, k, q.len() as int) + co(s, k)) by { let (x, y) = (co(a, k) - (conv(q, b, k, q.len() as int) + co(r, k)), co(s, k) - co(r, k)); assert(eqm(co(s, k), co(r, k))); ideal(y, 0, 0); ideal(x, -y, 0); }
    assert(divided(a, b, q, s));
    assert forall|k: int| deg(b) <= k implies z(#[trigger] co(s, k)) by { assert(eqm(co(s, k), co(r, k))); }
}
// ---------------------------------------------------------------- interpolation
/// the k-th coefficient of the combination of the first n polynomials with the first n values
pub open spec fn comb(ys: Seq<El>, ls: Seq<Poly>, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { comb(ys, ls, k, n - 1) + co(ls[n - 1].coeffs@, k) * ys[n - 1].w@ } }
pub open spec fn combined(r: Seq<El>, ys: Seq<El>, ls: Seq<Poly>) -> bool { forall|k: int| eqm(#[trigger] co(r, k), comb(ys, ls, k, ys.len() as int)) }
/// one at its own point and zero at every other one
pub open spec fn is_basis(xs: Seq<El>, ls: Seq<Poly>) -> bool { ls.len() == xs.len() && forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() ==> eqm(#[trigger] at(ls[j].coeffs@, xs[i].w@), if i == j { 1int } else { 0 }) }
pub open spec fn through(r: Seq<El>, xs: Seq<El>, ys: Seq<El>) -> bool { forall|i: int| 0 <= i < xs.len() ==> eqm(#[trigger] at(r, xs[i].w@), ys[i].w@) }
/// distinct points: every difference has an inverse
pub open spec fn apart(xs: Seq<El>) -> bool { forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() && i != j ==> invertible(#[trigger] (xs[i].w@ - xs[j].w@)) }
pub open spec fn vsum(ys: Seq<El>, ls: Seq<Poly>, x: int, m: int, n: int) -> int decreases n { if n <= 0 { 0 } else { vsum(ys, ls, x, m, n - 1) + value(ls[n - 1].coeffs@, x, m) * ys[n - 1].w@ } }
proof fn vsum_start(ys: Seq<El>, ls: Seq<Poly>, x: int, m: int, n: int) requires m <= 0 ensures vsum(ys, ls, x, m, n) == 0 decreases n
{ if n > 0 { vsum_start(ys, ls, x, m, n - 1); assert(0 * ys[n - 1].w@ == 0) by (nonlinear_arith); } }
proof fn vsum_next(ys: Seq<El>, ls: Seq<Poly>, x: int, m: int, n: int) requires m > 0 ensures vsum(ys, ls, x, m, n) == vsum(ys, ls, x, m - 1, n) + comb(ys, ls, m - 1, n) * pw(x, m - 1) decreases n
{
    if n > 0 {
        vsum_next(ys, ls, x, m, n - 1);
        let (v, c, y, w, cc) = (value(ls[n - 1].coeffs@, x, m - 1), co(ls[n - 1].coeffs@, m - 1), ys[n - 1].w@, pw(x, m - 1), comb(ys, ls, m - 1, n - 1));
        assert((v + c * w) * y == v * y + (c * y) * w) by (nonlinear_arith);
        assert((cc + c * y) * w == cc * w + (c * y) * w) by (nonlinear_arith);
    } else { assert(0 * pw(x, m - 1) == 0) by (nonlinear_arith); }
}
proof fn value_comb(r: Seq<El>, ys: Seq<El>, ls: Seq<Poly>, x: int, m: int, n: int) requires combined(r, ys, ls), n == ys.len() ensures eqm(value(r, x, m), vsum(ys, ls, x, m, n)) decreases m
{
    ideal(0, 0, 0);
    if m <= 0 { vsum_start(ys, ls, x, m, n); }
    else {
        value_comb(r, ys, ls, x, m - 1, n); vsum_next(ys, ls, x, m, n);
        let (a, b, w) = (co(r, m - 1), comb(ys, ls, m - 1, n), pw(x, m - 1)); assert(eqm(a, b));
        ideal(a - b, 0, w); assert((a - b) * w == a * w - b * w) by (nonlinear_arith);
        ideal(value(r, x, m - 1) - vsum(ys, ls, x, m - 1, n), a * w - b * w, 0);
    }
}
proof fn longest(r: Seq<El>, ls: Seq<Poly>, n: int) -> (m: int) requires n <= ls.len() ensures m >= r.len(), forall|j: int| 0 <= j < n ==> m >= (#[trigger] ls[j]).coeffs@.len() decreases n
{ if n <= 0 { r.len() as int } else { let m = longest(r, ls, n - 1); let l = ls[n - 1].coeffs@.len() as int; if l >= m { l } else { m } } }
proof fn picked(xs: Seq<El>, ys: Seq<El>, ls: Seq<Poly>, i: int, m: int, n: int)
    requires is_basis(xs, ls), xs.len() == ys.len(), 0 <= i < xs.len(), n <= ys.len(), forall|j: int| 0 <= j < ls.len() ==> m >= (#[trigger] ls[j]).coeffs@.len()
    ensures eqm(vsum(ys, ls, xs[i].w@, m, n), if i < n { ys[i].w@ } else { 0 }) decreases n
{
    ideal(0, 0, 0);
    if n > 0 {
        picked(xs, ys, ls, i, m, n - 1); let j = n - 1; let x = xs[i].w@;
        assert(m >= ls[j].coeffs@.len()); value_more(ls[j].coeffs@, x, m);
        let e = if i == j { 1int } else { 0 }; let (v, y) = (at(ls[j].coeffs@, x), ys[j].w@); assert(eqm(v, e));
        ideal(v - e, 0, y); assert((v - e) * y == v * y - e * y) by (nonlinear_arith); assert(1 * y == y && 0 * y == 0) by (nonlinear_arith);
        ideal(vsum(ys, ls, x, m, n - 1) - (if i < n - 1 { ys[i].w@ } else { 0 }), v * y - e * y, 0);
    }
}
proof fn through_the_points(r: Seq<El>, xs: Seq<El>, ys: Seq<El>, ls: Seq<Poly>) requires combined(r, ys, ls), is_basis(xs, ls), xs.len() == ys.len() ensures through(r, xs, ys)
{
    let n = ys.len() as int; let m = longest(r, ls, n);
    assert forall|i: int| 0 <= i < xs.len() implies eqm(#[trigger] at(r, xs[i].w@), ys[i].w@) by {
        let x = xs[i].w@; value_comb(r, ys, ls, x, m, n); value_more(r, x, m); picked(xs, ys, ls, i, m, n);
        ideal(at(r, x) - vsum(ys, ls, x, m, n), vsum(ys, ls, x, m, n) - ys[i].w@, 0);
    }
}
proof fn comb_add(r: Seq<El>, p: Seq<El>, s: Seq<El>, ys: Seq<El>, ls: Seq<Poly>, i: int)
    requires 0 <= i < ls.len(), forall|k: int| eqm(#[trigger] co(p, k), comb(ys, ls, k, i)), scaled(s, ls[i].coeffs@, ys[i].w@), summed(r, p, s)
    ensures forall|k: int| eqm(#[trigger] co(r, k), comb(ys, ls, k, i + 1))
{
    assert forall|k: int| eqm(#[trigger] co(r, k), comb(ys, ls, k, i + 1)) by {
        assert(eqm(co(p, k), comb(ys, ls, k, i))); assert(eqm(co(s, k), co(ls[i].coeffs@, k) * ys[i].w@));
        let (x, y, w) = (co(r, k) - (co(p, k) + co(s, k)), co(p, k) - comb(ys, ls, k, i), co(s, k) - co(ls[i].coeffs@, k) * ys[i].w@);
        ideal(x, y, 0); ideal(x + y, w, 0);
    }
}
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn interpolate in "impl<T: PolyTrait> Poly<T>"
//@ re "^.*?\bfn interpolate\b[^{]*\{" => "pub fn interpolate(ys: &[El], lagrange_polys: &[Poly]) -> (r: Self) requires ys@.len() == lagrange_polys@.len() ensures combined(r.coeffs@, ys@, lagrange_polys@), forall|xs: Seq<El>| #[trigger] is_basis(xs, lagrange_polys@) ==> through(r.coeffs@, xs, ys@) { proof { ideal(0, 0, 0); }"
//@ all "assert_eq!\([^;]*\);" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for \((\w+), (\w+)\) in ([^{]*?) \{(.*?)(\w+) \+= ([^;]*);\s*\}" => "proof { assert forall|k: int| eqm(#[trigger] co(\5.coeffs@, k), comb(ys@, lagrange_polys@, k, 0)) by { } } let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == ys@.len(), n_ == lagrange_polys@.len(), its.v@ == zipped(lagrange_polys@, ys@), forall|k: int| eqm(#[trigger] co(\5.coeffs@, k), comb(ys@, lagrange_polys@, k, i_ as int)) { let (\1, \2) = its.at_(i_); \4 let ghost p0 = \5.coeffs@; let s_ = \6; let ghost s0 = s_.coeffs@; \5 += s_; proof { comb_add(\5.coeffs@, p0, s0, ys@, lagrange_polys@, i_ as int); } }"
//@ re "(\w+)\s*\}\s*$" => "proof { assert forall|xs: Seq<El>| #[trigger] is_basis(xs, lagrange_polys@) implies through(\1.coeffs@, xs, ys@) by { through_the_points(\1.coeffs@, xs, ys@, lagrange_polys@); } } \1 }"
//@ end
}
// ---------------------------------------------------------------- Lagrange polynomials
proof fn pw_add(x: int, s: int, t: int) requires s >= 0, t >= 0 ensures pw(x, s + t) == pw(x, s) * pw(x, t) decreases t
{
    if t > 0 { pw_add(x, s, t - 1); let (a, b) = (pw(x, s), pw(x, t - 1)); assert((a * b) * x == a * (b * x)) by (nonlinear_arith); }
    else { let a = pw(x, s); assert(a * 1 == a) by (nonlinear_arith); }
}
pub open spec fn shifted(b: Seq<El>, x: int, s: int, n: int) -> int decreases n { if n <= 0 { 0 } else { shifted(b, x, s, n - 1) + co(b, n - 1 - s) * pw(x, n - 1) } }
proof fn shifted_is(b: Seq<El>, x: int, s: int, n: int) requires s >= 0, n >= 0 ensures shifted(b, x, s, n) == pw(x, s) * value(b, x, n - s) decreases n
{
    let w = pw(x, s);
    if n > 0 {
        shifted_is(b, x, s, n - 1);
        let (c, v) = (co(b, n - 1 - s), value(b, x, n - 1 - s));
        if n - 1 >= s { pw_add(x, s, n - 1 - s); let u = pw(x, n - 1 - s); assert(w * v + c * (w * u) == w * (v + c * u)) by (nonlinear_arith); }
        else { assert(c == 0); let u = pw(x, n - 1); assert(0 * u == 0) by (nonlinear_arith); assert(w * 0 == 0) by (nonlinear_arith); assert(value(b, x, n - s) == 0); }
    } else { assert(w * 0 == 0) by (nonlinear_arith); }
}
pub open spec fn csum(a: Seq<El>, b: Seq<El>, x: int, m: int, n: int) -> int decreases n { if n <= 0 { 0 } else { csum(a, b, x, m, n - 1) + conv(a, b, n - 1, m) * pw(x, n - 1) } }
proof fn csum_next(a: Seq<El>, b: Seq<El>, x: int, m: int, n: int) requires m > 0 ensures csum(a, b, x, m, n) == csum(a, b, x, m - 1, n) + co(a, m - 1) * shifted(b, x, m - 1, n) decreases n
{
    let c = co(a, m - 1);
    if n > 0 {
        csum_next(a, b, x, m, n - 1);
        let (d, w, h, g) = (co(b, n - 1 - (m - 1)), pw(x, n - 1), shifted(b, x, m - 1, n - 1), conv(a, b, n - 1, m - 1));
        assert((g + c * d) * w == g * w + c * (d * w)) by (nonlinear_arith); assert(c * (h + d * w) == c * h + c * (d * w)) by (nonlinear_arith);
    } else { assert(c * 0 == 0) by (nonlinear_arith); }
}
proof fn csum_none(a: Seq<El>, b: Seq<El>, x: int, n: int) ensures csum(a, b, x, 0, n) == 0 decreases n { if n > 0 { csum_none(a, b, x, n - 1); let w = pw(x, n - 1); assert(0 * w == 0) by (nonlinear_arith); } }
proof fn csum_is(a: Seq<El>, b: Seq<El>, x: int, m: int, n: int) requires 0 <= m, n >= m + b.len() ensures csum(a, b, x, m, n) == value(a, x, m) * at(b, x) decreases m
{
    let t = at(b, x);
    if m > 0 {
        csum_is(a, b, x, m - 1, n); csum_next(a, b, x, m, n); shifted_is(b, x, m - 1, n); value_more(b, x, n - (m - 1));
        let (v, c, w) = (value(a, x, m - 1), co(a, m - 1), pw(x, m - 1)); assert((v + c * w) * t == v * t + c * (w * t)) by (nonlinear_arith);
    } else { csum_none(a, b, x, n); assert(0 * t == 0) by (nonlinear_arith); }
}
proof fn csum_same(r: Seq<El>, a: Seq<El>, b: Seq<El>, x: int, n: int) requires multiplied(r, a, b) ensures eqm(value(r, x, n), csum(a, b, x, a.len() as int, n)) decreases n
{
    ideal(0, 0, 0); let m = a.len() as int;
    if n > 0 {
        csum_same(r, a, b, x, n - 1); let (c, d, w) = (co(r, n - 1), conv(a, b, n - 1, m), pw(x, n - 1)); assert(eqm(c, d));
        ideal(c - d, 0, w); assert((c - d) * w == c * w - d * w) by (nonlinear_arith);
        ideal(value(r, x, n - 1) - csum(a, b, x, m, n - 1), c * w - d * w, 0);
    }
}
/// the value of a product is the product of the values
proof fn product_at(r: Seq<El>, a: Seq<El>, b: Seq<El>, x: int) requires multiplied(r, a, b) ensures eqm(at(r, x), at(a, x) * at(b, x))
{
    let n = if r.len() >= a.len() + b.len() { r.len() as int } else { (a.len() + b.len()) as int };
    csum_same(r, a, b, x, n); csum_is(a, b, x, a.len() as int, n); value_more(r, x, n);
}
pub open spec fn pair(p: Seq<El>, a: int) -> bool { p.len() == 2 && p[0].w@ == -a && p[1].w@ == 1 }
pub fn pair_(a: El, b: El) -> (r: Vec<El>) ensures r@.len() == 2, r@[0] == a, r@[1] == b { let mut v = Vec::new(); v.push(a); v.push(b); v }
proof fn linear_at(l: Seq<El>, p: Seq<El>, v: int, a: int, x: int) requires scaled(l, p, v), pair(p, a) ensures eqm(at(l, x), (x - a) * v)
{
    ideal(0, 0, 0); let n = if l.len() >= 2 { l.len() as int } else { 2 };
    let q = seq![el(-a * v), el(v)];
    assert forall|k: int| eqm(#[trigger] co(l, k), co(q, k)) by { assert(eqm(co(l, k), co(p, k) * v)); let y = co(p, k); assert(y == 0 ==> y * v == 0) by (nonlinear_arith); assert(y == 1 ==> y * v == v) by (nonlinear_arith); }
    value_same(l, q, x, n); value_more(l, x, n); value_more(q, x, n);
    assert(at(q, x) == (x - a) * v) by {
        assert(value(q, x, 2) == value(q, x, 1) + co(q, 1) * pw(x, 1)); assert(value(q, x, 1) == value(q, x, 0) + co(q, 0) * pw(x, 0)); assert(value(q, x, 0) == 0); assert(pw(x, 0) == 1); assert(pw(x, 1) == pw(x, 0) * x);
        assert(0 + (-a * v) * 1 + v * (1 * x) == (x - a) * v) by (nonlinear_arith);
    }
}
/// one at the point j, zero at those before i other than j
pub open spec fn part(p: Seq<El>, xs: Seq<El>, j: int, i: int) -> bool { eqm(at(p, xs[j].w@), 1) && forall|h: int| 0 <= h < i && h != j ==> z(#[trigger] at(p, xs[h].w@)) }
proof fn part_start(p: Seq<El>, xs: Seq<El>, j: int) requires forall|k: int| eqm(#[trigger] co(p, k), if k == 0 { 1int } else { 0 }) ensures part(p, xs, j, 0)
{
    ideal(0, 0, 0); let x = xs[j].w@; let q = seq![el(1)]; let n = if p.len() >= 1 { p.len() as int } else { 1 };
    assert forall|k: int| eqm(#[trigger] co(p, k), co(q, k)) by { }
    value_same(p, q, x, n); value_more(p, x, n); value_more(q, x, n); assert(value(q, x, 1) == value(q, x, 0) + co(q, 0) * pw(x, 0)); assert(value(q, x, 0) == 0); assert(1 * pw(x, 0) == 1);
}
/// what the factor of the point i is
pub open spec fn factor(l: Seq<El>, xs: Seq<El>, j: int, i: int) -> bool { exists|p: Seq<El>, v: int| #[trigger] scaled(l, p, v) && pair(p, xs[i].w@) && z(v * (xs[j].w@ - xs[i].w@) - 1) }
proof fn part_next(r: Seq<El>, p: Seq<El>, l: Seq<El>, xs: Seq<El>, j: int, i: int) requires 0 <= i < xs.len(), 0 <= j < xs.len(), i != j, multiplied(r, p, l), part(p, xs, j, i), factor(l, xs, j, i) ensures part(r, xs, j, i + 1)
{
    ideal(0, 0, 0); let (q, v) = choose|q: Seq<El>, v: int| #[trigger] scaled(l, q, v) && pair(q, xs[i].w@) && z(v * (xs[j].w@ - xs[i].w@) - 1); let a = xs[i].w@;
    assert forall|h: int| 0 <= h < i + 1 && h != j implies z(#[trigger] at(r, xs[h].w@)) by {
        let x = xs[h].w@; product_at(r, p, l, x); linear_at(l, q, v, a, x); let (s, t) = (at(p, x), at(l, x));
        if h == i { assert((x - a) * v == 0) by (nonlinear_arith) requires x == a; assert(z(t)); ideal(t, 0, s); } else { assert(z(at(p, xs[h].w@))); ideal(s, 0, t); }
        ideal(at(r, x) - s * t, s * t, 0);
    }
    let x = xs[j].w@; product_at(r, p, l, x); linear_at(l, q, v, a, x); let (s, t) = (at(p, x), at(l, x));
    assert((x - a) * v == v * (x - a)) by (nonlinear_arith); ideal(t - (x - a) * v, v * (x - a) - 1, 0); assert(z(t - 1));
    ideal(t - 1, 0, s); ideal((t - 1) * s, s - 1, 0); assert((t - 1) * s == s * t - s) by (nonlinear_arith); ideal(at(r, x) - s * t, s * t - 1, 0);
}
proof fn part_skip(p: Seq<El>, xs: Seq<El>, j: int) requires part(p, xs, j, j) ensures part(p, xs, j, j + 1) {}
proof fn part_same(r: Seq<El>, p: Seq<El>, xs: Seq<El>, j: int, i: int) requires part(p, xs, j, i), same(r, p) ensures part(r, xs, j, i)
{
    assert forall|x: int| eqm(#[trigger] at(r, x), at(p, x)) by { let n = if r.len() >= p.len() { r.len() as int } else { p.len() as int }; value_same(r, p, x, n); value_more(r, x, n); value_more(p, x, n); }
    let x = xs[j].w@; assert(eqm(at(r, x), at(p, x))); ideal(at(r, x) - at(p, x), at(p, x) - 1, 0);
    assert forall|h: int| 0 <= h < i && h != j implies z(#[trigger] at(r, xs[h].w@)) by { let y = xs[h].w@; assert(eqm(at(r, y), at(p, y))); assert(z(at(p, xs[h].w@))); ideal(at(r, y) - at(p, y), at(p, y), 0); }
}
proof fn basis_of(xs: Seq<El>, ls: Seq<Poly>) requires ls.len() == xs.len(), forall|j: int| 0 <= j < ls.len() ==> part((#[trigger] ls[j]).coeffs@, xs, j, xs.len() as int) ensures is_basis(xs, ls)
{ assert forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() implies eqm(#[trigger] at(ls[j].coeffs@, xs[i].w@), if i == j { 1int } else { 0 }) by { assert(part(ls[j].coeffs@, xs, j, xs.len() as int)); } }
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn reduce_coeffs in "impl<T: RingImpl> Poly<Poly<T>>"
//@ re "^.*?\bfn reduce_coeffs\b[^{]*\{" => "pub fn reduce_coeffs(&mut self, modulus: &El) ensures same(final(self).coeffs@, old(self).coeffs@) { proof { eqm_refl(); }"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "= ([^;={}]*) % modulus;" => "= el_rem(\1, modulus);"
//@ re "for (\w+) in self\.coeffs\.iter_mut\(\) \{\s*\*\1 = ([^;]*);\s*\}" => "let ghost d0 = self.coeffs@; let n_ = self.coeffs.len(); for i_ in 0..n_ invariant n_ == d0.len(), self.coeffs@.len() == d0.len(), forall|k: int| 0 <= k < d0.len() ==> eqm(#[trigger] self.coeffs@[k].w@, d0[k].w@) { let \1 = self.coeffs[i_]; let ghost c0 = self.coeffs@; let e_ = \2; self.coeffs.set(i_, e_); proof { ideal(e_.w@ - c0[i_ as int].w@, c0[i_ as int].w@ - d0[i_ as int].w@, 0); } } proof { assert forall|k: int| eqm(#[trigger] co(self.coeffs@, k), co(d0, k)) by { if 0 <= k < d0.len() { assert(eqm(self.coeffs@[k].w@, d0[k].w@)); } } }"
//@ end
}
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn lagrange_polys in "impl<T: RingImpl> Poly<Poly<T>>"
//@ re "^.*?\bfn lagrange_polys\b[^{]*\{" => "pub fn of_polys(xs: &[El], modulus: &El) -> (r: Vec<Poly>) requires apart(xs@) ensures is_basis(xs@, r@) { let ghost x_ = xs@;"
//@ all "Vec::with_capacity\(([^;]*)\);" => "Vec::<Poly>::new();"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "vec!\[([^\],]*(?:\[[^\]]*\][^\],]*)*), ([^\],]*)\]" => "pair_(\1, \2)"
//@ all "\b(?:Poly|GF2p64)::one\(\)" => "El::one()"
//@ all "\.(?:mod_inverse|native_mod_inverse|inverse)\((?:modulus|&modulus)?\)" => ".inverse_()"
//@ re "for (\w+) in 0\.\.xs\.len\(\) \{\s*let mut (\w+) = ([^;]*);\s*for (\w+) in 0\.\.xs\.len\(\) \{(.*)\2 \*= ([^;]*);" => "for \1 in 0..xs.len() invariant x_ == xs@, apart(x_), polys@.len() == \1, forall|h: int| 0 <= h < \1 ==> part((#[trigger] polys@[h]).coeffs@, x_, h, x_.len() as int) { let mut \2 = \3; proof { part_start(\2.coeffs@, x_, \1 as int); } for \4 in 0..xs.len() invariant x_ == xs@, apart(x_), \1 < x_.len(), part(\2.coeffs@, x_, \1 as int, \4 as int) { proof { if \4 != \1 { assert(invertible(x_[\1 as int].w@ - x_[\4 as int].w@)); } }\5 let l_ = \6; let ghost (p0, l0) = (\2.coeffs@, l_.coeffs@); \2 *= l_; proof { assert(factor(l0, x_, \1 as int, \4 as int)); part_next(\2.coeffs@, p0, l0, x_, \1 as int, \4 as int); }"
//@ all "\bpoly\.reduce_coeffs\(([^;]*)\);" => "let ghost p1 = poly.coeffs@; poly.reduce_coeffs(\1); proof { part_same(poly.coeffs@, p1, x_, j as int, x_.len() as int); }"
//@ re "(\w+)\s*\}\s*$" => "proof { basis_of(x_, \1@); } \1 }"
//@ end
}
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn native_lagrange_polys in "impl<T: RingImpl> Poly<Poly<T>>"
//@ re "^.*?\bfn native_lagrange_polys\b[^{]*\{" => "pub fn of_native(xs: &[El]) -> (r: Vec<Poly>) requires apart(xs@) ensures is_basis(xs@, r@) { let ghost x_ = xs@;"
//@ all "Vec::with_capacity\(([^;]*)\);" => "Vec::<Poly>::new();"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "vec!\[([^\],]*(?:\[[^\]]*\][^\],]*)*), ([^\],]*)\]" => "pair_(\1, \2)"
//@ all "\b(?:Poly|GF2p64)::one\(\)" => "El::one()"
//@ all "\.(?:mod_inverse|native_mod_inverse|inverse)\((?:modulus|&modulus)?\)" => ".inverse_()"
//@ re "for (\w+) in 0\.\.xs\.len\(\) \{\s*let mut (\w+) = ([^;]*);\s*for (\w+) in 0\.\.xs\.len\(\) \{(.*)\2 \*= ([^;]*);" => "for \1 in 0..xs.len() invariant x_ == xs@, apart(x_), polys@.len() == \1, forall|h: int| 0 <= h < \1 ==> part((#[trigger] polys@[h]).coeffs@, x_, h, x_.len() as int) { let mut \2 = \3; proof { part_start(\2.coeffs@, x_, \1 as int); } for \4 in 0..xs.len() invariant x_ == xs@, apart(x_), \1 < x_.len(), part(\2.coeffs@, x_, \1 as int, \4 as int) { proof { if \4 != \1 { assert(invertible(x_[\1 as int].w@ - x_[\4 as int].w@)); } }\5 let l_ = \6; let ghost (p0, l0) = (\2.coeffs@, l_.coeffs@); \2 *= l_; proof { assert(factor(l0, x_, \1 as int, \4 as int)); part_next(\2.coeffs@, p0, l0, x_, \1 as int, \4 as int); }"
//@ all "\bpoly\.reduce_coeffs\(([^;]*)\);" => "let ghost p1 = poly.coeffs@; poly.reduce_coeffs(\1); proof { part_same(poly.coeffs@, p1, x_, j as int, x_.len() as int); }"
//@ re "(\w+)\s*\}\s*$" => "proof { basis_of(x_, \1@); } \1 }"
//@ end
}
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn lagrange_polys in "impl Poly<GF2p64>"
//@ re "^.*?\bfn lagrange_polys\b[^{]*\{" => "pub fn of_gf(xs: &[El]) -> (r: Vec<Poly>) requires apart(xs@) ensures is_basis(xs@, r@) { let ghost x_ = xs@;"
//@ all "Vec::with_capacity\(([^;]*)\);" => "Vec::<Poly>::new();"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "vec!\[([^\],]*(?:\[[^\]]*\][^\],]*)*), ([^\],]*)\]" => "pair_(\1, \2)"
//@ all "\b(?:Poly|GF2p64)::one\(\)" => "El::one()"
//@ all "\.(?:mod_inverse|native_mod_inverse|inverse)\((?:modulus|&modulus)?\)" => ".inverse_()"
//@ re "for (\w+) in 0\.\.xs\.len\(\) \{\s*let mut (\w+) = ([^;]*);\s*for (\w+) in 0\.\.xs\.len\(\) \{(.*)\2 \*= ([^;]*);" => "for \1 in 0..xs.len() invariant x_ == xs@, apart(x_), polys@.len() == \1, forall|h: int| 0 <= h < \1 ==> part((#[trigger] polys@[h]).coeffs@, x_, h, x_.len() as int) { let mut \2 = \3; proof { part_start(\2.coeffs@, x_, \1 as int); } for \4 in 0..xs.len() invariant x_ == xs@, apart(x_), \1 < x_.len(), part(\2.coeffs@, x_, \1 as int, \4 as int) { proof { if \4 != \1 { assert(invertible(x_[\1 as int].w@ - x_[\4 as int].w@)); } }\5 let l_ = \6; let ghost (p0, l0) = (\2.coeffs@, l_.coeffs@); \2 *= l_; proof { assert(factor(l0, x_, \1 as int, \4 as int)); part_next(\2.coeffs@, p0, l0, x_, \1 as int, \4 as int); }"
//@ all "\bpoly\.reduce_coeffs\(([^;]*)\);" => "let ghost p1 = poly.coeffs@; poly.reduce_coeffs(\1); proof { part_same(poly.coeffs@, p1, x_, j as int, x_.len() as int); }"
//@ re "(\w+)\s*\}\s*$" => "proof { basis_of(x_, \1@); } \1 }"
//@ end
}
fn main() {}
}
