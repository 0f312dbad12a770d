// C12: inverses modulo a polynomial by lifting from the field of two elements (Hensel), for every element, modulus and width.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
/// Polynomials modulo `modulus` over Z/2^K are classes of integers modulo an ideal of which nothing is known but the axioms
/// and that it contains 2^K. z(x): the class of x is zero (`%`: c12.rs)
pub uninterp spec fn z(x: int) -> bool;
pub uninterp spec fn bits_() -> nat;
pub axiom fn ideal(x: int, y: int, k: int) ensures z(0), !z(1), z(x) && z(y) ==> z(x + y), z(x) ==> z(x * k), z(x) ==> z(k * x), z(x) ==> z(-x), z(p2(bits_() as int)), bits_() >= 1;
pub open spec fn p2(k: int) -> int decreases k { if k <= 0 { 1 } else { p2(k - 1) * 2 } }
/// x and y agree modulo 2^k
pub open spec fn near(x: int, y: int, k: int) -> bool { exists|t: int| #[trigger] z(x - y - p2(k) * t) }
/// invertible modulo 2 and the modulus: what a field says of everything but zero
pub open spec fn unit(x: int) -> bool { exists|v: int| near(#[trigger] (v * x), 1, 1) }
/// an element of the field of two elements' extension: a word that stands for the class c modulo 2
pub struct Gf { pub c: Ghost<int> }
pub struct Word { pub c: Ghost<int> }
pub fn rem_(x: El, m: &El) -> (r: El) ensures z(r.w@ - x.w@) { rem__(x, m) }
#[verifier::external_body] fn rem__(x: El, m: &El) -> (r: El) ensures z(r.w@ - x.w@) { unimplemented!() }
impl Gf {
    /// C13: the inverse in the field of the polynomials modulo the reduced modulus
    #[verifier::external_body] pub fn inv_mod(&self, m: Gf) -> (r: Gf) ensures unit(self.c@) ==> near(r.c@ * self.c@, 1, 1) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(&self) -> (r: Gf) ensures unit(self.c@) ==> near(r.c@ * self.c@, 1, 1) { unimplemented!() }
    pub fn get(self) -> (r: Word) ensures r.c == self.c { Word { c: self.c } }
}
impl El {
    #[verifier::external_body] pub fn one() -> (r: El) ensures r == el(1) { unimplemented!() }
    /// the bits are the coefficients modulo 2 (decided below)
    #[verifier::external_body] pub fn to_gf2p64(&self) -> (r: Gf) ensures near(r.c@, self.w@, 1) { unimplemented!() }
    #[verifier::external_body] pub fn from_u64(w: Word) -> (r: El) ensures near(r.w@, w.c@, 1) { unimplemented!() }
    #[verifier::external_body] pub fn get_native_mod() -> (r: El) { unimplemented!() }
}
#[verifier::external_body] pub fn width_() -> (r: usize) ensures r == bits_() { unimplemented!() }
proof fn near_intro(x: int, y: int, k: int, t: int) requires z(x - y - p2(k) * t) ensures near(x, y, k) {}
proof fn near_base(r: int, v: int, g: int, a: int) requires near(r, v, 1), near(g, a, 1), unit(g) ==> near(v * g, 1, 1), unit(a) ensures near(r * a, 1, 1)
{
    ideal(0, 0, 0); assert(p2(1) == 2) by { assert(p2(0) == 1); }
    let u = choose|u: int| near(#[trigger] (u * a), 1, 1); let t0 = choose|t: int| #[trigger] z(u * a - 1 - p2(1) * t); let t1 = choose|t: int| #[trigger] z(g - a - p2(1) * t); let t2 = choose|t: int| #[trigger] z(r - v - p2(1) * t);
    // u * g - 1 - 2 (t0 + u t1) = (u a - 1 - 2 t0) + u (g - a - 2 t1)
    let (x, y) = (u * a - 1 - 2 * t0, g - a - 2 * t1); ideal(y, 0, u); ideal(x, u * y, 0);
    assert(x + u * y == u * g - 1 - 2 * (t0 + u * t1)) by (nonlinear_arith) requires x == u * a - 1 - 2 * t0, y == g - a - 2 * t1;
    near_intro(u * g, 1, 1, t0 + u * t1); assert(near(u * g, 1, 1)); assert(unit(g));
    let t3 = choose|t: int| #[trigger] z(v * g - 1 - p2(1) * t);
    // r a - 1 - 2 (t3 + a t2 - v t1) = (v g - 1 - 2 t3) + a (r - v - 2 t2) - v (g - a - 2 t1)
    let (w, s) = (v * g - 1 - 2 * t3, r - v - 2 * t2); ideal(s, 0, a); ideal(y, 0, -v); ideal(w, a * s, 0); ideal(w + a * s, (-v) * y, 0);
    assert(w + a * s + (-v) * y == r * a - 1 - 2 * (t3 + a * t2 - v * t1)) by (nonlinear_arith) requires w == v * g - 1 - 2 * t3, s == r - v - 2 * t2, y == g - a - 2 * t1;
    near_intro(r * a, 1, 1, t3 + a * t2 - v * t1);
}
proof fn p2_add(j: int, k: int) requires j >= 0, k >= 0 ensures p2(j + k) == p2(j) * p2(k) decreases k
{ if k > 0 { p2_add(j, k - 1); let (a, b) = (p2(j), p2(k - 1)); assert((a * b) * 2 == a * (b * 2)) by (nonlinear_arith); } else { let a = p2(j); assert(a * 1 == a) by (nonlinear_arith); } }
/// one step: r = inv (2 - inv a), up to members of the ideal
pub open spec fn stepped(r: int, i: int, a: int) -> bool { z(r - (i - (i * a - 1) * i)) }
proof fn near_step(r: int, i: int, a: int, j: int, p: int) requires near(i * a, 1, j), stepped(r, i, a), 1 <= j, p <= 2 * j, p >= 1 ensures near(r * a, 1, p)
{
    let t = choose|t: int| #[trigger] z(i * a - 1 - p2(j) * t); let (d, e) = (i * a - 1 - p2(j) * t, r - (i - (i * a - 1) * i)); ideal(d, 0, 0);
    p2_add(j, j); p2_add(p, 2 * j - p); let (h, q) = (p2(j), p2(2 * j - p)); let y = i * a - 1; let s = -(q * t * t);
    // r a - 1 = a e - (i a - 1)^2 and (i a - 1)^2 = (d + 2^j t)^2
    ideal(e, 0, a); ideal(d, 0, -(d + 2 * (h * t))); ideal(a * e, -(d + 2 * (h * t)) * d, 0);
    assert(a * (i - y * i) - 1 == -(y * y)) by (nonlinear_arith) requires y == i * a - 1;
    assert(a * e == r * a - a * (i - y * i)) by (nonlinear_arith) requires e == r - (i - y * i);
    let m = h * t; assert(y == d + m);
    assert(-(y * y) == -(d + 2 * m) * d - m * m) by (nonlinear_arith) requires y == d + m;
    assert(m * m == (h * h) * (t * t)) by (nonlinear_arith) requires m == h * t;
    let pp = p2(p); assert(h * h == pp * q);
    assert((pp * q) * (t * t) == -(pp * s)) by (nonlinear_arith) requires s == -(q * t * t);
    assert(r * a - 1 - pp * s == a * e + (-(d + 2 * m) * d));
    near_intro(r * a, 1, p, s);
}
proof fn near_done(x: int) requires near(x, 1, bits_() as int) ensures z(x - 1)
{ let k = bits_() as int; let t = choose|t: int| #[trigger] z(x - 1 - p2(k) * t); ideal(p2(k), 0, t); ideal(x - 1 - p2(k) * t, p2(k) * t, 0); }
/// (i a - 1) and (i - r i), each reduced
proof fn step_of(r: int, i: int, a: int, u: int, v: int) requires z(u - (i * a - 1)), z(r - (i - v)), v == u * i ensures stepped(r, i, a)
{
    let (d, e) = (u - (i * a - 1), r - (i - v)); ideal(d, 0, -i); ideal(e, d * (-i), 0);
    assert(r - (i - (i * a - 1) * i) == e + d * (-i)) by (nonlinear_arith) requires d == u - (i * a - 1), e == r - (i - v), v == u * i;
}
proof fn steps() ensures forall|r: int, i: int, a: int, u: int| #![trigger z(u - (i * a - 1)), z(r - (i - u * i))] z(u - (i * a - 1)) && z(r - (i - u * i)) ==> stepped(r, i, a)
{ assert forall|r: int, i: int, a: int, u: int| #![trigger z(u - (i * a - 1)), z(r - (i - u * i))] z(u - (i * a - 1)) && z(r - (i - u * i)) implies stepped(r, i, a) by { step_of(r, i, a, u, u * i); } }
impl El {
//@ each f g args call | mod_inverse mod_inverse_inner modulus:&El modulus | native_mod_inverse native_mod_inverse_inner modulus:&El modulus
//@ extract iris-mpc/src/dzkp/polynomial.rs fn $g in "impl<T: RingImpl> Poly<T>"
//@ re "^.*?\bfn $g\b[^{]*\{" => "pub fn $g(&self, modulus: &El, prime_power: usize) -> (r: El) requires prime_power >= 1 ensures unit(self.w@) ==> near(r.w@ * self.w@, 1, prime_power as int) decreases prime_power { proof { ideal(0, 0, 0); }"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "\bT::one" => "El::one"
//@ re "(\bSelf::from_u64\([^;{}]*?\))\s*\} else" => "let r_ = \1; proof { if unit(self.w@) { near_base(r_.w@, inv.c@, a_.c@, self.w@); } } r_ } else"
//@ re "let (\w+) = (Self::$g\((?:self, )?modulus, ([^;]*)\));" => "let e_ = \3; let \1 = Self::$g(self, modulus, e_); let ghost i_ = \1.w@;"
//@ re "let (\w+) = (\([^;]*\)|\w+) % modulus;" => "let x_ = \2; let \1 = rem_(x_, modulus); let ghost u_ = \1.w@; proof { let x = x_.w@; assert(x == i_ * self.w@ - 1) by (nonlinear_arith) requires x == i_ * self.w@ - 1 || x == self.w@ * i_ - 1; }"
//@ re "(\([^;{}]*\)|\b\w+) % modulus\s*\}\s*\}\s*$" => "let y_ = \1; let r_ = rem_(y_, modulus); proof { let y = y_.w@; let a = self.w@; assert(y == i_ - u_ * i_) by (nonlinear_arith) requires y == i_ - u_ * i_ || y == i_ - i_ * u_; step_of(r_.w@, i_, a, u_, u_ * i_); if unit(a) { near_step(r_.w@, i_, a, e_ as int, prime_power as int); } } r_ } }"
//@ end
//@ done
//@ extract iris-mpc/src/dzkp/polynomial.rs fn mod_inverse in "impl<T: RingImpl> Poly<T>"
//@ re "^.*?\bfn mod_inverse\b[^{]*\{" => "pub fn mod_inverse(&self, modulus: &El) -> (r: El) ensures unit(self.w@) ==> z(r.w@ * self.w@ - 1) { proof { ideal(0, 0, 0); assert forall|x: int| #[trigger] near(x, 1, bits_() as int) implies z(x - 1) by { near_done(x); } }"
//@ all "\bT::K\b" => "width_()"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn native_mod_inverse in "impl<T: RingImpl> Poly<T>"
//@ re "^.*?\bfn native_mod_inverse\b[^{]*\{" => "pub fn native_mod_inverse(&self) -> (r: El) ensures unit(self.w@) ==> z(r.w@ * self.w@ - 1) { proof { ideal(0, 0, 0); assert forall|x: int| #[trigger] near(x, 1, bits_() as int) implies z(x - 1) by { near_done(x); } }"
//@ all ": Poly<T>" => ""
//@ all "\bT::K\b" => "width_()"
//@ end
}
// ---------------------------------------------------------------- to and from the field of two elements
pub struct Poly { pub coeffs: Vec<El> }
pub open spec fn odd(x: int) -> bool { x % 2 != 0 }
#[verifier::external_body] pub fn odd_(c: &El) -> (r: bool) ensures r == odd(c.w@) { unimplemented!() }
#[verifier::external_body] pub fn bit_(b: bool) -> (r: El) ensures r == el(if b { 1int } else { 0 }) { unimplemented!() }
/// the bits of the coefficients from position k on, the first one lowest
pub open spec fn packed(p: Seq<El>, k: int) -> int decreases p.len() - k { if k < 0 || k >= p.len() { 0 } else { 2 * packed(p, k + 1) + if odd(p[k].w@) { 1int } else { 0 } } }
proof fn packed_bound(p: Seq<El>, k: int) requires 0 <= k <= p.len() ensures 0 <= packed(p, k) < p2(p.len() - k) decreases p.len() - k { if k < p.len() { packed_bound(p, k + 1); } }
proof fn p2_64(n: int) requires n <= 64 ensures p2(n) <= 0x1_0000_0000_0000_0000 decreases 64 - n
{ if n < 64 { p2_64(n + 1); if n >= 0 { assert(p2(n + 1) == p2(n) * 2); p2_pos(n); } } else { assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute); } }
proof fn p2_pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { p2_pos(n - 1); } }
proof fn shifted_in(u: u64, b: u64) requires u < 0x8000_0000_0000_0000, b <= 1 ensures (u << 1u64) | b == 2 * u + b
{ assert((u << 1u64) | b == add(mul(2, u), b)) by (bit_vector) requires u < 0x8000_0000_0000_0000u64, b <= 1u64; }
#[verifier::external_body] pub fn shrink_(p: &mut Poly) ensures final(p).coeffs@.len() <= old(p).coeffs@.len() || final(p).coeffs@.len() == 1, forall|k: int| z(#[trigger] co(final(p).coeffs@, k) - co(old(p).coeffs@, k)) { unimplemented!() }
pub open spec fn co(p: Seq<El>, k: int) -> int { if 0 <= k < p.len() { p[k].w@ } else { 0 } }
pub open spec fn wbit(v: u64, k: int) -> int { if 0 <= k < 64 && (v >> (k as u64)) & 1 == 1 { 1 } else { 0 } }
impl Poly {
//@ extract iris-mpc/src/dzkp/polynomial.rs fn to_gf2p64
//@ re "^.*?\bfn to_gf2p64\b[^{]*\{" => "pub fn to_gf2p64(&self) -> (r: u64) requires self.coeffs@.len() <= 64 ensures r == packed(self.coeffs@, 0) { let ghost p_ = self.coeffs@;"
//@ all "assert!\([^;]*\);" => ""
//@ all "T::one\(\) & (\w+) == T::one\(\)" => "odd_(&\1)"
//@ all "\(odd_\((&\w+)\)\) as u64" => "(if odd_(\1) { 1u64 } else { 0u64 })"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let mut (\w+) = 0;\s*for (\w+) in ([^{]*?) \{(.*)\}\s*GF2p64::new\((\w+)\)" => "let mut \1: u64 = 0; let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == p_.len(), n_ <= 64, its.v@ == p_.reverse(), \1 == packed(p_, n_ - i_) { let \2 = its.at_(i_); let ghost u0 = \1; proof { assert(\2 == p_[n_ - 1 - i_]); packed_bound(p_, n_ - i_ - 1); packed_bound(p_, n_ - i_); p2_64(i_ + 1); assert(p2(i_ + 1) == p2(i_ as int) * 2); assert(p2(i_ as int) <= 0x8000_0000_0000_0000) by { p2_64(i_ + 1); } shifted_in(u0, 1); shifted_in(u0, 0); } \4 } \5"
//@ end
//@ extract iris-mpc/src/dzkp/polynomial.rs fn from_u64 in "impl<T: RingImpl> Poly<T>"
//@ re "^.*?\bfn from_u64\b[^{]*\{" => "pub fn from_u64(value: u64) -> (r: Poly) ensures forall|k: int| z(#[trigger] co(r.coeffs@, k) - wbit(value, k)) { proof { ideal(0, 0, 0); }"
//@ all "assert!\([^;]*\);" => ""
//@ all "Vec::with_capacity\(([^;]*)\);" => "Vec::<El>::new();"
//@ re "for (\w+) in 0\.\.64 \{" => "for \1 in 0..64 invariant poly@.len() == \1, forall|k: int| 0 <= k < \1 ==> (#[trigger] poly@[k]).w@ == wbit(value, k) {"
//@ all "T::from\((\w+)\)" => "bit_(\1)"
//@ all "Self::from_vec\((\w+)\)" => "Poly { coeffs: \1 }"
//@ all "(\w+)\.shrink\(\);" => "let ghost b_ = \1.coeffs@; shrink_(&mut \1); proof { assert forall|k: int| z(#[trigger] co(\1.coeffs@, k) - wbit(value, k)) by { assert(z(co(\1.coeffs@, k) - co(b_, k))); assert(co(b_, k) == wbit(value, k)); } }"
//@ end
}
fn main() {}
}
