// C13: the extended Euclidean algorithm over GF(2)[x] and inv_mod, all operands, all iterations.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {

// ---------------------------------------------------------------- GF(2)[x], axiomatised
pub struct Pol { pub coeffs: Seq<bool> }
pub uninterp spec fn pzero() -> Pol;
pub uninterp spec fn pone() -> Pol;
pub uninterp spec fn add(a: Pol, b: Pol) -> Pol;
pub uninterp spec fn mul(a: Pol, b: Pol) -> Pol;
pub uninterp spec fn deg(a: Pol) -> nat;
pub broadcast axiom fn add_comm(a: Pol, b: Pol) ensures #[trigger] add(a, b) == add(b, a);
pub broadcast axiom fn add_assoc(a: Pol, b: Pol, c: Pol) ensures #[trigger] add(add(a, b), c) == add(a, add(b, c));
pub broadcast axiom fn add_zero(a: Pol) ensures #[trigger] add(a, pzero()) == a;
pub broadcast axiom fn add_self(a: Pol) ensures #[trigger] add(a, a) == pzero();
pub broadcast axiom fn mul_comm(a: Pol, b: Pol) ensures #[trigger] mul(a, b) == mul(b, a);
pub axiom fn mul_assoc(a: Pol, b: Pol, c: Pol) ensures mul(mul(a, b), c) == mul(a, mul(b, c));
pub broadcast axiom fn mul_one(a: Pol) ensures #[trigger] mul(a, pone()) == a;
pub broadcast axiom fn mul_zero(a: Pol) ensures #[trigger] mul(a, pzero()) == pzero();
pub axiom fn distrib(a: Pol, b: Pol, c: Pol) ensures mul(a, add(b, c)) == add(mul(a, b), mul(a, c));
pub axiom fn deg_mul(a: Pol, b: Pol) requires a != pzero(), b != pzero() ensures mul(a, b) != pzero(), deg(mul(a, b)) == deg(a) + deg(b);
pub axiom fn deg_add(a: Pol, b: Pol)
    ensures deg(add(a, b)) <= deg(a) || deg(add(a, b)) <= deg(b),
        a != pzero() && (b == pzero() || deg(b) < deg(a)) ==> add(a, b) != pzero() && deg(add(a, b)) == deg(a);
pub broadcast axiom fn deg_one() ensures #[trigger] deg(pone()) == 0, pone() != pzero();
pub axiom fn unit(a: Pol) requires a != pzero(), deg(a) == 0 ensures a == pone();
broadcast group ring { add_comm, add_assoc, add_zero, add_self, mul_comm, mul_one, mul_zero, deg_one }

// ---------------------------------------------------------------- contracts assumed of the gf256 crate
/// the polynomial whose coefficients are the bits of the word
pub uninterp spec fn pol(x: u64) -> Pol;
pub axiom fn pol_words(x: u64, y: u64) ensures pol(0) == pzero(), pol(1) == pone(), pol(x) == pol(y) ==> x == y, deg(pol(x)) < 64;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub struct p64(pub u64);
pub uninterp spec fn divp(a: p64, b: p64) -> p64;
pub uninterp spec fn mulp(a: p64, b: p64) -> p64;
pub uninterp spec fn subp(a: p64, b: p64) -> p64;
impl p64 {
    pub open spec fn p(self) -> Pol { pol(self.0) }
    #[verifier::external_body] pub fn new(x: u64) -> (r: p64) ensures r.0 == x { p64(x) }
    #[verifier::external_body] pub fn get(self) -> (r: u64) ensures r == self.0 { self.0 }
}
pub open spec fn is_rem(a: Pol, q: Pol, b: Pol, r: Pol) -> bool { a == add(mul(q, b), r) && (r == pzero() || deg(r) < deg(b)) }
pub axiom fn div_ok(a: p64, b: p64) requires b.p() != pzero() ensures exists|r: Pol| #[trigger] is_rem(a.p(), divp(a, b).p(), b.p(), r);
pub axiom fn mul_ok(a: p64, b: p64) requires fits(a.p(), b.p()) ensures mulp(a, b).p() == mul(a.p(), b.p());
pub axiom fn sub_ok(a: p64, b: p64) ensures subp(a, b).p() == add(a.p(), b.p());
pub open spec fn fits(a: Pol, b: Pol) -> bool { a == pzero() || b == pzero() || deg(a) + deg(b) < 64 }
impl DivSpecImpl for p64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: p64) -> bool { o.p() != pzero() } open spec fn div_spec(self, o: p64) -> p64 { divp(self, o) } }
// a product of degree 64 or more panics in debug builds and is truncated otherwise
impl MulSpecImpl for p64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: p64) -> bool { fits(self.p(), o.p()) } open spec fn mul_spec(self, o: p64) -> p64 { mulp(self, o) } }
impl SubSpecImpl for p64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: p64) -> bool { true } open spec fn sub_spec(self, o: p64) -> p64 { subp(self, o) } }
impl core::ops::Div for p64 { type Output = p64; #[verifier::external_body] fn div(self, o: p64) -> p64 { self } }
impl core::ops::Mul for p64 { type Output = p64; #[verifier::external_body] fn mul(self, o: p64) -> p64 { self } }
impl core::ops::Sub for p64 { type Output = p64; #[verifier::external_body] fn sub(self, o: p64) -> p64 { self } }
impl PartialEqSpecImpl for p64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &p64) -> bool { self.0 == o.0 } }
impl PartialEq for p64 { #[verifier::external_body] fn eq(&self, o: &p64) -> bool { self.0 == o.0 } }

#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub struct gf2p64(pub u64);
impl gf2p64 {
    #[verifier::external_body] pub fn new(x: u64) -> (r: gf2p64) ensures r.0 == x { gf2p64(x) }
    #[verifier::external_body] pub fn get(self) -> (r: u64) ensures r == self.0 { self.0 }
}

// ---------------------------------------------------------------- divisibility, congruence
pub open spec fn divides(d: Pol, a: Pol) -> bool { exists|k: Pol| a == #[trigger] mul(d, k) }
pub open spec fn common(d: Pol, a: Pol, b: Pol) -> bool { divides(d, a) && divides(d, b) }
pub open spec fn coprime(a: Pol, b: Pol) -> bool { forall|d: Pol| #[trigger] common(d, a, b) ==> d == pone() }
/// s*a = r modulo b
pub open spec fn rel(s: Pol, a: Pol, r: Pol, b: Pol) -> bool { exists|t: Pol| add(mul(s, a), r) == #[trigger] mul(b, t) }

proof fn swap4(a: Pol, b: Pol, c: Pol, d: Pol) ensures add(add(a, b), add(c, d)) == add(add(a, c), add(b, d))
{
    broadcast use add_comm;
    add_assoc(a, b, add(c, d)); add_assoc(b, c, d); add_assoc(c, b, d); add_assoc(a, c, add(b, d));
}
/// the relation is kept by s0 - q*s1, r0 - q*r1
proof fn step(s0: Pol, s1: Pol, r0: Pol, r1: Pol, q: Pol, a: Pol, b: Pol)
    requires rel(s0, a, r0, b), rel(s1, a, r1, b)
    ensures rel(add(s0, mul(q, s1)), a, add(r0, mul(q, r1)), b)
{
    broadcast use mul_comm;
    let t0 = choose|t: Pol| add(mul(s0, a), r0) == #[trigger] mul(b, t);
    let t1 = choose|t: Pol| add(mul(s1, a), r1) == #[trigger] mul(b, t);
    let t = add(t0, mul(q, t1));
    distrib(a, s0, mul(q, s1));
    mul_assoc(q, s1, a);
    assert(mul(add(s0, mul(q, s1)), a) == add(mul(s0, a), mul(q, mul(s1, a))));
    swap4(mul(s0, a), mul(q, mul(s1, a)), r0, mul(q, r1));
    distrib(q, mul(s1, a), r1);
    distrib(b, t0, mul(q, t1));
    mul_assoc(b, q, t1); mul_assoc(q, b, t1);
    assert(add(mul(add(s0, mul(q, s1)), a), add(r0, mul(q, r1))) == mul(b, t));
}
proof fn start(a: Pol, b: Pol) ensures rel(pone(), a, a, b), rel(pzero(), a, b, b)
{
    broadcast use ring;
    assert(add(mul(pone(), a), a) == mul(b, pzero()));
    assert(add(mul(pzero(), a), b) == mul(b, pone()));
}
/// common divisors of (r1, rem) are common divisors of (r0, r1)
proof fn back(d: Pol, r0: Pol, r1: Pol, q: Pol, rem: Pol)
    requires r0 == add(mul(q, r1), rem), common(d, r1, rem)
    ensures common(d, r0, r1)
{
    broadcast use mul_comm;
    let k = choose|k: Pol| r1 == #[trigger] mul(d, k);
    let l = choose|k: Pol| rem == #[trigger] mul(d, k);
    distrib(d, mul(q, k), l);
    mul_assoc(d, k, q); mul_assoc(q, k, d);
    assert(r0 == mul(d, add(mul(q, k), l)));
}
/// no product of the iteration leaves the 64 coefficients
proof fn sizes(r0: Pol, r1: Pol, s0: Pol, s1: Pol, q: Pol, rem: Pol, first: bool)
    requires r1 != pzero(), is_rem(r0, q, r1, rem), deg(r0) < 64, deg(r1) < 64,
        first ==> s0 == pzero() && s1 == pone(),
        !first ==> r0 != pzero() && deg(r1) < deg(r0),
        s1 == pzero() || deg(s1) + deg(r0) < 64, s0 == pzero() || deg(s0) + deg(r1) < 64,
    ensures fits(q, r1), fits(q, s1),
        add(r0, mul(q, r1)) == rem,
        rem == pzero() || deg(rem) < deg(r1),
        add(s0, mul(q, s1)) == pzero() || deg(add(s0, mul(q, s1))) + deg(r1) < 64,
        s1 == pzero() || deg(s1) + deg(rem) < 64 || rem == pzero(),
{
    broadcast use ring;
    add_assoc(mul(q, r1), rem, mul(q, r1));
    if q != pzero() {
        deg_mul(q, r1);
        deg_add(mul(q, r1), rem);
        assert(deg(r0) == deg(q) + deg(r1));
        if s1 != pzero() { deg_mul(q, s1); }
    }
    deg_add(s0, mul(q, s1));
    deg_add(mul(q, s1), s0);
}

//@ each name | GF2p64
#[derive(Clone, Copy)]
pub struct $name(pub gf2p64);
impl $name {
    pub open spec fn p(self) -> Pol { pol(self.0.0) }
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn new in "impl GF2p64"
//@ re "-> Self \{" => "-> (r: Self) ensures r.0.0 == x {"
//@ end
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn get in "impl GF2p64"
//@ re "-> u64 \{" => "-> (r: u64) ensures r == self.0.0 {"
//@ end
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn to_poly in "impl GF2p64"
//@ re "-> p64 \{" => "-> (r: p64) ensures r.p() == self.p() {"
//@ end
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn from_poly in "impl GF2p64"
//@ re "-> Self \{" => "-> (r: Self) ensures r.p() == x.p() {"
//@ end
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn extended_euclid_rev in "impl GF2p64"
//@ re "-> \(Self, Self\) \{" => "-> (res: (Self, Self))\n        requires b.p() != pzero()\n        ensures common(res.0.p(), a.p(), b.p()), rel(res.1.p(), a.p(), res.0.p(), b.p())\n    {\n        broadcast use ring;\n        let ghost mut first = true;\n        proof { pol_words(a.0.0, b.0.0); pol_words(b.0.0, a.0.0); start(a.p(), b.p()); }"
//@ all "\.to_owned\(\)" => ""
//@ re "while r1 != zero\s*\{" => "while r1 != zero\n            invariant zero.0 == 0, b.p() != pzero(), rel(s0.p(), a.p(), r0.p(), b.p()), rel(s1.p(), a.p(), r1.p(), b.p()),\n                forall|d: Pol| #[trigger] common(d, r0.p(), r1.p()) ==> common(d, a.p(), b.p()),\n                first ==> s0.p() == pzero() && s1.p() == pone() && r0.p() != pzero(), !first ==> r0.p() != pzero() && (r1.p() == pzero() || deg(r1.p()) < deg(r0.p())),\n                s1.p() == pzero() || deg(s1.p()) + deg(r0.p()) < 64 , s0.p() == pzero() || deg(s0.p()) + deg(r1.p()) < 64 || r1.p() == pzero(),\n            decreases if r1.0 == 0 { 0nat } else { deg(r1.p()) + 1 }\n        {\n            let ghost (r0_, r1_, s0_, s1_) = (r0, r1, s0, s1);\n            proof { pol_words(r0.0, r1.0); pol_words(r1.0, r0.0); pol_words(r1.0, 0); div_ok(r0, r1); let rem = choose|r: Pol| #[trigger] is_rem(r0.p(), divp(r0, r1).p(), r1.p(), r); let q = divp(r0, r1); sizes(r0.p(), r1.p(), s0.p(), s1.p(), q.p(), rem, first); mul_ok(q, r1); mul_ok(q, s1); sub_ok(r0, mulp(q, r1)); sub_ok(s0, mulp(q, s1)); step(s0.p(), s1.p(), r0.p(), r1.p(), q.p(), a.p(), b.p()); assert forall|d: Pol| #[trigger] common(d, r1.p(), rem) implies common(d, a.p(), b.p()) by { back(d, r0.p(), r1.p(), q.p(), rem); }; pol_words(subp(r0, mulp(q, r1)).0, 0); first = false; }"
//@ re "\(Self::from_poly\(r0\)" => "proof { pol_words(r1.0, 0); assert(mul(r0.p(), pone()) == r0.p()); assert(mul(r0.p(), pzero()) == pzero()); assert(common(r0.p(), r0.p(), r1.p())); }\n        (Self::from_poly(r0)"
//@ end
//@ extract iris-mpc/src/dzkp/gf2p64.rs fn inv_mod in "impl GF2p64"
//@ re "-> Self \{" => "-> (res: Self)\n        requires modulus.p() != pzero()\n        ensures coprime(self.p(), modulus.p()) ==> rel(res.p(), self.p(), pone(), modulus.p())\n    {"
//@ end
}
//@ done
} // verus!
fn main() {}
