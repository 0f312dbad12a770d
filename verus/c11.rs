// C11: the extended Euclidean algorithm and the inverses built on it, every width, all values.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
verus! {

#[derive(Debug)]
pub enum Error { NoInverseError, ConversionError }

/// contract of the ring interface used by the algorithm (IntRing2k with num_traits' Zero, One and
/// Wrapping*; the implementations are checked against it by the C10 and C11 contracts on the compiled code)
pub trait IntRing2k: Sized + Copy {
    spec fn m() -> nat;
    spec fn v(self) -> nat;
    proof fn range(self) ensures self.v() < Self::m();
    fn zero() -> (r: Self) ensures r.v() == 0;
    fn one() -> (r: Self) ensures r.v() == 1;
    fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0);
    fn floor_div(self, other: &Self) -> (r: Self) requires other.v() != 0 ensures r.v() == self.v() / other.v();
    fn wrapping_sub(&self, other: &Self) -> (r: Self) ensures r.v() == (self.v() as int - other.v() as int) % Self::m() as int;
    fn wrapping_mul(&self, other: &Self) -> (r: Self) ensures r.v() == (self.v() * other.v()) % Self::m();
}

/// greatest common divisor, by its defining recursion
pub open spec fn g(x: nat, y: nat) -> nat decreases y { if y == 0 { x } else { g(y, x % y) } }

pub open spec fn div(d: nat, x: nat) -> bool { exists|k: nat| x == #[trigger] (d * k) }

proof fn g_divides(x: nat, y: nat)
    ensures div(g(x, y), x), div(g(x, y), y)
    decreases y
{
    if y == 0 {
        assert(x == x * 1) by (nonlinear_arith);
        assert(div(x, x));
        assert(y == x * 0) by (nonlinear_arith) requires y == 0;
        assert(div(x, y));
    } else {
        g_divides(y, x % y);
        let d = g(y, x % y);
        let k = choose|k: nat| y == #[trigger] (d * k);
        let l = choose|l: nat| x % y == #[trigger] (d * l);
        lemma_fundamental_div_mod(x as int, y as int);
        let q = x / y;
        assert(x == d * (k * q + l)) by (nonlinear_arith) requires x as int == y as int * q as int + (x % y) as int, y == d * k, x % y == d * l;
        assert(div(d, x));
    }
}

proof fn odd_divisor_of_power(d: nat, n: nat)
    requires div(d, pow2(n)), d % 2 == 1
    ensures d == 1
    decreases n
{
    let q = choose|q: nat| pow2(n) == #[trigger] (d * q);
    if n == 0 {
        lemma2_to64();
        assert(d == 1) by (nonlinear_arith) requires d * q == 1;
    } else {
        lemma_pow2_unfold(n);
        let h = q / 2;
        if q % 2 == 1 {
            let e = d / 2;
            assert(d * q == 2 * (2 * e * h + e + h) + 1) by (nonlinear_arith) requires d == 2 * e + 1, q == 2 * h + 1;
            assert(false);
        }
        assert(pow2((n - 1) as nat) == d * h) by (nonlinear_arith) requires 2 * pow2((n - 1) as nat) == d * q, q == 2 * h;
        assert(div(d, pow2((n - 1) as nat)));
        odd_divisor_of_power(d, (n - 1) as nat);
    }
}

proof fn coprime(a: nat, n: nat)
    requires a % 2 == 1
    ensures g(pow2(n), a) == 1
{
    g_divides(pow2(n), a);
    let d = g(pow2(n), a);
    let k = choose|k: nat| a == #[trigger] (d * k);
    if d % 2 == 0 {
        let e = d / 2;
        assert(a == 2 * (e * k)) by (nonlinear_arith) requires a == d * k, d == 2 * e;
        assert(false);
    }
    odd_divisor_of_power(d, n);
}

/// s*a and r agree modulo b
pub open spec fn rel(s: int, a: int, r: int, b: int) -> bool { (s * a - r) % b == 0 }

/// reducing modulo a multiple of b does not change the residue modulo b
proof fn reduce(x: int, m: int, b: int)
    requires b > 0, m > 0, m % b == 0
    ensures exists|t: int| x % m == x - #[trigger] (b * t)
{
    lemma_fundamental_div_mod(x, m);
    lemma_fundamental_div_mod(m, b);
    let t = (m / b) * (x / m);
    assert(b * ((m / b) * (x / m)) == (b * (m / b)) * (x / m)) by (nonlinear_arith);
    assert(x % m == x - b * t);
}

proof fn step(s0: int, s1: int, r0: int, r1: int, q: int, a: int, b: int, m: int, p: int, t: int)
    requires b > 0, m > 0, m % b == 0, rel(s0, a, r0, b), rel(s1, a, r1, b), p == (q * s1) % m, t == (s0 - p) % m
    ensures rel(t, a, r0 - q * r1, b)
{
    reduce(q * s1, m, b);
    let u = choose|u: int| (q * s1) % m == q * s1 - #[trigger] (b * u);
    reduce(s0 - p, m, b);
    let w = choose|w: int| (s0 - p) % m == (s0 - p) - #[trigger] (b * w);
    lemma_fundamental_div_mod(s0 * a - r0, b);
    lemma_fundamental_div_mod(s1 * a - r1, b);
    let c0 = (s0 * a - r0) / b;
    let c1 = (s1 * a - r1) / b;
    assert(t == s0 - q * s1 + b * u - b * w);
    let z = c0 - q * c1 + (u - w) * a;
    assert(t * a - (r0 - q * r1) == b * z) by (nonlinear_arith)
        requires t == s0 - q * s1 + b * u - b * w, s0 * a - r0 == b * c0, s1 * a - r1 == b * c1, z == c0 - q * c1 + (u - w) * a;
    lemma_mod_multiples_basic(z, b);
    assert((z * b) % b == 0);
    assert(b * z == z * b) by (nonlinear_arith);
}

proof fn divided(r0: nat, r1: nat, m: nat)
    requires r1 > 0, r0 < m
    ensures
        (r0 / r1) * r1 < m,
        ((r0 / r1) * r1) % m == (r0 / r1) * r1,
        (r0 as int - ((r0 / r1) * r1) as int) % m as int == (r0 % r1) as int,
        r0 as int - (r0 / r1) as int * r1 as int == (r0 % r1) as int,
        r0 % r1 < r1,
{
    lemma_fundamental_div_mod(r0 as int, r1 as int);
    assert(r1 * (r0 / r1) == (r0 / r1) * r1) by (nonlinear_arith);
    lemma_mod_bound(r0 as int, r1 as int);
    lemma_small_mod((r0 / r1) * r1, m);
    lemma_small_mod(r0 % r1, m);
}

//@ extract iris-mpc/src/types/mod.rs fn extended_euclid_rev
//@ re "-> \(T, T\)\s*\{" => "-> (res: (T, T))\n    requires b.v() > 0, T::m() % b.v() == 0, T::m() > 1\n    ensures res.0.v() == g(b.v(), a.v()), rel(res.1.v() as int, a.v() as int, res.0.v() as int, b.v() as int)\n{\n    proof { let av = a.v() as int; let bv = b.v() as int; assert(1 * av - av == 0 && 0 * av - bv == bv * (-1)) by (nonlinear_arith); lemma_mod_multiples_basic(-1, bv); assert((-1) * bv == bv * (-1)) by (nonlinear_arith); assert(0int % bv == 0) by { lemma_small_mod(0, b.v()); } }"
//@ re "while !r1\.is_zero\(\)\s*\{" => "while !r1.is_zero()\n        invariant b.v() > 0, T::m() % b.v() == 0, T::m() > 1, g(r0.v(), r1.v()) == g(b.v(), a.v()), rel(s0.v() as int, a.v() as int, r0.v() as int, b.v() as int), rel(s1.v() as int, a.v() as int, r1.v() as int, b.v() as int)\n        decreases r1.v()\n    {\n        let ghost (r0_, r1_, s0_, s1_) = (r0, r1, s0, s1);\n        proof { r0.range(); r1.range(); divided(r0.v(), r1.v(), T::m()); }"
//@ re "s1 = tmp;" => "s1 = tmp;\n        proof { let q = (r0_.v() / r1_.v()) as int; let p = (q * s1_.v() as int) % T::m() as int; step(s0_.v() as int, s1_.v() as int, r0_.v() as int, r1_.v() as int, q, a.v() as int, b.v() as int, T::m() as int, p, s1.v() as int); }"
//@ end

//@ each t n | u8 8 | u16 16 | u32 32 | u64 64 | u128 128
impl IntRing2k for $t {
    open spec fn m() -> nat { pow2($n) }
    open spec fn v(self) -> nat { self as nat }
    proof fn range(self) { powers(); }
    fn zero() -> (r: Self) { proof { powers(); } 0 }
    fn one() -> (r: Self) { 1 }
    fn is_zero(&self) -> (r: bool) { *self == 0 }
//@ extract iris-mpc/src/types/int_ring.rs fn floor_div in "impl IntRing2k for $t"
//@ re "self / other" => "self / *other"
//@ re "-> Self" => "-> (r: Self)"
//@ end
    fn wrapping_sub(&self, other: &Self) -> (r: Self) {
        proof { powers(); let d = *self as int - *other as int; let m = pow2($n) as int;
            if d < 0 { lemma_mod_add_multiples_vanish(d, m); lemma_small_mod((d + m) as nat, m as nat); } else { lemma_small_mod(d as nat, m as nat); } }
        $t::wrapping_sub(*self, *other)
    }
    fn wrapping_mul(&self, other: &Self) -> (r: Self) { proof { powers(); } $t::wrapping_mul(*self, *other) }
}
//@ done
proof fn powers()
    ensures pow2(8) == 0x100, pow2(16) == 0x1_0000, pow2(32) == 0x1_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(64, 64);
    assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) by (compute_only);
}
/// the debug assertion of the code, as an obligation
fn check(b: bool) requires b {}

//@ each t w n k lim | u8 u16 8 16 0x100 | u16 u32 16 32 0x1_0000 | u32 u64 32 64 0x1_0000_0000 | u64 u128 64 128 0x1_0000_0000_0000_0000
mod inv_$t {
    use super::*;
    proof fn from_gcd(a: nat, x: nat, y: nat)
        requires a % 2 == 1, rel(x as int, a as int, g(pow2($n), a) as int, pow2($n) as int), y == x % pow2($n)
        ensures (y * a) % pow2($n) == 1
    {
        powers();
        coprime(a, $n);
        let b = pow2($n) as int;
        reduce(x as int, b, b);
        let t = choose|t: int| x as int % b == x as int - #[trigger] (b * t);
        lemma_fundamental_div_mod(x as int * a as int - 1, b);
        let c = (x as int * a as int - 1) / b;
        let z = c - t * a as int;
        assert(y as int * a as int == b * z + 1) by (nonlinear_arith) requires y as int == x as int - b * t, x as int * a as int - 1 == b * c, z == c - t * a as int;
        lemma_mod_multiples_vanish(z, 1, b);
        lemma_small_mod(1, b as nat);
    }
//@ extract iris-mpc/src/types/int_ring.rs fn inverse in "impl IntRing2k for $t"
//@ re "fn inverse\(&self\) -> Result<Self, Error> \{" => "pub fn inverse(this: &$t) -> (res: Result<$t, Error>)\n ensures *this % 2 == 1 <==> res is Ok, res is Ok ==> ((res->Ok_0) as nat * (*this) as nat) % pow2($n) == 1\n{\n    proof { powers(); let s = *this; assert(1 & s == s % 2) by (bit_vector); assert(s as nat % 2 == (s % 2) as nat); }"
//@ all "\*self" => "*this"
//@ all "\bself\b" => "*this"
//@ all "\bSelf\b" => "$t"
//@ re "let \((\w+), (\w+)\) = ([^;]*);" => "let (\1, \2) = \3;\n proof { if *this % 2 == 1 { let x = \2; let y = \2 as $t; assert(y == x % $lim) by (bit_vector) requires y == x as $t; from_gcd(*this as nat, x as nat, y as nat); } }"
//@ all "debug_assert!\(" => "check("
//@ end
}
//@ done
} // verus!
fn main() {}
