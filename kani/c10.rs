// MODULES: r8 r16 r32 r64 r128 bit
// C10: contracts of the ring element and bit operations, all values of every width.
use iris_mpc::vp_hooks::k::*;
use num_traits::{One, Zero};

/// without the drop and format code of the error type
fn get<T>(r: Result<T, Error>) -> Option<T> { match r { Ok(x) => Some(x), Err(e) => { std::mem::forget(e); None } } }
fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
macro_rules! binop { ($x:ident $y:ident, $want:expr, $op:tt, $opa:tt) => { {
    let w = $want;
    assert!(($x.clone() $op $y.clone()).0 == w);
    assert!(($x.clone() $op &$y).0 == w);
    let mut z = $x.clone(); z $opa $y.clone(); assert!(z.0 == w);
    let mut z = $x.clone(); z $opa &$y; assert!(z.0 == w);
} } }
macro_rules! ring { ($($m:ident $t:ident $s:ident $v:ident $k:literal $u:literal),*) => { $( mod $m {
    use super::*;
    const K: usize = $k;
    type R = RingElement<$t>;
    fn one_() -> (R, $t) { let a: $t = kani::any(); (RingElement(a), a) }
    fn two() -> (R, R, $t, $t) { let (a, b): ($t, $t) = (kani::any(), kani::any()); (RingElement(a), RingElement(b), a, b) }
    #[kani::proof] fn add_sub_neg() {
        let (x, y, a, b) = two();
        kani::cover!(a.checked_add(b).is_none());
        binop!(x y, a.wrapping_add(b), +, +=);
        binop!(x y, a.wrapping_sub(b), -, -=);
        assert!((-x).0 == (0 as $t).wrapping_sub(a));
    }
    #[kani::proof] #[kani::solver(z3)] fn multiply() {
        let (x, y, a, b) = two();
        let w = a.wrapping_mul(b);
        kani::cover!(a > 1 && b > 1);
        binop!(x y, w, *, *=);
        assert!((x.clone() * b).0 == w && (x.clone() * &b).0 == w);
        let mut z = x.clone(); z *= b; assert!(z.0 == w);
        let mut z = x.clone(); z *= &b; assert!(z.0 == w);
        // mixed forms with the signed and the plain unsigned integer of the same width
        let sb = b as $s;
        assert!((x.clone() * sb).0 == w && (x.clone() * &sb).0 == w);
        let mut z = x.clone(); z *= sb; assert!(z.0 == w);
        let mut z = x.clone(); z *= &sb; assert!(z.0 == w);
        assert!((sb * x.clone()) as $t == w && b * x.clone() == w);
    }
    #[kani::proof] fn bitwise() {
        let (x, y, a, b) = two();
        kani::cover!(a & b != 0 && a != b);
        binop!(x y, a ^ b, ^, ^=);
        binop!(x y, a & b, &, &=);
        binop!(x y, a | b, |, |=);
        assert!((!x.clone()).0 == !a);
        let sb = b as $s;
        assert!((x.clone() & sb).0 == a & b && (x.clone() & &sb).0 == a & b);
        let mut z = x.clone(); z &= sb; assert!(z.0 == a & b);
        let mut z = x.clone(); z &= &sb; assert!(z.0 == a & b);
        assert!((sb & x.clone()) as $t == a & b && b & x.clone() == a & b);
    }
    #[kani::proof] fn shifts() {
        let (x, a) = one_();
        let n: u32 = kani::any();
        kani::assume(n < K as u32);
        kani::cover!(n == K as u32 - 1);
        assert!((x.clone() << n).0 == a << n && (x.clone() >> n).0 == a >> n);
        let mut z = x.clone(); z <<= n; assert!(z.0 == a << n);
        let mut z = x.clone(); z >>= n; assert!(z.0 == a >> n);
    }
    #[kani::proof] fn single_bits() {
        let (x, a) = one_();
        let n: usize = kani::any();
        kani::assume(n < K);
        kani::cover!(n == K - 1 && a >> n & 1 == 1);
        assert!(<R as RingImpl>::K == K && <$t as IntRing2k>::K == K);
        assert!(x.get_bit(n).0 == a >> n & 1);
        assert!(x.get_msb().0.convert() == (a >> (K - 1) == 1));
        assert!(x.is_zero() == (a == 0) && R::zero().0 == 0 && R::one().0 == 1);
        assert!(R::from(true).0 == 1 && R::from(false).0 == 0);
        assert!(x.clone().upgrade_to_128().0 == a as u128);
        assert!(x.convert() == a);
    }
    #[kani::proof] #[kani::unwind($u)] fn decomposition() {
        let (x, a) = one_();
        let bits = x.to_bits();
        assert!(bits.len() == K);
        for i in 0..K { assert!(bits[i].0.convert() == (a >> i & 1 == 1)); }
        kani::cover!(bits[0].0.convert());
        assert!(bits[K - 1] == x.get_msb());
        assert!(get(R::from_bits(&bits)) == Some(RingElement(a)));
    }
    #[kani::proof] #[kani::unwind($u)] fn recomposition() {
        let a: $t = kani::any();
        let mut bits: Vec<RingElement<Bit>> = Vec::with_capacity(K);
        for i in 0..K { bits.push(RingElement(Bit::new(a >> i & 1 == 1))); }
        kani::cover!(a > 1);
        assert!(get(R::from_bits(&bits)) == Some(RingElement(a)));
    }
    #[kani::proof] #[kani::unwind(4)] fn recomposition_length() {
        let bits = [RingElement(Bit::new(kani::any())), RingElement(Bit::new(kani::any()))];
        kani::cover!(true);
        assert!(get(R::from_bits(&bits)).is_none() && get(R::from_bits(&bits[1..])).is_none() && get(R::from_bits(&[])).is_none());
    }
    #[kani::proof] fn conversions() {
        let (x, a) = one_();
        let s = a as $s;
        kani::cover!(s < 0);
        assert!(<$t as Sharable>::to_sharetype(a).0 == a && <$t as Sharable>::from_sharetype(x.clone()) == a);
        assert!(<$s as Sharable>::to_sharetype(s).0 == a && <$s as Sharable>::from_sharetype(x.clone()) == s);
        assert!(a.to_signed() == s);
        // zero extension up, truncation down
        assert!(<$t as Sharable>::to_verificationtype(x.clone()).0 == a as $v && <$s as Sharable>::to_verificationtype(x.clone()).0 == a as $v);
        assert!(<$t as Sharable>::to_verificationshare(a) == a as $v);
        assert!(<$s as Sharable>::to_verificationshare(s) as $t == a);
        let w: $v = kani::any();
        assert!(<$t as Sharable>::from_verificationtype(RingElement(w)).0 == w as $t && <$s as Sharable>::from_verificationtype(RingElement(w)).0 == w as $t);
        assert!(<$t as Sharable>::from_verificationshare(w) == w as $t && <$s as Sharable>::from_verificationshare(w) == w as $s);
        let n: u32 = kani::any();
        kani::assume(n < K as u32);
        assert!(<$s as Sharable>::arithmetic_shr(x.clone(), n).0 == (s >> n) as $t && <$t as Sharable>::arithmetic_shr(x.clone(), n).0 == a >> n);
    }
    // layout of the views does not depend on the length: two elements
    #[kani::proof] #[kani::unwind(4)] fn slice_views() {
        let raw: [$t; 2] = kani::any();
        kani::cover!(raw[0] != raw[1]);
        let shares: [R; 2] = [RingElement(raw[0]), RingElement(raw[1])];
        let signed: [$s; 2] = [raw[0] as $s, raw[1] as $s];
        assert!(same(RingElement::convert_slice(&shares), &raw) && same(RingElement::convert_slice_rev(&raw), &shares));
        assert!(same(<$t as Sharable>::slice_to_sharetype(&raw), &shares) && same(<$t as Sharable>::slice_from_sharetype(&shares), &raw));
        assert!(same(<$s as Sharable>::slice_to_sharetype(&signed), &shares) && same(<$s as Sharable>::slice_from_sharetype(&shares), &signed));
    }
    #[kani::proof] #[kani::unwind(4)] fn vec_views() {
        let raw: [$t; 2] = kani::any();
        kani::cover!(raw[0] != raw[1]);
        let shares = || vec![RingElement(raw[0]), RingElement(raw[1])];
        let v = RingElement::convert_vec(shares()); assert!(same(&v, &raw)); std::mem::forget(v);
        let v = RingElement::convert_vec_rev(vec![raw[0], raw[1]]); assert!(same(&v, &shares())); std::mem::forget(v);
        let v = <$s as Sharable>::vec_to_sharetype(vec![raw[0] as $s, raw[1] as $s]); assert!(same(&v, &shares())); std::mem::forget(v);
        let v = <$s as Sharable>::vec_from_sharetype(shares()); assert!(same(&v, &[raw[0] as $s, raw[1] as $s])); std::mem::forget(v);
        let v = <$t as Sharable>::vec_to_sharetype(vec![raw[0], raw[1]]); assert!(same(&v, &shares())); std::mem::forget(v);
        let v = <$t as Sharable>::vec_from_sharetype(shares()); assert!(same(&v, &raw)); std::mem::forget(v);
    }
} )* } }
ring!(r8 u8 i8 u64 8 9, r16 u16 i16 u64 16 17, r32 u32 i32 u64 32 33, r64 u64 i64 u128 64 65, r128 u128 i128 u128 128 129);

mod bit {
    use super::*;
    use num_traits::{WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub};
    fn two() -> (Bit, Bit, bool, bool) { let (a, b): (bool, bool) = (kani::any(), kani::any()); (Bit::new(a), Bit::new(b), a, b) }
    #[kani::proof] fn operators() {
        let (x, y, a, b) = two();
        kani::cover!(a && b);
        for z in [x + y, x + &y, x.wrapping_add(&y), x - y, x - &y, x.wrapping_sub(&y), x ^ y, x ^ &y] { assert!(z.convert() == (a != b)); }
        for z in [x & y, x & &y, x * y, x * &y, x.wrapping_mul(&y)] { assert!(z.convert() == (a && b)); }
        for z in [x | y, x | &y] { assert!(z.convert() == (a || b)); }
        assert!((-x).convert() == a && x.wrapping_neg().convert() == a && (!x).convert() == !a);
        let mut z = x; z ^= y; assert!(z.convert() == (a != b));
        let mut z = x; z ^= &y; assert!(z.convert() == (a != b));
        let mut z = x; z &= y; assert!(z.convert() == (a && b));
        let mut z = x; z &= &y; assert!(z.convert() == (a && b));
        let mut z = x; z |= y; assert!(z.convert() == (a || b));
        let mut z = x; z |= &y; assert!(z.convert() == (a || b));
        let mut z = x; IntRing2k::wrapping_add_assign(&mut z, &y); assert!(z.convert() == (a != b));
        let mut z = x; IntRing2k::wrapping_sub_assign(&mut z, &y); assert!(z.convert() == (a != b));
        let mut z = x; IntRing2k::wrapping_mul_assign(&mut z, &y); assert!(z.convert() == (a && b));
        assert!(x.is_zero() == !a && !Bit::zero().convert() && Bit::one().convert());
        assert!((x == y) == (a == b));
    }
    #[kani::proof] fn shifts() {
        let (x, _, a, _) = two();
        let n: usize = kani::any();
        let m: u32 = kani::any();
        kani::cover!(n == 0 && a);
        assert!((x << n).convert() == (a && n == 0) && (x >> n).convert() == (a && n == 0));
        assert!(x.wrapping_shl(m).convert() == (a && m == 0) && x.wrapping_shr(m).convert() == (a && m == 0));
    }
    #[kani::proof] fn conversions() {
        let (x, _, a, _) = two();
        let (n, m): (u8, usize) = (kani::any(), kani::any());
        kani::cover!(n == 1); kani::cover!(n == 2);
        match Bit::try_from(n) { Ok(b) => assert!(n <= 1 && b.convert() == (n == 1)), Err(_) => assert!(n > 1) }
        match Bit::try_from(m) { Ok(b) => assert!(m <= 1 && b.convert() == (m == 1)), Err(_) => assert!(m > 1) }
        assert!(u8::from(x) == a as u8 && bool::from(x) == a && Bit::from(a) == x);
        assert!(x.upgrade_to_128() == a as u128 && x.to_signed() == x);
        assert!(Bit::to_sharetype(x).0 == x && Bit::from_sharetype(RingElement(x)) == x);
        assert!(Bit::to_verificationshare(x) == a as u64 && Bit::to_verificationtype(RingElement(x)).0 == a as u64);
        let w: u64 = kani::any();
        assert!(Bit::from_verificationshare(w).convert() == (w & 1 == 1) && Bit::from_verificationtype(RingElement(w)).0.convert() == (w & 1 == 1));
    }
    #[kani::proof] #[kani::unwind(5)] fn ring_of_bits() {
        let (x, y, a, b) = two();
        let (x, y) = (RingElement(x), RingElement(y));
        kani::cover!(a && !b);
        let (s, p) = (Bit::new(a != b), Bit::new(a && b));
        binop!(x y, s, +, +=); binop!(x y, s, -, -=); binop!(x y, s, ^, ^=);
        binop!(x y, p, *, *=); binop!(x y, p, &, &=); binop!(x y, Bit::new(a || b), |, |=);
        assert!((-x.clone()).0.convert() == a && (!x.clone()).0.convert() == !a);
        assert!((x.clone() << 0).0.convert() == a && (x.clone() >> 0).0.convert() == a);
        assert!(<RingElement<Bit> as RingImpl>::K == 1 && x.get_msb() == x && x.get_bit(0) == x);
        let d = x.to_bits(); assert!(d.len() == 1 && d[0] == x);
        assert!(get(RingElement::<Bit>::from_bits(&d)) == Some(x.clone()) && get(RingElement::<Bit>::from_bits(&[])).is_none());
        assert!(x.clone().upgrade_to_128().0 == a as u128);
    }
    #[kani::proof] #[kani::unwind(4)] fn views() {
        let raw: [bool; 2] = kani::any();
        kani::cover!(raw[0] != raw[1]);
        let bits = [Bit::new(raw[0]), Bit::new(raw[1])];
        let shares = [RingElement(bits[0]), RingElement(bits[1])];
        assert!(same(Bit::convert_slice(&bits), &raw) && same(Bit::convert_slice_rev(&raw), &bits));
        assert!(same(Bit::slice_to_sharetype(&bits), &shares) && same(Bit::slice_from_sharetype(&shares), &bits));
        let v = Bit::convert_vec(vec![bits[0], bits[1]]); assert!(same(&v, &raw)); std::mem::forget(v);
        let v = Bit::convert_vec_rev(vec![raw[0], raw[1]]); assert!(same(&v, &bits)); std::mem::forget(v);
        let v = Bit::vec_to_sharetype(vec![bits[0], bits[1]]); assert!(same(&v, &shares)); std::mem::forget(v);
        let v = Bit::vec_from_sharetype(shares.to_vec()); assert!(same(&v, &bits)); std::mem::forget(v);
    }
}
