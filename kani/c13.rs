// MODULES: gf powers
// C13: contracts of the field element type, all 64-bit values.
use iris_mpc::vp_hooks::k::*;

/// product by one power of x: shift and reduce, from the definition modulo x^64 + x^4 + x^3 + x + 1
fn times_x(a: u64) -> u64 { (a << 1) ^ if a >> 63 == 1 { 0b11011 } else { 0 } }
fn times_power(a: u64, i: u32) -> u64 { let mut r = a; let mut k = 0; while k < i { r = times_x(r); k += 1; } r }

mod gf {
    use super::*;
    fn two() -> (u64, u64) { (kani::any(), kani::any()) }
    #[kani::proof] fn add_sub_neg() {
        let (a, b) = two();
        kani::cover!(a != b && a & b != 0);
        let mut f = 0u8;
        while f < 8 { assert!(gf_bin(f, a, b) == a ^ b); f += 1; }
        assert!(gf_neg(a) == a);
    }
    #[kani::proof] fn multiply_forms_agree() {
        let (a, b) = two();
        kani::cover!(a > 1 && b > 1);
        let p = gf_bin(8, a, b);
        assert!(gf_bin(9, a, b) == p && gf_bin(10, a, b) == p && gf_bin(11, a, b) == p);
    }
    #[kani::proof] fn zero_one() {
        let (a, b) = two();
        kani::cover!(a == 1 && b == 1);
        assert!(gf_consts() == (0, 1, 0));
        assert!(gf_tests(a, b) == (a == 0, a == 1, a == b));
        assert!(gf_id(a) == (a, a, a));
        assert!(gf_bin(8, a, 1) == a && gf_bin(8, 1, a) == a && gf_bin(8, a, 0) == 0 && gf_bin(8, 0, a) == 0);
    }
    #[kani::proof] fn decode() {
        use serde::de::{IntoDeserializer, value::{U64Deserializer, Error as E}};
        let a: u64 = kani::any();
        kani::cover!(a > 1 << 63);
        let d: U64Deserializer<E> = a.into_deserializer();
        match gf_deserialize(d) { Ok(x) => assert!(x == a), Err(e) => { std::mem::forget(e); assert!(false); } }
    }
    #[kani::proof] fn lift() {
        let b: bool = kani::any();
        kani::cover!(b);
        assert!(gf_lift(b) == b as u64);
    }
    #[kani::proof] fn modulus() {
        let i: u8 = kani::any();
        kani::assume(i <= 64);
        kani::cover!(i == 64);
        assert!(gf_modulus()[i as usize] == (i == 0 || i == 1 || i == 3 || i == 4 || i == 64));
    }
}
/// every element times every power of x, in both orders
macro_rules! powers { ($($f:ident $i:literal),*) => { mod powers { use super::*; $(
    #[kani::proof] fn $f() {
        let a: u64 = kani::any();
        kani::cover!(a > 1);
        let mut i = $i;
        while i < $i + 4 { let w = times_power(a, i); assert!(gf_bin(8, a, 1 << i) == w); assert!(gf_bin(8, 1 << i, a) == w); i += 1; }
    }
)* } } }
powers!(p0 0, p4 4, p8 8, p12 12, p16 16, p20 20, p24 24, p28 28, p32 32, p36 36, p40 40, p44 44, p48 48, p52 52, p56 56, p60 60);
