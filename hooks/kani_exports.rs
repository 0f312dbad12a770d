// items of the crate that Kani harnesses call
pub use crate::error::Error;
pub use crate::types::bit::Bit;
pub use crate::types::int_ring::IntRing2k;
pub use crate::types::ring_element::{RingElement, RingImpl};
pub use crate::types::sharable::Sharable;
pub use bytes::{Buf, BufMut, Bytes, BytesMut};
pub fn ring_vec_from_bytes<R: RingImpl>(b: BytesMut, n: usize) -> Result<Vec<R>, Error> { crate::aby3::utils::ring_vec_from_bytes(b, n) }
pub fn ring_slice_to_bytes<R: RingImpl>(v: &[R]) -> Bytes { crate::aby3::utils::ring_slice_to_bytes(v) }
pub fn ring_iter_to_bytes<R: RingImpl>(v: &[R]) -> Bytes { crate::aby3::utils::ring_iter_to_bytes(v.iter()) }
pub fn ring_iter_from_bytes<R: RingImpl>(b: BytesMut, n: usize) -> Result<impl ExactSizeIterator<Item = R>, Error> { crate::aby3::utils::ring_iter_from_bytes(b, n) }
// field elements: crate-private type, seen through its 64-bit representation
use crate::dzkp::gf2p64::GF2p64;
pub fn gf_bin(form: u8, a: u64, b: u64) -> u64 {
    let (x, y) = (GF2p64::new(a), GF2p64::new(b));
    let mut z = x;
    match form {
        0 => return (x + y).get(), 1 => return (x + &y).get(), 2 => z += y, 3 => z += &y,
        4 => return (x - y).get(), 5 => return (x - &y).get(), 6 => z -= y, 7 => z -= &y,
        8 => return (x * y).get(), 9 => return (x * &y).get(), 10 => z *= y, _ => z *= &y,
    }
    z.get()
}
pub fn gf_neg(a: u64) -> u64 { (-GF2p64::new(a)).get() }
pub fn gf_id(a: u64) -> (u64, u64, u64) { (GF2p64::new(a).get(), unsafe { GF2p64::new_unchecked(a) }.get(), GF2p64::from_poly(GF2p64::new(a).to_poly()).get()) }
pub fn gf_lift(b: bool) -> u64 { GF2p64::lift(b).get() }
pub fn gf_consts() -> (u64, u64, u64) { use num_traits::{One, Zero}; (GF2p64::zero().get(), GF2p64::one().get(), GF2p64::default().get()) }
pub fn gf_tests(a: u64, b: u64) -> (bool, bool, bool) { use num_traits::{One, Zero}; let x = GF2p64::new(a); (x.is_zero(), x.is_one(), x == GF2p64::new(b)) }
pub fn gf_inverse(a: u64) -> u64 { GF2p64::new(a).inverse().get() }
pub fn gf_inv_mod(a: u64, m: u64) -> u64 { GF2p64::new(a).inv_mod(GF2p64::new(m)).get() }
pub fn gf_modulus() -> [bool; 65] { GF2p64::MODULUS }
pub fn gf_serialize<S: serde::Serializer>(a: u64, s: S) -> Result<S::Ok, S::Error> { use serde::Serialize; GF2p64::new(a).serialize(s) }
pub fn gf_deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u64, D::Error> { use serde::Deserialize; GF2p64::deserialize(d).map(|x| x.get()) }
pub fn gf_random<R: rand::Rng>(r: &mut R) -> u64 { GF2p64::random(r).get() }
