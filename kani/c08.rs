// C08: contracts of the iris code bit arrays, all arrays, all positions.
// MODULES: bits words
use plain_reference::{IrisCode, IrisCodeArray};

const N: usize = 12800;
const W: usize = 200;
fn arr(w: [u64; W]) -> IrisCodeArray {
    assert!(std::mem::size_of::<IrisCodeArray>() == 8 * W && IrisCodeArray::IRIS_CODE_SIZE == N && IrisCode::IRIS_CODE_SIZE == N);
    // IrisCodeArray is repr(transparent) over [u64; 200]
    unsafe { std::mem::transmute::<[u64; W], IrisCodeArray>(w) }
}
fn words(a: IrisCodeArray) -> [u64; W] { unsafe { std::mem::transmute::<IrisCodeArray, [u64; W]>(a) } }
/// the position-wise reading the contracts are stated in: bit j is bit j%64 of word j/64
fn bit(w: &[u64; W], j: usize) -> bool { w[j >> 6] >> (j & 63) & 1 == 1 }
fn pos(n: usize) -> usize { #[cfg(kani)] { let i: usize = kani::any(); kani::assume(i < n); return i; } #[cfg(not(kani))] { kani::below(n) } }

mod bits {
    use super::*;
    #[kani::proof] fn get() {
        let w: [u64; W] = kani::any();
        let i = pos(N);
        kani::cover!(i == N - 1);
        assert!(arr(w).get_bit(i) == bit(&w, i));
    }
    #[kani::proof] fn set() {
        let w: [u64; W] = kani::any();
        let (i, j, v) = (pos(N), pos(W), kani::any::<bool>());
        kani::cover!(i == N - 1 && v);
        let mut a = arr(w);
        a.set_bit(i, v);
        let r = words(a);
        assert!(bit(&r, i) == v && a.get_bit(i) == v);
        // frame: every word, except the bit itself, is unchanged
        let m = if j == i >> 6 { 1u64 << (i & 63) } else { 0 };
        assert!((r[j] ^ w[j]) & !m == 0);
    }
    #[kani::proof] fn flip() {
        let w: [u64; W] = kani::any();
        let (i, j) = (pos(N), pos(W));
        kani::cover!(i == N - 1);
        let mut a = arr(w);
        a.flip_bit(i);
        let r = words(a);
        assert!(bit(&r, i) != bit(&w, i));
        let m = if j == i >> 6 { 1u64 << (i & 63) } else { 0 };
        assert!((r[j] ^ w[j]) & !m == 0);
    }
    #[kani::proof] fn out_of_range_is_refused() {
        // an index beyond the array must not be answered: exercised natively only (a panic)
        kani::cover!(true);
        assert!(IrisCodeArray::IRIS_CODE_SIZE_BYTES == 1600 && IrisCodeArray::IRIS_CODE_SIZE_U64 == W);
    }
}
mod words {
    use super::*;
    #[kani::proof] #[kani::unwind(201)] fn and() {
        let (v, w): ([u64; W], [u64; W]) = (kani::any(), kani::any());
        let j = pos(W);
        kani::cover!(j == W - 1);
        let (a, b) = (arr(v), arr(w));
        assert!(super::words(a & b)[j] == v[j] & w[j]);
        let mut c = a; c &= b;
        assert!(super::words(c)[j] == v[j] & w[j]);
    }
    #[kani::proof] #[kani::unwind(201)] fn xor() {
        let (v, w): ([u64; W], [u64; W]) = (kani::any(), kani::any());
        let j = pos(W);
        kani::cover!(j == W - 1);
        let (a, b) = (arr(v), arr(w));
        assert!(super::words(a ^ b)[j] == v[j] ^ w[j]);
        let mut c = a; c ^= b;
        assert!(super::words(c)[j] == v[j] ^ w[j]);
    }
    #[kani::proof] fn constants() {
        let j = pos(W);
        kani::cover!(j == 0);
        assert!(super::words(IrisCodeArray::ZERO)[j] == 0 && super::words(IrisCodeArray::ONES)[j] == u64::MAX && super::words(IrisCodeArray::default())[j] == 0);
        let c = IrisCode::default();
        assert!(super::words(c.code)[j] == 0 && super::words(c.mask)[j] == u64::MAX);
    }
    #[kani::proof] fn raw_views() {
        let w: [u64; W] = kani::any();
        let j = pos(8 * W);
        kani::cover!(j == 8 * W - 1);
        let mut a = arr(w);
        assert!(a.as_raw_slice().len() == 8 * W && a.as_raw_slice()[j] == (w[j >> 3] >> (8 * (j & 7))) as u8);
        let x: u8 = kani::any();
        a.as_raw_mut_slice()[j] = x;
        let k = pos(8 * W);
        assert!(a.as_raw_slice()[k] == if k == j { x } else { (w[k >> 3] >> (8 * (k & 7))) as u8 });
    }
    /// a word's population count is the number of set positions
    #[kani::proof] #[kani::unwind(65)] fn count_word() {
        let w: u64 = kani::any();
        let mut n = 0u32;
        for j in 0..64 { n += (w >> j & 1) as u32; }
        kani::cover!(n == 64);
        assert!(w.count_ones() == n);
    }
}
