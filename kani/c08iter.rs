// C08: the bit iterator.  Invariant of its state: index <= N, and inside a word `current` holds the
// remaining bits of that word.  `bits` establishes it with index 0, `next` preserves it, returns the bit
// at index and advances by one, or returns None exactly at the end: so by induction the iterator yields
// bit 0..N-1 in order, once each, from every state, without a bound.
// MODULES: iter
use plain_reference::{vp_hooks::*, IrisCodeArray};
const N: usize = 12800;
const W: usize = 200;
fn arr(w: [u64; W]) -> IrisCodeArray { unsafe { std::mem::transmute::<[u64; W], IrisCodeArray>(w) } }
fn words(a: IrisCodeArray) -> [u64; W] { unsafe { std::mem::transmute::<IrisCodeArray, [u64; W]>(a) } }
mod iter {
    use super::*;
    fn inv(w: &[u64; W], current: u64, index: usize) -> bool { index <= N && (index & 63 == 0 || current == w[index >> 6] >> (index & 63)) }
    #[kani::proof] fn start() {
        let w: [u64; W] = kani::any();
        let a = arr(w);
        let it = a.bits();
        let (_, cur, idx) = iter_view(&it);
        kani::cover!(true);
        assert!(idx == 0 && inv(&w, cur, idx));
    }
    #[kani::proof] fn step() {
        let w: [u64; W] = kani::any();
        let (cur, idx): (u64, usize) = (kani::any(), kani::any());
        kani::assume(inv(&w, cur, idx));
        kani::cover!(idx == N); kani::cover!(idx == N - 1); kani::cover!(idx == 64);
        let a = arr(w);
        let mut it = iter_state(&a, cur, idx);
        assert!(it.len() == N - idx && it.size_hint() == (N - idx, Some(N - idx)));
        let r = it.next();
        let (c2, cur2, idx2) = iter_view(&it);
        let j: usize = kani::any(); kani::assume(j < W);
        assert!(words(c2)[j] == w[j]);
        if idx < N {
            assert!(r == Some(w[idx >> 6] >> (idx & 63) & 1 == 1) && idx2 == idx + 1);
        } else {
            assert!(r.is_none() && idx2 == idx);
        }
        assert!(inv(&w, cur2, idx2));
    }
}
