// C08: count_ones is the sum of the population counts of the words, all arrays (minutes: thorough tier).
// MODULES: words
use plain_reference::IrisCodeArray;
const W: usize = 200;
mod words {
    use super::*;
    #[kani::proof] #[kani::unwind(202)] fn count() {
        let w: [u64; W] = kani::any();
        let mut n = 0usize;
        for j in 0..W { n += w[j].count_ones() as usize; }
        kani::cover!(n == 0);
        assert!(unsafe { std::mem::transmute::<[u64; W], IrisCodeArray>(w) }.count_ones() == n);
    }
}
