// C05, C06: most significant bit and OR-reduction.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::obs_arith::*;
use super::sym::{self, *};
use crate::error::Error;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::MpcTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::{One, Zero};

pub fn bit_of<E: Eng>(label: &str, s: &[E::B; 3]) -> (bool, Vec<Pair>) {
    let (v, p) = E::B::bview(label, s);
    (v.convert().convert(), p)
}
fn msb_val<T: Val>(v: &Sh<T>) -> bool { v.get_msb().convert().convert() }

/// get_msb_many on the given sharings (component values), one batch
pub fn msb_batch<E: Eng>(hub: &Hub, es: &mut Vec<E::M>, comps: &[[u128; 3]]) -> Result<(), String> {
    let ctx = E::ctx(es);
    let n = comps.len();
    let f: Vec<([E::A; 3], Sh<E::T>)> = comps.iter().map(|c| { force(c); let r = E::A::fresh(&ctx, "x"); force(&[]); r }).collect();
    let r = all_ok(vp_run3!(hub, es, |i, e| e.get_msb_many(f.iter().map(|a| a.0[i].clone()).collect())))?;
    for p in 0..3 { if r[p].len() != n { return Err(format!("batch of {}: party {} gets {} results", n, p, r[p].len())); } }
    for k in 0..n {
        let s = [r[0].get_at(k), r[1].get_at(k), r[2].get_at(k)];
        let (v, ps) = E::B::bview("msb", &s);
        let v: bool = v.convert().convert();
        let w = msb_val::<E::T>(&f[k].1);
        if v != w { return Err(format!("batch of {}, position {}: most significant bit of {:?} shared as {:x?}: got {}, required {}", n, k, f[k].1, comps[k], v, w)); }
        for p in ps { if let PairV::Conc(a, b) = p.v { if a != b { return Err(format!("batch of {}, position {}: {}", n, k, p.label)); } } }
    }
    if hub.leftover() != 0 { return Err("messages are left unread".into()); }
    Ok(())
}
pub fn msb_many<E: Eng>(sizes: &[usize], reps: usize) -> Result<Out, String> {
    let mut o = Out::default();
    for &n in sizes {
        for _ in 0..reps {
            let (hub, mut es) = setup::<E>()?;
            let c: Vec<[u128; 3]> = (0..n).map(|_| [rnd128(), rnd128(), rnd128()]).collect();
            msb_batch::<E>(&hub, &mut es, &c)?;
            o.evals += n.max(1);
            o.vcs += n.max(1);
            o.ground += n.max(1);
        }
    }
    Ok(o)
}
/// carry patterns: sums next to 0, the sign boundary and the wrap-around, with long carry chains
pub fn msb_edges<E: Eng>() -> Result<Out, String> {
    let mut o = Out::default();
    let k = <Sh<E::T> as RingImpl>::K as u32;
    let m = if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
    let top = 1u128 << (k - 1);
    let targets = [0, 1, 2, top - 2, top - 1, top, top + 1, top + 2, m - 1, m, m / 3, (m / 3) * 2];
    let mut c = vec![];
    for t in targets {
        for a in [0u128, 1, m, top, top - 1, m / 3, rnd128() & m, 1 << (k / 2), (1 << (k / 2)) - 1] {
            for b in [0u128, 1, m, top, top - 1, m / 5, rnd128() & m] {
                c.push([a, b, t.wrapping_sub(a).wrapping_sub(b) & m]);
            }
        }
    }
    let (hub, mut es) = setup::<E>()?;
    msb_batch::<E>(&hub, &mut es, &c)?;
    o.evals += c.len(); o.vcs += c.len(); o.ground += c.len();
    // the single form
    let ctx = E::ctx(&es);
    for q in c.iter().step_by(7) {
        force(q);
        let (x, v) = E::A::fresh(&ctx, "x");
        force(&[]);
        let r = all_ok(vp_run3!(&hub, es, |i, e| e.get_msb(cl(&x, i))))?;
        let (b, ps) = bit_of::<E>("msb", &r);
        let mut ps = ps;
        ps.push(bitpair(format!("get_msb of {:?} shared as {:x?}", v, q), b, msb_val::<E::T>(&v)));
        ps.push(clean(&hub));
        let mut d = decide(&ps)?;
        d.evals = 1;
        o.add(d);
    }
    Ok(o)
}
/// every three-way splitting of every 8-bit value whose first component lies in [lo, hi)
pub fn msb_exhaustive8<E: Eng>(lo: u128, hi: u128, step: u128) -> Result<Out, String> {
    let mut o = Out::default();
    let (hub, mut es) = setup::<E>()?;
    let mut a = lo;
    while a < hi {
        for half in 0..4u128 {
            let mut c = Vec::with_capacity(1 << 14);
            for b in half * 64..(half + 1) * 64 { for d in 0..256u128 { c.push([a, b, d]); } }
            msb_batch::<E>(&hub, &mut es, &c)?;
            o.evals += c.len(); o.vcs += c.len(); o.ground += c.len();
        }
        a += step;
    }
    Ok(o)
}

// ---------------------------------------------------------------- C06
pub fn or_pattern<E: Eng>(hub: &Hub, es: &mut Vec<E::M>, bits: &[bool], chunk: usize) -> Result<(), String> {
    let sh: Vec<[E::B; 3]> = bits.iter().map(|b| E::B::bshare(Bit::new(*b).to_sharetype())).collect();
    let r = all_ok(vp_run3!(hub, es, |i, e| e.reduce_binary_or(mkvec(&sh, i), chunk)))?;
    let (v, ps) = bit_of::<E>("or", &r);
    let w = bits.iter().any(|b| *b);
    let at: Vec<usize> = bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i).take(12).collect();
    if v != w { return Err(format!("OR of {} bits, set positions {:?}, chunk size {}: got {}, required {}", bits.len(), at, chunk, v, w)); }
    decide(&ps).map_err(|e| format!("OR of {} bits, set positions {:?}, chunk size {}: {}", bits.len(), at, chunk, e))?;
    if hub.leftover() != 0 { return Err("messages are left unread".into()); }
    Ok(())
}
pub fn or_all_patterns<E: Eng>(nmax: usize, chunks: &[usize]) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let mut o = Out::default();
    for n in 1..=nmax {
        for pat in 0..1u32 << n {
            let bits: Vec<bool> = (0..n).map(|i| pat >> i & 1 == 1).collect();
            for &c in chunks { or_pattern::<E>(&hub, &mut es, &bits, c)?; o.evals += 1; o.vcs += 1; o.ground += 1; }
        }
    }
    Ok(o)
}
pub fn or_positions<E: Eng>(n: usize, chunk: usize, step: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let mut o = Out::default();
    let mut pos: Vec<usize> = (0..n).step_by(step).collect();
    for p in [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, n.saturating_sub(2), n - 1] { if p < n && !pos.contains(&p) { pos.push(p); } }
    let mut run = |b: Vec<bool>| -> Result<(), String> { o.evals += 1; o.vcs += 1; o.ground += 1; or_pattern::<E>(&hub, &mut es, &b, chunk) };
    run(vec![false; n])?;
    run(vec![true; n])?;
    for p in pos { let mut b = vec![false; n]; b[p] = true; run(b)?; }
    for _ in 0..4 { let b: Vec<bool> = (0..n).map(|_| rnd() % 3 == 0).collect(); run(b)?; }
    Ok(o)
}
#[cfg(vp_layer_b)]
/// the OR tree over the contract of or_many (real or_tree, ideal engine), every word value
pub fn or_tree_sym(n: usize, chunk: usize) -> Result<Out, String> {
    let x: Vec<S16> = (0..n).map(|k| <S16 as Val>::fresh(&format!("x{}", k))).collect();
    let mut w = x[0];
    for y in &x[1..] { w |= *y; }
    let r = block(crate::aby3::utils::or_tree::<S16, Ideal, S16>(&mut Ideal, x, chunk))?.map_err(|e| format!("{:?}", e))?;
    decide(&[S16::pair("or_tree".into(), r.to_sharetype(), w.to_sharetype())])
}
pub fn binary_or_bits<E: Eng>() -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let mut o = Out::default();
    for a in [false, true] { for b in [false, true] { for _ in 0..16 {
        let x = E::B::bshare(Bit::new(a).to_sharetype());
        let y = E::B::bshare(Bit::new(b).to_sharetype());
        let r = all_ok(vp_run3!(&hub, es, |i, e| e.binary_or(cl(&x, i), cl(&y, i))))?;
        let (v, mut ps) = bit_of::<E>("or", &r);
        ps.push(bitpair(format!("{} or {}", a, b), v, a || b));
        ps.push(clean(&hub));
        let mut d = decide(&ps)?; d.evals = 1;
        o.add(d);
    } } }
    Ok(o)
}

#[cfg(vp_c05)]
pub fn collect_c05(obs: &mut Obs) {
    let th = obs.thorough;
    macro_rules! each { ($($t:ty),*) => { $(
        obs.add("C05", format!("{}: get_msb_many around the packing width", <$t as Eng>::ename()), "bounded", "batch sizes 1,2,3,127,128,129,130,255,256,257,300 with boundary-biased sharings", move || msb_many::<$t>(&[1, 2, 3, 127, 128, 129, 130, 255, 256, 257, 300], if th { 40 } else { 2 }));
        obs.add("C05", format!("{}: values and splittings around the sign boundary, single and batched", <$t as Eng>::ename()), "bounded", "756 splittings of 12 boundary values", msb_edges::<$t>);
        obs.add("C05", format!("{}: get_msb_many of large batches", <$t as Eng>::ename()), "bounded", "batch sizes 512, 1000, 1025, 2049, 4097", move || msb_many::<$t>(&[512, 1000, 1025, 2049, 4097], 1));
    )* } }
    each!(EAby<u8>, EAby<u16>, EAby<u32>, EAby<u64>, EAby<i16>, EMal<u8>, EMal<u16>, EMal<u64>, EMal<i16>, ESwift<u8>, ESwift<u16>, ESwift<u32>, ESwift<u64>, ESpdz<u8>, ESpdz<u16>, ESpdz<u32>, ESpdz<u64>);
    for k in 0..16u128 {
        obs.add("C05", format!("Aby3<u8>: every splitting of every value, first component {}..{}", k * 16, k * 16 + 16), "exhaustive", "all 2^24 splittings of all 8-bit values (16 obligations)", move || msb_exhaustive8::<EAby<u8>>(k * 16, k * 16 + 16, 1));
        let st = if th { 1 } else { 16 };
        let (kd, sc) = if th { ("exhaustive", "all 2^24 splittings of all 8-bit values (16 obligations)") } else { ("bounded", "all 2^16 remaining splittings for one first component out of 16") };
        obs.add("C05", format!("MalAby3<u8>: every splitting, first component {}..{}", k * 16, k * 16 + 16), kd, sc, move || msb_exhaustive8::<EMal<u8>>(k * 16, k * 16 + 16, st));
        obs.add("C05", format!("SpdzWise<u8>: every splitting, first component {}..{}", k * 16, k * 16 + 16), kd, sc, move || msb_exhaustive8::<ESpdz<u8>>(k * 16, k * 16 + 16, st));
        obs.add("C05", format!("Swift3<u8>: every pair of masks and third mask, first mask {}..{}", k * 16, k * 16 + 16), "bounded", "2^16 masks per first mask, random masked value", move || msb_exhaustive8::<ESwift<u8>>(k * 16, k * 16 + 16, st));
    }
}
#[cfg(vp_c06)]
pub fn collect_c06(obs: &mut Obs) {
    let th = obs.thorough;
    macro_rules! each { ($($t:ty),*) => { $(
        let e = <$t as Eng>::ename();
        obs.add("C06", format!("{}: or of two bits", e), "exhaustive", "all pairs of bits, sampled splittings", binary_or_bits::<$t>);
        let nm = if th { 12 } else { 8 };
        obs.add("C06", format!("{}: every pattern of up to {} bits", e, nm), "bounded", "all bit patterns of length up to 8 (12 thorough), chunk sizes 1,2,3,128", move || or_all_patterns::<$t>(nm, &[1, 2, 3, 128]));
        for n in [9usize, 64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 384, 385, 513, 640, 1000] {
            for c in [1usize, 2, 3, 1000] {
                let step = if th { 1 } else { 17 };
                obs.add("C06", format!("{}: {} bits, chunk size {}", e, n, c), "bounded", "no bit, all bits, one bit at each of the boundary positions and every 17th position, random patterns", move || or_positions::<$t>(n, c, step));
            }
        }
    )* } }
    each!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
    macro_rules! large { ($($t:ty),*) => { $( for (n, c) in [(4096usize, 5usize), (8193, 7), (20000, 64), (50001, 1000)] { obs.add("C06", format!("{}: {} bits, chunk size {}", <$t as Eng>::ename(), n, c), "bounded", "no bit, all bits, one bit at boundary positions and every 4999th, random patterns", move || or_positions::<$t>(n, c, 4999)); } )* } }
    large!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
    #[cfg(vp_layer_b)]
    for n in 1..=(if th { 64usize } else { 24 }) {
        for c in [1usize, 2, 3, 5, 64] {
            obs.add("C06", format!("OR tree of {} words, chunk size {}", n, c), "proved", "all words, over the contract of or_many", move || or_tree_sym(n, c));
        }
    }
}
