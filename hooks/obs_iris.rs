// C07: the matcher against the plaintext decision.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::obs_arith::*;
use super::sym::{self, *};
use crate::error::Error;
use crate::iris::protocol::IrisProtocol;
use crate::traits::mpc_trait::{MpcTrait, Plain};
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::{One, Zero};
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

pub const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
/// the specification, written without the code under test: 70 % of the positions must be usable,
/// and the distance must be below 34 % of the usable positions, rounded down
pub const MIN_ONES: usize = N * 70 / 100;
pub fn thr(ones: usize) -> usize { ones * 34 / 100 }

pub type IP<E> = IrisProtocol<<E as Eng>::T, <E as Eng>::A, <E as Eng>::B, <E as Eng>::M>;
pub fn wrap<E: Eng>(es: Vec<E::M>) -> Result<Vec<IP<E>>, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    es.into_iter().map(|m| IrisProtocol::new(m).map_err(|e| format!("the matcher refuses the ring: {:?}", e))).collect()
}
/// exactly k different positions out of `from`
fn choose(from: &[usize], k: usize) -> Vec<usize> {
    let mut v = from.to_vec();
    for i in 0..k { let j = i + (rnd() as usize) % (v.len() - i); v.swap(i, j); }
    v.truncate(k);
    v
}
/// b such that (a, b) have exactly `ones` jointly usable positions and distance `dist`
pub fn partner(a: &IrisCode, ones: usize, dist: usize) -> IrisCode {
    let mut b = IrisCode { code: a.code, mask: IrisCodeArray::default() };
    let usable: Vec<usize> = (0..N).filter(|i| a.mask.get_bit(*i)).collect();
    let u = choose(&usable, ones);
    for i in &u { b.mask.set_bit(*i, true); }
    let jointly: std::collections::HashSet<usize> = u.iter().cloned().collect();
    for i in choose(&u, dist) { b.code.flip_bit(i); }
    // positions that are not usable differ at random
    for i in 0..N { if !jointly.contains(&i) {
        if rnd() % 2 == 0 { b.code.flip_bit(i); }
        if !a.mask.get_bit(i) && rnd() % 2 == 0 { b.mask.set_bit(i, true); }
    } }
    b
}
pub fn iris(ones: usize) -> IrisCode {
    let mut rng = ChaCha12Rng::seed_from_u64(rnd());
    let mut c = IrisCode { code: IrisCodeArray::random_rng(&mut rng), mask: IrisCodeArray::default() };
    for i in choose(&(0..N).collect::<Vec<_>>(), ones) { c.mask.set_bit(i, true); }
    c
}
/// the code of an iris, dealt with the engine's own dealer
pub fn deal<E: Eng>(key: V0<E>, c: &IrisCodeArray) -> Vec<[E::A; 3]> {
    let mut rng = ChaCha12Rng::seed_from_u64(rnd());
    (0..N).map(|i| {
        let b = c.get_bit(i);
        let x = if b { <E::T as Val>::lit(1) } else { <E::T as Val>::lit(0) };
        E::M::share(x, key, &mut rng).try_into().ok().unwrap()
    }).collect()
}
pub type V0<E> = <<E as Eng>::T as Sharable>::VerificationShare;
/// independent plaintext decision
pub fn plain(a: &IrisCode, b: &IrisCode) -> Option<bool> {
    let (mut ones, mut d) = (0, 0);
    let bit = |x: &IrisCodeArray, i: usize| (x.as_raw_slice()[i / 8] >> (i % 8)) & 1 == 1;
    for i in 0..N { if bit(&a.mask, i) && bit(&b.mask, i) { ones += 1; if bit(&a.code, i) != bit(&b.code, i) { d += 1; } } }
    if ones < MIN_ONES { None } else { Some(d < thr(ones)) }
}
fn agree_plain(a: &IrisCode, b: &IrisCode) -> Result<Option<bool>, String> {
    let w = plain(a, b);
    let got = catch(|| a.is_close(b)).ok();
    if got != w { return Err(format!("plaintext matcher: is_close gives {:?}, definition gives {:?}", got, w)); }
    Ok(w)
}
fn reported<R>(r: Result<[Result<R, Error>; 3], String>, what: &str) -> Result<(), String> {
    match r {
        Err(e) => Err(format!("{}: {}", what, e)),
        Ok(v) => { for (i, x) in v.iter().enumerate() { if x.is_ok() { return Err(format!("{}: party {} reports no error", what, i)); } } Ok(()) }
    }
}

/// masked Hamming distance: sum over the mask of a + b - 2ab, for all codes (and all ring values)
pub fn c07_hd<E: Eng>(kinds: &'static str) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let mut ps3 = wrap::<E>(es)?;
    let nb = kinds.len();
    let mk = |n: &str| -> (Vec<[E::A; 3]>, Vec<Sh<E::T>>) { (0..N).map(|k| E::A::fresh(&ctx, &format!("{}{}", n, k))).unzip() };
    let (a, av) = mk("a");
    let b: Vec<_> = (0..nb).map(|k| mk(&format!("b{}_", k))).collect();
    let masks: Vec<IrisCodeArray> = kinds.chars().map(mask_kind).collect();
    let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&a, i), b.iter().map(|x| mkvec(&x.0, i)).collect())).collect();
    let r = all_ok(vp_run3!(&hub, ps3, |i, p| p.masked_hamming_distance_many(&ins[i].0, &ins[i].1, masks.clone())))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 { ps.push(eqn("number of distances", r[p].len() as u128, nb as u128)); }
    if r.iter().all(|x| x.len() == nb) {
        for k in 0..nb {
            let mut w = Sh::<E::T>::zero();
            for j in 0..N { if masks[k].get_bit(j) {
                let ab = av[j].clone() * &b[k].1[j];
                w = w + &av[j] + &b[k].1[j] - &ab - &ab;
            } }
            let (v, q) = E::A::view(&ctx, &format!("distance {}", k), &[0, 1, 2].map(|p| r[p][k].clone()));
            app(&mut ps, q);
            ps.push(peq::<E::T>(&format!("distance {}", k), &v, &w));
        }
    }
    decide(&ps)
}
/// the threshold is subtracted from the distance, for every count of usable positions and every distance
#[cfg(vp_layer_b)]
pub fn c07_diff<E: Eng>() -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (_hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let ps3 = wrap::<E>(es)?;
    let (h, hv) = E::A::fresh(&ctx, "hwd");
    let mut ps = vec![];
    let step = if E::KIND == Kind::Aby { 1 } else { 7 };
    for ones in (0..=N).rev().step_by(step) {
        let d = [0, 1, 2].map(|i| crate::iris::protocol::vp_hooks::cmp_diff(&ps3[i], cl(&h, i), ones));
        let (v, q) = E::A::view(&ctx, &format!("difference to the threshold, {} usable", ones), &d);
        app(&mut ps, q);
        ps.push(peq::<E::T>(&format!("difference to the threshold, {} usable", ones), &v, &(hv.clone() - &<E::T as Val>::lit(thr(ones) as u64).to_sharetype())));
    }
    decide(&ps)
}
/// plain arithmetic: the sign of the difference is the decision (every distance, every threshold)
pub fn c07_sign(k: u32) -> Result<Out, String> {
    let m = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
    for t in 0..=thr(N) as u64 { for d in 0..=N as u64 {
        if (d.wrapping_sub(t) & m) >> (k - 1) != (d < t) as u64 { return Err(format!("sign of {} - {} in {} bits", d, t, k)); }
    } }
    Ok(Out { vcs: 1, ground: 1, evals: (thr(N) + 1) * (N + 1), ..Default::default() })
}
/// the matcher over the plain engine: every count of usable positions in the slice, every distance
pub fn c07_compare_plain(lo: usize, hi: usize, every: usize) -> Result<Out, String> {
    let mut p = IrisProtocol::<u16, u16, Bit, Plain>::new(Plain::default()).map_err(|e| format!("{:?}", e))?;
    let mut o = Out::default();
    for ones in (lo..hi).step_by(every) {
        let ds: Vec<u16> = (0..=ones as u16).collect();
        let r = block(p.compare_threshold_many(ds.clone(), vec![ones; ds.len()]))?.map_err(|e| format!("{:?}", e))?;
        if r.len() != ds.len() { return Err("wrong number of results".into()); }
        for (d, b) in ds.iter().zip(&r) {
            if b.convert() != ((*d as usize) < thr(ones)) { return Err(format!("distance {} of {} usable positions: got {}, required {}", d, ones, b.convert(), (*d as usize) < thr(ones))); }
        }
        o.evals += ds.len(); o.vcs += 1; o.ground += 1;
    }
    Ok(o)
}
/// the same through an engine, around the threshold
pub fn c07_compare<E: Eng>(counts: usize) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let mut ps3 = wrap::<E>(es)?;
    let mut cases = vec![];
    let mut ones: Vec<usize> = vec![MIN_ONES, MIN_ONES + 1, N, N - 1, 10_000, 12_345];
    for _ in 0..counts { ones.push(MIN_ONES + rnd() as usize % (N - MIN_ONES + 1)); }
    for n in ones { let t = thr(n); for d in [0, 1, t - 2, t - 1, t, t + 1, t + 2, n - 1, n, rnd() as usize % (n + 1)] { cases.push((d, n)); } }
    let mut x = vec![];
    for (d, _) in &cases {
        let (z, zv) = E::A::fresh(&ctx, "z");
        // shift a random sharing to the wanted value
        let delta = E::T::from_sharetype(<E::T as Val>::lit(*d as u64).to_sharetype() - &zv);
        x.push([0, 1, 2].map(|i| ps3[i].get_mpc_ref().add_const(cl(&z, i), delta)));
    }
    let lens: Vec<usize> = cases.iter().map(|c| c.1).collect();
    let r = all_ok(vp_run3!(&hub, ps3, |i, p| p.compare_threshold_many(x.iter().map(|s| s[i].clone()).collect(), lens.clone())))?;
    let mut ps = vec![clean(&hub)];
    for (k, (d, n)) in cases.iter().enumerate() {
        let s = [r[0].get_at(k), r[1].get_at(k), r[2].get_at(k)];
        let (v, q) = super::obs_msb::bit_of::<E>("decision", &s);
        app(&mut ps, q);
        ps.push(bitpair(format!("distance {} of {} usable positions is below the threshold", d, n), v, *d < thr(*n)));
    }
    let mut o = decide(&ps)?;
    o.evals = cases.len();
    Ok(o)
}
/// real codes through compare_iris_many and opening, against the plaintext decision
pub fn c07_codes<E: Eng>(cases: Vec<(usize, usize, isize)>) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (hub, es) = setup::<E>()?;
    let key = E::dealer_key(&es);
    let mut ps3 = wrap::<E>(es)?;
    let mut o = Out::default();
    let a = iris(cases[0].0);
    let sa = deal::<E>(key, &a.code);
    let bs: Vec<IrisCode> = cases.iter().map(|(_, n, off)| partner(&a, *n, (thr(*n) as isize + off).clamp(0, *n as isize) as usize)).collect();
    let sb: Vec<Vec<[E::A; 3]>> = bs.iter().map(|b| deal::<E>(key, &b.code)).collect();
    let want: Vec<Option<bool>> = bs.iter().map(|b| agree_plain(&a, b)).collect::<Result<_, _>>()?;
    let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&sa, i), sb.iter().map(|x| mkvec(x, i)).collect())).collect();
    let masks: Vec<IrisCodeArray> = bs.iter().map(|b| b.mask).collect();
    let r = vp_run3!(&hub, ps3, |i, p| p.compare_iris_many(&ins[i].0, &ins[i].1, &a.mask, &masks));
    if want.iter().any(|w| w.is_none()) { reported(r, "too few jointly usable positions")?; o.evals += 1; o.vcs += 1; o.ground += 1; return Ok(o); }
    let r = all_ok(r)?;
    let got = all_ok(vp_run3!(&hub, ps3, |i, p| p.get_mpc_mut().open_bit_many(r[i].clone())))?;
    for p in 0..3 {
        if got[p].len() != want.len() { return Err("wrong number of decisions".into()); }
        for k in 0..want.len() {
            o.vcs += 1; o.ground += 1;
            if Some(got[p][k]) != want[k] { return Err(format!("code {} ({} usable, distance threshold{:+}): secure decision {}, plaintext decision {:?}", k, cases[k].1, cases[k].2, got[p][k], want[k])); }
        }
    }
    o.evals += want.len();
    Ok(o)
}
/// a query against a database whose entry `hit` (if any) matches, all others not
pub fn c07_db<E: Eng>(n: usize, hit: Option<usize>, chunk: usize) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (hub, es) = setup::<E>()?;
    let key = E::dealer_key(&es);
    let mut ps3 = wrap::<E>(es)?;
    let a = iris(12_000);
    let (near, far) = (partner(&a, 11_000, thr(11_000) - 1), partner(&a, 10_999, thr(10_999)));
    let (sn, sf) = (deal::<E>(key, &near.code), deal::<E>(key, &far.code));
    let sa = deal::<E>(key, &a.code);
    if agree_plain(&a, &near)? != Some(true) || agree_plain(&a, &far)? != Some(false) { return Err("plaintext decision".into()); }
    let (masks, sb): (Vec<IrisCodeArray>, Vec<&Vec<[E::A; 3]>>) = (0..n).map(|k| if Some(k) == hit { (near.mask, &sn) } else { (far.mask, &sf) }).unzip();
    let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&sa, i), sb.iter().map(|x| mkvec(x, i)).collect())).collect();
    let r = all_ok(vp_run3!(&hub, ps3, |i, p| p.iris_in_db(&ins[i].0, &ins[i].1, &a.mask, &masks, chunk)))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 { ps.push(bitpair(format!("database of {} in chunks of {}, match at {:?}: answer at party {}", n, chunk, hit, p), r[p], hit.is_some())); }
    let mut o = decide(&ps)?;
    o.evals = 1;
    Ok(o)
}
/// one entry with too few usable positions makes the query fail at every party
pub fn c07_db_err<E: Eng>(n: usize, bad: usize, chunk: usize) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    let (hub, es) = setup::<E>()?;
    let key = E::dealer_key(&es);
    let mut ps3 = wrap::<E>(es)?;
    let a = iris(12_000);
    let far = partner(&a, 10_999, 8000);
    let few = partner(&a, MIN_ONES - 1, 1);
    if agree_plain(&a, &few)?.is_some() { return Err("plaintext decision".into()); }
    let sa = deal::<E>(key, &a.code);
    let sf = deal::<E>(key, &far.code);
    let masks: Vec<IrisCodeArray> = (0..n).map(|k| if k == bad { few.mask } else { far.mask }).collect();
    let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&sa, i), (0..n).map(|_| mkvec(&sf, i)).collect())).collect();
    reported(vp_run3!(&hub, ps3, |i, p| p.iris_in_db(&ins[i].0, &ins[i].1, &a.mask, &masks, chunk)), "an entry with too few jointly usable positions")?;
    Ok(Out { vcs: 3, ground: 3, evals: 1, ..Default::default() })
}
pub fn c07_masks() -> Result<Out, String> {
    let p = IrisProtocol::<u16, u16, Bit, Plain>::new(Plain::default()).map_err(|e| format!("{:?}", e))?;
    let mut o = Out::default();
    for n in [0, 1, MIN_ONES - 2, MIN_ONES - 1, MIN_ONES, MIN_ONES + 1, 10_000, N - 1, N] {
        for extra in [0usize, 1] {
            let a = iris((n + (N - n) * extra / 2).min(N));
            let b = partner(&a, n, 0);
            match p.combine_masks(&a.mask, &b.mask) {
                Ok(m) => {
                    if n < MIN_ONES { return Err(format!("{} jointly usable positions are accepted", n)); }
                    for i in 0..N { if m.get_bit(i) != (a.mask.get_bit(i) && b.mask.get_bit(i)) { return Err(format!("combined mask, position {}", i)); } }
                }
                Err(e) => if n >= MIN_ONES { return Err(format!("{} jointly usable positions are refused: {:?}", n, e)); },
            }
            o.evals += 1; o.vcs += 1; o.ground += 1;
        }
    }
    Ok(o)
}
pub fn c07_rings() -> Result<Out, String> {
    let mut o = Out::default();
    macro_rules! r { ($($t:ident $ok:expr),*) => { $( {
        let ok = IrisProtocol::<$t, $t, Bit, Plain>::new(Plain::default()).is_ok();
        o.vcs += 1; o.ground += 1;
        if ok != $ok { return Err(format!("matcher over {}: accepted = {}", stringify!($t), ok)); }
    } )* } }
    r!(u8 false, i8 false, u16 true, i16 true, u32 true, i32 true, u64 true, u128 true);
    if plain_reference::MASK_THRESHOLD != MIN_ONES { return Err("mask threshold".into()); }
    Ok(o)
}
#[cfg(vp_c07)]
pub fn collect_c07(obs: &mut Obs) {
    let th = obs.thorough;
    macro_rules! each { ($k:expr, $($t:ty),*) => { $( for ks in ["hl", "f", "z"] {
        obs.add("C07", format!("{}: masked Hamming distances, masks '{}'", <$t as Eng>::ename(), ks), $k, "all codes (all ring values), masks: z empty, f full, h half, l last position only", move || c07_hd::<$t>(ks));
    } )* } }
    each!("proved", EAby<S16>, EMal<S16>, ESwift<S16>, ESpdz<S16>, EAby<S32>);
    each!("bounded", EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
    #[cfg(vp_layer_b)]
    {
        macro_rules! d { ($($t:ty),*) => { $( obs.add("C07", format!("{}: difference to the threshold", <$t as Eng>::ename()), "proved", "all distances; every count of usable positions (every 7th for the engines other than Aby3)", c07_diff::<$t>); )* } }
        d!(EAby<S16>, EMal<S16>, ESwift<S16>, ESpdz<S16>, EAby<S32>);
    }
    for k in [15u32, 16, 32, 64] { obs.add("C07", format!("sign of the difference is the decision, {} bits", k), "exhaustive", "every distance 0..12800 and every threshold 0..4352", move || c07_sign(k)); }
    for j in 0..16usize {
        let (lo, hi) = (MIN_ONES + j * 241, (MIN_ONES + (j + 1) * 241).min(N + 1));
        let ev = if th { 1 } else { 16 };
        obs.add("C07", format!("comparison over the plain engine, {}..{} usable positions", lo, hi), if th { "exhaustive" } else { "bounded" }, "every distance, every 16th count of usable positions (thorough: every count)", move || c07_compare_plain(lo, hi, ev));
    }
    macro_rules! cmp { ($($t:ty),*) => { $( obs.add("C07", format!("{}: decisions around the threshold", <$t as Eng>::ename()), "bounded", "boundary distances for boundary and random counts of usable positions", move || c07_compare::<$t>(if th { 300 } else { 20 })); )* } }
    cmp!(EAby<u16>, EAby<u32>, EAby<u64>, EAby<i16>, EMal<u16>, EMal<i16>, EMal<u64>, ESwift<u16>, ESwift<u32>, ESwift<i16>, ESpdz<u16>, ESpdz<u32>, ESpdz<u64>, ESpdz<i16>);
    obs.add("C07", "combined masks", "bounded", "mask weights around the minimum", c07_masks);
    obs.add("C07", "accepted rings and thresholds", "exhaustive", "all ring types", c07_rings);
    let sets: [Vec<(usize, usize, isize)>; 4] = [
        vec![(N, MIN_ONES, -1), (N, MIN_ONES, 0), (N, N, 0), (N, N, -1), (N, 10_007, 1)],
        vec![(11_000, 10_950, -1), (11_000, 10_950, 0), (11_000, 11_000, -20_000), (11_000, 9_000, 20_000)],
        vec![(N, MIN_ONES - 1, -1)],
        vec![(N, 12_000, 0), (N, MIN_ONES - 1, 0), (N, 12_000, -1)],
    ];
    macro_rules! codes { ($($t:ty),*) => { $( for (j, s) in sets.iter().enumerate() {
        let s = s.clone();
        obs.add("C07", format!("{}: real codes, set {}", <$t as Eng>::ename(), j), "bounded", "codes at, below and above the threshold, masks at and below the minimum", move || c07_codes::<$t>(s));
    } )* } }
    codes!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
    macro_rules! db { ($f:expr, $($t:ty),*) => { $( for (n, hit, c) in $f {
        obs.add("C07", format!("{}: database of {} in chunks of {}, match at {:?}", <$t as Eng>::ename(), n, c, hit), "bounded", "one near entry at the stated place", move || c07_db::<$t>(n, hit, c));
    }
    obs.add("C07", format!("{}: database with an entry that has too few usable positions", <$t as Eng>::ename()), "bounded", "first and last entry of two chunks", || { let mut o = c07_db_err::<$t>(3, 2, 2)?; o.add(c07_db_err::<$t>(3, 0, 2)?); Ok(o) });
    )* } }
    let f = [(1usize, Some(0usize), 1usize), (1, None, 4), (3, Some(2), 2), (3, Some(0), 1), (3, None, 2), (5, Some(4), 2), (5, Some(1), 128), (5, None, 3), (130, Some(129), 128), (130, None, 129)];
    db!(f, EAby<u16>, EMal<u16>);
    let f = [(1usize, Some(0usize), 1usize), (1, None, 4), (3, Some(2), 2), (3, Some(0), 1), (3, None, 2), (5, Some(4), 2), (5, Some(1), 128), (5, None, 3)];
    db!(f, ESpdz<u16>);
    // the verification of the Swift3 dot products takes minutes per database entry
    if th { db!([(1usize, Some(0usize), 1usize), (3, None, 2)], ESwift<u16>); }
}
