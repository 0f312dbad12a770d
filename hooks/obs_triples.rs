// C16: triples.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::obs_arith::*;
use super::obs_iris::{iris, partner};
use super::sym;
use crate::aby3::share::Share as AShare;
use crate::error::Error;
use crate::iris::protocol::IrisProtocol;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::MpcTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::Zero;
use plain_reference::IrisCodeArray;
use rand::Rng;
use std::collections::HashSet;

/// registers of 128 AND gates every pool holds at least after a precomputation
pub const POOL: usize = 1 << 13;

// ------------------------------------------------ the matcher over a recording engine
#[derive(Clone, Copy, Default)]
pub struct U;
impl std::ops::Add for U { type Output = U; fn add(self, _: U) -> U { U } }
impl Zero for U { fn zero() -> U { U } fn is_zero(&self) -> bool { true } }
impl ShareTrait for U { type VecShare = UV; }
#[derive(Clone, Default)]
pub struct UV(usize);
impl VecShareTrait for UV {
    type Share = U;
    fn len(&self) -> usize { self.0 }
    fn filter_reduce_add_twice(_: &Self, _: &Self, _: &IrisCodeArray) -> Result<(U, U), Error> { Ok((U, U)) }
    fn xor_many(self, _: Self) -> Result<Self, Error> { Ok(self) }
    fn xor_assign_many(&mut self, _: Self) -> Result<Self, Error> { Ok(self.clone()) }
    fn shl_assign_many(&mut self, _: u32) -> Self { self.clone() }
    fn with_capacity(_: usize) -> Self { UV(0) }
    fn reserve(&mut self, _: usize) {}
    fn push(&mut self, _: U) { self.0 += 1; }
    fn extend(&mut self, o: Self) { self.0 += o.0; }
    fn split_at(&self, m: usize) -> (Self, Self) { (UV(m), UV(self.0 - m)) }
    fn chunks(self, c: usize) -> Vec<Self> { let mut v = vec![]; let mut n = self.0; while n > 0 { let k = n.min(c); v.push(UV(k)); n -= k; } v }
    fn get_at(&self, _: usize) -> U { U }
    fn set_at(&mut self, _: usize, _: U) {}
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev { Pre(usize), Msb(usize), Red(usize), Or(usize), Verify }
#[derive(Default)]
pub struct Rec { pub ev: Vec<Ev> }
impl MpcTrait<u16, U, U> for Rec {
    fn get_id(&self) -> usize { 0 }
    async fn preprocess(&mut self) -> Result<(), Error> { Ok(()) }
    async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> { self.ev.push(Ev::Pre(amount)); Ok(()) }
    fn set_mac_key(&mut self, _: U) {}
    fn set_new_mac_key(&mut self) {}
    async fn finish(self) -> Result<(), Error> { Ok(()) }
    fn print_connection_stats(&self, _: &mut impl std::io::Write) -> Result<(), Error> { Ok(()) }
    async fn input(&mut self, _: Option<u16>, _: usize) -> Result<U, Error> { Ok(U) }
    fn share<R: Rng>(_: u16, _: <u16 as Sharable>::VerificationShare, _: &mut R) -> Vec<U> { vec![U; 3] }
    async fn open(&mut self, _: U) -> Result<u16, Error> { Ok(0) }
    async fn open_many(&mut self, s: UV) -> Result<Vec<u16>, Error> { Ok(vec![0; s.0]) }
    async fn open_bit(&mut self, _: U) -> Result<bool, Error> { Ok(false) }
    async fn open_bit_many(&mut self, s: UV) -> Result<Vec<bool>, Error> { Ok(vec![false; s.0]) }
    fn add(&self, _: U, _: U) -> U { U }
    fn add_const(&self, _: U, _: u16) -> U { U }
    fn sub(&self, _: U, _: U) -> U { U }
    fn sub_const(&self, _: U, _: u16) -> U { U }
    async fn mul(&mut self, _: U, _: U) -> Result<U, Error> { Ok(U) }
    fn mul_const(&self, _: U, _: u16) -> U { U }
    async fn dot(&mut self, _: UV, _: UV) -> Result<U, Error> { Ok(U) }
    async fn dot_many(&mut self, a: &[UV], _: &[UV]) -> Result<Vec<U>, Error> { Ok(vec![U; a.len()]) }
    async fn masked_dot_many(&mut self, _: &UV, b: &[UV], _: &[IrisCodeArray]) -> Result<Vec<U>, Error> { Ok(vec![U; b.len()]) }
    async fn get_msb(&mut self, _: U) -> Result<U, Error> { self.ev.push(Ev::Msb(1)); Ok(U) }
    async fn get_msb_many(&mut self, a: Vec<U>) -> Result<UV, Error> { self.ev.push(Ev::Msb(a.len())); Ok(UV(a.len())) }
    async fn binary_or(&mut self, _: U, _: U) -> Result<U, Error> { self.ev.push(Ev::Or(1)); Ok(U) }
    async fn reduce_binary_or(&mut self, a: UV, _: usize) -> Result<U, Error> { self.ev.push(Ev::Red(a.0)); Ok(U) }
    async fn verify(&mut self) -> Result<(), Error> { self.ev.push(Ev::Verify); Ok(()) }
}
fn block_on<R>(f: impl std::future::Future<Output = R>) -> R {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; } }
}
/// what the real matcher asks of the engine for a database of n entries in chunks of c
pub fn record(n: usize, c: usize) -> Result<Vec<Ev>, String> {
    let mut p = IrisProtocol::<u16, U, U, Rec>::new(Rec::default()).map_err(|e| format!("{:?}", e))?;
    let db = vec![UV(IrisCodeArray::IRIS_CODE_SIZE); n];
    let m = vec![IrisCodeArray::ONES; n];
    block_on(p.iris_in_db(&UV(IrisCodeArray::IRIS_CODE_SIZE), &db, &IrisCodeArray::ONES, &m, c)).map_err(|e| format!("database of {} in chunks of {}: {:?}", n, c, e))?;
    Ok(std::mem::take(&mut p.get_mpc_mut().ev))
}

// ------------------------------------------------ what the engine consumes
type E16 = ESpdz<u16>;
fn bits16(n: usize, bit: impl Fn(usize) -> bool) -> Vec<[AShare<Bit>; 3]> {
    (0..n).map(|k| <AShare<Bit> as BRep<Bit>>::bshare(<Bit as Sharable>::to_sharetype(Bit::new(bit(k))))).collect()
}
#[cfg(vp_layer_b)]
fn used(e: &<E16 as Eng>::M) -> usize { crate::spdzwise::protocol::vp_hooks::buffer(e).len() }
#[cfg(vp_layer_b)]
pub fn use_msb(n: usize) -> Result<usize, String> {
    let (hub, mut es) = setup::<E16>()?;
    let ctx = E16::ctx(&es);
    let xs: Vec<_> = (0..n).map(|_| <<E16 as Eng>::A as ARep<u16>>::fresh(&ctx, "x").0).collect();
    all_ok(vp_run3!(&hub, es, |i, e| <_ as MpcTrait<u16, _, _>>::get_msb_many(e, xs.iter().map(|x| x[i].clone()).collect())))?;
    Ok(used(&es[0]))
}
#[cfg(vp_layer_b)]
pub fn use_red(n: usize, c: usize) -> Result<usize, String> {
    let (hub, mut es) = setup::<E16>()?;
    let xs = bits16(n, |_| false);
    all_ok(vp_run3!(&hub, es, |i, e| <_ as MpcTrait<u16, _, _>>::reduce_binary_or(e, mkvec(&xs, i), c)))?;
    Ok(used(&es[0]))
}
/// consumption of the real engine: (registers per started 128 comparisons, registers of an OR reduction beyond one per further 128)
#[cfg(vp_layer_b)]
pub fn consumption() -> Result<(usize, usize), String> {
    let g = use_msb(1)?;
    for n in [2, 63, 127, 128, 129, 200, 256, 257, 400] {
        let u = use_msb(n)?;
        if u != g * ((n + 127) / 128) { return Err(format!("VP-HARNESS: {} comparisons consume {} registers, not {} per started 128", n, u, g)); }
    }
    let h = use_red(1, 1)?;
    for (n, c) in [(1, 128), (2, 1), (127, 3), (128, 128), (129, 1), (129, 200), (256, 2), (257, 1), (600, 1), (600, 3), (600, 64), (1025, 2)] {
        let u = use_red(n, c)?;
        if u != h + (n + 127) / 128 - 1 { return Err(format!("VP-HARNESS: OR reduction of {} bits in chunks of {} consumes {} registers", n, c, u)); }
    }
    Ok((g, h))
}
/// the matcher's own precomputation suffices: simulation of the recorded calls against the engine's contracts
///   precompute(a): the pool holds at least max(ceil(a/128), 2^13) registers afterwards, and no less than before
///   verify: takes max(used, 2^13) registers from the pool if anything was used, and fails if there are fewer
#[cfg(vp_layer_b)]
pub fn c16_provision(cases: Vec<(usize, usize)>) -> Result<Out, String> {
    let (g, h) = consumption().map_err(|e| panic!("{}", e)).unwrap();
    let mut o = Out::default();
    for (n, c) in cases {
        let ev = record(n, c)?;
        for left in [0usize, 1, 100, 8191, 8192, 20_000] {
            let (mut pool, mut used, mut verified) = (left, 0, false);
            for e in &ev {
                match e {
                    Ev::Pre(a) => pool = pool.max((a + 127) / 128).max(POOL),
                    Ev::Msb(k) => used += g * ((k + 127) / 128),
                    Ev::Red(k) => used += h + (k + 127) / 128 - 1,
                    Ev::Or(_) => panic!("VP-HARNESS: single OR gates"),
                    Ev::Verify => {
                        verified = true;
                        if used > 0 {
                            let need = used.max(POOL);
                            if pool < need { return Err(format!("database of {} in chunks of {}, {} registers left over: the query uses {} registers of 128 triples, only {} are there", n, c, left, used, pool)); }
                            pool -= need;
                            used = 0;
                        }
                    }
                }
            }
            if !verified || used > 0 { return Err(format!("database of {} in chunks of {}: {} registers of AND gates are never verified", n, c, used)); }
            o.vcs += 1; o.ground += 1; o.evals += 1;
        }
    }
    Ok(o)
}
fn opened128(s: [&AShare<u128>; 3]) -> Result<u128, String> {
    let t = s.map(|x| x.clone());
    for i in 0..3 { if t[(i + 1) % 3].b != t[i].a { return Err(format!("replicated component of party {} differs", i)); } }
    Ok((t[0].a.clone() ^ &t[1].a ^ &t[2].a).0)
}
#[cfg(vp_layer_b)]
fn open_triples(ts: [crate::spdzwise::protocol::vp_hooks::Tr; 3]) -> Result<Vec<[u128; 3]>, String> {
    let n = ts[0].len();
    if ts[1].len() != n || ts[2].len() != n { return Err("pools of different sizes".into()); }
    let t = ts.map(|mut t| t.get_all());
    let mut r = vec![];
    for k in 0..n {
        let f = |w: usize| { let p = |i: usize| [&t[i].0, &t[i].1, &t[i].2][w]; opened128([&p(0)[k], &p(1)[k], &p(2)[k]]).map_err(|e| format!("register {}: {}", k, e)) };
        let (a, b, c) = (f(0)?, f(1)?, f(2)?);
        if a & b != c { return Err(format!("register {}: a = {:#x}, b = {:#x}, c = {:#x} is not a & b", k, a, b, c)); }
        r.push([a, b, c]);
    }
    Ok(r)
}
/// precomputed triples are correct and new, the pool has at least the stated size, and what a verification consumed is gone
#[cfg(vp_layer_b)]
pub fn c16_pool(amounts: Vec<(usize, usize)>) -> Result<Out, String> {
    use crate::spdzwise::protocol::vp_hooks as h;
    let (hub, mut es) = setup::<E16>()?;
    let mut seen: HashSet<[u128; 3]> = HashSet::new();
    let mut o = Out::default();
    for (amount, words) in amounts {
        let before = open_triples([0, 1, 2].map(|i| h::pool(&es[i])))?;
        all_ok(vp_run3!(&hub, es, |_i, e| <_ as MpcTrait<u16, _, _>>::precompute_and_triples(e, amount)))?;
        let after = open_triples([0, 1, 2].map(|i| h::pool(&es[i])))?;
        if after.len() < ((amount + 127) / 128).max(POOL).max(before.len()) { return Err(format!("{} triples asked for with {} registers left over: {} registers", amount, before.len(), after.len())); }
        let old: HashSet<[u128; 3]> = before.iter().cloned().collect();
        let mut cnt: HashSet<[u128; 3]> = HashSet::new();
        for t in &after {
            if !cnt.insert(*t) { return Err("a triple is twice in the pool".into()); }
            if !old.contains(t) && !seen.insert(*t) { return Err("a triple that was consumed before is in the pool again".into()); }
        }
        for t in &before { if !cnt.contains(t) { return Err("a left-over triple is gone without having been used".into()); } }
        if words > 0 {
            let (a, b): (Vec<_>, Vec<_>) = (0..words).map(|_| (<AShare<u128> as BRep<u128>>::bfresh("a").0, <AShare<u128> as BRep<u128>>::bfresh("b").0)).unzip();
            all_ok(vp_run3!(&hub, es, |i, e| <_ as BinaryMpcTrait<u128, AShare<u128>>>::and_many(e, &a.iter().map(|x| x[i].clone()).collect(), &b.iter().map(|x| x[i].clone()).collect())))?;
            verify::<E16>(&hub, &mut es).map_err(|e| format!("{} registers of AND gates after {} were precomputed: {}", words, (amount + 127) / 128, e))?;
            let rest = open_triples([0, 1, 2].map(|i| h::pool(&es[i])))?;
            if rest.len() + words > after.len() { return Err(format!("{} registers were verified with {} of {} triples", words, after.len() - rest.len(), after.len())); }
            for t in &rest { if !cnt.contains(t) { return Err("a new triple appears during verification".into()); } }
        }
        o.vcs += after.len() * 4; o.ground += after.len() * 4; o.evals += after.len();
    }
    Ok(o)
}
/// the gates that await verification are exactly the gates computed, whatever their widths
#[cfg(vp_layer_b)]
pub fn c16_packing(seq: Vec<(usize, usize)>) -> Result<Out, String> {
    use crate::spdzwise::protocol::vp_hooks as h;
    let (hub, mut es) = setup::<E16>()?;
    let (mut bits, mut hist) = (0usize, [0usize; 4]); // counts of (a, b) bit pairs
    let mut o = Out::default();
    for (w, n) in seq {
        macro_rules! g { ($t:ident) => { {
            let (a, b): (Vec<_>, Vec<_>) = (0..n).map(|_| (<AShare<$t> as BRep<$t>>::bfresh("a"), <AShare<$t> as BRep<$t>>::bfresh("b"))).unzip();
            for (x, y) in a.iter().zip(&b) {
                let (x, y) = (x.1.clone().upgrade_to_128().0, y.1.clone().upgrade_to_128().0);
                for i in 0..w { hist[((x >> i & 1) * 2 + (y >> i & 1)) as usize] += 1; }
                bits += w;
            }
            if n == 1 { all_ok(vp_run3!(&hub, es, |i, e| <_ as BinaryMpcTrait<$t, AShare<$t>>>::and(e, a[0].0[i].clone(), b[0].0[i].clone())))?; }
            else { all_ok(vp_run3!(&hub, es, |i, e| <_ as BinaryMpcTrait<$t, AShare<$t>>>::and_many(e, &a.iter().map(|x| x.0[i].clone()).collect(), &b.iter().map(|x| x.0[i].clone()).collect())))?; }
        } } }
        match w { 1 => g!(Bit), 8 => g!(u8), 16 => g!(u16), 32 => g!(u32), 64 => g!(u64), _ => g!(u128) }
        let buf = open_triples([0, 1, 2].map(|i| h::buffer(&es[i]))).map_err(|e| format!("gates of {} bits: {}", w, e))?;
        let mut got = [0usize; 4];
        for [a, b, _] in &buf { for i in 0..128 { got[((a >> i & 1) * 2 + (b >> i & 1)) as usize] += 1; } }
        let mut want = hist;
        if buf.len() * 128 < bits { return Err(format!("{} AND gates computed, {} registers await verification", bits, buf.len())); }
        want[0] += buf.len() * 128 - bits; // padding
        if got != want { return Err(format!("after a gate of {} bits: {} gates computed, operand pairs awaiting verification {:?}, computed {:?}", w, bits, got, want)); }
        if buf.len() != (bits + 127) / 128 { return Err(format!("{} AND gates occupy {} registers", bits, buf.len())); }
        o.vcs += buf.len() + 4; o.ground += buf.len() + 4; o.evals += n;
    }
    Ok(o)
}
/// the triple container hands out every register once, in any sequence of operations
#[cfg(vp_layer_b)]
pub fn c16_container(n: usize) -> Result<Out, String> {
    use crate::spdzwise::protocol::vp_hooks::Tr;
    let mut o = Out::default();
    for _ in 0..n {
        let mut t = Tr::default();
        let (mut next, mut have, mut out) = (1u128, 0usize, HashSet::new());
        for _ in 0..30 {
            match rnd() % 8 {
                0 | 1 | 2 => {
                    let k = (rnd() % 6) as usize;
                    let v = |f: &dyn Fn(u128) -> u128| (0..k as u128).map(|j| AShare::<u128>::new(RingElement(f(next + j)), RingElement(f(next + j)))).collect::<Vec<_>>();
                    t.extend(Tr::new(v(&|x| x), v(&|x| x << 40), v(&|x| x << 80)));
                    next += k as u128; have += k;
                }
                7 => {
                    let (a, b, c) = t.get_all();
                    if a.len() != have || b.len() != have || c.len() != have { return Err(format!("get_all gives {} of {} registers", a.len(), have)); }
                    for ((a, b), c) in a.iter().zip(&b).zip(&c) { one(&mut out, a, b, c)?; }
                    have = 0;
                }
                _ => {
                    let k = (rnd() % 9) as usize;
                    match t.get(k) {
                        Ok((a, b, c)) => {
                            if k > have { return Err(format!("{} registers handed out, {} were there", k, have)); }
                            if a.len() != k || b.len() != k || c.len() != k { return Err(format!("{} registers asked for, {} given", k, a.len())); }
                            for ((a, b), c) in a.iter().zip(&b).zip(&c) { one(&mut out, a, b, c)?; }
                            have -= k;
                        }
                        Err(_) => if k <= have { return Err(format!("{} registers asked for, {} are there: error", k, have)); },
                    }
                }
            }
            if t.len() != have { return Err(format!("length {} with {} registers", t.len(), have)); }
        }
        o.vcs += 30; o.ground += 30; o.evals += 1;
    }
    return Ok(o);
    fn one(out: &mut HashSet<u128>, a: &AShare<u128>, b: &AShare<u128>, c: &AShare<u128>) -> Result<(), String> {
        let (x, y, z) = (a.a.0, b.a.0 >> 40, c.a.0 >> 80);
        if x != y || x != z || a.b.0 != x || b.b.0 >> 40 != x || c.b.0 >> 80 != x { return Err(format!("components of different triples are combined: {} {} {}", x, y, z)); }
        if !out.insert(x) { return Err("a triple is handed out twice".into()); }
        Ok(())
    }
}
/// sequences of precomputations and AND gates on the engine: never out of triples, never an error
pub fn c16_seq(steps: Vec<(usize, usize)>) -> Result<Out, String> {
    let (hub, mut es) = setup::<E16>()?;
    for (k, (amount, words)) in steps.iter().enumerate() {
        all_ok(vp_run3!(&hub, es, |_i, e| <_ as MpcTrait<u16, _, _>>::precompute_and_triples(e, *amount)))?;
        if *words == 0 { continue; }
        let (a, b): (Vec<_>, Vec<_>) = (0..*words).map(|_| (<AShare<u128> as BRep<u128>>::bfresh("a").0, <AShare<u128> as BRep<u128>>::bfresh("b").0)).unzip();
        all_ok(vp_run3!(&hub, es, |i, e| <_ as BinaryMpcTrait<u128, AShare<u128>>>::and_many(e, &a.iter().map(|x| x[i].clone()).collect(), &b.iter().map(|x| x[i].clone()).collect())))?;
        verify::<E16>(&hub, &mut es).map_err(|e| format!("step {} of {:?} (triples precomputed, registers used): {}", k, steps, e))?;
    }
    Ok(Out { vcs: steps.len(), ground: steps.len(), evals: 1, ..Default::default() })
}
/// queries on the real matcher over the real engine, one after the other
pub fn c16_query(qs: Vec<(usize, usize)>) -> Result<Out, String> {
    let (hub, es) = setup::<E16>()?;
    let key = E16::dealer_key(&es);
    let mut ps3 = super::obs_iris::wrap::<E16>(es)?;
    let a = iris(12_000);
    let far = partner(&a, 9_000, 4_000);
    let (sa, sf) = (super::obs_iris::deal::<E16>(key, &a.code), super::obs_iris::deal::<E16>(key, &far.code));
    for (n, c) in &qs {
        let (n, c) = (*n, *c);
        let masks = vec![far.mask; n];
        let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&sa, i), (0..n).map(|_| mkvec(&sf, i)).collect())).collect();
        let r = all_ok(vp_run3!(&hub, ps3, |i, p| p.iris_in_db(&ins[i].0, &ins[i].1, &a.mask, &masks, c))).map_err(|e| format!("queries {:?} (entries, chunk size): database of {}: {}", qs, n, e))?;
        if r.iter().any(|x| *x) { return Err("wrong answer".into()); }
    }
    Ok(Out { vcs: qs.len(), ground: qs.len(), evals: qs.len(), ..Default::default() })
}
#[cfg(vp_c16)]
pub fn collect_c16(obs: &mut Obs) {
    let th = obs.thorough;
    let r = POOL * 128;
    let seqs: Vec<Vec<(usize, usize)>> = vec![
        vec![(1, 1), (1, 1)],
        vec![(0, 1), (128 * 5, 5), (1, 0), (1, 3)],
        vec![(r + 128 * 100, 1), (128 * 50, 2)],
        vec![(r, POOL), (r, 1), (129, 2)],
        vec![(r + 1, POOL + 1), (r - 127, POOL - 1), (5, 0), (128, 1)],
        vec![(r * 2, 3), (128, 4), (128, 4)],
        vec![(r * 2 - 128, POOL), (r - 129, 7), (r + 128, POOL + 1)],
    ];
    for s in seqs { obs.add("C16", format!("SpdzWise: precomputations and gates {:?}", s), "bounded", "triples asked for, registers of AND gates used before the next verification", move || c16_seq(s)); }
    for q in [vec![(1usize, 1usize), (2, 128), (1, 1)], vec![(290, 1)], if th { vec![(290, 1), (3, 1), (300, 1), (2, 2)] } else { vec![(284, 1), (1, 1)] }] {
        obs.add("C16", format!("SpdzWise: queries {:?}", q), "bounded", "entries and chunk size of consecutive queries", move || c16_query(q));
    }
    #[cfg(vp_layer_b)]
    {
        for s in [vec![(1usize, 1usize), (300, 2)], vec![(r + 128, 3), (128 * 3, 2), (r + 128 * 5, 0)], vec![(r, POOL), (1, 1)]] {
            obs.add("C16", format!("SpdzWise: triples of the pool {:?}", s), "bounded", "every register of the pool: c = a AND b, new, not used before", move || c16_pool(s));
        }
        let p: Vec<Vec<(usize, usize)>> = vec![
            vec![(1, 1), (8, 3), (64, 2), (128, 1), (16, 5), (32, 3), (1, 7), (128, 2)],
            vec![(16, 8), (128, 1), (1, 128), (1, 1), (64, 2), (64, 2)],
            vec![(128, 3), (1, 1), (128, 3), (8, 15), (64, 2), (1, 1), (32, 4)],
            vec![(64, 1), (128, 1), (64, 1), (1, 1), (64, 1), (32, 1), (16, 1), (8, 1)],
        ];
        for s in p { obs.add("C16", format!("SpdzWise: gates awaiting verification {:?}", s), "bounded", "width and number of AND gates, random operands", move || rep(20, || c16_packing(s.clone()))); }
        for t in 0..6u32 {
            let s: Vec<(usize, usize)> = (0..40).map(|k| { let z = (k * 7919 + t as usize * 104729 + k * k * 31) % 1000; ([1, 8, 16, 32, 64, 128][z % 6], 1 + z / 7 % 9) }).collect();
            obs.add("C16", format!("SpdzWise: gates awaiting verification, sequence {}", t), "bounded", "40 gates of mixed widths", move || rep(5, || c16_packing(s.clone())));
        }
        obs.add("C16", "triple container", "bounded", "random sequences of extend, get and get_all", || c16_container(3000));
        let mut grid: Vec<(usize, usize)> = vec![];
        for c in [1usize, 2, 3, 5, 7, 16, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 4096] {
            for n in [1usize, 2, 3, 10, 127, 128, 129, 130, 255, 256, 257, 282, 283, 284, 285, 300, 500, 564, 566, 600, 1000, 1023, 1024, 1025, 2000] { grid.push((n, c)); }
            for n in [283 * c, 283 * c + 1, 282 * c + 1, 290 * c + c / 2] { if n <= 9000 || c == 128 { grid.push((n, c)); } }
        }
        for part in grid.chunks(70) {
            let part = part.to_vec();
            obs.add("C16", format!("provision of a query, {:?} to {:?}", part[0], part[part.len() - 1]), "bounded", "entries and chunk sizes; measured consumption of the real engine, recorded calls of the real matcher", move || c16_provision(part));
        }
    }
}
