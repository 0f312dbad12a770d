// C17: correlated randomness stays in step, zero shares cancel, coins agree, commitments bind.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::obs_arith::*;
use super::sym::{S16, S64};
use crate::commitment::{CommitOpening, Commitment};
use crate::error::Error;
use crate::traits::mpc_trait::MpcTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::Zero;
use rand::distributions::{Distribution, Standard};
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;

fn count(o: &mut Out, n: usize) { o.vcs += n; o.ground += n; o.evals += n; }

// ---------------------------------------------------------------- commitments
fn commits<R>(n: usize, bits: u32, altered: impl Fn(&R, u32) -> R) -> Result<Out, String>
where R: RingImpl + std::fmt::Debug, Standard: Distribution<R> {
    let mut o = Out::default();
    let mut rng = ChaCha12Rng::seed_from_u64(rnd());
    let vals: Vec<R> = (0..n).map(|k| match k % 5 { 0 | 1 => rng.gen(), 2 => R::zero(), 3 => R::zero() - R::one(), _ => R::one() }).collect();
    let c = Commitment::<R>::commit(vals.clone(), &mut rng);
    if c.values != vals { return Err("the commitment keeps other values than those given".into()); }
    let rand = c.rand;
    let comm = c.comm.clone();
    if comm.len() != Commitment::<R>::get_comm_size() || Commitment::<R>::get_rand_size() != rand.len() { return Err(format!("commitment of {} bytes, stated size {}", comm.len(), Commitment::<R>::get_comm_size())); }
    let open = c.open();
    if open.values != vals || open.rand != rand { return Err("the opening is not what was committed".into()); }
    let says = |v: &[R], r: [u8; 32], c: &[u8]| CommitOpening { values: v.to_vec(), rand: r }.verify(c.to_vec());
    if !open.verify(comm.clone()) { return Err(format!("the opening of a commitment to {} values is refused", n)); }
    if Commitment::<R>::commit_with_rand(vals.clone(), rand).comm != comm { return Err("commit and commit_with_rand differ".into()); }
    count(&mut o, 2);
    let mut refuse = |what: String, v: &[R], r: [u8; 32], c: &[u8]| -> Result<(), String> {
        if says(v, r, c) { return Err(format!("commitment to {} values: accepted with {}", n, what)); }
        count(&mut o, 1);
        Ok(())
    };
    // every bit of every value, of the randomness and of the commitment
    for k in 0..n { for b in 0..bits { let mut v = vals.clone(); v[k] = altered(&v[k], b); refuse(format!("bit {} of value {} altered", b, k), &v, rand, &comm)?; } }
    for b in 0..256usize { let mut r = rand; r[b / 8] ^= 1 << (b % 8); refuse(format!("bit {} of the randomness altered", b), &vals, r, &comm)?; }
    for b in 0..8 * comm.len() { let mut c = comm.clone(); c[b / 8] ^= 1 << (b % 8); refuse(format!("bit {} of the commitment altered", b), &vals, rand, &c)?; }
    for l in 0..comm.len() { refuse(format!("the first {} bytes of the commitment", l), &vals, rand, &comm[..l])?; }
    for x in [0u8, 1, 255] { let mut c = comm.clone(); c.push(x); refuse("an extended commitment".into(), &vals, rand, &c)?; let mut c = vec![x]; c.extend_from_slice(&comm); refuse("a shifted commitment".into(), &vals, rand, &c)?; }
    for l in 0..n { refuse(format!("the first {} values", l), &vals[..l], rand, &comm)?; if l > 0 { refuse(format!("the last {} values", l), &vals[n - l..], rand, &comm)?; } }
    for x in [R::zero(), R::one()] { let mut v = vals.clone(); v.push(x.clone()); refuse("one value more".into(), &v, rand, &comm)?; v.rotate_right(1); refuse("one value more in front".into(), &v, rand, &comm)?; }
    for k in 1..n { let mut v = vals.clone(); v.rotate_left(k); if v != vals { refuse(format!("values rotated by {}", k), &v, rand, &comm)?; } }
    for i in 0..n { for j in 0..i { let mut v = vals.clone(); v.swap(i, j); if v != vals && n <= 40 { refuse(format!("values {} and {} exchanged", i, j), &v, rand, &comm)?; } } }
    // another commitment to the same values uses other randomness, and neither opens the other
    let d = Commitment::<R>::commit(vals.clone(), &mut rng);
    refuse("the randomness of another commitment".into(), &vals, d.rand, &comm)?;
    refuse("another commitment".into(), &vals, rand, &d.comm)?;
    let _ = &mut refuse;
    Ok(o)
}
pub fn commit_all(t: usize, lens: &[usize]) -> Result<Out, String> {
    let mut o = Out::default();
    for n in lens.iter().cloned() {
        macro_rules! w { ($t:ty) => { commits::<RingElement<$t>>(n, <$t>::BITS, |v, b| RingElement(v.0 ^ (1 << b)))? } }
        o.add(match t { 8 => w!(u8), 16 => w!(u16), 32 => w!(u32), 64 => w!(u64), 128 => w!(u128), _ => commits::<RingElement<Bit>>(n, 1, |v, _| !v.clone())? });
    }
    Ok(o)
}

// ---------------------------------------------------------------- set-up over altered messages
/// every party, every message of the set-up, alterations at every byte and of the length: the party that opens it reports an error
pub fn setup_tampered<E: Eng>() -> Result<Out, String> {
    let mut o = Out::default();
    let run = |from: usize, k: usize, f: Box<dyn Fn(&mut Vec<u8>) -> bool + Send>| -> Result<Option<([Result<(), Error>; 3], usize, usize)>, String> {
        let (hub, nets) = Hub::new();
        let mut es: Vec<E::M> = nets.into_iter().map(E::mk).collect();
        let info = std::sync::Arc::new(std::sync::Mutex::new(None));
        let i2 = info.clone();
        hub.set_tamper(Some(Box::new(move |fr, to, n, m| if fr == from && n == k { let l = m.len(); if f(m) { *i2.lock().unwrap() = Some((to, l)); } })));
        let r = vp_run3!(&hub, es, |_i, e| e.preprocess())?;
        let x = *info.lock().unwrap();
        Ok(x.map(|(to, l)| (r, to, l)))
    };
    for from in 0..3 {
        for k in 0.. {
            let mut len = None;
            let mut at = 0;
            loop {
                let pos = at;
                let bit = 1u8 << (rnd() % 8);
                let r = run(from, k, Box::new(move |m| if pos < m.len() { m[pos] ^= bit; true } else { false }))?;
                let Some((r, to, l)) = r else { break };
                if r[to].is_ok() { return Err(format!("set-up message {} of party {}: byte {} altered, and party {} accepts it", k, from, pos, to)); }
                len = Some(l);
                count(&mut o, 1);
                at += 1;
            }
            let Some(l) = len else { break };
            for x in 0..4usize {
                let r = run(from, k, Box::new(move |m| { match x { 0 => { m.pop(); } 1 => m.push(0), 2 => m.clear(), _ => m.rotate_left(l / 2) } true }))?;
                if let Some((r, to, _)) = r { if r[to].is_ok() { return Err(format!("set-up message {} of party {}: {}, and party {} accepts it", k, from, ["shortened", "extended", "emptied", "halves exchanged"][x], to)); } count(&mut o, 1); }
            }
        }
    }
    if o.evals < 100 { return Err("the set-up exchanges next to nothing".into()); }
    Ok(o)
}

// ---------------------------------------------------------------- generators of the engines (private items: layer B)
#[cfg(vp_layer_b)]
pub mod b {
    use super::*;
    use crate::vp_hooks::obs_active::{random_script, script_each, Op};
    use crate::aby3::protocol::vp_hooks as aby;
    use crate::aby3_mal::protocol::vp_hooks as mal;
    use crate::spdzwise::protocol::vp_hooks as spdz;
    use crate::swift3::protocol::vp_hooks as swift;

    /// what an engine draws from its generators
    pub trait RandEng: Eng {
        /// one value from the generator shared with the next party, one from that shared with the previous one, one common to all
        fn draw<X: Clone>(e: &mut Self::M) -> (X, X, Option<X>) where Standard: Distribution<X>;
        /// arithmetic and boolean zero share
        fn zero<X: Sharable>(e: &mut Self::M, xor: bool) -> X::Share where Standard: Distribution<X::Share>;
        async fn reseed(e: &mut Self::M, s: [[u8; 32]; 3]) -> Result<(), Error>;
        async fn coin(e: &mut Self::M, seed: u64) -> Result<Option<[u8; 32]>, Error>;
        fn random_share<X: Val>(e: &mut Self::M) -> Option<crate::aby3::share::Share<X>> where Standard: Distribution<X::Share>;
    }
    macro_rules! aby_like { ($e:ident, $m:ty, $prf:expr, $reseed:expr, $coin:expr) => {
        impl RandEng for $e<u16> {
            fn draw<X: Clone>(e: &mut $m) -> (X, X, Option<X>) where Standard: Distribution<X> { let (a, b) = $prf(e).gen_rands::<X>(); (a, b, None) }
            fn zero<X: Sharable>(e: &mut $m, xor: bool) -> X::Share where Standard: Distribution<X::Share> { if xor { $prf(e).gen_binary_zero_share::<X>() } else { $prf(e).gen_zero_share::<X>() } }
            async fn reseed(e: &mut $m, s: [[u8; 32]; 3]) -> Result<(), Error> { $reseed(e, s).await }
            async fn coin(e: &mut $m, _seed: u64) -> Result<Option<[u8; 32]>, Error> { $coin(e).await }
            fn random_share<X: Val>(e: &mut $m) -> Option<crate::aby3::share::Share<X>> where Standard: Distribution<X::Share> { Some($prf(e).gen_rand::<X>()) }
        }
    } }
    async fn nocoin<M>(_: &mut M) -> Result<Option<[u8; 32]>, Error> { Ok(None) }
    async fn malcoin(e: &mut <EMal<u16> as Eng>::M) -> Result<Option<[u8; 32]>, Error> { Ok(Some(mal::coin(e).await?)) }
    async fn spdzcoin(e: &mut <ESpdz<u16> as Eng>::M) -> Result<Option<[u8; 32]>, Error> { Ok(Some(spdz::coin(e).await?)) }
    aby_like!(EAby, <EAby<u16> as Eng>::M, aby::prf, aby::reseed, nocoin);
    aby_like!(EMal, <EMal<u16> as Eng>::M, mal::prf, mal::reseed, malcoin);
    aby_like!(ESpdz, <ESpdz<u16> as Eng>::M, (|e| aby::prf(spdz::aby(e))), (|e, s| aby::reseed(spdz::aby(e), s)), spdzcoin);
    impl RandEng for ESwift<u16> {
        fn draw<X: Clone>(e: &mut Self::M) -> (X, X, Option<X>) where Standard: Distribution<X> { let p = swift::prf(e); let a = p.gen_1::<X>(); let b = p.gen_2::<X>(); (a, b, Some(p.gen_p::<X>())) }
        fn zero<X: Sharable>(e: &mut Self::M, xor: bool) -> X::Share where Standard: Distribution<X::Share> { let (a, b) = swift::prf(e).gen_for_zero_share::<X>(); if xor { a ^ b } else { a - b } }
        async fn reseed(e: &mut Self::M, s: [[u8; 32]; 3]) -> Result<(), Error> { swift::reseed(e, s).await }
        async fn coin(e: &mut Self::M, seed: u64) -> Result<Option<[u8; 32]>, Error> { Ok(Some(swift::coin(e, &mut ChaCha12Rng::seed_from_u64(seed)).await?)) }
        fn random_share<X: Val>(_: &mut Self::M) -> Option<crate::aby3::share::Share<X>> where Standard: Distribution<X::Share> { None }
    }
    /// the three parties draw; each pair agrees, and the values of different pairs are unrelated (`wide`: different)
    fn agree<E: RandEng, X: Clone + PartialEq + std::fmt::Debug>(es: &mut [E::M], wide: bool, when: &str) -> Result<(), String> where Standard: Distribution<X> {
        let d: Vec<_> = (0..3).map(|i| E::draw::<X>(&mut es[i])).collect();
        for i in 0..3 {
            let j = (i + 1) % 3;
            if d[i].0 != d[j].1 { return Err(format!("{}: parties {} and {} draw {:?} and {:?} from their common key", when, i, j, d[i].0, d[j].1)); }
            if d[i].2 != d[j].2 { return Err(format!("{}: parties {} and {} draw {:?} and {:?} from the key of all parties", when, i, j, d[i].2, d[j].2)); }
            if wide && d[i].0 == d[j].0 { return Err(format!("{}: different pairs of parties draw the same value {:?}", when, d[i].0)); }
            if wide && Some(&d[i].0) == d[i].2.as_ref() { return Err(format!("{}: a pair and all parties draw the same value {:?}", when, d[i].0)); }
        }
        Ok(())
    }
    fn step<E: RandEng>(es: &mut [E::M], when: &str) -> Result<(), String> { agree::<E, u128>(es, true, when) }
    fn seeds(k: usize) -> [[[u8; 32]; 3]; 3] {
        let r = |c: u8| -> [u8; 32] { match c { 0 => [0; 32], 1 => [255; 32], 2 => { let mut x = [0; 32]; x[31] = 1; x } 3 => { let mut x = [0; 32]; x[0] = 128; x } _ => { let mut x = [0u8; 32]; for b in x.iter_mut() { *b = rnd() as u8; } x } } };
        let mut c = k;
        let mut v = [[[0u8; 32]; 3]; 3];
        for p in v.iter_mut() { for s in p.iter_mut() { *s = r(if k == usize::MAX { 9 } else { let x = (c % 5) as u8; c /= 5; x }); } }
        v
    }
    /// draws of every type in random order after set-up and after set-up from given seeds
    pub fn draws<E: RandEng>(n: usize) -> Result<Out, String> {
        let mut o = Out::default();
        for run in 0..n {
            let (hub, mut es) = setup::<E>()?;
            let mut wide = true;
            if run > 0 {
                let s = seeds(if run % 2 == 0 { usize::MAX } else { rnd() as usize % 1953125 });
                wide = run % 2 == 0;
                all_ok(vp_run3!(&hub, es, |i, e| E::reseed(e, s[i])))?;
                if hub.leftover() != 0 { return Err("messages are left unread".into()); }
            }
            for k in 0..40 {
                let when = format!("set-up {}, draw {}", run, k);
                match rnd() % 9 {
                    0 => agree::<E, u8>(&mut es, false, &when)?, 1 => agree::<E, u16>(&mut es, false, &when)?, 2 => agree::<E, u32>(&mut es, false, &when)?,
                    3 => agree::<E, u64>(&mut es, wide, &when)?, 4 => agree::<E, u128>(&mut es, wide, &when)?, 5 => agree::<E, [u8; 32]>(&mut es, wide, &when)?,
                    6 => agree::<E, RingElement<Bit>>(&mut es, false, &when)?, 7 => agree::<E, RingElement<u128>>(&mut es, wide, &when)?, _ => agree::<E, RingElement<u16>>(&mut es, false, &when)?,
                }
                count(&mut o, 1);
            }
        }
        Ok(o)
    }
    fn zeros1<E: RandEng, X: Val>(es: &mut [E::M], what: &str) -> Vec<Pair> where Standard: Distribution<X::Share> {
        let mut ps = vec![];
        for k in 0..3 {
            let z = [0usize, 1, 2].map(|i| E::zero::<X>(&mut es[i], false));
            ps.push(peq::<X>(&format!("{}, zero share {} of {}", what, k, X::TNAME), &(z[0].clone() + &z[1] + &z[2]), &X::Share::zero()));
            let z = [0usize, 1, 2].map(|i| E::zero::<X>(&mut es[i], true));
            ps.push(peq::<X>(&format!("{}, boolean zero share {} of {}", what, k, X::TNAME), &(z[0].clone() ^ &z[1] ^ &z[2]), &X::Share::zero()));
        }
        if es.len() == 3 {
            let s: Vec<_> = (0..3).map(|i| E::random_share::<X>(&mut es[i])).collect();
            if let (Some(a), Some(b), Some(c)) = (s[0].clone(), s[1].clone(), s[2].clone()) { app(&mut ps, <crate::aby3::share::Share<X> as ARep<X>>::view(&(), "random sharing", &[a, b, c]).1); }
        }
        ps
    }
    /// zero shares: symbolic draws (each a free variable per key and position) and every concrete type
    pub fn zeros<E: RandEng>(n: usize) -> Result<Out, String> {
        let mut o = Out::default();
        for run in 0..n {
            let (_, mut es) = setup::<E>()?;
            let w = format!("set-up {}", run);
            let mut ps = vec![];
            app(&mut ps, zeros1::<E, u8>(&mut es, &w));
            app(&mut ps, zeros1::<E, u64>(&mut es, &w));
            app(&mut ps, zeros1::<E, Bit>(&mut es, &w));
            app(&mut ps, zeros1::<E, u16>(&mut es, &w));
            app(&mut ps, zeros1::<E, u128>(&mut es, &w));
            app(&mut ps, zeros1::<E, u32>(&mut es, &w));
            o.add(decide(&ps)?);
        }
        Ok(o)
    }
    pub fn zeros_sym<E: RandEng>() -> Result<Out, String> {
        let (_, mut es) = setup::<E>()?;
        let mut ps = zeros1::<E, S16>(&mut es, "symbolic");
        app(&mut ps, zeros1::<E, S64>(&mut es, "symbolic"));
        decide(&ps)
    }
    pub fn coins<E: RandEng>(n: usize) -> Result<Out, String> {
        let mut o = Out::default();
        for run in 0..n {
            let (hub, mut es) = setup::<E>()?;
            if run > 0 { let s = seeds(usize::MAX); all_ok(vp_run3!(&hub, es, |i, e| E::reseed(e, s[i])))?; }
            let mut last = None;
            for k in 0..4 {
                let s: [u64; 3] = [rnd(), rnd(), rnd()];
                let c = all_ok(vp_run3!(&hub, es, |i, e| E::coin(e, s[i])))?;
                if c[0] != c[1] || c[1] != c[2] { return Err(format!("coin {}: {:x?} at party 0, {:x?} at party 1, {:x?} at party 2", k, c[0], c[1], c[2])); }
                if c[0] == last { return Err(format!("coin {} equals the one before", k)); }
                if hub.leftover() != 0 { return Err(format!("coin {}: messages are left unread", k)); }
                last = c[0];
                step::<E>(&mut es, "after a coin")?;
                count(&mut o, 1);
            }
        }
        Ok(o)
    }
    /// Swift3: a commitment or an opening of a coin is altered
    pub fn coin_tampered() -> Result<Out, String> {
        let mut o = Out::default();
        for from in 0..3usize {
            for k in 0..4usize {
                for at in 0..72usize {
                    let (hub, mut es) = setup::<ESwift<u16>>()?;
                    { let mut h = hub.lock(); h.count = [0; 3]; }
                    let info = std::sync::Arc::new(std::sync::Mutex::new(None));
                    let i2 = info.clone();
                    let bit = 1u8 << (rnd() % 8);
                    hub.set_tamper(Some(Box::new(move |fr, to, n, m| if fr == from && n == k { let l = m.len(); match at { 64.. => { match at % 4 { 0 => { m.pop(); } 1 => m.push(0), 2 => m.clear(), _ => m.rotate_left(l / 2) } } _ => if at < l { m[at] ^= bit } else { return } } *i2.lock().unwrap() = Some(to); })));
                    let s: [u64; 3] = [rnd(), rnd(), rnd()];
                    let r = vp_run3!(&hub, es, |i, e| <ESwift<u16> as RandEng>::coin(e, s[i]))?;
                    let Some(to) = *info.lock().unwrap() else { continue };
                    if r[to].is_ok() { return Err(format!("message {} of party {} of a coin altered ({}), and party {} accepts it", k, from, at, to)); }
                    count(&mut o, 1);
                }
            }
        }
        if o.evals < 500 { return Err("a coin exchanges next to nothing".into()); }
        Ok(o)
    }
    /// the generators stay in step through any sequence of operations
    pub fn history<E: RandEng>(n: usize, len: usize) -> Result<Out, String> {
        let mut o = Out::default();
        for _ in 0..n {
            let ops = random_script(1 + (rnd() % len as u64) as usize, true, if E::KIND == Kind::Swift { 2 } else { 5 });
            let (hub, mut es) = setup::<E>()?;
            step::<E>(&mut es, "after set-up")?;
            let mut k = 0;
            let r = script_each::<E>(&hub, &mut es, &ops, &mut |es, at, op| { k += 1; step::<E>(es, &format!("{:?}: after operation {} ({:?})", ops, at, op)) })?;
            if let Some((i, e)) = r.errs.first() { return Err(format!("honest run {:?}: party {} reports {} at operation {}", ops, i, e, r.at)); }
            count(&mut o, k + 1);
        }
        Ok(o)
    }
    /// every single operation, at several sizes (around the packing into words)
    pub fn each_op<E: RandEng>() -> Result<Out, String> {
        use Op::*;
        let mut o = Out::default();
        let mut ops = vec![Deal(4), Input(0), Input(1), Input(2), Lin, Mul, Dot(1), Dot(7), DotMany(1, 3), DotMany(3, 2), Verify, Msb, MsbMany(1), OrBits, Or(3, 2), Precompute(1 << 20), Verify, Open, OpenMany(5), OpenBit, OpenBits(5), Mul, Verify,
            MsbMany(2), MsbMany(127), MsbMany(128), MsbMany(129), MsbMany(300), OrBits, Or(1, 1), Or(2, 1), Or(3, 2), Or(9, 4), Or(127, 50), Or(128, 128), Or(130, 60), Or(300, 100), Open, OpenMany(5), OpenBit, OpenBits(5)];
        // the zero-knowledge proof over many AND gates takes minutes
        if E::KIND != Kind::Swift { ops.extend([Precompute(1 << 20), Verify, Mul, Msb, Open, OpenBit, Precompute(1 << 20), Verify]); }
        let (hub, mut es) = setup::<E>()?;
        let r = script_each::<E>(&hub, &mut es, &ops, &mut |es, at, op| { o.vcs += 1; o.ground += 1; o.evals += 1; step::<E>(es, &format!("after operation {} ({:?})", at, op)) })?;
        if let Some((i, e)) = r.errs.first() { return Err(format!("party {} reports {} at operation {} ({:?})", i, e, r.at, ops[r.at])); }
        Ok(o)
    }
}
pub fn collect_c17(obs: &mut Obs) {
    let m = if obs.thorough { 10 } else { 1 };
    for t in [1usize, 8, 16, 32, 64, 128] {
        obs.add("C17", format!("commitments to values of {} bits", t), "bounded", "0 to 8, 16, 32, 33, 40 values; every bit of values, randomness and commitment, lengths, exchanges", move || commit_all(t, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 33, 40]));
    }
    obs.add("C17", "MalAby3: altered commitments and openings in the set-up", "exhaustive", "every party, message and byte", setup_tampered::<EMal<u16>>);
    obs.add("C17", "Swift3: altered commitments and openings in the set-up", "exhaustive", "every party, message and byte", setup_tampered::<ESwift<u16>>);
    #[cfg(vp_layer_b)]
    {
        use b::*;
        macro_rules! e { ($($t:ty),*) => { $(
            let n = <$t as Eng>::ename();
            let nd = 60 * m;
            obs.add("C17", format!("{}: draws of every type agree", n), "bounded", "random sequences of 40 draws, random and extreme seeds", move || draws::<$t>(nd));
            obs.add("C17", format!("{}: zero shares cancel, all generator outputs", n), "proved", "all outputs of the three keys (each draw a free variable shared by the holders of the key)", zeros_sym::<$t>);
            obs.add("C17", format!("{}: zero shares cancel", n), "bounded", "Bit, u8..u128", move || zeros::<$t>(30));
            obs.add("C17", format!("{}: every operation keeps the generators in step", n), "bounded", "37 operations, sizes around the packing boundaries", each_op::<$t>);
            let nh = if <$t as Eng>::KIND == Kind::Swift { 6 } else { 25 } * m;
            obs.add("C17", format!("{}: histories keep the generators in step", n), "bounded", "random sequences of up to 20 operations (Swift3: 12)", move || history::<$t>(nh, if <$t as Eng>::KIND == Kind::Swift { 12 } else { 20 }));
        )* } }
        e!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
        obs.add("C17", "Swift3: altered commitments and openings of a coin", "exhaustive", "every party, message and byte", coin_tampered);
        macro_rules! c { ($($t:ty),*) => { $( obs.add("C17", format!("{}: coins agree", <$t as Eng>::ename()), "bounded", "20 set-ups, 4 coins each", move || coins::<$t>(20 * m)); )* } }
        c!(EMal<u16>, ESwift<u16>, ESpdz<u16>);
    }
}
