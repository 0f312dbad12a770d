// C14, C15: the verification steps of the actively secure engines accept honest runs and catch a deviating party.
use super::eng::*;
use super::net::*;
use super::ob::{self, *};
use super::obs_arith::*;
use super::sym::{self, S16};
use crate::dzkp::and_proof::{AndProof, Proof as AndPf};
use crate::dzkp::dot_proof::{DotProof, Proof as DotPf};
use crate::dzkp::gf2p64::GF2p64;
use crate::dzkp::mul_proof::{MulProof, Proof as MulPf};
use crate::dzkp::polynomial::Poly;
use crate::error::Error;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::MpcTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::Zero;
use rand::distributions::{Distribution, Standard};
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;

// ---------------------------------------------------------------- C14: the proofs
fn challenge_rng() -> ChaCha12Rng { ChaCha12Rng::seed_from_u64(rnd()) }
fn polys<T: RingImpl>(n: usize, d: usize, rng: &mut ChaCha12Rng) -> Vec<Poly<T>> where Standard: Distribution<T> {
    (0..n).map(|_| Poly::random(d, rng)).collect()
}
/// what the three parties hold of one dot product: additive shares of the factors, randomness, resulting additive shares
struct Gate<S> { x: Vec<[S; 3]>, y: Vec<[S; 3]>, r: [S; 3], s: [S; 3] }
fn gate<T: Val>(n: usize) -> Gate<Sh<T>> {
    let f = |s: &str| [0, 1, 2].map(|i| T::fresh(&format!("{}{}", s, i)).to_sharetype());
    let (x, y): (Vec<_>, Vec<_>) = (0..n).map(|k| (f(&format!("x{}_", k)), f(&format!("y{}_", k)))).unzip();
    let r = f("r");
    let s = [0usize, 1, 2].map(|i| {
        let p = (i + 2) % 3;
        let mut s = r[i].clone() - &r[p];
        for k in 0..n { s = s + x[k][i].clone() * &y[k][i] + x[k][i].clone() * &y[k][p] + x[k][p].clone() * &y[k][i]; }
        s
    });
    Gate { x, y, r, s }
}
/// a false statement: party `from` gave its successor a wrong share of result number `gate`; with `own` it also works with that share itself
#[derive(Clone, Copy, Debug)]
pub struct Cheat { from: usize, gate: usize, own: bool }
/// what party i uses as its own result share and as its predecessor's
fn held<S: RingImpl>(ch: Option<Cheat>, gate: usize, i: usize, s: &[S; 3], delta: &S) -> (S, S) {
    let q = (i + 2) % 3;
    let add = |x: &S, y: bool| if y { x.clone() ^ delta } else { x.clone() };
    match ch {
        Some(c) if c.gate == gate => (add(&s[i], c.own && i == c.from), add(&s[q], q == c.from)),
        _ => (s[i].clone(), s[q].clone()),
    }
}
/// the error: arbitrary (symbolic), or one bit or random
fn nonzero<T: Val>(ch: Option<Cheat>) -> Sh<T> {
    if ch.is_none() || T::SYMBOLIC { return if ch.is_none() { <Sh<T> as Zero>::zero() } else { T::fresh("delta").to_sharetype() }; }
    let one = <Sh<T> as num_traits::One>::one();
    let d = match rnd() % 3 { 0 => T::fresh("delta").to_sharetype(), 1 => one << (rnd() as u32 % Sh::<T>::K as u32), _ => one << (Sh::<T>::K as u32 - 1) };
    if d.is_zero() { <Sh<T> as num_traits::One>::one() } else { d }
}
/// the verdict on the proof of party i
fn verdict(ch: Option<Cheat>, i: usize, r: Result<(), Error>, what: &dyn Fn() -> String) -> Result<(), String> {
    match (ch, r) {
        (Some(c), Ok(())) if c.from == i => Err(format!("{}: the verification of a false statement succeeds ({:?})", what(), c)),
        (Some(_), _) => Ok(()),
        (None, Ok(())) => Ok(()),
        (None, Err(e)) => Err(format!("{}: honest verification fails: {:?}", what(), e)),
    }
}
/// both ways of handing the proof and its seed to the two verifiers
fn halves<P>(flip: bool, a: P, b: P) -> (P, P) { if flip { (b, a) } else { (a, b) } }

/// verification rounds of MulProof: muls[k] further products are registered before round k
pub fn mul_proof<T: Val>(muls: &[usize], flip: bool, lm: Option<(usize, usize)>) -> Result<Out, String>
where
    Standard: Distribution<Sh<T>>,
{
    mul_proof_c::<T>(muls, flip, lm, None)
}
pub fn mul_proof_c<T: Val>(muls: &[usize], flip: bool, lm: Option<(usize, usize)>, ch: Option<Cheat>) -> Result<Out, String>
where
    Standard: Distribution<Sh<T>>,
{
    let mut o = Out::default();
    let mut p: [MulProof<Sh<T>>; 3] = Default::default();
    let mut total = 0;
    for (round, n) in muls.iter().enumerate() {
        for k in 0..*n {
            let g = gate::<T>(1);
            let delta = nonzero::<T>(ch);
            for i in 0..3usize {
                let q = (i + 2) % 3;
                let (s0, s1) = held(ch, k, i, &g.s, &delta);
                p[i].register_mul(g.x[0][i].clone(), g.x[0][q].clone(), g.y[0][i].clone(), g.y[0][q].clone(), g.r[i].clone(), g.r[q].clone(), s0, s1);
            }
        }
        total = p[0].get_muls();
        let (l, m) = lm.unwrap_or_else(|| p[0].calc_params());
        for q in p.iter_mut() { q.set_parameters(l, m); }
        let coords = MulProof::<Sh<T>>::lagrange_points(m + 1);
        sym::LITERAL_DRAWS.with(|l| l.set(true));
        let lag = Poly::<Poly<Sh<T>>>::lagrange_polys(&coords, p[0].get_modulus());
        let d = p[0].get_mod_d() - 1;
        let mut rng = challenge_rng();
        for i in 0..3usize {
            let thetas = polys::<Sh<T>>(l, d, &mut rng);
            let (seed, proof) = p[i].prove::<ChaCha12Rng>(&thetas, &lag, &mut rng);
            let betas = polys::<Sh<T>>(m, d, &mut rng);
            let r = Poly::random(d, &mut rng);
            let (a, b) = halves(flip, proof, MulPf::from_seed::<ChaCha12Rng>(seed, l, m, d));
            let (n1, n2) = ((i + 1) % 3, (i + 2) % 3);
            let run = || -> Result<(), Error> {
                let v1 = p[n1].verify_prev(&betas, &r, &lag, &coords, a)?;
                let v2 = p[n2].verify_next(&betas, &r, &lag, &coords, b)?;
                p[n2].combine_verifications(&thetas, v1, v2)
            };
            verdict(ch, i, run(), &|| format!("{} products, round {}, proof of party {}", total, round, i))?;
            o.vcs += 1;
            if T::SYMBOLIC { o.ring += 1 } else { o.ground += 1; o.evals += 1 }
        }
        sym::LITERAL_DRAWS.with(|l| l.set(false));
    }
    Ok(o)
}
/// rounds of DotProof; lens[k] = lengths of the dot products registered before round k
pub fn dot_proof<T: Val>(lens: &[Vec<usize>], flip: bool, lm: Option<(usize, usize)>) -> Result<Out, String>
where
    Standard: Distribution<Sh<T>>,
{
    dot_proof_c::<T>(lens, flip, lm, None)
}
pub fn dot_proof_c<T: Val>(lens: &[Vec<usize>], flip: bool, lm: Option<(usize, usize)>, ch: Option<Cheat>) -> Result<Out, String>
where
    Standard: Distribution<Sh<T>>,
{
    let mut o = Out::default();
    let mut p: [DotProof<Sh<T>>; 3] = Default::default();
    for (round, ns) in lens.iter().enumerate() {
        for (k, n) in ns.iter().enumerate() {
            let g = gate::<T>(*n);
            let delta = nonzero::<T>(ch);
            for i in 0..3usize {
                let (s0, s1) = held(ch, k, i, &g.s, &delta);
                let q = (i + 2) % 3;
                let c = |v: &Vec<[Sh<T>; 3]>, j: usize| v.iter().map(|z| z[j].clone()).collect::<Vec<_>>();
                p[i].register_dot(c(&g.x, i), c(&g.x, q), c(&g.y, i), c(&g.y, q), g.r[i].clone(), g.r[q].clone(), s0, s1);
            }
        }
        let (l, m) = lm.unwrap_or_else(|| p[0].calc_params());
        for q in p.iter_mut() { q.set_parameters(l, m); }
        let dot = p[0].get_dot();
        let coords = DotProof::<Sh<T>>::lagrange_points(m + 1);
        sym::LITERAL_DRAWS.with(|l| l.set(true));
        let lag = Poly::<Poly<Sh<T>>>::lagrange_polys(&coords, p[0].get_modulus());
        let d = p[0].get_mod_d() - 1;
        let mut rng = challenge_rng();
        for i in 0..3usize {
            let thetas = polys::<Sh<T>>(l, d, &mut rng);
            let (seed, proof) = p[i].prove::<ChaCha12Rng>(&thetas, &lag, &mut rng);
            let betas = polys::<Sh<T>>(m, d, &mut rng);
            let r = Poly::random(d, &mut rng);
            let (a, b) = halves(flip, proof, DotPf::from_seed::<ChaCha12Rng>(seed, l, m, d, dot));
            let (n1, n2) = ((i + 1) % 3, (i + 2) % 3);
            let run = || -> Result<(), Error> {
                let v1 = p[n1].verify_prev(&betas, &r, &lag, &coords, a)?;
                let v2 = p[n2].verify_next(&betas, &r, &lag, &coords, b)?;
                p[n2].combine_verifications(&thetas, v1, v2)
            };
            verdict(ch, i, run(), &|| format!("dot products of lengths {:?}, round {}, proof of party {}", lens, round, i))?;
            o.vcs += 1;
            if T::SYMBOLIC { o.ring += 1 } else { o.ground += 1; o.evals += 1 }
        }
        sym::LITERAL_DRAWS.with(|l| l.set(false));
    }
    Ok(o)
}
/// rounds of AndProof over words of type T
pub fn and_proof<T: Val>(ands: &[usize], flip: bool, sel: Option<u32>) -> Result<Out, String> { and_proof_c::<T>(ands, flip, sel, None) }
pub fn and_proof_c<T: Val>(ands: &[usize], flip: bool, sel: Option<u32>, ch: Option<Cheat>) -> Result<Out, String> {
    let mut o = Out::default();
    let mut p: [AndProof; 3] = Default::default();
    for (round, n) in ands.iter().enumerate() {
        for k in 0..*n {
            if let Some(b) = sel { ob::force(&(0..9).map(|k| (b >> k & 1) as u128).collect::<Vec<_>>()); }
            let f = || [0, 1, 2].map(|_| T::fresh("").to_sharetype());
            let (x, y, r) = (f(), f(), f());
            let s = [0usize, 1, 2].map(|i| { let q = (i + 2) % 3; (x[i].clone() & &y[i]) ^ (x[i].clone() & &y[q]) ^ (x[q].clone() & &y[i]) ^ &r[i] ^ &r[q] });
            ob::force(&[]);
            let delta = nonzero::<T>(ch);
            for i in 0..3usize {
                let q = (i + 2) % 3;
                let (s0, s1) = held(ch, k, i, &s, &delta);
                p[i].register_and(x[i].clone(), x[q].clone(), y[i].clone(), y[q].clone(), r[i].clone(), r[q].clone(), s0, s1);
            }
        }
        let (l, m) = p[0].calc_params();
        for q in p.iter_mut() { q.set_parameters(l, m); }
        let coords = AndProof::lagrange_points(m + 1);
        let lag = Poly::<GF2p64>::lagrange_polys(&coords);
        let mut rng = challenge_rng();
        let f = |n: usize, rng: &mut ChaCha12Rng| (0..n).map(|_| GF2p64::random(rng)).collect::<Vec<_>>();
        for i in 0..3usize {
            let thetas = f(l, &mut rng);
            let (seed, proof) = p[i].prove::<ChaCha12Rng>(&thetas, &lag, &mut rng);
            let betas = f(m, &mut rng);
            let r = GF2p64::random(&mut rng);
            let (a, b) = halves(flip, proof, AndPf::from_seed::<ChaCha12Rng>(seed, l, m));
            let (n1, n2) = ((i + 1) % 3, (i + 2) % 3);
            let run = || -> Result<(), Error> {
                let v1 = p[n1].verify_prev(&betas, &r, &lag, &coords, a)?;
                let v2 = p[n2].verify_next(&betas, &r, &lag, &coords, b)?;
                p[n2].combine_verifications(&thetas, v1, v2)
            };
            verdict(ch, i, run(), &|| format!("{:?} words of {} AND gates, round {}, proof of party {}", ands, T::TNAME, round, i))?;
            o.vcs += 1; o.ground += 1; o.evals += 1;
        }
    }
    Ok(o)
}
fn reps(n: usize, f: impl Fn(usize) -> Result<Out, String>) -> Result<Out, String> {
    let mut o = Out::default();
    for k in 0..n { o.add(f(k)?); }
    Ok(o)
}

// ---------------------------------------------------------------- scripts on the engines
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Deal(usize), Input(usize), Lin, Mul, Dot(usize), DotMany(usize, usize), Msb, MsbMany(usize), OrBits, Or(usize, usize),
    Open, OpenMany(usize), OpenBit, OpenBits(usize), Verify, Precompute(usize), Mark,
}
use Op::*;
struct Reset;
impl Drop for Reset { fn drop(&mut self) { sym::LITERAL_DRAWS.with(|l| l.set(false)); } }
pub struct Pool<E: Eng> { a: Vec<([E::A; 3], Sh<E::T>)>, b: Vec<([E::B; 3], bool)>, cur: usize }
/// what came of a script: values opened per party, and the parties that reported an error first
#[derive(Default, Debug)]
pub struct Ran { pub opened: Vec<Vec<(usize, Vec<u128>)>>, pub want: Vec<Vec<u128>>, pub errs: Vec<(usize, String)>, pub at: usize, msgs: usize }

fn pick<E: Eng>(p: &mut Pool<E>) -> ([E::A; 3], Sh<E::T>) { let n = p.a.len(); p.cur += 1; p.a[n - 1 - (p.cur * 7 + p.cur / 3) % n.min(9)].clone() }
fn pickb<E: Eng>(p: &mut Pool<E>) -> ([E::B; 3], bool) { let n = p.b.len(); p.cur += 1; p.b[n - 1 - (p.cur * 5 + p.cur / 3) % n.min(9)].clone() }
fn u<T: Val>(v: Sh<T>) -> u128 { match T::pair(String::new(), v.clone(), v).v { PairV::Conc(a, _) => a, PairV::Sym(a, _) => sym::with(|s| s.canon(a)) as u128 } }

/// runs the operations; stops at the first operation at which a party reports an error
pub fn script<E: Eng>(hub: &Hub, es: &mut Vec<E::M>, ops: &[Op]) -> Result<Ran, String> { script_each::<E>(hub, es, ops, &mut |_, _, _| Ok(())) }
/// the same, with a check after every operation
pub fn script_each<E: Eng>(hub: &Hub, es: &mut Vec<E::M>, ops: &[Op], each: &mut dyn FnMut(&mut Vec<E::M>, usize, &Op) -> Result<(), String>) -> Result<Ran, String> {
    let ctx = E::ctx(es);
    let mut p: Pool<E> = Pool { a: vec![], b: vec![], cur: 0 };
    let mut ran = Ran::default();
    for (at, op) in ops.iter().enumerate() {
        ran.at = at;
        macro_rules! go { (|$i:ident, $e:ident| $body:expr) => {{
            let r = vp_run3!(hub, es, |$i, $e| $body).map_err(|e| format!("operation {} ({:?}): {}", at, op, e))?;
            let bad: Vec<(usize, String)> = r.iter().enumerate().filter_map(|(i, x)| x.as_ref().err().map(|e| (i, format!("{:?}", e)))).collect();
            if bad.is_empty() { r.map(|x| x.ok().unwrap()) } else { ran.errs = bad; return Ok(ran); }
        }} }
        macro_rules! open { (|$i:ident, $e:ident| $body:expr, |$x:ident| $conv:expr, $want:expr) => {{
            let r = vp_run3!(hub, es, |$i, $e| $body).map_err(|e| format!("operation {} ({:?}): {}", at, op, e))?;
            let mut got = vec![];
            let mut bad = vec![];
            for (i, x) in r.into_iter().enumerate() { match x { Ok($x) => got.push((i, $conv)), Err(e) => bad.push((i, format!("{:?}", e))) } }
            ran.opened.push(got);
            ran.want.push($want);
            if !bad.is_empty() { ran.errs = bad; return Ok(ran); }
        }} }
        let mend = MEND.with(|m| m.get());
        let mfix = |s: &mut [E::A; 3]| if let Some(i) = mend { E::A::mend(s, i) };
        let bfix = |s: &mut [E::B; 3]| if let Some(i) = mend { E::B::bmend(s, i) };
        match op {
            Deal(n) => for _ in 0..*n { p.a.push(E::A::fresh(&ctx, "v")); },
            Input(id) => {
                let v = E::T::fresh("i");
                let mut s = go!(|i, e| e.input(if i == *id { Some(v.clone()) } else { None }, *id));
                // a deviating party that inputs another value consistently has a different input, which is no error
                if mend != Some(*id) { mfix(&mut s); }
                p.a.push((s, v.to_sharetype()));
            }
            Lin => {
                let (a, b) = (pick(&mut p), pick(&mut p));
                let c = E::T::fresh("c");
                let s = [0usize, 1, 2].map(|i| { let e = &es[i]; e.add_const(e.mul_const(e.sub(e.add(a.0[i].clone(), b.0[i].clone()), a.0[i].clone()), c.clone()), c.clone()) });
                let cv = c.to_sharetype();
                p.a.push((s, b.1 * &cv + &cv));
            }
            Mul => {
                let (a, b) = (pick(&mut p), pick(&mut p));
                let mut s = go!(|i, e| e.mul(cl(&a.0, i), cl(&b.0, i)));
                mfix(&mut s);
                p.a.push((s, a.1 * &b.1));
            }
            Dot(n) => {
                let a: Vec<_> = (0..*n).map(|_| pick(&mut p)).collect();
                let b: Vec<_> = (0..*n).map(|_| pick(&mut p)).collect();
                let mut s = go!(|i, e| e.dot(vecsh(&a, i), vecsh(&b, i)));
                mfix(&mut s);
                p.a.push((s, inner::<E>(&a, &b)));
            }
            DotMany(k, n) => {
                let a: Vec<Vec<_>> = (0..*k).map(|_| (0..*n).map(|_| pick(&mut p)).collect()).collect();
                let b: Vec<Vec<_>> = (0..*k).map(|_| (0..*n).map(|_| pick(&mut p)).collect()).collect();
                let av = [0, 1, 2].map(|i| a.iter().map(|v| vecsh(v, i)).collect::<Vec<_>>());
                let bv = [0, 1, 2].map(|i| b.iter().map(|v| vecsh(v, i)).collect::<Vec<_>>());
                let s = go!(|i, e| e.dot_many(&av[i], &bv[i]));
                for j in 0..*k {
                    if s.iter().any(|x| x.len() != *k) { return Err(format!("operation {} ({:?}): number of results", at, op)); }
                    let mut s = [s[0][j].clone(), s[1][j].clone(), s[2][j].clone()];
                    mfix(&mut s);
                    p.a.push((s, inner::<E>(&a[j], &b[j])));
                }
            }
            Msb => {
                let a = pick(&mut p);
                let mut s = go!(|i, e| e.get_msb(cl(&a.0, i)));
                bfix(&mut s);
                p.b.push((s, a.1.get_msb().convert().convert()));
            }
            MsbMany(n) => {
                let a: Vec<_> = (0..*n).map(|_| pick(&mut p)).collect();
                let s = go!(|i, e| e.get_msb_many(a.iter().map(|x| x.0[i].clone()).collect()));
                for j in 0..*n { let mut s = [s[0].get_at(j), s[1].get_at(j), s[2].get_at(j)]; bfix(&mut s); p.b.push((s, a[j].1.get_msb().convert().convert())); }
            }
            OrBits => {
                let (a, b) = (pickb(&mut p), pickb(&mut p));
                let mut s = go!(|i, e| e.binary_or(a.0[i].clone(), b.0[i].clone()));
                bfix(&mut s);
                p.b.push((s, a.1 | b.1));
            }
            Or(n, chunk) => {
                let b: Vec<_> = (0..*n).map(|_| pickb(&mut p)).collect();
                let sh: Vec<_> = b.iter().map(|x| x.0.clone()).collect();
                let mut s = go!(|i, e| e.reduce_binary_or(mkvec(&sh, i), *chunk));
                bfix(&mut s);
                p.b.push((s, b.iter().any(|x| x.1)));
            }
            Open => {
                let a = p.a.last().unwrap().clone();
                open!(|i, e| e.open(cl(&a.0, i)), |x| vec![u::<E::T>(x.to_sharetype())], vec![u::<E::T>(a.1)]);
            }
            OpenMany(n) => {
                let k = p.a.len();
                let a: Vec<_> = p.a[k - n.min(&k)..].to_vec();
                open!(|i, e| e.open_many(vecsh(&a, i)), |x| x.into_iter().map(|y| u::<E::T>(y.to_sharetype())).collect::<Vec<_>>(), a.iter().map(|x| u::<E::T>(x.1.clone())).collect());
            }
            OpenBit => {
                let b = p.b.last().unwrap().clone();
                open!(|i, e| e.open_bit(b.0[i].clone()), |x| vec![x as u128], vec![b.1 as u128]);
            }
            OpenBits(n) => {
                let k = p.b.len();
                let b: Vec<_> = p.b[k - n.min(&k)..].to_vec();
                let sh: Vec<_> = b.iter().map(|x| x.0.clone()).collect();
                open!(|i, e| e.open_bit_many(mkvec(&sh, i)), |x| x.into_iter().map(|y| y as u128).collect::<Vec<_>>(), b.iter().map(|x| x.1 as u128).collect());
            }
            Verify => {
                // the challenges of the zero-knowledge proofs are sampled, everything else stays symbolic
                sym::LITERAL_DRAWS.with(|l| l.set(E::KIND == Kind::Swift));
                let _reset = Reset;
                go!(|_i, e| e.verify());
            }
            Mark => {
                let mut h = hub.lock();
                h.count = [0; 3];
                h.log.clear();
                h.record = true;
                h.tamper = PENDING.with(|t| t.borrow_mut().take());
            }
            Precompute(n) => { go!(|_i, e| e.precompute_and_triples(*n)); }
        }
        if hub.leftover() != 0 && hub.lock().tamper.is_none() { return Err(format!("operation {} ({:?}): messages are left unread", at, op)); }
        each(es, at, op)?;
    }
    ran.at = ops.len();
    Ok(ran)
}
fn vecsh<A: ShareTrait, V>(a: &[([A; 3], V)], i: usize) -> A::VecShare where A::VecShare: VecShareTrait<Share = A> {
    let mut v = A::VecShare::with_capacity(a.len());
    for x in a { v.push(x.0[i].clone()); }
    v
}
fn inner<E: Eng>(a: &[([E::A; 3], Sh<E::T>)], b: &[([E::A; 3], Sh<E::T>)]) -> Sh<E::T> {
    let mut r = <Sh<E::T> as Zero>::zero();
    for (x, y) in a.iter().zip(b) { r = r + x.1.clone() * &y.1; }
    r
}
/// an honest run: no error, every opened value right
pub fn honest<E: Eng>(ops: &[Op]) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let r = script::<E>(&hub, &mut es, ops).map_err(|e| format!("{:?}: {}", ops, e))?;
    if let Some((i, e)) = r.errs.first() { return Err(format!("honest run {:?}: party {} reports {} at operation {}", ops, i, e, r.at)); }
    for (k, (g, w)) in r.opened.iter().zip(&r.want).enumerate() {
        for (i, v) in g { if v != w { return Err(format!("honest run {:?}: opening {} at party {}: got {:x?}, required {:x?}", ops, k, i, v, w)); } }
    }
    Ok(Out { vcs: ops.len(), ground: ops.len(), evals: 1, ..Default::default() })
}
/// random sequences of operations with verifications in between, ending with openings and a verification
pub fn random_script(len: usize, bits: bool, max: usize) -> Vec<Op> {
    let mut v = vec![Deal(3)];
    let r = |n: usize| (rnd() % n as u64) as usize;
    let mut nb = 0;
    for _ in 0..len {
        let op = match r(if bits { 12 } else { 8 }) {
            0 => Input(r(3)), 1 => Lin, 2 | 3 => Mul, 4 => Dot(1 + r(max)), 5 => DotMany(1 + r(max), 1 + r(max)), 6 => Verify, 7 => if r(2) == 0 { Open } else { OpenMany(1 + r(4)) },
            8 => { nb += 1; Msb }
            9 => { let n = 1 + r(2 * max); nb += n; MsbMany(n) }
            10 if nb > 0 => { nb += 1; if r(2) == 0 { OrBits } else { Or(1 + r(3 * max), 1 + r(5)) } }
            11 if nb > 0 => if r(2) == 0 { OpenBit } else { OpenBits(1 + r(4)) },
            _ => Mul,
        };
        if op == Verify && nb > 0 { v.push(Precompute(1 << 20)); }
        v.push(op);
    }
    if nb > 0 { v.push(Precompute(1 << 20)); }
    v.push(Verify);
    v.push(OpenMany(9));
    if nb > 0 { v.push(OpenBits(9)); }
    v.push(Verify);
    v
}
pub fn random_honest<E: Eng>(n: usize, len: usize, bits: bool, max: usize) -> Result<Out, String> {
    reps(n, |_| honest::<E>(&random_script(1 + (rnd() % len as u64) as usize, bits, max)))
}

// ---------------------------------------------------------------- C15
thread_local! { static MEND: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }
struct Unmend;
impl Drop for Unmend { fn drop(&mut self) { MEND.with(|m| m.set(None)); } }
/// what the deviating party does besides altering the message
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Then {
    /// nothing
    Plain,
    /// keeps its own shares of every result consistent with what the others hold
    Mend,
    /// the same, and reports the digest it was sent instead of its own
    MendCopy,
}
use Then::*;
thread_local! { static PENDING: std::cell::RefCell<Option<Tamper>> = const { std::cell::RefCell::new(None) }; }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alt { FlipFirst, FlipLast, FlipTop, FlipAny, AddOne, Zero, Random, Short, Long, Empty, SwapHalves, Shift, ShiftOne(usize) }
use Alt::*;
pub const ALL: [Alt; 11] = [FlipFirst, FlipLast, FlipTop, FlipAny, AddOne, Zero, Random, Short, Long, Empty, SwapHalves];
pub const VALUES: [Alt; 6] = [FlipFirst, FlipLast, FlipTop, FlipAny, AddOne, Random];
fn thens(a: Alt) -> &'static [Then] { match a { FlipFirst | FlipTop | AddOne | Shift => &[Plain, Mend, MendCopy], FlipLast | FlipAny | ShiftOne(_) => &[Plain, Mend], Random => &[Plain, MendCopy], _ => &[Plain] } }
fn alter(a: Alt, r: &mut ChaCha12Rng, m: &mut Vec<u8>) {
    let n = m.len();
    if n == 0 { if a == Long { m.push(0); } return; }
    match a {
        FlipFirst => m[0] ^= 1,
        FlipLast => m[n - 1] ^= 1,
        FlipTop => m[n - 1] ^= 0x80,
        FlipAny => { let k = r.gen_range(0..n); m[k] ^= 1 << r.gen_range(0..8) }
        AddOne => { let k = r.gen_range(0..n); m[k] = m[k].wrapping_add(1) }
        Zero => m.iter_mut().for_each(|x| *x = 0),
        Random => r.fill_bytes(m),
        Short => { m.pop(); }
        Long => m.push(r.gen()),
        Empty => m.clear(),
        SwapHalves => m.rotate_left(n / 2),
        Shift => { if !shift(m, None) { m[0] ^= 1; } }
        ShiftOne(j) => { if !shift(m, Some(j)) { m[n - 1] ^= 1; } }
    }
}
/// a message of symbolic elements: element `sel` (or all) is shifted by an arbitrary amount; false if it is no such message
fn shift(m: &mut Vec<u8>, sel: Option<usize>) -> bool {
    for w in [64u32, 32, 16] {
        let b = w as usize / 8;
        if m.is_empty() || m.len() % b != 0 { continue; }
        let x: Vec<u64> = m.as_slice().chunks(b).map(|c: &[u8]| c.iter().fold(0u64, |a, y| a << 8 | *y as u64)).collect();
        if x.iter().any(|x| *x > u32::MAX as u64) { continue; }
        let ids: Vec<Option<sym::Id>> = sym::with(|s| x.iter().map(|x| s.from_wire(w, *x as u32)).collect());
        if ids.iter().any(|i| i.is_none()) { continue; }
        for (j, id) in ids.into_iter().enumerate() {
            if sel.map_or(false, |k| k % x.len() != j) { continue; }
            let y = sym::with(|s| { let d = s.var(w, &format!("delta{}", s.var_names.len())); let n = s.mk(w, sym::N::Add(id.unwrap(), d)); s.to_wire_data(n) }) as u64;
            m[j * b..(j + 1) * b].copy_from_slice(&y.to_be_bytes()[8 - b..]);
        }
        return true;
    }
    false
}
/// one run in which party `from` alters its messages number `ks` (counted from Mark)
fn tampered<E: Eng>(ops: &[Op], from: usize, ks: &[usize], a: Alt, then: Then) -> Result<&'static str, String> {
    if <E::T as Val>::SYMBOLIC { sym::reset(); }
    let (hub, mut es) = setup::<E>()?;
    let mut r = challenge_rng();
    let changed = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (c2, ks2) = (changed.clone(), ks.to_vec());
    let mut digest: Option<Vec<u8>> = None;
    let mut armed = false;
    PENDING.with(|t| *t.borrow_mut() = Some(Box::new(move |f, to, k, m| {
        if then == MendCopy && to == from && m.len() == 64 { digest = Some(m.clone()); }
        if f == from && ks2.contains(&k) {
            let old = m.clone();
            alter(a, &mut r, m);
            if *m != old { armed = true; c2.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
        } else if f == from && armed && m.len() == 64 {
            if let Some(d) = &digest { *m = d.clone(); }
        }
    })));
    let _unmend = Unmend;
    MEND.with(|m| m.set(if then == Plain { None } else { Some(from) }));
    let run = script::<E>(&hub, &mut es, ops)?;
    let wrong = run.opened.iter().zip(&run.want).enumerate().find_map(|(k, (g, w))| g.iter().find(|(i, v)| *i != from && v != w).map(|(i, v)| format!("opening {} at party {}: {:x?} instead of {:x?}", k, i, v, w)));
    if changed.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        if let Some((i, e)) = run.errs.first() { return Err(format!("no message was altered, but party {} reports {} at operation {}", i, e, run.at)); }
        return match wrong { Some(w) => Err(format!("no message was altered, but {}", w)), None => Ok("same") };
    }
    if run.errs.iter().any(|(i, _)| *i != from) { return Ok("error"); }
    if let Some(w) = wrong { return Err(format!("no honest party reports an error, {}", w)); }
    if !run.errs.is_empty() { return Err(format!("only the deviating party itself reports an error, at operation {}: {}", run.at, run.errs[0].1)); }
    Ok("unchanged")
}
/// every message after Mark x every alteration (of one party's message, or of two messages of the same party)
pub fn tamper_all<E: Eng>(ops: &[Op], alts: &[Alt], stride: usize, pairs: usize) -> Result<Out, String> { tamper_part::<E>(ops, alts, stride, None, pairs) }
/// the messages whose number is congruent to `part` (or random) modulo `stride`
pub fn tamper_part<E: Eng>(ops: &[Op], alts: &[Alt], stride: usize, part: Option<usize>, pairs: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    PENDING.with(|t| *t.borrow_mut() = None);
    let h = script::<E>(&hub, &mut es, ops)?;
    if let Some((i, e)) = h.errs.first() { return Err(format!("honest run: party {} reports {}", i, e)); }
    let log = hub.lock().log.clone();
    drop(es);
    let mut o = Out::default();
    let mut cnt = [0usize; 3];
    let mut tally: std::collections::BTreeMap<&'static str, usize> = Default::default();
    let mut one = |from: usize, ks: &[usize], a: Alt, then: Then, what: String| -> Result<(), String> {
        let what = match then { Plain => what, Mend => format!("{} and keeps its shares consistent", what), MendCopy => format!("{}, keeps its shares consistent and repeats the digest of another party", what) };
        let r = catch(|| tampered::<E>(ops, from, ks, a, then));
        let r = match r { Ok(Ok(x)) => x, Ok(Err(e)) => return Err(format!("{:?}: {}: {}", ops, what, e)), Err(p) if p.contains("SYM-") || p.contains("VP-HARNESS") => panic!("{}", p), Err(p) => return Err(format!("{:?}: {}: a party panics: {}", ops, what, p)) };
        *tally.entry(r).or_default() += 1;
        o.evals += 1; o.vcs += 1; o.ground += 1;
        Ok(())
    };
    for (j, (from, to, len)) in log.iter().enumerate() {
        let k = cnt[*from];
        cnt[*from] += 1;
        if j % stride != part.unwrap_or_else(|| (rnd() as usize) % stride) { continue; }
        for a in alts { for t in thens(*a) { one(*from, &[k], *a, *t, format!("party {} alters its message number {} ({} bytes, to party {}) by {:?}", from, k, len, to, a))?; } }
    }
    for _ in 0..pairs {
        let from = (rnd() % 3) as usize;
        let (k1, k2) = ((rnd() as usize) % cnt[from], (rnd() as usize) % cnt[from]);
        let a = [FlipFirst, FlipLast, FlipTop][(rnd() % 3) as usize];
        one(from, &[k1, k2], a, [Plain, Mend, MendCopy][(rnd() % 3) as usize], format!("party {} alters its messages number {} and {} by {:?}", from, k1, k2, a))?;
    }
    o.notes.push(format!("{} messages: {:?}", log.len(), tally));
    Ok(o)
}

/// every pair among the first `first` messages of each party after Mark, both shifted by the same amount (8-bit values,
/// the top bit): deviations that are consistent on the wire and only show in what is verified afterwards
pub fn tamper_pairs<E: Eng>(ops: &[Op], first: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    PENDING.with(|t| *t.borrow_mut() = None);
    let h = script::<E>(&hub, &mut es, ops)?;
    if let Some((i, e)) = h.errs.first() { return Err(format!("{:?}: honest run: party {} reports {}", ops, i, e)); }
    let cnt = hub.sent();
    drop(es);
    let mut o = Out::default();
    for from in 0..3 {
        let n = cnt[from].min(first);
        for k1 in 0..n { for k2 in k1 + 1..n { for t in [Plain, Mend] {
            let what = format!("{:?}: party {} shifts its messages number {} and {} by the same amount{}", ops, from, k1, k2, if t == Mend { " and keeps its shares consistent" } else { "" });
            match catch(|| tampered::<E>(ops, from, &[k1, k2], FlipTop, t)) {
                Ok(Ok(_)) => {}
                Ok(Err(e)) => return Err(format!("{}: {}", what, e)),
                Err(p) if p.contains("VP-HARNESS") => panic!("{}", p),
                Err(p) => return Err(format!("{}: a party panics: {}", what, p)),
            }
            o.evals += 1; o.vcs += 1; o.ground += 1;
        } } }
    }
    Ok(o)
}

/// `n` random messages of one run, one alteration each
pub fn tamper_sampled<E: Eng>(ops: &[Op], n: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    PENDING.with(|t| *t.borrow_mut() = None);
    let h = script::<E>(&hub, &mut es, ops)?;
    if let Some((i, e)) = h.errs.first() { return Err(format!("{:?}: honest run: party {} reports {}", ops, i, e)); }
    let cnt = hub.sent();
    drop(es);
    let mut o = Out::default();
    for j in 0..n {
        let from = j % 3;
        if cnt[from] == 0 { continue; }
        let k = (rnd() as usize) % cnt[from];
        let a = ALL[(rnd() % 11) as usize];
        let what = format!("{:?}: party {} alters its message number {} by {:?}", ops, from, k, a);
        let t = thens(a)[(rnd() as usize) % thens(a).len()];
        let what = format!("{} and then {:?}", what, t);
        match catch(|| tampered::<E>(ops, from, &[k], a, t)) {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => return Err(format!("{}: {}", what, e)),
            Err(p) if p.contains("VP-HARNESS") => panic!("{}", p),
            Err(p) => return Err(format!("{}: a party panics: {}", what, p)),
        }
        o.evals += 1; o.vcs += 1; o.ground += 1;
    }
    Ok(o)
}
/// a whole database query in which one party alters one of its messages
pub fn tamper_query<E: Eng>(n: usize, hit: Option<usize>, chunk: usize, samples: usize) -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    use super::obs_iris::*;
    let a = iris(12_000);
    let (near, far) = (partner(&a, 11_000, thr(11_000) - 1), partner(&a, 10_999, thr(10_999)));
    let mut o = Out::default();
    let mut tally: std::collections::BTreeMap<&'static str, usize> = Default::default();
    let mut one = |t: Option<(usize, usize, Alt)>| -> Result<[usize; 3], String> {
        let (hub, es) = setup::<E>()?;
        let key = E::dealer_key(&es);
        let mut ps3 = wrap::<E>(es)?;
        let (sn, sf, sa) = (deal::<E>(key, &near.code), deal::<E>(key, &far.code), deal::<E>(key, &a.code));
        let (masks, sb): (Vec<_>, Vec<_>) = (0..n).map(|k| if Some(k) == hit { (near.mask, &sn) } else { (far.mask, &sf) }).unzip();
        let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&sa, i), sb.iter().map(|x| mkvec(x, i)).collect())).collect();
        let mut r = challenge_rng();
        let changed = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        { let mut h = hub.lock(); h.count = [0; 3]; }
        if let Some((from, k, al)) = t {
            let c2 = changed.clone();
            hub.set_tamper(Some(Box::new(move |f, _to, j, m| if f == from && j == k { let old = m.clone(); alter(al, &mut r, m); if *m != old { c2.store(true, std::sync::atomic::Ordering::SeqCst); } })));
        }
        let what = match t { None => "honest query".to_string(), Some((f, k, al)) => format!("query in which party {} alters its message number {} by {:?}", f, k, al) };
        let r = match catch(|| vp_run3!(&hub, ps3, |i, p| p.iris_in_db(&ins[i].0, &ins[i].1, &a.mask, &masks, chunk))) { Ok(r) => r.map_err(|e| format!("{}: {}", what, e))?, Err(p) => return Err(format!("{}: a party panics: {}", what, p)) };
        let from = t.map(|t| t.0);
        let err = r.iter().enumerate().any(|(i, x)| x.is_err() && Some(i) != from);
        let wrong = r.iter().enumerate().find(|(i, x)| Some(*i) != from && matches!(x, Ok(b) if *b != hit.is_some()));
        o.vcs += 1; o.ground += 1; o.evals += 1;
        let ch = changed.load(std::sync::atomic::Ordering::SeqCst);
        *tally.entry(if !ch { "honest" } else if err { "error" } else { "unchanged" }).or_default() += 1;
        if err && !ch { return Err(format!("{}: no message was altered but a party reports an error", what)); }
        if !err && wrong.is_some() { return Err(format!("{}: party {} gets the wrong answer and no honest party reports an error", what, wrong.unwrap().0)); }
        if !err && r.iter().any(|x| x.is_err()) { return Err(format!("{}: only the deviating party reports an error", what)); }
        Ok(hub.sent())
    };
    let cnt = one(None)?;
    for j in 0..samples {
        let from = j % 3;
        // the last messages (verification and opening) and any other
        let k = if j % 2 == 0 { cnt[from] - 1 - (rnd() as usize) % cnt[from].min(24) } else { (rnd() as usize) % cnt[from] };
        one(Some((from, k, VALUES[(rnd() % 6) as usize])))?;
    }
    drop(one);
    o.notes.push(format!("{:?} messages per party: {:?}", cnt, tally));
    Ok(o)
}
/// false statements about every gate, by every party, with and without the prover working with the false value itself
fn cheats(n: usize, f: impl Fn(Cheat) -> Result<Out, String>) -> Result<Out, String> {
    let mut o = Out::default();
    for gate in 0..n { for from in 0..3 { for own in [false, true] { o.add(f(Cheat { from, gate, own })?); } } }
    Ok(o)
}
/// symbolic values: each message after Mark is shifted by an arbitrary amount
pub fn tamper_sym<E: Eng>(ops: &[Op], singles: usize, parts: usize, part: usize) -> Result<Out, String> {
    let mut o = tamper_part::<E>(ops, &[Shift], parts, Some(part), 0)?;
    for j in 0..singles { o.add(tamper_part::<E>(ops, &[ShiftOne(j)], parts, Some(part), 0)?); }
    o.ring = o.vcs; o.ground = 0; o.evals = 0;
    Ok(o)
}

macro_rules! honest_engine { ($obs:ident, $E:ty, $n:expr, $len:expr, $bits:expr, $max:expr, $parts:expr) => {
    for part in 0..$parts {
        $obs.add("C14", format!("{}: sequences of operations, part {}", <$E>::ename(), part), "bounded", { let n: usize = $n; format!("{} random sequences of up to {} operations with verifications in between, batches up to {}", n, $len, $max) }, { let n: usize = $n; move || random_honest::<$E>(n, $len, $bits, $max) });
    }
} }
pub fn collect_c14(obs: &mut Obs) {
    let th = obs.thorough;
    let k = move |q: usize, t: usize| if th { t } else { q };
    // proofs, all operand values and all resharing randomness
    for n in 1..=k(3, 6) {
        obs.add("C14", format!("multiplication proof, {} products, all operands", n), "proved", "all operands and resharing randomness (symbolic 16-bit), sampled challenges, m = 1", move || { let mut o = mul_proof::<S16>(&[n], false, Some((n, 1)))?; o.add(mul_proof::<S16>(&[n], true, Some((n, 1)))?); Ok(o) });
    }
    for ls in [vec![1], vec![2], vec![1, 2], vec![2, 1]] {
        let (n, l) = (format!("dot product proof, lengths {:?}, all operands", ls), ls.len());
        obs.add("C14", n, "proved", "all operands and resharing randomness (symbolic 16-bit), sampled challenges, m = 1", move || dot_proof::<S16>(&[ls.clone()], l == 1, Some((l, 1))));
    }
    // proofs, many challenges
    for part in 0..4usize {
        let n = k(150, 3000);
        obs.add("C14", format!("multiplication proof, u8, challenges {}", part), "bounded", format!("{} sampled executions", n), move || reps(n, |_| mul_proof::<u8>(&[1 + part], part % 2 == 0, None)));
        obs.add("C14", format!("dot product proof, u8, challenges {}", part), "bounded", format!("{} sampled executions", n), move || reps(n / 2, |_| dot_proof::<u8>(&[vec![1 + part]], part % 2 == 0, None)));
        obs.add("C14", format!("AND proof, challenges {}", part), "bounded", format!("{} sampled executions", n), move || reps(n, |_| and_proof::<u8>(&[1 + part], part % 2 == 0, None)));
    }
    obs.add("C14", "AND proof, one gate, all operand and resharing bits", "exhaustive", "all 512 values, sampled challenges", || reps(512, |k| and_proof::<Bit>(&[1], k % 2 == 0, Some(k as u32))));
    obs.add("C14", "multiplication proof, sizes", "bounded", "1..40 products and larger", move || { let mut o = Out::default(); for n in (1..k(20, 40)).chain([49, 50, k(65, 150)]) { o.add(mul_proof::<u16>(&[n], false, None)?); } Ok(o) });
    obs.add("C14", "dot product proof, sizes", "bounded", "lengths 1..12, 1..8 products of equal or random lengths", move || { let mut o = Out::default(); for n in 1..=k(8, 12) { o.add(dot_proof::<u16>(&[vec![n; 1 + n % 5]], false, None)?); } for _ in 0..k(6, 30) { let ls: Vec<Vec<usize>> = (0..3).map(|_| (0..1 + rnd() % 4).map(|_| 1 + (rnd() % 6) as usize).collect()).collect(); o.add(dot_proof::<u16>(&ls, true, None)?); } Ok(o) });
    obs.add("C14", "AND proof, sizes", "bounded", "1..20 words of every width, repeated verifications", move || { let mut o = Out::default(); for n in 1..=20 { o.add(and_proof::<Bit>(&[n], false, None)?); o.add(and_proof::<u16>(&[n, 1 + n % 3], true, None)?); } o.add(and_proof::<u128>(&[k(3, 9), 2], true, None)?); o.add(and_proof::<u64>(&[k(5, 40)], false, None)?); Ok(o) });
    // engines
    honest_engine!(obs, EMal<u8>, k(8, 80), 12, true, 4, 2);
    honest_engine!(obs, EMal<u16>, k(8, 80), 12, true, 4, 2);
    honest_engine!(obs, ESwift<u8>, k(6, 60), 10, true, 3, 2);
    honest_engine!(obs, ESwift<u16>, k(6, 60), 10, true, 3, 2);
    honest_engine!(obs, ESwift<u32>, k(4, 40), 8, false, 3, 1);
    honest_engine!(obs, ESpdz<u16>, k(40, 400), 20, false, 6, 2);
    honest_engine!(obs, ESpdz<u32>, k(40, 400), 20, false, 6, 1);
    honest_engine!(obs, ESpdz<u8>, k(1, 10), 6, true, 4, 2);
    honest_engine!(obs, ESpdz<u16>, k(1, 10), 6, true, 20, 2);
    for (name, ops) in [("empty", vec![Verify, Verify]), ("nothing between verifications", vec![Deal(2), Mul, Verify, Verify, Open, Verify]), ("openings only", vec![Deal(3), Open, OpenMany(3), Verify])] {
        for e in 0..3 {
            let ops = ops.clone();
            obs.add("C14", format!("engine {}: {}", e, name), "bounded", "one sequence", move || match e { 0 => honest::<EMal<u16>>(&ops), 1 => honest::<ESwift<u16>>(&ops), _ => honest::<ESpdz<u16>>(&ops) });
        }
    }
}

macro_rules! tamper_engine { ($obs:ident, $E:ty, $name:expr, $alts:expr, $stride:expr, $pairs:expr, $ops:expr) => {{
    let (ops, alts, stride, pairs): (Vec<Op>, Vec<Alt>, usize, usize) = ($ops, $alts.to_vec(), $stride, $pairs);
    $obs.add("C15", format!("{}: {}", <$E>::ename(), $name), "bounded", format!("one in {} messages x {} alterations, {} pairs of messages; operations {:?}", stride, alts.len(), pairs, ops), move || tamper_all::<$E>(&ops, &alts, stride, pairs));
}} }
pub fn collect_c15(obs: &mut Obs) {
    let th = obs.thorough;
    let k = move |q: usize, t: usize| if th { t } else { q };
    let what = "all operands, all resharing randomness, every gate falsified by an arbitrary amount (generic), sampled challenges, m = 1";
    for n in 1..=k(2, 4) { obs.add("C15", format!("multiplication proof, {} products: false statements", n), "proved", what, move || cheats(n, |c| mul_proof_c::<S16>(&[n], c.own, Some((n, 1)), Some(c)))); }
    for ls in [vec![1], vec![2], vec![1, 2]] { obs.add("C15", format!("dot product proof, lengths {:?}: false statements", ls), "proved", what, move || cheats(ls.len(), |c| dot_proof_c::<S16>(&[ls.clone()], c.own, Some((ls.len(), 1)), Some(c)))); }
    let m = k(7, 20);
    obs.add("C15", "multiplication proof: false statements, sizes", "bounded", format!("1..{} products, every gate, every party, sampled errors and challenges", m), move || { let mut o = Out::default(); for n in 1..=m { o.add(cheats(n, |c| mul_proof_c::<u8>(&[n], n % 2 == 0, None, Some(c)))?); o.add(cheats(n, |c| mul_proof_c::<u16>(&[n], n % 2 == 0, None, Some(c)))?); } Ok(o) });
    obs.add("C15", "dot product proof: false statements, sizes", "bounded", format!("1..{} dot products of lengths 1..3, every one, every party, sampled errors and challenges", m - 3), move || { let mut o = Out::default(); for n in 1..=m - 3 { let ls: Vec<usize> = (0..n).map(|j| 1 + j % 3).collect(); o.add(cheats(n, |c| dot_proof_c::<u8>(&[ls.clone()], n % 2 == 0, None, Some(c)))?); o.add(cheats(n, |c| dot_proof_c::<u16>(&[ls.clone()], n % 2 == 0, None, Some(c)))?); } Ok(o) });
    obs.add("C15", "AND proof: false statements, sizes", "bounded", format!("1..{} words of every width, every word, every party, sampled errors and challenges", 2 * m), move || { let mut o = Out::default(); for n in 1..=2 * m { o.add(cheats(n, |c| and_proof_c::<Bit>(&[n], n % 2 == 0, None, Some(c)))?); if n <= 4 { o.add(cheats(n, |c| and_proof_c::<u16>(&[n], n % 2 == 0, None, Some(c)))?); } if n <= 2 { o.add(cheats(n, |c| and_proof_c::<u64>(&[n], n % 2 == 0, None, Some(c)))?); } } o.add(cheats(1, |c| and_proof_c::<u128>(&[1], true, None, Some(c)))?); Ok(o) });
    let arith = || vec![Deal(3), Mark, Mul, Lin, Dot(2), DotMany(2, 2), OpenMany(4), Verify];
    let opens = || vec![Deal(3), Mark, Open, OpenMany(3), Verify];
    let checked = || vec![Deal(3), Mark, Mul, Mul, Verify, Open, OpenMany(2), Mul, Verify, Open, Verify];
    let bits = || vec![Deal(3), Mark, Msb, MsbMany(2), OrBits, OpenBit, OpenBits(3), Precompute(1 << 20), Verify];
    macro_rules! engine { ($E:ty) => {{
        tamper_engine!(obs, $E, "openings", ALL, 1, k(20, 200), opens());
        tamper_engine!(obs, $E, "multiplication and dot products", ALL, 1, k(20, 200), arith());
        tamper_engine!(obs, $E, "verification, then openings", VALUES, 1, k(20, 200), checked());
    }} }
    engine!(EMal<u8>);
    engine!(EMal<u16>);
    engine!(ESwift<u8>);
    engine!(ESwift<u16>);
    engine!(ESpdz<u8>);
    engine!(ESpdz<u16>);
    engine!(ESpdz<u32>);
    for (name, ops) in [("opening", vec![Deal(2), Mark, Open, Verify]), ("opening of three values", vec![Deal(3), Mark, OpenMany(3), Verify]), ("product", vec![Deal(2), Mark, Mul, Open, Verify]), ("product and verification", vec![Deal(2), Mark, Mul, Verify, Open, Verify]), ("dot product", vec![Deal(4), Mark, Dot(2), Open, Verify]), ("batch of dot products", vec![Deal(4), Mark, DotMany(2, 1), OpenMany(2), Verify])] {
        let sw = !ops.iter().any(|o| matches!(o, Dot(_) | DotMany(..)));
        let c = [ops.clone(), ops.clone(), ops];
        let [c0, c1, c2] = c;
        let what = "all secrets, all masking randomness, every message shifted by an arbitrary amount (generic: all but a vanishing fraction of the values)";
        obs.add("C15", format!("MalAby3: {}, symbolic", name), "proved", what, move || tamper_sym::<EMal<S16>>(&c0, 3, 1, 0));
        obs.add("C15", format!("SpdzWise: {}, symbolic", name), "proved", what, move || tamper_sym::<ESpdz<S16>>(&c1, 3, 1, 0));
        let parts = if !sw { 0 } else if name.starts_with("product") { 8 } else { 1 };
        for part in 0..parts { let c2 = c2.clone(); obs.add("C15", format!("Swift3: {}, symbolic, part {}", name, part), "proved", what, move || tamper_sym::<ESwift<S16>>(&c2, 2, parts, part)); }
    }
    for (name, ops) in [("a single product", vec![Deal(2), Mark, Mul, Open, Verify]), ("a single dot product", vec![Deal(3), Mark, Dot(2), Open, Verify]), ("a batch of one dot product", vec![Deal(3), Mark, DotMany(1, 2), OpenMany(1), Verify])] {
        let (c0, c1, c2) = (ops.clone(), ops.clone(), ops);
        let sc = "every pair of the first 7 messages of each party, shifted by the same amount";
        obs.add("C15", format!("MalAby3<u8>: {}, pairs", name), "bounded", sc, move || tamper_pairs::<EMal<u8>>(&c0, 7));
        obs.add("C15", format!("SpdzWise<u8>: {}, pairs", name), "bounded", sc, move || tamper_pairs::<ESpdz<u8>>(&c1, 7));
        obs.add("C15", format!("Swift3<u8>: {}, pairs", name), "bounded", sc, move || tamper_pairs::<ESwift<u8>>(&c2, 7));
    }
    {
        let (o1, o2) = (vec![Deal(3), Mark, OpenMany(1500), Verify], vec![Deal(3), Mark, DotMany(1200, 1), OpenMany(1200), Verify]);
        let alts = [FlipLast, FlipAny];
        let (a, b) = (o1.clone(), o1.clone());
        obs.add("C15", "MalAby3<u16>: long lists", "bounded", "1500 openings, every message x 2 alterations", move || tamper_all::<EMal<u16>>(&a, &alts, 1, 0));
        obs.add("C15", "SpdzWise<u16>: long lists", "bounded", "1500 openings, every message x 2 alterations", move || tamper_all::<ESpdz<u16>>(&b, &alts, 1, 0));
        obs.add("C15", "Swift3<u16>: long lists", "bounded", "1500 openings, every message x 2 alterations", move || tamper_all::<ESwift<u16>>(&o1, &alts, 1, 0));
        let c = o2.clone();
        obs.add("C15", "MalAby3<u16>: long lists of products", "bounded", "1200 dot products and openings, every message x 2 alterations", move || tamper_all::<EMal<u16>>(&o2, &alts, 1, 0));
        obs.add("C15", "SpdzWise<u16>: long lists of products", "bounded", "1200 dot products and openings, every message x 2 alterations", move || tamper_all::<ESpdz<u16>>(&c, &alts, 1, 0));
    }
    macro_rules! random { ($E:ty, $n:expr, $len:expr, $bits:expr, $max:expr, $parts:expr) => { for part in 0..$parts {
        let n: usize = $n;
        obs.add("C15", format!("{}: random sequences, part {}", <$E>::ename(), part), "bounded", format!("{} random sequences of up to {} operations, 12 altered messages each", n, $len), move || reps(n, |_| {
            let mut v = random_script(1 + (rnd() % $len) as usize, $bits, $max);
            v.insert(1, Mark);
            tamper_sampled::<$E>(&v, 12)
        }));
    } } }
    random!(EMal<u8>, k(200, 3000), 10, true, 3, 2);
    random!(EMal<u16>, k(200, 3000), 10, true, 3, 2);
    random!(ESpdz<u8>, k(400, 6000), 12, false, 4, 2);
    random!(ESpdz<u16>, k(400, 6000), 12, false, 4, 1);
    random!(ESpdz<u32>, k(400, 6000), 12, false, 4, 1);
    random!(ESwift<u8>, k(3, 20), 6, true, 2, 2);
    random!(ESwift<u16>, k(3, 20), 6, true, 2, 2);
    for (n, hit) in [(1usize, Some(0usize)), (1, None), (3, Some(1)), (3, None)] {
        let f = |e: &str| format!("{}: query to a database of {}, match at {:?}", e, n, hit);
        let sc = "one altered message per execution, sampled";
        let (q, c) = (k(12, 150), 2);
        obs.add("C15", f("MalAby3<u16>"), "bounded", sc, move || tamper_query::<EMal<u16>>(n, hit, c, q));
        obs.add("C15", f("SpdzWise<u16>"), "bounded", sc, move || tamper_query::<ESpdz<u16>>(n, hit, c, q));
    }
    tamper_engine!(obs, EMal<u16>, "comparison bits", VALUES, k(3, 1), k(10, 100), bits());
    tamper_engine!(obs, ESwift<u16>, "comparison bits", VALUES, k(3, 1), k(10, 100), bits());
    for part in 0..4usize { tamper_engine!(obs, ESpdz<u16>, format!("comparison bits, part {}", part), [FlipFirst, FlipAny, Random], k(12, 3), k(4, 50), bits()); }
}
