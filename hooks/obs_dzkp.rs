// C12, C13: polynomial and GF(2^64) arithmetic of the distributed zero-knowledge proofs.
use super::ob::{self, app, decide, eqn, want, Obs, Out, Pair, Val};
use super::sym::{S16, S32, S64};
use crate::dzkp::gf2p64::GF2p64;
use crate::dzkp::irreducible_polys::IrreduciblePolys;
use crate::dzkp::polynomial::{Poly, PolyTrait};
use crate::error::Error;
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use num_traits::{One, Zero};
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;

macro_rules! must { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }
fn ok(n: usize) -> Result<Out, String> { let mut o = Out::default(); o.vcs = n; o.ground = n; o.evals = n; Ok(o) }

type P<T> = Poly<RingElement<T>>;
/// coefficient k of the polynomial (zero beyond its length)
fn co<T: IntRing2k>(p: &P<T>, k: usize) -> RingElement<T> { p.coeffs.get(k).cloned().unwrap_or_else(RingElement::zero) }
fn eqs<T: Val<Share = RingElement<T>> + IntRing2k>(v: &mut Vec<Pair>, label: &str, got: &P<T>, want: &[RingElement<T>]) {
    for k in 0..got.coeffs.len().max(want.len()) {
        v.push(T::pair(format!("{} coefficient {}", label, k), co(got, k), want.get(k).cloned().unwrap_or_else(RingElement::zero)));
    }
}
/// a polynomial of the given length; bit k of the pattern says whether coefficient k is zero
fn poly<T: Val<Share = RingElement<T>> + IntRing2k>(name: &str, len: usize, zeros: usize) -> P<T> {
    Poly::from_vec((0..len).map(|k| if zeros >> k & 1 == 1 { RingElement(T::lit(0)) } else { RingElement(T::fresh(&format!("{}{}", name, k))) }).collect())
}

/// every operator form against the coefficient-wise definition
fn ops<T: Val<Share = RingElement<T>> + IntRing2k>(la: usize, za: usize, lb: usize, zb: usize) -> Vec<Pair> {
    let (a, b) = (poly::<T>("a", la, za), poly::<T>("b", lb, zb));
    let c = RingElement(T::fresh("c"));
    let n = la.max(lb);
    let mut v = vec![];
    let sum: Vec<_> = (0..n).map(|k| co(&a, k) + co(&b, k)).collect();
    let dif: Vec<_> = (0..n).map(|k| co(&a, k) - co(&b, k)).collect();
    let mut pro = vec![RingElement(T::lit(0)); la + lb];
    for i in 0..la { for j in 0..lb { pro[i + j] = pro[i + j].clone() + co(&a, i) * co(&b, j); } }
    eqs(&mut v, "a + b", &(a.clone() + b.clone()), &sum);
    eqs(&mut v, "a + &b", &(a.clone() + &b), &sum);
    let mut x = a.clone(); x += b.clone(); eqs(&mut v, "a += b", &x, &sum);
    let mut x = a.clone(); x += &b; eqs(&mut v, "a += &b", &x, &sum);
    eqs(&mut v, "a - b", &(a.clone() - b.clone()), &dif);
    eqs(&mut v, "a - &b", &(a.clone() - &b), &dif);
    let mut x = a.clone(); x -= b.clone(); eqs(&mut v, "a -= b", &x, &dif);
    let mut x = a.clone(); x -= &b; eqs(&mut v, "a -= &b", &x, &dif);
    eqs(&mut v, "a * b", &(a.clone() * b.clone()), &pro);
    eqs(&mut v, "a * &b", &(a.clone() * &b), &pro);
    let mut x = a.clone(); x *= b.clone(); eqs(&mut v, "a *= b", &x, &pro);
    let mut x = a.clone(); x *= &b; eqs(&mut v, "a *= &b", &x, &pro);
    eqs(&mut v, "-a", &-a.clone(), &(0..la).map(|k| -co(&a, k)).collect::<Vec<_>>());
    // with a scalar
    let mut s = a.coeffs.clone(); if s.is_empty() { s.push(RingElement(T::lit(0))); }
    let mut ps = s.clone(); ps[0] = ps[0].clone() + &c;
    let mut ms = s.clone(); ms[0] = ms[0].clone() - &c;
    let sc: Vec<_> = a.coeffs.iter().map(|x| x.clone() * &c).collect();
    eqs(&mut v, "a + c", &(a.clone() + c.clone()), &ps);
    eqs(&mut v, "a + &c", &(a.clone() + &c), &ps);
    let mut x = a.clone(); x += c.clone(); eqs(&mut v, "a += c", &x, &ps);
    let mut x = a.clone(); x += &c; eqs(&mut v, "a += &c", &x, &ps);
    eqs(&mut v, "a - c", &(a.clone() - c.clone()), &ms);
    eqs(&mut v, "a - &c", &(a.clone() - &c), &ms);
    let mut x = a.clone(); x -= c.clone(); eqs(&mut v, "a -= c", &x, &ms);
    let mut x = a.clone(); x -= &c; eqs(&mut v, "a -= &c", &x, &ms);
    eqs(&mut v, "a * c", &(a.clone() * c.clone()), &sc);
    eqs(&mut v, "a * &c", &(a.clone() * &c), &sc);
    let mut x = a.clone(); x *= c.clone(); eqs(&mut v, "a *= c", &x, &sc);
    let mut x = a.clone(); x *= &c; eqs(&mut v, "a *= &c", &x, &sc);
    eqs(&mut v, "lift c", &Poly::lift(c.clone()), &[c.clone()]);
    // evaluation: sum of a_k c^k
    let mut e = RingElement(T::lit(0)); let mut pw = RingElement(T::lit(1));
    for k in 0..la { e = e + co(&a, k) * &pw; pw = pw * &c; }
    v.push(T::pair("a(c)".into(), a.clone().evaluate(&c), e));
    // degree, zero, one, leading coefficient, shrink
    let nz = (0..la).filter(|k| za >> k & 1 == 0).max();
    v.push(want("zero is recognised", a.is_zero() == nz.is_none()));
    v.push(eqn("degree", a.degree() as u128, nz.unwrap_or(0) as u128));
    if let Some(d) = nz { v.push(T::pair("leading coefficient".into(), a.leading_coeff().clone(), co(&a, d))); }
    let mut x = a.clone(); x.shrink();
    v.push(eqn("length after shrink", x.coeffs.len() as u128, nz.unwrap_or(0) as u128 + 1));
    eqs(&mut v, "shrink", &x, &a.coeffs);
    eqs(&mut v, "0", &P::<T>::zero(), &[]);
    eqs(&mut v, "1", &P::<T>::one(), &[RingElement(T::lit(1))]);
    v
}
/// dividend = quotient * divisor + remainder, remainder shorter than the divisor
fn division<T: Val<Share = RingElement<T>> + IntRing2k>(la: usize, za: usize, db: usize, zb: usize, lead: u64, trail: usize) -> Result<Vec<Pair>, String> {
    let a = poly::<T>("a", la, za);
    let mut b = poly::<T>("b", db, zb);
    Vec::push(&mut b.coeffs, RingElement(T::lit(lead)));
    for _ in 0..trail { Vec::push(&mut b.coeffs, RingElement(T::lit(0))); }
    let mut v = vec![];
    let (q, r) = a.long_division(&b).map_err(|e| format!("dividing length {} by degree {}: {}", la, db, e))?;
    let mut back = vec![RingElement(T::lit(0)); q.coeffs.len() + b.coeffs.len() + la + r.coeffs.len()];
    for i in 0..q.coeffs.len() { for j in 0..b.coeffs.len() { back[i + j] = back[i + j].clone() + co(&q, i) * co(&b, j); } }
    for k in 0..r.coeffs.len() { back[k] = back[k].clone() + co(&r, k); }
    eqs(&mut v, &format!("quotient * divisor + remainder (lengths {}, {}+{})", la, db + 1, trail), &a, &back);
    for k in db..r.coeffs.len() { v.push(T::pair(format!("remainder coefficient {} beyond the degree", k), co(&r, k), RingElement(T::lit(0)))); }
    let m = a.clone() % b.clone();
    let m2 = a.clone() % &b;
    eqs(&mut v, "a % b", &m, &r.coeffs);
    eqs(&mut v, "a % &b", &m2, &r.coeffs);
    v.push(want("a % b has no trailing zeros", m.coeffs.len() == m.degree() + 1 && m2.coeffs.len() == m2.degree() + 1));
    Ok(v)
}
fn interpolation<T: Val<Share = RingElement<T>> + IntRing2k>(n: usize, l: usize) -> Vec<Pair> {
    let ls: Vec<P<T>> = (0..n).map(|j| poly::<T>(&format!("l{}_", j), l, 0)).collect();
    let ys: Vec<RingElement<T>> = (0..n).map(|j| RingElement(T::fresh(&format!("y{}", j)))).collect();
    let mut w = vec![RingElement(T::lit(0)); l];
    for j in 0..n { for k in 0..l { w[k] = w[k].clone() + co(&ls[j], k) * &ys[j]; } }
    let mut v = vec![];
    eqs(&mut v, "interpolate", &Poly::interpolate(&ys, &ls), &w);
    v
}

// ------------------------------------------------------- reference arithmetic, written from the definitions
/// a(x) * b(x) over the integers modulo 2^64, then reduced coefficient-wise to K bits
fn rmul(a: &[u64], b: &[u64]) -> Vec<u64> { let mut r = vec![0u64; (a.len() + b.len()).max(1)]; for i in 0..a.len() { for j in 0..b.len() { r[i + j] = r[i + j].wrapping_add(a[i].wrapping_mul(b[j])); } } r }
/// remainder modulo a monic polynomial
fn rmod(a: &[u64], m: &[u64]) -> Vec<u64> { let mut a = a.to_vec(); let d = m.len() - 1; while a.len() > d { let c = a.pop().unwrap(); let s = a.len() - d; for k in 0..d { a[s + k] = a[s + k].wrapping_sub(c.wrapping_mul(m[k])); } } a }
fn raw<T: IntRing2k>(p: &P<T>) -> Vec<u64> { p.coeffs.iter().map(|c| c.0.upgrade_to_128() as u64).collect() }
fn cut(k: usize, v: u64) -> u64 { if k >= 64 { v } else { v & ((1 << k) - 1) } }

/// carry-less product and remainder over GF(2), bit by bit
fn clmul(a: u64, b: u64) -> u128 { let mut r = 0u128; for i in 0..64 { if b >> i & 1 == 1 { r ^= (a as u128) << i; } } r }
fn clmod(mut a: u128, m: u128) -> u128 { let d = 127 - m.leading_zeros(); while a >> d != 0 { let s = 127 - a.leading_zeros() - d; a ^= m << s; } a }
fn clgcd(mut a: u128, mut b: u128) -> u128 { while b != 0 { let r = clmod(a, b); a = b; b = r; } a }
/// Rabin's test: x^(2^d) = x and gcd(x^(2^(d/p)) - x, m) = 1 for the primes p dividing d
fn irreducible(m: u128) -> bool {
    let d = 127 - m.leading_zeros();
    let frob = |n: u32| { let mut x = clmod(2, m); for _ in 0..n { let y = x as u64; x = clmod(clmul(y, y), m); } x };
    if frob(d) != clmod(2, m) { return false; }
    for p in 2..=d { if d % p == 0 && (2..p).all(|q| p % q != 0) && clgcd(m, frob(d / p) ^ 2) != 1 { return false; } }
    true
}
const GF: u128 = 1 << 64 | 0b11011;

fn modulus_ok<T: IntRing2k>(d: usize) -> Result<P<T>, String> {
    let m: P<T> = ob::catch(|| IrreduciblePolys::get::<RingElement<T>>(d))?;
    let r = raw(&m);
    must!(r.len() == d + 1 && r[d] == 1 && r.iter().all(|&c| c < 2), "modulus for degree {} is {:?}", d, r);
    let bits = r.iter().enumerate().fold(0u128, |x, (i, &c)| x | (c as u128) << i);
    must!(irreducible(bits), "the modulus of degree {} is reducible: {:#x}", d, bits);
    Ok(m)
}
/// an element that is not zero modulo 2, in several shapes
fn unit<T: IntRing2k + Val<Share = RingElement<T>>>(d: usize) -> P<T> where rand::distributions::Standard: rand::distributions::Distribution<RingElement<T>> {
    loop {
        let len = match ob::rnd() % 4 { 0 => 1, 1 => 2 + ob::rnd() as usize % 6, 2 => d, _ => 1 + ob::rnd() as usize % d };
        let k = ob::rnd() % 4;
        let mut p: P<T> = Poly::from_vec((0..len).map(|_| RingElement(match k { 0 => T::lit(ob::rnd() & 1), 1 => T::lit(ob::rnd() % 3).wrapping_sub(&T::lit(1)), _ => T::fresh("") })).collect());
        if ob::rnd() % 3 == 0 { for _ in 0..ob::rnd() % 4 { if p.coeffs.len() < d { Vec::push(&mut p.coeffs, RingElement(T::lit(0))); } } }
        if raw(&p).iter().any(|c| c & 1 == 1) { return p; }
    }
}
fn inverse_mod<T: IntRing2k + Val<Share = RingElement<T>>>(d: usize, cases: usize) -> Result<Out, String> where rand::distributions::Standard: rand::distributions::Distribution<RingElement<T>> {
    let m = modulus_ok::<T>(d)?;
    let mr = raw(&m);
    for _ in 0..cases {
        let a = unit::<T>(d);
        let i = ob::catch(|| a.mod_inverse(&m)).map_err(|e| format!("inverse of {:?} modulo degree {}: {}", raw(&a), d, e))?;
        let ir = raw(&i);
        let p: Vec<u64> = rmod(&rmul(&raw(&a), &ir), &mr).into_iter().map(|c| cut(T::K, c)).collect();
        must!(p[0] == 1 && p[1..].iter().all(|&c| c == 0) && ir.len() <= d, "{:?} times its inverse {:?} modulo degree {} is {:?}", raw(&a), ir, d, p);
    }
    ok(cases)
}
fn native_inverse<T: IntRing2k + Val<Share = RingElement<T>>>(cases: usize) -> Result<Out, String> where rand::distributions::Standard: rand::distributions::Distribution<RingElement<T>> {
    let m = Poly::<RingElement<T>>::get_native_mod();
    let mr = raw(&m);
    must!(mr.len() == 65 && mr.iter().enumerate().fold(0u128, |x, (i, &c)| x | (c as u128) << i) == GF, "native modulus {:?}", mr);
    must!(irreducible(GF), "the field modulus is reducible");
    for _ in 0..cases {
        let a = unit::<T>(64);
        let i = ob::catch(|| a.native_mod_inverse())?;
        let p: Vec<u64> = rmod(&rmul(&raw(&a), &raw(&i)), &mr).into_iter().map(|c| cut(T::K, c)).collect();
        must!(p[0] == 1 && p[1..].iter().all(|&c| c == 0), "{:?} times its native inverse {:?} is {:?}", raw(&a), raw(&i), p);
    }
    ok(cases)
}
/// the interpolation basis: L_j takes the value 1 at point j and 0 at the others, and interpolating gives
/// back random values at every point
fn lagrange<T: IntRing2k + Val<Share = RingElement<T>>>(d: usize, n: usize, kind: usize) -> Result<Out, String> where rand::distributions::Standard: rand::distributions::Distribution<RingElement<T>> {
    let m = modulus_ok::<T>(d)?;
    let xs: Vec<P<T>> = if kind == 0 { (0..n).map(|i| Poly::from_vec(crate::aby3::utils::to_bits(i))).collect() } else {
        // points that differ modulo 2
        let mut v: Vec<P<T>> = vec![];
        while v.len() < n {
            let p: P<T> = Poly::from_vec((0..1 + ob::rnd() as usize % d).map(|_| RingElement(T::fresh(""))).collect());
            let key = |p: &P<T>| raw(p).iter().enumerate().fold(0u64, |x, (i, c)| x | (c & 1) << i);
            if v.iter().all(|q| key(q) != key(&p)) { v.push(p); }
        }
        v
    };
    let ls = ob::catch(|| Poly::<Poly<RingElement<T>>>::lagrange_polys(&xs, &m))?;
    must!(ls.len() == n, "{} basis polynomials for {} points", ls.len(), n);
    let one = P::<T>::one();
    let same = |a: &P<T>, b: &P<T>| { let (a, b) = (rmod(&raw(a), &raw(&m)), rmod(&raw(b), &raw(&m))); (0..a.len().max(b.len())).all(|k| cut(T::K, *a.get(k).unwrap_or(&0)) == cut(T::K, *b.get(k).unwrap_or(&0))) };
    for j in 0..n {
        must!(ls[j].degree() < n, "basis polynomial {} of {} has degree {}", j, n, ls[j].degree());
        for i in 0..n {
            let y = ls[j].clone().evaluate(&xs[i]);
            must!(same(&y, &if i == j { one.clone() } else { P::<T>::zero() }), "basis polynomial {} at point {} of {}", j, i, n);
        }
    }
    let ys: Vec<P<T>> = (0..n).map(|_| Poly::from_vec((0..d).map(|_| RingElement(T::fresh(""))).collect())).collect();
    let p = Poly::interpolate(&ys, &ls);
    for i in 0..n { must!(same(&p.clone().evaluate(&xs[i]), &ys[i]), "the interpolated polynomial misses point {} of {}", i, n); }
    ok(n * n + n)
}
fn gf(v: u64) -> GF2p64 { GF2p64::new(v) }
fn gref(a: u64, b: u64) -> u64 { clmod(clmul(a, b), GF) as u64 }
fn gf_poly(cases: usize) -> Result<Out, String> {
    for c in 0..cases {
        let rp = |n: usize| -> Vec<u64> { (0..n).map(|_| if ob::rnd() % 4 == 0 { 0 } else { ob::draw128() as u64 }).collect() };
        let (a, b) = (rp(ob::rnd() as usize % 7), rp(ob::rnd() as usize % 7));
        let x = ob::draw128() as u64;
        let mk = |v: &[u64]| Poly::<GF2p64>::from_vec(v.iter().map(|&c| gf(c)).collect());
        let un = |p: Poly<GF2p64>| -> Vec<u64> { let mut v: Vec<u64> = p.coeffs.iter().map(|c| c.get()).collect(); while v.last() == Some(&0) { v.pop(); } v };
        let tr = |mut v: Vec<u64>| { while v.last() == Some(&0) { v.pop(); } v };
        let at = |v: &Vec<u64>, k: usize| v.get(k).cloned().unwrap_or(0);
        let sum = tr((0..a.len().max(b.len())).map(|k| at(&a, k) ^ at(&b, k)).collect());
        let mut pro = vec![0u64; a.len() + b.len()];
        for i in 0..a.len() { for j in 0..b.len() { pro[i + j] ^= gref(a[i], b[j]); } }
        let pro = tr(pro);
        must!(un(mk(&a) + mk(&b)) == sum && un(mk(&a) - &mk(&b)) == sum && un(-(mk(&a)) - mk(&b)) == sum, "sum of {:x?} and {:x?}", a, b);
        must!(un(mk(&a) * mk(&b)) == pro && un(mk(&a) * &mk(&b)) == pro, "product of {:x?} and {:x?}", a, b);
        must!(un(mk(&a) * gf(x)) == tr(a.iter().map(|&c| gref(c, x)).collect()), "scalar multiple of {:x?}", a);
        let e = a.iter().rev().fold(0u64, |r, &c| gref(r, x) ^ c);
        must!(mk(&a).evaluate(&gf(x)).get() == e, "{:x?} at {:x}", a, x);
    }
    ok(cases)
}
fn gf_lagrange(n: usize, kind: usize) -> Result<Out, String> {
    let mut xs: Vec<u64> = if kind == 0 { (0..n as u64).collect() } else { vec![] };
    while xs.len() < n { let v = ob::draw128() as u64; if !xs.contains(&v) { xs.push(v); } }
    let ps: Vec<GF2p64> = xs.iter().map(|&x| gf(x)).collect();
    let ls = ob::catch(|| Poly::<GF2p64>::lagrange_polys(&ps))?;
    must!(ls.len() == n, "{} basis polynomials for {} points", ls.len(), n);
    for j in 0..n { for i in 0..n { must!(ls[j].clone().evaluate(&ps[i]).get() == (i == j) as u64, "basis polynomial {} at point {} of {:x?}", j, i, xs); } must!(ls[j].degree() < n, "degree of basis polynomial {}", j); }
    let ys: Vec<GF2p64> = (0..n).map(|_| gf(ob::draw128() as u64)).collect();
    let p = Poly::interpolate(&ys, &ls);
    for i in 0..n { must!(p.clone().evaluate(&ps[i]) == ys[i], "the interpolated polynomial misses point {} of {:x?}", i, xs); }
    ok(n * n + n)
}
fn small_polys() -> Vec<Vec<u8>> {
    let v = [0u8, 1, 2, 3, 255];
    let mut out = vec![vec![]];
    for n in 1..=3usize { for k in 0..5usize.pow(n as u32) { out.push((0..n).map(|i| v[k / 5usize.pow(i as u32) % 5]).collect()); } }
    out
}
pub fn collect_c12(obs: &mut Obs) {
    for la in 0..=4usize { for lb in 0..=4usize {
        obs.add("C12", format!("operators on polynomials of lengths {} and {}", la, lb), "proved", "all coefficients (16 bits), every pattern of zero coefficients", move || {
            let mut v = vec![];
            for za in 0..1 << la { for zb in 0..1 << lb { app(&mut v, ops::<S16>(la, za, lb, zb)); } }
            decide(&v)
        });
    } }
    obs.add("C12", "operators on longer polynomials, other widths", "proved", "all coefficients; lengths 7 and 9, 32 and 64 bits", || { let mut v = ops::<S32>(7, 0, 9, 0); app(&mut v, ops::<S64>(9, 0b10, 7, 0)); app(&mut v, ops::<S32>(8, 0b11000000, 5, 0b10000)); decide(&v) });
    for la in 0..=6usize { for db in 0..=4usize {
        obs.add("C12", format!("division of length {} by degree {}", la, db), "proved", "all coefficients (16 bits), every pattern of zero coefficients, leading coefficients 1, 3, 2^16-1", move || {
            let mut v = vec![];
            for za in 0..1usize << la.min(4) { for zb in 0..1usize << db.min(3) { for lead in [1u64, 3, 0xffff] { app(&mut v, division::<S16>(la, za << (la - la.min(4)), db, zb, lead, 0)?); } } }
            decide(&v)
        });
        obs.add("C12", format!("division of length {} by degree {}, divisor with trailing zero coefficients", la, db), "proved", "all coefficients (16 bits)", move || {
            let mut v = vec![];
            for trail in 1..=2 { for lead in [1u64, 5] { app(&mut v, division::<S16>(la, 0, db, 0, lead, trail)?); } }
            decide(&v)
        });
    } }
    obs.add("C12", "division by zero and by non-invertible leading coefficients is an error", "bounded", "all dividends and divisors of up to 3 coefficients from {0,1,2,3,255} over u8", || {
        let ps = small_polys();
        for a in &ps { for b in &ps {
            let mk = |v: &Vec<u8>| P::<u8>::from_vec(v.iter().map(|&c| RingElement(c)).collect());
            let (pa, pb) = (mk(a), mk(b));
            let lead = b.iter().rev().find(|&&c| c != 0).cloned().unwrap_or(0);
            let r = ob::catch(|| pa.long_division(&pb)).map_err(|e| format!("{:?} / {:?}: {}", a, b, e))?;
            must!(r.is_ok() == (lead & 1 == 1), "{:?} / {:?} gives {}", a, b, if r.is_ok() { "a result" } else { "an error" });
            if let Ok((q, r)) = r {
                let mut back = rmul(&raw(&q), &raw(&pb));
                for (k, c) in raw(&r).into_iter().enumerate() { if k >= back.len() { back.resize(k + 1, 0); } back[k] = back[k].wrapping_add(c); }
                must!((0..back.len().max(a.len())).all(|k| cut(8, *back.get(k).unwrap_or(&0)) == *a.get(k).unwrap_or(&0) as u64), "{:?} / {:?} = {:?} remainder {:?}", a, b, raw(&q), raw(&r));
                let db = b.iter().rposition(|&c| c != 0).unwrap();
                must!(r.is_zero() || r.degree() < db || db == 0 && r.is_zero(), "{:?} / {:?} leaves {:?}", a, b, raw(&r));
            }
        } }
        ok(ps.len() * ps.len())
    });
    obs.add("C12", "zero and one are recognised", "exhaustive", "all polynomials of up to 3 coefficients from {0,1,2,3,255} over u8; over bits and field elements", || {
        for a in small_polys() {
            let p = P::<u8>::from_vec(a.iter().map(|&c| RingElement(c)).collect());
            let z = a.iter().all(|&c| c == 0);
            let one = a.first() == Some(&1) && a[1..].iter().all(|&c| c == 0);
            must!(p.is_zero() == z, "is_zero of {:?}", a);
            must!(ob::catch(|| p.is_one()).map_err(|e| format!("is_one of {:?}: {}", a, e))? == one, "is_one of {:?} says {}", a, !one);
            let q = Poly::<GF2p64>::from_vec(a.iter().map(|&c| gf(c as u64)).collect());
            must!(q.is_zero() == z && ob::catch(|| q.is_one())? == one, "over the field: {:?}", a);
        }
        must!(P::<u16>::zero().is_zero() && P::<u16>::one().is_one() && !P::<u16>::one().is_zero() && !P::<u16>::zero().is_one(), "zero and one themselves");
        ok(small_polys().len())
    });
    obs.add("C12", "interpolation is the combination of the basis polynomials", "proved", "all values and basis polynomials; 1..5 points, lengths 1..5", || {
        let mut v = vec![];
        for n in 1..=5 { for l in 1..=5 { app(&mut v, interpolation::<S16>(n, l)); } }
        decide(&v)
    });
    obs.add("C12", "every proof modulus is irreducible of its degree", "exhaustive", "degrees 40..63 (Rabin's test)", || { for d in 40..=63 { modulus_ok::<u16>(d)?; } must!(irreducible(GF), "the field modulus is reducible"); ok(25) });
    obs.add("C12", "no modulus outside the supported degrees", "exhaustive", "degrees 0..39 and 64..80", || { for d in (0..40).chain(64..81) { must!(ob::catch(|| IrreduciblePolys::get::<RingElement<u16>>(d)).is_err(), "degree {} is accepted", d); } ok(57) });
    for d in 40..=63usize {
        obs.add("C12", format!("inverses modulo the modulus of degree {}", d), "bounded", "u8, u16, u32: bits, differences of bits, random elements of every length, trailing zeros", move || { let mut o = inverse_mod::<u8>(d, 60)?; o.add(inverse_mod::<u16>(d, 60)?); o.add(inverse_mod::<u32>(d, 12)?); Ok(o) });
    }
    obs.add("C12", "inverses modulo the field modulus over rings", "bounded", "u8, u16, u32", || { let mut o = native_inverse::<u8>(100)?; o.add(native_inverse::<u16>(100)?); o.add(native_inverse::<u32>(20)?); Ok(o) });
    for n in [1usize, 2, 3, 4, 7, 10] { for kind in 0..2 {
        obs.add("C12", format!("interpolation through {} {} points", n, if kind == 0 { "consecutive" } else { "random" }), "bounded", "u16 modulo degrees 41 and 47, u8 modulo degree 40", move || { let mut o = lagrange::<u16>(47, n, kind)?; o.add(lagrange::<u16>(41, n, kind)?); o.add(lagrange::<u8>(40, n, kind)?); Ok(o) });
        obs.add("C12", format!("interpolation over the field through {} {} points", n, if kind == 0 { "consecutive" } else { "random" }), "bounded", "GF(2^64)", move || { let mut o = Out::default(); for _ in 0..6 { o.add(gf_lagrange(n, kind)?); } Ok(o) });
    } }
    obs.add("C12", "polynomials over the field", "bounded", "4000 pairs of up to 6 coefficients", || gf_poly(4000));
}

// ------------------------------------------------------------------ C13
fn ginv(a: u64) -> u64 { // a^(2^64 - 2)
    let (mut r, mut p) = (1u64, a);
    for k in 0..64 { if k > 0 { r = gref(r, p); } p = gref(p, p); }
    r
}
fn elem() -> u64 { match ob::rnd() % 6 { 0 => ob::rnd() % 5, 1 => 1 << (ob::rnd() % 64), 2 => u64::MAX << (ob::rnd() % 64), 3 => (1u64 << 63) | ob::rnd() % 32, _ => ob::rnd() } }
pub fn collect_c13(obs: &mut Obs) {
    obs.add("C13", "the documented modulus is irreducible of degree 64", "exhaustive", "Rabin's test on MODULUS", || {
        let m = GF2p64::MODULUS.iter().enumerate().fold(0u128, |x, (i, &c)| x | (c as u128) << i);
        must!(m == GF && irreducible(m), "MODULUS is {:#x}", m);
        ok(1)
    });
    obs.add("C13", "products of powers of x", "exhaustive", "all 64 * 64 pairs of basis elements, all forms of the operator", || {
        for i in 0..64 { for j in 0..64 {
            let (a, b) = (1u64 << i, 1u64 << j);
            let w = gref(a, b);
            let mut z = gf(a); z *= gf(b); let mut y = gf(a); y *= &gf(b);
            must!((gf(a) * gf(b)).get() == w && (gf(a) * &gf(b)).get() == w && z.get() == w && y.get() == w, "x^{} * x^{} is {:#x}", i, j, (gf(a) * gf(b)).get());
        } }
        ok(4096)
    });
    obs.add("C13", "products, and the laws of a commutative ring", "bounded", "60000 triples of elements", || {
        for _ in 0..60000 {
            let (a, b, c) = (elem(), elem(), elem());
            let p = (gf(a) * gf(b)).get();
            must!(p == gref(a, b), "{:#x} * {:#x} is {:#x}", a, b, p);
            must!((gf(b) * gf(a)).get() == p && gf(a) * (gf(b) + gf(c)) == gf(a) * gf(b) + gf(a) * gf(c) && (gf(a) * gf(b)) * gf(c) == gf(a) * (gf(b) * gf(c)), "laws on {:#x}, {:#x}, {:#x}", a, b, c);
        }
        ok(60000)
    });
    obs.add("C13", "inverses", "bounded", "all powers of x, all elements below 4096, 6000 more", || {
        let t = |a: u64| -> Result<(), String> {
            let i = ob::catch(|| gf(a).inverse()).map_err(|e| format!("inverse of {:#x}: {}", a, e))?.get();
            must!(gref(a, i) == 1 && i == ginv(a), "inverse of {:#x} is {:#x}", a, i);
            Ok(())
        };
        for k in 0..64 { t(1 << k)?; }
        for a in 1..4096 { t(a)?; }
        for _ in 0..6000 { let a = elem(); if a != 0 { t(a)?; } }
        ok(10000)
    });
    obs.add("C13", "inverses modulo smaller polynomials", "bounded", "every proof modulus: basis elements and samples; arbitrary coprime pairs", || {
        let mut n = 0;
        let mut t = |a: u64, m: u64| -> Result<(), String> {
            n += 1;
            let i = ob::catch(|| gf(a).inv_mod(gf(m))).map_err(|e| format!("inverse of {:#x} modulo {:#x}: {}", a, m, e))?.get();
            let p = clmod(clmul(a, i), m as u128);
            must!(p == clmod(1, m as u128), "{:#x} times {:#x} modulo {:#x} is {:#x}", a, i, m, p);
            Ok(())
        };
        for d in 40..=63usize {
            let m = raw(&IrreduciblePolys::get::<RingElement<u16>>(d)).iter().enumerate().fold(0u64, |x, (i, &c)| x | c << i);
            for k in 0..d { t(1 << k, m)?; }
            for _ in 0..300 { let a = elem() & ((1 << d) - 1); if a != 0 { t(a, m)?; } }
        }
        for _ in 0..6000 { let (a, m) = (elem(), elem()); if m > 1 && clgcd(a as u128, m as u128) == 1 { t(a, m)?; } }
        ok(n)
    });
    obs.add("C13", "addition, negation, lifting, zero and one", "bounded", "20000 pairs; both bits", || {
        for _ in 0..20000 {
            let (a, b) = (elem(), elem());
            let mut w = gf(a); w += gf(b); let mut x = gf(a); x += &gf(b); let mut y = gf(a); y -= gf(b); let mut z = gf(a); z -= &gf(b);
            for v in [gf(a) + gf(b), gf(a) + &gf(b), gf(a) - gf(b), gf(a) - &gf(b), w, x, y, z] { must!(v.get() == a ^ b, "{:#x} plus or minus {:#x} is {:#x}", a, b, v.get()); }
            must!((-gf(a)).get() == a && gf(a).get() == a && gf(a).is_zero() == (a == 0) && gf(a).is_one() == (a == 1) && (gf(a) == gf(b)) == (a == b), "{:#x}", a);
        }
        must!(GF2p64::lift(true).is_one() && GF2p64::lift(false).is_zero() && GF2p64::default().get() == 0 && GF2p64::one().get() == 1 && GF2p64::zero().get() == 0, "constants");
        ok(20000)
    });
    obs.add("C13", "encoding and decoding", "bounded", "bincode messages of single elements and lists: 20000 values", || {
        for k in 0..20000u64 {
            let v: Vec<u64> = (0..k % 5).map(|_| elem()).collect();
            let g: Vec<GF2p64> = v.iter().map(|&x| gf(x)).collect();
            let b = bincode::serialize(&g).map_err(|e| e.to_string())?;
            let mut want = (v.len() as u64).to_le_bytes().to_vec();
            for x in &v { want.extend(x.to_le_bytes()); }
            let back: Vec<GF2p64> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            must!(back == g && b == want, "{:x?} is encoded as {:x?} and decoded as {:x?}", v, b, back);
            let a = elem();
            let b = bincode::serialize(&gf(a)).map_err(|e| e.to_string())?;
            must!(bincode::deserialize::<GF2p64>(&b).map_err(|e| e.to_string())?.get() == a, "{:#x} does not survive encoding", a);
            must!(bincode::deserialize::<GF2p64>(&b[..b.len() - 1]).is_err(), "a truncated element is accepted");
        }
        ok(20000)
    });
    obs.add("C13", "random elements are the drawn word", "bounded", "200 seeds", || {
        for s in 0..200 {
            let (mut r, mut q) = (ChaCha12Rng::seed_from_u64(s), ChaCha12Rng::seed_from_u64(s));
            let (x, y) = (GF2p64::random(&mut r).get(), GF2p64::random(&mut r).get());
            must!((x, y) == (q.next_u64(), q.next_u64()), "seed {}", s);
        }
        ok(200)
    });
}
