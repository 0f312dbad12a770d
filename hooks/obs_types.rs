// C08, C09, C11, C12, C13: data types, executed and (C12) symbolic obligations.
use super::ob::{self, app, decide, eqn, want, Obs, Out, Pair, Val};
use crate::error::Error;
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use num_traits::{One, Zero};
use plain_reference::{IrisCode, IrisCodeArray, MASK_THRESHOLD};

fn ok(n: usize) -> Result<Out, String> { let mut o = Out::default(); o.vcs = n; o.ground = n; o.evals = n; Ok(o) }
macro_rules! must { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }

const N: usize = 12800;
fn rnd_arr() -> IrisCodeArray {
    let mut a = IrisCodeArray::ZERO;
    let k = ob::rnd() % 5;
    for b in a.as_raw_mut_slice() { let r = ob::rnd(); *b = match k { 0 => 0, 1 => 255, 2 => (r & r >> 8 & r >> 16) as u8, 3 => (r | r >> 8 | r >> 16) as u8, _ => r as u8 }; }
    a
}
fn at(a: &IrisCodeArray, i: usize) -> bool { a.as_raw_slice()[i / 8] >> (i % 8) & 1 == 1 }

pub fn collect_c08(obs: &mut Obs) {
    obs.add("C08", "each position alone: set, read, flip, count, iterate", "exhaustive", "all 12800 positions, one-hot arrays and their complements", || {
        for (base, v) in [(IrisCodeArray::ZERO, true), (IrisCodeArray::ONES, false)] {
            for i in 0..N {
                let mut a = base;
                a.set_bit(i, v);
                must!(a.get_bit(i) == v && at(&a, i) == v, "bit {} after set_bit({})", i, v);
                let n = (0..1600).map(|k| a.as_raw_slice()[k].count_ones()).sum::<u32>() as usize;
                must!(n == if v { 1 } else { N - 1 }, "set_bit({}, {}) leaves {} set bits", i, v, n);
                must!(a.count_ones() == n, "count_ones gives {} for {} set bits ({})", a.count_ones(), n, i);
                let mut b = base; b.flip_bit(i);
                must!(a == b, "flip_bit({})", i);
                if i % 7 == 0 || i % 64 < 2 || i % 64 > 61 {
                    must!(a.bits().position(|x| x == v) == Some(i), "the iterator reports bit {} elsewhere", i);
                    must!(a.bits().filter(|&x| x == v).count() == 1, "the iterator repeats bit {}", i);
                }
                a.set_bit(i, !v); b.flip_bit(i);
                must!(a == base && b == base, "clearing bit {}", i);
            }
        }
        ok(2 * N)
    });
    obs.add("C08", "iterator, counting and operators agree with the positions", "bounded", "300 pairs of sparse, dense and random arrays, every position", || {
        for _ in 0..300 {
            let (a, b) = (rnd_arr(), rnd_arr());
            let v: Vec<bool> = a.bits().collect();
            must!(v.len() == N && a.bits().len() == N, "the iterator has {} items", v.len());
            let (x, n) = (a ^ b, a & b);
            let (mut x2, mut n2) = (a, a);
            x2 ^= b; n2 &= b;
            must!(x == x2 && n == n2, "in-place and by-value operators differ");
            let mut c = 0;
            for i in 0..N {
                must!(v[i] == at(&a, i) && a.get_bit(i) == v[i], "position {}: iterator {}, get_bit {}, raw {}", i, v[i], a.get_bit(i), at(&a, i));
                must!(at(&x, i) == (at(&a, i) != at(&b, i)) && at(&n, i) == (at(&a, i) && at(&b, i)), "operators at position {}", i);
                c += v[i] as usize;
            }
            must!(a.count_ones() == c, "count_ones gives {} for {} set positions", a.count_ones(), c);
            // a partly consumed iterator continues where it stopped
            let k = ob::rnd() as usize % N;
            let mut it = a.bits();
            for _ in 0..k { it.next(); }
            must!(it.len() == N - k && it.size_hint() == (N - k, Some(N - k)), "length after {} items", k);
            must!(it.eq(v[k..].iter().cloned()), "continuing after {} items", k);
        }
        ok(300)
    });
    obs.add("C08", "positions beyond the array are refused", "exhaustive", "the first 200 positions beyond the end", || {
        for i in N..N + 200 {
            for k in 0..3 {
                let r = ob::catch(|| { let mut a = IrisCodeArray::ZERO; match k { 0 => { a.get_bit(i); } 1 => a.set_bit(i, true), _ => a.flip_bit(i) } });
                must!(r.is_err(), "position {} is accepted", i);
            }
        }
        ok(600)
    });
    obs.add("C08", "the distance counts differing positions usable in both masks", "bounded", "400 pairs, distances at and next to the threshold, differing bits also at unusable positions", || {
        for _ in 0..400 {
            let mut m = [IrisCodeArray::ONES; 2];
            for k in 0..2 { for _ in 0..ob::rnd() % 1900 { m[k].set_bit(ob::rnd() as usize % N, false); } }
            let us: Vec<usize> = (0..N).filter(|&i| at(&m[0], i) && at(&m[1], i)).collect();
            must!(us.len() >= MASK_THRESHOLD, "VP-HARNESS masks");
            let th = us.len() * 34 / 100;
            let a = rnd_arr();
            let mut b = a;
            for i in 0..N { if !(at(&m[0], i) && at(&m[1], i)) && ob::rnd() % 2 == 0 { b.flip_bit(i); } }
            let d = th - 1 + (ob::rnd() % 2) as usize;
            let mut left = d;
            let off = ob::rnd() as usize % us.len();
            let stride = 1 + 2 * (ob::rnd() as usize % 3);
            let mut k = off;
            let mut seen = std::collections::HashSet::new();
            while left > 0 { if seen.insert(us[k]) { b.flip_bit(us[k]); left -= 1; k = (k + stride) % us.len(); } else { k = (k + 1) % us.len(); } }
            let dist = (0..N).filter(|&i| at(&m[0], i) && at(&m[1], i) && at(&a, i) != at(&b, i)).count();
            must!(dist == d, "VP-HARNESS distance");
            let (p, q) = (IrisCode { code: a, mask: m[0] }, IrisCode { code: b, mask: m[1] });
            let r = p.is_close(&q);
            must!(r == (dist < th) && q.is_close(&p) == r, "distance {} of {} usable bits: is_close says {}", dist, us.len(), r);
        }
        ok(400)
    });
}

// ---------------------------------------------------------------------- C09
use crate::aby3::utils::{ring_iter_from_bytes, ring_iter_to_bytes, ring_slice_to_bytes, ring_vec_from_bytes};
use bytes::{Bytes, BytesMut};
fn enc<T: IntRing2k>(v: T, out: &mut Vec<u8>) { // the documented encoding: big endian, one byte for a bit
    let b = v.upgrade_to_128().to_be_bytes();
    out.extend_from_slice(&b[16 - (T::K + 7) / 8..]);
}
fn dec<T: IntRing2k>(b: &[u8]) -> Option<u128> { let mut v = 0u128; for x in b { v = v << 8 | *x as u128; } if T::K == 1 && v > 1 { None } else { Some(v) } }
fn wire<T: IntRing2k + Val>(seed_cases: usize) -> Result<Out, String> {
    let s = (T::K + 7) / 8;
    let mut cases = 0;
    // round trip of lists, position by position, exact length
    for n in 0..40usize {
        for _ in 0..seed_cases {
            let v: Vec<RingElement<T>> = (0..n).map(|_| RingElement(T::fresh(""))).collect();
            let mut w = vec![];
            for x in &v { enc(x.0, &mut w); }
            let b = ring_slice_to_bytes(&v);
            must!(b[..] == w[..], "{} elements are written as {:?}, expected {:?}", n, &b[..], w);
            must!(ring_iter_to_bytes(v.iter())[..] == w[..], "the iterator form writes {} elements differently", n);
            let r = ob::catch(|| ring_vec_from_bytes::<RingElement<T>>(BytesMut::from(&w[..]), n))?;
            must!(matches!(&r, Ok(x) if *x == v), "list of {} does not come back: {:?} from {:?}", n, r.map_err(|e| e.to_string()), v);
            let it = ob::catch(|| ring_iter_from_bytes::<RingElement<T>>(BytesMut::from(&w[..]), n))?;
            let mut it = it.map_err(|e| format!("iterator over {} elements: {}", n, e))?;
            for k in 0..n { must!(it.len() == n - k, "iterator length {} at {} of {}", it.len(), k, n); let x = it.next(); must!(x.as_ref() == Some(&v[k]), "iterator element {} of {}: {:?}", k, n, x); }
            must!(it.next().is_none() && it.len() == 0, "iterator over {} elements does not end", n);
            cases += 3;
        }
    }
    // single elements
    for _ in 0..seed_cases * 20 {
        let v = RingElement(T::fresh(""));
        let mut w = vec![]; enc(v.0, &mut w);
        let mut o = BytesMut::from(&[7u8, 9][..]); v.add_to_bytes(&mut o);
        must!(o[2..] == w[..] && o[..2] == [7, 9] && v.clone().to_bytes()[..] == w[..], "{:?} is written as {:?}", v, &o[..]);
        let tail: Vec<u8> = (0..ob::rnd() % 4).map(|_| ob::rnd() as u8).collect();
        let mut b = BytesMut::from(&w[..]); b.extend_from_slice(&tail);
        let r = RingElement::<T>::take_from_bytes_mut(&mut b);
        must!(matches!(&r, Ok(x) if *x == v) && b[..] == tail[..], "take consumes other than the bytes of {:?}", v);
        cases += 1;
    }
    // any message: accepted exactly when it is an encoding, and then decoded to it; never a panic
    for n in 0..6usize {
        for len in 0..n * s + 2 * s + 3 {
            for t in 0..seed_cases.max(4) {
                let b: Vec<u8> = (0..len).map(|_| match t % 4 { 0 => 0, 1 => (ob::rnd() & 1) as u8, 2 => { if ob::rnd() % 8 == 0 { ob::rnd() as u8 } else { 1 } } _ => ob::rnd() as u8 }).collect();
                let want: Option<Vec<u128>> = if len == n * s { b.chunks(s).map(|c| dec::<T>(c)).collect() } else { None };
                let shape = |r: Result<Vec<RingElement<T>>, Error>| r.ok().map(|v| v.iter().map(|x| x.0.upgrade_to_128()).collect::<Vec<_>>());
                let r = shape(ob::catch(|| ring_vec_from_bytes::<RingElement<T>>(BytesMut::from(&b[..]), n)).map_err(|p| format!("list of {} from {:?}: {}", n, b, p))?);
                must!(r == want, "list of {} from {:?}: {:?}", n, b, r);
                let r = shape(ob::catch(|| ring_iter_from_bytes::<RingElement<T>>(BytesMut::from(&b[..]), n).map(|i| i.collect::<Vec<_>>())).map_err(|p| format!("iterator of {} from {:?}: {}", n, b, p))?);
                must!(r == want, "iterator of {} from {:?}: {:?}", n, b, r);
                if n == 1 {
                    let w1 = want.clone().map(|v| v[0]);
                    let r = ob::catch(|| RingElement::<T>::from_bytes(Bytes::copy_from_slice(&b)))?.ok().map(|x| x.0.upgrade_to_128());
                    must!(r == w1, "from_bytes of {:?}: {:?}", b, r);
                    let r = ob::catch(|| RingElement::<T>::from_bytes_mut(BytesMut::from(&b[..])))?.ok().map(|x| x.0.upgrade_to_128());
                    must!(r == w1, "from_bytes_mut of {:?}: {:?}", b, r);
                    let r = ob::catch(|| T::from_bytes(Bytes::copy_from_slice(&b)))?.ok().map(|x| x.upgrade_to_128());
                    must!(r == w1, "from_bytes of {:?}: {:?}", b, r);
                    let mut c = BytesMut::from(&b[..]);
                    let r = ob::catch(|| T::take_from_bytes_mut(&mut c))?.ok().map(|x| x.upgrade_to_128());
                    let wt = if len >= s { dec::<T>(&b[..s]) } else { None };
                    must!(r == wt, "take_from_bytes_mut of {:?}: {:?}", b, r);
                    if wt.is_some() { must!(c[..] == b[s..], "take_from_bytes_mut of {:?} leaves {:?}", b, &c[..]); }
                }
                cases += 2;
            }
        }
    }
    ok(cases)
}
fn wire_seed() -> Result<Out, String> {
    for len in 0..80usize {
        let b: Vec<u8> = (0..len).map(|_| ob::rnd() as u8).collect();
        let r = ob::catch(|| crate::aby3::utils::bytes_to_seed(BytesMut::from(&b[..])))?.ok();
        must!(r.map(|x| x.to_vec()) == if len == 32 { Some(b.clone()) } else { None }, "seed message of {} bytes", len);
    }
    ok(80)
}
pub fn collect_c09(obs: &mut Obs) {
    macro_rules! each { ($($t:ident),*) => { $(obs.add("C09", concat!("wire encoding of lists and elements of ", stringify!($t)), "bounded", "lists of 0..39 elements; every message length around 0..5 elements with zero, bit, mostly-bit and random contents", || wire::<$t>(150));)* } }
    each!(Bit, u8, u16, u32, u64, u128);
    obs.add("C09", "every message byte as a bit", "exhaustive", "all 256 bytes at each position of lists of up to 6 bits, vector, iterator and single form", || {
        let mut n = 0;
        for len in 1..7usize { for p in 0..len { for x in 0..256usize {
            let mut b = vec![1u8; len]; b[p] = x as u8;
            let good = x < 2;
            let r = ob::catch(|| ring_vec_from_bytes::<RingElement<Bit>>(BytesMut::from(&b[..]), len)).map_err(|e| format!("list from {:?}: {}", b, e))?;
            must!(r.is_ok() == good, "list from {:?} accepted: {}", b, r.is_ok());
            let r = ob::catch(|| ring_iter_from_bytes::<RingElement<Bit>>(BytesMut::from(&b[..]), len).map(|i| i.count())).map_err(|e| format!("iterator from {:?}: {}", b, e))?;
            must!(r.is_ok() == good, "iterator from {:?} accepted: {}", b, r.is_ok());
            n += 2;
        } } }
        ok(n)
    });
    obs.add("C09", "seed messages of any length", "exhaustive", "lengths 0..79", wire_seed);
}

// ---------------------------------------------------------------------- C11
fn inverse_ok<T: IntRing2k>(a: T) -> Result<(), String> {
    let odd = a & T::one() == T::one();
    for w in 0..2 {
        let r = ob::catch(|| if w == 0 { a.inverse() } else { RingElement(a).inverse().map(|x| x.0) }).map_err(|e| format!("inverse of {}: {}", a, e))?;
        match r {
            Ok(i) => must!(odd && i.wrapping_mul(&a) == T::one(), "inverse of {} given as {}", a, i),
            Err(e) => must!(!odd && matches!(e, Error::NoInverseError), "inverse of {}: {}", a, e),
        }
    }
    Ok(())
}
fn division_ok<T: IntRing2k>(a: T, b: T, want: T) -> Result<(), String> {
    let q = ob::catch(|| a.floor_div(&b))?;
    must!(q == want, "{} / {} = {}", a, b, q);
    let q = ob::catch(|| RingElement(a).floor_div(&RingElement(b)))?;
    must!(q.0 == want, "{} / {} = {}", a, b, q);
    Ok(())
}
pub fn collect_c11(obs: &mut Obs) {
    let thorough = obs.thorough;
    obs.add("C11", "inverse and quotient of every u8", "exhaustive", "all 256 elements, all pairs", || {
        for a in 0..=255u8 { inverse_ok(a)?; for b in 1..=255u8 { division_ok(a, b, a / b)?; } must!(ob::catch(|| a.floor_div(&0)).is_err(), "{} / 0", a); }
        ok(65536)
    });
    obs.add("C11", "inverse and quotient of bits", "exhaustive", "all bits", || {
        for a in [false, true] { inverse_ok(Bit::new(a))?; division_ok(Bit::new(a), Bit::new(true), Bit::new(a))?; must!(ob::catch(|| Bit::new(a).floor_div(&Bit::new(false))).is_err(), "{} / 0", a); }
        ok(4)
    });
    obs.add("C11", "inverse of every u16", "exhaustive", "all 65536 elements", || { for a in 0..=65535u16 { inverse_ok(a)?; } ok(65536) });
    obs.add("C11", "quotients of u16", "bounded", "all dividends by 300 divisors", || {
        for a in 0..=65535u16 { for k in 0..5 { let b = if k == 0 { 1 + a % 300 } else { (ob::draw128() as u16).max(1) }; division_ok(a, b, a / b)?; } }
        ok(65536 * 5)
    });
    if thorough {
        for part in 0..64u32 { obs.add("C11", format!("inverse of every odd u32, part {} of 64", part), "exhaustive", "all elements", move || {
            let mut a = part * (1 << 26) | 1;
            for _ in 0..1u32 << 25 { match a.inverse() { Ok(i) if i.wrapping_mul(a) == 1 => {} _ => return Err(format!("inverse of {}", a)) } a = a.wrapping_add(2); }
            ok(1 << 25)
        }); }
    }
    obs.add("C11", "inverses and quotients of u32, u64 and quotients of u128", "bounded", "boundary-biased samples: powers of two and neighbours, small and large, random", || {
        let pat = |k: usize| -> u128 { let r = ob::draw128(); match k % 6 { 0 => r | 1, 1 => r, 2 => (1u128 << (r % 128)).wrapping_add(1), 3 => (1u128 << (r % 128)).wrapping_sub(1), 4 => r % 1000, _ => r.wrapping_neg() } };
        for k in 0..60000 {
            let (a, b) = (pat(k), pat(ob::rnd() as usize));
            inverse_ok(a as u32)?; inverse_ok(a as u64)?; inverse_ok((a >> 64) as u64)?; inverse_ok((a >> 96) as u32)?;
            if b as u32 != 0 { division_ok(a as u32, b as u32, a as u32 / b as u32)?; division_ok(a as u64, b as u64, a as u64 / b as u64)?; }
            if b != 0 { division_ok(a, b, a / b)?; }
        }
        for a in 0..4000u64 { for s in [0u64, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 2000] { inverse_ok(a.wrapping_add(s))?; inverse_ok(a.wrapping_add(s) as u32)?; } }
        ok(60000 * 7)
    });
}
