// C17 (executed part), C18 (executed part), C19: agreement of randomness, identifiers and configurations, size checks.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::obs_arith::*;
use super::sym::{S16, S64};
use crate::aby3::id::PartyID;
use crate::aby3::share::Share as AShare;
use crate::commitment::{CommitOpening, Commitment};
use crate::error::Error;
use crate::iris::protocol::IrisProtocol;
use crate::spdzwise::vecshare::VecShare as PVec;
use crate::swift3::share::Share as SShare;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::{MpcTrait, Plain};
use crate::traits::network_trait::NetworkTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use mpc_net::config::{NetworkConfig, NetworkParty};
use num_traits::Zero;
use plain_reference::IrisCodeArray;
use rand::distributions::{Distribution, Standard};
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;

const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
fn count(o: &mut Out, n: usize) { o.vcs += n; o.ground += n; o.evals += n; }
fn same<X: PartialEq + std::fmt::Debug>(what: &str, a: &X, b: &X) -> Result<(), String> { if a == b { Ok(()) } else { Err(format!("{}: {:?} and {:?}", what, a, b)) } }

// ---------------------------------------------------------------- C19
/// every party must report an error: no result, no panic, nobody waiting for ever
fn refused<R>(what: String, f: impl FnOnce() -> Result<[Result<R, Error>; 3], String>) -> Result<(), String> {
    match catch(f) {
        Err(p) => Err(format!("{}: panics: {}", what, p)),
        Ok(Err(e)) => Err(format!("{}: {}", what, e)),
        Ok(Ok(v)) => match v.iter().position(|x| x.is_ok()) { Some(i) => Err(format!("{}: party {} gets a result and no error", what, i)), None => Ok(()) },
    }
}
fn refused1<R>(what: String, f: impl FnOnce() -> Result<R, Error>) -> Result<(), String> {
    match catch(f) { Err(p) => Err(format!("{}: panics: {}", what, p)), Ok(Ok(_)) => Err(format!("{}: gives a result and no error", what)), Ok(Err(_)) => Ok(()) }
}
fn shares<E: Eng>(es: &[E::M], n: usize) -> Vec<[E::A; 3]> { let ctx = E::ctx(es); (0..n).map(|_| E::A::fresh(&ctx, "v").0).collect() }

pub fn c19_input<E: Eng>() -> Result<Out, String> {
    let mut o = Out::default();
    for id in [3usize, 4, 5, 6, 7, 255, 256, 257, 65536, 1 << 32, usize::MAX - 1, usize::MAX] {
        for with in 0..4usize {
            let (hub, mut es) = setup::<E>()?;
            let v = E::T::fresh("v");
            refused(format!("input by party {}{}", id, if with < 3 { format!(", value given at party {}", with) } else { String::new() }), || vp_run3!(&hub, es, |i, e| e.input(if i == with { Some(v.clone()) } else { None }, id)))?;
            count(&mut o, 1);
        }
    }
    Ok(o)
}
pub fn c19_dot<E: Eng>(max: usize) -> Result<Out, String> {
    let mut o = Out::default();
    let big = [(0, N), (N, N - 1), (N, 1)];
    for (n, m) in (0..=max).flat_map(|n| (0..=max).map(move |m| (n, m))).chain(big) {
        if n == m { continue; }
        let (hub, mut es) = setup::<E>()?;
        let (a, b) = (shares::<E>(&es, n), shares::<E>(&es, m));
        refused(format!("dot product of {} and {} elements", n, m), || vp_run3!(&hub, es, |i, e| e.dot(mkvec(&a, i), mkvec(&b, i))))?;
        count(&mut o, 1);
    }
    Ok(o)
}
type VS<A> = <A as ShareTrait>::VecShare;
fn lists<E: Eng>(es: &[E::M], lens: &[usize]) -> [Vec<VS<E::A>>; 3] {
    let v: Vec<Vec<[E::A; 3]>> = lens.iter().map(|n| shares::<E>(es, *n)).collect();
    [0, 1, 2].map(|i| v.iter().map(|x| mkvec(x, i)).collect())
}
pub fn c19_dot_many<E: Eng>(max: usize) -> Result<Out, String> {
    let mut o = Out::default();
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for n in 0..=max { for m in 0..=max { if n != m { for l in [0usize, 1, 3] { cases.push((vec![l; n], vec![l; m])); } } } }
    // one pair of different lengths, at every position
    for n in 1..=max { for k in 0..n { for (x, y) in [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 0), (0, 3)] {
        for fill in [1usize, 2] {
            let (mut a, mut b) = (vec![fill; n], vec![fill; n]);
            a[k] = x; b[k] = y;
            cases.push((a, b));
        }
    } } }
    // equal total lengths
    cases.push((vec![1, 2], vec![2, 1]));
    cases.push((vec![0, 3, 1], vec![3, 0, 1]));
    for (a, b) in cases {
        let (hub, mut es) = setup::<E>()?;
        let (av, bv) = (lists::<E>(&es, &a), lists::<E>(&es, &b));
        refused(format!("dot products of {:?} and {:?} elements", a, b), || vp_run3!(&hub, es, |i, e| e.dot_many(&av[i], &bv[i])))?;
        count(&mut o, 1);
    }
    Ok(o)
}
/// lists of the given lengths, made of copies of one sharing
fn longs<E: Eng>(s: &[E::A; 3], lens: &[usize]) -> [Vec<VS<E::A>>; 3] {
    [0, 1, 2].map(|i| lens.iter().map(|n| { let mut v = VS::<E::A>::with_capacity(*n); for _ in 0..*n { VecShareTrait::push(&mut v, s[i].clone()); } v }).collect())
}
pub fn c19_masked<E: Eng>() -> Result<Out, String> {
    let mut o = Out::default();
    let bad = [0usize, 1, 128, N / 2, N - 1, N + 1, N + 128];
    let mut cases: Vec<(usize, Vec<usize>, usize)> = bad.iter().map(|n| (*n, vec![N; 2], 2)).collect();
    for n in bad { cases.push((n, vec![n; 2], 2)); cases.push((n, vec![n], 1)); }
    for n in bad { for k in 0..3 { let mut b = vec![N; 3]; b[k] = n; cases.push((N, b, 3)); } }
    for (b, m) in [(0usize, 1usize), (1, 0), (1, 2), (2, 1), (2, 3), (3, 1), (3, 0)] { cases.push((N, vec![N; b], m)); }
    for (a, b, m) in cases {
        let (hub, mut es) = setup::<E>()?;
        let s = shares::<E>(&es, 1).remove(0);
        let (av, bv) = (longs::<E>(&s, &[a]), longs::<E>(&s, &b));
        let masks = vec![IrisCodeArray::ONES; m];
        refused(format!("masked dot products of a code of length {} with codes of lengths {:?} and {} masks", a, b, m), || vp_run3!(&hub, es, |i, e| e.masked_dot_many(&av[i][0], &bv[i], &masks)))?;
        count(&mut o, 1);
    }
    Ok(o)
}
/// the matcher: numbers of codes and masks, lengths of codes
pub fn c19_matcher<E: Eng>() -> Result<Out, String>
where
    <E::T as TryFrom<usize>>::Error: std::fmt::Debug,
{
    use super::obs_iris::*;
    let mut o = Out::default();
    let ones = IrisCodeArray::ONES;
    let mut cases: Vec<(usize, Vec<usize>, usize)> = vec![];
    for (b, m) in [(0usize, 0usize), (0, 1), (1, 0), (1, 2), (2, 1), (3, 2), (2, 3)] { cases.push((N, vec![N; b], m)); }
    for n in [0usize, 1, N - 1, N + 1] { cases.push((n, vec![N; 1], 1)); cases.push((n, vec![n; 1], 1)); for k in 0..2 { let mut b = vec![N; 2]; b[k] = n; cases.push((N, b, 2)); } }
    for (a, b, m) in cases {
        for chunk in [0usize, 1, 2, 4] {
            let (hub, es) = setup::<E>()?;
            let s = shares::<E>(&es, 1).remove(0);
            let (av, bv) = (longs::<E>(&s, &[a]), longs::<E>(&s, &b));
            let masks = vec![ones; m];
            let mut ps = wrap::<E>(es)?;
            let what = format!("code of length {}, database codes of lengths {:?}, {} masks", a, b, m);
            if chunk == 0 {
                refused(format!("comparison: {}", what), || vp_run3!(&hub, ps, |i, p| p.compare_iris_many(&av[i][0], &bv[i], &ones, &masks)))?;
            } else {
                refused(format!("database query in chunks of {}: {}", chunk, what), || vp_run3!(&hub, ps, |i, p| p.iris_in_db(&av[i][0], &bv[i], &ones, &masks, chunk)))?;
            }
            count(&mut o, 1);
        }
    }
    for (n, m) in [(0usize, 1usize), (1, 0), (1, 2), (2, 1), (3, 5)] {
        let (hub, es) = setup::<E>()?;
        let s = shares::<E>(&es, n);
        let mut ps = wrap::<E>(es)?;
        refused(format!("comparison of {} distances with {} mask weights", n, m), || vp_run3!(&hub, ps, |i, p| p.compare_threshold_many(s.iter().map(|x| x[i].clone()).collect(), vec![10_000; m])))?;
        count(&mut o, 1);
    }
    Ok(o)
}
pub fn c19_filter<E: Eng>() -> Result<Out, String> {
    let mut o = Out::default();
    let (_, es) = setup::<E>()?;
    let s = shares::<E>(&es, 1).remove(0);
    for (n, m) in [(0usize, 0usize), (0, 1), (1, 0), (1, 2), (N, N - 1), (N - 1, N), (N, 0), (0, N), (N, N + 1), (N + 1, N)] {
        let v = longs::<E>(&s, &[n, m]);
        for i in 0..3 { refused1(format!("masked sums of {} and {} shares", n, m), || VS::<E::A>::filter_reduce_add_twice(&v[i][0], &v[i][1], &IrisCodeArray::ONES))?; count(&mut o, 1); }
    }
    Ok(o)
}
pub fn c19_bin<B: BinEng>(max: usize) -> Result<Out, String> {
    let mut o = Out::default();
    let words = |n: usize| -> Vec<[B::S; 3]> { (0..n).map(|_| B::S::bfresh("w").0).collect() };
    for n in 0..=max { for m in 0..=max {
        if n == m { continue; }
        let (a, b) = (words(n), words(m));
        let (hub, mut es) = bsetup::<B>()?;
        refused(format!("AND of {} and {} words", n, m), || vp_run3!(&hub, es, |i, e| { let (x, y) = (mkvec(&a, i), mkvec(&b, i)); async move { e.and_many(&x, &y).await } }))?;
        let (hub, mut es) = bsetup::<B>()?;
        refused(format!("OR of {} and {} words", n, m), || vp_run3!(&hub, es, |i, e| e.or_many(mkvec(&a, i), mkvec(&b, i))))?;
        for (l1, l2, l3) in [(n, m, m), (m, n, m), (m, m, n)] {
            let (hub, mut es) = bsetup::<B>()?;
            let (x, y, z) = (words(l1), words(l2), words(l3));
            refused(format!("addition of {}, {} and {} words", l1, l2, l3), || vp_run3!(&hub, es, |i, e| e.binary_add_3_many(mkvec(&x, i), mkvec(&y, i), mkvec(&z, i))))?;
        }
        for i in 0..3 {
            let (x, y): (VS<B::S>, VS<B::S>) = (mkvec(&a, i), mkvec(&b, i));
            refused1(format!("XOR of {} and {} words", n, m), || <B::M as BinaryMpcTrait<B::W, B::S>>::xor_many(x.clone(), y.clone()))?;
            refused1(format!("XOR of {} and {} words", n, m), || x.clone().xor_many(y.clone()))?;
            let mut z = x.clone();
            refused1(format!("XOR in place of {} and {} words", n, m), || z.xor_assign_many(y.clone()))?;
            let mut z: Vec<B::S> = a.iter().map(|s| s[i].clone()).collect();
            refused1(format!("XOR in place of lists of {} and {} words", n, m), || <B::M as BinaryMpcTrait<B::W, B::S>>::xor_assign_many(&mut z, b.iter().map(|s| s[i].clone()).collect()))?;
        }
        count(&mut o, 17);
    } }
    Ok(o)
}
pub fn c19_plain() -> Result<Out, String> {
    let mut o = Out::default();
    macro_rules! go { ($t:ty) => {{
        let mut e = Plain::default();
        for n in 0..5usize { for m in 0..5usize { if n != m {
            let (a, b) = (vec![<$t>::default(); n], vec![<$t>::default(); m]);
            refused1(format!("plain: dot product of {} and {} values", n, m), || block(MpcTrait::<$t, $t, Bit>::dot(&mut e, a.clone(), b.clone())).unwrap())?;
            refused1(format!("plain: {} and {} dot products", n, m), || block(MpcTrait::<$t, $t, Bit>::dot_many(&mut e, &vec![vec![]; n], &vec![vec![]; m])).unwrap())?;
            refused1(format!("plain: dot products of {} and {} values", n, m), || block(MpcTrait::<$t, $t, Bit>::dot_many(&mut e, &[a.clone(), a.clone()], &[a.clone(), b.clone()])).unwrap())?;
            refused1(format!("plain: XOR of {} and {} values", n, m), || VecShareTrait::xor_many(a.clone(), b.clone()))?;
            refused1(format!("plain: XOR in place of {} and {} values", n, m), || a.clone().xor_assign_many(b.clone()))?;
            count(&mut o, 5);
        } } }
        for (n, m, k) in [(N, 2usize, 1usize), (N, 1, 2), (N, 0, 1), (N, 1, 0), (N - 1, 1, 1), (0, 1, 1), (N + 1, 1, 1)] {
            refused1(format!("plain: masked dot products, length {}, {} codes, {} masks", n, m, k), || block(MpcTrait::<$t, $t, Bit>::masked_dot_many(&mut e, &vec![<$t>::default(); N], &vec![vec![<$t>::default(); n]; m], &vec![IrisCodeArray::ONES; k])).unwrap())?;
            if n != N { refused1(format!("plain: masked dot product, first code of length {}", n), || block(MpcTrait::<$t, $t, Bit>::masked_dot_many(&mut e, &vec![<$t>::default(); n], &vec![vec![<$t>::default(); N]; m], &vec![IrisCodeArray::ONES; k])).unwrap())?; }
            count(&mut o, 2);
        }
        for (n, m) in [(0usize, 0usize), (N, N - 1), (N - 1, N - 1), (N + 1, N + 1), (N, 0)] { refused1(format!("plain: masked sums of {} and {}", n, m), || <Vec<$t> as VecShareTrait>::filter_reduce_add_twice(&vec![<$t>::default(); n], &vec![<$t>::default(); m], &IrisCodeArray::ONES))?; count(&mut o, 1); }
        refused1("plain: input of nothing".into(), || block(MpcTrait::<$t, $t, Bit>::input(&mut e, None, 0)).unwrap())?;
    }} }
    go!(u16);
    go!(u32);
    Ok(o)
}
#[cfg(vp_c19)]
pub fn collect_c19(obs: &mut Obs) {
    let mx = if obs.thorough { 8 } else { 4 };
    macro_rules! e { ($($t:ty),*) => { $(
        let n = <$t as Eng>::ename();
        obs.add("C19", format!("{}: input by a party that does not exist", n), "bounded", "twelve ids", c19_input::<$t>);
        obs.add("C19", format!("{}: dot product of different lengths", n), "bounded", format!("all pairs of lengths up to {}, code lengths", mx), move || c19_dot::<$t>(mx));
        obs.add("C19", format!("{}: batches of dot products of different sizes", n), "bounded", format!("up to {} products, one wrong pair at every position", mx), move || c19_dot_many::<$t>(mx));
        obs.add("C19", format!("{}: masked dot products of different sizes", n), "bounded", "numbers of codes and masks up to 3, wrong code lengths at every position", c19_masked::<$t>);
        obs.add("C19", format!("{}: masked sums of different lengths", n), "bounded", "ten pairs of lengths", c19_filter::<$t>);
    )* } }
    e!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>, EAby<u32>, EMal<u8>, ESwift<u32>, ESpdz<u32>);
    macro_rules! m { ($($t:ty),*) => { $( obs.add("C19", format!("{}: matcher", <$t as Eng>::ename()), "bounded", "numbers of codes and masks up to 3, wrong code lengths at every position", c19_matcher::<$t>); )* } }
    m!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
    macro_rules! b { ($($t:ty, $n:expr);*) => { $( obs.add("C19", format!("{}: boolean operations on different lengths, {}", $n, <<$t as BinEng>::W as Val>::TNAME), "bounded", format!("all pairs of lengths up to {}", mx), move || c19_bin::<$t>(mx)); )* } }
    b!(BAby<u16>, "Aby3"; BMal<u16>, "MalAby3"; BSwift<u16>, "Swift3"; BSpdz<u16>, "SpdzWise"; BAby<u128>, "Aby3"; BAby<Bit>, "Aby3"; BMal<Bit>, "MalAby3"; BSwift<u32>, "Swift3"; BSpdz<u64>, "SpdzWise");
    obs.add("C19", "plain engine", "bounded", "all pairs of lengths up to 4, code lengths", c19_plain);
}

// ---------------------------------------------------------------- C18
/// every way of ordering n+1 numbers (the code only compares them), mapped to small and to extreme values
#[cfg(vp_c18)]
pub fn c18_config(n: usize) -> Result<Out, String> {
    let mut o = Out::default();
    let vals: [Vec<usize>; 3] = [(0..n + 1).collect(), (0..n + 1).map(|k| usize::MAX - n + k).collect(), (0..n + 1).map(|k| if k == 0 { 0 } else { (1usize << 32) * k + k }).collect()];
    let m = n + 1;
    let total = m.pow(m as u32);
    for code in 0..total {
        let mut c = code;
        let ranks: Vec<usize> = (0..m).map(|_| { let r = c % m; c /= m; r }).collect();
        for v in &vals {
            let cfg = config(&ranks[1..].iter().map(|r| v[*r]).collect::<Vec<_>>(), v[ranks[0]]);
            let ids = &ranks[1..];
            let distinct = (0..n).all(|i| (0..i).all(|j| ids[i] != ids[j]));
            let want = distinct && ids.contains(&ranks[0]);
            let got = catch(|| cfg.check_config().is_ok()).map_err(|p| format!("check of parties {:?}, own id {}: panics: {}", cfg.parties.iter().map(|p| p.id).collect::<Vec<_>>(), cfg.my_id, p))?;
            if got != want { return Err(format!("parties {:?}, own id {}: accepted = {}", cfg.parties.iter().map(|p| p.id).collect::<Vec<_>>(), cfg.my_id, got)); }
            count(&mut o, 1);
        }
    }
    Ok(o)
}
/// `same`: all addresses, names and paths are equal as well
#[cfg(vp_c18)]
fn config(ids: &[usize], my: usize) -> NetworkConfig {
    let party = |k: usize, id: usize| NetworkParty {
        id,
        dns_name: format!("p{}", k % 2),
        bind_addr: std::net::SocketAddr::from(([127, 0, 0, 1], 1 + (k % 2) as u16)),
        public_addr: std::net::SocketAddr::from(([127, 0, 0, 1], 1 + (k % 2) as u16)),
        cert_path: format!("/nonexistent/vp/{}", k % 2).into(),
    };
    NetworkConfig { parties: ids.iter().enumerate().map(|(k, i)| party(k, *i)).collect(), my_id: my, key_path: "/nonexistent/vp/key".into() }
}
/// the network refuses an invalid configuration before it touches a file or a socket
#[cfg(vp_c18)]
pub fn c18_network() -> Result<Out, String> {
    use crate::aby3::network::Aby3Network;
    let mut o = Out::default();
    let mut cases: Vec<(Vec<usize>, usize, &str)> = vec![];
    for my in [3usize, 4, 255, 256, 257, 258, 1 << 32, usize::MAX] { cases.push((vec![0, 1, 2], my, "id")); cases.push((vec![0, 1, my], my, "id")); }
    for my in 0..3 { for n in [1usize, 2, 4, 5] { cases.push(((my..my + n).collect(), my, "number")); } cases.push((vec![], my, "number")); }
    for my in 0..3 { cases.push((vec![my, my, (my + 1) % 3], my, "config")); cases.push((vec![my, (my + 1) % 3, (my + 1) % 3], my, "config")); cases.push((vec![(my + 1) % 3, (my + 2) % 3, 7], my, "config")); }
    for (ids, my, kind) in cases {
        let what = format!("network with parties {:?}, own id {}", ids, my);
        let cfg = config(&ids, my);
        let r = catch(|| block(Aby3Network::new(cfg))).map_err(|p| format!("{}: panics: {}", what, p))??;
        let e = match r { Ok(_) => return Err(format!("{}: is set up", what)), Err(e) => e };
        let ok = match (&e, kind) {
            (Error::IdError(i), "id") => *i == my,
            (Error::NumPartyError(n), "number") => *n == ids.len(),
            (Error::ColorEyreError(r), "config") => !format!("{:#}", r).contains("certificate"),
            _ => false,
        };
        if !ok { return Err(format!("{}: reports {:?}", what, e)); }
        count(&mut o, 1);
    }
    Ok(o)
}
#[cfg(vp_c18)]
pub fn c18_ids() -> Result<Out, String> {
    let mut o = Out::default();
    let chk = |r: Result<PartyID, Error>, n: usize| -> Result<(), String> {
        match r {
            Ok(p) => {
                let id: usize = p.into();
                if n > 2 || id != n { return Err(format!("{} is accepted as party {}", n, id)); }
                let (x, y): (usize, usize) = (p.next_id().into(), p.prev_id().into());
                if x != (n + 1) % 3 || y != (n + 2) % 3 { return Err(format!("neighbours of party {}: next {}, previous {}", n, x, y)); }
                if p.next_id().prev_id() != p || format!("{}", p) != n.to_string() { return Err(format!("party {}", n)); }
                Ok(())
            }
            Err(e) => match e { Error::IdError(i) if i == n && n > 2 => Ok(()), e => Err(format!("{}: {:?}", n, e)) },
        }
    };
    for n in 0..=255u8 { chk(PartyID::try_from(n), n as usize)?; count(&mut o, 1); }
    let extremes = (0..64).flat_map(|k| [0usize, 1, 2, 3].map(|d| (1usize << k).wrapping_add(d).wrapping_sub(1)));
    for n in (0..100_000).chain(extremes).chain((0..2000).map(|_| rnd() as usize)).chain([usize::MAX]) { chk(PartyID::try_from(n), n)?; count(&mut o, 1); }
    Ok(o)
}
#[cfg(vp_c18)]
pub fn collect_c18(obs: &mut Obs) {
    obs.add("C18", "party ids", "exhaustive", "all u8, numbers up to 100000, around every power of two, random", c18_ids);
    for n in 0..=(if obs.thorough { 6 } else { 5 }) { obs.add("C18", format!("configurations of {} parties", n), "exhaustive", "every order and equality pattern of the ids and the own id (only comparisons are made), three value sets", move || c18_config(n)); }
    obs.add("C18", "networks with invalid configurations", "bounded", "own id, number of parties, duplicate and missing ids", c18_network);
}
