// C01-C04: sharing/opening, local operations, multiplications, boolean operations.
use super::eng::*;
use super::net::*;
use super::ob::*;
use super::sym::{self, *};
use crate::aby3::share::Share as AShare;
use crate::error::Error;
use crate::spdzwise::share::Share as PShare;
use crate::swift3::share::Share as SShare;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::{MpcTrait, Plain};
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::{One, Zero};
use plain_reference::IrisCodeArray;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

pub fn cl<X: Clone>(s: &[X; 3], i: usize) -> X { s[i].clone() }
pub fn mkvec<S: ShareTrait>(v: &[[S; 3]], i: usize) -> S::VecShare {
    let mut r = <S::VecShare as VecShareTrait>::with_capacity(v.len());
    for s in v { VecShareTrait::push(&mut r, s[i].clone()); }
    r
}
pub fn clean(hub: &Hub) -> Pair { eqn("messages left unread", hub.leftover() as u128, 0) }
pub fn rep(n: usize, f: impl Fn() -> Result<Out, String>) -> Result<Out, String> {
    let mut o = Out::default();
    for _ in 0..n { let mut r = f()?; r.evals += 1; o.add(r); sym::reset(); }
    Ok(o)
}
pub fn bitpair(label: impl Into<String>, got: bool, want: bool) -> Pair { eqn(label, got as u128, want as u128) }

/// all four engines; symbolic types: every value; concrete types: sampled values
macro_rules! each_eng {
    ($obs:expr, $prop:expr, $name:expr, $scope:expr, $n:expr, |$E:ident| $body:expr) => {{
        each_eng!(@p $obs, $prop, $name, $scope, $E, $body, EAby<S16>, EAby<S32>, EAby<S64>, EMal<S16>, EMal<S64>, ESwift<S16>, ESwift<S32>, ESwift<S64>, ESpdz<S16>, ESpdz<S64>);
        each_eng!(@c $obs, $prop, $name, $scope, $n, $E, $body, EAby<u8>, EAby<u16>, EAby<u32>, EAby<u64>, EAby<i8>, EAby<i16>, EAby<i32>, EAby<i64>, EMal<u8>, EMal<u16>, EMal<i16>, EMal<u64>, ESwift<u8>, ESwift<u16>, ESwift<u32>, ESwift<i16>, ESwift<i64>, ESpdz<u8>, ESpdz<u16>, ESpdz<u32>, ESpdz<i16>, ESpdz<u64>);
    }};
    (@p $obs:expr, $prop:expr, $name:expr, $scope:expr, $E:ident, $body:expr, $($t:ty),*) => {$({
        type $E = $t;
        $obs.add($prop, format!("{}: {}", <$t as Eng>::ename(), $name), "proved", $scope, move || $body);
    })*};
    (@c $obs:expr, $prop:expr, $name:expr, $scope:expr, $n:expr, $E:ident, $body:expr, $($t:ty),*) => {$({
        type $E = $t;
        let n = $n;
        $obs.add($prop, format!("{}: {}", <$t as Eng>::ename(), $name), "bounded", format!("{} random executions; {}", n, $scope), move || rep(n, || $body));
    })*};
}
macro_rules! each_bin {
    ($obs:expr, $prop:expr, $name:expr, $scope:expr, $n:expr, |$E:ident| $body:expr) => {{
        each_bin!(@p $obs, $prop, $name, $scope, $E, $body, "Aby3", BAby<S16>, BAby<S32>, BAby<S64>);
        each_bin!(@p $obs, $prop, $name, $scope, $E, $body, "MalAby3", BMal<S16>, BMal<S32>, BMal<S64>);
        each_bin!(@p $obs, $prop, $name, $scope, $E, $body, "Swift3", BSwift<S16>, BSwift<S32>, BSwift<S64>);
        each_bin!(@p $obs, $prop, $name, $scope, $E, $body, "SpdzWise", BSpdz<S16>, BSpdz<S32>, BSpdz<S64>);
        each_bin!(@c $obs, $prop, $name, $scope, $n, $E, $body, "Aby3", BAby<Bit>, BAby<u8>, BAby<u16>, BAby<u32>, BAby<u64>, BAby<u128>);
        each_bin!(@c $obs, $prop, $name, $scope, $n, $E, $body, "MalAby3", BMal<Bit>, BMal<u8>, BMal<u16>, BMal<u32>, BMal<u64>, BMal<u128>);
        each_bin!(@c $obs, $prop, $name, $scope, $n, $E, $body, "Swift3", BSwift<Bit>, BSwift<u8>, BSwift<u16>, BSwift<u32>, BSwift<u64>, BSwift<u128>);
        each_bin!(@c $obs, $prop, $name, $scope, $n, $E, $body, "SpdzWise", BSpdz<Bit>, BSpdz<u8>, BSpdz<u16>, BSpdz<u32>, BSpdz<u64>, BSpdz<u128>);
    }};
    (@p $obs:expr, $prop:expr, $name:expr, $scope:expr, $E:ident, $body:expr, $en:expr, $($t:ty),*) => {$({
        type $E = $t;
        $obs.add($prop, format!("{}[{}]: {}", $en, <<$t as BinEng>::W as Val>::TNAME, $name), "proved", $scope, move || $body);
    })*};
    (@c $obs:expr, $prop:expr, $name:expr, $scope:expr, $n:expr, $E:ident, $body:expr, $en:expr, $($t:ty),*) => {$({
        type $E = $t;
        let n = $n;
        $obs.add($prop, format!("{}[{}]: {}", $en, <<$t as BinEng>::W as Val>::TNAME, $name), "bounded", format!("{} random executions; {}", n, $scope), move || rep(n, || $body));
    })*};
}
/// sizes far beyond the symbolic ones, executed
macro_rules! large {
    ($obs:expr, $prop:expr, $name:expr, $n:expr, |$E:ident| $body:expr, $($t:ty),*) => {$({
        type $E = $t;
        let n = $n;
        $obs.add($prop, format!("{}: {}", stringify!($t), $name), "bounded", format!("{} random executions", n), move || rep(n, || $body));
    })*};
}
pub(crate) use {each_bin, each_eng, large};

// ---------------------------------------------------------------- C01
pub fn c01_dealer<E: Eng>() -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let x = <E::T as Val>::fresh("x");
    let mut rng = ChaCha12Rng::seed_from_u64(rnd());
    let s = E::M::share(x, E::dealer_key(&es), &mut rng);
    let s: [E::A; 3] = s.try_into().map_err(|_| "the dealer does not produce three shares".to_string())?;
    let (v, mut ps) = E::A::view(&ctx, "dealt sharing", &s);
    ps.push(peq::<E::T>("value of the dealt sharing", &v, &x.to_sharetype()));
    let o = all_ok(vp_run3!(&hub, es, |i, e| e.open(cl(&s, i))))?;
    for p in 0..3 { ps.push(peq::<E::T>(&format!("value opened by party {}", p), &o[p].to_sharetype(), &x.to_sharetype())); }
    ps.push(clean(&hub));
    decide(&ps)
}
pub fn c01_input<E: Eng>(owner: usize, then_open: bool) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let x = <E::T as Val>::fresh("x");
    let r = all_ok(vp_run3!(&hub, es, |i, e| e.input(if i == owner { Some(x) } else { None }, owner)))?;
    let (v, mut ps) = E::A::view(&ctx, "input sharing", &r);
    ps.push(peq::<E::T>("value of the input sharing", &v, &x.to_sharetype()));
    ps.push(clean(&hub));
    if then_open {
        let o = all_ok(vp_run3!(&hub, es, |i, e| e.open(cl(&r, i))))?;
        for p in 0..3 { ps.push(peq::<E::T>(&format!("opened by party {}", p), &o[p].to_sharetype(), &x.to_sharetype())); }
        ps.push(clean(&hub));
    }
    decide(&ps)
}
pub fn c01_open<E: Eng>() -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (x, v) = E::A::fresh(&ctx, "x");
    let o = all_ok(vp_run3!(&hub, es, |i, e| e.open(cl(&x, i))))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 { ps.push(peq::<E::T>(&format!("opened by party {}", p), &o[p].to_sharetype(), &v)); }
    decide(&ps)
}
pub fn c01_open_many<E: Eng>(n: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let f: Vec<_> = (0..n).map(|k| E::A::fresh(&ctx, &format!("x{}", k))).collect();
    let sh: Vec<[E::A; 3]> = f.iter().map(|(s, _)| s.clone()).collect();
    let o = all_ok(vp_run3!(&hub, es, |i, e| e.open_many(mkvec(&sh, i))))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 {
        ps.push(eqn(format!("number of values opened by party {}", p), o[p].len() as u128, n as u128));
        for k in 0..n.min(o[p].len()) { ps.push(peq::<E::T>(&format!("value {} opened by party {}", k, p), &o[p][k].to_sharetype(), &f[k].1)); }
    }
    decide(&ps)
}
/// every sharing of a bit, opened singly and at every position of a batch
pub fn c01_open_bit<E: Eng>() -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let mut ps = vec![];
    let mut sh = vec![];
    let mut want = vec![];
    let mut seen = std::collections::HashSet::new();
    // all raw sharings (3 components)
    while seen.len() < 8 {
        let (s, v) = E::B::bfresh("b");
        let key = format!("{:?}", seen_key::<E>(&s));
        if !seen.insert(key) { continue; }
        let v = v.convert().convert();
        let o = all_ok(vp_run3!(&hub, es, |i, e| e.open_bit(cl(&s, i))))?;
        for p in 0..3 { ps.push(bitpair(format!("bit opened by party {}", p), o[p], v)); }
        sh.push(s);
        want.push(v);
    }
    for n in [1usize, 2, 3, 7, 8, 9, 16, 129] {
        let idx: Vec<usize> = (0..n).map(|_| rnd() as usize % 8).collect();
        let b: Vec<[E::B; 3]> = idx.iter().map(|k| sh[*k].clone()).collect();
        let o = all_ok(vp_run3!(&hub, es, |i, e| e.open_bit_many(mkvec(&b, i))))?;
        for p in 0..3 {
            ps.push(eqn("number of opened bits", o[p].len() as u128, n as u128));
            for k in 0..n { ps.push(bitpair(format!("bit {} of {} opened by party {}", k, n, p), o[p].get(k).copied().unwrap_or(false), want[idx[k]])); }
        }
    }
    ps.push(clean(&hub));
    decide(&ps)
}
fn seen_key<E: Eng>(s: &[E::B; 3]) -> Vec<String> {
    // shares of bits are distinguished by the value they give when xored with fixed sharings
    let _ = s;
    let (v, ps) = E::B::bview("", s);
    let mut k = vec![format!("{:?}", v)];
    for i in 0..3 {
        let z = E::B::zero();
        let mut t = [z.clone(), z.clone(), z.clone()];
        t[i] = s[i].clone();
        let (v, p) = E::B::bview("", &t);
        k.push(format!("{:?}", v));
        for q in p { if let PairV::Conc(a, b) = q.v { k.push(format!("{}{}", a, b)); } }
    }
    let _ = ps;
    k
}

// ---------------------------------------------------------------- C02
pub fn c02_local<E: Eng>() -> Result<Out, String> {
    let (hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (x, xv) = E::A::fresh(&ctx, "x");
    let (y, yv) = E::A::fresh(&ctx, "y");
    let c = <E::T as Val>::fresh("c");
    let cv = c.to_sharetype();
    let mut ps = vec![];
    let mut chk = |l: &str, r: [E::A; 3], want: Sh<E::T>| {
        let (v, p) = E::A::view(&ctx, l, &r);
        app(&mut ps, p);
        ps.push(peq::<E::T>(l, &v, &want));
    };
    chk("add", [0, 1, 2].map(|i| es[i].add(cl(&x, i), cl(&y, i))), xv.clone() + &yv);
    chk("sub", [0, 1, 2].map(|i| es[i].sub(cl(&x, i), cl(&y, i))), xv.clone() - &yv);
    chk("add_const", [0, 1, 2].map(|i| es[i].add_const(cl(&x, i), c)), xv.clone() + &cv);
    chk("sub_const", [0, 1, 2].map(|i| es[i].sub_const(cl(&x, i), c)), xv.clone() - &cv);
    chk("mul_const", [0, 1, 2].map(|i| es[i].mul_const(cl(&x, i), c)), xv.clone() * &cv);
    chk("zero share", [0, 1, 2].map(|_| E::A::zero()), Sh::<E::T>::zero());
    chk("zero share + x", [0, 1, 2].map(|i| E::A::zero() + cl(&x, i)), xv.clone());
    ps.push(eqn("messages sent by local operations", hub.leftover() as u128, 0));
    decide(&ps)
}
/// operators of the replicated share types themselves
macro_rules! c02_ops {
    ($fname:ident, $S:ident) => {
        pub fn $fname<W: Val>() -> Result<Out, String>
        where
            RingElement<W>: Clone,
            W: crate::types::int_ring::IntRing2k + Sharable<Share = RingElement<W>>,
        {
            type A<W> = $S<W>;
            let (x, xv) = <A<W> as ARep<W>>::fresh(&(), "x");
            let (y, yv) = <A<W> as ARep<W>>::fresh(&(), "y");
            let (bx, bxv) = <A<W> as BRep<W>>::bfresh("bx");
            let (by, byv) = <A<W> as BRep<W>>::bfresh("by");
            let c = W::fresh("c").to_sharetype();
            let mut ps = vec![];
            let f3 = |f: &dyn Fn(usize) -> A<W>| [f(0), f(1), f(2)];
            macro_rules! ar { ($l:expr, $f:expr, $w:expr) => {{ let r = f3(&$f); let (v, p) = <A<W> as ARep<W>>::view(&(), $l, &r); app(&mut ps, p); ps.push(peq::<W>($l, &v, &$w)); }} }
            macro_rules! br { ($l:expr, $f:expr, $w:expr) => {{ let r = f3(&$f); let (v, p) = <A<W> as BRep<W>>::bview($l, &r); app(&mut ps, p); ps.push(peq::<W>($l, &v, &$w)); }} }
            ar!("x + y", |i| cl(&x, i) + cl(&y, i), xv.clone() + &yv);
            ar!("x + &y", |i| cl(&x, i) + &y[i], xv.clone() + &yv);
            ar!("x += y", |i| { let mut a = cl(&x, i); a += cl(&y, i); a }, xv.clone() + &yv);
            ar!("x += &y", |i| { let mut a = cl(&x, i); a += &y[i]; a }, xv.clone() + &yv);
            ar!("x - y", |i| cl(&x, i) - cl(&y, i), xv.clone() - &yv);
            ar!("x - &y", |i| cl(&x, i) - &y[i], xv.clone() - &yv);
            ar!("x -= y", |i| { let mut a = cl(&x, i); a -= cl(&y, i); a }, xv.clone() - &yv);
            ar!("x -= &y", |i| { let mut a = cl(&x, i); a -= &y[i]; a }, xv.clone() - &yv);
            ar!("-x", |i| -cl(&x, i), -xv.clone());
            ar!("x * c", |i| cl(&x, i) * c.clone(), xv.clone() * &c);
            ar!("x * &c", |i| cl(&x, i) * &c, xv.clone() * &c);
            ar!("x *= c", |i| { let mut a = cl(&x, i); a *= c.clone(); a }, xv.clone() * &c);
            ar!("x *= &c", |i| { let mut a = cl(&x, i); a *= &c; a }, xv.clone() * &c);
            ar!("c * x", |i| c.clone() * cl(&x, i), xv.clone() * &c);
            ar!("c * &x", |i| c.clone() * &x[i], xv.clone() * &c);
            br!("x ^ y", |i| cl(&bx, i) ^ cl(&by, i), bxv.clone() ^ &byv);
            br!("x ^ &y", |i| cl(&bx, i) ^ &by[i], bxv.clone() ^ &byv);
            br!("x ^= y", |i| { let mut a = cl(&bx, i); a ^= cl(&by, i); a }, bxv.clone() ^ &byv);
            br!("x ^= &y", |i| { let mut a = cl(&bx, i); a ^= &by[i]; a }, bxv.clone() ^ &byv);
            br!("x & c", |i| cl(&bx, i) & c.clone(), bxv.clone() & &c);
            br!("x & &c", |i| cl(&bx, i) & &c, bxv.clone() & &c);
            br!("x &= c", |i| { let mut a = cl(&bx, i); a &= c.clone(); a }, bxv.clone() & &c);
            br!("x &= &c", |i| { let mut a = cl(&bx, i); a &= &c; a }, bxv.clone() & &c);
            br!("c & x", |i| c.clone() & cl(&bx, i), bxv.clone() & &c);
            br!("c & &x", |i| c.clone() & &bx[i], bxv.clone() & &c);
            br!("!x", |i| !cl(&bx, i), !bxv.clone());
            for k in [0u32, 1, 2, 3, 7, <W as crate::types::int_ring::IntRing2k>::K as u32 - 1] {
                if k as usize >= <W as crate::types::int_ring::IntRing2k>::K { continue; }
                br!(&format!("x << {}", k), |i| cl(&bx, i) << k, bxv.clone() << k);
                br!(&format!("x <<= {}", k), |i| { let mut a = cl(&bx, i); a <<= k; a }, bxv.clone() << k);
            }
            br!("zero", |_| <A<W>>::zero(), Sh::<W>::zero());
            for i in 0..3 { ps.push(want("zero share is recognised as zero", <A<W>>::zero().is_zero())); let _ = i; }
            decide(&ps)
        }
    };
}
c02_ops!(c02_ops_aby, AShare);
c02_ops!(c02_ops_swift, SShare);
pub fn c02_aby_extra<W: Val>() -> Result<Out, String>
where
    W: crate::types::int_ring::IntRing2k + Sharable<Share = RingElement<W>>,
{
    use crate::aby3::id::PartyID;
    let id = [PartyID::ID0, PartyID::ID1, PartyID::ID2];
    let (x, xv) = <AShare<W> as ARep<W>>::fresh(&(), "x");
    let (b, bv) = <AShare<W> as BRep<W>>::bfresh("b");
    let c = W::fresh("c").to_sharetype();
    let mut ps = vec![];
    let mut ar = |l: &str, r: [AShare<W>; 3], w: Sh<W>| { let (v, p) = <AShare<W> as ARep<W>>::view(&(), l, &r); app(&mut ps, p); ps.push(peq::<W>(l, &v, &w)); };
    ar("add_const", [0, 1, 2].map(|i| cl(&x, i).add_const(&c, id[i])), xv.clone() + &c);
    ar("sub_const", [0, 1, 2].map(|i| cl(&x, i).sub_const(&c, id[i])), xv.clone() - &c);
    ar("add_assign_const", [0, 1, 2].map(|i| { let mut a = cl(&x, i); a.add_assign_const(&c, id[i]); a }), xv.clone() + &c);
    ar("sub_assign_const", [0, 1, 2].map(|i| { let mut a = cl(&x, i); a.sub_assign_const(&c, id[i]); a }), xv.clone() - &c);
    let r = [0, 1, 2].map(|i| { let mut a = cl(&b, i); a.xor_assign_const(&c, id[i]); a });
    let (v, p) = <AShare<W> as BRep<W>>::bview("xor_assign_const", &r);
    app(&mut ps, p);
    ps.push(peq::<W>("xor_assign_const", &v, &(bv.clone() ^ &c)));
    decide(&ps)
}
pub fn c02_swift_extra<W: Val>() -> Result<Out, String>
where
    W: crate::types::int_ring::IntRing2k + Sharable<Share = RingElement<W>>,
{
    let (x, xv) = <SShare<W> as ARep<W>>::fresh(&(), "x");
    let c = W::fresh("c").to_sharetype();
    let mut ps = vec![];
    let mut ar = |l: &str, r: [SShare<W>; 3], w: Sh<W>| { let (v, p) = <SShare<W> as ARep<W>>::view(&(), l, &r); app(&mut ps, p); ps.push(peq::<W>(l, &v, &w)); };
    ar("add_const", [0, 1, 2].map(|i| cl(&x, i).add_const(&c)), xv.clone() + &c);
    ar("sub_const", [0, 1, 2].map(|i| cl(&x, i).sub_const(&c)), xv.clone() - &c);
    ar("add_assign_const", [0, 1, 2].map(|i| { let mut a = cl(&x, i); a.add_assign_const(&c); a }), xv.clone() + &c);
    ar("sub_assign_const", [0, 1, 2].map(|i| { let mut a = cl(&x, i); a.sub_assign_const(&c); a }), xv.clone() - &c);
    decide(&ps)
}
/// conversions between the value ring and the verification ring act on the shared value
pub fn c02_verification<T: Val>() -> Result<Out, String>
where
    T::VerificationShare: Val,
{
    type Vt<T> = <T as Sharable>::VerificationShare;
    let (x, xv) = <AShare<Vt<T>> as ARep<Vt<T>>>::fresh(&(), "x");
    let r = [0, 1, 2].map(|i| AShare::<T>::from_verificationtype(cl(&x, i)));
    let (v, mut ps) = <AShare<T> as ARep<T>>::view(&(), "from_verificationtype", &r);
    ps.push(peq::<T>("narrowed sharing", &v, &T::from_verificationtype(xv)));
    let (y, yv) = <AShare<T> as ARep<T>>::fresh(&(), "y");
    let w = [0, 1, 2].map(|i| cl(&y, i).to_verificationtype());
    let (wv, p2) = <AShare<Vt<T>> as ARep<Vt<T>>>::view(&(), "to_verificationtype", &w);
    app(&mut ps, p2);
    ps.push(peq::<T>("widened sharing narrowed again", &T::from_verificationtype(wv), &yv));
    decide(&ps)
}
/// vector containers: element k of a derived vector is the derived element
pub fn c02_vec<E: Eng>(n: usize) -> Result<Out, String> {
    let (_hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let f: Vec<_> = (0..n).map(|k| E::A::fresh(&ctx, &format!("x{}", k))).collect();
    let g: Vec<_> = (0..n).map(|k| E::A::fresh(&ctx, &format!("y{}", k))).collect();
    let fs: Vec<_> = f.iter().map(|a| a.0.clone()).collect();
    let gs: Vec<_> = g.iter().map(|a| a.0.clone()).collect();
    let fv: Vec<_> = f.iter().map(|a| a.1.clone()).collect();
    let gv: Vec<_> = g.iter().map(|a| a.1.clone()).collect();
    type VS<E> = <<E as Eng>::A as ShareTrait>::VecShare;
    let mut ps = vec![];
    let mut chk = |l: &str, r: [VS<E>; 3], want: Vec<Sh<E::T>>| {
        for p in 0..3 { ps.push(eqn(format!("{}: length at party {}", l, p), r[p].len() as u128, want.len() as u128)); }
        if r.iter().any(|v| v.len() != want.len()) { return; }
        for (k, w) in want.iter().enumerate() {
            let (v, q) = E::A::view(&ctx, l, &[0, 1, 2].map(|p| r[p].get_at(k)));
            app(&mut ps, q);
            ps.push(peq::<E::T>(&format!("{}[{}]", l, k), &v, w));
        }
    };
    let a = [0, 1, 2].map(|i| mkvec(&fs, i));
    let b = [0, 1, 2].map(|i| mkvec(&gs, i));
    chk("push", a.clone(), fv.clone());
    let cat: Vec<_> = fv.iter().chain(gv.iter()).cloned().collect();
    chk("extend", [0, 1, 2].map(|i| { let mut v = a[i].clone(); v.extend(b[i].clone()); v }), cat.clone());
    for m in 0..=n {
        chk("split_at first part", [0, 1, 2].map(|i| a[i].split_at(m).0), fv[..m].to_vec());
        chk("split_at second part", [0, 1, 2].map(|i| a[i].split_at(m).1), fv[m..].to_vec());
        if m > 0 {
            let cs: Vec<Vec<VS<E>>> = (0..3).map(|i| a[i].clone().chunks(m)).collect();
            let w: Vec<_> = fv.chunks(m).map(|c| c.to_vec()).collect();
            for i in 0..3 { if cs[i].len() != w.len() { return Err(format!("chunks({}) of {} elements gives {} chunks", m, n, cs[i].len())); } }
            for k in 0..w.len() { chk("chunks", [0, 1, 2].map(|i| cs[i][k].clone()), w[k].clone()); }
        }
    }
    for k in 0..n {
        let mut w = fv.clone();
        w[k] = gv[k].clone();
        chk("set_at", [0, 1, 2].map(|i| { let mut v = a[i].clone(); v.set_at(k, b[i].get_at(k)); v }), w);
    }
    for i in 0..3 { ps.push(bitpair("is_empty", a[i].is_empty(), n == 0)); }
    decide(&ps)
}
pub fn c02_bvec<S, W: Val>(n: usize, name: &str) -> Result<Out, String>
where
    S: BRep<W>,
{
    let _ = name;
    let f: Vec<_> = (0..n).map(|k| S::bfresh(&format!("x{}", k))).collect();
    let g: Vec<_> = (0..n).map(|k| S::bfresh(&format!("y{}", k))).collect();
    let fs: Vec<_> = f.iter().map(|a| a.0.clone()).collect();
    let gs: Vec<_> = g.iter().map(|a| a.0.clone()).collect();
    let mut ps = vec![];
    let mut chk = |l: &str, r: [S::VecShare; 3], want: Vec<Sh<W>>| {
        for p in 0..3 { ps.push(eqn(format!("{}: length", l), r[p].len() as u128, want.len() as u128)); }
        if r.iter().any(|v| v.len() != want.len()) { return; }
        for (k, w) in want.iter().enumerate() {
            let (v, q) = S::bview(l, &[0, 1, 2].map(|p| r[p].get_at(k)));
            app(&mut ps, q);
            ps.push(peq::<W>(&format!("{}[{}]", l, k), &v, w));
        }
    };
    let a = [0, 1, 2].map(|i| mkvec(&fs, i));
    let b = [0, 1, 2].map(|i| mkvec(&gs, i));
    let x: Vec<_> = (0..n).map(|k| f[k].1.clone() ^ &g[k].1).collect();
    let e = |e: Error| format!("{:?}", e);
    let r0 = a[0].clone().xor_many(b[0].clone()).map_err(e)?;
    let r1 = a[1].clone().xor_many(b[1].clone()).map_err(e)?;
    let r2 = a[2].clone().xor_many(b[2].clone()).map_err(e)?;
    chk("xor_many", [r0, r1, r2], x.clone());
    let mut c = a.clone();
    let mut ret = vec![];
    for i in 0..3 { ret.push(c[i].xor_assign_many(b[i].clone()).map_err(e)?); }
    chk("xor_assign_many", c, x.clone());
    chk("xor_assign_many (returned)", [ret[0].clone(), ret[1].clone(), ret[2].clone()], x);
    for s in [0u32, 1, 2, 4] {
        if s as usize >= <Sh<W> as RingImpl>::K { continue; }
        let mut c = a.clone();
        for i in 0..3 { c[i].shl_assign_many(s); }
        chk("shl_assign_many", c, f.iter().map(|q| q.1.clone() << s).collect());
    }
    decide(&ps)
}

// ---------------------------------------------------------------- C03
pub fn c03_mul<E: Eng>() -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (x, xv) = E::A::fresh(&ctx, "x");
    let (y, yv) = E::A::fresh(&ctx, "y");
    let r = all_ok(vp_run3!(&hub, es, |i, e| e.mul(cl(&x, i), cl(&y, i))))?;
    let (rv, mut ps) = E::A::view(&ctx, "product", &r);
    ps.push(peq::<E::T>("product", &rv, &(xv.clone() * &yv)));
    // the product is a well-formed operand again
    let r2 = all_ok(vp_run3!(&hub, es, |i, e| e.mul(cl(&r, i), cl(&x, i))))?;
    let (rv2, p2) = E::A::view(&ctx, "second product", &r2);
    app(&mut ps, p2);
    ps.push(peq::<E::T>("second product", &rv2, &(xv.clone() * &yv * &xv)));
    ps.push(clean(&hub));
    decide(&ps)
}
type FV<E> = (Vec<[<E as Eng>::A; 3]>, Vec<Sh<<E as Eng>::T>>);
fn fresh_vec<E: Eng>(ctx: &<E::A as ARep<E::T>>::Ctx, n: usize, name: &str) -> FV<E> {
    (0..n).map(|k| E::A::fresh(ctx, &format!("{}{}", name, k))).unzip()
}
fn ip<T: Val>(a: &[Sh<T>], b: &[Sh<T>]) -> Sh<T> {
    let mut s = Sh::<T>::zero();
    for (x, y) in a.iter().zip(b) { s += x.clone() * y; }
    s
}
pub fn c03_dot<E: Eng>(n: usize) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (a, av) = fresh_vec::<E>(&ctx, n, "a");
    let (b, bv) = fresh_vec::<E>(&ctx, n, "b");
    let r = all_ok(vp_run3!(&hub, es, |i, e| e.dot(mkvec(&a, i), mkvec(&b, i))))?;
    let (rv, mut ps) = E::A::view(&ctx, "dot product", &r);
    ps.push(peq::<E::T>("dot product", &rv, &ip::<E::T>(&av, &bv)));
    ps.push(clean(&hub));
    decide(&ps)
}
pub fn c03_dot_many<E: Eng>(lens: &[usize]) -> Result<Out, String> {
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let a: Vec<FV<E>> = lens.iter().enumerate().map(|(k, n)| fresh_vec::<E>(&ctx, *n, &format!("a{}_", k))).collect();
    let b: Vec<FV<E>> = lens.iter().enumerate().map(|(k, n)| fresh_vec::<E>(&ctx, *n, &format!("b{}_", k))).collect();
    let ins: Vec<(Vec<_>, Vec<_>)> = (0..3).map(|i| (a.iter().map(|x| mkvec(&x.0, i)).collect(), b.iter().map(|x| mkvec(&x.0, i)).collect())).collect();
    let r = all_ok(vp_run3!(&hub, es, |i, e| e.dot_many(&ins[i].0, &ins[i].1)))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 { ps.push(eqn("number of dot products", r[p].len() as u128, lens.len() as u128)); }
    if r.iter().all(|x| x.len() == lens.len()) {
        for k in 0..lens.len() {
            let (v, q) = E::A::view(&ctx, &format!("dot product {}", k), &[0, 1, 2].map(|p| r[p][k].clone()));
            app(&mut ps, q);
            ps.push(peq::<E::T>(&format!("dot product {}", k), &v, &ip::<E::T>(&a[k].1, &b[k].1)));
        }
    }
    decide(&ps)
}
pub fn rnd_mask(density: u64) -> IrisCodeArray {
    let mut m = IrisCodeArray::default();
    for i in 0..IrisCodeArray::IRIS_CODE_SIZE { if rnd() % 100 < density { m.set_bit(i, true); } }
    m
}
/// masked dot products against `nb` codes: sums exactly the positions selected by each mask
/// 'z' no position, 'f' every position, 'h' about half, 's' few positions, 'l' only the last position
pub fn mask_kind(k: char) -> IrisCodeArray {
    const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
    let mut m = IrisCodeArray::default();
    match k {
        'z' => {}
        'f' => for i in 0..N { m.set_bit(i, true); },
        'l' => m.set_bit(N - 1, true),
        's' => { m = rnd_mask(2); m.set_bit(0, true); }
        _ => { m = rnd_mask(50); m.set_bit(0, true); m.set_bit(N - 1, true); }
    }
    m
}
pub fn c03_masked<E: Eng>(kinds: &'static str) -> Result<Out, String> {
    let nb = kinds.len();
    const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
    let (hub, mut es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (a, av) = fresh_vec::<E>(&ctx, N, "a");
    let b: Vec<FV<E>> = (0..nb).map(|k| fresh_vec::<E>(&ctx, N, &format!("b{}_", k))).collect();
    let masks: Vec<IrisCodeArray> = kinds.chars().map(mask_kind).collect();
    let ins: Vec<(_, Vec<_>)> = (0..3).map(|i| (mkvec(&a, i), b.iter().map(|x| mkvec(&x.0, i)).collect())).collect();
    let r = all_ok(vp_run3!(&hub, es, |i, e| e.masked_dot_many(&ins[i].0, &ins[i].1, &masks)))?;
    let mut ps = vec![clean(&hub)];
    for p in 0..3 { ps.push(eqn("number of masked dot products", r[p].len() as u128, nb as u128)); }
    if r.iter().all(|x| x.len() == nb) {
        for k in 0..nb {
            let mut w = Sh::<E::T>::zero();
            for j in 0..N { if masks[k].get_bit(j) { w += av[j].clone() * &b[k].1[j]; } }
            let (v, q) = E::A::view(&ctx, &format!("masked dot product {}", k), &[0, 1, 2].map(|p| r[p][k].clone()));
            app(&mut ps, q);
            ps.push(peq::<E::T>(&format!("masked dot product {}", k), &v, &w));
        }
    }
    decide(&ps)
}
/// masked reductions over a shared vector (used for the masked Hamming weight)
pub fn c03_filter_reduce<E: Eng>(kind: char) -> Result<Out, String> {
    const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
    let (_hub, es) = setup::<E>()?;
    let ctx = E::ctx(&es);
    let (a, av) = fresh_vec::<E>(&ctx, N, "a");
    let (b, bv) = fresh_vec::<E>(&ctx, N, "b");
    let m = mask_kind(kind);
    let mut ra = vec![];
    let mut rb = vec![];
    for i in 0..3 {
        let (x, y) = VecShareTrait::filter_reduce_add_twice(&mkvec(&a, i), &mkvec(&b, i), &m).map_err(|e: Error| format!("{:?}", e))?;
        ra.push(x);
        rb.push(y);
    }
    let mut ps = vec![];
    for (l, r, v) in [("first", ra, av), ("second", rb, bv)] {
        let (rv, q) = E::A::view(&ctx, l, &[0, 1, 2].map(|i: usize| r[i].clone()));
        app(&mut ps, q);
        let mut w = Sh::<E::T>::zero();
        for j in 0..N { if m.get_bit(j) { w += &v[j]; } }
        ps.push(peq::<E::T>(&format!("masked sum of the {} vector", l), &rv, &w));
    }
    decide(&ps)
}

// ---------------------------------------------------------------- C04
pub fn bsetup<B: BinEng>() -> Result<(Hub, Vec<B::M>), String> { setup::<B::E>() }
pub fn c04_and_or<B: BinEng>() -> Result<Out, String> {
    let (hub, mut es) = bsetup::<B>()?;
    let (x, xv) = <B::S as BRep<B::W>>::bfresh("x");
    let (y, yv) = <B::S as BRep<B::W>>::bfresh("y");
    let r = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::and(e, cl(&x, i), cl(&y, i))))?;
    let (v, mut ps) = <B::S as BRep<B::W>>::bview("and", &r);
    ps.push(peq::<B::W>("and", &v, &(xv.clone() & &yv)));
    let r = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::or(e, cl(&x, i), cl(&y, i))))?;
    let (v, p) = <B::S as BRep<B::W>>::bview("or", &r);
    app(&mut ps, p);
    let mut o = xv.clone();
    o |= yv.clone();
    ps.push(peq::<B::W>("or", &v, &o));
    ps.push(clean(&hub));
    decide(&ps)
}
pub fn c04_many<B: BinEng>(n: usize) -> Result<Out, String> {
    let (hub, mut es) = bsetup::<B>()?;
    let f: Vec<_> = (0..n).map(|k| <B::S as BRep<B::W>>::bfresh(&format!("x{}", k))).collect();
    let g: Vec<_> = (0..n).map(|k| <B::S as BRep<B::W>>::bfresh(&format!("y{}", k))).collect();
    let fs: Vec<_> = f.iter().map(|a| a.0.clone()).collect();
    let gs: Vec<_> = g.iter().map(|a| a.0.clone()).collect();
    let ins: Vec<_> = (0..3).map(|i| (mkvec(&fs, i), mkvec(&gs, i))).collect();
    let mut ps = vec![];
    let r = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::and_many(e, &ins[i].0, &ins[i].1)))?;
    let q = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::or_many(e, ins[i].0.clone(), ins[i].1.clone())))?;
    for (l, r) in [("and_many", r), ("or_many", q)] {
        for p in 0..3 { ps.push(eqn(format!("{}: number of results", l), r[p].len() as u128, n as u128)); }
        if r.iter().any(|x| x.len() != n) { continue; }
        for k in 0..n {
            let (v, p) = <B::S as BRep<B::W>>::bview(l, &[0, 1, 2].map(|p| r[p].get_at(k)));
            app(&mut ps, p);
            let mut o = f[k].1.clone();
            if l == "and_many" { o &= &g[k].1; } else { o |= g[k].1.clone(); }
            ps.push(peq::<B::W>(&format!("{}[{}]", l, k), &v, &o));
        }
    }
    ps.push(clean(&hub));
    decide(&ps)
}
/// xor helpers of the boolean interface
pub fn c04_xor<B: BinEng>() -> Result<Out, String> {
    let (x, xv) = <B::S as BRep<B::W>>::bfresh("x");
    let (y, yv) = <B::S as BRep<B::W>>::bfresh("y");
    let w = xv.clone() ^ &yv;
    let r = [0, 1, 2].map(|i| <B::M as BinaryMpcTrait<B::W, B::S>>::xor(cl(&x, i), cl(&y, i)));
    let (v, mut ps) = <B::S as BRep<B::W>>::bview("xor", &r);
    ps.push(peq::<B::W>("xor", &v, &w));
    let r = [0, 1, 2].map(|i| { let mut a = cl(&x, i); <B::M as BinaryMpcTrait<B::W, B::S>>::xor_assign(&mut a, cl(&y, i)); a });
    let (v, p) = <B::S as BRep<B::W>>::bview("xor_assign", &r);
    app(&mut ps, p);
    ps.push(peq::<B::W>("xor_assign", &v, &w));
    let r = [0, 1, 2].map(|i| { let mut a = vec![cl(&x, i), cl(&x, i)]; <B::M as BinaryMpcTrait<B::W, B::S>>::xor_assign_many(&mut a, vec![cl(&y, i), cl(&x, i)]).unwrap(); a });
    let (v, p) = <B::S as BRep<B::W>>::bview("xor_assign_many", &[0, 1, 2].map(|i: usize| r[i][0].clone()));
    app(&mut ps, p);
    ps.push(peq::<B::W>("xor_assign_many[0]", &v, &w));
    let (v, p) = <B::S as BRep<B::W>>::bview("xor_assign_many", &[0, 1, 2].map(|i: usize| r[i][1].clone()));
    app(&mut ps, p);
    ps.push(peq::<B::W>("xor_assign_many[1]", &v, &(xv.clone() ^ &xv)));
    decide(&ps)
}
/// arithmetic to binary on concrete values: the batch form on n arbitrary sharings, the single form on the first
pub fn c04_a2b<B: BinEng>(n: usize) -> Result<Out, String> {
    let (hub, mut es) = bsetup::<B>()?;
    let f: Vec<_> = (0..n).map(|k| <B::S as ARep<B::W>>::fresh(&(), &format!("x{}", k))).collect();
    let r = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::arithmetic_to_binary_many(e, f.iter().map(|a| a.0[i].clone()).collect())))?;
    let mut ps = vec![];
    for p in 0..3 { ps.push(eqn("number of results", r[p].len() as u128, n as u128)); }
    for k in 0..n.min(r[0].len()) {
        let (v, p) = <B::S as BRep<B::W>>::bview("a2b", &[0, 1, 2].map(|p| r[p].get_at(k)));
        app(&mut ps, p);
        ps.push(peq::<B::W>(&format!("binary sharing {} of {}", k, n), &v, &f[k].1));
    }
    if n > 0 {
        let r = all_ok(vp_run3!(&hub, es, |i, e| BinaryMpcTrait::<B::W, B::S>::arithmetic_to_binary(e, f[0].0[i].clone())))?;
        let (v, p) = <B::S as BRep<B::W>>::bview("a2b", &r);
        app(&mut ps, p);
        ps.push(peq::<B::W>("binary sharing", &v, &f[0].1));
    }
    ps.push(clean(&hub));
    decide(&ps)
}

/// ideal engine: `and` is its contract, everything else is the trait's own (default) code
pub struct Ideal;
impl<T: Val> BinaryMpcTrait<T, T> for Ideal
where
    T: std::ops::ShlAssign<u32> + std::ops::Shl<u32, Output = T>,
{
    async fn and(&mut self, a: T, b: T) -> Result<T, Error> { Ok(a & b) }
    async fn and_many(&mut self, a: &Vec<T>, b: &Vec<T>) -> Result<Vec<T>, Error> {
        if a.len() != b.len() { return Err(Error::InvalidSizeError); }
        Ok(a.iter().zip(b).map(|(x, y)| *x & *y).collect())
    }
    async fn arithmetic_to_binary(&mut self, _x: T) -> Result<T, Error> { unreachable!() }
    async fn arithmetic_to_binary_many(&mut self, _x: Vec<T>) -> Result<Vec<T>, Error> { unreachable!() }
}
pub fn block<F: std::future::Future>(f: F) -> Result<F::Output, String> {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(r) => Ok(r), _ => Err("future waits without a network".into()) }
}
/// the generic adder computes x1 + x2 + x3 given the AND contract (every value)
pub fn c04_adder<T: Val>(n: usize) -> Result<Out, String>
where
    T: std::ops::ShlAssign<u32> + std::ops::Shl<u32, Output = T> + Sharable<Share = RingElement<T>> + crate::types::int_ring::IntRing2k,
{
    let mut ps = vec![];
    let x: Vec<[T; 3]> = (0..n).map(|k| [0, 1, 2].map(|j| T::fresh(&format!("x{}_{}", k, j)))).collect();
    let w: Vec<RingElement<T>> = x.iter().map(|v| v[0].to_sharetype() + v[1].to_sharetype() + v[2].to_sharetype()).collect();
    let r = block(BinaryMpcTrait::<T, T>::binary_add_3(&mut Ideal, x[0][0], x[0][1], x[0][2]))?.map_err(|e| format!("{:?}", e))?;
    ps.push(peq::<T>("binary_add_3", &r.to_sharetype(), &w[0]));
    let col = |j: usize| x.iter().map(|v| v[j]).collect::<Vec<T>>();
    let r = block(BinaryMpcTrait::<T, T>::binary_add_3_many(&mut Ideal, col(0), col(1), col(2)))?.map_err(|e| format!("{:?}", e))?;
    ps.push(eqn("number of sums", r.len() as u128, n as u128));
    for k in 0..n.min(r.len()) { ps.push(peq::<T>(&format!("binary_add_3_many[{}]", k), &r[k].to_sharetype(), &w[k])); }
    decide(&ps)
}

#[cfg(vp_c01)]
pub fn collect_c01(obs: &mut Obs) {
    let th = obs.thorough;
    let n = if th { 400 } else { 40 };
    let few = if th { 60 } else { 6 };
    each_eng!(obs, "C01", "dealt sharing opens to the value at every party", "all values, all dealer randomness", n, |E| c01_dealer::<E>());
    for owner in 0..3 {
        each_eng!(obs, "C01", format!("input by party {} is shared and opened exactly", owner), "all values", n, |E| c01_input::<E>(owner, true));
    }
    each_eng!(obs, "C01", "open of an arbitrary well-formed sharing", "all sharings of all values", n, |E| c01_open::<E>());
    for k in [0usize, 1, 2, 3, 5, 17] {
        each_eng!(obs, "C01", format!("open_many of {} arbitrary sharings", k), format!("all sharings of all values, batch length {}", k), few, |E| c01_open_many::<E>(k));
    }
    for k in [64usize, 257, 1000, 5000, 20000] { large!(obs, "C01", format!("open_many of {} values", k), 3, |E| c01_open_many::<E>(k), EAby<u8>, EAby<u16>, EMal<u16>, EMal<u64>, ESwift<u16>, ESwift<u64>, ESpdz<u16>, ESpdz<u32>); }
    macro_rules! bits { ($($t:ty),*) => { $( obs.add("C01", format!("{}: open_bit and open_bit_many", <$t as Eng>::ename()), "exhaustive", "all sharings of a bit singly; batches up to 129 bits sampled", c01_open_bit::<$t>); )* } }
    bits!(EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
}
#[cfg(vp_c02)]
pub fn collect_c02(obs: &mut Obs) {
    let th = obs.thorough;
    let n = if th { 400 } else { 40 };
    let few = if th { 60 } else { 6 };
    each_eng!(obs, "C02", "add, sub, add_const, sub_const, mul_const, zero", "all sharings, all constants", n, |E| c02_local::<E>());
    macro_rules! ops { ($k:expr, $r:expr, $($t:ty),*) => { $(
        obs.add("C02", format!("Aby3 share<{}>: operators", <$t as Val>::TNAME), $k, "all sharings, all constants; shift amounts 0,1,2,3,7,K-1", || rep($r, c02_ops_aby::<$t>));
        obs.add("C02", format!("Aby3 share<{}>: constants by party", <$t as Val>::TNAME), $k, "all sharings, all constants", || rep($r, c02_aby_extra::<$t>));
        obs.add("C02", format!("Swift3 share<{}>: operators", <$t as Val>::TNAME), $k, "all sharings, all constants; shift amounts 0,1,2,3,7,K-1", || rep($r, c02_ops_swift::<$t>));
        obs.add("C02", format!("Swift3 share<{}>: constants", <$t as Val>::TNAME), $k, "all sharings, all constants", || rep($r, c02_swift_extra::<$t>));
    )* } }
    ops!("proved", 1, S16, S32, S64, S128);
    ops!("bounded", 200, u8, u16, u32, u64, u128);
    ops!("exhaustive", 600, Bit);
    macro_rules! ver { ($k:expr, $r:expr, $($t:ty),*) => { $(
        obs.add("C02", format!("share<{}>: conversion to and from the verification ring", <$t as Val>::TNAME), $k, "all sharings", || rep($r, c02_verification::<$t>));
    )* } }
    ver!("proved", 1, S16, S32, S64);
    ver!("bounded", 200, Bit, u8, u16, u32, u64, i8, i16, i32, i64);
    for k in [1usize, 2, 5] {
        each_eng!(obs, "C02", format!("share vectors of length {}: push/extend/split_at/chunks/get_at/set_at", k), format!("all sharings, vector length {}", k), few, |E| c02_vec::<E>(k));
        macro_rules! bv { ($kk:expr, $r:expr, $($t:ty),*) => { $(
            obs.add("C02", format!("Aby3 bit vectors <{}> of length {}", <$t as Val>::TNAME, k), $kk, format!("all sharings, vector length {}, shifts 0,1,2,4", k), move || rep($r, || c02_bvec::<AShare<$t>, $t>(k, "Aby3")));
            obs.add("C02", format!("Swift3 bit vectors <{}> of length {}", <$t as Val>::TNAME, k), $kk, format!("all sharings, vector length {}, shifts 0,1,2,4", k), move || rep($r, || c02_bvec::<SShare<$t>, $t>(k, "Swift3")));
        )* } }
        bv!("proved", 1, S16, S64);
        bv!("bounded", 50, u8, u16, u128);
    }
}
#[cfg(vp_c03)]
pub fn collect_c03(obs: &mut Obs) {
    let th = obs.thorough;
    let n = if th { 400 } else { 40 };
    let few = if th { 60 } else { 6 };
    each_eng!(obs, "C03", "mul, and mul on its own result", "all sharings of all values", n, |E| c03_mul::<E>());
    for k in [0usize, 1, 2, 3, 8, 33] {
        each_eng!(obs, "C03", format!("dot of length {}", k), format!("all sharings, vector length {}", k), few, |E| c03_dot::<E>(k));
    }
    let shapes: [&'static [usize]; 5] = [&[1], &[1, 1], &[2, 2, 2], &[3, 1, 2], &[5, 5, 5, 5, 5]];
    for l in shapes {
        each_eng!(obs, "C03", format!("dot_many with vector lengths {:?}", l), format!("all sharings, vector lengths {:?}", l), few, |E| c03_dot_many::<E>(l));
    }
    for k in [100usize, 1025, 12800, 70000] { large!(obs, "C03", format!("dot of length {}", k), 3, |E| c03_dot::<E>(k), EAby<u8>, EAby<u16>, EAby<u64>, EMal<u16>, ESwift<u16>, ESpdz<u16>, ESpdz<u32>); }
    for (j, l) in [&[3usize; 300][..], &[1; 1200], &[12800; 3], &[700, 1, 0, 129, 2]].into_iter().enumerate() { let l: &'static [usize] = Box::leak(l.to_vec().into_boxed_slice()); large!(obs, "C03", format!("dot_many, long lists, set {}", j), 3, |E| c03_dot_many::<E>(l), EAby<u16>, EAby<u64>, EMal<u16>, ESwift<u16>, ESpdz<u16>, ESpdz<u32>); }
    macro_rules! masked { ($k:expr, $($t:ty),*) => { $(
        for ks in ["hl", "zf", "szs", ""] { obs.add("C03", format!("{}: masked_dot_many, masks '{}'", <$t as Eng>::ename(), ks), $k, "all sharings of batches of 12800 values; masks: z empty, f full, h half, s sparse, l last position only", move || c03_masked::<$t>(ks)); }
        for ks in ['h', 'z', 'f', 'l'] { obs.add("C03", format!("{}: filter_reduce_add_twice, mask '{}'", <$t as Eng>::ename(), ks), $k, "all sharings of 12800 values, masks as above", move || c03_filter_reduce::<$t>(ks)); }
    )* } }
    masked!("proved", EAby<S16>, EMal<S16>, ESwift<S16>, ESpdz<S16>);
    masked!("bounded", EAby<u16>, EMal<u16>, ESwift<u16>, ESpdz<u16>);
}
#[cfg(vp_c04)]
pub fn collect_c04(obs: &mut Obs) {
    let th = obs.thorough;
    let n = if th { 400 } else { 40 };
    let few = if th { 60 } else { 6 };
    each_bin!(obs, "C04", "and, or", "all sharings of all words", n, |E| c04_and_or::<E>());
    each_bin!(obs, "C04", "xor helpers", "all sharings of all words", n, |E| c04_xor::<E>());
    for k in [0usize, 1, 2, 3, 9] {
        each_bin!(obs, "C04", format!("and_many, or_many of length {}", k), format!("all sharings, batch length {}", k), few, |E| c04_many::<E>(k));
    }
    for k in [65usize, 300, 1030, 5000] { large!(obs, "C04", format!("and_many, or_many of length {}", k), 3, |E| c04_many::<E>(k), BAby<Bit>, BAby<u16>, BAby<u128>, BMal<Bit>, BMal<u32>, BSwift<Bit>, BSwift<u64>, BSpdz<Bit>, BSpdz<u32>, BSpdz<u128>); }
    for k in [65usize, 300, 1030] { large!(obs, "C04", format!("arithmetic_to_binary(_many) of {}", k), 2, |E| c04_a2b::<E>(k), BAby<u16>, BAby<u64>, BMal<u16>, BMal<u64>, BSwift<u16>, BSwift<u32>, BSpdz<u16>, BSpdz<u32>); }
    macro_rules! a2b { ($en:expr, $($t:ty),*) => { $( for k in [1usize, 3, 40] {
        obs.add("C04", format!("{}[{}]: arithmetic_to_binary(_many) of {}", $en, <<$t as BinEng>::W as Val>::TNAME, k), "bounded", format!("{} executions with boundary-biased sharings", n), move || rep(n, || c04_a2b::<$t>(k)));
    } )* } }
    a2b!("Aby3", BAby<u8>, BAby<u16>, BAby<u32>, BAby<u64>);
    a2b!("MalAby3", BMal<u8>, BMal<u16>, BMal<u32>, BMal<u64>);
    a2b!("Swift3", BSwift<u8>, BSwift<u16>, BSwift<u32>, BSwift<u64>);
    a2b!("SpdzWise", BSpdz<u8>, BSpdz<u16>, BSpdz<u32>, BSpdz<u64>);
    for k in [1usize, 2, 3] {
        obs.add("C04", format!("three-operand adder [S16], batch {}", k), "proved", "all words, over the AND contract", move || c04_adder::<S16>(k));
        obs.add("C04", format!("three-operand adder [S32], batch {}", k), "proved", "all words, over the AND contract", move || c04_adder::<S32>(k));
    }
    obs.add("C04", "three-operand adder [S64]", "proved", "all words, over the AND contract", || c04_adder::<S64>(1));
}
