// The three-party engines under contract: share representations (fresh / view) and set-up.
use super::net::{all_ok, HNet, Hub};
use super::ob::{rnd, Pair, PairV, Val};
use super::sym;
use crate::aby3::protocol::Aby3;
use crate::aby3::share::Share as AShare;
use crate::aby3_mal::protocol::MalAby3;
use crate::error::Error;
use crate::spdzwise::protocol::SpdzWise;
use crate::spdzwise::share::Share as PShare;
use crate::swift3::protocol::Swift3;
use crate::swift3::share::Share as SShare;
use crate::traits::binary_trait::BinaryMpcTrait;
use crate::traits::mpc_trait::MpcTrait;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::bit::Bit;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::Zero;
use rand::distributions::{Distribution, Standard};

pub type Sh<T> = <T as Sharable>::Share;

pub fn peq<T: Val>(label: &str, a: &Sh<T>, b: &Sh<T>) -> Pair { T::pair(label.to_string(), a.clone(), b.clone()) }

/// representation invariant of an additive sharing of a T
pub trait ARep<T: Val>: ShareTrait {
    type Ctx: Clone;
    /// arbitrary well-formed sharing: the three shares and the value they represent
    fn fresh(ctx: &Self::Ctx, name: &str) -> ([Self; 3], Sh<T>);
    /// value represented by three shares, and what must hold for them to be well-formed
    fn view(ctx: &Self::Ctx, label: &str, s: &[Self; 3]) -> (Sh<T>, Vec<Pair>);
    /// party i replaces its share by what the shares of the other two say it holds
    fn mend(s: &mut [Self; 3], i: usize);
}
/// representation invariant of an xor sharing of a word W
pub trait BRep<W: Val>: ShareTrait {
    fn bfresh(name: &str) -> ([Self; 3], Sh<W>);
    fn bview(label: &str, s: &[Self; 3]) -> (Sh<W>, Vec<Pair>);
    /// a particular well-formed sharing of v
    fn bshare(v: Sh<W>) -> [Self; 3];
    fn bmend(s: &mut [Self; 3], i: usize);
}

fn fr<T: Val>(name: &str) -> Sh<T> { T::fresh(name).to_sharetype() }

fn aby_cons<T: Val>(label: &str, s: &[AShare<T>; 3]) -> Vec<Pair> {
    vec![
        peq::<T>(&format!("{}: replicated component of P0 held by P1", label), &s[1].b, &s[0].a),
        peq::<T>(&format!("{}: replicated component of P1 held by P2", label), &s[2].b, &s[1].a),
        peq::<T>(&format!("{}: replicated component of P2 held by P0", label), &s[0].b, &s[2].a),
    ]
}
pub fn aby_mk<T: Val>(x: [Sh<T>; 3]) -> [AShare<T>; 3] {
    [0usize, 1, 2].map(|i| AShare::new(x[i].clone(), x[(i + 2) % 3].clone()))
}
fn aby_mend<T: Val>(s: &mut [AShare<T>; 3], i: usize) { s[i] = AShare::new(s[(i + 1) % 3].b.clone(), s[(i + 2) % 3].a.clone()); }
impl<T: Val> ARep<T> for AShare<T> {
    type Ctx = ();
    fn mend(s: &mut [Self; 3], i: usize) { aby_mend::<T>(s, i) }
    fn fresh(_: &(), name: &str) -> ([Self; 3], Sh<T>) {
        let x = [0, 1, 2].map(|i| fr::<T>(&format!("{}_{}", name, i)));
        let v = x[0].clone() + &x[1] + &x[2];
        (aby_mk::<T>(x), v)
    }
    fn view(_: &(), label: &str, s: &[Self; 3]) -> (Sh<T>, Vec<Pair>) {
        (s[0].a.clone() + &s[1].a + &s[2].a, aby_cons::<T>(label, s))
    }
}
impl<W: Val> BRep<W> for AShare<W> {
    fn bmend(s: &mut [Self; 3], i: usize) { aby_mend::<W>(s, i) }
    fn bfresh(name: &str) -> ([Self; 3], Sh<W>) {
        let x = [0, 1, 2].map(|i| fr::<W>(&format!("{}_{}", name, i)));
        let v = x[0].clone() ^ &x[1] ^ &x[2];
        (aby_mk::<W>(x), v)
    }
    fn bview(label: &str, s: &[Self; 3]) -> (Sh<W>, Vec<Pair>) {
        (s[0].a.clone() ^ &s[1].a ^ &s[2].a, aby_cons::<W>(label, s))
    }
    fn bshare(v: Sh<W>) -> [Self; 3] {
        let (p, q) = (fr::<W>("mask_p"), fr::<W>("mask_q"));
        let r = v ^ &p ^ &q;
        aby_mk::<W>([p, q, r])
    }
}

// Swift3: P0 (a1,a3,c) P1 (a2,a1,c) P2 (a3,a2,c)
fn swift_cons<T: Val>(label: &str, s: &[SShare<T>; 3]) -> Vec<Pair> {
    vec![
        peq::<T>(&format!("{}: mask 1 at P0 and P1", label), &s[1].b, &s[0].a),
        peq::<T>(&format!("{}: mask 2 at P1 and P2", label), &s[2].b, &s[1].a),
        peq::<T>(&format!("{}: mask 3 at P2 and P0", label), &s[0].b, &s[2].a),
        peq::<T>(&format!("{}: masked value at P0 and P1", label), &s[1].c, &s[0].c),
        peq::<T>(&format!("{}: masked value at P0 and P2", label), &s[2].c, &s[0].c),
    ]
}
fn swift_mk<T: Val>(m: [Sh<T>; 3], c: Sh<T>) -> [SShare<T>; 3] {
    [
        SShare::new(m[0].clone(), m[2].clone(), c.clone()),
        SShare::new(m[1].clone(), m[0].clone(), c.clone()),
        SShare::new(m[2].clone(), m[1].clone(), c),
    ]
}
fn swift_mend<T: Val>(s: &mut [SShare<T>; 3], i: usize) { s[i] = SShare::new(s[(i + 1) % 3].b.clone(), s[(i + 2) % 3].a.clone(), s[(i + 1) % 3].c.clone()); }
impl<T: Val> ARep<T> for SShare<T> {
    type Ctx = ();
    fn mend(s: &mut [Self; 3], i: usize) { swift_mend::<T>(s, i) }
    fn fresh(_: &(), name: &str) -> ([Self; 3], Sh<T>) {
        let m = [1, 2, 3].map(|i| fr::<T>(&format!("{}_m{}", name, i)));
        let c = fr::<T>(&format!("{}_c", name));
        let v = c.clone() - &m[0] - &m[1] - &m[2];
        (swift_mk::<T>(m, c), v)
    }
    fn view(_: &(), label: &str, s: &[Self; 3]) -> (Sh<T>, Vec<Pair>) {
        (s[0].c.clone() - &s[0].a - &s[1].a - &s[2].a, swift_cons::<T>(label, s))
    }
}
impl<W: Val> BRep<W> for SShare<W> {
    fn bmend(s: &mut [Self; 3], i: usize) { swift_mend::<W>(s, i) }
    fn bfresh(name: &str) -> ([Self; 3], Sh<W>) {
        let m = [1, 2, 3].map(|i| fr::<W>(&format!("{}_m{}", name, i)));
        let c = fr::<W>(&format!("{}_c", name));
        let v = c.clone() ^ &m[0] ^ &m[1] ^ &m[2];
        (swift_mk::<W>(m, c), v)
    }
    fn bview(label: &str, s: &[Self; 3]) -> (Sh<W>, Vec<Pair>) {
        (s[0].c.clone() ^ &s[0].a ^ &s[1].a ^ &s[2].a, swift_cons::<W>(label, s))
    }
    fn bshare(v: Sh<W>) -> [Self; 3] {
        let m = [1, 2, 3].map(|i| fr::<W>(&format!("mask_{}", i)));
        let c = v ^ &m[0] ^ &m[1] ^ &m[2];
        swift_mk::<W>(m, c)
    }
}

// SpdzWise: value and MAC over the verification ring, MAC = key * value
type V<T> = <T as Sharable>::VerificationShare;
impl<T: Val> ARep<T> for PShare<V<T>>
where
    V<T>: Val,
{
    type Ctx = Sh<V<T>>;
    fn mend(s: &mut [Self; 3], i: usize) {
        let mut vals = [0, 1, 2].map(|i| s[i].clone().get_value());
        let mut macs = [0, 1, 2].map(|i| s[i].clone().get_mac());
        aby_mend::<V<T>>(&mut vals, i);
        aby_mend::<V<T>>(&mut macs, i);
        s[i] = PShare::new(vals[i].clone(), macs[i].clone());
    }
    fn fresh(key: &Self::Ctx, name: &str) -> ([Self; 3], Sh<T>) {
        let (s, v) = <AShare<V<T>> as ARep<V<T>>>::fresh(&(), name);
        let m0 = fr::<V<T>>(&format!("{}_mac0", name));
        let m1 = fr::<V<T>>(&format!("{}_mac1", name));
        let m2 = key.clone() * &v - &m0 - &m1;
        let m = aby_mk::<V<T>>([m0, m1, m2]);
        let [s0, s1, s2] = s;
        let [m0, m1, m2] = m;
        ([PShare::new(s0, m0), PShare::new(s1, m1), PShare::new(s2, m2)], T::from_verificationtype(v))
    }
    fn view(key: &Self::Ctx, label: &str, s: &[Self; 3]) -> (Sh<T>, Vec<Pair>) {
        let vals = [0, 1, 2].map(|i| s[i].clone().get_value());
        let macs = [0, 1, 2].map(|i| s[i].clone().get_mac());
        let (v, mut p) = <AShare<V<T>> as ARep<V<T>>>::view(&(), &format!("{} value", label), &vals);
        let (m, p2) = <AShare<V<T>> as ARep<V<T>>>::view(&(), &format!("{} MAC", label), &macs);
        p.extend(p2);
        p.push(peq::<V<T>>(&format!("{}: MAC = key * value", label), &m, &(key.clone() * &v)));
        (T::from_verificationtype(v), p)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Aby, Mal, Swift, Spdz }

/// an engine at a value type
#[allow(async_fn_in_trait)]
pub trait Eng {
    type T: Val;
    type A: ARep<Self::T>;
    type B: BRep<Bit>;
    type M: MpcTrait<Self::T, Self::A, Self::B>;
    const KIND: Kind;
    fn ename() -> String;
    fn mk(net: HNet) -> Self::M;
    fn ctx(es: &[Self::M]) -> <Self::A as ARep<Self::T>>::Ctx;
    /// MAC key to be used by the dealer
    fn dealer_key(es: &[Self::M]) -> V<Self::T>;
    fn pubconst(v: Self::T) -> Sh<Self::T> { v.to_sharetype() }
    /// message counter / hub of an engine set are kept by the caller
    fn actively_secure() -> bool { Self::KIND != Kind::Aby }
}
pub struct EAby<T>(std::marker::PhantomData<T>);
pub struct EMal<T>(std::marker::PhantomData<T>);
pub struct ESwift<T>(std::marker::PhantomData<T>);
pub struct ESpdz<T>(std::marker::PhantomData<T>);

impl<T: Val> Eng for EAby<T>
where
    Standard: Distribution<Sh<T>>,
    for<'a> AShare<T>: std::ops::Mul<Sh<T>, Output = AShare<T>> + std::ops::Mul<&'a Sh<T>, Output = AShare<T>>,
    Aby3<HNet>: MpcTrait<T, AShare<T>, AShare<Bit>>,
{
    type T = T;
    type A = AShare<T>;
    type B = AShare<Bit>;
    type M = Aby3<HNet>;
    const KIND: Kind = Kind::Aby;
    fn ename() -> String { format!("Aby3<{}>", T::TNAME) }
    fn mk(net: HNet) -> Self::M { Aby3::new(net) }
    fn ctx(_: &[Self::M]) {}
    fn dealer_key(_: &[Self::M]) -> V<T> { <V<T>>::default() }
}
impl<T: Val> Eng for EMal<T>
where
    MalAby3<HNet>: MpcTrait<T, AShare<T>, AShare<Bit>>,
{
    type T = T;
    type A = AShare<T>;
    type B = AShare<Bit>;
    type M = MalAby3<HNet>;
    const KIND: Kind = Kind::Mal;
    fn ename() -> String { format!("MalAby3<{}>", T::TNAME) }
    fn mk(net: HNet) -> Self::M { MalAby3::new(net) }
    fn ctx(_: &[Self::M]) {}
    fn dealer_key(_: &[Self::M]) -> V<T> { <V<T>>::default() }
}
impl<T: Val> Eng for ESwift<T>
where
    Standard: Distribution<Sh<T>>,
    Swift3<HNet, T>: MpcTrait<T, SShare<T>, SShare<Bit>>,
{
    type T = T;
    type A = SShare<T>;
    type B = SShare<Bit>;
    type M = Swift3<HNet, T>;
    const KIND: Kind = Kind::Swift;
    fn ename() -> String { format!("Swift3<{}>", T::TNAME) }
    fn mk(net: HNet) -> Self::M { Swift3::new(net) }
    fn ctx(_: &[Self::M]) {}
    fn dealer_key(_: &[Self::M]) -> V<T> { <V<T>>::default() }
}
impl<T: Val> Eng for ESpdz<T>
where
    V<T>: Val,
    Standard: Distribution<Sh<V<T>>>,
    AShare<V<T>>: std::ops::Mul<Sh<V<T>>, Output = AShare<V<T>>>,
    SpdzWise<HNet, V<T>>: MpcTrait<T, PShare<V<T>>, AShare<Bit>>,
{
    type T = T;
    type A = PShare<V<T>>;
    type B = AShare<Bit>;
    type M = SpdzWise<HNet, V<T>>;
    const KIND: Kind = Kind::Spdz;
    fn ename() -> String { format!("SpdzWise<{}>", T::TNAME) }
    fn mk(net: HNet) -> Self::M { SpdzWise::new(net) }
    fn ctx(es: &[Self::M]) -> Sh<V<T>> {
        let k = [0, 1, 2].map(|i| es[i].get_r());
        <AShare<V<T>> as ARep<V<T>>>::view(&(), "MAC key", &k).0
    }
    fn dealer_key(es: &[Self::M]) -> V<T> { <V<T>>::from_sharetype(Self::ctx(es)) }
}

/// an engine's boolean interface at a word type
pub trait BinEng {
    type W: Val;
    type S: BRep<Self::W> + ARep<Self::W, Ctx = ()> + Clone + std::ops::BitXorAssign + std::ops::BitXor<Output = Self::S>
        + std::ops::ShlAssign<u32> + std::ops::Shl<u32, Output = Self::S> + Send + Sync + 'static;
    type M: BinaryMpcTrait<Self::W, Self::S>;
    type E: Eng<M = Self::M>;
}
pub struct BAby<T>(std::marker::PhantomData<T>);
pub struct BMal<T>(std::marker::PhantomData<T>);
pub struct BSwift<T>(std::marker::PhantomData<T>);
pub struct BSpdz<T>(std::marker::PhantomData<T>);
impl<W: Val> BinEng for BAby<W> where Aby3<HNet>: BinaryMpcTrait<W, AShare<W>> {
    type W = W; type S = AShare<W>; type M = Aby3<HNet>; type E = EAby<u16>;
}
impl<W: Val> BinEng for BMal<W> where MalAby3<HNet>: BinaryMpcTrait<W, AShare<W>> {
    type W = W; type S = AShare<W>; type M = MalAby3<HNet>; type E = EMal<u16>;
}
impl<W: Val> BinEng for BSwift<W> where Swift3<HNet, u16>: BinaryMpcTrait<W, SShare<W>> {
    type W = W; type S = SShare<W>; type M = Swift3<HNet, u16>; type E = ESwift<u16>;
}
impl<W: Val> BinEng for BSpdz<W> where SpdzWise<HNet, u64>: BinaryMpcTrait<W, AShare<W>> {
    type W = W; type S = AShare<W>; type M = SpdzWise<HNet, u64>; type E = ESpdz<u16>;
}

/// three set-up engines on a fresh hub
pub fn setup<E: Eng>() -> Result<(Hub, Vec<E::M>), String> {
    let (hub, nets) = Hub::new();
    let mut es: Vec<E::M> = nets.into_iter().map(E::mk).collect();
    all_ok(vp_run3!(&hub, es, |_i, e| e.preprocess()))?;
    if E::KIND == Kind::Spdz {
        for e in es.iter_mut() { e.set_new_mac_key(); }
    }
    if hub.leftover() != 0 { return Err("set-up leaves unread messages".into()); }
    Ok((hub, es))
}
pub fn verify<E: Eng>(hub: &Hub, es: &mut Vec<E::M>) -> Result<(), String> {
    all_ok(vp_run3!(hub, es, |_i, e| e.verify())).map_err(|e| format!("verification: {}", e))?;
    if hub.leftover() != 0 { return Err(format!("{} messages are left unread after verification", hub.leftover())); }
    Ok(())
}
