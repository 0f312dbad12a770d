// C17: generators, zero shares, commitments and the set-up of the keys; all seeds, any number of draws, all values.
// Extraction directives are replaced by the text of the named item of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::laws_eq::*;
verus! {

//@ include c17_base.inc
// ---------------------------------------------------------------- ring elements: an abstract abelian group, twice (+ and xor)
pub struct El { pub x: int }
pub uninterp spec fn plus(a: El, b: El) -> El;
pub uninterp spec fn neg(a: El) -> El;
pub uninterp spec fn zero() -> El;
pub uninterp spec fn exor(a: El, b: El) -> El;
pub axiom fn group(a: El, b: El, c: El) ensures plus(a, b) == plus(b, a), plus(plus(a, b), c) == plus(a, plus(b, c)), plus(a, zero()) == a, plus(a, neg(a)) == zero();
pub axiom fn exor_group(a: El, b: El, c: El) ensures exor(a, b) == exor(b, a), exor(exor(a, b), c) == exor(a, exor(b, c)), exor(a, zero()) == a, exor(a, a) == zero();
impl SubSpecImpl for El { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: El) -> bool { true } open spec fn sub_spec(self, o: El) -> El { plus(self, neg(o)) } }
impl BitXorSpecImpl for El { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: El) -> bool { true } open spec fn bitxor_spec(self, o: El) -> El { exor(self, o) } }
impl core::ops::Sub for El { type Output = El; #[verifier::external_body] fn sub(self, o: El) -> El { self } }
impl core::ops::BitXor for El { type Output = El; #[verifier::external_body] fn bitxor(self, o: El) -> El { self } }
pub trait Sharable {}
/// a replicated sharing (aby3::share::Share)
pub struct Share { pub a: El, pub b: El }
impl Share { pub fn new(a: El, b: El) -> (r: Self) ensures r.a == a, r.b == b { Share { a, b } } }

// ---------------------------------------------------------------- replicated engines
mod aby {
use super::*;
//@ extract iris-mpc/src/aby3/random/prf.rs struct Prf
//@ all "\b(my_prf|next_prf):" => "pub \1:"
//@ end
impl Prf {
//@ extract iris-mpc/src/aby3/random/prf.rs fn new in "impl Prf"
//@ re "-> Self" => "-> (r: Self) ensures r.my_prf.st@ == init(my_key@), r.next_prf.st@ == init(next_key@)"
//@ end
//@ extract iris-mpc/src/aby3/random/prf.rs fn gen_rands in "impl Prf"
//@ re "-> \(T, T\)" => "-> (r: (T, T))"
//@ re "where\s*Standard: Distribution<T>,\s*\{" => "ensures r.0 == val::<T>(old(self).my_prf.st@), r.1 == val::<T>(old(self).next_prf.st@), final(self).my_prf.st@ == adv::<T>(old(self).my_prf.st@), final(self).next_prf.st@ == adv::<T>(old(self).next_prf.st@) {"
//@ end
//@ extract iris-mpc/src/aby3/random/prf.rs fn gen_rand in "impl Prf"
//@ re "-> Share<T>" => "-> (r: Share)"
//@ re "where\s*Standard: Distribution<T::Share>,\s*\{" => "ensures r.a == val::<El>(old(self).my_prf.st@), r.b == val::<El>(old(self).next_prf.st@), final(self).my_prf.st@ == adv::<El>(old(self).my_prf.st@), final(self).next_prf.st@ == adv::<El>(old(self).next_prf.st@) {"
//@ end
//@ extract iris-mpc/src/aby3/random/prf.rs fn gen_zero_share in "impl Prf"
//@ re "-> T::Share" => "-> (r: El)"
//@ re "where\s*Standard: Distribution<T::Share>,\s*\{" => "ensures r == plus(val::<El>(old(self).my_prf.st@), neg(val::<El>(old(self).next_prf.st@))), final(self).my_prf.st@ == adv::<El>(old(self).my_prf.st@), final(self).next_prf.st@ == adv::<El>(old(self).next_prf.st@) {"
//@ all "T::Share" => "El"
//@ end
//@ extract iris-mpc/src/aby3/random/prf.rs fn gen_binary_zero_share in "impl Prf"
//@ re "-> T::Share" => "-> (r: El)"
//@ re "where\s*Standard: Distribution<T::Share>,\s*\{" => "ensures r == exor(val::<El>(old(self).my_prf.st@), val::<El>(old(self).next_prf.st@)), final(self).my_prf.st@ == adv::<El>(old(self).my_prf.st@), final(self).next_prf.st@ == adv::<El>(old(self).next_prf.st@) {"
//@ all "T::Share" => "El"
//@ end
}
/// the generators of the three parties are in step
pub open spec fn sync(p: Prf, q: Prf, r: Prf) -> bool { p.my_prf.st@ == q.next_prf.st@ && q.my_prf.st@ == r.next_prf.st@ && r.my_prf.st@ == p.next_prf.st@ }

/// one step of any history: each kind of draw, made by the three parties, gives agreeing values and keeps them in step
fn draws_agree<T>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: ((T, T), (T, T), (T, T)))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)), o.0.0 == o.1.1, o.1.0 == o.2.1, o.2.0 == o.0.1
{ (p.gen_rands::<T>(), q.gen_rands::<T>(), r.gen_rands::<T>()) }
fn random_sharings_agree<T: Sharable>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: (Share, Share, Share))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)), o.0.a == o.1.b, o.1.a == o.2.b, o.2.a == o.0.b
{ (p.gen_rand::<T>(), q.gen_rand::<T>(), r.gen_rand::<T>()) }
fn zero_shares_cancel<T: Sharable>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: (El, El, El))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)), plus(plus(o.0, o.1), o.2) == zero()
{
    let x = p.gen_zero_share::<T>();
    let y = q.gen_zero_share::<T>();
    let z = r.gen_zero_share::<T>();
    proof { telescope(val::<El>(old(p).my_prf.st@), val::<El>(old(q).my_prf.st@), val::<El>(old(r).my_prf.st@)); }
    (x, y, z)
}
fn boolean_zero_shares_cancel<T: Sharable>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: (El, El, El))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)), exor(exor(o.0, o.1), o.2) == zero()
{
    let x = p.gen_binary_zero_share::<T>();
    let y = q.gen_binary_zero_share::<T>();
    let z = r.gen_binary_zero_share::<T>();
    proof { telescope_xor(val::<El>(old(p).my_prf.st@), val::<El>(old(q).my_prf.st@), val::<El>(old(r).my_prf.st@)); }
    (x, y, z)
}
}

/// (a - c) + (b - a) + (c - b) = 0
pub proof fn telescope(a: El, b: El, c: El)
    ensures plus(plus(plus(a, neg(c)), plus(b, neg(a))), plus(c, neg(b))) == zero()
{
    let (na, nb, nc) = (neg(a), neg(b), neg(c));
    // (a - c) + (b - a) = b - c
    group(a, nc, plus(b, na));
    group(nc, plus(b, na), a);
    group(b, na, a);
    group(a, na, b);
    group(nc, b, zero());
    group(b, zero(), nc);
    group(plus(nc, plus(b, na)), a, zero());
    group(b, plus(na, a), zero());
    group(nc, b, a);
    group(na, a, zero());
    assert(plus(plus(a, nc), plus(b, na)) == plus(nc, b));
    // (b - c) + (c - b) = 0
    group(nc, b, plus(c, nb));
    group(b, plus(c, nb), zero());
    group(b, c, nb);
    group(c, nb, b);
    group(nb, b, zero());
    group(b, nb, c);
    group(c, zero(), zero());
    group(plus(c, nb), b, zero());
    group(c, nc, zero());
    group(nc, c, zero());
    assert(plus(b, plus(c, nb)) == c);
}
pub proof fn telescope_xor(a: El, b: El, c: El)
    ensures exor(exor(exor(a, c), exor(b, a)), exor(c, b)) == zero()
{
    exor_group(a, c, exor(b, a));
    exor_group(c, exor(b, a), a);
    exor_group(b, a, a);
    exor_group(a, a, b);
    exor_group(c, b, zero());
    exor_group(b, zero(), c);
    exor_group(exor(c, exor(b, a)), a, zero());
    exor_group(b, exor(a, a), zero());
    exor_group(c, b, a);
    assert(exor(exor(a, c), exor(b, a)) == exor(c, b));
    exor_group(exor(c, b), exor(c, b), zero());
}

// ---------------------------------------------------------------- Swift3
mod swift {
use super::*;
//@ extract iris-mpc/src/swift3/random/prf.rs struct Prf
//@ all "\b(prf_1|prf_2|prf_p):" => "pub \1:"
//@ end
impl Prf {
//@ extract iris-mpc/src/swift3/random/prf.rs fn new in "impl Prf"
//@ re "-> Self" => "-> (r: Self) ensures r.prf_1.st@ == init(prf_1@), r.prf_2.st@ == init(prf_2@), r.prf_p.st@ == init(prf_p@)"
//@ end
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_1 in "impl Prf"
//@ re "-> T\s*where\s*Standard: Distribution<T>,\s*\{" => "-> (r: T) ensures r == val::<T>(old(self).prf_1.st@), final(self).prf_1.st@ == adv::<T>(old(self).prf_1.st@), final(self).prf_2 == old(self).prf_2, final(self).prf_p == old(self).prf_p {"
//@ end
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_2 in "impl Prf"
//@ re "-> T\s*where\s*Standard: Distribution<T>,\s*\{" => "-> (r: T) ensures r == val::<T>(old(self).prf_2.st@), final(self).prf_2.st@ == adv::<T>(old(self).prf_2.st@), final(self).prf_1 == old(self).prf_1, final(self).prf_p == old(self).prf_p {"
//@ end
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_p in "impl Prf"
//@ re "-> T\s*where\s*Standard: Distribution<T>,\s*\{" => "-> (r: T) ensures r == val::<T>(old(self).prf_p.st@), final(self).prf_p.st@ == adv::<T>(old(self).prf_p.st@), final(self).prf_1 == old(self).prf_1, final(self).prf_2 == old(self).prf_2 {"
//@ end
//@ extract iris-mpc/src/swift3/random/prf.rs fn gen_for_zero_share in "impl Prf"
//@ re "-> \(T::Share, T::Share\)" => "-> (r: (El, El))"
//@ re "where\s*Standard: Distribution<T::Share>,\s*\{" => "ensures r.0 == val::<El>(old(self).prf_1.st@), r.1 == val::<El>(old(self).prf_2.st@), final(self).prf_1.st@ == adv::<El>(old(self).prf_1.st@), final(self).prf_2.st@ == adv::<El>(old(self).prf_2.st@), final(self).prf_p == old(self).prf_p {"
//@ all "T::Share" => "El"
//@ end
}
/// the first key of a party is the second key of the next one, the third key is common
pub open spec fn sync(p: Prf, q: Prf, r: Prf) -> bool {
    p.prf_1.st@ == q.prf_2.st@ && q.prf_1.st@ == r.prf_2.st@ && r.prf_1.st@ == p.prf_2.st@ && p.prf_p.st@ == q.prf_p.st@ && q.prf_p.st@ == r.prf_p.st@
}
fn draws_agree<T>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: ((T, T, T), (T, T, T), (T, T, T)))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)), o.0.0 == o.1.1, o.1.0 == o.2.1, o.2.0 == o.0.1, o.0.2 == o.1.2, o.1.2 == o.2.2
{ ((p.gen_1::<T>(), p.gen_2::<T>(), p.gen_p::<T>()), (q.gen_1::<T>(), q.gen_2::<T>(), q.gen_p::<T>()), (r.gen_1::<T>(), r.gen_2::<T>(), r.gen_p::<T>())) }
/// the zero shares the protocol makes of them: r0 - r1, and r0 ^ r1 for words
fn zero_shares_cancel<T: Sharable>(p: &mut Prf, q: &mut Prf, r: &mut Prf) -> (o: ((El, El), (El, El), (El, El)))
    requires sync(*old(p), *old(q), *old(r))
    ensures sync(*final(p), *final(q), *final(r)),
        plus(plus(plus(o.0.0, neg(o.0.1)), plus(o.1.0, neg(o.1.1))), plus(o.2.0, neg(o.2.1))) == zero(),
        exor(exor(exor(o.0.0, o.0.1), exor(o.1.0, o.1.1)), exor(o.2.0, o.2.1)) == zero()
{
    let x = p.gen_for_zero_share::<T>();
    let y = q.gen_for_zero_share::<T>();
    let z = r.gen_for_zero_share::<T>();
    proof { telescope(x.0, y.0, z.0); telescope_xor(x.0, y.0, z.0); }
    (x, y, z)
}
}

proof fn enc_len<R: RingImpl>(v: Seq<R>) ensures enc(v).len() == v.len() * R::size() decreases v.len()
{
    if v.len() > 0 {
        enc_len(v.drop_last());
        R::fixed(v.last(), v.last());
        assert((v.len() - 1) * R::size() + R::size() == v.len() * R::size()) by (nonlinear_arith);
    }
}
proof fn enc_inj<R: RingImpl>(v: Seq<R>, w: Seq<R>) requires enc(v) == enc(w) ensures v == w decreases v.len()
{
    enc_len(v);
    enc_len(w);
    if v.len() > 0 { R::fixed(v.last(), v.last()); }
    if w.len() > 0 { R::fixed(w.last(), w.last()); }
    if v.len() == 0 || w.len() == 0 {
        if v.len() > 0 { assert(v.len() * R::size() > 0) by (nonlinear_arith) requires v.len() > 0, R::size() > 0; }
        if w.len() > 0 { assert(w.len() * R::size() > 0) by (nonlinear_arith) requires w.len() > 0, R::size() > 0; }
        assert(v =~= w);
    } else {
        let (n, s) = (enc(v).len() as int, R::size() as int);
        let (a, b) = (enc(v.drop_last()), enc(w.drop_last()));
        R::fixed(v.last(), w.last());
        assert(enc(v) == a + v.last().enc1());
        assert(enc(w) == b + w.last().enc1());
        assert(a.len() == n - s && b.len() == n - s);
        assert(a =~= enc(v).subrange(0, n - s));
        assert(b =~= enc(w).subrange(0, n - s));
        assert(v.last().enc1() =~= enc(v).subrange(n - s, n));
        assert(w.last().enc1() =~= enc(w).subrange(n - s, n));
        enc_inj(v.drop_last(), w.drop_last());
        assert(v =~= v.drop_last().push(v.last()));
        assert(w =~= w.drop_last().push(w.last()));
    }
}
/// a commitment opens exactly for the values and the randomness it was made of
fn opens_exactly<R: RingImpl>(c: Commitment<R>, v: Ghost<Seq<R>>, o: CommitOpening<R>) -> (r: bool)
    requires c.ok(v@)
    ensures r == (o.values@ == v@ && o.rand@ == c.rand@)
{
    let ghost o_ = o; let ghost comm_ = c.comm; let r = o.verify(c.comm);
    proof {
        let (x, y) = (enc(o_.values@) + o_.rand@, enc(v@) + c.rand@);
        collision_free(x, y);
        if x == y {
            let (n, m) = (enc(o_.values@).len() as int, enc(v@).len() as int);
            assert(x.len() == n + 32 && y.len() == m + 32);
            assert(enc(o_.values@) =~= x.subrange(0, n));
            assert(enc(v@) =~= y.subrange(0, n));
            assert(o_.rand@ =~= x.subrange(n, n + 32));
            assert(c.rand@ =~= y.subrange(n, n + 32));
            enc_inj(o_.values@, v@);
        }
    }
    r
}

fn main() {}
}
