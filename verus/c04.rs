// C04: the boolean circuits over the AND protocol, for all list lengths, all widths and all values; the split of an
// additive sharing into three words; the conversion. Extraction directives are replaced by the text of the named
// function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub enum Error { InvalidSizeError, Network, Other }
//@ include words.inc
// ---------------------------------------------------------------- carries
pub type F = spec_fn(int) -> bool;
/// the carry into position k when s and d are added
pub open spec fn car(s: F, d: F, k: int) -> bool decreases k { if k <= 0 { false } else { maj(s(k - 1), d(k - 1), car(s, d, k - 1)) } }
pub open spec fn sum(s: F, d: F) -> F { |k: int| (s(k) != d(k)) != car(s, d, k) }
/// twice c
pub open spec fn dbl(c: F) -> F { |k: int| k >= 1 && c(k - 1) }
proof fn add_bits(s: F, d: F, k: nat) ensures val(s, k) + val(d, k) == val(sum(s, d), k) + b2i(car(s, d, k as int)) * pow2(k) decreases k
{
    if k > 0 {
        let m = (k - 1) as nat; add_bits(s, d, m); lemma_pow2_unfold(k);
        let p = pow2(m) as int; let a = b2i(s(k - 1)); let b = b2i(d(k - 1)); let g = b2i(car(s, d, k - 1)); let h = b2i(car(s, d, k as int)); let t = b2i(sum(s, d)(k - 1));
        assert(a + b + g == t + 2 * h);
        assert(a * p + b * p + g * p == t * p + h * (2 * p)) by (nonlinear_arith) requires a + b + g == t + 2 * h;
    }
}
proof fn twice(c: F, k: nat) requires k >= 1 ensures val(dbl(c), k) == 2 * val(c, (k - 1) as nat) decreases k
{
    if k == 1 { reveal_with_fuel(val, 2); assert(b2i(dbl(c)(0)) == 0); lemma2_to64(); }
    else {
        let m = (k - 1) as nat; twice(c, m); lemma_pow2_unfold(m);
        let p = pow2((m - 1) as nat) as int; let b = b2i(c(k - 2));
        assert(b * pow2(m) == 2 * (b * p)) by (nonlinear_arith) requires pow2(m) == 2 * p;
        assert(dbl(c)(k - 1) == c(k - 2));
        assert(val(dbl(c), k) == val(dbl(c), m) + b * pow2(m));
        assert(val(c, m) == val(c, (m - 1) as nat) + b * p);
    }
}
/// the adder: the sum of three words, modulo 2^k
proof fn adds_three(x: F, y: F, z: F, k: nat) requires k >= 1 ensures val(sum(fs(x, y, z), dbl(fc(x, y, z))), k) == (val(x, k) + val(y, k) + val(z, k)) % (pow2(k) as int)
{
    let s = fs(x, y, z); let c = fc(x, y, z); let d = dbl(c); let m = (k - 1) as nat;
    three(x, y, z, k); add_bits(s, d, k); twice(c, k); val_bound(sum(s, d), k); lemma_pow2_unfold(k); lemma_pow2_pos(k);
    let p = pow2(k) as int; let h = b2i(c(k - 1)); let g = b2i(car(s, d, k as int));
    assert(2 * (h * pow2(m)) == h * p) by (nonlinear_arith) requires p == 2 * pow2(m);
    let t = val(x, k) + val(y, k) + val(z, k);
    assert(t == (h + g) * p + val(sum(s, d), k)) by (nonlinear_arith) requires t == val(sum(s, d), k) + h * p + g * p;
    lemma_fundamental_div_mod_converse(t, p, h + g, val(sum(s, d), k));
}
/// generate and propagate of the w positions that end at k
pub open spec fn gen(s: F, d: F, k: int, w: nat) -> bool decreases w { if w == 0 || k < 0 { false } else { (s(k) && d(k)) != ((s(k) != d(k)) && gen(s, d, k - 1, (w - 1) as nat)) } }
pub open spec fn pro(s: F, d: F, k: int, w: nat) -> bool decreases w { if w == 0 { true } else { k >= 0 && (s(k) != d(k)) && pro(s, d, k - 1, (w - 1) as nat) } }
proof fn windows(s: F, d: F, k: int, a: nat, b: nat)
    ensures gen(s, d, k, a + b) == (gen(s, d, k, a) != (pro(s, d, k, a) && gen(s, d, k - a, b))), pro(s, d, k, a + b) == (pro(s, d, k, a) && pro(s, d, k - a, b)) decreases a
{ if a > 0 && k >= 0 { windows(s, d, k - 1, (a - 1) as nat, b); } else if a > 0 { assert(k < 0); } }
proof fn full_window(s: F, d: F, k: int, w: nat) requires w >= k + 1 ensures gen(s, d, k, w) == car(s, d, k + 1) decreases w
{ if k >= 0 { full_window(s, d, k - 1, (w - 1) as nat); } }
proof fn all_windows(s: F, d: F, kk: int, w: nat)
    ensures forall|k: int| 0 <= k < kk ==> #[trigger] gen(s, d, k, w + w) == (gen(s, d, k, w) != (pro(s, d, k, w) && k >= w && gen(s, d, k - w, w))),
        forall|k: int| 0 <= k < kk ==> w > 0 ==> #[trigger] pro(s, d, k, w + w) == (pro(s, d, k, w) && k >= w && pro(s, d, k - w, w))
{
    assert forall|k: int| 0 <= k < kk implies #[trigger] gen(s, d, k, w + w) == (gen(s, d, k, w) != (pro(s, d, k, w) && k >= w && gen(s, d, k - w, w))) by { windows(s, d, k, w, w); }
    assert forall|k: int| 0 <= k < kk && w > 0 implies #[trigger] pro(s, d, k, w + w) == (pro(s, d, k, w) && k >= w && pro(s, d, k - w, w)) by { windows(s, d, k, w, w); }
}

//@ include lists.inc
// ---------------------------------------------------------------- the circuits
/// The AND protocols of an engine: an error, or the conjunctions (checked on the real code: obligations of C04)
pub trait Engine<V: VecShare>: Sized {
    fn and(&mut self, a: Reg, b: Reg) -> (r: Result<Reg, Error>) ensures r is Ok ==> r->Ok_0.w() == a.w() & b.w();
    fn and_many(&mut self, a: &V, b: &V) -> (r: Result<V, Error>) requires a.at().len() == b.at().len() ensures r is Ok ==> anded(r->Ok_0.at(), a.at(), b.at());
}
pub struct B {}
impl B {
//@ extract iris-mpc/src/traits/binary_trait.rs fn xor
//@ re "^.*?\bfn xor\b[^{]*\{" => "pub fn xor(a: Reg, b: Reg) -> (r: Reg) ensures r.w() == a.w() ^ b.w() {"
//@ re "(\w+) \^ (\w+)" => "xor_reg(\1, \2)"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn xor_many
//@ re "^.*?\bfn xor_many\b[^{]*\{" => "pub fn xor_many<V: VecShare>(a: V, b: V) -> (r: Result<V, Error>) ensures r is Ok == (a.at().len() == b.at().len()), r is Ok ==> xored(r->Ok_0.at(), a.at(), b.at()) {"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn xor_assign
//@ re "^.*?\bfn xor_assign\b[^{]*\{" => "pub fn xor_assign(a: &mut Reg, b: Reg) ensures final(a).w() == old(a).w() ^ b.w() {"
//@ re "\*(\w+) \^= (\w+);" => "xor_into(\1, \2);"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn or
//@ re "^.*?\bfn or\b[^{]*\{" => "pub fn or<V: VecShare, E: Engine<V>>(me: &mut E, a: Reg, b: Reg) -> (r: Result<Reg, Error>) ensures r is Ok ==> r->Ok_0.w() == a.w() | b.w() { let ghost a0 = a.w(); let ghost b0 = b.w(); proof { assert((a0 ^ b0) ^ (a0 & b0) == a0 | b0) by (bit_vector); assert((a0 & b0) ^ (a0 ^ b0) == a0 | b0) by (bit_vector); }"
//@ all "\bSelf::" => "B::"
//@ all "\bself\." => "me."
//@ all "\s*\.await" => ""
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn or_many
//@ re "^.*?\bfn or_many\b[^{]*\{" => "pub fn or_many<V: VecShare, E: Engine<V>>(me: &mut E, a: V, b: V) -> (r: Result<V, Error>) ensures a.at().len() != b.at().len() ==> r is Err, r is Ok ==> r->Ok_0.at().len() == a.at().len() && forall|i: int| 0 <= i < a.at().len() ==> (#[trigger] r->Ok_0.at()[i]).w() == a.at()[i].w() | b.at()[i].w() { proof { or_words(); }"
//@ all "\bSelf::" => "B::"
//@ all "\bself\." => "me."
//@ all "\s*\.await" => ""
//@ end
}
proof fn or_words() ensures forall|a: u128, b: u128| #[trigger] ((a & b) ^ (a ^ b)) == a | b, forall|a: u128, b: u128| #[trigger] ((a ^ b) ^ (a & b)) == a | b
{
    assert forall|a: u128, b: u128| #[trigger] ((a & b) ^ (a ^ b)) == a | b by { assert((a & b) ^ (a ^ b) == a | b) by (bit_vector); }
    assert forall|a: u128, b: u128| #[trigger] ((a ^ b) ^ (a & b)) == a | b by { assert((a ^ b) ^ (a & b) == a | b) by (bit_vector); }
}
//@ extract iris-mpc/src/aby3/utils.rs fn ceil_log2
//@ re "^.*?\bfn ceil_log2\b[^{]*\{" => "pub fn ceil_log2(x: usize) -> (r: usize) requires x >= 1 ensures pow2(r as nat) >= x, r > 0 ==> pow2((r - 1) as nat) < x { let ghost x0 = (x - 1) as int; proof { lemma2_to64(); }"
//@ re "let mut (\w+) = 0;(.*?)while (\w+) > 0 \{" => "let mut \1: usize = 0; \2 proof { assert(x0 / 1 == x0); } while \3 > 0 invariant \3 == x0 / (pow2(\1 as nat) as int), 0 <= x0 < 0x1_0000_0000_0000_0000, \1 <= 64, \1 > 0 ==> x0 / (pow2((\1 - 1) as nat) as int) > 0 decreases \3 { proof { lemma_pow2_unfold((\1 + 1) as nat); lemma_pow2_pos(\1 as nat); lemma_div_denominator(x0, pow2(\1 as nat) as int, 2); let w = \3; assert(w >> 1usize == w / 2) by (bit_vector); lemma2_to64_rest(); if \1 == 64 { lemma_basic_div(x0, pow2(64) as int); } }"
//@ re "(\w+) >>= 1;" => "\1 = \1 >> 1usize;"
//@ re "(\w+)\s*\}\s*$" => "proof { lemma_pow2_pos(\1 as nat); lemma_fundamental_div_mod(x0, pow2(\1 as nat) as int); lemma_mod_bound(x0, pow2(\1 as nat) as int); assert(pow2(\1 as nat) * 0 == 0) by (nonlinear_arith); if \1 > 0 { let q = pow2((\1 - 1) as nat) as int; lemma_pow2_pos((\1 - 1) as nat); if x0 < q { lemma_basic_div(x0, q); } } } \1 }"
//@ end
/// what the circuit is to compute
pub open spec fn total(r: u128, x: u128, y: u128, z: u128, kk: int) -> bool { val(bits_of(r), kk as nat) == (val(bits_of(x), kk as nat) + val(bits_of(y), kk as nat) + val(bits_of(z), kk as nat)) % (pow2(kk as nat) as int) }
pub open spec fn sw(x: u128, y: u128, z: u128) -> F { fs(bits_of(x), bits_of(y), bits_of(z)) }
pub open spec fn dw(x: u128, y: u128, z: u128) -> F { dbl(fc(bits_of(x), bits_of(y), bits_of(z))) }
pub open spec fn is_xor(r: u128, a: u128, b: u128) -> bool { forall|k: int| 0 <= k < 128 ==> #[trigger] bit(r, k) == (bit(a, k) != bit(b, k)) }
pub open spec fn is_and(r: u128, a: u128, b: u128) -> bool { forall|k: int| 0 <= k < 128 ==> #[trigger] bit(r, k) == (bit(a, k) && bit(b, k)) }
/// propagate and generate words of window w
pub open spec fn level(p: u128, g: u128, x: u128, y: u128, z: u128, kk: int, w: nat) -> bool {
    (forall|k: int| 0 <= k < kk ==> #[trigger] bit(p, k) == pro(sw(x, y, z), dw(x, y, z), k, w)) && (forall|k: int| 0 <= k < kk ==> #[trigger] bit(g, k) == gen(sw(x, y, z), dw(x, y, z), k, w))
}
pub open spec fn first(s_: u128, x: u128, y: u128, z: u128, kk: int) -> bool { forall|k: int| 0 <= k < kk ==> #[trigger] bit(s_, k) == (sw(x, y, z)(k) != dw(x, y, z)(k)) }
proof fn start(x: u128, y: u128, z: u128, s: u128, c0: u128, c: u128, p: u128, g: u128, kk: int)
    requires 1 <= kk <= 128, forall|k: int| 0 <= k < 128 ==> #[trigger] bit(s, k) == sw(x, y, z)(k), forall|k: int| 0 <= k < 128 ==> #[trigger] bit(c0, k) == fc(bits_of(x), bits_of(y), bits_of(z))(k), shifted(c, c0, 1, kk), is_xor(p, s, c), is_and(g, s, c)
    ensures level(p, g, x, y, z, kk, 1), first(p, x, y, z, kk)
{
    let fa = sw(x, y, z); let fd = dw(x, y, z);
    assert forall|k: int| 0 <= k < kk implies #[trigger] bit(p, k) == pro(fa, fd, k, 1) && bit(g, k) == gen(fa, fd, k, 1) && bit(p, k) == (fa(k) != fd(k)) by {
        assert(bit(c, k) == fd(k)); assert(bit(s, k) == fa(k));
        reveal_with_fuel(pro, 2); reveal_with_fuel(gen, 2);
    }
    assert forall|k: int| 0 <= k < kk implies #[trigger] bit(g, k) == gen(fa, fd, k, 1) by { assert(bit(p, k) == pro(fa, fd, k, 1)); }
}
proof fn step(x: u128, y: u128, z: u128, p: u128, g: u128, ps: u128, gs: u128, p1: u128, g1: u128, kk: int, w: nat)
    requires 1 <= kk <= 128, w > 0, level(p, g, x, y, z, kk, w), shifted(ps, p, w as int, kk), shifted(gs, g, w as int, kk), is_and(p1, p, ps), forall|k: int| 0 <= k < 128 ==> #[trigger] bit(g1, k) == (bit(g, k) != (bit(p, k) && bit(gs, k)))
    ensures level(p1, g1, x, y, z, kk, w + w)
{
    let fa = sw(x, y, z); let fd = dw(x, y, z); all_windows(fa, fd, kk, w);
    assert forall|k: int| 0 <= k < kk implies bit(p1, k) == pro(fa, fd, k, w + w) && bit(g1, k) == gen(fa, fd, k, w + w) by {
        assert(bit(ps, k) == (k >= w && bit(p, k - w))); assert(bit(gs, k) == (k >= w && bit(g, k - w)));
        assert(bit(p, k) == pro(fa, fd, k, w)); assert(bit(g, k) == gen(fa, fd, k, w));
        if k >= w { assert(bit(p, k - w) == pro(fa, fd, k - w, w)); assert(bit(g, k - w) == gen(fa, fd, k - w, w)); }
    }
}
proof fn finish(x: u128, y: u128, z: u128, s_: u128, p: u128, g: u128, gf: u128, r: u128, kk: int, w: nat)
    requires 1 <= kk <= 128, w >= kk, level(p, g, x, y, z, kk, w), first(s_, x, y, z, kk), shifted(gf, g, 1, kk), is_xor(r, s_, gf)
    ensures total(r, x, y, z, kk)
{
    let fa = sw(x, y, z); let fd = dw(x, y, z); let n = kk as nat;
    assert forall|k: int| 0 <= k < kk implies #[trigger] bits_of(r)(k) == sum(fa, fd)(k) by {
        assert(bit(s_, k) == (fa(k) != fd(k)));
        assert(bit(gf, k) == (k >= 1 && bit(g, k - 1)));
        if k >= 1 { assert(bit(g, k - 1) == gen(fa, fd, k - 1, w)); full_window(fa, fd, k - 1, w); }
    }
    same_val(bits_of(r), sum(fa, fd), n);
    adds_three(bits_of(x), bits_of(y), bits_of(z), n);
}
proof fn amount(i: usize, logk: usize, kk: usize) requires i < logk, pow2((logk - 1) as nat) < kk <= 128 ensures (1u32 << (i as u32)) == pow2(i as nat), pow2(i as nat) < kk, pow2((i + 1) as nat) == pow2(i as nat) + pow2(i as nat), pow2(i as nat) > 0, i < 8
{
    if i >= 8 { lemma2_to64(); if logk > 9 { lemma_pow2_strictly_increases(8, (logk - 1) as nat); } }
    if i < logk - 1 { lemma_pow2_strictly_increases(i as nat, (logk - 1) as nat); }
    lemma_pow2_unfold((i + 1) as nat); lemma_pow2_pos(i as nat);
    assert(1 * pow2(i as nat) == pow2(i as nat));
    lemma_u32_shl_is_mul(1, i as u32);
}
impl B {
//@ extract iris-mpc/src/traits/binary_trait.rs fn binary_add_3
//@ re "^.*?\bfn binary_add_3\b[^{]*\{" => "pub fn binary_add_3<V: VecShare, E: Engine<V>>(me: &mut E, x1: Reg, x2: Reg, x3: Reg, kk: usize) -> (r: Result<Reg, Error>) requires 2 <= kk <= 128 ensures r is Ok ==> total(r->Ok_0.w(), x1.w(), x2.w(), x3.w(), kk as int) { let ghost x = x1.w(); let ghost y = x2.w(); let ghost z = x3.w(); proof { bits_all(); lemma2_to64(); }"
//@ re "T::Share::K" => "kk"
//@ all "\bSelf::" => "B::"
//@ all "\bself\." => "me."
//@ all "\s*\.await" => ""
//@ all "Bshare::VecShare::" => "V::"
//@ re "let (\w+) = p\.to_owned\(\) << \(1 << i\);" => "let \1 = shl_reg(p.to_owned(), 1u32 << (i as u32), kk); let ghost ps = \1.w();"
//@ re "let (\w+) = g\.to_owned\(\) << \(1 << i\);" => "let \1 = shl_reg(g.to_owned(), 1u32 << (i as u32), kk); let ghost gs = \1.w();"
//@ re "for i in 0\.\.([^{]*?) \{" => "proof { start(x, y, z, s1, was_c, c1, p.w(), g.w(), kk as int); } for i in 0..\1 invariant 2 <= kk <= 128, logk > 0 ==> pow2((logk - 1) as nat) < kk, level(p.w(), g.w(), x, y, z, kk as int, pow2(i as nat)), first(s_.w(), x, y, z, kk as int) { let ghost p0 = p.w(); let ghost g0 = g.w(); proof { amount(i, logk, kk); }"
//@ re "\}\s*g <<= (\w+);" => "proof { bits_all(); step(x, y, z, p0, g0, ps, gs, p.w(), g.w(), kk as int, pow2(i as nat)); } } g <<= \1;"
//@ re "(let mut p = [^;]*;)" => "let ghost s1 = s.w(); let ghost c1 = c.w(); \1"
//@ all "(\w+) <<= (\w+);" => "let ghost was_\1 = \1.w(); shl_into(&mut \1, \2, kk);"
//@ re "Ok\(B::xor\((\w+), (\w+)\)\)\s*\}\s*$" => "let ghost s9 = s_.w(); let ghost g9 = g.w(); let out = B::xor(\1, \2); proof { bits_all(); finish(x, y, z, s9, p.w(), was_g, g9, out.w(), kk as int, pow2(logk as nat)); } Ok(out) }"
//@ end
//@ extract iris-mpc/src/traits/binary_trait.rs fn binary_add_3_many
//@ re "^.*?\bfn binary_add_3_many\b[^{]*\{" => "pub fn binary_add_3_many<V: VecShare, E: Engine<V>>(me: &mut E, x1: V, x2: V, x3: V, kk: usize) -> (r: Result<V, Error>) requires 2 <= kk <= 128 ensures x1.at().len() != x2.at().len() || x1.at().len() != x3.at().len() ==> r is Err, r is Ok ==> totals(r->Ok_0.at(), x1.at(), x2.at(), x3.at(), kk as int) { let ghost x = x1.at(); let ghost y = x2.at(); let ghost z = x3.at(); proof { bits_all(); lemma2_to64(); }"
//@ re "T::Share::K" => "kk"
//@ all "\bSelf::" => "B::"
//@ all "\bself\." => "me."
//@ all "\s*\.await" => ""
//@ all "\.expect\([^)]*\)" => ".unwrap()"
//@ re "(\w+)\.shl_assign_many\((\d+)\);(.*?)let mut p = " => "let ghost c0 = \1.at(); \1.shl_assign_many(\2, kk); \3 let ghost s1 = s.at(); let ghost c1 = c.at(); let mut p = "
//@ re "p_\.shl_assign_many\(1 << i\);" => "p_.shl_assign_many(1u32 << (i as u32), kk); let ghost ps = p_.at();"
//@ re "g_\.shl_assign_many\(1 << i\);" => "g_.shl_assign_many(1u32 << (i as u32), kk); let ghost gs = g_.at();"
//@ re "for i in 0\.\.([^{]*?) \{" => "proof { assert forall|j: int| 0 <= j < x.len() implies level((#[trigger] p.at()[j]).w(), g.at()[j].w(), x[j].w(), y[j].w(), z[j].w(), kk as int, 1) && first(p.at()[j].w(), x[j].w(), y[j].w(), z[j].w(), kk as int) by { start(x[j].w(), y[j].w(), z[j].w(), s1[j].w(), c0[j].w(), c1[j].w(), p.at()[j].w(), g.at()[j].w(), kk as int); } } for i in 0..\1 invariant 2 <= kk <= 128, len == x.len(), x.len() == y.len(), x.len() == z.len(), logk > 0 ==> pow2((logk - 1) as nat) < kk, levels(p.at(), g.at(), x, y, z, kk as int, pow2(i as nat)), firsts(s_.at(), x, y, z, kk as int) { let ghost p0 = p.at(); let ghost g0 = g.at(); proof { amount(i, logk, kk); }"
//@ re "\}\s*g\.shl_assign_many\((\d+)\);" => "proof { bits_all(); assert forall|j: int| 0 <= j < x.len() implies level((#[trigger] p.at()[j]).w(), g.at()[j].w(), x[j].w(), y[j].w(), z[j].w(), kk as int, pow2(i as nat) + pow2(i as nat)) by { step(x[j].w(), y[j].w(), z[j].w(), p0[j].w(), g0[j].w(), ps[j].w(), gs[j].w(), p.at()[j].w(), g.at()[j].w(), kk as int, pow2(i as nat)); } } } let ghost g8 = g.at(); g.shl_assign_many(\1, kk);"
//@ re "(\w+)\.xor_many\((\w+)\)\s*\}\s*$" => "let ghost s9 = s_.at(); let ghost g9 = g.at(); let out = \1.xor_many(\2); proof { bits_all(); assert forall|j: int| 0 <= j < x.len() implies out is Ok && total((#[trigger] out->Ok_0.at()[j]).w(), x[j].w(), y[j].w(), z[j].w(), kk as int) by { finish(x[j].w(), y[j].w(), z[j].w(), s9[j].w(), p.at()[j].w(), g8[j].w(), g9[j].w(), out->Ok_0.at()[j].w(), kk as int, pow2(logk as nat)); } } out }"
//@ end
}
pub open spec fn totals(r: Seq<Reg>, x: Seq<Reg>, y: Seq<Reg>, z: Seq<Reg>, kk: int) -> bool { r.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> total((#[trigger] r[j]).w(), x[j].w(), y[j].w(), z[j].w(), kk) }
pub open spec fn levels(p: Seq<Reg>, g: Seq<Reg>, x: Seq<Reg>, y: Seq<Reg>, z: Seq<Reg>, kk: int, w: nat) -> bool { p.len() == x.len() && g.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> level((#[trigger] p[j]).w(), g[j].w(), x[j].w(), y[j].w(), z[j].w(), kk, w) }
pub open spec fn firsts(s: Seq<Reg>, x: Seq<Reg>, y: Seq<Reg>, z: Seq<Reg>, kk: int) -> bool { s.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> first((#[trigger] s[j]).w(), x[j].w(), y[j].w(), z[j].w(), kk) }

// ---------------------------------------------------------------- from the additive sharing to the three words
/// ring arithmetic on words of kk bits (C10)
pub open spec fn subw(a: u128, b: u128, kk: int) -> u128 { ((a - b) % (pow2(kk as nat) as int)) as u128 }
#[verifier::external_body] pub fn sub(a: u128, b: u128, kk: usize) -> (r: u128) requires 1 <= kk <= 128 ensures r == subw(a, b, kk as int) { unimplemented!() }
#[verifier::external_body] pub fn neg(a: u128, kk: usize) -> (r: u128) requires 1 <= kk <= 128 ensures r == subw(0, a, kk as int) { unimplemented!() }
/// three additive parts of the same sharing; `known`: what one party holds of each, as binary shares
pub trait Share3: Sized + Copy {
    spec fn split(self, id: usize, kk: int) -> (Self, Self, Self);
}
#[derive(Clone, Copy)]
pub struct RepShare { pub a: u128, pub b: u128 }
impl RepShare { pub fn zero() -> (r: RepShare) ensures r == (RepShare { a: 0, b: 0 }) { RepShare { a: 0, b: 0 } } }
impl Share3 for RepShare {
    open spec fn split(self, id: usize, kk: int) -> (RepShare, RepShare, RepShare) {
        let z = RepShare { a: 0, b: 0 }; let x = RepShare { a: self.a, b: 0 }; let y = RepShare { a: 0, b: self.b };
        if id == 0 { (x, z, y) } else if id == 1 { (y, x, z) } else { (z, y, x) }
    }
}
#[derive(Clone, Copy)]
pub struct MaskShare { pub a: u128, pub b: u128, pub c: u128 }
impl MaskShare { pub fn zero() -> (r: MaskShare) ensures r == (MaskShare { a: 0, b: 0, c: 0 }) { MaskShare { a: 0, b: 0, c: 0 } } }
impl Share3 for MaskShare {
    open spec fn split(self, id: usize, kk: int) -> (MaskShare, MaskShare, MaskShare) {
        let z = MaskShare { a: 0, b: 0, c: 0 };
        if id == 0 { (MaskShare { a: subw(self.c, self.a, kk), b: 0, c: 0 }, z, MaskShare { a: 0, b: subw(0, self.b, kk), c: 0 }) }
        else if id == 1 { (MaskShare { a: 0, b: subw(self.c, self.b, kk), c: 0 }, MaskShare { a: subw(0, self.a, kk), b: 0, c: 0 }, z) }
        else { (z, MaskShare { a: 0, b: subw(0, self.b, kk), c: 0 }, MaskShare { a: subw(0, self.a, kk), b: 0, c: 0 }) }
    }
}
/// the circuits are called with the three parts of each share, in order
pub open spec fn handed<S: Share3>(id: usize, x1: Seq<S>, x2: Seq<S>, x3: Seq<S>, a: Seq<S>, kk: int) -> bool {
    x1.len() == a.len() && x2.len() == a.len() && x3.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> x1[j] == (#[trigger] a[j]).split(id, kk).0 && x2[j] == a[j].split(id, kk).1 && x3[j] == a[j].split(id, kk).2
}
pub struct Net { pub id: usize }
impl Net { pub fn get_id(&self) -> (r: usize) ensures r == self.id { self.id } }
//@ each E file S pre party | Aby3 aby3 RepShare self self | MalAby3 aby3_mal RepShare self self | Swift3 swift3 MaskShare self self
pub struct $E { pub network: Net }
impl $E {
//@ extract iris-mpc/src/$file/protocol.rs fn a2b_pre
//@ re "^.*?\bfn a2b_pre\b[^{]*\{" => "pub fn a2b_pre(&self, x: $S, kk: usize) -> (r: ($S, $S, $S)) requires 1 <= kk <= 128, self.network.id <= 2 ensures r == x.split(self.network.id, kk as int) {"
//@ all "Share::<T>::zero\(\)" => "$S::zero()"
//@ all "x\.get_ab\(\)" => "(x.a, x.b)"
//@ all "x\.get_abc\(\)" => "(x.a, x.b, x.c)"
//@ all "= (\w+) - (\w+);" => "= sub(\1, \2, kk);"
//@ all "= -(\w+);" => "= neg(\1, kk);"
//@ end
    #[verifier::external_body] pub fn binary_add_3(&mut self, x1: $S, x2: $S, x3: $S, Ghost(x): Ghost<$S>, kk: usize) -> (r: Result<$S, Error>) requires (x1, x2, x3) == x.split(old(self).network.id, kk as int) { unimplemented!() }
    #[verifier::external_body] pub fn binary_add_3_many(&mut self, x1: Vec<$S>, x2: Vec<$S>, x3: Vec<$S>, Ghost(x): Ghost<Seq<$S>>, kk: usize) -> (r: Result<Vec<$S>, Error>) requires handed(old(self).network.id, x1@, x2@, x3@, x, kk as int) { unimplemented!() }
//@ extract iris-mpc/src/$file/protocol.rs fn arithmetic_to_binary
//@ re "^.*?\bfn arithmetic_to_binary\b[^{]*\{" => "pub fn arithmetic_to_binary(&mut self, x: $S, kk: usize) -> (r: Result<$S, Error>) requires 1 <= kk <= 128, old(self).network.id <= 2 { let ghost given = x;"
//@ re "self\.a2b_pre\((\w+)\)" => "self.a2b_pre(\1, kk)"
//@ re "self\.binary_add_3\(([^)]*)\)\s*\.await" => "self.binary_add_3(\1, Ghost(given), kk)"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn arithmetic_to_binary_many
//@ re "^.*?\bfn arithmetic_to_binary_many\b[^{]*\{" => "pub fn arithmetic_to_binary_many(&mut self, x: Vec<$S>, kk: usize) -> (r: Result<Vec<$S>, Error>) requires 1 <= kk <= 128, old(self).network.id <= 2 { let ghost given = x@; let ghost id = self.network.id;"
//@ all "let mut (x[123]) = Vec::with_capacity" => "let mut \1: Vec<$S> = Vec::with_capacity"
//@ re "for (\w+) in (\w+) \{" => "for k_ in 0..\2.len() invariant \2@ == given, 1 <= kk <= 128, self.network.id == id, id <= 2, x1@.len() == k_, x2@.len() == k_, x3@.len() == k_, forall|j: int| 0 <= j < k_ ==> #[trigger] x1@[j] == given[j].split(id, kk as int).0, forall|j: int| 0 <= j < k_ ==> #[trigger] x2@[j] == given[j].split(id, kk as int).1, forall|j: int| 0 <= j < k_ ==> #[trigger] x3@[j] == given[j].split(id, kk as int).2 { let \1 = \2[k_];"
//@ re "self\.a2b_pre\((\w+)\)" => "self.a2b_pre(\1, kk)"
//@ re "self\.binary_add_3_many\(([^)]*)\)\s*\.await" => "self.binary_add_3_many(\1, Ghost(given), kk)"
//@ end
}
//@ done
/// SpdzWise converts values without MACs with the split of its Aby3 part
pub struct SpdzWise { pub aby3: Aby3 }
impl SpdzWise {
    #[verifier::external_body] pub fn binary_add_3(&mut self, x1: RepShare, x2: RepShare, x3: RepShare, Ghost(x): Ghost<RepShare>, kk: usize) -> (r: Result<RepShare, Error>) requires (x1, x2, x3) == x.split(old(self).aby3.network.id, kk as int) { unimplemented!() }
    #[verifier::external_body] pub fn binary_add_3_many(&mut self, x1: Vec<RepShare>, x2: Vec<RepShare>, x3: Vec<RepShare>, Ghost(x): Ghost<Seq<RepShare>>, kk: usize) -> (r: Result<Vec<RepShare>, Error>) requires handed(old(self).aby3.network.id, x1@, x2@, x3@, x, kk as int) { unimplemented!() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn arithmetic_to_binary
//@ re "^.*?\bfn arithmetic_to_binary\b[^{]*\{" => "pub fn arithmetic_to_binary(&mut self, x: RepShare, kk: usize) -> (r: Result<RepShare, Error>) requires 1 <= kk <= 128, old(self).aby3.network.id <= 2 { let ghost given = x;"
//@ re "self\.aby3\.a2b_pre\((\w+)\)" => "self.aby3.a2b_pre(\1, kk)"
//@ re "self\.binary_add_3\(([^)]*)\)\s*\.await" => "self.binary_add_3(\1, Ghost(given), kk)"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn arithmetic_to_binary_many
//@ re "^.*?\bfn arithmetic_to_binary_many\b[^{]*\{" => "pub fn arithmetic_to_binary_many(&mut self, x: Vec<RepShare>, kk: usize) -> (r: Result<Vec<RepShare>, Error>) requires 1 <= kk <= 128, old(self).aby3.network.id <= 2 { let ghost given = x@; let ghost id = self.aby3.network.id;"
//@ all "let mut (x[123]) = Vec::with_capacity" => "let mut \1: Vec<RepShare> = Vec::with_capacity"
//@ re "for (\w+) in (\w+) \{" => "for k_ in 0..\2.len() invariant \2@ == given, 1 <= kk <= 128, self.aby3.network.id == id, id <= 2, x1@.len() == k_, x2@.len() == k_, x3@.len() == k_, forall|j: int| 0 <= j < k_ ==> #[trigger] x1@[j] == given[j].split(id, kk as int).0, forall|j: int| 0 <= j < k_ ==> #[trigger] x2@[j] == given[j].split(id, kk as int).1, forall|j: int| 0 <= j < k_ ==> #[trigger] x3@[j] == given[j].split(id, kk as int).2 { let \1 = \2[k_];"
//@ re "self\.aby3\.a2b_pre\((\w+)\)" => "self.aby3.a2b_pre(\1, kk)"
//@ re "self\.binary_add_3_many\(([^)]*)\)\s*\.await" => "self.binary_add_3_many(\1, Ghost(given), kk)"
//@ end
}
/// words of k bits
proof fn word_val(x: u128, k: nat) requires k <= 128, x < pow2(k) ensures val(bits_of(x), k) == x { val_low(x, k); lemma_small_mod(x as nat, pow2(k)); }
/// The conversion, Aby3 family: the three parties hold replicated shares of a value; the three words are replicated and
/// open (by xor) to parts whose sum is the value; the circuit's word is the value.
pub open spec fn replicated(x: RepShare, y: RepShare, z: RepShare) -> bool { x.b == z.a && y.b == x.a && z.b == y.a }
proof fn converted_replicated(x: RepShare, y: RepShare, z: RepShare, k: nat, w1: u128, w2: u128, w3: u128, r: u128)
    requires 2 <= k <= 128, replicated(x, y, z), x.a < pow2(k), y.a < pow2(k), z.a < pow2(k), r < pow2(k),
        w1 == x.split(0, k as int).0.a ^ y.split(1, k as int).0.a ^ z.split(2, k as int).0.a, w2 == x.split(0, k as int).1.a ^ y.split(1, k as int).1.a ^ z.split(2, k as int).1.a, w3 == x.split(0, k as int).2.a ^ y.split(1, k as int).2.a ^ z.split(2, k as int).2.a,
        total(r, w1, w2, w3, k as int)
    ensures replicated(x.split(0, k as int).0, y.split(1, k as int).0, z.split(2, k as int).0), replicated(x.split(0, k as int).1, y.split(1, k as int).1, z.split(2, k as int).1), replicated(x.split(0, k as int).2, y.split(1, k as int).2, z.split(2, k as int).2),
        r == (x.a + y.a + z.a) as int % (pow2(k) as int)
{
    let a = x.a; let b = y.a; let c = z.a;
    assert(a ^ 0 ^ 0 == a) by (bit_vector); assert(0u128 ^ b ^ 0 == b) by (bit_vector); assert(0u128 ^ 0 ^ c == c) by (bit_vector);
    word_val(w1, k); word_val(w2, k); word_val(w3, k); word_val(r, k);
}
/// Swift3: value = c - a1 - a2 - a3, the parties hold (a1, a3, c), (a2, a1, c), (a3, a2, c); binary: the same with xor
pub open spec fn masked(x: MaskShare, y: MaskShare, z: MaskShare) -> bool { x.b == z.a && y.b == x.a && z.b == y.a && x.c == y.c && y.c == z.c }
pub open spec fn opened(x: MaskShare, y: MaskShare, z: MaskShare) -> u128 { x.c ^ x.a ^ y.a ^ z.a }
proof fn converted_masked(x: MaskShare, y: MaskShare, z: MaskShare, k: nat, w1: u128, w2: u128, w3: u128, r: u128)
    requires 2 <= k <= 128, masked(x, y, z), x.a < pow2(k), y.a < pow2(k), z.a < pow2(k), x.c < pow2(k), r < pow2(k),
        w1 == opened(x.split(0, k as int).0, y.split(1, k as int).0, z.split(2, k as int).0), w2 == opened(x.split(0, k as int).1, y.split(1, k as int).1, z.split(2, k as int).1), w3 == opened(x.split(0, k as int).2, y.split(1, k as int).2, z.split(2, k as int).2),
        total(r, w1, w2, w3, k as int)
    ensures masked(x.split(0, k as int).0, y.split(1, k as int).0, z.split(2, k as int).0), masked(x.split(0, k as int).1, y.split(1, k as int).1, z.split(2, k as int).1), masked(x.split(0, k as int).2, y.split(1, k as int).2, z.split(2, k as int).2),
        r == (x.c - x.a - y.a - z.a) % (pow2(k) as int)
{
    let p = pow2(k) as int; lemma_pow2_pos(k); pow2_128(k);
    let a = subw(x.c, x.a, k as int); let b = subw(0, y.a, k as int); let c = subw(0, z.a, k as int);
    lemma_mod_bound(x.c - x.a, p); lemma_mod_bound(0 - y.a, p); lemma_mod_bound(0 - z.a, p);
    assert(0u128 ^ a ^ 0 ^ 0 == a) by (bit_vector); assert(0u128 ^ 0 ^ b ^ 0 == b) by (bit_vector); assert(0u128 ^ 0 ^ 0 ^ c == c) by (bit_vector);
    word_val(w1, k); word_val(w2, k); word_val(w3, k); word_val(r, k);
    lemma_add_mod_noop(x.c - x.a, 0 - y.a, p); lemma_add_mod_noop(x.c - x.a - y.a, 0 - z.a, p); lemma_add_mod_noop(a + b, c as int, p); lemma_mod_twice(0 - z.a, p);
}
proof fn pow2_128(k: nat) requires k <= 128 ensures pow2(k) <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{ lemma2_to64(); lemma_pow2_adds(64, 64); if k < 128 { lemma_pow2_strictly_increases(k, 128); } }
fn main() {}
}
