// C05: the comparison bit of the packed engines (Aby3, SpdzWise), for all batch sizes, all widths and all values.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
// A ring element of width K is read as its word below 2^K (the operators: C10).
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;
pub enum Error { InvalidSizeError, Network, Other }

//@ include words.inc
// ---------------------------------------------------------------- shares of one party: two components
#[derive(Clone, Copy)]
pub struct Sh { pub a: u128, pub b: u128 }
impl Sh {
    pub open spec fn part(self, j: bool) -> u128 { if j { self.a } else { self.b } }
    pub fn zero() -> (r: Sh) ensures r.a == 0, r.b == 0 { Sh { a: 0, b: 0 } }
}
#[verifier::external_body] pub fn repeat(x: Sh, n: usize) -> (r: Vec<Sh>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
/// v.chunks(n)[c], copied
#[verifier::external_body] pub fn chunk(v: &Vec<Sh>, n: usize, c: usize) -> (r: Vec<Sh>) requires n > 0, c * n < v@.len() ensures r@.len() == (if v@.len() - c * n < n { v@.len() - c * n } else { n as int }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[c * n + i] { unimplemented!() }
#[verifier::external_body] pub fn chunk_count(v: &Vec<Sh>, n: usize) -> (r: usize) requires n > 0 ensures (r - 1) * n < v@.len() <= r * n { unimplemented!() }
#[verifier::external_body] pub fn empty_lists(n: usize) -> (r: Vec<Vec<Sh>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn push_at(v: &mut Vec<Vec<Sh>>, i: usize, x: Sh) requires i < old(v)@.len() ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.push(x), forall|k: int| 0 <= k < old(v)@.len() && k != i ==> #[trigger] final(v)@[k] == old(v)@[k] { unimplemented!() }

pub open spec fn fbit(x: Seq<Sh>, j: bool, l: int, k: int) -> bool { 0 <= l < x.len() && bit(x[l].part(j), k) }
/// register k of one word per input bit: lane l is bit k of input l, the rest is zero
pub open spec fn transposed(r: Seq<Sh>, x: Seq<Sh>, kk: int) -> bool { r.len() == kk && forall|j: bool, k: int, l: int| 0 <= k < kk && 0 <= l < 128 ==> #[trigger] bit(r[k].part(j), l) == fbit(x, j, l, k) }
//@ extract iris-mpc/src/aby3/utils.rs fn transpose_shared_input
//@ re "^.*?\bfn transpose_shared_input\b[^{]*\{" => "pub fn transpose_shared_input(inputs: Vec<Sh>, kk: usize) -> (r: Vec<Sh>) requires 1 <= kk <= 128, inputs@.len() <= 128 ensures transposed(r@, inputs@, kk as int) {"
//@ all "debug_assert!\(len <= U::Share::K\);" => ""
//@ re "vec!\[Aby3Share::zero\(\); T::Share::K\]" => "repeat(Sh::zero(), kk); proof { assert forall|l: int| !#[trigger] bit(0, l) by { bit_zero(l); } }"
//@ re "for \((\w+), mut (\w+)\) in inputs\.into_iter\(\)\.enumerate\(\) \{" => "for \1 in 0..inputs.len() invariant inputs@.len() <= 128, 1 <= kk <= 128, state@.len() == kk, forall|j: bool, k: int, l: int| 0 <= k < kk && 0 <= l < 128 ==> #[trigger] bit(state@[k].part(j), l) == (l < \1 && fbit(inputs@, j, l, k)) { let mut \2 = inputs[\1]; let ghost st = state@; proof { shr0(\2.a); shr0(\2.b); }"
//@ re "for (\w+) in state\.iter_mut\(\) \{(.*?)s\.b \|= (.*?);\s*\}" => "let n_ = state.len(); for kx in 0..n_ invariant n_ == kk, inputs@.len() <= 128, i < inputs@.len(), 1 <= kk <= 128, state@.len() == kk, st.len() == kk, kx < kk ==> inp.a == inputs@[i as int].a >> (kx as u128) && inp.b == inputs@[i as int].b >> (kx as u128), forall|k: int| kx <= k < kk ==> #[trigger] state@[k] == st[k], forall|j: bool, k: int, l: int| 0 <= k < kk && 0 <= l < 128 ==> #[trigger] bit(st[k].part(j), l) == (l < i && fbit(inputs@, j, l, k)), forall|j: bool, k: int, l: int| 0 <= k < kx && 0 <= l < 128 ==> #[trigger] bit(state@[k].part(j), l) == (l <= i && fbit(inputs@, j, l, k)) { let ghost was = state@; let mut \1 = state[kx]; \2s.b |= \3; state.set(kx, \1); proof { if kx + 1 < kk { bit_shift(inputs@[i as int].a, kx as int); bit_shift(inputs@[i as int].b, kx as int); } let ghost pa = bit(inputs@[i as int].a, kx as int); let ghost pb = bit(inputs@[i as int].b, kx as int); assert forall|j: bool, k: int, l: int| 0 <= k < kx + 1 && 0 <= l < 128 implies #[trigger] bit(state@[k].part(j), l) == (l <= i && fbit(inputs@, j, l, k)) by { if k == kx { bit_set(st[k].a, pa, i as int, l); bit_set(st[k].b, pb, i as int, l); assert(bit(st[k].part(j), l) == (l < i && fbit(inputs@, j, l, k))); } else { assert(state@[k] == was[k]); assert(bit(was[k].part(j), l) == (l <= i && fbit(inputs@, j, l, k))); } } } }"
//@ all "inp\.([ab])\.to_owned\(\) & T::Share::one\(\) == T::Share::one\(\)" => "(inp.\1 & 1u128) == 1u128"
//@ all "inp\.([ab]) >>= 1;" => "inp.\1 = inp.\1 >> 1u128;"
//@ all "s\.([ab]) \|= U::Share::from\((\w+)\) << i as u32;" => "s.\1 = s.\1 | ((if \2 { 1u128 } else { 0u128 }) << (i as u128));"
//@ end
proof fn shr0(w: u128) ensures w >> 0u128 == w { assert(w >> 0u128 == w) by (bit_vector); }
pub open spec fn regs(n: int) -> int { (n + 127) / 128 }
pub open spec fn slice(x: Seq<Sh>, c: int) -> Seq<Sh> { x.subrange(128 * c, if x.len() - 128 * c < 128 { x.len() as int } else { 128 * c + 128 }) }
/// list k: register m, lane l is bit k of input 128 m + l, the rest is zero
pub open spec fn packed(r: Seq<Vec<Sh>>, x: Seq<Sh>, kk: int) -> bool {
    r.len() == kk && (forall|k: int| 0 <= k < kk ==> (#[trigger] r[k])@.len() == regs(x.len() as int))
    && forall|j: bool, k: int, m: int, l: int| 0 <= k < kk && 0 <= m < regs(x.len() as int) && 0 <= l < 128 ==> #[trigger] bit(r[k]@[m].part(j), l) == fbit(x, j, 128 * m + l, k)
}
//@ extract iris-mpc/src/aby3/utils.rs fn transpose_pack_u128
//@ re "^.*?\bfn transpose_pack_u128\b[^{]*\{" => "pub fn transpose_pack_u128(x: Vec<Sh>, kk: usize) -> (r: Vec<Vec<Sh>>) requires 1 <= kk <= 128, x@.len() < 0x1_0000_0000_0000 ensures packed(r@, x@, kk as int) { let ghost xs = x@;"
//@ re "vec!\[Vec::with_capacity\((\w+)\); T::Share::K\]" => "empty_lists(kk)"
//@ re "for (\w+) in (\w+)\.chunks\((\w+)\) \{" => "let n_ = chunk_count(&\2, \3); for c_ in 0..n_ invariant 1 <= kk <= 128, x@ == xs, (n_ - 1) * \3 < xs.len() <= n_ * \3, res@.len() == kk, forall|k: int| 0 <= k < kk ==> (#[trigger] res@[k])@.len() == c_, forall|j: bool, k: int, m: int, l: int| 0 <= k < kk && 0 <= m < c_ && 0 <= l < 128 ==> #[trigger] bit(res@[k]@[m].part(j), l) == fbit(xs, j, 128 * m + l, k) { let ghost out = res@; let \1 = chunk(&\2, \3, c_); let ghost sl = \1@;"
//@ re "transpose_shared_input::<T, u128>\(x\)" => "transpose_shared_input(x, kk)"
//@ re "for \((\w+), (\w+)\) in x\.into_iter\(\)\.zip\((\w+)\.iter_mut\(\)\) \{\s*des\.push\(src\);" => "let ghost tr = x@; for k_ in 0..x.len() invariant x@ == tr, tr.len() == kk, res@.len() == kk, out.len() == kk, forall|k: int| 0 <= k < kk ==> (#[trigger] out[k])@.len() == c_, forall|k: int| 0 <= k < k_ ==> (#[trigger] res@[k])@ == out[k]@.push(tr[k]), forall|k: int| k_ <= k < kk ==> #[trigger] res@[k] == out[k] { let \1 = x[k_]; push_at(&mut \3, k_, \1);"
//@ re "\}\s*\}\s*res\s*\}\s*$" => "} proof { assert forall|j: bool, k: int, m: int, l: int| 0 <= k < kk && 0 <= m < c_ + 1 && 0 <= l < 128 implies #[trigger] bit(res@[k]@[m].part(j), l) == fbit(xs, j, 128 * m + l, k) by { assert(res@[k]@ == out[k]@.push(tr[k])); if m == c_ { assert(bit(tr[k].part(j), l) == fbit(sl, j, l, k)); if l < sl.len() { assert(sl[l] == xs[c_ * 128 + l]); } } else { assert(bit(out[k]@[m].part(j), l) == fbit(xs, j, 128 * m + l, k)); } } } } proof { assert(n_ == regs(xs.len() as int)); } res }"
//@ end

// ---------------------------------------------------------------- the circuit on the opened values
/// a register shared by xor, standing for the word it opens to; the local operations act on it as on the word (C02)
pub struct Reg { pub v: Ghost<u128> }
impl Reg { pub open spec fn w(self) -> u128 { self.v@ } }
impl Clone for Reg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct BitShare { pub v: Ghost<bool> }
pub type Row = Vec<Reg>;
pub open spec fn rect(x: Seq<Row>, k: int, n: int) -> bool { x.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] x[i])@.len() == n }
/// bit k of the word in lane l of register m
pub open spec fn lane(x: Seq<Row>, k: int, m: int, l: int) -> bool { bit(x[k]@[m].w(), l) }
pub open spec fn wbit(x: Seq<Reg>, j: int, k: int) -> bool { 0 <= j < x.len() && bit(x[j].w(), k) }
/// `packed`, for what the shares open to (lemma `opened_packed`)
pub open spec fn packed_open(r: Seq<Row>, x: Seq<Reg>, kk: int) -> bool {
    rect(r, kk, regs(x.len() as int)) && forall|k: int, m: int, l: int| 0 <= k < kk && 0 <= m < regs(x.len() as int) && 0 <= l < 128 ==> #[trigger] lane(r, k, m, l) == wbit(x, 128 * m + l, k)
}
/// three parties: if their components open to x, the packed components open to the packed x, and each party's second
/// component is its predecessor's first
proof fn opened_packed(x: Seq<Sh>, y: Seq<Sh>, z: Seq<Sh>, w: Seq<Reg>, rx: Seq<Vec<Sh>>, ry: Seq<Vec<Sh>>, rz: Seq<Vec<Sh>>, kk: int, k: int, m: int, l: int)
    requires 1 <= kk <= 128, x.len() == w.len(), y.len() == w.len(), z.len() == w.len(), packed(rx, x, kk), packed(ry, y, kk), packed(rz, z, kk),
        forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).w() == x[i].a ^ y[i].a ^ z[i].a, forall|i: int| 0 <= i < w.len() ==> (#[trigger] y[i]).b == x[i].a,
        0 <= k < kk, 0 <= m < regs(w.len() as int), 0 <= l < 128
    ensures bit(rx[k]@[m].a ^ ry[k]@[m].a ^ rz[k]@[m].a, l) == wbit(w, 128 * m + l, k), bit(ry[k]@[m].b, l) == bit(rx[k]@[m].a, l)
{
    let a = rx[k]@[m]; let b = ry[k]@[m]; let c = rz[k]@[m]; let j = 128 * m + l;
    bit_xor(a.a ^ b.a, c.a, l); bit_xor(a.a, b.a, l);
    assert(bit(a.part(true), l) == fbit(x, true, j, k)); assert(bit(b.part(true), l) == fbit(y, true, j, k)); assert(bit(c.part(true), l) == fbit(z, true, j, k)); assert(bit(b.part(false), l) == fbit(y, false, j, k));
    if j < w.len() { assert(w[j].w() == x[j].a ^ y[j].a ^ z[j].a); bit_xor(x[j].a ^ y[j].a, z[j].a, k); bit_xor(x[j].a, y[j].a, k); assert(y[j].b == x[j].a); }
}
#[verifier::external_body] pub fn copy_row(v: &Row) -> (r: Row) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn xor(a: &Reg, b: &Reg) -> (r: Reg) ensures r.w() == a.w() ^ b.w() { unimplemented!() }
#[verifier::external_body] pub fn set_at(v: &mut Vec<Row>, i: usize, x: Row) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
/// VecShareTrait::xor_many (C02; the sizes: C19)
#[verifier::external_body] pub fn xor_many(a: Row, b: Row) -> (r: Result<Row, Error>) ensures a@.len() == b@.len() ==> r is Ok, r is Ok ==> r->Ok_0@.len() == a@.len() && forall|m: int| 0 <= m < a@.len() ==> (#[trigger] r->Ok_0@[m]).w() == a@[m].w() ^ b@[m].w() { unimplemented!() }
/// into_iter().flatten().collect_vec() of lists of the same length
#[verifier::external_body] pub fn flatten(x: Vec<Row>, Ghost(n): Ghost<int>) -> (r: Row) requires rect(x@, x@.len() as int, n) ensures r@.len() == x@.len() * n, forall|k: int, m: int| 0 <= k < x@.len() && 0 <= m < n ==> #[trigger] x@[k]@[m] == r@[k * n + m] { unimplemented!() }
/// chunks(n) of a list whose length is a multiple of n, copied
#[verifier::external_body] pub fn rows_of(x: Row, n: usize, Ghost(k): Ghost<int>) -> (r: Vec<Row>) requires n > 0, x@.len() == k * n ensures rect(r@, k, n as int), forall|i: int, m: int| 0 <= i < k && 0 <= m < n ==> #[trigger] r@[i]@[m] == x@[i * n + m] { unimplemented!() }
/// flat_map(|t| t.to_bits()): the bits of each register in order
#[verifier::external_body] pub fn flat_bits(x: Row) -> (r: Vec<BitShare>) ensures r@.len() == 128 * x@.len(), forall|m: int, l: int| 0 <= m < x@.len() && 0 <= l < 128 ==> (#[trigger] r@[128 * m + l]).v@ == #[trigger] bit(x@[m].w(), l) { unimplemented!() }
#[verifier::external_body] pub fn resize(v: &mut Vec<BitShare>, n: usize) ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i] { unimplemented!() }
/// the packed transposition on what the shares open to: `transpose_pack_u128` above and lemma `opened_packed`
#[verifier::external_body] pub fn transpose_pack_open(x: Row, kk: usize) -> (r: Vec<Row>) requires 1 <= kk <= 128 ensures packed_open(r@, x@, kk as int) { unimplemented!() }
pub open spec fn zip_n(a: int, i: int, b: int, j: int) -> int { let p = if a > i { a - i } else { 0 }; let q = if b > j { b - j } else { 0 }; if p < q { p } else { q } }
pub fn zip_len(a: usize, i: usize, b: usize, j: usize) -> (r: usize) ensures r == zip_n(a as int, i as int, b as int, j as int) { let p = if a > i { a - i } else { 0 }; let q = if b > j { b - j } else { 0 }; if p < q { p } else { q } }

pub open spec fn xored(r: Seq<Row>, x: Seq<Row>, y: Seq<Row>) -> bool { forall|k: int, m: int| 0 <= k < r.len() && 0 <= m < r[k]@.len() ==> (#[trigger] r[k]@[m]).w() == x[k]@[m].w() ^ y[k]@[m].w() }
//@ extract iris-mpc/src/aby3/utils.rs fn transposed_pack_xor
//@ re "^.*?\bfn transposed_pack_xor\b[^{]*\{" => "pub fn transposed_pack_xor(x1: &Vec<Row>, x2: &Vec<Row>, Ghost(n): Ghost<int>) -> (r: Vec<Row>) requires rect(x1@, x2@.len() as int, n), rect(x2@, x2@.len() as int, n) ensures rect(r@, x1@.len() as int, n), xored(r@, x1@, x2@) { let ghost y1 = x1@; let ghost y2 = x2@;"
//@ all "debug_assert_eq!\((\w+), ([^;]*)\);" => "assert!(\1 == \2);"
//@ all "debug_assert_eq!\((\w+)\.len\(\), ([^;]*)\);" => "assert!(\1.len() == \2);"
//@ re "for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\) \{" => "for k_ in 0..\3.len() invariant \3@ == y1, \4@ == y2, rect(y1, y2.len() as int, n), rect(y2, y2.len() as int, n), rect(res@, k_ as int, n), xored(res@, y1, y2) { let \1 = &\3[k_]; let \2 = &\4[k_]; let ghost r1 = \1@; let ghost r2 = \2@; assert(r1 == y1[k_ as int]@ && r2 == y2[k_ as int]@);"
//@ all "let mut v = Vec::with_capacity" => "let mut v: Row = Vec::with_capacity"
//@ all "let mut res = Vec::with_capacity" => "let mut res: Vec<Row> = Vec::with_capacity"
//@ re "for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.cloned\(\)\.zip\((\w+)\.iter\(\)\) \{\s*(\w+)\.push\(x1 \^ x2\);" => "for m_ in 0..\3.len() invariant \3@ == r1, \4@ == r2, r1.len() == n, r2.len() == n, \5@.len() == m_, forall|m: int| 0 <= m < m_ ==> (#[trigger] \5@[m]).w() == r1[m].w() ^ r2[m].w() { let \1 = &\3[m_]; let \2 = &\4[m_]; \5.push(xor(x1, x2));"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn transposed_pack_xor_assign
//@ re "^.*?\bfn transposed_pack_xor_assign\b[^{]*\{" => "pub fn transposed_pack_xor_assign(x1: &mut Vec<Row>, x2: &Vec<Row>, Ghost(n): Ghost<int>) requires rect(old(x1)@, x2@.len() as int, n), rect(x2@, x2@.len() as int, n) ensures rect(final(x1)@, x2@.len() as int, n), xored(final(x1)@, old(x1)@, x2@) { let ghost y1 = x1@; let ghost y2 = x2@;"
//@ all "debug_assert_eq!\((\w+), ([^;]*)\);" => "assert!(\1 == \2);"
//@ all "debug_assert_eq!\((\w+)\.len\(\), ([^;]*)\);" => "assert!(\1.len() == \2);"
//@ re "for \(x1, x2\) in x1\.iter_mut\(\)\.zip\(x2\.iter\(\)\) \{(.*?)for \(x1, x2\) in x1\.iter_mut\(\)\.zip\(x2\.iter\(\)\) \{\s*\*x1 \^= x2;\s*\}\s*\}" => "for k_ in 0..len invariant len == y2.len(), x2@ == y2, rect(y1, y2.len() as int, n), rect(y2, y2.len() as int, n), rect(x1@, y2.len() as int, n), forall|k: int, m: int| 0 <= k < k_ && 0 <= m < n ==> (#[trigger] x1@[k]@[m]).w() == y1[k]@[m].w() ^ y2[k]@[m].w(), forall|k: int| k_ <= k < len ==> #[trigger] x1@[k] == y1[k] { let x1_ = copy_row(&x1[k_]); let x2_ = copy_row(&x2[k_]); { let mut x1 = x1_; let x2 = x2_; assert(x1@ == y1[k_ as int]@ && x2@ == y2[k_ as int]@); \1 let ghost r1 = x1@; let ghost r2 = x2@; let w_ = x1.len(); for m_ in 0..w_ invariant w_ == n, x1@.len() == n, x2@.len() == n, r1.len() == n, x2@ == r2, forall|m: int| 0 <= m < m_ ==> (#[trigger] x1@[m]).w() == r1[m].w() ^ r2[m].w(), forall|m: int| m_ <= m < n ==> #[trigger] x1@[m] == r1[m] { let y = xor(&x1[m_], &x2[m_]); x1.set(m_, y); } x1__ = x1; } set_at(x1, k_, x1__); }"
//@ re "let len = x1\.len\(\);" => "let len = x1.len(); let mut x1__: Row = Vec::new();"
//@ end

/// the sum of bit j
pub open spec fn sj(x1: Seq<Reg>, x2: Seq<Reg>, x3: Seq<Reg>, j: int) -> spec_fn(int) -> bool { fs(bits_of(x1[j].w()), bits_of(x2[j].w()), bits_of(x3[j].w())) }
pub open spec fn cj(x1: Seq<Reg>, x2: Seq<Reg>, x3: Seq<Reg>, j: int) -> spec_fn(int) -> bool { fc(bits_of(x1[j].w()), bits_of(x2[j].w()), bits_of(x3[j].w())) }
proof fn split_index(j: int) requires 0 <= j ensures j == 128 * (j / 128) + j % 128, 0 <= j % 128 < 128 {}
//@ each E file | Aby3 aby3 | SpdzWise spdzwise
pub struct $E { pub x: u64 }
impl $E {
    /// the AND protocol of the engine (C04): an error, or the conjunctions
    #[verifier::external_body] pub fn and_many(&mut self, a: &Row, b: &Row) -> (r: Result<Row, Error>) requires a@.len() == b@.len() ensures r is Ok ==> r->Ok_0@.len() == a@.len() && forall|m: int| 0 <= m < a@.len() ==> (#[trigger] r->Ok_0@[m]).w() == a@[m].w() & b@[m].w() { unimplemented!() }
//@ extract iris-mpc/src/$file/protocol.rs fn transposed_pack_and
//@ re "^.*?\bfn transposed_pack_and\b[^{]*\{" => "pub fn transposed_pack_and(&mut self, x1: Vec<Row>, x2: Vec<Row>, Ghost(n): Ghost<int>) -> (r: Result<Vec<Row>, Error>) requires x1@.len() > 0, n > 0, rect(x1@, x1@.len() as int, n), rect(x2@, x1@.len() as int, n) ensures r is Ok ==> rect(r->Ok_0@, x1@.len() as int, n) && forall|k: int, m: int| 0 <= k < x1@.len() && 0 <= m < n ==> (#[trigger] r->Ok_0@[k]@[m]).w() == x1@[k]@[m].w() & x2@[k]@[m].w() { let ghost y1 = x1@; let ghost y2 = x2@;"
//@ all "debug_assert_eq!\((\w+), ([^;]*)\);" => "assert!(\1 == \2);"
//@ all "<Self as BinaryMpcTrait<u128, [^(]*>>::and_many\(\s*self," => "self.and_many("
//@ all "(\w+)\.into_iter\(\)\.flatten\(\)\.collect_vec\(\)" => "flatten(\1, Ghost(n))"
//@ all "\s*\.await" => ""
//@ re "(\w+)\.chunks\((\w+)\)(\.map\(\|x\| x\.to_owned\(\)\)\.collect_vec\(\))?\)\s*\}\s*$" => "{ let out = rows_of(\1, \2, Ghost(y1.len() as int)); proof { assert forall|k: int, m: int| 0 <= k < y1.len() && 0 <= m < n implies (#[trigger] out@[k]@[m]).w() == y1[k]@[m].w() & y2[k]@[m].w() by { inside(k, m, y1.len() as int, n); assert(out@[k]@[m] == x3@[k * n + m]); assert(y1[k]@[m] == y1[k]@[m]); assert(y2[k]@[m] == y2[k]@[m]); } } out }) }"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn msb_adder_many
//@ re "^.*?\bfn msb_adder_many\b[^{]*\{" => "pub fn msb_adder_many(&mut self, x1: Row, x2: Row, x3: Row, kk: usize) -> (r: Result<Vec<BitShare>, Error>) requires 4 <= kk <= 128, 0 < x1@.len() < 0x1_0000_0000_0000 ensures x1@.len() != x2@.len() || x1@.len() != x3@.len() ==> r is Err, r is Ok ==> r->Ok_0@.len() == x1@.len() && forall|j: int| 0 <= j < x1@.len() ==> (#[trigger] r->Ok_0@[j]).v@ == top(sj(x1@, x2@, x3@, j), cj(x1@, x2@, x3@, j), kk - 1) { let ghost y1 = x1@; let ghost y2 = x2@; let ghost y3 = x3@; let ghost n = regs(x1@.len() as int);"
//@ all "\s*\.await" => ""
//@ all "utils::transpose_pack_u128::<T>\((\w+)\)" => "transpose_pack_open(\1, kk)"
//@ all "utils::transposed_pack_xor\(([^;]*)\);" => "transposed_pack_xor(\1, Ghost(n));"
//@ all "utils::transposed_pack_xor_assign\(([^;]*)\);" => "transposed_pack_xor_assign(\1, Ghost(n));"
//@ all "self\.transposed_pack_and\(([^;]*)\)\?;" => "self.transposed_pack_and(\1, Ghost(n))?;"
//@ all "<Self as BinaryMpcTrait<u128, [A-Za-z0-9]*Share<u128>>>::and_many\(\s*self," => "self.and_many("
//@ all "<Self as BinaryMpcTrait<u128, [A-Za-z0-9]*Share<u128>>>::xor_many\(" => "xor_many("
//@ all "(\w+)\.pop\(\)\.expect\([^)]*\)" => "\1.pop().unwrap()"
//@ all "(\w+)\.to_owned\(\)" => "copy_row(&\1)"
//@ all "let res: Vec<[^=]*=\s*xor" => "let res = xor"
//@ re "let mut a = (\w+);\s*let mut b = (\w+);" => "let mut a = \1; let mut b = \2; let ghost ra = a@; let ghost rb = b@; proof { bits_all(); assert(rect(ra, kk as int, n)); assert(rect(rb, kk - 1, n)); assert forall|k: int, m: int, l: int| 0 <= k < kk && 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() implies #[trigger] lane(ra, k, m, l) == sj(y1, y2, y3, 128 * m + l)(k) by { assert(lane(t1, k, m, l) == wbit(y1, 128 * m + l, k)); assert(lane(t2, k, m, l) == wbit(y2, 128 * m + l, k)); assert(lane(t3, k, m, l) == wbit(y3, 128 * m + l, k)); assert(ra[k]@[m].w() == t1[k]@[m].w() ^ x23[k]@[m].w()); assert(x23[k]@[m].w() == t2[k]@[m].w() ^ t3[k]@[m].w()); } assert forall|k: int, m: int, l: int| 0 <= k < kk - 1 && 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() implies #[trigger] lane(rb, k, m, l) == cj(y1, y2, y3, 128 * m + l)(k) by { assert(lane(t1, k, m, l) == wbit(y1, 128 * m + l, k)); assert(lane(t2, k, m, l) == wbit(y2, 128 * m + l, k)); assert(lane(t3, k, m, l) == wbit(y3, 128 * m + l, k)); assert(rb[k]@[m].w() == cand[k]@[m].w() ^ t3[k]@[m].w()); assert(cand[k]@[m].w() == x13[k]@[m].w() & x23[k]@[m].w()); assert(x23[k]@[m].w() == t2[k]@[m].w() ^ t3[k]@[m].w()); assert(x13[k]@[m].w() == t1[k]@[m].w() ^ t3[k]@[m].w()); } }"
//@ re "(let mut x2x3 = [^;]*;)" => "let ghost t1 = x1@; let ghost t2 = x2@; let ghost t3 = x3@; \1 let ghost x23 = x2x3@;"
//@ re "(let mut x1x3 = [^;]*;)" => "\1 let ghost x13 = x1x3@;"
//@ re "(let mut c = self\.transposed_pack_and[^;]*;)" => "\1 let ghost cand = c@;"
//@ re "for \((\w+), (\w+)\) in (\w+)\.into_iter\(\)\.skip\((\d+)\)\.zip\((\w+)\.into_iter\(\)\.skip\((\d+)\)\) \{(.*?)\n        \}" => "proof { assert forall|m: int, l: int| 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() implies #[trigger] bit(c@[m].w(), l) == carry(sj(y1, y2, y3, 128 * m + l), cj(y1, y2, y3, 128 * m + l), 2) by { assert(lane(ra, 1, m, l) == sj(y1, y2, y3, 128 * m + l)(1)); assert(lane(rb, 0, m, l) == cj(y1, y2, y3, 128 * m + l)(0)); } } let n_ = zip_len(\3.len(), \4, \5.len(), \6); for i_ in 0..n_ invariant 4 <= kk <= 128, rect(ra, kk as int, n), rect(rb, kk - 1, n), \3@ == ra.drop_last(), \5@ == rb.drop_last(), n_ == zip_n(\3@.len() as int, \4, \5@.len() as int, \6), c@.len() == n, forall|k: int, m: int, l: int| 0 <= k < kk && 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() ==> #[trigger] lane(ra, k, m, l) == sj(y1, y2, y3, 128 * m + l)(k), forall|k: int, m: int, l: int| 0 <= k < kk - 1 && 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() ==> #[trigger] lane(rb, k, m, l) == cj(y1, y2, y3, 128 * m + l)(k), forall|m: int, l: int| 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() ==> #[trigger] bit(c@[m].w(), l) == carry(sj(y1, y2, y3, 128 * m + l), cj(y1, y2, y3, 128 * m + l), i_ + 2), forall|x: u128, y: u128, l: int| #[trigger] bit(x ^ y, l) == (bit(x, l) != bit(y, l)), forall|x: u128, y: u128, l: int| #[trigger] bit(x & y, l) == (bit(x, l) && bit(y, l)) { let ghost c0 = c@; let \1 = copy_row(&\3[i_ + \4]); let \2 = copy_row(&\5[i_ + \6]); let ghost ga = \1@; let ghost gb = \2@; assert(ga == ra[i_ + 2]@); assert(gb == rb[i_ + 1]@); \7 proof { assert forall|m: int, l: int| 0 <= m < n && 0 <= l < 128 && 128 * m + l < y1.len() implies #[trigger] bit(c@[m].w(), l) == carry(sj(y1, y2, y3, 128 * m + l), cj(y1, y2, y3, 128 * m + l), i_ + 3) by { assert(lane(ra, i_ + 2, m, l) == sj(y1, y2, y3, 128 * m + l)(i_ + 2)); assert(lane(rb, i_ + 1, m, l) == cj(y1, y2, y3, 128 * m + l)(i_ + 1)); assert(bit(c0[m].w(), l) == carry(sj(y1, y2, y3, 128 * m + l), cj(y1, y2, y3, 128 * m + l), i_ + 2)); } } }"
//@ re "let mut res = res\s*\.into_iter\(\)\s*\.flat_map\(\|t\| t\.to_bits\(\)\)\s*\.collect::<Vec<_>>\(\);" => "let ghost rr = res@; let mut res = flat_bits(res);"
//@ re "res\.resize\(len, \w+::default\(\)\);" => "resize(&mut res, len); proof { assert forall|j: int| 0 <= j < y1.len() implies (#[trigger] res@[j]).v@ == top(sj(y1, y2, y3, j), cj(y1, y2, y3, j), kk - 1) by { split_index(j); let m = j / 128; let l = j % 128; assert(0 <= m < n); assert(bit(rr[m].w(), l) == res@[128 * m + l].v@); assert(lane(ra, kk - 1, m, l) == sj(y1, y2, y3, j)(kk - 1)); assert(lane(rb, kk - 2, m, l) == cj(y1, y2, y3, j)(kk - 2)); assert(bit(c9[m].w(), l) == carry(sj(y1, y2, y3, j), cj(y1, y2, y3, j), kk - 1)); } }"
//@ re "(let res = xor_many\(a_msb)" => "let ghost c9 = c@; \1"
//@ end
}
//@ done
proof fn inside(k: int, m: int, a: int, n: int) requires 0 <= k < a, 0 <= m < n ensures 0 <= k * n + m < a * n
{ assert(0 <= k * n + m < a * n) by (nonlinear_arith) requires 0 <= k < a, 0 <= m < n; }

// ---------------------------------------------------------------- from the additive sharing to the three words
pub open spec fn pre(id: usize, x: Sh) -> (Sh, Sh, Sh) {
    let z = Sh { a: 0, b: 0 };
    if id == 0 { (Sh { a: x.a, b: 0 }, z, Sh { a: 0, b: x.b }) } else if id == 1 { (Sh { a: 0, b: x.b }, Sh { a: x.a, b: 0 }, z) } else { (z, Sh { a: 0, b: x.b }, Sh { a: x.a, b: 0 }) }
}
pub struct Net { pub id: usize }
impl Net { pub fn get_id(&self) -> (r: usize) ensures r == self.id { self.id } }
pub struct Party { pub network: Net }
impl Party {
    /// msb_adder_many, called with the three parts of each share
    #[verifier::external_body] pub fn adder(&mut self, x1: Vec<Sh>, x2: Vec<Sh>, x3: Vec<Sh>, Ghost(a): Ghost<Seq<Sh>>) -> (r: Result<Vec<Sh>, Error>) requires handed(old(self).network.id, x1@, x2@, x3@, a) { unimplemented!() }
//@ extract iris-mpc/src/aby3/protocol.rs fn a2b_pre
//@ re "^.*?\bfn a2b_pre\b[^{]*\{" => "pub fn a2b_pre(&self, x: Sh) -> (r: (Sh, Sh, Sh)) requires self.network.id <= 2 ensures r == pre(self.network.id, x) {"
//@ all "Share::<T>::zero\(\)" => "Sh::zero()"
//@ re "x\.get_ab\(\)" => "(x.a, x.b)"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn get_msb_many
//@ re "^.*?\bfn get_msb_many\b[^{]*\{" => "pub fn get_msb_many(&mut self, a: Vec<Sh>) -> (r: Result<Vec<Sh>, Error>) requires old(self).network.id <= 2 { let ghost all = a@; let ghost id = self.network.id;"
//@ all "let mut (x[123]) = Vec::with_capacity" => "let mut \1: Vec<Sh> = Vec::with_capacity"
//@ re "for (\w+) in (\w+) \{" => "for k_ in 0..\2.len() invariant \2@ == all, self.network.id == id, id <= 2, x1@.len() == k_, x2@.len() == k_, x3@.len() == k_, forall|j: int| 0 <= j < k_ ==> #[trigger] x1@[j] == pre(id, all[j]).0, forall|j: int| 0 <= j < k_ ==> #[trigger] x2@[j] == pre(id, all[j]).1, forall|j: int| 0 <= j < k_ ==> #[trigger] x3@[j] == pre(id, all[j]).2 { let \1 = \2[k_];"
//@ re "self\.msb_adder_many\(([^)]*)\)\s*\.await" => "self.adder(\1, Ghost(all))"
//@ end
}
pub open spec fn handed(id: usize, x1: Seq<Sh>, x2: Seq<Sh>, x3: Seq<Sh>, a: Seq<Sh>) -> bool {
    x1.len() == a.len() && x2.len() == a.len() && x3.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> x1[j] == pre(id, #[trigger] a[j]).0 && x2[j] == pre(id, a[j]).1 && x3[j] == pre(id, a[j]).2
}
/// SpdzWise: the MACs of all values are checked before the values are used without them
#[derive(Clone, Copy)]
pub struct TSh { pub value: Sh, pub mac: Sh }
pub uninterp spec fn low_words(x: Sh, kk: int) -> Sh;
pub struct SpdzParty { pub aby3: Party, pub queue: Vec<TSh>, pub checked: Ghost<Set<TSh>> }
/// values without MACs, in the ring of k bits (from_verificationtype: C10)
#[verifier::external_body] pub fn values_of(a: Vec<TSh>, kk: usize) -> (r: Vec<Sh>) ensures r@.len() == a@.len(), forall|j: int| 0 <= j < a@.len() ==> #[trigger] r@[j] == low_words(a@[j].value, kk as int) { unimplemented!() }
impl SpdzParty {
    pub open spec fn all_checked(self, a: Seq<TSh>) -> bool { forall|j: int| 0 <= j < a.len() ==> self.checked@.contains(#[trigger] a[j]) }
    /// verify_macs: an error, or everything that was in the queue is checked and the queue is empty (C15)
    #[verifier::external_body] pub fn verify_macs(&mut self) -> (r: Result<(), Error>) ensures final(self).aby3 == old(self).aby3, r is Ok ==> forall|t: TSh| #[trigger] old(self).queue@.contains(t) ==> final(self).checked@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn adder(&mut self, x1: Vec<Sh>, x2: Vec<Sh>, x3: Vec<Sh>, Ghost(t): Ghost<Seq<TSh>>, Ghost(v): Ghost<Seq<Sh>>, kk: usize) -> (r: Result<Vec<Sh>, Error>) requires old(self).all_checked(t), v.len() == t.len(), forall|j: int| 0 <= j < t.len() ==> #[trigger] v[j] == low_words(t[j].value, kk as int), handed(old(self).aby3.network.id, x1@, x2@, x3@, v) { unimplemented!() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn get_msb_many
//@ re "^.*?\bfn get_msb_many\b[^{]*\{" => "pub fn get_msb_many(&mut self, a: Vec<TSh>, kk: usize) -> (r: Result<Vec<Sh>, Error>) requires old(self).aby3.network.id <= 2 { let ghost given = a@; let ghost id = self.aby3.network.id;"
//@ all "self\.verifyqueue\.reserve\([^;]*\);" => ""
//@ re "for (\w+) in (\w+)\.iter\(\)\.cloned\(\) \{\s*self\.verifyqueue\.push\(\w+\);" => "for k_ in 0..\2.len() invariant \2@ == given, self.aby3.network.id == id, id <= 2, forall|j: int| 0 <= j < k_ ==> self.queue@.contains(#[trigger] given[j]) { let \1 = \2[k_]; let ghost q0 = self.queue@; self.queue.push(\1); proof { assert(self.queue@.last() == given[k_ as int]); assert(forall|t: TSh| q0.contains(t) ==> #[trigger] self.queue@.contains(t)) by { assert forall|t: TSh| q0.contains(t) implies #[trigger] self.queue@.contains(t) by { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == t; assert(self.queue@[i] == t); } } }"
//@ re "self\.verify_macs\(\)\.await\?;" => "self.verify_macs()?;"
//@ re "let (\w+) = a\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| Aby3Share::<T>::from_verificationtype\(\w+\.get_value\(\)\)\)\s*\.collect::<Vec<_>>\(\);" => "let \1 = values_of(a, kk); let ghost all = \1@;"
//@ all "let mut (x[123]) = Vec::with_capacity" => "let mut \1: Vec<Sh> = Vec::with_capacity"
//@ re "for (\w+) in (values) \{" => "for k_ in 0..\2.len() invariant \2@ == all, self.aby3.network.id == id, id <= 2, self.all_checked(given), x1@.len() == k_, x2@.len() == k_, x3@.len() == k_, forall|j: int| 0 <= j < k_ ==> #[trigger] x1@[j] == pre(id, all[j]).0, forall|j: int| 0 <= j < k_ ==> #[trigger] x2@[j] == pre(id, all[j]).1, forall|j: int| 0 <= j < k_ ==> #[trigger] x3@[j] == pre(id, all[j]).2 { let \1 = \2[k_];"
//@ re "self\.msb_adder_many\(([^)]*)\)\s*\.await" => "self.adder(\1, Ghost(given), Ghost(all), kk)"
//@ end
}
/// replicated: each party's second component is its predecessor's first
pub open spec fn replicated(x: Sh, y: Sh, z: Sh) -> bool { x.b == z.a && y.b == x.a && z.b == y.a }
/// The property for one position: the three parties hold replicated shares of a value of k bits; the words the
/// adder receives are replicated, open (by xor) to the three additive parts, and the bit `msb_adder_many` returns is
/// the sign bit of the value.
proof fn comparison_bit(x: Sh, y: Sh, z: Sh, k: nat, w1: Reg, w2: Reg, w3: Reg)
    requires 4 <= k <= 128, replicated(x, y, z), x.a < pow2(k), y.a < pow2(k), z.a < pow2(k),
        w1.w() == pre(0, x).0.a ^ pre(1, y).0.a ^ pre(2, z).0.a, w2.w() == pre(0, x).1.a ^ pre(1, y).1.a ^ pre(2, z).1.a, w3.w() == pre(0, x).2.a ^ pre(1, y).2.a ^ pre(2, z).2.a
    ensures replicated(pre(0, x).0, pre(1, y).0, pre(2, z).0), replicated(pre(0, x).1, pre(1, y).1, pre(2, z).1), replicated(pre(0, x).2, pre(1, y).2, pre(2, z).2),
        b2i(top(sj(seq![w1], seq![w2], seq![w3], 0), cj(seq![w1], seq![w2], seq![w3], 0), k - 1)) == ((x.a + y.a + z.a) as int % (pow2(k) as int)) / (pow2((k - 1) as nat) as int)
{
    let a = x.a; let b = y.a; let c = z.a;
    assert(a ^ 0 ^ 0 == a) by (bit_vector); assert(0u128 ^ b ^ 0 == b) by (bit_vector); assert(0u128 ^ 0 ^ c == c) by (bit_vector);
    sign_word(w1.w(), w2.w(), w3.w(), k);
}

fn main() {}
}
