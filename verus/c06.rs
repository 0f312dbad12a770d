// C06: the OR-reduction, for all numbers of bits above zero and all chunk sizes above zero. Extraction directives are
// replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub enum Error { InvalidSizeError, Network, Other }
//@ include words.inc
//@ include lists.inc
// ---------------------------------------------------------------- the tree
/// the OR protocol for lists (C04)
pub trait Engine<V: VecShare>: Sized {
    fn or_many(&mut self, a: V, b: V) -> (r: Result<V, Error>) ensures a.at().len() != b.at().len() ==> r is Err, r is Ok ==> r->Ok_0.at().len() == a.at().len() && forall|i: int| 0 <= i < a.at().len() ==> (#[trigger] r->Ok_0.at()[i]).w() == a.at()[i].w() | b.at()[i].w();
}
/// bit l is set in one of the words
pub open spec fn any(x: Seq<Reg>, l: int) -> bool { exists|i: int| 0 <= i < x.len() && bit((#[trigger] x[i]).w(), l) }
proof fn bit_or(x: u128, y: u128, l: int) ensures bit(x | y, l) == (bit(x, l) || bit(y, l))
{ if 0 <= l < 128 { let b = l as u128; assert(((x | y) >> b) & 1 == 1 <==> (((x >> b) & 1 == 1) || ((y >> b) & 1 == 1))) by (bit_vector) requires b < 128; } }
/// one level: n pairs and possibly a word left over
proof fn halved(x: Seq<Reg>, y: Seq<Reg>, n: int, m: int)
    requires 0 <= n, 0 <= m <= 1, x.len() == 2 * n + m, y.len() == n + m, forall|i: int| 0 <= i < n ==> (#[trigger] y[i]).w() == x[i].w() | x[n + i].w(), m == 1 ==> y[n] == x[2 * n]
    ensures forall|l: int| any(y, l) == #[trigger] any(x, l)
{
    assert forall|l: int| any(y, l) == #[trigger] any(x, l) by {
        if any(y, l) {
            let i = choose|i: int| 0 <= i < y.len() && bit((#[trigger] y[i]).w(), l);
            if i < n { bit_or(x[i].w(), x[n + i].w(), l); if bit(x[i].w(), l) { assert(any(x, l)); } else { assert(bit(x[n + i].w(), l)); } } else { assert(bit(x[2 * n].w(), l)); }
        }
        if any(x, l) {
            let i = choose|i: int| 0 <= i < x.len() && bit((#[trigger] x[i]).w(), l);
            if i < n { bit_or(x[i].w(), x[n + i].w(), l); assert(bit(y[i].w(), l)); } else if i < 2 * n { let k = i - n; bit_or(x[k].w(), x[n + k].w(), l); assert(bit(y[k].w(), l)); } else { assert(bit(y[n].w(), l)); }
        }
    }
}
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
proof fn next_piece(c: int, size: int) ensures (c + 1) * size == c * size + size { assert((c + 1) * size == c * size + size) by (nonlinear_arith); }
proof fn halves(num: usize) ensures num & 1 == num % 2, num >> 1usize == num / 2 { assert(num & 1 == num % 2) by (bit_vector); assert(num >> 1usize == num / 2) by (bit_vector); }
pub fn lesser(a: usize, b: usize) -> (r: usize) ensures r == least(a as int, b as int) { if a < b { a } else { b } }
//@ extract iris-mpc/src/aby3/utils.rs fn or_tree
//@ re "^.*?\bfn or_tree\b[^{]*\{" => "pub fn or_tree<V: VecShare, E: Engine<V>>(engine: &mut E, inputs: V, chunk_size: usize) -> (r: Result<Reg, Error>) requires inputs.at().len() >= 1, chunk_size >= 1 ensures r is Ok ==> forall|l: int| #[trigger] bit(r->Ok_0.w(), l) == any(inputs.at(), l) { let mut inputs = inputs; let ghost all = inputs.at();"
//@ all "\s*\.await" => ""
//@ all "Share::VecShare::with_capacity" => "V::with_capacity"
//@ re "while num > (\w+) \{" => "while num > \1 invariant num == inputs.at().len(), num >= 1, chunk_size >= 1, forall|l: int| any(inputs.at(), l) == #[trigger] any(all, l) decreases num { let ghost was = inputs.at(); let ghost total = num as int; proof { halves(num); }"
//@ re "num >>= 1;" => "num = num >> 1usize;"
//@ re "for \((\w+), (\w+)\) in a_vec\s*\.chunks\(([^()]*)\)\s*\.into_iter\(\)\s*\.zip\(b_vec\.chunks\(([^()]*)\)\)\s*\{" => "let ghost av = a_vec.at(); let ghost bv = b_vec.at(); let sa_: usize = \3; let sb_: usize = \4; let ca = a_vec.chunks(sa_); let cb = b_vec.chunks(sb_); let n_ = lesser(ca.len(), cb.len()); assert(0 * chunk_size == 0) by (nonlinear_arith); for i_ in 0..n_ invariant chunk_size >= 1, n_ == least(ca@.len() as int, cb@.len() as int), av.len() == num, bv.len() == num, pieces(ca@.len() as int, num as int, sa_ as int), pieces(cb@.len() as int, num as int, sb_ as int), forall|c: int| 0 <= c < ca@.len() ==> (#[trigger] ca@[c]).at() == piece(av, c, sa_ as int), forall|c: int| 0 <= c < cb@.len() ==> (#[trigger] cb@[c]).at() == piece(bv, c, sb_ as int), sa_ == chunk_size, sb_ == chunk_size, res.at().len() == least(i_ * chunk_size, num as int), forall|i: int| 0 <= i < res.at().len() ==> (#[trigger] res.at()[i]).w() == av[i].w() | bv[i].w() { let \1 = ca[i_].to_owned(); let \2 = cb[i_].to_owned(); proof { inside_piece(i_ as int, ca@.len() as int, num as int, chunk_size as int); next_piece(i_ as int, chunk_size as int); }"
//@ re "inputs = res;" => "inputs = res; proof { same_pieces(ca@.len() as int, cb@.len() as int, num as int, chunk_size as int); halved(was, inputs.at(), num as int, mod_ as int); }"
//@ re "let (\w+) = inputs\.get_at\(([^;]*)\);" => "let \1 = inputs.get_at(\2); proof { assert forall|l: int| #[trigger] bit(\1.w(), l) == any(all, l) by { assert(any(inputs.at(), l) == any(all, l)); if bit(\1.w(), l) { assert(bit(inputs.at()[0].w(), l)); } } }"
//@ end
proof fn same_pieces(a: int, b: int, n: int, size: int) requires size >= 1, n >= 1, pieces(a, n, size), pieces(b, n, size) ensures a == b, a * size >= n
{
    if a < b { assert(a * size <= (b - 1) * size) by (nonlinear_arith) requires a <= b - 1, size >= 1; }
    if b < a { assert(b * size <= (a - 1) * size) by (nonlinear_arith) requires b <= a - 1, size >= 1; }
}
// ---------------------------------------------------------------- packing
/// a shared bit: this party's components and the bit it opens to
#[derive(Clone, Copy)]
pub struct BitSh { pub a: bool, pub b: bool, pub c: bool, pub v: Ghost<bool> }
impl BitSh {
    pub open spec fn part(self, j: int) -> bool { if j == 0 { self.a } else if j == 1 { self.b } else if j == 2 { self.c } else { self.v@ } }
    pub fn get_ab(self) -> (r: (bool, bool)) ensures r == (self.a, self.b) { (self.a, self.b) }
    pub fn get_abc(self) -> (r: (bool, bool, bool)) ensures r == (self.a, self.b, self.c) { (self.a, self.b, self.c) }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: BitSh) ensures r == *self { unimplemented!() }
}
pub open spec fn wpart(r: Reg, j: int) -> u128 { if j == 0 { r.a } else if j == 1 { r.b } else if j == 2 { r.c } else { r.w() } }
/// w holds the bits of part j of x, from the lowest position; the rest is zero
pub open spec fn laid(w: u128, x: Seq<BitSh>, j: int, n: int) -> bool { forall|l: int| 0 <= l < 128 ==> #[trigger] bit(w, l) == (l < n && x[l].part(j)) }
/// the value a word opens to whose components hold the components of the bits: it holds the bits (lemma `opened_laid`)
#[verifier::external_body] pub fn new2(a: u128, b: u128, Ghost(x): Ghost<Seq<BitSh>>) -> (r: Reg) requires x.len() <= 128, laid(a, x, 0, x.len() as int), laid(b, x, 1, x.len() as int) ensures r.a == a, r.b == b, laid(r.w(), x, 3, x.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn new3(a: u128, b: u128, c: u128, Ghost(x): Ghost<Seq<BitSh>>) -> (r: Reg) requires x.len() <= 128, laid(a, x, 0, x.len() as int), laid(b, x, 1, x.len() as int), laid(c, x, 2, x.len() as int) ensures r.a == a, r.b == b, r.c == c, laid(r.w(), x, 3, x.len() as int) { unimplemented!() }
proof fn opened_laid(x: u128, y: u128, z: u128, c: u128, sx: Seq<BitSh>, sy: Seq<BitSh>, sz: Seq<BitSh>, l: int)
    requires sx.len() == sy.len(), sx.len() == sz.len(), sx.len() <= 128, laid(x, sx, 0, sx.len() as int), laid(y, sy, 0, sx.len() as int), laid(z, sz, 0, sx.len() as int), laid(c, sx, 2, sx.len() as int), 0 <= l < 128,
    ensures bit(x ^ y ^ z, l) == (l < sx.len() && ((sx[l].a != sy[l].a) != sz[l].a)), bit(c ^ x ^ y ^ z, l) == (l < sx.len() && (((sx[l].c != sx[l].a) != sy[l].a) != sz[l].a))
{ bit_xor(x ^ y, z, l); bit_xor(x, y, l); bit_xor(c ^ x ^ y, z, l); bit_xor(c ^ x, y, l); bit_xor(c, x, l); }
pub open spec fn bpiece(x: Seq<BitSh>, c: int, size: int) -> Seq<BitSh> { x.subrange(c * size, if x.len() - c * size < size { x.len() as int } else { c * size + size }) }
#[verifier::external_body] pub fn bit_chunk_count(v: &Vec<BitSh>, size: usize) -> (r: usize) requires size > 0 ensures pieces(r as int, v@.len() as int, size as int) { unimplemented!() }
#[verifier::external_body] pub fn bit_chunk(v: &Vec<BitSh>, size: usize, c: usize) -> (r: Vec<BitSh>) requires size > 0, c * size < v@.len() ensures r@ == bpiece(v@, c as int, size as int) { unimplemented!() }
pub open spec fn packed(r: Seq<Reg>, x: Seq<BitSh>, kk: int) -> bool { pieces(r.len() as int, x.len() as int, kk) && forall|c: int| 0 <= c < r.len() ==> laid((#[trigger] r[c]).w(), bpiece(x, c, kk), 3, bpiece(x, c, kk).len() as int) }
proof fn add_bit(w: u128, x: Seq<BitSh>, j: int, i: int, p: bool) requires 0 <= i < 128, i < x.len(), laid(w, x, j, i), p == x[i].part(j) ensures laid(w | ((if p { 1u128 } else { 0u128 }) << (i as u128)), x, j, i + 1)
{ let w1 = w | ((if p { 1u128 } else { 0u128 }) << (i as u128)); assert forall|l: int| 0 <= l < 128 implies #[trigger] bit(w1, l) == (l < i + 1 && x[l].part(j)) by { bit_set(w, p, i, l); assert(bit(w, l) == (l < i && x[l].part(j))); } }
proof fn no_bits(x: Seq<BitSh>, j: int) ensures laid(0, x, j, 0) { assert forall|l: int| 0 <= l < 128 implies #[trigger] bit(0, l) == (l < 0 && x[l].part(j)) by { bit_zero(l); } }
//@ each file S M | aby3 Share AbyPack | spdzwise Aby3Share SpdzPack
pub struct $M {}
impl $M {
//@ extract iris-mpc/src/$file/protocol.rs fn pack
//@ re "^.*?\bfn pack\b[^{]*\{" => "pub fn pack(a: Vec<BitSh>, kk: usize) -> (r: Vec<Reg>) requires 1 <= kk <= 128, a@.len() < 0x1_0000_0000_0000 ensures packed(r@, a@, kk as int) {"
//@ all "T::Share::K" => "kk"
//@ all "Vec::with_capacity" => "Vec::<Reg>::with_capacity"
//@ re "for (\w+) in (\w+)\.chunks\(([^()]*)\) \{" => "let n_ = bit_chunk_count(&\2, \3); for c_ in 0..n_ invariant 1 <= kk <= 128, pieces(n_ as int, \2@.len() as int, \3 as int), out@.len() == c_, forall|c: int| 0 <= c < c_ ==> laid((#[trigger] out@[c]).w(), bpiece(\2@, c, kk as int), 3, bpiece(\2@, c, kk as int).len() as int) { proof { inside_piece(c_ as int, n_ as int, \2@.len() as int, \3 as int); } let \1 = bit_chunk(&\2, \3, c_); proof { no_bits(\1@, 0); no_bits(\1@, 1); }"
//@ all "T::Share::zero\(\)" => "0u128"
//@ re "for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{(.*?)\}" => "for \1 in 0..\3.len() invariant \3@.len() <= 128, laid(share_a, \3@, 0, \1 as int), laid(share_b, \3@, 1, \1 as int) { proof { add_bit(share_a, \3@, 0, \1 as int, \3@[\1 as int].a); add_bit(share_b, \3@, 1, \1 as int, \3@[\1 as int].b); } let \2 = \3[\1]; \4 }"
//@ all "(\w+) \|= T::Share::from\((\w+)\.convert\(\)\.convert\(\)\) << \(([^;]*) as u32\);" => "\1 = \1 | ((if \2 { 1u128 } else { 0u128 }) << ((\3) as u128));"
//@ re "\b$S::new\((\w+), (\w+)\)" => "new2(\1, \2, Ghost(a_@))"
//@ end
}
//@ done
pub struct SwiftPack {}
impl SwiftPack {
//@ extract iris-mpc/src/swift3/protocol.rs fn pack
//@ re "^.*?\bfn pack\b[^{]*\{" => "pub fn pack(a: Vec<BitSh>, kk: usize) -> (r: Vec<Reg>) requires 1 <= kk <= 128, a@.len() < 0x1_0000_0000_0000 ensures packed(r@, a@, kk as int) {"
//@ all "T::Share::K" => "kk"
//@ all "Vec::with_capacity" => "Vec::<Reg>::with_capacity"
//@ re "for (\w+) in (\w+)\.chunks\(([^()]*)\) \{" => "let n_ = bit_chunk_count(&\2, \3); for c_ in 0..n_ invariant 1 <= kk <= 128, pieces(n_ as int, \2@.len() as int, \3 as int), out@.len() == c_, forall|c: int| 0 <= c < c_ ==> laid((#[trigger] out@[c]).w(), bpiece(\2@, c, kk as int), 3, bpiece(\2@, c, kk as int).len() as int) { proof { inside_piece(c_ as int, n_ as int, \2@.len() as int, \3 as int); } let \1 = bit_chunk(&\2, \3, c_); proof { no_bits(\1@, 0); no_bits(\1@, 1); no_bits(\1@, 2); }"
//@ all "T::Share::zero\(\)" => "0u128"
//@ re "for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{(.*?)\}" => "for \1 in 0..\3.len() invariant \3@.len() <= 128, laid(share_a, \3@, 0, \1 as int), laid(share_b, \3@, 1, \1 as int), laid(share_c, \3@, 2, \1 as int) { proof { add_bit(share_a, \3@, 0, \1 as int, \3@[\1 as int].a); add_bit(share_b, \3@, 1, \1 as int, \3@[\1 as int].b); add_bit(share_c, \3@, 2, \1 as int, \3@[\1 as int].c); } let \2 = \3[\1]; \4 }"
//@ all "(\w+) \|= T::Share::from\((\w+)\.convert\(\)\.convert\(\)\) << \(([^;]*) as u32\);" => "\1 = \1 | ((if \2 { 1u128 } else { 0u128 }) << ((\3) as u128));"
//@ re "\bShare::new\((\w+), (\w+), (\w+)\)" => "new3(\1, \2, \3, Ghost(a_@))"
//@ end
}
// ---------------------------------------------------------------- folding a word
pub open spec fn lo(x: u128, k: int) -> u128 { if k == 64 { x & 0xffff_ffff_ffff_ffff } else if k == 32 { x & 0xffff_ffff } else if k == 16 { x & 0xffff } else { x & 0xff } }
pub open spec fn hi(x: u128, k: int) -> u128 { lo(x >> (k as u128), k) }
pub open spec fn half_width(k: int) -> bool { k == 64 || k == 32 || k == 16 || k == 8 }
proof fn fold(x: u128, k: int) requires half_width(k), below(x, 2 * k) ensures (lo(x, k) | hi(x, k) == 0) == (x == 0), below(lo(x, k) | hi(x, k), k), below(lo(x, k), k), below(hi(x, k), k), x >> (k as u128) == hi(x, k)
{
    if k == 64 { assert(((x & 0xffff_ffff_ffff_ffff) | ((x >> 64u128) & 0xffff_ffff_ffff_ffff) == 0) == (x == 0) && ((x & 0xffff_ffff_ffff_ffff) | ((x >> 64u128) & 0xffff_ffff_ffff_ffff)) >> 64u128 == 0 && (x & 0xffff_ffff_ffff_ffff) >> 64u128 == 0 && ((x >> 64u128) & 0xffff_ffff_ffff_ffff) >> 64u128 == 0 && x >> 64u128 == (x >> 64u128) & 0xffff_ffff_ffff_ffff) by (bit_vector); }
    else if k == 32 { assert(((x & 0xffff_ffff) | ((x >> 32u128) & 0xffff_ffff) == 0) == (x == 0) && ((x & 0xffff_ffff) | ((x >> 32u128) & 0xffff_ffff)) >> 32u128 == 0 && (x & 0xffff_ffff) >> 32u128 == 0 && ((x >> 32u128) & 0xffff_ffff) >> 32u128 == 0 && x >> 32u128 == (x >> 32u128) & 0xffff_ffff) by (bit_vector) requires x >> 64u128 == 0; }
    else if k == 16 { assert(((x & 0xffff) | ((x >> 16u128) & 0xffff) == 0) == (x == 0) && ((x & 0xffff) | ((x >> 16u128) & 0xffff)) >> 16u128 == 0 && (x & 0xffff) >> 16u128 == 0 && ((x >> 16u128) & 0xffff) >> 16u128 == 0 && x >> 16u128 == (x >> 16u128) & 0xffff) by (bit_vector) requires x >> 32u128 == 0; }
    else { assert(((x & 0xff) | ((x >> 8u128) & 0xff) == 0) == (x == 0) && ((x & 0xff) | ((x >> 8u128) & 0xff)) >> 8u128 == 0 && (x & 0xff) >> 8u128 == 0 && ((x >> 8u128) & 0xff) >> 8u128 == 0 && x >> 8u128 == (x >> 8u128) & 0xff) by (bit_vector) requires x >> 16u128 == 0; }
}
/// the halves of a sum (xor) are the sums of the halves
proof fn halves_xor(x: u128, y: u128, k: int) requires half_width(k) ensures lo(x ^ y, k) == lo(x, k) ^ lo(y, k), hi(x ^ y, k) == hi(x, k) ^ hi(y, k)
{
    let s = k as u128;
    assert((x ^ y) & 0xffff_ffff_ffff_ffff == (x & 0xffff_ffff_ffff_ffff) ^ (y & 0xffff_ffff_ffff_ffff) && ((x ^ y) >> s) & 0xffff_ffff_ffff_ffff == ((x >> s) & 0xffff_ffff_ffff_ffff) ^ ((y >> s) & 0xffff_ffff_ffff_ffff)) by (bit_vector) requires s < 128;
    assert((x ^ y) & 0xffff_ffff == (x & 0xffff_ffff) ^ (y & 0xffff_ffff) && ((x ^ y) >> s) & 0xffff_ffff == ((x >> s) & 0xffff_ffff) ^ ((y >> s) & 0xffff_ffff)) by (bit_vector) requires s < 128;
    assert((x ^ y) & 0xffff == (x & 0xffff) ^ (y & 0xffff) && ((x ^ y) >> s) & 0xffff == ((x >> s) & 0xffff) ^ ((y >> s) & 0xffff)) by (bit_vector) requires s < 128;
    assert((x ^ y) & 0xff == (x & 0xff) ^ (y & 0xff) && ((x ^ y) >> s) & 0xff == ((x >> s) & 0xff) ^ ((y >> s) & 0xff)) by (bit_vector) requires s < 128;
}
/// the low k bits
#[verifier::external_body] pub fn narrow(x: u128, k: usize) -> (r: u128) requires half_width(k as int) ensures r == lo(x, k as int) { unimplemented!() }
//@ extract iris-mpc/src/aby3/utils.rs fn split
//@ re "^.*?\bfn split\b[^{]*\{" => "pub fn split(a: u128, kt: usize, ku: usize) -> (r: (u128, u128)) requires half_width(ku as int), kt == 2 * ku ensures r.0 == lo(a, ku as int), r.1 == hi(a, ku as int) {"
//@ all "\bT::K\b" => "kt"
//@ all "\bU::K\b" => "ku"
//@ all "debug_assert_eq!\(([^,]*), ([^;]*)\);" => "assert!(\1 == \2);"
//@ all "\ba\.0\b" => "a"
//@ all "RingElement\(\((.*?)\)\.as_\(\)\);" => "narrow(\1, ku);"
//@ all ">> shift\b" => ">> (shift as u128)"
//@ end
/// shares of the halves of what x opens to (lemma `halves_xor`)
#[verifier::external_body] pub fn half2(a: u128, b: u128, Ghost(x): Ghost<Reg>, Ghost(k): Ghost<int>) -> (r: Reg) requires half_width(k) ensures a == lo(x.a, k) && b == lo(x.b, k) ==> r.w() == lo(x.w(), k), a == hi(x.a, k) && b == hi(x.b, k) ==> r.w() == hi(x.w(), k) { unimplemented!() }
#[verifier::external_body] pub fn half3(a: u128, b: u128, c: u128, Ghost(x): Ghost<Reg>, Ghost(k): Ghost<int>) -> (r: Reg) requires half_width(k) ensures a == lo(x.a, k) && b == lo(x.b, k) && c == lo(x.c, k) ==> r.w() == lo(x.w(), k), a == hi(x.a, k) && b == hi(x.b, k) && c == hi(x.c, k) ==> r.w() == hi(x.w(), k) { unimplemented!() }
/// shares of bit i of what x opens to (lemma `bit_xor`)
#[verifier::external_body] pub fn bit2(a: bool, b: bool, Ghost(x): Ghost<Reg>, i: u32) -> (r: BitSh) requires a == bit(x.a, i as int), b == bit(x.b, i as int) ensures r.v@ == bit(x.w(), i as int) { unimplemented!() }
#[verifier::external_body] pub fn bit3(a: bool, b: bool, c: bool, Ghost(x): Ghost<Reg>, i: u32) -> (r: BitSh) requires a == bit(x.a, i as int), b == bit(x.b, i as int), c == bit(x.c, i as int) ensures r.v@ == bit(x.w(), i as int) { unimplemented!() }
/// ((w >> i) & 1) == 1
pub fn has_bit(w: u128, i: u32) -> (r: bool) requires i < 128 ensures r == bit(w, i as int) { ((w >> (i as u128)) & 1) == 1 }
#[verifier::external_body] pub fn bits_part(v: &Vec<BitSh>, i: usize, j: usize) -> (r: Vec<BitSh>) requires i <= j <= v@.len() ensures r@ == v@.subrange(i as int, j as int) { unimplemented!() }
pub open spec fn any_bit(x: Seq<BitSh>) -> bool { exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).v@ }
pub open spec fn ored(r: Seq<BitSh>, a: Seq<BitSh>, b: Seq<BitSh>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] r[i]).v@ == (a[i].v@ || b[i].v@) }
proof fn halved_bits(x: Seq<BitSh>, y: Seq<BitSh>, n: int) requires 0 <= n, x.len() == 2 * n, ored(y, x.subrange(0, n), x.subrange(n, 2 * n)) ensures any_bit(y) == any_bit(x)
{
    if any_bit(y) { let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i]).v@; if x[i].v@ { } else { assert(x[n + i].v@); } }
    if any_bit(x) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).v@; if i < n { assert(y[i].v@); } else { assert(y[i - n].v@); } }
}
proof fn zero_word(w: u128) ensures (w == 0) == (forall|l: int| 0 <= l < 128 ==> !#[trigger] bit(w, l))
{ if w == 0 { assert forall|l: int| 0 <= l < 128 implies !#[trigger] bit(w, l) by { bit_zero(l); } } else if forall|l: int| 0 <= l < 128 ==> !#[trigger] bit(w, l) { assert forall|l: int| 0 <= l < 128 implies bit(w, l) == bit(0, l) by { bit_zero(l); } same_bits(w, 0); } }
proof fn byte_bits(w: u128, x: Seq<BitSh>) requires below(w, 8), x.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] x[i]).v@ == bit(w, i) ensures any_bit(x) == (w != 0)
{
    zero_word(w);
    if w != 0 {
        let l = choose|l: int| 0 <= l < 128 && #[trigger] bit(w, l);
        if l >= 8 { let s = l as u128; assert((w >> s) & 1 == 0) by (bit_vector) requires w >> 8u128 == 0, s >= 8, s < 128; }
        assert(x[l].v@);
    }
}
proof fn one_shift(k: usize) requires k == 8 || k == 4 || k == 2 ensures k >> 1usize == k / 2 { assert(k >> 1usize == k / 2) by (bit_vector); }
//@ each E file S L M | Aby3 aby3 Share Aby3List AbyPack | SpdzWise spdzwise Aby3Share Aby3List SpdzPack
pub struct $E { pub x: u64 }
impl Engine<$L> for $E { #[verifier::external_body] fn or_many(&mut self, a: $L, b: $L) -> (r: Result<$L, Error>) { unimplemented!() } }
impl $E {
    /// the OR protocol (C04)
    #[verifier::external_body] pub fn or(&mut self, a: Reg, b: Reg) -> (r: Result<Reg, Error>) ensures r is Ok ==> r->Ok_0.w() == a.w() | b.w() { unimplemented!() }
    #[verifier::external_body] pub fn or_bits(&mut self, a: Vec<BitSh>, b: Vec<BitSh>) -> (r: Result<Vec<BitSh>, Error>) ensures a@.len() != b@.len() ==> r is Err, r is Ok ==> ored(r->Ok_0@, a@, b@) { unimplemented!() }
    pub fn pack(&self, a: Vec<BitSh>, kk: usize) -> (r: $L) requires 1 <= kk <= 128, a@.len() < 0x1_0000_0000_0000 ensures packed(r.v@, a@, kk as int) { $L { v: $M::pack(a, kk) } }
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u128 via reduce_or
//@ re "^.*?\bfn reduce_or_u128\b[^{]*\{" => "pub fn reduce_or_u128(&mut self, a: Reg) -> (r: Result<BitSh, Error>) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 64int; proof { fold(a.w(), 64); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_ab\(\)" => "(a.a, a.b)"
//@ all "\b$S::new\((\w+), (\w+)\)" => "half2(\1, \2, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u64 via reduce_or
//@ re "^.*?\bfn reduce_or_u64\b[^{]*\{" => "pub fn reduce_or_u64(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 64) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 32int; proof { fold(a.w(), 32); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_ab\(\)" => "(a.a, a.b)"
//@ all "\b$S::new\((\w+), (\w+)\)" => "half2(\1, \2, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u32 via reduce_or
//@ re "^.*?\bfn reduce_or_u32\b[^{]*\{" => "pub fn reduce_or_u32(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 32) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 16int; proof { fold(a.w(), 16); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_ab\(\)" => "(a.a, a.b)"
//@ all "\b$S::new\((\w+), (\w+)\)" => "half2(\1, \2, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u16 via reduce_or
//@ re "^.*?\bfn reduce_or_u16\b[^{]*\{" => "pub fn reduce_or_u16(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 16) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 8int; proof { fold(a.w(), 8); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_ab\(\)" => "(a.a, a.b)"
//@ all "\b$S::new\((\w+), (\w+)\)" => "half2(\1, \2, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u8
//@ re "^.*?\bfn reduce_or_u8\b[^{]*\{" => "pub fn reduce_or_u8(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 8) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) {"
//@ all "\s*\.await" => ""
//@ all "const K: usize = (\d+);" => "let kk: usize = \1;"
//@ all "\bK\b" => "kk"
//@ re "let mut (\w+): Vec<$S<Bit>> = Vec::with_capacity\(\w+\);" => "let mut \1: Vec<BitSh> = Vec::new();"
//@ re "for (\w+) in 0\.\.([^{]*?) \{" => "for \1 in 0..\2 invariant kk == 8, decomp@.len() == \1, forall|j: int| 0 <= j < \1 ==> (#[trigger] decomp@[j]).v@ == bit(a.w(), j) {"
//@ all "\(\(a\.(\w)\.to_owned\(\) >> ([^;]*?)\) & RingElement\(1\)\) == RingElement\(1\)" => "has_bit(a.\1, \2)"
//@ re "$S::new\(\s*<Bit as Sharable>::Share::from\((\w+)\),\s*<Bit as Sharable>::Share::from\((\w+)\),?\s*\)" => "bit2(\1, \2, Ghost(a), i)"
//@ re "while k != 1 \{" => "proof { byte_bits(a.w(), decomp@); } while k != 1 invariant k == 8 || k == 4 || k == 2 || k == 1, decomp@.len() == k, any_bit(decomp@) == (a.w() != 0) decreases k { let ghost was = decomp@; proof { one_shift(k); }"
//@ re "k >>= 1;" => "k = k >> 1usize;"
//@ re "<Self as BinaryMpcTrait<Bit, $S<Bit>>>::or_many\(\s*self," => "self.or_bits("
//@ all "decomp\[\.\.(\w+)\]\.to_vec\(\)" => "bits_part(&decomp, 0, \1)"
//@ all "decomp\[(\w+)\.\.\]\.to_vec\(\)" => "bits_part(&decomp, \1, decomp.len())"
//@ re "\?;\s*\}" => "?; proof { halved_bits(was, decomp@, k as int); } }"
//@ re "Ok\(decomp\[(\d+)\]\.to_owned\(\)\)" => "proof { if any_bit(decomp@) { assert(decomp@[0].v@); } } Ok(decomp[\1].to_owned())"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_binary_or
//@ re "^.*?\bfn reduce_binary_or\b[^{]*\{" => "pub fn reduce_binary_or(&mut self, a: Vec<BitSh>, chunk_size: usize) -> (r: Result<BitSh, Error>) requires 1 <= a@.len() < 0x1_0000_0000_0000, chunk_size >= 1 ensures r is Ok ==> r->Ok_0.v@ == any_bit(a@) { let ghost given = a@;"
//@ all "\s*\.await" => ""
//@ re "self\.pack\((\w+)\);" => "self.pack(\1, 128); let ghost words = packed.at(); proof { at_least_one(words.len() as int, given.len() as int); }"
//@ re "utils::or_tree::<u128, _, _>\(self, " => "or_tree(self, "
//@ re "self\.reduce_or_u128\((\w+)\)" => "{ proof { packed_any(words, given, \1.w()); } self.reduce_or_u128(\1) }"
//@ end
}
//@ done
//@ each E file S L M | Swift3 swift3 Share Swift3List SwiftPack
pub struct $E { pub x: u64 }
impl Engine<$L> for $E { #[verifier::external_body] fn or_many(&mut self, a: $L, b: $L) -> (r: Result<$L, Error>) { unimplemented!() } }
impl $E {
    /// the OR protocol (C04)
    #[verifier::external_body] pub fn or(&mut self, a: Reg, b: Reg) -> (r: Result<Reg, Error>) ensures r is Ok ==> r->Ok_0.w() == a.w() | b.w() { unimplemented!() }
    #[verifier::external_body] pub fn or_bits(&mut self, a: Vec<BitSh>, b: Vec<BitSh>) -> (r: Result<Vec<BitSh>, Error>) ensures a@.len() != b@.len() ==> r is Err, r is Ok ==> ored(r->Ok_0@, a@, b@) { unimplemented!() }
    pub fn pack(&self, a: Vec<BitSh>, kk: usize) -> (r: $L) requires 1 <= kk <= 128, a@.len() < 0x1_0000_0000_0000 ensures packed(r.v@, a@, kk as int) { $L { v: $M::pack(a, kk) } }
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u128 via reduce_or
//@ re "^.*?\bfn reduce_or_u128\b[^{]*\{" => "pub fn reduce_or_u128(&mut self, a: Reg) -> (r: Result<BitSh, Error>) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 64int; proof { fold(a.w(), 64); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_abc\(\)" => "(a.a, a.b, a.c)"
//@ all "\b$S::new\((\w+), (\w+), (\w+)\)" => "half3(\1, \2, \3, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u64 via reduce_or
//@ re "^.*?\bfn reduce_or_u64\b[^{]*\{" => "pub fn reduce_or_u64(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 64) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 32int; proof { fold(a.w(), 32); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_abc\(\)" => "(a.a, a.b, a.c)"
//@ all "\b$S::new\((\w+), (\w+), (\w+)\)" => "half3(\1, \2, \3, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u32 via reduce_or
//@ re "^.*?\bfn reduce_or_u32\b[^{]*\{" => "pub fn reduce_or_u32(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 32) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 16int; proof { fold(a.w(), 16); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_abc\(\)" => "(a.a, a.b, a.c)"
//@ all "\b$S::new\((\w+), (\w+), (\w+)\)" => "half3(\1, \2, \3, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u16 via reduce_or
//@ re "^.*?\bfn reduce_or_u16\b[^{]*\{" => "pub fn reduce_or_u16(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 16) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) { let ghost given = a; let ghost width = 8int; proof { fold(a.w(), 8); }"
//@ all "\s*\.await" => ""
//@ all "utils::split::<u(\d+), u(\d+)>\((\w+)\)" => "split(\3, \1, \2)"
//@ all "<Self as BinaryMpcTrait(?:::)?<u\d+, $S<u\d+>>>::or\(\s*self, " => "self.or("
//@ re "a\.get_abc\(\)" => "(a.a, a.b, a.c)"
//@ all "\b$S::new\((\w+), (\w+), (\w+)\)" => "half3(\1, \2, \3, Ghost(given), Ghost(width))"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_or_u8
//@ re "^.*?\bfn reduce_or_u8\b[^{]*\{" => "pub fn reduce_or_u8(&mut self, a: Reg) -> (r: Result<BitSh, Error>) requires below(a.w(), 8) ensures r is Ok ==> r->Ok_0.v@ == (a.w() != 0) {"
//@ all "\s*\.await" => ""
//@ all "const K: usize = (\d+);" => "let kk: usize = \1;"
//@ all "\bK\b" => "kk"
//@ re "let mut (\w+): Vec<$S<Bit>> = Vec::with_capacity\(\w+\);" => "let mut \1: Vec<BitSh> = Vec::new();"
//@ re "for (\w+) in 0\.\.([^{]*?) \{" => "for \1 in 0..\2 invariant kk == 8, decomp@.len() == \1, forall|j: int| 0 <= j < \1 ==> (#[trigger] decomp@[j]).v@ == bit(a.w(), j) {"
//@ all "\(\(a\.(\w)\.to_owned\(\) >> ([^;]*?)\) & RingElement\(1\)\) == RingElement\(1\)" => "has_bit(a.\1, \2)"
//@ re "$S::new\(\s*<Bit as Sharable>::Share::from\((\w+)\),\s*<Bit as Sharable>::Share::from\((\w+)\),\s*<Bit as Sharable>::Share::from\((\w+)\),?\s*\)" => "bit3(\1, \2, \3, Ghost(a), i)"
//@ re "while k != 1 \{" => "proof { byte_bits(a.w(), decomp@); } while k != 1 invariant k == 8 || k == 4 || k == 2 || k == 1, decomp@.len() == k, any_bit(decomp@) == (a.w() != 0) decreases k { let ghost was = decomp@; proof { one_shift(k); }"
//@ re "k >>= 1;" => "k = k >> 1usize;"
//@ re "<Self as BinaryMpcTrait<Bit, $S<Bit>>>::or_many\(\s*self," => "self.or_bits("
//@ all "decomp\[\.\.(\w+)\]\.to_vec\(\)" => "bits_part(&decomp, 0, \1)"
//@ all "decomp\[(\w+)\.\.\]\.to_vec\(\)" => "bits_part(&decomp, \1, decomp.len())"
//@ re "\?;\s*\}" => "?; proof { halved_bits(was, decomp@, k as int); } }"
//@ re "Ok\(decomp\[(\d+)\]\.to_owned\(\)\)" => "proof { if any_bit(decomp@) { assert(decomp@[0].v@); } } Ok(decomp[\1].to_owned())"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn reduce_binary_or
//@ re "^.*?\bfn reduce_binary_or\b[^{]*\{" => "pub fn reduce_binary_or(&mut self, a: Vec<BitSh>, chunk_size: usize) -> (r: Result<BitSh, Error>) requires 1 <= a@.len() < 0x1_0000_0000_0000, chunk_size >= 1 ensures r is Ok ==> r->Ok_0.v@ == any_bit(a@) { let ghost given = a@;"
//@ all "\s*\.await" => ""
//@ re "self\.pack\((\w+)\);" => "self.pack(\1, 128); let ghost words = packed.at(); proof { at_least_one(words.len() as int, given.len() as int); }"
//@ re "utils::or_tree::<u128, _, _>\(self, " => "or_tree(self, "
//@ re "self\.reduce_or_u128\((\w+)\)" => "{ proof { packed_any(words, given, \1.w()); } self.reduce_or_u128(\1) }"
//@ end
}
//@ done
/// MalAby3 runs the tree on the bits themselves
pub struct MalAby3 { pub x: u64 }
impl Engine<Aby3List> for MalAby3 { #[verifier::external_body] fn or_many(&mut self, a: Aby3List, b: Aby3List) -> (r: Result<Aby3List, Error>) { unimplemented!() } }
impl MalAby3 {
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn reduce_binary_or
//@ re "^.*?\bfn reduce_binary_or\b[^{]*\{" => "pub fn reduce_binary_or(&mut self, a: Aby3List, chunk_size: usize) -> (r: Result<Reg, Error>) requires a.at().len() >= 1, 1 <= chunk_size < 0x1_0000_0000_0000 ensures r is Ok ==> bit(r->Ok_0.w(), 0) == any(a.at(), 0) {"
//@ all "\s*\.await" => ""
//@ re "utils::or_tree::<Bit, _, _>\(self, " => "or_tree(self, "
//@ end
}
proof fn at_least_one(r: int, n: int) requires n >= 1, pieces(r, n, 128) ensures r >= 1 { if r <= 0 { assert(r * 128 <= 0); } }
/// the words hold all the bits and nothing else
proof fn packed_any(words: Seq<Reg>, x: Seq<BitSh>, w: u128) requires packed(words, x, 128), forall|l: int| #[trigger] bit(w, l) == any(words, l) ensures (w != 0) == any_bit(x)
{
    zero_word(w);
    if w != 0 {
        let l = choose|l: int| 0 <= l < 128 && #[trigger] bit(w, l);
        let c = choose|c: int| 0 <= c < words.len() && bit((#[trigger] words[c]).w(), l);
        let p = bpiece(x, c, 128); inside_piece(c, words.len() as int, x.len() as int, 128);
        assert(p[l].part(3)); assert(p[l] == x[c * 128 + l]); assert(x[c * 128 + l].v@);
    }
    if any_bit(x) {
        let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).v@; let c = i / 128; let l = i % 128;
        let p = bpiece(x, c, 128);
        assert(c < words.len()); assert(p[l] == x[c * 128 + l]); assert(p[l].part(3)); assert(bit(words[c].w(), l)); assert(any(words, l)); assert(bit(w, l));
    }
}
fn main() {}
}
