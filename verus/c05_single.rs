// C05: the comparison bit taken from a converted value (C04): get_msb of every engine, get_msb_many of MalAby3 and
// Swift3, for all batch sizes, widths and values. Extraction directives are replaced by the text of the named function
// of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;
pub enum Error { InvalidSizeError, Network, Other }
//@ include words.inc
// ---------------------------------------------------------------- the top bit of a word and of a share
proof fn top_bit(w: u128, k: nat) requires 1 <= k <= 128, w < pow2(k) ensures bit(w, k - 1) == ((w >> ((k - 1) as u128)) == 1), b2i(bit(w, k - 1)) == w as int / (pow2((k - 1) as nat) as int)
{
    let m = (k - 1) as nat; let p = pow2(m) as int; lemma_pow2_unfold(k); lemma_pow2_pos(m);
    lemma_u128_shr_is_div(w, (k - 1) as u128); bit_arith(w, k - 1);
    let q = w as int / p; lemma_fundamental_div_mod(w as int, p); lemma_mod_bound(w as int, p);
    assert(q <= 1) by (nonlinear_arith) requires w < 2 * p, w == p * q + w as int % p, 0 <= w as int % p, p > 0;
    assert(q >= 0) by (nonlinear_arith) requires w >= 0, w == p * q + w as int % p, w as int % p < p, p > 0;
}
//@ extract iris-mpc/src/types/ring_element.rs fn get_msb in "IntRing2k> RingImpl for RingElement<T>"
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn word_msb(word: u128, kk: usize) -> (r: bool) requires 1 <= kk <= 128, word < pow2(kk as nat) ensures r == bit(word, kk - 1) { proof { top_bit(word, kk as nat); }"
//@ all "\bself\.0" => "word"
//@ all "\bself\.get_bit\(([^()]*)\)" => "word_bit(word, \1)"
//@ all "RingElement\(Bit\((.*?)\)\)\s*\}\s*$" => "\1 }"
//@ all "Self::K" => "kk"
//@ all "T::one\(\)" => "1u128"
//@ all ">> \(kk - 1\)" => ">> ((kk - 1) as u128)"
//@ end
#[derive(Clone, Copy)]
pub struct RepBit { pub a: bool, pub b: bool }
#[derive(Clone, Copy)]
pub struct MaskBit { pub a: bool, pub b: bool, pub c: bool }
#[derive(Clone, Copy)]
pub struct RepShare { pub a: u128, pub b: u128 }
#[derive(Clone, Copy)]
pub struct MaskShare { pub a: u128, pub b: u128, pub c: u128 }
impl RepShare {
    pub open spec fn word(self, kk: int) -> bool { self.a < pow2(kk as nat) && self.b < pow2(kk as nat) }
    pub open spec fn top(self, kk: int) -> RepBit { RepBit { a: bit(self.a, kk - 1), b: bit(self.b, kk - 1) } }
//@ extract iris-mpc/src/aby3/share.rs fn get_msb
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn get_msb(&self, kk: usize) -> (r: RepBit) requires 1 <= kk <= 128, self.word(kk as int) ensures r == self.top(kk as int) {"
//@ all "\bShare \{" => "RepBit {"
//@ all "self\.(\w)\.get_msb\(\)" => "word_msb(self.\1, kk)"
//@ all "sharetype: PhantomData,?" => ""
//@ end
}
impl MaskShare {
    pub open spec fn word(self, kk: int) -> bool { self.a < pow2(kk as nat) && self.b < pow2(kk as nat) && self.c < pow2(kk as nat) }
    pub open spec fn top(self, kk: int) -> MaskBit { MaskBit { a: bit(self.a, kk - 1), b: bit(self.b, kk - 1), c: bit(self.c, kk - 1) } }
//@ extract iris-mpc/src/swift3/share.rs fn get_msb
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn get_msb(&self, kk: usize) -> (r: MaskBit) requires 1 <= kk <= 128, self.word(kk as int) ensures r == self.top(kk as int) {"
//@ all "\bShare \{" => "MaskBit {"
//@ all "self\.(\w)\.get_msb\(\)" => "word_msb(self.\1, kk)"
//@ all "sharetype: PhantomData,?" => ""
//@ end
}
/// s is this party's share of the bits of the value x is its share of: what `arithmetic_to_binary` returns (C04)
pub uninterp spec fn conv_rep(x: RepShare, s: RepShare) -> bool;
pub uninterp spec fn conv_mask(x: MaskShare, s: MaskShare) -> bool;
pub open spec fn tops_rep(r: Seq<RepBit>, x: Seq<RepShare>, bits: Seq<RepShare>, kk: int) -> bool { r.len() == x.len() && bits.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> conv_rep(x[j], bits[j]) && #[trigger] r[j] == bits[j].top(kk) }
pub open spec fn tops_mask(r: Seq<MaskBit>, x: Seq<MaskShare>, bits: Seq<MaskShare>, kk: int) -> bool { r.len() == x.len() && bits.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> conv_mask(x[j], bits[j]) && #[trigger] r[j] == bits[j].top(kk) }
pub open spec fn signs_tops_rep(r: Seq<RepBit>, x: Seq<RepShare>, kk: int) -> bool { exists|s: Seq<RepShare>| #[trigger] tops_rep(r, x, s, kk) }
pub open spec fn signs_tops_mask(r: Seq<MaskBit>, x: Seq<MaskShare>, kk: int) -> bool { exists|s: Seq<MaskShare>| #[trigger] tops_mask(r, x, s, kk) }
//@ each E file S Bit conv to many | Aby3 aby3 RepShare RepBit conv_rep tops_rep no | MalAby3 aby3_mal RepShare RepBit conv_rep tops_rep yes | Swift3 swift3 MaskShare MaskBit conv_mask tops_mask yes
pub struct $E { pub x: u64 }
impl $E {
    #[verifier::external_body] pub fn arithmetic_to_binary(&mut self, x: $S, kk: usize) -> (r: Result<$S, Error>) ensures r is Ok ==> $conv(x, r->Ok_0) && r->Ok_0.word(kk as int) { unimplemented!() }
    #[verifier::external_body] pub fn arithmetic_to_binary_many(&mut self, x: Vec<$S>, kk: usize) -> (r: Result<Vec<$S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == x@.len() && forall|j: int| 0 <= j < x@.len() ==> $conv(x@[j], #[trigger] r->Ok_0@[j]) && r->Ok_0@[j].word(kk as int) { unimplemented!() }
//@ extract iris-mpc/src/$file/protocol.rs fn get_msb
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn get_msb(&mut self, a: $S, kk: usize) -> (r: Result<$Bit, Error>) requires 1 <= kk <= 128 ensures r is Ok ==> exists|s: $S| $conv(a, s) && r->Ok_0 == #[trigger] s.top(kk as int) {"
//@ all "\s*\.await" => ""
//@ all "self\.arithmetic_to_binary\(([^()]*)\)" => "self.arithmetic_to_binary(\1, kk)"
//@ all "\.get_msb\(\)" => ".get_msb(kk)"
//@ end
}
//@ done
//@ each E file S Bit conv to | MalAby3 aby3_mal RepShare RepBit conv_rep tops_rep | Swift3 swift3 MaskShare MaskBit conv_mask tops_mask
impl $E {
//@ extract iris-mpc/src/$file/protocol.rs fn get_msb_many
//@ re "^.*?\bfn get_msb_many\b[^{]*\{" => "pub fn get_msb_many(&mut self, a: Vec<$S>, kk: usize) -> (r: Result<Vec<$Bit>, Error>) requires 1 <= kk <= 128 ensures r is Ok ==> signs_$to(r->Ok_0@, a@, kk as int) { let ghost given = a@;"
//@ all "\s*\.await" => ""
//@ re "self\.arithmetic_to_binary_many\(([^()]*)\)" => "self.arithmetic_to_binary_many(\1, kk)"
//@ re "let (\w+) = (\w+)\.into_iter\(\)\.map\(\|(\w+)\| (\w+)\.get_msb\(\)\)\.collect\(\);" => "let mut \1: Vec<$Bit> = Vec::new(); let ghost all = \2@; for i_ in 0..\2.len() invariant 1 <= kk <= 128, \2@ == all, \1@.len() == i_, forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).word(kk as int), forall|j: int| 0 <= j < i_ ==> #[trigger] \1@[j] == all[j].top(kk as int) { let \3 = \2[i_]; \1.push(\4.get_msb(kk)); } proof { assert($to(\1@, given, all, kk as int)); assert(signs_$to(\1@, given, kk as int)); }"
//@ end
}
//@ done
// ---------------------------------------------------------------- SpdzWise: MACs are checked before they are dropped
#[derive(Clone, Copy)]
pub struct TSh { pub value: RepShare, pub mac: RepShare }
pub uninterp spec fn low_words(x: RepShare, kk: int) -> RepShare;
#[verifier::external_body] pub fn from_verificationtype(x: RepShare, kk: usize) -> (r: RepShare) ensures r == low_words(x, kk as int) { unimplemented!() }
pub struct SpdzWise { pub verifyqueue: Vec<TSh>, pub checked: Ghost<Set<TSh>> }
impl SpdzWise {
    /// verify_macs: an error, or everything that was in the queue is checked (C15)
    #[verifier::external_body] pub fn verify_macs(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> forall|t: TSh| #[trigger] old(self).verifyqueue@.contains(t) ==> final(self).checked@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn arithmetic_to_binary(&mut self, x: RepShare, Ghost(t): Ghost<TSh>, kk: usize) -> (r: Result<RepShare, Error>) requires old(self).checked@.contains(t), x == low_words(t.value, kk as int) ensures r is Ok ==> conv_rep(x, r->Ok_0) && r->Ok_0.word(kk as int) { unimplemented!() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn get_msb
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn get_msb(&mut self, a: TSh, kk: usize) -> (r: Result<RepBit, Error>) requires 1 <= kk <= 128 ensures r is Ok ==> exists|s: RepShare| conv_rep(low_words(a.value, kk as int), s) && r->Ok_0 == #[trigger] s.top(kk as int) { let ghost given = a;"
//@ all "\s*\.await" => ""
//@ re "self\.verifyqueue\.push\(([^;]*)\.to_owned\(\)\);" => "self.verifyqueue.push(\1); proof { assert(self.verifyqueue@.last() == \1); assert(self.verifyqueue@.contains(\1)); }"
//@ re "Aby3Share::<T>::from_verificationtype\((\w+)\.get_value\(\)\)" => "from_verificationtype(\1.value, kk)"
//@ re "self\.arithmetic_to_binary\(([^()]*)\)" => "self.arithmetic_to_binary(\1, Ghost(given), kk)"
//@ all "\.get_msb\(\)" => ".get_msb(kk)"
//@ end
}
// ---------------------------------------------------------------- the property
/// bit shares of the three parties whose words open to the value: the top bits are a sharing of the sign bit
proof fn sign_replicated(x: RepShare, y: RepShare, z: RepShare, v: u128, k: nat)
    requires 1 <= k <= 128, v == x.a ^ y.a ^ z.a, v < pow2(k), x.b == z.a, y.b == x.a, z.b == y.a
    ensures ({ let p = x.top(k as int); let q = y.top(k as int); let r = z.top(k as int); p.b == r.a && q.b == p.a && r.b == q.a && b2i((p.a != q.a) != r.a) == v as int / (pow2((k - 1) as nat) as int) })
{ bits_all(); top_bit(v, k); bit_xor(x.a ^ y.a, z.a, k - 1); bit_xor(x.a, y.a, k - 1); }
proof fn sign_masked(x: MaskShare, y: MaskShare, z: MaskShare, v: u128, k: nat)
    requires 1 <= k <= 128, v == x.c ^ x.a ^ y.a ^ z.a, v < pow2(k), x.b == z.a, y.b == x.a, z.b == y.a, x.c == y.c, y.c == z.c
    ensures ({ let p = x.top(k as int); let q = y.top(k as int); let r = z.top(k as int); p.b == r.a && q.b == p.a && r.b == q.a && p.c == q.c && q.c == r.c && b2i(((p.c != p.a) != q.a) != r.a) == v as int / (pow2((k - 1) as nat) as int) })
{ bits_all(); top_bit(v, k); bit_xor(x.c ^ x.a ^ y.a, z.a, k - 1); bit_xor(x.c ^ x.a, y.a, k - 1); bit_xor(x.c, x.a, k - 1); }
fn main() {}
}
