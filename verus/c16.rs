// C16: the container of triples and gates, and the provisioning of triples, for all sizes, widths and values.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
// RingElement<u128> is read as its word, an element of width K as a word below 2^K.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum Error { InvalidSizeError, NotEnoughTriplesError, VerifyError, Other }

// ---------------------------------------------------------------- shares and words
#[derive(Clone, Copy)]
pub struct Sh { pub a: u128, pub b: u128 }
impl Sh { pub fn new(a: u128, b: u128) -> (r: Sh) ensures r.a == a, r.b == b { Sh { a, b } } }
/// an element of a ring of k bits
pub trait Sharable: Sized { spec fn kk() -> nat; proof fn k_ok() ensures 1 <= Self::kk() <= 128; fn k() -> (r: usize) ensures r == Self::kk(); }
pub struct El<T> { pub w: Ghost<u128>, pub t: Ghost<Option<T>> }
pub struct AShare<T> { pub a: El<T>, pub b: El<T> }
pub open spec fn below(w: u128, k: int) -> bool { k >= 128 || (w >> (k as u128)) == 0 }
impl<T: Sharable> El<T> {
    pub open spec fn ok(self) -> bool { below(self.w@, T::kk() as int) }
    /// contract decided by C10 for every width
    #[verifier::external_body] pub fn upgrade_to_128(self) -> (r: u128) ensures r == self.w@, below(r, T::kk() as int) { unimplemented!() }
}
impl<T: Sharable> AShare<T> {
    pub open spec fn ok(self) -> bool { self.a.ok() && self.b.ok() }
    pub open spec fn part(self, j: bool) -> u128 { if j { self.a.w@ } else { self.b.w@ } }
    #[verifier::external_body] pub fn copy(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn get_ab(self) -> (r: (El<T>, El<T>)) ensures r.0 == self.a, r.1 == self.b { (self.a, self.b) }
}
impl Sh { pub open spec fn part(self, j: bool) -> u128 { if j { self.a } else { self.b } } }
/// one component of a list of shares
pub open spec fn comp(v: Seq<Sh>, j: bool) -> Seq<u128> { Seq::new(v.len(), |i: int| v[i].part(j)) }

// ---------------------------------------------------------------- standard library
#[verifier::external_body] pub fn last_mut(v: &mut Vec<Sh>) -> (r: &mut Sh) requires old(v)@.len() > 0 ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { v.last_mut().unwrap() }
/// v.drain(0..n).collect()
#[verifier::external_body] pub fn drain_front(v: &mut Vec<Sh>, n: usize) -> (r: Vec<Sh>) requires n <= old(v)@.len() ensures r@ == old(v)@.subrange(0, n as int), final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn take(v: &mut Vec<Sh>) -> (r: Vec<Sh>) ensures r@ == old(v)@, final(v)@ == Seq::<Sh>::empty() { unimplemented!() }
#[verifier::external_body] pub fn extend_with(v: &mut Vec<Sh>, o: Vec<Sh>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub open spec fn umax(a: usize, b: usize) -> usize { if a >= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == umax(a, b) { if a >= b { a } else { b } }

// ---------------------------------------------------------------- one component of the container
pub open spec fn low(o: int) -> u128 { ((1u128 << (o as u128)) - 1) as u128 }
/// the words after k bits x were added to words whose last one holds `bits` bits
pub open spec fn add(v: Seq<u128>, bits: int, k: int, x: u128) -> Seq<u128> {
    let open = 128 - bits;
    if open == 0 { v.push(x) }
    else if open >= k { v.update(v.len() - 1, (v.last() << (k as u128)) | x) }
    else { v.update(v.len() - 1, (v.last() << (open as u128)) | (x & low(open))).push(x >> (open as u128)) }
}
pub open spec fn bits_after(bits: int, k: int) -> int {
    let open = 128 - bits;
    if open == 0 { k } else if open >= k { bits + k } else { k - open }
}
/// a container: at most 128 bits in the last word, the rest of it zero
pub open spec fn shape(v: Seq<u128>, bits: int) -> bool { 1 <= bits <= 128 && (bits < 128 ==> v.len() > 0) && (v.len() > 0 ==> below(v.last(), bits)) }

impl Clone for Triples { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
//@ extract iris-mpc/src/spdzwise/triples.rs struct Triples
//@ all "Aby3Share<u128>" => "Sh"
//@ re "    a:" => "    pub a:"
//@ re "    b:" => "    pub b:"
//@ re "    c:" => "    pub c:"
//@ re "    bits_in_last:" => "    pub bits_in_last:"
//@ end
impl Triples {
    pub open spec fn len(self) -> nat { self.a@.len() }
    /// invariant of the container
    pub open spec fn ok(self) -> bool {
        &&& self.a@.len() == self.b@.len() == self.c@.len()
        &&& forall|j: bool| #[trigger] shape(comp(self.a@, j), self.bits_in_last as int) && shape(comp(self.b@, j), self.bits_in_last as int) && shape(comp(self.c@, j), self.bits_in_last as int)
    }
    pub open spec fn whole(self) -> bool { self.ok() && self.bits_in_last == 128 }
    pub open spec fn added<T: Sharable>(self, o: Self, a: AShare<T>, b: AShare<T>, c: AShare<T>) -> bool {
        &&& forall|j: bool| #[trigger] comp(o.a@, j) == add(comp(self.a@, j), self.bits_in_last as int, T::kk() as int, a.part(j))
        &&& forall|j: bool| #[trigger] comp(o.b@, j) == add(comp(self.b@, j), self.bits_in_last as int, T::kk() as int, b.part(j))
        &&& forall|j: bool| #[trigger] comp(o.c@, j) == add(comp(self.c@, j), self.bits_in_last as int, T::kk() as int, c.part(j))
        &&& o.bits_in_last == bits_after(self.bits_in_last as int, T::kk() as int)
    }
//@ extract iris-mpc/src/spdzwise/triples.rs fn default in "impl Default for Triples"
//@ re "fn default\(\) -> Self" => "pub fn default() -> (r: Self) ensures r.whole(), r.len() == 0"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn new in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ re "-> Self" => "-> (r: Self) requires a@.len() == b@.len(), a@.len() == c@.len() ensures r.whole(), r.a == a, r.b == b, r.c == c"
//@ re "assert_eq!\(a\.len\(\), b\.len\(\)\);" => "assert(a@.len() == b@.len());"
//@ re "assert_eq!\(a\.len\(\), c\.len\(\)\);" => "assert(a@.len() == c@.len());"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn len in "impl Triples"
//@ re "fn len\(&self\) -> usize" => "fn length(&self) -> (r: usize) requires self.ok() ensures r == self.len()"
//@ re "debug_assert!\(self\.a\.len\(\) == self\.b\.len\(\)\);" => "assert(self.a@.len() == self.b@.len());"
//@ re "debug_assert!\(self\.a\.len\(\) == self\.c\.len\(\)\);" => "assert(self.a@.len() == self.c@.len());"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn get_all in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ all "std::mem::take\(" => "take("
//@ re "-> \(\s*Vec<Sh>,\s*Vec<Sh>,\s*Vec<Sh>,?\s*\)" => "-> (r: (Vec<Sh>, Vec<Sh>, Vec<Sh>)) ensures r.0@ == old(self).a@, r.1@ == old(self).b@, r.2@ == old(self).c@, final(self).whole(), final(self).len() == 0"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn get in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ all "self\.([abc])\.drain\(0\.\.amount\)\.collect\(\)" => "drain_front(&mut self.\1, amount)"
//@ re "self\.len\(\)" => "self.length()"
//@ re "-> Result<\s*\(\s*Vec<Sh>,\s*Vec<Sh>,\s*Vec<Sh>,?\s*\),\s*Error,?\s*>" => "-> (r: Result<(Vec<Sh>, Vec<Sh>, Vec<Sh>), Error>) requires old(self).whole() ensures final(self).whole(), r is Ok == (amount <= old(self).len()), r is Err ==> *final(self) == *old(self), r is Ok ==> taken(*old(self), *final(self), amount as int, r->Ok_0)"
//@ re "Ok\(\(a, b, c\)\)" => "proof { assert(old(self).a@ =~= a@ + self.a@); assert(old(self).b@ =~= b@ + self.b@); assert(old(self).c@ =~= c@ + self.c@); } Ok((a, b, c))"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn extend in "impl Triples"
//@ re "\(&mut self, other: Self\)" => "(&mut self, other: Self) requires old(self).whole(), other.whole() ensures final(self).whole(), final(self).a@ == old(self).a@ + other.a@, final(self).b@ == old(self).b@ + other.b@, final(self).c@ == old(self).c@ + other.c@"
//@ re "assert_eq!\(other\.bits_in_last, 128\);" => "assert(other.bits_in_last == 128);"
//@ all "self\.([abc])\.extend\(other\.([abc])\)" => "extend_with(&mut self.\1, other.\2)"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn push_t in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ all "Aby3Share<T>" => "AShare<T>"
//@ all "Aby3Share::new" => "Sh::new"
//@ all "a\.clone\(\)" => "a.copy()"
//@ re "buffer: &mut Vec<Sh>\)" => "buffer: &mut Vec<Sh>) requires a.ok() ensures forall|j: bool| #[trigger] comp(final(buffer)@, j) == comp(old(buffer)@, j).push(a.part(j))"
//@ re "buffer\.push\(([^;]*)\);" => "buffer.push(\1); proof { assert forall|j: bool| #[trigger] comp(buffer@, j) == comp(old(buffer)@, j).push(a.part(j)) by { assert(comp(buffer@, j) =~= comp(old(buffer)@, j).push(a.part(j))); } }"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn add_all_t in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ all "Aby3Share<T>" => "AShare<T>"
//@ all "a\.clone\(\)" => "a.copy()"
//@ all "T::Share::K" => "T::k()"
//@ re "buffer: &mut \[Sh\]\)" => "buffer: &mut Vec<Sh>) requires a.ok(), old(buffer)@.len() > 0, T::kk() < 128 ensures forall|j: bool| #[trigger] comp(final(buffer)@, j) == comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (T::kk() as u128)) | a.part(j))"
//@ re "buffer\.last_mut\(\)\.expect\(.*?\)" => "last_mut(buffer)"
//@ re "\}$" => "proof { assert forall|j: bool| #[trigger] comp(buffer@, j) == comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (T::kk() as u128)) | a.part(j)) by { assert(comp(buffer@, j) =~= comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (T::kk() as u128)) | a.part(j))); } } }"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn split_and_add_t in "impl Triples"
//@ all "Aby3Share<u128>" => "Sh"
//@ all "Aby3Share<T>" => "AShare<T>"
//@ all "Aby3Share::new" => "Sh::new"
//@ all "a\.clone\(\)" => "a.copy()"
//@ all "\.to_owned\(\) & &" => " & "
//@ re "RingElement\(([^;]*)\);" => "\1;"
//@ re "let mask =" => "proof { let o = open as u128; assert((1u128 << o) >= 1) by (bit_vector) requires o < 128; } let mask ="
//@ re "1u128 << open" => "1u128 << (open as u128)"
//@ re "open: usize,\s*\)" => "open: usize) requires a.ok(), old(buffer)@.len() > 0, 0 < open < T::kk(), open < 128 ensures forall|j: bool| #[trigger] comp(final(buffer)@, j) == comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (open as u128)) | (a.part(j) & low(open as int))).push(a.part(j) >> (open as u128))"
//@ re "buffer\.last_mut\(\)\.expect\(.*?\)" => "last_mut(buffer)"
//@ re "buffer\.push\(([^;]*)\);" => "buffer.push(\1); proof { assert forall|j: bool| #[trigger] comp(buffer@, j) == comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (open as u128)) | (a.part(j) & low(open as int))).push(a.part(j) >> (open as u128)) by { assert(comp(buffer@, j) =~= comp(old(buffer)@, j).update(old(buffer)@.len() - 1, (comp(old(buffer)@, j).last() << (open as u128)) | (a.part(j) & low(open as int))).push(a.part(j) >> (open as u128))); } }"
//@ end
//@ extract iris-mpc/src/spdzwise/triples.rs fn add_t in "impl Triples"
//@ all "Aby3Share<T>" => "AShare<T>"
//@ all "debug_assert!" => "assert"
//@ all "assert\(open < T::Share::K\)" => "assert(open < T::kk())"
//@ all "T::Share::K" => "T::k()"
//@ re "c: &AShare<T>\)" => "c: &AShare<T>) requires a.ok(), b.ok(), c.ok(), old(self).ok() ensures final(self).ok(), old(self).added(*final(self), *a, *b, *c)"
//@ re "let open =" => "proof { T::k_ok(); assert(shape(comp(self.a@, true), self.bits_in_last as int)); assert forall|j: bool| add_ok(#[trigger] comp(self.a@, j), self.bits_in_last as int, T::kk() as int, a.part(j)) && add_ok(comp(self.b@, j), self.bits_in_last as int, T::kk() as int, b.part(j)) && add_ok(comp(self.c@, j), self.bits_in_last as int, T::kk() as int, c.part(j)) by { assert(shape(comp(self.a@, j), self.bits_in_last as int)); add_shape(comp(self.a@, j), self.bits_in_last as int, T::kk() as int, a.part(j)); add_shape(comp(self.b@, j), self.bits_in_last as int, T::kk() as int, b.part(j)); add_shape(comp(self.c@, j), self.bits_in_last as int, T::kk() as int, c.part(j)); } } let open ="
//@ re "\}\s*$" => "proof { assert forall|j: bool| shape(#[trigger] comp(self.a@, j), self.bits_in_last as int) && shape(comp(self.b@, j), self.bits_in_last as int) && shape(comp(self.c@, j), self.bits_in_last as int) by { assert(add_ok(comp(old(self).a@, j), old(self).bits_in_last as int, T::kk() as int, a.part(j))); assert(comp(self.b@, j).len() == self.b@.len()); assert(comp(self.c@, j).len() == self.c@.len()); } assert(comp(self.a@, true).len() == self.a@.len()); assert(comp(self.b@, true).len() == self.b@.len()); assert(comp(self.c@, true).len() == self.c@.len()); } }"
//@ end
}
pub open spec fn add_ok(v: Seq<u128>, bits: int, k: int, x: u128) -> bool { shape(add(v, bits, k, x), bits_after(bits, k)) && add(v, bits, k, x).len() == v.len() + (if 128 - bits >= k && bits < 128 { 0int } else { 1 }) }
proof fn add_shape(v: Seq<u128>, bits: int, k: int, x: u128) requires shape(v, bits), 1 <= k <= 128, below(x, k) ensures add_ok(v, bits, k, x)
{
    let open = 128 - bits;
    if open == 0 { }
    else if open >= k {
        let l = v.last(); let b = bits as u128; let kk = k as u128; let s = (bits + k) as u128;
        if bits + k < 128 { assert(((l << kk) | x) >> s == 0) by (bit_vector) requires l >> b == 0, x >> kk == 0, s == b + kk, s < 128, b < 128, kk < 128; }
    } else {
        let o = open as u128; let kk = k as u128; let s = (k - open) as u128;
        if k < 128 { assert((x >> o) >> s == 0) by (bit_vector) requires x >> kk == 0, s == kk - o, kk < 128, o < kk; }
        else { assert((x >> o) >> s == 0) by (bit_vector) requires s == 128 - o, 0 < o < 128; }
    }
}

// ---------------------------------------------------------------- gates of one element after another
pub open spec fn addn(v: Seq<u128>, bits: int, k: int, xs: Seq<u128>) -> Seq<u128> decreases xs.len() { if xs.len() == 0 { v } else { add(addn(v, bits, k, xs.drop_last()), bitsn(bits, k, xs.len() - 1), k, xs.last()) } }
pub open spec fn bitsn(bits: int, k: int, n: int) -> int decreases n { if n <= 0 { bits } else { bits_after(bitsn(bits, k, n - 1), k) } }
pub open spec fn parts<T: Sharable>(v: Seq<AShare<T>>, j: bool) -> Seq<u128> { Seq::new(v.len(), |i: int| v[i].part(j)) }
pub open spec fn all_ok<T: Sharable>(v: Seq<AShare<T>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok() }
impl Triples {
    pub open spec fn added_many<T: Sharable>(self, o: Self, a: Seq<AShare<T>>, b: Seq<AShare<T>>, c: Seq<AShare<T>>) -> bool {
        &&& forall|j: bool| #[trigger] comp(o.a@, j) == addn(comp(self.a@, j), self.bits_in_last as int, T::kk() as int, parts(a, j))
        &&& forall|j: bool| #[trigger] comp(o.b@, j) == addn(comp(self.b@, j), self.bits_in_last as int, T::kk() as int, parts(b, j))
        &&& forall|j: bool| #[trigger] comp(o.c@, j) == addn(comp(self.c@, j), self.bits_in_last as int, T::kk() as int, parts(c, j))
        &&& o.bits_in_last == bitsn(self.bits_in_last as int, T::kk() as int, a.len() as int)
    }
//@ extract iris-mpc/src/spdzwise/triples.rs fn add_many_t in "impl Triples"
//@ all "Aby3Share<T>" => "AShare<T>"
//@ re "c: &Vec<AShare<T>>,?\s*\)" => "c: &Vec<AShare<T>>) requires all_ok(a@), all_ok(b@), all_ok(c@), a@.len() == b@.len(), a@.len() == c@.len(), old(self).ok() ensures final(self).ok(), old(self).added_many(*final(self), a@, b@, c@)"
//@ re "debug_assert_eq!\(a\.len\(\), b\.len\(\)\);" => "assert(a@.len() == b@.len());"
//@ re "debug_assert_eq!\(a\.len\(\), c\.len\(\)\);" => "assert(a@.len() == c@.len());"
//@ re "for \(\((\w+), (\w+)\), (\w+)\) in a\.iter\(\)\.zip\(b\)\.zip\(c\) \{([^}]*)\}" => "for i in 0..a.len() invariant all_ok(a@), all_ok(b@), all_ok(c@), a@.len() == b@.len(), a@.len() == c@.len(), self.ok(), old(self).added_many(*self, a@.subrange(0, i as int), b@.subrange(0, i as int), c@.subrange(0, i as int)) { let (\1, \2, \3) = (&a[i], &b[i], &c[i]); \4 proof { assert forall|j: bool| true implies parts(a@.subrange(0, i + 1), j).drop_last() == parts(a@.subrange(0, i as int), j) && parts(b@.subrange(0, i + 1), j).drop_last() == parts(b@.subrange(0, i as int), j) && parts(c@.subrange(0, i + 1), j).drop_last() == parts(c@.subrange(0, i as int), j) by { assert(parts(a@.subrange(0, i + 1), j).drop_last() =~= parts(a@.subrange(0, i as int), j)); assert(parts(b@.subrange(0, i + 1), j).drop_last() =~= parts(b@.subrange(0, i as int), j)); assert(parts(c@.subrange(0, i + 1), j).drop_last() =~= parts(c@.subrange(0, i as int), j)); } } } proof { assert(a@.subrange(0, a@.len() as int) =~= a@); assert(b@.subrange(0, a@.len() as int) =~= b@); assert(c@.subrange(0, a@.len() as int) =~= c@); }"
//@ end
}

// ---------------------------------------------------------------- what this means for the opened values
pub open spec fn xors(a: Seq<u128>, b: Seq<u128>) -> Seq<u128> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn ands(a: Seq<u128>, b: Seq<u128>) -> Seq<u128> { Seq::new(a.len(), |i: int| a[i] & b[i]) }
/// adding to shares adds to the values they open to
proof fn add_xor(v: Seq<u128>, w: Seq<u128>, bits: int, k: int, x: u128, y: u128)
    requires shape(v, bits), shape(w, bits), v.len() == w.len(), 1 <= k <= 128, below(x, k), below(y, k)
    ensures add(xors(v, w), bits, k, x ^ y) == xors(add(v, bits, k, x), add(w, bits, k, y)), below(x ^ y, k), shape(xors(v, w), bits)
{
    let open = 128 - bits;
    if k < 128 { let kk = k as u128; assert((x ^ y) >> kk == 0) by (bit_vector) requires x >> kk == 0, y >> kk == 0, kk < 128; }
    if v.len() > 0 && bits < 128 { let (l, m, b) = (v.last(), w.last(), bits as u128); assert((l ^ m) >> b == 0) by (bit_vector) requires l >> b == 0, m >> b == 0, b < 128; }
    if open == 0 { }
    else if open >= k {
        let (l, m, kk) = (v.last(), w.last(), k as u128);
        assert(((l ^ m) << kk) | (x ^ y) == ((l << kk) | x) ^ ((m << kk) | y)) by (bit_vector) requires x >> kk == 0, y >> kk == 0, kk < 128;
    } else {
        let (l, m, o) = (v.last(), w.last(), open as u128);
        assert(1u128 << o >= 1) by (bit_vector) requires o < 128;
        let f = low(open);
        assert(((l ^ m) << o) | ((x ^ y) & f) == ((l << o) | (x & f)) ^ ((m << o) | (y & f))) by (bit_vector) requires f == sub((1u128 << o), 1), o < 128;
        assert((x ^ y) >> o == (x >> o) ^ (y >> o)) by (bit_vector);
    }
    assert(add(xors(v, w), bits, k, x ^ y) =~= xors(add(v, bits, k, x), add(w, bits, k, y)));
}
proof fn add_and(v: Seq<u128>, w: Seq<u128>, bits: int, k: int, x: u128, y: u128)
    requires shape(v, bits), shape(w, bits), v.len() == w.len(), 1 <= k <= 128, below(x, k), below(y, k)
    ensures add(ands(v, w), bits, k, x & y) == ands(add(v, bits, k, x), add(w, bits, k, y))
{
    let open = 128 - bits;
    if open == 0 { }
    else if open >= k {
        let (l, m, kk) = (v.last(), w.last(), k as u128);
        assert(((l & m) << kk) | (x & y) == ((l << kk) | x) & ((m << kk) | y)) by (bit_vector) requires x >> kk == 0, y >> kk == 0, kk < 128;
    } else {
        let (l, m, o) = (v.last(), w.last(), open as u128);
        assert(1u128 << o >= 1) by (bit_vector) requires o < 128;
        let f = low(open);
        assert(((l & m) << o) | ((x & y) & f) == ((l << o) | (x & f)) & ((m << o) | (y & f))) by (bit_vector) requires f == sub((1u128 << o), 1), o < 128;
        assert((x & y) >> o == (x >> o) & (y >> o)) by (bit_vector);
    }
    assert(add(ands(v, w), bits, k, x & y) =~= ands(add(v, bits, k, x), add(w, bits, k, y)));
}
/// nothing is lost: the words before and the new element can be read off the words after
proof fn add_keeps(v: Seq<u128>, w: Seq<u128>, bits: int, k: int, x: u128, y: u128)
    requires shape(v, bits), shape(w, bits), v.len() == w.len(), 1 <= k <= 128, below(x, k), below(y, k), add(v, bits, k, x) == add(w, bits, k, y)
    ensures v == w, x == y
{
    let open = 128 - bits;
    let (p, q) = (add(v, bits, k, x), add(w, bits, k, y));
    if open == 0 { assert(p.drop_last() =~= v); assert(q.drop_last() =~= w); assert(p.last() == x && q.last() == y); }
    else if open >= k {
        let (l, m, kk) = (v.last(), w.last(), k as u128); let b = bits as u128;
        assert(p[v.len() - 1] == q[v.len() - 1]);
        assert(l == m && x == y) by (bit_vector) requires (l << kk) | x == (m << kk) | y, x >> kk == 0, y >> kk == 0, l >> b == 0, m >> b == 0, kk < 128, b < 128, b + kk <= 128;
        assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by { assert(p[i] == q[i]); }
        assert(v =~= w);
    } else {
        let (l, m, o) = (v.last(), w.last(), open as u128); let b = bits as u128;
        assert(p[v.len() - 1] == q[v.len() - 1]); assert(p.last() == q.last());
        assert(1u128 << o >= 1) by (bit_vector) requires o < 128;
        let f = low(open);
        assert(l == m) by (bit_vector) requires (l << o) | (x & f) == (m << o) | (y & f), f == sub((1u128 << o), 1), l >> b == 0, m >> b == 0, b + o == 128, 0 < o < 128;
        assert(x == y) by (bit_vector) requires (l << o) | (x & f) == (l << o) | (y & f), f == sub((1u128 << o), 1), x >> o == y >> o, 0 < o < 128;
        assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by { assert(p[i] == q[i]); }
        assert(v =~= w);
    }
}
/// the parties hold x0 ^ x1 ^ x2 = x; if every gate held so far satisfies c = a AND b and the new one does, so do all of them afterwards
proof fn gates_kept(a: Seq<Seq<u128>>, b: Seq<Seq<u128>>, c: Seq<Seq<u128>>, bits: int, k: int, x: Seq<u128>, y: Seq<u128>, z: Seq<u128>)
    requires a.len() == 3, b.len() == 3, c.len() == 3, x.len() == 3, y.len() == 3, z.len() == 3, 1 <= k <= 128,
        forall|i: int| 0 <= i < 3 ==> shape(#[trigger] a[i], bits) && shape(b[i], bits) && shape(c[i], bits) && a[i].len() == a[0].len() && b[i].len() == a[0].len() && c[i].len() == a[0].len() && below(x[i], k) && below(y[i], k) && below(z[i], k),
        open3(c[0], c[1], c[2]) == ands(open3(a[0], a[1], a[2]), open3(b[0], b[1], b[2])),
        z[0] ^ z[1] ^ z[2] == (x[0] ^ x[1] ^ x[2]) & (y[0] ^ y[1] ^ y[2]),
    ensures
        open3(add(c[0], bits, k, z[0]), add(c[1], bits, k, z[1]), add(c[2], bits, k, z[2])) == ands(open3(add(a[0], bits, k, x[0]), add(a[1], bits, k, x[1]), add(a[2], bits, k, x[2])), open3(add(b[0], bits, k, y[0]), add(b[1], bits, k, y[1]), add(b[2], bits, k, y[2]))),
{
    assert(a[1].len() == a[0].len() && a[2].len() == a[0].len());
    add_open(a[0], a[1], a[2], bits, k, x[0], x[1], x[2]);
    add_open(b[0], b[1], b[2], bits, k, y[0], y[1], y[2]);
    add_open(c[0], c[1], c[2], bits, k, z[0], z[1], z[2]);
    add_and(open3(a[0], a[1], a[2]), open3(b[0], b[1], b[2]), bits, k, x[0] ^ x[1] ^ x[2], y[0] ^ y[1] ^ y[2]);
}
pub open spec fn open3(a: Seq<u128>, b: Seq<u128>, c: Seq<u128>) -> Seq<u128> { xors(xors(a, b), c) }
proof fn add_open(a: Seq<u128>, b: Seq<u128>, c: Seq<u128>, bits: int, k: int, x: u128, y: u128, z: u128)
    requires shape(a, bits), shape(b, bits), shape(c, bits), a.len() == b.len(), a.len() == c.len(), 1 <= k <= 128, below(x, k), below(y, k), below(z, k)
    ensures add(open3(a, b, c), bits, k, x ^ y ^ z) == open3(add(a, bits, k, x), add(b, bits, k, y), add(c, bits, k, z)), below(x ^ y ^ z, k), shape(open3(a, b, c), bits)
{
    add_xor(a, b, bits, k, x, y); add_xor(xors(a, b), c, bits, k, x ^ y, z);
}

/// the first n of the pool are handed out, the others stay
pub open spec fn taken(s: Triples, o: Triples, n: int, r: (Vec<Sh>, Vec<Sh>, Vec<Sh>)) -> bool {
    &&& s.a@ == r.0@ + o.a@ && s.b@ == r.1@ + o.b@ && s.c@ == r.2@ + o.c@
    &&& r.0@.len() == n && r.1@.len() == n && r.2@.len() == n
}

// ---------------------------------------------------------------- the engine: permutation and queue
pub open spec fn bit(v: Seq<u128>, p: int) -> u128 { (v[p / 128] >> ((p % 128) as u128)) & 1 }
pub open spec fn bit_p(v: Seq<Sh>, j: bool, p: int) -> u128 { bit(comp(v, j), p) }
pub open spec fn exch(i: int, j: int, p: int) -> int { if p == i { j } else if p == j { i } else { p } }
pub fn get_bit(w: u128, i: usize) -> (r: u128) requires i < 128 ensures r == (w >> (i as u128)) & 1, r <= 1 { let j = i as u128; assert((w >> j) & 1 <= 1) by (bit_vector); (w >> (i as u128)) & 1 }
/// f lists which old bit is at each position; no old bit is there twice
pub open spec fn perm(f: Seq<int>, n: int) -> bool { f.len() == n && f.no_duplicates() && forall|p: int| 0 <= p < n ==> 0 <= #[trigger] f[p] < n }
pub open spec fn permuted(v: Seq<Sh>, w: Seq<Sh>, f: Seq<int>) -> bool { v.len() == w.len() && forall|p: int, j: bool| 0 <= p < 128 * v.len() ==> #[trigger] bit_p(w, j, p) == bit_p(v, j, f[p]) }
pub open spec fn same_perm(a: Seq<Sh>, b: Seq<Sh>, c: Seq<Sh>, x: Seq<Sh>, y: Seq<Sh>, z: Seq<Sh>) -> bool { exists|f: Seq<int>| perm(f, (128 * a.len()) as int) && permuted(a, x, f) && permuted(b, y, f) && permuted(c, z, f) }
pub struct Seed { pub x: u8 }
/// rand: an index of the range asked for
pub trait Rng: Sized { fn from_seed(s: Seed) -> (r: Self); fn gen_range(&mut self, lo: usize, hi: usize) -> (r: usize) requires lo < hi ensures lo <= r < hi; }
/// one flip of bits in a word
proof fn flip(w: u128, x: u128, i: u128, p: u128) requires x <= 1, i < 128, p < 128 ensures ((w ^ (x << i)) >> p) & 1 == (if p == i { ((w >> p) & 1) ^ x } else { (w >> p) & 1 })
{
    if p == i { assert(((w ^ (x << i)) >> i) & 1 == ((w >> i) & 1) ^ x) by (bit_vector) requires x <= 1, i < 128; }
    else { assert(((w ^ (x << i)) >> p) & 1 == (w >> p) & 1) by (bit_vector) requires x <= 1, i < 128, p < 128, p != i; }
}
pub open spec fn flips(v: Seq<Sh>, w: Seq<Sh>, q: bool, i: int, x: u128) -> bool { w.len() == v.len() && forall|p: int, r: bool| 0 <= p < 128 * v.len() ==> #[trigger] bit_p(w, r, p) == (if r == q && p == i { bit_p(v, r, p) ^ x } else { bit_p(v, r, p) }) }
/// a word changed in one component by x at bit m
proof fn upd(v: Seq<Sh>, w: Seq<Sh>, n: int, q: bool)
    requires 0 <= n < v.len(), w == v.update(n, w[n]), w[n].part(!q) == v[n].part(!q)
    ensures forall|m: u128, x: u128| m < 128 && x <= 1 && w[n].part(q) == v[n].part(q) ^ (x << m) ==> #[trigger] flips(v, w, q, 128 * n + m, x)
{
    assert forall|m: u128, x: u128| m < 128 && x <= 1 && w[n].part(q) == v[n].part(q) ^ (x << m) implies #[trigger] flips(v, w, q, 128 * n + m, x) by {
        assert forall|p: int, r: bool| 0 <= p < 128 * v.len() implies #[trigger] bit_p(w, r, p) == (if r == q && p == 128 * n + m { bit_p(v, r, p) ^ x } else { bit_p(v, r, p) }) by {
            let b = (p % 128) as u128;
            assert(comp(w, r)[p / 128] == w[p / 128].part(r)); assert(comp(v, r)[p / 128] == v[p / 128].part(r));
            if p / 128 == n { if r == q { flip(v[n].part(q), x, m, b); } else { assert(r == !q); } }
        }
    }
}
/// contract of the AND protocol (C04): c is a AND b, position by position
pub uninterp spec fn is_and(a: Seq<Sh>, b: Seq<Sh>, c: Seq<Sh>) -> bool;
/// the first triples of an AND of two lists
pub open spec fn generated(t: Triples) -> bool { exists|a: Seq<Sh>, b: Seq<Sh>, c: Seq<Sh>| #[trigger] is_and(a, b, c) && t.len() <= a.len() && a.len() == b.len() && a.len() == c.len() && t.a@ == a.subrange(0, t.len() as int) && t.b@ == b.subrange(0, t.len() as int) && t.c@ == c.subrange(0, t.len() as int) }
impl Triples { pub open spec fn prefix_of(self, o: Triples) -> bool { self.len() <= o.len() && o.a@.subrange(0, self.len() as int) == self.a@ && o.b@.subrange(0, self.len() as int) == self.b@ && o.c@.subrange(0, self.len() as int) == self.c@ } }
pub open spec fn ceil128(n: int) -> int { (n + 127) / 128 }
#[verifier::external_body] pub fn split(v: &Vec<Sh>, n: usize) -> (r: (Vec<Sh>, Vec<Sh>)) requires n <= v@.len() ensures r.0@ == v@.subrange(0, n as int), r.1@ == v@.subrange(n as int, v@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn pop(v: &mut Vec<Sh>) -> (r: Sh) requires old(v)@.len() > 0 ensures r == old(v)@.last(), final(v)@ == old(v)@.drop_last() { unimplemented!() }
/// gates waiting are checked against as many triples of the pool, and those that could have been used are gone from it
pub open spec fn queue_done(s: SpdzWise, o: SpdzWise, r: Result<(), Error>) -> bool {
    let n = s.triple_buffer.len();
    let m = umax(n as usize, 8192) as nat;
    if n == 0 { r is Ok && o == s } else {
        &&& o.triple_buffer.whole() && o.triple_buffer.len() == 0
        &&& m > s.prec_triples.len() ==> r is Err
        &&& m <= s.prec_triples.len() ==> o.prec_triples.a@ == s.prec_triples.a@.skip(m as int) && o.prec_triples.b@ == s.prec_triples.b@.skip(m as int) && o.prec_triples.c@ == s.prec_triples.c@.skip(m as int)
        &&& r is Ok ==> o.checked@ == s.checked@.push((s.triple_buffer.a@, s.triple_buffer.b@, s.triple_buffer.c@))
        &&& m <= s.prec_triples.len() && r is Err ==> !(r->Err_0 is NotEnoughTriplesError)
    }
}
pub struct ChaCha12Rng { pub x: u8 }
impl Rng for ChaCha12Rng { #[verifier::external_body] fn from_seed(s: Seed) -> Self { unimplemented!() } #[verifier::external_body] fn gen_range(&mut self, lo: usize, hi: usize) -> usize { unimplemented!() } }
pub struct SpdzWise { pub prec_triples: Triples, pub triple_buffer: Triples, pub checked: Ghost<Seq<(Seq<Sh>, Seq<Sh>, Seq<Sh>)>> }
impl SpdzWise {
    pub open spec fn same_triples(self, o: Self) -> bool { self.prec_triples == o.prec_triples && self.triple_buffer == o.triple_buffer && self.checked == o.checked }
    #[verifier::external_body] pub fn coin<R>(&mut self) -> (r: Result<Seed, Error>) ensures r is Err ==> !(r->Err_0 is NotEnoughTriplesError), final(self).same_triples(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn rands(&mut self, n: usize) -> (r: Vec<Sh>) ensures r@.len() == n, final(self).same_triples(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn aby3_and_many(&mut self, a: &Vec<Sh>, b: &Vec<Sh>) -> (r: Result<Vec<Sh>, Error>) requires a@.len() == b@.len() ensures r is Ok ==> r->Ok_0@.len() == a@.len() && is_and(a@, b@, r->Ok_0@), final(self).same_triples(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn aby3_open_bin_many(&mut self, a: Vec<Sh>) -> (r: Result<Vec<u128>, Error>) ensures r is Ok ==> r->Ok_0@.len() == a@.len(), final(self).same_triples(*old(self)) { unimplemented!() }
    /// every triple a, b, c is checked by sacrificing the triple of the same position (soundness: C15)
    #[verifier::external_body] pub fn verify_triples(&mut self, a: &Vec<Sh>, b: &Vec<Sh>, c: &Vec<Sh>, x: Vec<Sh>, y: Vec<Sh>, z: Vec<Sh>) -> (r: Result<(), Error>)
        requires a@.len() == b@.len(), a@.len() == c@.len(), a@.len() == x@.len(), a@.len() == y@.len(), a@.len() == z@.len()
        ensures r is Ok ==> final(self).checked@ == old(self).checked@.push((a@, b@, c@)), final(self).prec_triples == old(self).prec_triples, final(self).triple_buffer == old(self).triple_buffer, r is Err ==> !(r->Err_0 is NotEnoughTriplesError) { unimplemented!() }
    pub open spec fn at_a() -> bool { true }
    pub open spec fn at_b() -> bool { false }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn swap_bit
//@ all "Aby3Share<u128>" => "Sh"
//@ all "\.to_owned\(\)" => ""
//@ re "a: &mut \[Sh\], i: usize, j: usize\)" => "a: &mut Vec<Sh>, i: usize, j: usize) requires i < 128 * old(a)@.len(), j < 128 * old(a)@.len() ensures final(a)@.len() == old(a)@.len(), forall|p: int, q: bool| 0 <= p < 128 * old(a)@.len() ==> #[trigger] bit_p(final(a)@, q, p) == bit_p(old(a)@, q, exch(i as int, j as int, p))"
//@ all "a\[(\w+)\]\.([ab])\.get_bit\((\w+)\)" => "get_bit(a[\1].\2, \3)"
//@ all "a\[(\w+)\]\.([ab]) \^= (\w+) << (\w+) as u32;" => "{ let ghost v = a@; let mut w = a[\1]; w.\2 = w.\2 ^ (\3 << \4 as u32); a.set(\1, w); proof { upd(v, a@, \1 as int, Self::at_\2()); let m = \4 as u128; assert(flips(v, a@, Self::at_\2(), 128 * \1 + m, \3)); } }"
//@ all "let xor = (\w+) \^ (\w+);" => "let xor = \1 ^ \2; proof { let (s, t) = (\1, \2); assert(s ^ t <= 1 && s ^ (s ^ t) == t && t ^ (s ^ t) == s) by (bit_vector) requires s <= 1, t <= 1; } let ghost (ss, tt, v0) = (\1, \2, a@);"
//@ end

//@ extract iris-mpc/src/spdzwise/protocol.rs fn permute
//@ all "&mut \[Aby3Share<u128>\]" => "&mut Vec<Sh>"
//@ all "\s*\.await" => ""
//@ all "async fn" => "fn"
//@ re "where[^{]*\{" => "{"
//@ re "<R: Rng \+ SeedableRng>" => "<R: Rng>"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires 128 * old(a)@.len() <= usize::MAX ensures final(self).same_triples(*old(self)), final(a)@.len() == old(a)@.len(), final(b)@.len() == old(b)@.len(), final(c)@.len() == old(c)@.len(), r is Err ==> !(r->Err_0 is NotEnoughTriplesError), r is Ok ==> old(a)@.len() == old(b)@.len() && old(a)@.len() == old(c)@.len() && same_perm(old(a)@, old(b)@, old(c)@, final(a)@, final(b)@, final(c)@)"
//@ re "for (\w+) in 0\.\.bitlen \{" => "let ghost mut f = Seq::new(bitlen as nat, |p: int| p); for \1 in 0..bitlen invariant len == a@.len(), len == b@.len(), len == c@.len(), bitlen == 128 * len, a@.len() == old(a)@.len(), b@.len() == old(b)@.len(), c@.len() == old(c)@.len(), self.same_triples(*old(self)), perm(f, bitlen as int), permuted(old(a)@, a@, f), permuted(old(b)@, b@, f), permuted(old(c)@, c@, f) { proof { let ghost g = f; }"
//@ re "let i = ([^;]*);" => "let i = \1; let ghost (g, a0, b0, c0) = (f, a@, b@, c@); proof { f = Seq::new(bitlen as nat, |p: int| g[exch(i as int, j as int, p)]); assert(perm(f, bitlen as int)); }"
//@ all "gen_range\((\w+)\.\.(\w+)\)" => "gen_range(\1, \2)"
//@ re "Ok\(\(\)\)" => "proof { assert(same_perm(old(a)@, old(b)@, old(c)@, a@, b@, c@)); } Ok(())"
//@ end

//@ extract iris-mpc/src/spdzwise/protocol.rs fn generate_triples
//@ all "\s*\.await" => ""
//@ all "async fn" => "fn"
//@ re "where[^{]*\{" => "{"
//@ re "<R: Rng \+ SeedableRng>" => "<R: Rng>"
//@ all "\(0\.\.([^)]*)\)\s*\.map\(\|_\| self\.aby3\.prf\.gen_rand::<u128>\(\)\)\s*\.collect::<Vec<_>>\(\)" => "self.rands(\1)"
//@ all "::<u128>" => ""
//@ all "std::cmp::max\(" => "max("
//@ all "\.to_owned\(\) & &" => " & "
//@ all "(\w+)\.split_at\((\w+)\)" => "split(&\1, \2)"
//@ all "(\w+)\.pop\(\)\s*\.expect\([^)]*\)" => "pop(&mut \1)"
//@ all "1usize << \(20 - 7\)" => "8192"
//@ re "-> Result<Triples, Error>" => "-> (r: Result<Triples, Error>) requires num <= usize::MAX / 1024 ensures r is Ok ==> r->Ok_0.whole() && r->Ok_0.len() == umax(num, 8192) && generated(r->Ok_0), r is Ok ==> final(self).checked@ == old(self).checked@.push((r->Ok_0.a@, r->Ok_0.b@, r->Ok_0.c@)), final(self).prec_triples == old(self).prec_triples, final(self).triple_buffer == old(self).triple_buffer"
//@ re "Ok\(Triples" => "proof { assert(is_and(a@, b@, c@) && a_triple@ == a@.subrange(0, n as int)); } Ok(Triples"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn verify_triple_queue
//@ all "\s*\.await" => ""
//@ all "async fn" => "fn"
//@ re "where[^{]*\{" => "{"
//@ re "<R: Rng \+ SeedableRng>" => "<R: Rng>"
//@ re "triple_buffer\.len\(\)" => "triple_buffer.length()"
//@ all "std::cmp::max\(" => "max("
//@ all "1usize << \(20 - 7\)" => "8192"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires old(self).prec_triples.whole(), old(self).triple_buffer.ok(), 128 * old(self).triple_buffer.len() <= usize::MAX ensures final(self).prec_triples.whole(), queue_done(*old(self), *final(self), r)"
//@ re "get\(len_\)\?;" => "get(len_)?; proof { let o = old(self).prec_triples; let m = len_ as int; assert(o.a@.skip(m) =~= self.prec_triples.a@); assert(o.b@.skip(m) =~= self.prec_triples.b@); assert(o.c@.skip(m) =~= self.prec_triples.c@); }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn precompute_and_triples
//@ all "\s*\.await" => ""
//@ all "async fn" => "fn"
//@ re "prec_triples\.len\(\)" => "prec_triples.length()"
//@ all "std::cmp::max\(" => "max("
//@ all "1usize << \(20 - 7\)" => "8192"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires old(self).prec_triples.whole(), amount <= usize::MAX / 2048 ensures final(self).prec_triples.whole(), final(self).triple_buffer == old(self).triple_buffer, r is Ok ==> final(self).prec_triples.len() >= ceil128(amount as int) && final(self).prec_triples.len() >= 8192, old(self).prec_triples.prefix_of(final(self).prec_triples), r is Ok && old(self).prec_triples.len() < umax(((amount + 127) / 128) as usize, 8192) ==> exists|t: Triples| #[trigger] generated(t) && t.whole() && final(self).prec_triples.a@ == old(self).prec_triples.a@ + t.a@ && final(self).prec_triples.b@ == old(self).prec_triples.b@ + t.b@ && final(self).prec_triples.c@ == old(self).prec_triples.c@ + t.c@"
//@ re "let ands" => "proof { let n = self.prec_triples.len() as int; assert(self.prec_triples.a@.subrange(0, n) =~= self.prec_triples.a@); assert(self.prec_triples.b@.subrange(0, n) =~= self.prec_triples.b@); assert(self.prec_triples.c@.subrange(0, n) =~= self.prec_triples.c@); } let ands"
//@ re "Ok\(\(\)\)" => "proof { let n = old(self).prec_triples.len() as int; assert(self.prec_triples.a@.subrange(0, n) =~= old(self).prec_triples.a@); assert(self.prec_triples.b@.subrange(0, n) =~= old(self).prec_triples.b@); assert(self.prec_triples.c@.subrange(0, n) =~= old(self).prec_triples.c@); } Ok(())"
//@ end
}

// ---------------------------------------------------------------- what a query uses and what it asks for
pub trait Width { spec fn kk() -> nat; proof fn k_ok() ensures 2 <= Self::kk() <= 128; fn k() -> (r: usize) ensures r == Self::kk(); }
pub struct Code { pub x: u8 }
pub struct Mask { pub x: u8 }
pub struct Bits { pub n: Ghost<nat> }
pub struct Slice<T> { pub n: Ghost<nat>, pub t: Ghost<Option<T>> }
impl<T> Slice<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n@ { unimplemented!() }
}
pub open spec fn chunk_len(n: int, size: int, i: int) -> int { if n - i * size >= size { size } else { n - i * size } }
/// slice::chunks: panics for size 0; all chunks are full but the last, which has the rest
#[verifier::external_body] pub fn chunk_count<T>(v: &Slice<T>, size: usize) -> (r: usize) requires size > 0 ensures r == (v.n@ + size - 1) / size as int { unimplemented!() }
#[verifier::external_body] pub fn chunk_of<T>(v: &Slice<T>, size: usize, i: usize) -> (r: Slice<T>) requires size > 0, i < (v.n@ + size - 1) / size as int ensures r.n@ == chunk_len(v.n@ as int, size as int, i as int) { unimplemented!() }
impl Bits {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.n@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Bits) ensures final(self).n@ == old(self).n@ + o.n@ { unimplemented!() }
}
pub open spec fn gates(k: int) -> int { 2 * k - 3 }
/// used: registers of gates waiting for verification; pool: registers of triples
pub struct Mpc<T> { pub used: Ghost<nat>, pub pool: Ghost<nat>, pub t: Ghost<Option<T>> }
impl<T: Width> Mpc<T> {
    /// as proved above
    #[verifier::external_body] pub fn precompute_and_triples(&mut self, amount: usize) -> (r: Result<(), Error>) requires amount <= usize::MAX / 2048 ensures final(self).used == old(self).used, r is Ok ==> final(self).pool@ >= ceil128(amount as int) && final(self).pool@ >= 8192 { unimplemented!() }
    /// measured on the compiled engine (obligations "provision of a query"): an OR over n bits uses one register per 128 bits
    #[verifier::external_body] pub fn reduce_binary_or(&mut self, a: Bits, chunk_size: usize) -> (r: Result<bool, Error>) requires a.n@ > 0, chunk_size > 0 ensures final(self).pool == old(self).pool, final(self).used@ == old(self).used@ + ceil128(a.n@ as int) { unimplemented!() }
    /// verify_triple_queue as proved above: what is waiting has to be in the pool
    #[verifier::external_body] pub fn verify(&mut self) -> (r: Result<(), Error>) requires old(self).used@ == 0 || (old(self).used@ <= old(self).pool@ && old(self).pool@ >= 8192) ensures r is Ok ==> final(self).used@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn open_bit(&mut self, a: bool) -> (r: Result<bool, Error>) ensures *final(self) == *old(self) { unimplemented!() }
}
pub struct IrisProtocol<T> { pub mpc: Mpc<T> }
pub open spec fn words(n: int, size: int, i: int) -> int { if i <= n / size { i * ceil128(size) } else { (n / size) * ceil128(size) + ceil128(n % size) } }
impl<T: Width> IrisProtocol<T> {
    /// measured on the compiled engine (obligations "provision of a query"): 2K - 3 gates per 128 comparisons
    #[verifier::external_body] pub fn compare_iris_many(&mut self, a: &Code, b: &Slice<Code>, m: &Mask, n: &Slice<Mask>) -> (r: Result<Bits, Error>) ensures final(self).mpc.pool == old(self).mpc.pool, final(self).mpc.used@ == old(self).mpc.used@ + gates(T::kk() as int) * ceil128(b.n@ as int), r is Ok ==> r->Ok_0.n@ == b.n@ { unimplemented!() }
//@ extract iris-mpc/src/iris/protocol.rs fn padded_to_128
//@ re "-> usize" => "-> (r: usize) requires amount <= usize::MAX - 127 ensures r == 128 * ceil128(amount as int)"
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn msb_and_gates
//@ all "T::Share::K" => "T::k()"
//@ re "-> usize" => "-> (r: usize) requires chunk_size > 0, amount <= 0x1_0000_0000, chunk_size <= 0x1_0000_0000 ensures r >= gates(T::kk() as int) * 128 * words(amount as int, chunk_size as int, amount as int / chunk_size as int + 1), r <= 0x2_0000_0000_0000"
//@ re "let lanes =" => "proof { T::k_ok(); bound(amount as int, chunk_size as int); } let lanes ="
//@ re "lanes \* \(" => "proof { let n = (amount as int / chunk_size as int); let w = ceil128(chunk_size as int); assert(n * (128 * w) == 128 * (n * w)) by (nonlinear_arith); let g = gates(T::kk() as int); let l = lanes as int; assert(l * g == g * 128 * (l / 128)) by (nonlinear_arith) requires l == 128 * (l / 128); assert forall|f: int| g <= f <= 400 implies l * g <= #[trigger] (l * f) <= 0x2_0000_0000_0000 by { assert(l * g <= l * f <= 400 * (0x80_0000_0000 + 256)) by (nonlinear_arith) requires 1 <= g <= f <= 400, 0 <= l <= 0x80_0000_0000 + 256; } } lanes * ("
//@ end
//@ extract iris-mpc/src/iris/protocol.rs fn iris_in_db
//@ all "\s*\.await" => ""
//@ all "async fn" => "fn"
//@ re "iris: &Ashare::VecShare" => "iris: &Code"
//@ re "db: &\[Ashare::VecShare\]" => "db: &Slice<Code>"
//@ re "mask_iris: &IrisCodeArray" => "mask_iris: &Mask"
//@ re "mask_db: &\[IrisCodeArray\]" => "mask_db: &Slice<Mask>"
//@ all "Bshare::VecShare" => "Bits"
//@ re "-> Result<bool, Error>" => "-> (r: Result<bool, Error>) requires old(self).mpc.used@ == 0, chunk_size > 0, db.n@ <= 0x1_0000_0000, chunk_size <= 0x1_0000_0000 ensures r is Ok ==> final(self).mpc.used@ == 0"
//@ re "let num_and_triples =\s*([^;]*);" => "proof { T::k_ok(); } let num_and_triples = \1; proof { let g = gates(T::kk() as int); let n = amount as int; let s = chunk_size as int; let w = words(n, s, n / s + 1); assert(g * 128 * w == 128 * (g * w)) by (nonlinear_arith); assert(g * w >= 0) by (nonlinear_arith) requires 128 * (g * w) >= 0; assert(ceil128(num_and_triples as int) >= g * w + ceil128(n)); }"
//@ re "for \((\w+), (\w+)\) in db\.chunks\(chunk_size\)\.zip\(mask_db\.chunks\(chunk_size\)\) \{" => "let count = chunk_count(db, chunk_size); proof { counted(amount as int, chunk_size as int); } for i in 0..count invariant chunk_size > 0, amount == db.n@, amount == mask_db.n@, count == (amount + chunk_size - 1) / chunk_size as int, T::kk() >= 2, self.mpc.used@ == gates(T::kk() as int) * words(amount as int, chunk_size as int, i as int), bool_shares.n@ == (if i * chunk_size <= amount { i * chunk_size } else { amount as int }), self.mpc.pool@ >= 8192, self.mpc.pool@ >= gates(T::kk() as int) * words(amount as int, chunk_size as int, amount as int / chunk_size as int + 1) + ceil128(amount as int) { let \1 = chunk_of(db, chunk_size, i); let \2 = chunk_of(mask_db, chunk_size, i); proof { step(amount as int, chunk_size as int, i as int); let (g, x, y) = (gates(T::kk() as int), words(amount as int, chunk_size as int, i as int), ceil128(chunk_len(amount as int, chunk_size as int, i as int))); assert(g * (x + y) == g * x + g * y) by (nonlinear_arith); }"
//@ re "compare_iris_many\(iris, (\w+), mask_iris, (\w+)\)" => "compare_iris_many(iris, &\1, mask_iris, &\2)"
//@ end
}
/// the words of all chunks, and how many elements they have
proof fn counted(n: int, size: int) requires n >= 0, size > 0
    ensures words(n, size, 0) == 0, words(n, size, (n + size - 1) / size) == words(n, size, n / size + 1), n <= ((n + size - 1) / size) * size
{
    let (q, r, m) = (n / size, n % size, (n + size - 1) / size);
    assert(n == size * q + r && 0 <= r < size && q >= 0) by (nonlinear_arith) requires q == n / size, r == n % size, n >= 0, size > 0;
    if r == 0 { assert(m == q) by (nonlinear_arith) requires n == size * q, size > 0, m == (n + size - 1) / size; assert(ceil128(0) == 0); assert(m * size == n) by (nonlinear_arith) requires n == size * q, m == q; }
    else { assert(m == q + 1) by (nonlinear_arith) requires n == size * q + r, 0 < r < size, m == (n + size - 1) / size; assert(m * size >= n) by (nonlinear_arith) requires n == size * q + r, 0 <= r < size, m == q + 1; }
    assert(words(n, size, 0) == 0) by { assert(0 * ceil128(size) == 0) by (nonlinear_arith); }
}
proof fn step(n: int, size: int, i: int) requires size > 0, 0 <= i < (n + size - 1) / size, n >= 0
    ensures words(n, size, i + 1) == words(n, size, i) + ceil128(chunk_len(n, size, i)), i * size <= n, (i + 1) * size == i * size + size, (i + 1) * size <= n ==> chunk_len(n, size, i) == size, (i + 1) * size > n ==> chunk_len(n, size, i) == n - i * size
{
    let (q, r, m) = (n / size, n % size, (n + size - 1) / size);
    assert(n == size * q + r && 0 <= r < size && q >= 0) by (nonlinear_arith) requires q == n / size, r == n % size, n >= 0, size > 0;
    assert((i + 1) * size == i * size + size) by (nonlinear_arith);
    assert((i + 1) * ceil128(size) == i * ceil128(size) + ceil128(size)) by (nonlinear_arith);
    assert(m <= q + 1) by (nonlinear_arith) requires n == size * q + r, 0 <= r < size, m == (n + size - 1) / size;
    if i < q { assert((i + 1) * size <= size * q) by (nonlinear_arith) requires i + 1 <= q, size > 0; }
    else { assert(i == q); assert(i * size == size * q) by (nonlinear_arith) requires i == q; }
}
proof fn bound(n: int, size: int) requires n >= 0, size > 0, n <= 0x1_0000_0000, size <= 0x1_0000_0000 ensures (n / size) * (128 * ceil128(size)) + 128 * ceil128(n % size) <= 0x80_0000_0000 + 256, 0 <= (n / size) * (128 * ceil128(size)), (n / size) * (128 * ceil128(size)) % 128 == 0
{
    let (q, r, w) = (n / size, n % size, ceil128(size));
    assert(n == size * q + r && 0 <= r < size && q >= 0) by (nonlinear_arith) requires q == n / size, r == n % size, n >= 0, size > 0;
    assert(128 * w <= 128 * size);
    assert(q * (128 * w) <= q * (128 * size)) by (nonlinear_arith) requires q >= 0, 128 * w <= 128 * size;
    assert(q * (128 * size) == 128 * (size * q)) by (nonlinear_arith);
    assert(q * (128 * w) == 128 * (q * w)) by (nonlinear_arith);
    assert(q * (128 * w) >= 0) by (nonlinear_arith) requires q >= 0, w >= 0;
    assert(r <= n && 128 * ceil128(r) <= 128 * r + 127 + 1) by { assert(size * q >= 0) by (nonlinear_arith) requires q >= 0, size > 0; }
}
fn main() {}
}
