// ---------------------------------------------------------------- registers
/// a register shared by xor: this party's components and the word it opens to; the local operations act on it as on
/// the word (C02)
pub struct Reg { pub a: u128, pub b: u128, pub c: u128, pub v: Ghost<u128> }
impl Reg {
    pub open spec fn w(self) -> u128 { self.v@ }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub fn xor_reg(a: Reg, b: Reg) -> (r: Reg) ensures r.w() == a.w() ^ b.w() { unimplemented!() }
#[verifier::external_body] pub fn xor_into(a: &mut Reg, b: Reg) ensures final(a).w() == old(a).w() ^ b.w() { unimplemented!() }
/// r is a shifted to the left by n, as a word of kk bits
pub open spec fn shifted(r: u128, a: u128, n: int, kk: int) -> bool { forall|k: int| 0 <= k < kk ==> #[trigger] bit(r, k) == (k >= n && bit(a, k - n)) }
#[verifier::external_body] pub fn shl_reg(a: Reg, n: u32, kk: usize) -> (r: Reg) requires n < kk ensures shifted(r.w(), a.w(), n as int, kk as int) { unimplemented!() }
#[verifier::external_body] pub fn shl_into(a: &mut Reg, n: u32, kk: usize) requires n < kk ensures shifted(final(a).w(), old(a).w(), n as int, kk as int) { unimplemented!() }
#[verifier::external_body] pub fn copy_list(v: &Vec<Reg>) -> (r: Vec<Reg>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn append(v: &mut Vec<Reg>, w: Vec<Reg>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn part(v: &Vec<Reg>, i: usize, j: usize) -> (r: Vec<Reg>) requires i <= j <= v@.len() ensures r@ == v@.subrange(i as int, j as int) { unimplemented!() }
/// (v[..mid], v[mid..])
pub fn slice_split(v: &Vec<Reg>, mid: usize) -> (r: (Vec<Reg>, Vec<Reg>)) requires mid <= v@.len() ensures r.0@ == v@.take(mid as int), r.1@ == v@.skip(mid as int) { let a = part(v, 0, mid); let b = part(v, mid, v.len()); (a, b) }
pub open spec fn xored(r: Seq<Reg>, a: Seq<Reg>, b: Seq<Reg>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).w() == a[i].w() ^ b[i].w() }
pub open spec fn anded(r: Seq<Reg>, a: Seq<Reg>, b: Seq<Reg>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).w() == a[i].w() & b[i].w() }
pub open spec fn all_shifted(r: Seq<Reg>, a: Seq<Reg>, n: int, kk: int) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> shifted((#[trigger] r[i]).w(), a[i].w(), n, kk) }
/// the pieces of `size` elements, the last one may be shorter
pub open spec fn piece(x: Seq<Reg>, c: int, size: int) -> Seq<Reg> { x.subrange(c * size, if x.len() - c * size < size { x.len() as int } else { c * size + size }) }
pub open spec fn pieces(r: int, n: int, size: int) -> bool { r >= 0 && (r - 1) * size < n <= r * size }
#[verifier::external_body] pub fn chunk_count(v: &Vec<Reg>, size: usize) -> (r: usize) requires size > 0 ensures pieces(r as int, v@.len() as int, size as int) { unimplemented!() }
/// v.chunks(size)[c]
#[verifier::external_body] pub fn chunk(v: &Vec<Reg>, size: usize, c: usize) -> (r: Vec<Reg>) requires size > 0, c * size < v@.len() ensures r@ == piece(v@, c as int, size as int) { unimplemented!() }
proof fn inside_piece(c: int, n: int, len: int, size: int) requires 0 <= c < n, pieces(n, len, size), size > 0 ensures 0 <= c * size < len
{ assert(c * size <= (n - 1) * size) by (nonlinear_arith) requires c <= n - 1, size > 0; assert(0 <= c * size) by (nonlinear_arith) requires 0 <= c, size > 0; }
proof fn capacity_fits(n: int, size: int) requires n >= 0, size > 0 ensures 0 <= n / size, size == 1 ==> n % size == 0, size >= 2 ==> n / size <= n / 2
{ lemma_div_pos_is_pos(n, size); if size >= 2 { lemma_div_is_ordered_by_denominator(n, 2, size); } else { assert(n % 1 == 0); } }
/// VecShareTrait
pub trait VecShare: Sized {
    spec fn at(&self) -> Seq<Reg>;
    fn len(&self) -> (r: usize) ensures r == self.at().len();
    fn xor_many(self, b: Self) -> (r: Result<Self, Error>) ensures r is Ok == (self.at().len() == b.at().len()), r is Ok ==> xored(r->Ok_0.at(), self.at(), b.at());
    fn xor_assign_many(&mut self, b: Self) -> (r: Result<Self, Error>) ensures r is Ok == (old(self).at().len() == b.at().len()), r is Ok ==> xored(final(self).at(), old(self).at(), b.at()) && r->Ok_0.at() == final(self).at();
    fn shl_assign_many(&mut self, shift: u32, kk: usize) -> (r: Self) requires shift < kk ensures all_shifted(final(self).at(), old(self).at(), shift as int, kk as int), r.at() == final(self).at();
    fn with_capacity(capacity: usize) -> (r: Self) ensures r.at().len() == 0;
    fn push(&mut self, value: Reg) ensures final(self).at() == old(self).at().push(value);
    fn extend(&mut self, other: Self) ensures final(self).at() == old(self).at() + other.at();
    fn split_at(&self, mid: usize) -> (r: (Self, Self)) requires mid <= self.at().len() ensures r.0.at() == self.at().take(mid as int), r.1.at() == self.at().skip(mid as int);
    fn chunks(self, chunk_size: usize) -> (r: Vec<Self>) requires chunk_size > 0 ensures pieces(r@.len() as int, self.at().len() as int, chunk_size as int), forall|c: int| 0 <= c < r@.len() ==> (#[trigger] r@[c]).at() == piece(self.at(), c, chunk_size as int);
    fn get_at(&self, index: usize) -> (r: Reg) requires index < self.at().len() ensures r == self.at()[index as int];
    fn to_owned(&self) -> (r: Self) ensures r.at() == self.at();
}
//@ each L file | Aby3List aby3 | Swift3List swift3
pub struct $L { pub v: Vec<Reg> }
impl VecShare for $L {
    open spec fn at(&self) -> Seq<Reg> { self.v@ }
    fn len(&self) -> (r: usize) { self.v.len() }
    fn to_owned(&self) -> (r: Self) { $L { v: copy_list(&self.v) } }
//@ extract iris-mpc/src/$file/vecshare.rs fn xor_many
//@ re "^.*?\bfn xor_many\b[^{]*\{" => "fn xor_many(self, b: Self) -> (r: Result<Self, Error>) {"
//@ re "let res = self\.into_iter\(\)\.zip\(b\)\.map\(\|\((\w+), (\w+)\)\| (\w+) \^ (\w+)\)\.collect\(\);" => "let mut res: Vec<Reg> = Vec::new(); let n_ = self.v.len(); for i_ in 0..n_ invariant n_ == self.v@.len(), n_ == b.v@.len(), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] res@[i]).w() == self.v@[i].w() ^ b.v@[i].w() { let \1 = self.v[i_].to_owned(); let \2 = b.v[i_].to_owned(); res.push(xor_reg(\3, \4)); } let res = $L { v: res };"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn xor_assign_many
//@ re "^.*?\bfn xor_assign_many\b[^{]*\{" => "fn xor_assign_many(&mut self, b: Self) -> (r: Result<Self, Error>) { let ghost was = self.v@;"
//@ re "for \((\w+), (\w+)\) in self\.iter_mut\(\)\.zip\(b\) \{\s*\*(\w+) \^= (\w+);\s*\}" => "let n_ = self.v.len(); for i_ in 0..n_ invariant n_ == self.v@.len(), n_ == b.v@.len(), n_ == was.len(), forall|i: int| 0 <= i < i_ ==> (#[trigger] self.v@[i]).w() == was[i].w() ^ b.v@[i].w(), forall|i: int| i_ <= i < n_ ==> #[trigger] self.v@[i] == was[i] { let mut \1 = self.v[i_].to_owned(); let \2 = b.v[i_].to_owned(); xor_into(&mut \3, \4); self.v.set(i_, \3); }"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn shl_assign_many
//@ re "^.*?\bfn shl_assign_many\b[^{]*\{" => "fn shl_assign_many(&mut self, shift: u32, kk: usize) -> (r: Self) { let ghost was = self.v@;"
//@ re "for (\w+) in self\.iter_mut\(\) \{\s*\*(\w+) <<= (\w+);\s*\}" => "let n_ = self.v.len(); for i_ in 0..n_ invariant n_ == self.v@.len(), n_ == was.len(), shift < kk, forall|i: int| 0 <= i < i_ ==> shifted((#[trigger] self.v@[i]).w(), was[i].w(), shift as int, kk as int), forall|i: int| i_ <= i < n_ ==> #[trigger] self.v@[i] == was[i] { let mut \1 = self.v[i_].to_owned(); shl_into(&mut \2, \3, kk); self.v.set(i_, \1); }"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn with_capacity
//@ re "^.*?\bfn with_capacity\b[^{]*\{(.*)\}\s*$" => "fn with_capacity(capacity: usize) -> (r: Self) { let v: Vec<Reg> = { \1 }; $L { v } }"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn push
//@ re "^.*?\bfn push\b[^{]*\{" => "fn push(&mut self, value: Reg) {"
//@ re "Vec::push\(self, value\);" => "self.v.push(value);"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn extend
//@ re "^.*?\bfn extend\b[^{]*\{" => "fn extend(&mut self, other: Self) {"
//@ re "<Vec<_> as std::iter::Extend<_>>::extend\(self, other\);" => "append(&mut self.v, other.v);"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn split_at
//@ re "^.*?\bfn split_at\b[^{]*\{" => "fn split_at(&self, mid: usize) -> (r: (Self, Self)) {"
//@ re "self\[\.\.\]\.split_at\((\w+)\);" => "slice_split(&self.v, \1);"
//@ re "(\w+)\.to_owned\(\), (\w+)\.to_owned\(\)" => "$L { v: copy_list(&\1) }, $L { v: copy_list(&\2) }"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn chunks
//@ re "^.*?\bfn chunks\b[^{]*\{" => "fn chunks(self, chunk_size: usize) -> (r: Vec<Self>) { proof { capacity_fits(self.v.len() as int, chunk_size as int); }"
//@ all "self\.len\(\)" => "self.v.len()"
//@ all "\((self\.[^;]*)\) as usize" => "(if \1 { 1usize } else { 0usize })"
//@ re "let mut res = Vec::with_capacity\((\w+)\);" => "let mut res: Vec<$L> = Vec::new();"
//@ re "for (\w+) in self\[\.\.\]\.chunks\(([^()]*)\) \{" => "let n_ = chunk_count(&self.v, \2); for i_ in 0..n_ invariant chunk_size > 0, pieces(n_ as int, self.v@.len() as int, chunk_size as int), res@.len() == i_, forall|c: int| 0 <= c < i_ ==> (#[trigger] res@[c]).at() == piece(self.v@, c, chunk_size as int) { proof { inside_piece(i_ as int, n_ as int, self.v@.len() as int, chunk_size as int); } let \1 = chunk(&self.v, \2, i_);"
//@ re "res\.push\((\w+)\.to_owned\(\)\);" => "res.push($L { v: copy_list(&\1) });"
//@ end
//@ extract iris-mpc/src/$file/vecshare.rs fn get_at
//@ re "^.*?\bfn get_at\b[^{]*\{" => "fn get_at(&self, index: usize) -> (r: Reg) {"
//@ all "self\[" => "self.v["
//@ end
}
//@ done

