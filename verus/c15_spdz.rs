// C15 / C14, SpdzWise: every value is waiting for its MAC to be checked until the check has succeeded, the check covers
// everything that waits, and an opening comes after it. Extraction directives are replaced by the text of the named
// function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include jmp.inc
//@ include iters.inc
// ---------------------------------------------------------------- elements and shares
/// ring elements: numbers modulo N (operators: C10)
pub uninterp spec fn n_() -> int;
pub axiom fn n_ok() ensures n_() > 1;
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct El { pub w: Ghost<int> }
pub open spec fn el(w: int) -> El { El { w: Ghost(w % n_()) } }
pub open spec fn ok(x: El) -> bool { 0 <= x.w@ < n_() }
pub uninterp spec fn el_enc(x: El) -> Seq<u8>;
pub uninterp spec fn el_size() -> nat;
pub axiom fn el_fixed(a: El, b: El) ensures el_enc(a).len() == el_size(), el_size() > 0, el_enc(a) == el_enc(b) ==> a == b;
proof fn el_ac(a: int, b: int, c: int) ensures (a + b) % n_() == (b + a) % n_(), ((a + b) % n_() + c) % n_() == (a + (b + c) % n_()) % n_()
{ n_ok(); vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b, c, n_()); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(c, a + b, n_()); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(a, b + c, n_()); }
impl Elem for El {
    open spec fn enc1(&self) -> Seq<u8> { el_enc(*self) }
    open spec fn size() -> nat { el_size() }
    proof fn fixed(a: Self, b: Self) { el_fixed(a, b); }
    open spec fn plus(a: Self, b: Self) -> Self { el(a.w@ + b.w@) }
    open spec fn exor(a: Self, b: Self) -> Self { el(a.w@ + b.w@) }
    proof fn plus_ac(a: Self, b: Self, c: Self) { el_ac(a.w@, b.w@, c.w@); }
    proof fn exor_ac(a: Self, b: Self, c: Self) { el_ac(a.w@, b.w@, c.w@); }
    #[verifier::external_body] fn add_to_hash(&self, h: &mut Sha512) { unimplemented!() }
    #[verifier::external_body] fn add_to_bytes(&self, other: &mut BytesMut) { unimplemented!() }
    #[verifier::external_body] fn to_bytes(self) -> Bytes { unimplemented!() }
    #[verifier::external_body] fn from_bytes_mut(o: BytesMut) -> Result<Self, Error> { unimplemented!() }
}
//@ each Tr SpecTr obeys req spec f R rhs how | Add AddSpecImpl obeys_add_spec add_req add_spec add El o.w@ + | Add AddSpecImpl obeys_add_spec add_req add_spec add &El o.w@ + | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub El o.w@ - | Sub SubSpecImpl obeys_sub_spec sub_req sub_spec sub &El o.w@ -
impl $SpecTr<$R> for El { open spec fn $obeys() -> bool { true } open spec fn $req(self, o: $R) -> bool { true } open spec fn $spec(self, o: $R) -> El { el(self.w@ $how $rhs) } }
impl $Tr<$R> for El { type Output = El; #[verifier::external_body] fn $f(self, o: $R) -> El { unimplemented!() } }
//@ done
impl NegSpecImpl for El { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> El { el(-self.w@) } }
impl Neg for El { type Output = El; #[verifier::external_body] fn neg(self) -> El { unimplemented!() } }
/// words of 128 bits
pub uninterp spec fn word_enc(x: u128) -> Seq<u8>;
pub axiom fn word_fixed(a: u128, b: u128) ensures word_enc(a).len() == 16, word_enc(a) == word_enc(b) ==> a == b;
impl Elem for u128 {
    open spec fn enc1(&self) -> Seq<u8> { word_enc(*self) }
    open spec fn size() -> nat { 16 }
    proof fn fixed(a: Self, b: Self) { word_fixed(a, b); }
    open spec fn plus(a: Self, b: Self) -> Self { a ^ b }
    open spec fn exor(a: Self, b: Self) -> Self { a ^ b }
    proof fn plus_ac(a: Self, b: Self, c: Self) { assert(a ^ b == b ^ a && (a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector); }
    proof fn exor_ac(a: Self, b: Self, c: Self) { assert(a ^ b == b ^ a && (a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector); }
    #[verifier::external_body] fn add_to_hash(&self, h: &mut Sha512) { unimplemented!() }
    #[verifier::external_body] fn add_to_bytes(&self, other: &mut BytesMut) { unimplemented!() }
    #[verifier::external_body] fn to_bytes(self) -> Bytes { unimplemented!() }
    #[verifier::external_body] fn from_bytes_mut(o: BytesMut) -> Result<Self, Error> { unimplemented!() }
}
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Share<S: Elem> { pub a: S, pub b: S }
impl<S: Elem> Share<S> {
    pub fn new(a: S, b: S) -> (r: Self) ensures r.a == a, r.b == b { Share { a, b } }
    pub fn get_ab(self) -> (r: (S, S)) ensures r == (self.a, self.b) { (self.a, self.b) }
    pub fn get_a(self) -> (r: S) ensures r == self.a { self.a }
    pub fn get_b(self) -> (r: S) ensures r == self.b { self.b }
}
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> Self { unimplemented!() } }
pub open spec fn minus(x: Share<El>, y: Share<El>) -> Share<El> { Share { a: el(x.a.w@ - y.a.w@), b: el(x.b.w@ - y.b.w@) } }
//@ each R rhs | Share<El> o | &Share<El> (*o)
impl SubSpecImpl<$R> for Share<El> { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: $R) -> bool { true } open spec fn sub_spec(self, o: $R) -> Share<El> { minus(self, $rhs) } }
impl Sub<$R> for Share<El> { type Output = Share<El>; #[verifier::external_body] fn sub(self, o: $R) -> Share<El> { unimplemented!() } }
//@ done
pub open spec fn sx(x: Share<u128>, y: Share<u128>) -> Share<u128> { Share { a: x.a ^ y.a, b: x.b ^ y.b } }
pub open spec fn sand(x: Share<u128>, y: u128) -> Share<u128> { Share { a: x.a & y, b: x.b & y } }
//@ each R rhs | Share<u128> o | &Share<u128> (*o)
impl BitXorSpecImpl<$R> for Share<u128> { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: $R) -> bool { true } open spec fn bitxor_spec(self, o: $R) -> Share<u128> { sx(self, $rhs) } }
impl BitXor<$R> for Share<u128> { type Output = Share<u128>; #[verifier::external_body] fn bitxor(self, o: $R) -> Share<u128> { unimplemented!() } }
//@ done
impl BitAndSpecImpl<u128> for Share<u128> { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, o: u128) -> bool { true } open spec fn bitand_spec(self, o: u128) -> Share<u128> { sand(self, o) } }
impl BitAnd<u128> for Share<u128> { type Output = Share<u128>; #[verifier::external_body] fn bitand(self, o: u128) -> Share<u128> { unimplemented!() } }
pub open spec fn firsts<S: Elem>(v: Seq<Share<S>>) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].a) }
pub open spec fn seconds<S: Elem>(v: Seq<Share<S>>) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].b) }
// ---------------------------------------------------------------- a share with its MAC, lists of them
/// what T::from_verificationshare keeps of a sum (C10)
pub struct Val { pub v: Ghost<int> }
pub uninterp spec fn low_(x: El) -> Val;
#[verifier::external_body] pub fn low(x: El) -> (r: Val) ensures r == low_(x) { unimplemented!() }
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct SShare { pub value: Share<El>, pub mac: Share<El> }
impl SShare {
    pub fn new(value: Share<El>, mac: Share<El>) -> (r: Self) ensures r.value == value, r.mac == mac { SShare { value, mac } }
    pub fn get(self) -> (r: (Share<El>, Share<El>)) ensures r == (self.value, self.mac) { (self.value, self.mac) }
    pub fn get_value(self) -> (r: Share<El>) ensures r == self.value { self.value }
    pub fn get_mac(self) -> (r: Share<El>) ensures r == self.mac { self.mac }
}
#[verifier::external_body] pub fn extend_with<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub struct VecShare { pub values: Vec<Share<El>>, pub macs: Vec<Share<El>> }
impl VecShare {
    pub open spec fn paired(&self) -> bool { self.values@.len() == self.macs@.len() }
    pub open spec fn joined(&self, o: VecShare, v: Seq<Share<El>>, m: Seq<Share<El>>) -> bool { self.values@ == o.values@ + v && self.macs@ == o.macs@ + m }
    pub fn default() -> (r: Self) ensures r.values@.len() == 0, r.macs@.len() == 0 { VecShare { values: Vec::new(), macs: Vec::new() } }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.values@.len() == 0) { self.values.len() == 0 }
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn get
//@ re "-> [^{]*\{" => "-> (r: (Vec<Share<El>>, Vec<Share<El>>)) ensures r.0 == self.values, r.1 == self.macs {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn get_values
//@ re "-> [^{]*\{" => "-> (r: Vec<Share<El>>) ensures r == self.values {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn len
//@ re "^fn" => "pub fn"
//@ re "debug_assert!\([^;]*\);" => ""
//@ re "-> [^{]*\{" => "-> (r: usize) ensures r == self.values@.len() {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn reserve
//@ re "^fn" => "pub fn"
//@ re "usize\) \{" => "usize) ensures final(self).values@ == old(self).values@, final(self).macs@ == old(self).macs@ {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn push
//@ re "^fn" => "pub fn"
//@ re "value: Self::Share\) \{" => "value: SShare) ensures final(self).values@ == old(self).values@.push(value.value), final(self).macs@ == old(self).macs@.push(value.mac) {"
//@ end
//@ extract iris-mpc/src/spdzwise/vecshare.rs fn extend
//@ re "^fn" => "pub fn"
//@ re "other: Self\) \{" => "other: Self) ensures final(self).joined(*old(self), other.values@, other.macs@) {"
//@ all "<Vec<_> as std::iter::Extend<_>>::extend\(" => "extend_with("
//@ all "self\.(values|macs)\.extend\(" => "extend_with(&mut self.\1, "
//@ end
}
// ---------------------------------------------------------------- the underlying engine
/// operations of the unverified engine, as events (their meaning: C03)
pub enum Own { Dots(Seq<Seq<Share<El>>>, Seq<Seq<Share<El>>>, Seq<Share<El>>), Muls(Seq<Share<El>>, Seq<Share<El>>, Seq<Share<El>>), Mul(Share<El>, Share<El>, Share<El>), Input(Option<El>, int, Share<El>), Switch(Seq<Share<El>>), Gates(Seq<(Gate, Gate, Gate)>), Sacrifice(Seq<(Gate, Gate, Gate)>) }
/// fresh common randomness (C17): the log is what has been drawn
pub struct Prf { pub log: Ghost<Seq<Share<El>>> }
impl Prf { #[verifier::external_body] pub fn rands(&mut self, n: usize) -> (r: Vec<Share<El>>) ensures r@.len() == n, final(self).log@ == old(self).log@ + r@ { unimplemented!() } }
pub struct Aby3 { pub network: Net, pub prf: Prf }
pub open spec fn two<T>(a: T, b: T) -> Seq<T> { seq![a, b] }
impl Aby3 {
    pub open spec fn did(self, o: Aby3, e: Own) -> bool { self.network.log@ == o.network.log@.push(Ev::Own(e)) && self.network.id == o.network.id && self.prf == o.prf }
    #[verifier::external_body] pub fn dot_many(e: &mut Aby3, a: &[Vec<Share<El>>; 2], b: &[Vec<Share<El>>; 2]) -> (r: Result<Vec<Share<El>>, Error>) ensures r is Ok ==> r->Ok_0@.len() == 2 && final(e).did(*old(e), Own::Dots(two(a@[0]@, a@[1]@), two(b@[0]@, b@[1]@), r->Ok_0@)), final(e).network.id == old(e).network.id { unimplemented!() }
    #[verifier::external_body] pub fn mul(e: &mut Aby3, a: Share<El>, b: Share<El>) -> (r: Result<Share<El>, Error>) ensures r is Ok ==> final(e).did(*old(e), Own::Mul(a, b, r->Ok_0)), final(e).network.id == old(e).network.id { unimplemented!() }
    #[verifier::external_body] pub fn mul_many(&mut self, a: Vec<Share<El>>, b: Vec<Share<El>>) -> (r: Result<Vec<Share<El>>, Error>) ensures r is Ok ==> r->Ok_0@.len() == a@.len() && final(self).did(*old(self), Own::Muls(a@, b@, r->Ok_0@)), final(self).network.id == old(self).network.id { unimplemented!() }
    #[verifier::external_body] pub fn input(e: &mut Aby3, i: Option<El>, id: usize) -> (r: Result<Share<El>, Error>) ensures r is Ok ==> final(e).did(*old(e), Own::Input(i, id as int, r->Ok_0)), final(e).network.id == old(e).network.id { unimplemented!() }
}
// ---------------------------------------------------------------- comparing that something is zero
/// what a party holding components (a, b) = (x_i, x_{i-1}) takes the three components to be if their sum is zero, in the order 0, 1, 2
pub open spec fn row<S>(id: int, a: S, b: S, n: S) -> Seq<S> { if id == 0 { seq![a, n, b] } else if id == 1 { seq![b, a, n] } else { seq![n, b, a] } }
pub open spec fn third(w: Share<El>) -> El { el(el(-w.a.w@).w@ - w.b.w@) }
pub open spec fn zero_digest(id: int, w: Share<El>) -> Seq<u8> { sha(enc(row(id, w.a, w.b, third(w)))) }
/// all three parties announce this digest
pub open spec fn all_say(d: Seq<u8>, h: Seq<Seq<u8>>) -> bool { h.len() == 3 && h[0] == d && h[1] == d && h[2] == d }
pub open spec fn said(l: Seq<Ev>, k: Seq<Ev>, d: Seq<u8>, h: Seq<Seq<u8>>) -> bool { all_say(d, h) && k == l.push(Ev::Bcast(d, h)) }
pub open spec fn compared(l: Seq<Ev>, k: Seq<Ev>, d: Seq<u8>) -> bool { exists|h: Seq<Seq<u8>>| #[trigger] said(l, k, d, h) }
/// component k of a shared list of three components
pub open spec fn held(x: Seq<El>, i: int) -> Share<El> { Share { a: x[i], b: x[if i == 0 { 2 } else { i - 1 }] } }
proof fn third_is(x: El, y: El, z: El)
    requires ok(x), ok(y), ok(z) ensures (third(Share { a: x, b: y }) == z) == ((x.w@ + y.w@ + z.w@) % n_() == 0)
{
    n_ok();
    let (a, b, c, n) = (x.w@, y.w@, z.w@, n_());
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(-a, b, n);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(-b, -a, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(-b, -a, n);
    assert(third(Share { a: x, b: y }).w@ == (-a - b) % n) by { assert(((-a) % n - b) == (-b + (-a) % n)); }
    let t = (-a - b) % n; let q = (-a - b) / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-a - b, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(-a - b, n);
    // -a - b = n q + t, so a + b + c = (c - t) - n q
    assert(a + b + c == (c - t) + n * (-q)) by (nonlinear_arith) requires -a - b == n * q + t;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-q, c - t, n);
    assert((a + b + c) % n == (c - t) % n) by { assert(n * (-q) + (c - t) == a + b + c); }
    if c == t { assert((c - t) % n == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat); } }
    else if c > t { vstd::arithmetic::div_mod::lemma_small_mod((c - t) as nat, n as nat); }
    else { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, c - t, n); vstd::arithmetic::div_mod::lemma_small_mod((c - t + n) as nat, n as nat); assert(n * 1 + (c - t) == c - t + n); }
}
/// two honest parties announce the same digest exactly if the components sum up to zero: nothing else passes (C15), and
/// nothing that is zero is refused (C14)
proof fn zero_is_what_is_compared(x: Seq<El>, i: int, j: int)
    requires x.len() == 3, forall|k: int| 0 <= k < 3 ==> ok(#[trigger] x[k]), 0 <= i < 3, 0 <= j < 3, i != j, ({ let (u, v) = (held(x, i), held(x, j)); digested(enc(row(i, u.a, u.b, third(u)))) && digested(enc(row(j, v.a, v.b, third(v)))) })
    ensures (zero_digest(i, held(x, i)) == zero_digest(j, held(x, j))) == ((x[0].w@ + x[1].w@ + x[2].w@) % n_() == 0)
{
    let (u, v) = (held(x, i), held(x, j));
    let (r, s) = (row(i, u.a, u.b, third(u)), row(j, v.a, v.b, third(v)));
    collision_free(enc(r), enc(s));
    if enc(r) == enc(s) { enc_inj(r, s); }
    third_is(u.a, u.b, x[(i + 1) % 3]); third_is(v.a, v.b, x[(j + 1) % 3]);
    if (x[0].w@ + x[1].w@ + x[2].w@) % n_() == 0 { assert(r =~= x); assert(s =~= x); }
    else { assert(r[(i + 1) % 3] == third(u)); assert(s[(i + 1) % 3] == x[(i + 1) % 3]); }
}
// ---------------------------------------------------------------- the sacrifice
/// the components a party holds of w = z ^ c ^ a & q ^ b & p ^ p & q (the last term belongs to component 0)
pub open spec fn left(id: int, a: Share<u128>, b: Share<u128>, c: Share<u128>, z: Share<u128>, p: u128, q: u128) -> Share<u128> {
    Share { a: term(id, a.a, b.a, c.a, z.a, p, q), b: term(if id == 0 { 2 } else { id - 1 }, a.b, b.b, c.b, z.b, p, q) }
}
pub open spec fn term(k: int, a: u128, b: u128, c: u128, z: u128, p: u128, q: u128) -> u128 { if k == 0 { z ^ c ^ (a & q) ^ (b & p) ^ (p & q) } else { z ^ c ^ (a & q) ^ (b & p) } }
pub open spec fn lefts(id: int, a: Seq<Share<u128>>, b: Seq<Share<u128>>, c: Seq<Share<u128>>, z: Seq<Share<u128>>, p: Seq<u128>, q: Seq<u128>) -> Seq<Share<u128>> { Seq::new(a.len(), |i: int| left(id, a[i], b[i], c[i], z[i], p[i], q[i])) }
pub open spec fn rows(id: int, w: Seq<Share<u128>>) -> Seq<u128> decreases w.len() { if w.len() == 0 { Seq::empty() } else { rows(id, w.drop_last()) + row(id, w.last().a, w.last().b, w.last().a ^ w.last().b) } }
proof fn rows_next(id: int, w: Seq<Share<u128>>, i: int) requires 0 <= i < w.len() ensures rows(id, w.take(i + 1)) == rows(id, w.take(i)) + row(id, w[i].a, w[i].b, w[i].a ^ w[i].b)
{ assert(w.take(i + 1).drop_last() =~= w.take(i)); }
proof fn enc_more<S: Elem>(v: Seq<S>, w: Seq<S>) ensures enc(v + w) == enc(v) + enc(w) decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); assert(enc(v) + enc(w) =~= enc(v)); }
    else { enc_more(v, w.drop_last()); assert((v + w).drop_last() =~= v + w.drop_last()); assert(enc(v) + (enc(w.drop_last()) + w.last().enc1()) =~= (enc(v) + enc(w.drop_last())) + w.last().enc1()); }
}
proof fn hashed_next(id: int, w: Seq<Share<u128>>, i: int, before: Seq<u8>, now: Seq<u8>)
    requires 0 <= i < w.len(), before == enc(rows(id, w.take(i))), ({ let r = row(id, w[i].a, w[i].b, w[i].a ^ w[i].b); now == before + r[0].enc1() + r[1].enc1() + r[2].enc1() }) ensures now == enc(rows(id, w.take(i + 1)))
{
    rows_next(id, w, i); let r = row(id, w[i].a, w[i].b, w[i].a ^ w[i].b); enc_more(rows(id, w.take(i)), r); enc_three(r);
    assert(before + (r[0].enc1() + r[1].enc1() + r[2].enc1()) =~= before + r[0].enc1() + r[1].enc1() + r[2].enc1());
}
pub open spec fn rows_digest(id: int, w: Seq<Share<u128>>) -> Seq<u8> { sha(enc(rows(id, w))) }
proof fn rows_len(id: int, w: Seq<Share<u128>>) ensures rows(id, w).len() == 3 * w.len() decreases w.len() { if w.len() > 0 { rows_len(id, w.drop_last()); } }
pub open spec fn prev(i: int) -> int { if i == 0 { 2 } else { i - 1 } }
/// how lists of components lie with party i
pub open spec fn lies(x: Seq<Seq<u128>>, i: int) -> Seq<Share<u128>> { Seq::new(x[0].len(), |k: int| Share { a: x[i][k], b: x[prev(i)][k] }) }
pub open spec fn threes(x: Seq<Seq<u128>>) -> bool { x.len() == 3 && x[1].len() == x[0].len() && x[2].len() == x[0].len() }
pub open spec fn all_zero(x: Seq<Seq<u128>>) -> bool { forall|k: int| 0 <= k < x[0].len() ==> #[trigger] x[0][k] ^ x[1][k] ^ x[2][k] == 0 }
proof fn word_third(x: u128, y: u128, z: u128) ensures (x ^ y == z) == (x ^ y ^ z == 0), x ^ y == y ^ x, x ^ y ^ z == y ^ z ^ x, x ^ y ^ z == x ^ z ^ y, x ^ y ^ z == z ^ y ^ x
{ assert((x ^ y == z) == (x ^ y ^ z == 0) && x ^ y == y ^ x && x ^ y ^ z == y ^ z ^ x && x ^ y ^ z == x ^ z ^ y && x ^ y ^ z == z ^ y ^ x) by (bit_vector); }
/// two honest parties announce the same digest exactly if every entry of the list is zero: for lists of every length
proof fn rows_agree(x: Seq<Seq<u128>>, i: int, j: int)
    requires threes(x), 0 <= i < 3, 0 <= j < 3, i != j ensures (rows(i, lies(x, i)) == rows(j, lies(x, j))) == all_zero(x) decreases x[0].len()
{
    let (u, v) = (lies(x, i), lies(x, j)); let n = x[0].len() as int;
    if n > 0 {
        let y = seq![x[0].drop_last(), x[1].drop_last(), x[2].drop_last()];
        rows_agree(y, i, j);
        assert(u.drop_last() =~= lies(y, i)); assert(v.drop_last() =~= lies(y, j));
        rows_len(i, u.drop_last()); rows_len(j, v.drop_last());
        let (a, b) = (u.last(), v.last());
        let (r, s) = (row(i, a.a, a.b, a.a ^ a.b), row(j, b.a, b.b, b.a ^ b.b));
        let (f, g) = (rows(i, u), rows(j, v));
        assert(rows(i, u.drop_last()) =~= f.take(3 * (n - 1))); assert(rows(j, v.drop_last()) =~= g.take(3 * (n - 1)));
        assert(r =~= f.skip(3 * (n - 1))); assert(s =~= g.skip(3 * (n - 1)));
        let (p, q, t) = (x[0][n - 1], x[1][n - 1], x[2][n - 1]);
        word_third(p, q, t); word_third(p, t, q); word_third(q, t, p); word_third(q, p, t); word_third(t, p, q); word_third(t, q, p);
        assert((r == s) == (p ^ q ^ t == 0)) by {
            if p ^ q ^ t == 0 { assert(r =~= seq![p, q, t]); assert(s =~= seq![p, q, t]); }
            else if r == s { assert(r[0] == s[0] && r[1] == s[1] && r[2] == s[2]); }
        }
        if all_zero(x) { assert forall|k: int| 0 <= k < y[0].len() implies #[trigger] y[0][k] ^ y[1][k] ^ y[2][k] == 0 by { assert(x[0][k] ^ x[1][k] ^ x[2][k] == 0); } assert(x[0][n - 1] ^ x[1][n - 1] ^ x[2][n - 1] == 0); }
        if all_zero(y) && p ^ q ^ t == 0 { assert forall|k: int| 0 <= k < x[0].len() implies #[trigger] x[0][k] ^ x[1][k] ^ x[2][k] == 0 by { if k < n - 1 { assert(y[0][k] ^ y[1][k] ^ y[2][k] == 0); } } }
    } else { assert(rows(i, u) =~= rows(j, v)); }
}
proof fn zeros_are_what_is_compared(x: Seq<Seq<u128>>, i: int, j: int)
    requires threes(x), 0 <= i < 3, 0 <= j < 3, i != j, digested(enc(rows(i, lies(x, i)))), digested(enc(rows(j, lies(x, j)))) ensures (rows_digest(i, lies(x, i)) == rows_digest(j, lies(x, j))) == all_zero(x)
{
    let (r, s) = (rows(i, lies(x, i)), rows(j, lies(x, j)));
    collision_free(enc(r), enc(s)); rows_len(i, lies(x, i)); rows_len(j, lies(x, j));
    if enc(r) == enc(s) { enc_inj(r, s); }
    rows_agree(x, i, j);
}
/// what is compared with zero opens to (c ^ a & b) ^ (z ^ x & y), the errors of the two triples: if the second triple is right, the first one is
proof fn sacrificed(a: u128, b: u128, c: u128, x: u128, y: u128, z: u128)
    ensures ({ let (p, q) = (x ^ a, y ^ b); z ^ c ^ (a & q) ^ (b & p) ^ (p & q) == (c ^ (a & b)) ^ (z ^ (x & y)) })
{ assert(z ^ c ^ (a & (y ^ b)) ^ (b & (x ^ a)) ^ ((x ^ a) & (y ^ b)) == (c ^ (a & b)) ^ (z ^ (x & y))) by (bit_vector); }
/// the components of the expression that is hashed add up to the expression of the opened values
proof fn parts_add_up(a: Seq<u128>, b: Seq<u128>, c: Seq<u128>, z: Seq<u128>, p: u128, q: u128)
    ensures term(0, a[0], b[0], c[0], z[0], p, q) ^ term(1, a[1], b[1], c[1], z[1], p, q) ^ term(2, a[2], b[2], c[2], z[2], p, q)
        == (z[0] ^ z[1] ^ z[2]) ^ (c[0] ^ c[1] ^ c[2]) ^ ((a[0] ^ a[1] ^ a[2]) & q) ^ ((b[0] ^ b[1] ^ b[2]) & p) ^ (p & q)
{
    let (a0, a1, a2, b0, b1, b2, c0, c1, c2, z0, z1, z2) = (a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], z[0], z[1], z[2]);
    assert((z0 ^ c0 ^ (a0 & q) ^ (b0 & p) ^ (p & q)) ^ (z1 ^ c1 ^ (a1 & q) ^ (b1 & p)) ^ (z2 ^ c2 ^ (a2 & q) ^ (b2 & p)) == (z0 ^ z1 ^ z2) ^ (c0 ^ c1 ^ c2) ^ ((a0 ^ a1 ^ a2) & q) ^ ((b0 ^ b1 ^ b2) & p) ^ (p & q)) by (bit_vector);
}
pub open spec fn masked(x: Seq<Share<u128>>, a: Seq<Share<u128>>) -> Seq<Share<u128>> { Seq::new(x.len(), |i: int| sx(x[i], a[i])) }
pub open spec fn shown<S: Elem>(v: Seq<Share<S>>, c: Seq<S>) -> Seq<S> { Seq::new(v.len(), |i: int| exor3(v[i].a, v[i].b, c[i])) }
/// the sacrifice: p and q were opened and compared, with the third components pc, and then the digest of all rows was announced by all
pub open spec fn sacrifice(id: int, o: Spdz, l: Seq<Ev>, a: Seq<Share<u128>>, b: Seq<Share<u128>>, c: Seq<Share<u128>>, x: Seq<Share<u128>>, y: Seq<Share<u128>>, z: Seq<Share<u128>>, k: Seq<Ev>, pc: Seq<u128>) -> bool {
    let v = masked(x, a) + masked(y, b); let e = shown(v, pc); let n = a.len() as int;
    pc.len() == 2 * n && k == exchanged(traded(o.log(), enc(seconds(v)), enc(pc)), o.send_queue_prev.v@ + enc(firsts(v)), o.rcv_queue_next.v@ + enc(pc))
    && compared(k, l, rows_digest(id, lefts(id, a, b, c, z, e.take(n), e.skip(n))))
}
// ---------------------------------------------------------------- the engine
pub struct Spdz { pub aby3: Aby3, pub mac_key: Share<El>, pub verifyqueue: VecShare, pub send_queue_prev: BytesMut, pub rcv_queue_next: BytesMut, pub triple_buffer: Buffer }
/// the AND gates waiting for verification (its own contracts: C16)
pub struct Buffer { pub v: Ghost<Seq<(Gate, Gate, Gate)>> }
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Gate { pub g: Ghost<int> }
pub open spec fn gates(a: Seq<Gate>, b: Seq<Gate>, c: Seq<Gate>) -> Seq<(Gate, Gate, Gate)> { Seq::new(a.len(), |i: int| (a[i], b[i], c[i])) }
impl Buffer {
    #[verifier::external_body] pub fn add_t(&mut self, a: &Gate, b: &Gate, c: &Gate) ensures final(self).v@ == old(self).v@.push((*a, *b, *c)) { unimplemented!() }
    #[verifier::external_body] pub fn add_many_t(&mut self, a: &Vec<Gate>, b: &Vec<Gate>, c: &Vec<Gate>) requires a@.len() == b@.len(), a@.len() == c@.len() ensures final(self).v@ == old(self).v@ + gates(a@, b@, c@) { unimplemented!() }
}
pub open spec fn exchanged(l: Seq<Ev>, vouched: Seq<u8>, seen: Seq<u8>) -> Seq<Ev> { l.push(Ev::ToPrev(sha(vouched))).push(Ev::FromNext(sha(seen))) }
pub open spec fn traded(l: Seq<Ev>, out: Seq<u8>, got: Seq<u8>) -> Seq<Ev> { l.push(Ev::ToNext(out)).push(Ev::FromPrev(got)) }
/// the check of (values, macs) that leads from l to k, with fresh randomness r drawn for it
pub open spec fn checked(v: Seq<Share<El>>, m: Seq<Share<El>>, key: Share<El>, id: int, l: Seq<Ev>, k: Seq<Ev>, r: Seq<Share<El>>, d: Seq<Share<El>>, p: Share<El>, h: Seq<Seq<u8>>) -> bool {
    r.len() == v.len() && d.len() == 2 && all_say(zero_digest(id, minus(p, d[1])), h)
    && k == l.push(Ev::Own(Own::Dots(two(v, m), two(r, r), d))).push(Ev::Own(Own::Mul(d[0], key, p))).push(Ev::Bcast(zero_digest(id, minus(p, d[1])), h))
}
pub open spec fn checked_all(v: Seq<Share<El>>, m: Seq<Share<El>>, key: Share<El>, id: int, l: Seq<Ev>, k: Seq<Ev>, prf0: Seq<Share<El>>, prf1: Seq<Share<El>>) -> bool {
    (v.len() == 0 && k == l) || exists|r: Seq<Share<El>>, d: Seq<Share<El>>, p: Share<El>, h: Seq<Seq<u8>>| #[trigger] checked(v, m, key, id, l, k, r, d, p, h) && prf1 == prf0 + r
}
impl Spdz {
    pub open spec fn log(self) -> Seq<Ev> { self.aby3.network.log@ }
    pub open spec fn id(self) -> int { self.aby3.network.id@ as int }
    pub open spec fn jmp_kept(self, o: Spdz) -> bool { self.send_queue_prev == o.send_queue_prev && self.rcv_queue_next == o.rcv_queue_next && self.mac_key == o.mac_key && self.triple_buffer == o.triple_buffer && self.aby3.network.id == o.aby3.network.id }
    pub open spec fn queues_kept(self, o: Spdz) -> bool { self.verifyqueue == o.verifyqueue && self.mac_key == o.mac_key && self.triple_buffer == o.triple_buffer && self.aby3.network.id == o.aby3.network.id && self.aby3.prf == o.aby3.prf }
    /// nothing waits any more, and what waited (with v, m added) has been checked, leading to the log l
    pub open spec fn nothing_waits(self) -> bool { self.verifyqueue.values@.len() == 0 && self.verifyqueue.macs@.len() == 0 }
    // decided in c15_jmp.rs
    #[verifier::external_body] pub fn jmp_send_receive<S: Elem>(&mut self, send: S, buffer: S) -> (r: Result<S, Error>) ensures r is Ok ==> final(self).log() == traded(old(self).log(), send.enc1(), r->Ok_0.enc1()) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + r->Ok_0.enc1() && final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + buffer.enc1(), final(self).queues_kept(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_send_receive_many<S: Elem>(&mut self, send: &[S], buffer: &[S]) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == send@.len() && final(self).log() == traded(old(self).log(), enc(send@), enc(r->Ok_0@)) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + enc(r->Ok_0@) && final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + enc(buffer@), final(self).queues_kept(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).log() == exchanged(old(self).log(), old(self).send_queue_prev.v@, old(self).rcv_queue_next.v@), final(self).send_queue_prev.v@.len() == 0, final(self).rcv_queue_next.v@.len() == 0, final(self).queues_kept(*old(self)) { unimplemented!() }
    pub fn get_id(&self) -> (r: usize) ensures r == self.id(), r < 3 { self.aby3.network.get_id() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn get_r
//@ re "-> [^{]*\{" => "-> (r: Share<El>) ensures r == self.mac_key {"
//@ all "\.to_owned\(\)" => ".dup()"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn hash_based_zero_verify
//@ re "^.*?\bfn hash_based_zero_verify\b[^{]*\{" => "pub fn hash_based_zero_verify(&mut self, w: Share<El>) -> (r: Result<(), Error>) ensures r is Ok ==> compared(old(self).log(), final(self).log(), zero_digest(old(self).id(), w)), final(self).jmp_kept(*old(self)), final(self).verifyqueue == old(self).verifyqueue, final(self).aby3.prf == old(self).aby3.prf {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ re "let digest = " => "proof { let (id, r) = (old(self).id(), row(old(self).id(), w.a, w.b, third(w))); enc_three(r); assert(hasher.d@ =~= enc(r)); } let digest = "
//@ re "(let hashes = [^;]*;)" => "\1 proof { let (l, h, d) = (old(self).log(), views(hashes@), zero_digest(old(self).id(), w)); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); if all_say(d, h) { assert(said(l, self.log(), d, h)); } }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn verify_macs
//@ re "^.*?\bfn verify_macs\b[^{]*\{" => "pub fn verify_macs(&mut self) -> (r: Result<(), Error>) requires old(self).verifyqueue.paired() ensures r is Ok ==> final(self).nothing_waits() && checked_all(old(self).verifyqueue.values@, old(self).verifyqueue.macs@, old(self).mac_key, old(self).id(), old(self).log(), final(self).log(), old(self).aby3.prf.log@, final(self).aby3.prf.log@), final(self).jmp_kept(*old(self)), final(self).verifyqueue.paired() {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ re "\((\w+)\.\.(\w+)\)\s*\.map\(\|_\| self\.aby3\.prf\.gen_rand::<U>\(\)\)\s*\.collect::<Vec<_>>\(\)" => "self.aby3.prf.rands(\2 - \1)"
//@ all "<_ as MpcTrait<[^;=]*?>>::(\w+)\(" => "Aby3::\1("
//@ re "self\.hash_based_zero_verify\((\w+)\)" => "let done = self.hash_based_zero_verify(\1); proof { if done is Ok { let (o, v, m) = (*old(self), old(self).verifyqueue.values@, old(self).verifyqueue.macs@); let h = choose|h: Seq<Seq<u8>>| said(o.log().push(Ev::Own(Own::Dots(two(v, m), two(rands@, rands@), res@))).push(Ev::Own(Own::Mul(res@[0], o.mac_key, mul))), self.log(), zero_digest(o.id(), \1), h); assert(checked(v, m, o.mac_key, o.id(), o.log(), self.log(), rands@, res@, mul, h)); } } done"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn open
//@ re "^.*?\bfn open\b[^{]*\{" => "pub fn open(&mut self, share: SShare) -> (r: Result<Val, Error>) requires old(self).verifyqueue.paired() ensures r is Ok ==> open_one(*old(self), *final(self), share, r->Ok_0), final(self).verifyqueue.paired() {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "::<T::VerificationShare>" => "::<El>"
//@ all "T::VerificationShare::from_sharetype" => ""
//@ all "T::from_verificationshare" => "low"
//@ re "(?<=;)(\s*let \(a, b\) = )" => " let ghost mid = *self; \1"
//@ re "let result = " => "proof { any_order(a, b, c); assert(opened_one(*old(self), mid.log(), mid.aby3.prf.log@, *self, share, c)); } let result = "
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn open_many
//@ re "^.*?\bfn open_many\b[^{]*\{" => "pub fn open_many(&mut self, shares: VecShare) -> (r: Result<Vec<Val>, Error>) requires old(self).verifyqueue.paired(), shares.paired() ensures r is Ok ==> open_list(*old(self), *final(self), shares, r->Ok_0@), final(self).verifyqueue.paired() {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "::<T::VerificationShare>" => "::<El>"
//@ all "T::VerificationShare::from_sharetype" => ""
//@ all "T::from_verificationshare" => "low"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "(?<=;)(\s*let values = )" => " let ghost mid = *self; \1"
//@ all "let mut (shares_[ab]) = Vec::with_capacity\(len\);" => "let mut \1: Vec<El> = Vec::with_capacity(len);"
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), shares_a@ =~= firsts(its.v@.take(i_ as int)), shares_b@ =~= seconds(its.v@.take(i_ as int)) { let \1 = its.at_(i_); \3 } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ re "let result = ([^;]*?)\.map\(\|(\([^|]*\))\|(.*?)\)\s*\.collect\(\);\s*Ok\(result\)" => "let its2 = (\1).items(); let n2 = its2.count_(); let mut result: Vec<Val> = Vec::with_capacity(n2); proof { assert(opened_list(*old(self), mid.log(), mid.aby3.prf.log@, *self, shares, shares_c@)); } for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == shares.values@.len(), n2 == shares_c@.len(), forall|i: int| 0 <= i < n2 ==> #[trigger] its2.v@[i] == ((shares.values@[i].a, shares.values@[i].b), shares_c@[i]), result@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] result@[i] == low_(plus3(shares.values@[i].a, shares.values@[i].b, shares_c@[i])) { let \2 = its2.at_(i_); proof { any_order(a, b, c); } result.push(\3); } Ok(result)"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn input
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<El>, id: usize) -> (r: Result<SShare, Error>) ensures r is Ok ==> waits(*old(self), *final(self), two(r->Ok_0, r->Ok_0).take(1)) && final(self).log() == old(self).log().push(Ev::Own(Own::Input(input, id as int, r->Ok_0.value))).push(Ev::Own(Own::Mul(r->Ok_0.value, old(self).mac_key, r->Ok_0.mac))) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "let input = input\.map\(\|(\w+)\| T::to_verificationshare\(\1\)\);" => ""
//@ all "<_ as MpcTrait<[^;=]*?>>::(\w+)\(" => "Aby3::\1("
//@ re "\bShare::new\(" => "SShare::new("
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn mul
//@ re "^.*?\bfn mul\b[^{]*\{" => "pub fn mul(&mut self, a: SShare, b: SShare) -> (r: Result<SShare, Error>) ensures r is Ok ==> waits(*old(self), *final(self), two(r->Ok_0, r->Ok_0).take(1)) && final(self).log() == old(self).log().push(Ev::Own(Own::Muls(two(a.value, a.mac), two(b.value, b.value), two(r->Ok_0.value, r->Ok_0.mac)))) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ re "\bShare::new\(" => "SShare::new("
//@ re "Ok\(result\)" => "proof { assert(values@ =~= two(result.value, result.mac)); } Ok(result)"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn dot
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: VecShare, b: VecShare) -> (r: Result<SShare, Error>) ensures (r is Err && r->Err_0 is InvalidSizeError) || a.values@.len() == b.values@.len(), r is Ok ==> waits(*old(self), *final(self), two(r->Ok_0, r->Ok_0).take(1)) && final(self).log() == old(self).log().push(Ev::Own(Own::Dots(two(a.values@, a.macs@), two(b.values@, b.values@), two(r->Ok_0.value, r->Ok_0.mac)))) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "<_ as MpcTrait<[^;=]*?>>::(\w+)\(" => "Aby3::\1("
//@ re "\bShare::new\(" => "SShare::new("
//@ re "Ok\(result\)" => "proof { assert(res@ =~= two(result.value, result.mac)); } Ok(result)"
//@ end
//@ each F how | aby3_jmp_open_bin_many 0 | open_bit_many 1
//@ extract iris-mpc/src/spdzwise/protocol.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F<S: Elem>(&mut self, shares: Vec<Share<S>>) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> exists|c: Seq<S>| #[trigger] bits_opened(*old(self), final(self).log(), shares@, c, $how) && r->Ok_0@ == shown(shares@, c), r is Ok ==> final(self).send_queue_prev.v@.len() == 0 && final(self).rcv_queue_next.v@.len() == 0, final(self).queues_kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<(T|Bit)>" => "::<S>"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\.convert\(\)" => ""
//@ all "\((\w+) \^ &?([\w.]+) \^ &?([\w.]+)\)" => "xor3(\1, \2, \3)"
//@ all "let mut (shares_[ab]) = Vec::with_capacity\(len\);" => "let mut \1: Vec<S> = Vec::with_capacity(len);"
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), shares_a@ =~= firsts(its.v@.take(i_ as int)), shares_b@ =~= seconds(its.v@.take(i_ as int)) { let \1 = its.at_(i_); \3 } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ re "let res = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*\(?(xor3\(.*?\))\)?\)\s*\.collect\(\);\s*Ok\(res\)" => "let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<S> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares@, shares_c@), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == exor3(shares@[i].a, shares@[i].b, shares_c@[i]) { let \2 = its2.at_(i_); res.push(\3); } proof { assert(res@ =~= shown(shares@, shares_c@)); assert(bits_opened(*old(self), self.log(), shares@, shares_c@, $how)); } Ok(res)"
//@ end
//@ done
//@ extract iris-mpc/src/spdzwise/protocol.rs fn open_bit
//@ re "^.*?\bfn open_bit\b[^{]*\{" => "pub fn open_bit<S: Elem>(&mut self, share: Share<S>) -> (r: Result<S, Error>) ensures r is Ok ==> exists|c: S| #[trigger] bit_opened(*old(self), final(self).log(), share, c) && r->Ok_0 == exor3(share.a, share.b, c), final(self).queues_kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<Bit>" => "::<S>"
//@ re "Ok\(\((\S+) \^ (\S+) \^ (\S+)\)\.convert\(\)\.convert\(\)\)" => "proof { assert(bit_opened(*old(self), self.log(), share, c)); } Ok(xor3(\1, \2, \3))"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn verify_triples
//@ re "^.*?\bfn verify_triples\b[^{]*\{" => "pub fn verify_triples(&mut self, a: &[Share<u128>], b: &[Share<u128>], c: &[Share<u128>], x: Vec<Share<u128>>, y: Vec<Share<u128>>, z: Vec<Share<u128>>) -> (r: Result<(), Error>) requires a@.len() == b@.len(), a@.len() == c@.len(), a@.len() == x@.len(), a@.len() == y@.len(), a@.len() == z@.len(), 2 * a@.len() <= usize::MAX ensures r is Ok ==> exists|k: Seq<Ev>, pc: Seq<u128>| #[trigger] sacrifice(old(self).id(), *old(self), final(self).log(), a@, b@, c@, x@, y@, z@, k, pc) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\.cloned\(\)" => ""
//@ all "([\^&]) &(\w)" => "\1 \2"
//@ all "\^= ([^;]*);" => "= \1;"
//@ all "w\.([ab]) = ([^;]*);" => "w.\1 = w.\1 ^ (\2);"
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ all "&(\w+)\[\.\.(\w+)\]" => "first_of(&\1, \2)"
//@ all "&(\w+)\[(\w+)\.\.\]" => "rest_of(&\1, \2)"
//@ re "let mut pq = " => "let mut pq: Vec<Share<u128>> = "
//@ re "for (\([^)]*\)) in ([^{]*?zip\(x\)) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == a@.len(), its.v@ == zipped(a@, x@), x@.len() == a@.len(), pq@ =~= masked(x@, a@).take(i_ as int) { let \1 = its.at_(i_); \3 }"
//@ re "for (\([^)]*\)) in ([^{]*?zip\(y\)) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == b@.len(), its.v@ == zipped(b@, y@), y@.len() == b@.len(), pq@ =~= masked(x@, a@) + masked(y@, b@).take(i_ as int) { let \1 = its.at_(i_); \3 }"
//@ re "(let p = )" => "let ghost mid = *self; let ghost pc = choose|c: Seq<u128>| bits_opened(*old(self), self.log(), pq@, c, 0) && pq_open@ == shown(pq@, c); proof { assert(pq@ =~= masked(x@, a@) + masked(y@, b@)); } \1"
//@ re "(match id )" => "let ghost w_ = lefts(id as int, a@, b@, c@, z@, p@, q@); proof { assert(w_.take(0) =~= Seq::empty()); assert(hasher.d@ =~= enc(rows(id as int, w_.take(0)))); } \1"
//@ all "(\d) => \{\s*for (\(\(.*?\)\)) in ([^{]*?) \{([^{}]*)\}" => "\1 => { let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant id == \1, n_ == a@.len(), n_ == b@.len(), n_ == c@.len(), n_ == z@.len(), n_ == its.v@.len(), p@.len() == n_, q@.len() == n_, w_ == lefts(id as int, a@, b@, c@, z@, p@, q@), forall|i: int| 0 <= i < n_ ==> #[trigger] its.v@[i] == ((c@[i], (a@[i], b@[i])), (z@[i], (p@[i], q@[i]))), hasher.d@ == enc(rows(id as int, w_.take(i_ as int))) { let ghost h_ = hasher.d@; let \2 = its.at_(i_); \4 proof { hashed_next(id as int, w_, i_ as int, h_, hasher.d@); } } "
//@ re "let digest = " => "proof { assert(w_.take(a@.len() as int) =~= w_); } let digest = "
//@ re "(let hashes = [^;]*;)" => "\1 proof { let (h, d) = (views(hashes@), rows_digest(id as int, w_)); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); if all_say(d, h) { assert(said(mid.log(), self.log(), d, h)); let v = masked(x@, a@) + masked(y@, b@); assert(p@ =~= shown(v, pc).take(a@.len() as int)); assert(q@ =~= shown(v, pc).skip(a@.len() as int)); assert(sacrifice(old(self).id(), *old(self), self.log(), a@, b@, c@, x@, y@, z@, mid.log(), pc)); } }"
//@ end
    /// from here on the value is no longer protected by its MAC
    #[verifier::external_body] pub fn switch(&mut self, v: Vec<Share<El>>) -> (r: Result<Vec<Gate>, Error>) ensures r is Ok ==> final(self).log() == old(self).log().push(Ev::Own(Own::Switch(v@))), final(self).verifyqueue == old(self).verifyqueue { unimplemented!() }
    #[verifier::external_body] pub fn arithmetic_to_binary(&mut self, v: Share<El>) -> (r: Result<Gate, Error>) ensures r is Ok ==> final(self).log() == old(self).log().push(Ev::Own(Own::Switch(seq![v]))), final(self).verifyqueue == old(self).verifyqueue { unimplemented!() }
    #[verifier::external_body] pub fn aby3_and(&mut self, a: Gate, b: Gate) -> (r: Result<Gate, Error>) ensures r is Ok ==> final(self).log() == old(self).log().push(Ev::Own(Own::Gates(seq![(a, b, r->Ok_0)]))), final(self).triple_buffer == old(self).triple_buffer { unimplemented!() }
    #[verifier::external_body] pub fn aby3_and_many(&mut self, a: &Vec<Gate>, b: &Vec<Gate>) -> (r: Result<Vec<Gate>, Error>) ensures r is Ok ==> r->Ok_0@.len() == a@.len() && final(self).log() == old(self).log().push(Ev::Own(Own::Gates(gates(a@, b@, r->Ok_0@)))), final(self).triple_buffer == old(self).triple_buffer { unimplemented!() }
    // decided in c16.rs
    #[verifier::external_body] pub fn verify_triple_queue(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).triple_buffer.v@.len() == 0 && final(self).log() == old(self).log().push(Ev::Own(Own::Sacrifice(old(self).triple_buffer.v@))), final(self).verifyqueue == old(self).verifyqueue { unimplemented!() }
//@ extract iris-mpc/src/spdzwise/protocol.rs fn get_msb
//@ re "^.*?\bfn get_msb\b[^{]*\{" => "pub fn get_msb(&mut self, a: SShare) -> (r: Result<Gate, Error>) requires old(self).verifyqueue.paired() ensures r is Ok ==> switched(*old(self), *final(self), seq![a.value], seq![a.mac]) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ all "Aby3Share::<T>::from_verificationtype" => ""
//@ all "\.get_msb\(\)" => ""
//@ re "(self\.verify_macs\(\)\?;)" => "proof { assert(self.verifyqueue.values@ =~= old(self).verifyqueue.values@ + seq![a.value]); assert(self.verifyqueue.macs@ =~= old(self).verifyqueue.macs@ + seq![a.mac]); } \1 proof { assert(checked_all(old(self).verifyqueue.values@ + seq![a.value], old(self).verifyqueue.macs@ + seq![a.mac], old(self).mac_key, old(self).id(), old(self).log(), self.log(), old(self).aby3.prf.log@, self.aby3.prf.log@)); assert(prf_any(*old(self), old(self).verifyqueue.values@ + seq![a.value], old(self).verifyqueue.macs@ + seq![a.mac], self.log())); }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn get_msb_many
//@ re "^.*?\bfn get_msb_many\b[^{]*\{" => "pub fn get_msb_many(&mut self, a: Vec<SShare>) -> (r: Result<Vec<Gate>, Error>) requires old(self).verifyqueue.paired() ensures r is Ok ==> switched(*old(self), *final(self), Seq::new(a@.len(), |i: int| a@[i].value), Seq::new(a@.len(), |i: int| a@[i].mac)) {"
//@ all "\s*\.await" => ""
//@ re "let values = .*\}$" => "let values = values_of(a); self.switch(values) }"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "\.cloned\(\)" => ""
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), self.verifyqueue.values@ =~= old(self).verifyqueue.values@ + Seq::new(i_ as nat, |i: int| its.v@[i].value), self.verifyqueue.macs@ =~= old(self).verifyqueue.macs@ + Seq::new(i_ as nat, |i: int| its.v@[i].mac), self.aby3 == old(self).aby3, self.jmp_kept(*old(self)) { let \1 = its.at_(i_); \3 }"
//@ re "(self\.verify_macs\(\)\?;)" => "proof { assert(self.verifyqueue.values@ =~= old(self).verifyqueue.values@ + Seq::new(a@.len(), |i: int| a@[i].value)); assert(self.verifyqueue.macs@ =~= old(self).verifyqueue.macs@ + Seq::new(a@.len(), |i: int| a@[i].mac)); } \1 proof { let (v_, m_) = (Seq::new(a@.len(), |i: int| a@[i].value), Seq::new(a@.len(), |i: int| a@[i].mac)); assert(checked_all(old(self).verifyqueue.values@ + v_, old(self).verifyqueue.macs@ + m_, old(self).mac_key, old(self).id(), old(self).log(), self.log(), old(self).aby3.prf.log@, self.aby3.prf.log@)); assert(prf_any(*old(self), old(self).verifyqueue.values@ + v_, old(self).verifyqueue.macs@ + m_, self.log())); }"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn and
//@ re "^.*?\bfn and\b[^{]*\{" => "pub fn and(&mut self, a: Gate, b: Gate) -> (r: Result<Gate, Error>) ensures r is Ok ==> final(self).log() == old(self).log().push(Ev::Own(Own::Gates(seq![(a, b, r->Ok_0)]))) && final(self).triple_buffer.v@ == old(self).triple_buffer.v@.push((a, b, r->Ok_0)) {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => ""
//@ all "\.to_owned\(\)" => ".dup()"
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn and_many
//@ re "^.*?\bfn and_many\b[^{]*\{" => "pub fn and_many(&mut self, a: &Vec<Gate>, b: &Vec<Gate>) -> (r: Result<Vec<Gate>, Error>) requires a@.len() == b@.len() ensures r is Ok ==> final(self).log() == old(self).log().push(Ev::Own(Own::Gates(gates(a@, b@, r->Ok_0@)))) && final(self).triple_buffer.v@ == old(self).triple_buffer.v@ + gates(a@, b@, r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => ""
//@ end
//@ extract iris-mpc/src/spdzwise/protocol.rs fn verify
//@ re "^.*?\bfn verify\b[^{]*\{" => "pub fn verify(&mut self) -> (r: Result<(), Error>) requires old(self).verifyqueue.paired() ensures r is Ok ==> verified(*old(self), *final(self)) {"
//@ all "\s*\.await" => ""
//@ all "::<ChaCha12Rng>" => ""
//@ end
}
proof fn enc_three<S: Elem>(r: Seq<S>) requires r.len() == 3 ensures enc(r) == r[0].enc1() + r[1].enc1() + r[2].enc1()
{ enc_next(r, 0); enc_next(r, 1); enc_next(r, 2); assert(r.take(0) =~= Seq::empty()); assert(r.take(3) =~= r); assert(enc(r.take(0)) =~= Seq::empty()); assert(enc(r.take(1)) =~= r[0].enc1()); }
proof fn any_order(a: El, b: El, c: El) ensures plus3(a, b, c) == plus3(b, a, c), plus3(a, b, c) == plus3(c, a, b), plus3(a, b, c) == plus3(b, c, a), plus3(a, b, c) == plus3(a, c, b), plus3(a, b, c) == plus3(c, b, a)
{ El::plus_ac(a, b, c); El::plus_ac(b, a, c); El::plus_ac(c, a, b); El::plus_ac(b, c, a); El::plus_ac(a, c, b); El::plus_ac(c, b, a); El::plus_ac(b, a, a); }
/// these shares, and nothing else, have been added to what waits; everything else is as it was
pub open spec fn waits(o: Spdz, s: Spdz, r: Seq<SShare>) -> bool {
    s.verifyqueue.values@ =~= o.verifyqueue.values@ + Seq::new(r.len(), |i: int| r[i].value) && s.verifyqueue.macs@ =~= o.verifyqueue.macs@ + Seq::new(r.len(), |i: int| r[i].mac) && s.jmp_kept(o) && s.aby3.prf == o.aby3.prf
}
/// after the check of everything that waited and of the share itself, its components were traded and compared
pub open spec fn opened_one(o: Spdz, l: Seq<Ev>, prf: Seq<Share<El>>, s: Spdz, v: SShare, c: El) -> bool {
    s.nothing_waits() && checked_all(o.verifyqueue.values@.push(v.value), o.verifyqueue.macs@.push(v.mac), o.mac_key, o.id(), o.log(), l, o.aby3.prf.log@, prf)
    && s.log() == exchanged(traded(l, v.value.b.enc1(), c.enc1()), o.send_queue_prev.v@ + v.value.a.enc1(), o.rcv_queue_next.v@ + c.enc1())
}
pub open spec fn open_one(o: Spdz, s: Spdz, v: SShare, r: Val) -> bool { exists|l: Seq<Ev>, prf: Seq<Share<El>>, c: El| #[trigger] opened_one(o, l, prf, s, v, c) && r == low_(plus3(v.value.a, v.value.b, c)) }
pub open spec fn opened_list(o: Spdz, l: Seq<Ev>, prf: Seq<Share<El>>, s: Spdz, v: VecShare, c: Seq<El>) -> bool {
    s.nothing_waits() && c.len() == v.values@.len() && checked_all(o.verifyqueue.values@ + v.values@, o.verifyqueue.macs@ + v.macs@, o.mac_key, o.id(), o.log(), l, o.aby3.prf.log@, prf)
    && s.log() == exchanged(traded(l, enc(seconds(v.values@)), enc(c)), o.send_queue_prev.v@ + enc(firsts(v.values@)), o.rcv_queue_next.v@ + enc(c))
}
pub open spec fn open_list(o: Spdz, s: Spdz, v: VecShare, r: Seq<Val>) -> bool { exists|l: Seq<Ev>, prf: Seq<Share<El>>, c: Seq<El>| #[trigger] opened_list(o, l, prf, s, v, c) && r.len() == c.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == low_(plus3(v.values@[i].a, v.values@[i].b, c[i])) }
/// the components were traded and compared, after what had been seen before (how = 1) or without (how = 0)
pub open spec fn bits_opened<S: Elem>(o: Spdz, l: Seq<Ev>, v: Seq<Share<S>>, c: Seq<S>, how: int) -> bool {
    c.len() == v.len() && if how == 0 { l == exchanged(traded(o.log(), enc(seconds(v)), enc(c)), o.send_queue_prev.v@ + enc(firsts(v)), o.rcv_queue_next.v@ + enc(c)) }
    else { l == exchanged(traded(exchanged(o.log(), o.send_queue_prev.v@, o.rcv_queue_next.v@), enc(seconds(v)), enc(c)), enc(firsts(v)), enc(c)) }
}
pub open spec fn bit_opened<S: Elem>(o: Spdz, l: Seq<Ev>, v: Share<S>, c: S) -> bool { l == exchanged(traded(exchanged(o.log(), o.send_queue_prev.v@, o.rcv_queue_next.v@), v.b.enc1(), c.enc1()), v.a.enc1(), c.enc1()) }
#[verifier::external_body] pub fn first_of<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
#[verifier::external_body] pub fn rest_of<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn values_of(a: Vec<SShare>) -> (r: Vec<Share<El>>) ensures r@ == Seq::new(a@.len(), |i: int| a@[i].value) { unimplemented!() }
pub open spec fn prf_any(o: Spdz, v: Seq<Share<El>>, m: Seq<Share<El>>, l: Seq<Ev>) -> bool { exists|p: Seq<Share<El>>| #[trigger] checked_all(v, m, o.mac_key, o.id(), o.log(), l, o.aby3.prf.log@, p) }
/// everything that waited, and the operands, have been checked before the operands lose their protection
pub open spec fn switched(o: Spdz, s: Spdz, v: Seq<Share<El>>, m: Seq<Share<El>>) -> bool { s.nothing_waits() && exists|l: Seq<Ev>| prf_any(o, o.verifyqueue.values@ + v, o.verifyqueue.macs@ + m, l) && s.log() == #[trigger] l.push(Ev::Own(Own::Switch(v))) }
/// everything that waited has been checked
pub open spec fn verified(o: Spdz, s: Spdz) -> bool { s.nothing_waits() && s.triple_buffer.v@.len() == 0 && exists|l: Seq<Ev>| prf_any(o, o.verifyqueue.values@, o.verifyqueue.macs@, l) && s.log() == #[trigger] l.push(Ev::Own(Own::Sacrifice(o.triple_buffer.v@))) }
fn main() {}
}
