// C15 / C14 / C03, MalAby3: no product leaves the engine before its sacrifice has succeeded: the real operands and a second
// set of operands were multiplied, then the coin was tossed, the masked operands were opened and compared, and all three
// parties announced the same digest of what has to be zero, for every entry. Extraction directives are replaced by the
// text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
#[derive(Debug)]
pub enum Error { InvalidSizeError, VerifyError, Other }
/// the modulus 2^(K+s) in which products are checked; elements stand for their residue class, encodings tell classes apart (C09)
pub uninterp spec fn n_() -> int;
pub uninterp spec fn enc1(x: int) -> Seq<u8>;
pub axiom fn enc_ok(x: int, y: int) ensures n_() > 1, enc1(x).len() == enc1(y).len(), enc1(x).len() > 0, (enc1(x) == enc1(y)) == (x % n_() == y % n_());
/// the hash: injective on what is ever hashed (collision resistance, assumed)
pub uninterp spec fn sha(x: Seq<u8>) -> Seq<u8>;
pub axiom fn collision_free(x: Seq<u8>, y: Seq<u8>) ensures sha(x) == sha(y) ==> x == y;
pub struct Sha512 { pub d: Ghost<Seq<u8>> }
pub struct Digest { pub d: Ghost<Seq<u8>> }
impl Sha512 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.d@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.d@ == sha(self.d@) { unimplemented!() }
}
impl Digest { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.d@ { unimplemented!() } }
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { pub fn from(b: Vec<u8>) -> (r: Self) ensures r.b@ == b@ { Bytes { b } } }
pub struct Msg { pub v: Vec<u8> }
#[verifier::external_body] pub fn unlike(a: &Msg, b: &Msg) -> (r: bool) ensures r == (a.v@ != b.v@) { unimplemented!() }
pub open spec fn views(v: Seq<Msg>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].v@) }
impl El {
    #[verifier::external_body] pub fn add_to_hash(&self, h: &mut Sha512) ensures final(h).d@ == old(h).d@ + enc1(self.w@) { unimplemented!() }
    pub fn to_sharetype(self) -> (r: El) ensures r == self { self }
}
/// what happens at a party, in order (an operation that fails may have done anything):
/// products of lists of vectors and what they gave (C03), coin (C17), shares that were put together, what was received for
/// them being queued for the comparison (c15_jmp.rs), the comparison itself (c15_jmp.rs), a digest announced and the three seen
pub enum Ev { Dots(Seq<Seq<Share>>, Seq<Seq<Share>>, Seq<Share>), Muls(Seq<Share>, Seq<Share>, Seq<Share>), Coin(int), Opened(Seq<Share>, Seq<El>), Compared, Said(Seq<u8>, Seq<Seq<u8>>) }
pub struct Net { pub log: Ghost<Seq<Ev>>, pub id: Ghost<nat> }
impl Net {
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == self.id@, r < 3 { unimplemented!() }
    #[verifier::external_body] pub fn broadcast(&mut self, b: Bytes) -> (r: Result<Vec<Msg>, Error>) ensures final(self).id == old(self).id, r is Ok ==> r->Ok_0@.len() == 3 && final(self).log@ == old(self).log@.push(Ev::Said(b.b@, views(r->Ok_0@))) && views(r->Ok_0@)[old(self).id@ as int] == b.b@ { unimplemented!() }
}
pub struct Prf { pub g: Ghost<int> }
impl Prf {
    #[verifier::external_body] pub fn gen_rand(&mut self) -> (r: Share) { unimplemented!() }
    #[verifier::external_body] pub fn rands(&mut self, n: usize) -> (r: Vec<Share>) ensures r@.len() == n { unimplemented!() }
}
/// the challenge derived from the coin
pub struct Seed { pub v: Ghost<int> }
pub struct Rand { pub v: Ghost<int> }
impl Rand { #[verifier::external_body] pub fn from_seed(s: Seed) -> (r: Self) ensures r.v == s.v { unimplemented!() } #[verifier::external_body] pub fn gen(&mut self) -> (r: El) ensures r.w@ == old(self).v@ { unimplemented!() } }
pub open spec fn neg_(x: Share) -> Share { sh(-x.a.w@, -x.b.w@) }
impl NegSpecImpl for Share { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Share { neg_(self) } }
impl Neg for Share { type Output = Share; #[verifier::external_body] fn neg(self) -> Share { unimplemented!() } }
/// to the larger ring and back: the class modulo 2^K stays the same
pub uninterp spec fn up(x: Share) -> Share;
pub uninterp spec fn down(x: Share) -> Share;
pub open spec fn ups(x: Seq<Share>) -> Seq<Share> { Seq::new(x.len(), |i: int| up(x[i])) }
pub open spec fn downs(x: Seq<Share>) -> Seq<Share> { Seq::new(x.len(), |i: int| down(x[i])) }
impl Share {
    #[verifier::external_body] pub fn from_verificationtype(x: Share) -> (r: Share) ensures r == down(x) { unimplemented!() }
    #[verifier::external_body] pub fn to_verificationtype(self) -> (r: Share) ensures r == up(self) { unimplemented!() }
}
pub open spec fn two<T>(a: T, b: T) -> Seq<T> { seq![a, b] }
pub open spec fn vals(v: Seq<Vec<Share>>) -> Seq<Seq<Share>> { Seq::new(v.len(), |i: int| v[i]@) }
// ---------------------------------------------------------------- comparing that something is zero
pub open spec fn row(id: int, w: Share) -> Seq<u8> { let (a, b, n) = (enc1(w.a.w@), enc1(w.b.w@), enc1(-w.a.w@ - w.b.w@)); if id == 0 { a + n + b } else if id == 1 { b + a + n } else { n + b + a } }
pub open spec fn rows(id: int, w: Seq<Share>) -> Seq<u8> decreases w.len() { if w.len() == 0 { Seq::empty() } else { rows(id, w.drop_last()) + row(id, w.last()) } }
proof fn rows_next(id: int, w: Seq<Share>, i: int) requires 0 <= i < w.len() ensures rows(id, w.take(i + 1)) == rows(id, w.take(i)) + row(id, w[i])
{ assert(w.take(i + 1).drop_last() =~= w.take(i)); }
proof fn one_row(id: int, w: Seq<Share>) requires w.len() == 1 ensures rows(id, w) == row(id, w[0]) { assert(w.drop_last() =~= Seq::empty()); assert(rows(id, w.drop_last()) =~= Seq::empty()); assert(rows(id, w) =~= row(id, w[0])); }
proof fn hashed(id: int, w: Share, before: Seq<u8>, now: Seq<u8>)
    requires ({ let (a, b, n) = (enc1(w.a.w@), enc1(w.b.w@), enc1(-w.a.w@ - w.b.w@)); (id == 0 ==> now == before + a + n + b) && (id == 1 ==> now == before + b + a + n) && (id != 0 && id != 1 ==> now == before + n + b + a) }) ensures now == before + row(id, w)
{ assert(now =~= before + row(id, w)); }
pub open spec fn zero_digest(id: int, w: Seq<Share>) -> Seq<u8> { sha(rows(id, w)) }
pub open spec fn all_say(d: Seq<u8>, h: Seq<Seq<u8>>) -> bool { h.len() == 3 && h[0] == d && h[1] == d && h[2] == d }
pub open spec fn prev(i: int) -> int { if i == 0 { 2 } else { i - 1 } }
/// how lists of components lie with party i
pub open spec fn lies(x: Seq<Seq<El>>, i: int) -> Seq<Share> { Seq::new(x[0].len(), |k: int| Share { a: x[i][k], b: x[prev(i)][k] }) }
pub open spec fn threes(x: Seq<Seq<El>>) -> bool { x.len() == 3 && x[1].len() == x[0].len() && x[2].len() == x[0].len() }
pub open spec fn opens(x: Seq<Seq<El>>, k: int) -> int { x[0][k].w@ + x[1][k].w@ + x[2][k].w@ }
pub open spec fn all_zero(x: Seq<Seq<El>>) -> bool { forall|k: int| 0 <= k < x[0].len() ==> #[trigger] opens(x, k) % n_() == 0 }
proof fn third_is(a: int, b: int, c: int) ensures ((-a - b) % n_() == c % n_()) == ((a + b + c) % n_() == 0)
{
    enc_ok(0, 0); let n = n_();
    vstd::arithmetic::div_mod::lemma_mod_equivalence(-a - b, c, n);
    vstd::arithmetic::div_mod::lemma_mod_equivalence(a + b + c, 0, n);
    vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat);
    // (-a - b) - c = -(a + b + c)
    let s = a + b + c; assert((-a - b) - c == -s);
    let q = s / n; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, n);
    let p = (-s) / n; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-s, n);
    if s % n == 0 { assert(-s == n * (-q)) by (nonlinear_arith) requires s == n * q; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-q, n); assert((-s) % n == 0) by { assert(n * (-q) == (-q) * n) by (nonlinear_arith); } }
    if (-s) % n == 0 { assert(s == n * (-p)) by (nonlinear_arith) requires -s == n * p; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-p, n); assert(s % n == 0) by { assert(n * (-p) == (-p) * n) by (nonlinear_arith); } }
}
proof fn row_len(i: int, u: Share) ensures row(i, u).len() == 3 * enc1(0).len() { enc_ok(u.a.w@, 0); enc_ok(u.b.w@, 0); enc_ok(-u.a.w@ - u.b.w@, 0); }
proof fn rows_len(i: int, u: Seq<Share>) ensures rows(i, u).len() == u.len() * (3 * enc1(0).len()) decreases u.len()
{ if u.len() > 0 { rows_len(i, u.drop_last()); row_len(i, u.last()); let (m, z) = (u.len() as int, 3 * enc1(0).len() as int); assert(m * z == (m - 1) * z + z) by (nonlinear_arith); } else { let z = 3 * enc1(0).len(); assert(0 * z == 0) by (nonlinear_arith); } }
proof fn one_agrees(x: Seq<El>, i: int, j: int) requires x.len() == 3, 0 <= i < 3, 0 <= j < 3, i != j
    ensures (row(i, Share { a: x[i], b: x[prev(i)] }) == row(j, Share { a: x[j], b: x[prev(j)] })) == ((x[0].w@ + x[1].w@ + x[2].w@) % n_() == 0)
{
    let (a, b, c) = (x[0].w@, x[1].w@, x[2].w@); let z = enc1(0).len() as int;
    third_is(a, b, c); third_is(b, a, c); third_is(c, a, b); third_is(a, c, b); third_is(b, c, a); third_is(c, b, a);
    enc_ok(-a - b, c); enc_ok(-b - a, c); enc_ok(-a - c, b); enc_ok(-c - a, b); enc_ok(-b - c, a); enc_ok(-c - b, a);
    enc_ok(a, 0); enc_ok(b, 0); enc_ok(c, 0); enc_ok(-a - b, 0); enc_ok(-b - a, 0); enc_ok(-a - c, 0); enc_ok(-c - a, 0); enc_ok(-b - c, 0); enc_ok(-c - b, 0);
    let (r, s) = (row(i, Share { a: x[i], b: x[prev(i)] }), row(j, Share { a: x[j], b: x[prev(j)] }));
    let (ea, eb, ec) = (enc1(a), enc1(b), enc1(c));
    if (a + b + c) % n_() == 0 { assert(r =~= ea + eb + ec); assert(s =~= ea + eb + ec); }
    else if r == s {
        assert(r.subrange(0, z) =~= if i == 0 { ea } else if i == 1 { ea } else { enc1(-c - b) });
        assert(r.subrange(z, 2 * z) =~= if i == 0 { enc1(-a - c) } else if i == 1 { eb } else { eb });
        assert(r.subrange(2 * z, 3 * z) =~= if i == 0 { ec } else if i == 1 { enc1(-b - a) } else { ec });
        assert(s.subrange(0, z) =~= if j == 0 { ea } else if j == 1 { ea } else { enc1(-c - b) });
        assert(s.subrange(z, 2 * z) =~= if j == 0 { enc1(-a - c) } else if j == 1 { eb } else { eb });
        assert(s.subrange(2 * z, 3 * z) =~= if j == 0 { ec } else if j == 1 { enc1(-b - a) } else { ec });
    }
}
/// two honest parties announce the same digest exactly if every entry of the list is zero: for lists of every length
proof fn rows_agree(x: Seq<Seq<El>>, i: int, j: int)
    requires threes(x), 0 <= i < 3, 0 <= j < 3, i != j ensures (rows(i, lies(x, i)) == rows(j, lies(x, j))) == all_zero(x) decreases x[0].len()
{
    let (u, v) = (lies(x, i), lies(x, j)); let n = x[0].len() as int;
    if n > 0 {
        let y = seq![x[0].drop_last(), x[1].drop_last(), x[2].drop_last()];
        rows_agree(y, i, j);
        assert(u.drop_last() =~= lies(y, i)); assert(v.drop_last() =~= lies(y, j));
        rows_len(i, u.drop_last()); rows_len(j, v.drop_last());
        let l = rows(i, u.drop_last()).len() as int;
        let (f, g) = (rows(i, u), rows(j, v));
        assert(rows(i, u.drop_last()) =~= f.take(l)); assert(rows(j, v.drop_last()) =~= g.take(l));
        assert(row(i, u.last()) =~= f.skip(l)); assert(row(j, v.last()) =~= g.skip(l));
        one_agrees(seq![x[0][n - 1], x[1][n - 1], x[2][n - 1]], i, j);
        if all_zero(x) { assert forall|k: int| 0 <= k < y[0].len() implies #[trigger] opens(y, k) % n_() == 0 by { assert(opens(x, k) % n_() == 0); } assert(opens(x, n - 1) % n_() == 0); }
        if all_zero(y) && opens(x, n - 1) % n_() == 0 { assert forall|k: int| 0 <= k < x[0].len() implies #[trigger] opens(x, k) % n_() == 0 by { if k < n - 1 { assert(opens(y, k) % n_() == 0); } } }
    } else { assert(rows(i, u) =~= rows(j, v)); }
}
proof fn zeros_are_what_is_compared(x: Seq<Seq<El>>, i: int, j: int)
    requires threes(x), 0 <= i < 3, 0 <= j < 3, i != j ensures (zero_digest(i, lies(x, i)) == zero_digest(j, lies(x, j))) == all_zero(x)
{ collision_free(rows(i, lies(x, i)), rows(j, lies(x, j))); rows_agree(x, i, j); }
// ---------------------------------------------------------------- the sacrifice
/// the steps: products of both sets of operands, coin, masked operands opened and compared, digest of w announced by all
pub open spec fn sacrificed(l: Seq<Ev>, k: Seq<Ev>, id: int, muls: Ev, r: int, x: Seq<Share>, v: Seq<El>, w: Seq<Share>, h: Seq<Seq<u8>>) -> bool {
    k == l.push(muls).push(Ev::Coin(r)).push(Ev::Opened(x, v)).push(Ev::Compared).push(Ev::Said(zero_digest(id, w), h)) && all_say(zero_digest(id, w), h)
}
pub open spec fn mask_one(a: Share, r: int, z: Share) -> Share { sh(a.a.w@ * r - z.a.w@, a.b.w@ * r - z.b.w@) }
pub open spec fn left_one(b: Share, v: int, c: Share, r: int, d: Share) -> Share { sh(b.a.w@ * v - c.a.w@ * r + d.a.w@, b.b.w@ * v - c.b.w@ * r + d.b.w@) }
pub open spec fn masks(a: Seq<Share>, r: int, z: Seq<Share>) -> Seq<Share> { Seq::new(a.len(), |i: int| mask_one(a[i], r, z[i])) }
pub open spec fn lefts(b: Seq<Share>, v: Seq<El>, c: Seq<Share>, r: int) -> Seq<Share> { Seq::new(b.len(), |i: int| left_one(b[i], v[i].w@, c[i], r, c[b.len() + i])) }
/// a triple that is handed out went through the sacrifice
pub open spec fn triple_checked(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Share, z: Share, b: Share, cs: Seq<Share>, r: int, v: El, h: Seq<Seq<u8>>) -> bool {
    cs.len() == 2 && sacrificed(l, k, id, Ev::Muls(two(a, z), two(b, b), cs), r, seq![mask_one(a, r, z)], seq![v], seq![left_one(b, v.w@, cs[0], r, cs[1])], h)
}
pub open spec fn triple(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Share, b: Share, c: Share) -> bool {
    exists|x: Share, z: Share, y: Share, cs: Seq<Share>, r: int, v: El, h: Seq<Seq<u8>>| #[trigger] triple_checked(l, k, id, x, z, y, cs, r, v, h) && a == down(x) && b == down(y) && c == down(cs[0])
}
pub open spec fn triples_checked(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Seq<Share>, z: Seq<Share>, b: Seq<Share>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>) -> bool {
    cs.len() == 2 * a.len() && z.len() == a.len() && b.len() == a.len() && v.len() == a.len() && sacrificed(l, k, id, Ev::Muls(a + z, b + b, cs), r, masks(a, r, z), v, lefts(b, v, cs, r), h)
}
pub open spec fn triples(l: Seq<Ev>, k: Seq<Ev>, id: int, n: nat, a: Seq<Share>, b: Seq<Share>, c: Seq<Share>) -> bool {
    exists|x: Seq<Share>, z: Seq<Share>, y: Seq<Share>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>| #[trigger] triples_checked(l, k, id, x, z, y, cs, r, v, h) && x.len() == n && a == downs(x) && b == downs(y) && c == downs(cs.take(n as int))
}
#[verifier::external_body] pub fn extend_with<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
#[verifier::external_body] pub fn first_of<T>(v: &Vec<T>, n: usize) -> (r: Vec<T>) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
#[verifier::external_body] pub fn rest_of<T>(v: &Vec<T>, n: usize) -> (r: Vec<T>) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
pub fn new_list(n: usize) -> (r: Vec<Share>) ensures r@.len() == 0 { Vec::new() }
// ---------------------------------------------------------------- dot products and products
pub open spec fn firsts(b: Seq<Share>) -> Seq<int> { Seq::new(b.len(), |i: int| b[i].a.w@) }
pub open spec fn seconds(b: Seq<Share>) -> Seq<int> { Seq::new(b.len(), |i: int| b[i].b.w@) }
pub open spec fn vdot(b: Seq<int>, v: Seq<El>, i: int) -> int decreases i { if i <= 0 { 0 } else { vdot(b, v, i - 1) + b[i - 1] * v[i - 1].w@ } }
pub open spec fn left_dot(b: Seq<Share>, v: Seq<El>, c: Share, r: int, d: Share) -> Share { sh(vdot(firsts(b), v, b.len() as int) - c.a.w@ * r + d.a.w@, vdot(seconds(b), v, b.len() as int) - c.b.w@ * r + d.b.w@) }
pub open spec fn dot_checked(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Seq<Share>, z: Seq<Share>, b: Seq<Share>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>) -> bool {
    cs.len() == 2 && v.len() == a.len() && sacrificed(l, k, id, Ev::Dots(two(a, z), two(b, b), cs), r, masks(a, r, z), v, seq![left_dot(b, v, cs[0], r, cs[1])], h)
}
pub open spec fn dot_done(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Seq<Share>, b: Seq<Share>, res: Share) -> bool {
    exists|z: Seq<Share>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>| #[trigger] dot_checked(l, k, id, ups(a), z, ups(b), cs, r, v, h) && z.len() == a.len() && res == down(cs[0])
}
/// the components a party holds of z + b u + a v - u v (the last term belongs to component 0)
pub open spec fn beaver(id: int, a: Share, b: Share, z: Share, u: int, v: int) -> Share {
    let (p, q) = (z.a.w@ + b.a.w@ * u + a.a.w@ * v, z.b.w@ + b.b.w@ * u + a.b.w@ * v); if id == 0 { sh(p - u * v, q) } else if id == 1 { sh(p, q - u * v) } else { sh(p, q) }
}
/// a product: a checked triple, the differences opened (and queued for the comparison), the components combined
pub open spec fn product_of(l: Seq<Ev>, m: Seq<Ev>, k: Seq<Ev>, id: int, a: Share, b: Share, x: Share, y: Share, z: Share, o: Seq<El>) -> bool {
    triple(l, m, id, x, y, z) && o.len() == 2 && k == m.push(Ev::Opened(two(s_sub(a, x), s_sub(b, y)), o))
}
pub open spec fn multiplied(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Share, b: Share, res: Share) -> bool {
    exists|m: Seq<Ev>, x: Share, y: Share, z: Share, o: Seq<El>| #[trigger] product_of(l, m, k, id, a, b, x, y, z, o) && res == beaver(id, a, b, z, o[0].w@, o[1].w@)
}
/// what is compared with zero: the error of the result times the challenge minus the error of the second one
proof fn vdot_more(b: Seq<int>, c: Seq<int>, d: Seq<int>, v: Seq<El>, i: int)
    requires 0 <= i ensures vdot(b, v, i) + vdot(c, v, i) + vdot(d, v, i) == vdot(Seq::new(i as nat, |k: int| b[k] + c[k] + d[k]), v, i) decreases i
{
    if i > 0 {
        vdot_more(b, c, d, v, i - 1);
        let (s, t) = (Seq::new(i as nat, |k: int| b[k] + c[k] + d[k]), Seq::new((i - 1) as nat, |k: int| b[k] + c[k] + d[k]));
        vdot_same(s, t, v, i - 1); let (p, q, r, w) = (b[i - 1], c[i - 1], d[i - 1], v[i - 1].w@);
        assert(p * w + q * w + r * w == (p + q + r) * w) by (nonlinear_arith);
    }
}
proof fn vdot_same(s: Seq<int>, t: Seq<int>, v: Seq<El>, i: int) requires 0 <= i <= s.len(), i <= t.len(), forall|k: int| 0 <= k < i ==> #[trigger] s[k] == t[k] ensures vdot(s, v, i) == vdot(t, v, i) decreases i
{ if i > 0 { vdot_same(s, t, v, i - 1); } }
/// with v = A r - Z opened: B v - C r + D = (D - Z B) - r (C - A B), for vectors of every length: zero for right products, and
/// if the result is wrong, zero for the challenges with r (C - A B) = D - Z B only (their share: C22)
pub open spec fn idot(a: Seq<int>, b: Seq<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { idot(a, b, i - 1) + a[i - 1] * b[i - 1] } }
proof fn error_of(a: Seq<int>, z: Seq<int>, b: Seq<int>, v: Seq<El>, r: int, c: int, d: int, i: int)
    requires 0 <= i, forall|k: int| 0 <= k < i ==> (#[trigger] v[k]).w@ == a[k] * r - z[k] ensures vdot(b, v, i) - c * r + d == (d - idot(z, b, i)) - r * (c - idot(a, b, i)) decreases i
{
    if i > 0 {
        error_of(a, z, b, v, r, c, d, i - 1); assert(v[i - 1].w@ == a[i - 1] * r - z[i - 1]);
        let (p, q, s, e, f) = (a[i - 1], z[i - 1], b[i - 1], idot(z, b, i - 1), idot(a, b, i - 1));
        assert((d - (e + q * s)) - r * (c - (f + p * s)) == ((d - e) - r * (c - f)) + s * (p * r - q)) by (nonlinear_arith);
    } else { assert(r * (c - 0) == c * r) by (nonlinear_arith); }
}
/// the result of a product: with Z = X Y (modulo m), u = A - X and v = B - Y the components add up to A B modulo m
proof fn product_right(a: Seq<int>, b: Seq<int>, z: Seq<int>, x: int, y: int, u: int, v: int, m: int)
    requires m > 1, a.len() == 3, b.len() == 3, z.len() == 3, u == a[0] + a[1] + a[2] - x, v == b[0] + b[1] + b[2] - y, (z[0] + z[1] + z[2] - x * y) % m == 0
    ensures ({ let p = |i: int| beaver(i, sh(a[i], a[prev(i)]), sh(b[i], b[prev(i)]), sh(z[i], z[prev(i)]), u, v); (p(0).a.w@ + p(1).a.w@ + p(2).a.w@ - (a[0] + a[1] + a[2]) * (b[0] + b[1] + b[2])) % m == 0 && p(0).b == p(2).a && p(1).b == p(0).a && p(2).b == p(1).a })
{
    let (aa, bb, zz) = (a[0] + a[1] + a[2], b[0] + b[1] + b[2], z[0] + z[1] + z[2]);
    let (a0, a1, a2, b0, b1, b2) = (a[0], a[1], a[2], b[0], b[1], b[2]);
    assert(b0 * u + b1 * u + b2 * u == (b0 + b1 + b2) * u && a0 * v + a1 * v + a2 * v == (a0 + a1 + a2) * v) by (nonlinear_arith);
    assert(zz + bb * u + aa * v - u * v - aa * bb == zz - x * y) by (nonlinear_arith) requires u == aa - x, v == bb - y;
}
impl Share {
    #[verifier::external_body] pub fn sub_assign_const(&mut self, c: &El, id: usize) ensures *final(self) == (if id == 0 { sh(old(self).a.w@ - c.w@, old(self).b.w@) } else if id == 1 { sh(old(self).a.w@, old(self).b.w@ - c.w@) } else { *old(self) }) { unimplemented!() }
}
/// lists of vectors
pub open spec fn all_ups(x: Seq<Seq<Share>>) -> Seq<Seq<Share>> { Seq::new(x.len(), |i: int| ups(x[i])) }
pub open spec fn masked_all(a: Seq<Seq<Share>>, r: int, z: Seq<Seq<Share>>) -> Seq<Seq<Share>> { Seq::new(a.len(), |i: int| masks(a[i], r, z[i])) }
pub open spec fn flat(x: Seq<Seq<Share>>) -> Seq<Share> decreases x.len() { if x.len() == 0 { Seq::empty() } else { flat(x.drop_last()) + x.last() } }
pub open spec fn offs(y: Seq<Seq<Share>>, i: int) -> int decreases i { if i <= 0 { 0 } else { offs(y, i - 1) + y[i - 1].len() } }
/// the opened values that belong to entry k
pub open spec fn seg(v: Seq<El>, y: Seq<Seq<Share>>, k: int) -> Seq<El> { v.subrange(offs(y, k), offs(y, k) + y[k].len()) }
pub open spec fn left_dots(y: Seq<Seq<Share>>, v: Seq<El>, cs: Seq<Share>, r: int) -> Seq<Share> { Seq::new(y.len(), |k: int| left_dot(y[k], seg(v, y, k), cs[k], r, cs[y.len() + k])) }
proof fn offs_up(y: Seq<Seq<Share>>, i: int, j: int) requires 0 <= i <= j ensures 0 <= offs(y, i) <= offs(y, j), 0 < i ==> offs(y, i) == offs(y, i - 1) + y[i - 1].len() && 0 <= offs(y, i - 1) decreases j
{ if i > 0 { offs_up(y, i - 1, i - 1); } if i < j { offs_up(y, i, j - 1); } }
proof fn flat_len(x: Seq<Seq<Share>>, r: int, z: Seq<Seq<Share>>, y: Seq<Seq<Share>>, i: int)
    requires 0 <= i <= x.len(), x.len() == y.len(), forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).len() == y[k].len() ensures flat(masked_all(x, r, z).take(i)).len() == offs(y, i) decreases i
{ if i > 0 { flat_len(x, r, z, y, i - 1); let m = masked_all(x, r, z); assert(m.take(i).drop_last() =~= m.take(i - 1)); assert(m.take(i).last() == masks(x[i - 1], r, z[i - 1])); assert(x[i - 1].len() == y[i - 1].len()); } }
#[verifier::external_body] pub fn flatten_(v: Vec<Vec<Share>>) -> (r: Vec<Share>) ensures r@ == flat(vals(v@)) { unimplemented!() }
pub struct Cursor { pub v: Ghost<Seq<El>>, pub pos: Ghost<int> }
#[verifier::external_body] pub fn cursor(v: Vec<El>) -> (r: Cursor) ensures r.v@ == v@, r.pos@ == 0 { unimplemented!() }
impl Cursor { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<El>) ensures final(self).v == old(self).v, 0 <= old(self).pos@ < old(self).v@.len() ==> r == Some(old(self).v@[old(self).pos@]) && final(self).pos@ == old(self).pos@ + 1 { unimplemented!() } }
pub open spec fn dots_checked(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Seq<Seq<Share>>, z: Seq<Seq<Share>>, b: Seq<Seq<Share>>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>) -> bool {
    cs.len() == 2 * b.len() && a.len() == b.len() && z.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] a[i]).len() == b[i].len()) && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] z[i]).len() == b[i].len())
    && v.len() == offs(b, b.len() as int) && sacrificed(l, k, id, Ev::Dots(a + z, b + b, cs), r, flat(masked_all(a, r, z)), v, left_dots(b, v, cs, r), h)
}
pub open spec fn dots_done(l: Seq<Ev>, k: Seq<Ev>, id: int, a: Seq<Seq<Share>>, b: Seq<Seq<Share>>, res: Seq<Share>) -> bool {
    exists|z: Seq<Seq<Share>>, cs: Seq<Share>, r: int, v: Seq<El>, h: Seq<Seq<u8>>| #[trigger] dots_checked(l, k, id, all_ups(a), z, all_ups(b), cs, r, v, h) && res == downs(cs.take(b.len() as int))
}
pub struct Mal { pub network: Net, pub prf: Prf }
impl Mal {
    pub open spec fn log(self) -> Seq<Ev> { self.network.log@ }
    pub open spec fn id(self) -> int { self.network.id@ as int }
    pub open spec fn did(self, o: Mal, e: Ev) -> bool { self.network.log@ == o.network.log@.push(e) }
    #[verifier::external_body] pub fn aby_mul_many(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len() ensures final(self).network.id == old(self).network.id, r is Ok ==> r->Ok_0@.len() == a@.len() && final(self).did(*old(self), Ev::Muls(a@, b@, r->Ok_0@)) { unimplemented!() }
    #[verifier::external_body] pub fn aby_dot_many(&mut self, a: Vec<Vec<Share>>, b: Vec<Vec<Share>>) -> (r: Result<Vec<Share>, Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> a@.len() == b@.len() && (forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@.len() == b@[i]@.len()) && r->Ok_0@.len() == a@.len() && final(self).did(*old(self), Ev::Dots(vals(a@), vals(b@), r->Ok_0@)) { unimplemented!() }
    #[verifier::external_body] pub fn coin(&mut self) -> (r: Result<Seed, Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> final(self).did(*old(self), Ev::Coin(r->Ok_0.v@)) { unimplemented!() }
    #[verifier::external_body] pub fn reconstruct(&mut self, s: Share) -> (r: Result<El, Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> final(self).did(*old(self), Ev::Opened(seq![s], seq![r->Ok_0])) { unimplemented!() }
    #[verifier::external_body] pub fn reconstruct_many(&mut self, s: Vec<Share>) -> (r: Result<Vec<El>, Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> r->Ok_0@.len() == s@.len() && final(self).did(*old(self), Ev::Opened(s@, r->Ok_0@)) { unimplemented!() }
    #[verifier::external_body] pub fn jmp_verify(&mut self) -> (r: Result<(), Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> final(self).did(*old(self), Ev::Compared) { unimplemented!() }
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn get_mul_triple
//@ re "^.*?\bfn get_mul_triple\b[^{]*\{" => "pub fn get_mul_triple(&mut self) -> (r: Result<(Share, Share, Share), Error>) ensures final(self).network.id == old(self).network.id, r is Ok ==> triple(old(self).log(), final(self).log(), old(self).id(), r->Ok_0.0, r->Ok_0.1, r->Ok_0.2) {"
//@ re "type UShare[^;]*;" => ""
//@ re "assert!\(UShare[^;]*;" => ""
//@ all "\s*\.await" => ""
//@ all "::<(R|UShare(::)?<T>|T::VerificationShare)>" => ""
//@ all "\bR::from_seed" => "Rand::from_seed"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ re "let \(wa, wb\) = w\.get_ab\(\);" => "let ghost w_ = w; let (wa, wb) = w.get_ab();"
//@ re "let digest = " => "proof { hashed(self.id(), w_, Seq::<u8>::empty(), hasher.d@); one_row(self.id(), seq![w_]); assert(Seq::<u8>::empty() + row(self.id(), w_) =~= row(self.id(), w_)); } let digest = "
//@ re "let a = Share" => "let ghost (a__, b__) = (a, b); let a = Share"
//@ re "Ok\(" => "proof { let h = views(hashes@); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); assert(w_ == left_one(b__, v.w@, cs@[0], r.w@, cs@[1])); assert(v_ == mask_one(a__, r.w@, a_)); assert(cs@ =~= two(cs@[0], cs@[1])); assert(triple_checked(old(self).log(), self.log(), old(self).id(), a__, a_, b__, cs@, r.w@, v, h)); } Ok("
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn get_mul_triple_many
//@ re "^.*?\bfn get_mul_triple_many\b[^{]*\{" => "pub fn get_mul_triple_many(&mut self, len: usize) -> (r: Result<(Vec<Share>, Vec<Share>, Vec<Share>), Error>) requires 2 * len <= usize::MAX ensures final(self).network.id == old(self).network.id, r is Ok ==> triples(old(self).log(), final(self).log(), old(self).id(), len as nat, r->Ok_0.0@, r->Ok_0.1@, r->Ok_0.2@) {"
//@ re "type UShare[^;]*;" => ""
//@ re "assert!\(UShare[^;]*;" => ""
//@ all "\s*\.await" => ""
//@ all "::<(R|UShare(::)?<T>|T::VerificationShare)>" => ""
//@ all "\bR::from_seed" => "Rand::from_seed"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "\.cloned\(\)" => ""
//@ all "Share<T(::VerificationShare)?>" => "Share"
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ all "\(0\.\.len\)\s*\.map\(\|_\| self\.prf\.gen_rand\(\)\)\s*\.collect\(\)" => "self.prf.rands(len)"
//@ all "(\w+)\.extend\((\w+)\)" => "extend_with(&mut \1, \2)"
//@ all "(\w+)\[\.\.len\]\.to_vec\(\)" => "first_of(&\1, len)"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Vec::with_capacity\(len\)" => "new_list(len)"
//@ re "for \((a_), (b_)\) in (a_mul[^{]*?) \{([^{}]*)\}" => "let ghost (x_, y_) = (a_mul@, b_mul@); let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == len, n_ == its.v@.len(), x_.len() == len, y_.len() == len, its.v@ == zipped(x_, y_), a@ =~= downs(x_.take(i_ as int)), b@ =~= downs(y_.take(i_ as int)) { let (\1, \2) = its.at_(i_); \4 } proof { assert(x_.take(len as int) =~= x_); assert(y_.take(len as int) =~= y_); }"
//@ re "for _ in 0\.\.len \{([^{}]*)\}" => "for i_ in 0..len invariant x_.len() == len, a_mul@.len() == len + i_, a_mul@.take(len as int) =~= x_, self.network == old(self).network { let ghost was_ = a_mul@; \1 assert(a_mul@ == was_.push(a_mul@.last())); } let ghost z_ = a_mul@.skip(len as int); assert(a_mul@ =~= x_ + z_);"
//@ re "for \((des), (a_)\) in (\w+)\.iter_mut\(\)\.zip\(([^{]*)\) \{([^{}]*)\}" => "let its = (\4).items(); let n_ = if \3.len() <= its.count_() { \3.len() } else { its.count_() }; for i_ in 0..n_ invariant n_ == len, its.v@ == z_, z_.len() == len, x_.len() == len, \3@.len() == len, forall|i: int| 0 <= i < i_ ==> #[trigger] \3@[i] == mask_one(x_[i], r.w@, z_[i]), forall|i: int| i_ <= i < len ==> #[trigger] \3@[i] == x_[i] { let \2 = its.at_(i_); let mut \1 = \3[i_]; \5 \3.set(i_, \1); } proof { assert(\3@ =~= masks(x_, r.w@, z_)); }"
//@ all "\*des (\S)= ([^;]*);" => "des = des \1 (\2);"
//@ re "match self\.network\.get_id\(\) \{" => "let id_ = self.network.get_id(); let ghost ws_ = lefts(y_, v@, cs@, r.w@); proof { assert(ws_.take(0) =~= Seq::empty()); assert(rows(id_ as int, ws_.take(0)) =~= Seq::empty()); } match id_ {"
//@ all "(\d) => \{\s*for (\(\(.*?\)\)) in ([^{]*?) \{([^{}]*)\}" => "\1 => { let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant id_ == \1, n_ == len, n_ == its.v@.len(), y_.len() == len, v@.len() == len, cs@.len() == 2 * len, ws_ == lefts(y_, v@, cs@, r.w@), forall|i: int| 0 <= i < n_ ==> #[trigger] its.v@[i] == ((y_[i], v@[i]), (cs@[i], cs@[len + i])), hasher.d@ == rows(id_ as int, ws_.take(i_ as int)) { let ghost h_ = hasher.d@; let \2 = its.at_(i_); \4 proof { assert(w_ == ws_[i_ as int]); hashed(id_ as int, w_, h_, hasher.d@); rows_next(id_ as int, ws_, i_ as int); } } "
//@ re "let digest = " => "proof { assert(ws_.take(len as int) =~= ws_); } let digest = "
//@ re "for (c_) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == len, n_ == its.v@.len(), cs@.len() == 2 * len, its.v@ == cs@.take(len as int), c@ =~= downs(cs@.take(i_ as int)) { let \1 = its.at_(i_); \3 }"
//@ re "Ok\(\(a, b, c\)\)" => "proof { let h = views(hashes@); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); assert(triples_checked(old(self).log(), self.log(), old(self).id(), x_, z_, y_, cs@, r.w@, v@, h)); } Ok((a, b, c))"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot_sacrifice
//@ re "^.*?\bfn dot_sacrifice\b[^{]*\{" => "pub fn dot_sacrifice(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Share, Error>) requires a@.len() == b@.len() ensures final(self).network.id == old(self).network.id, r is Ok ==> dot_done(old(self).log(), final(self).log(), old(self).id(), a@, b@, r->Ok_0) {"
//@ re "type UShare[^;]*;" => ""
//@ re "assert!\(UShare[^;]*;" => ""
//@ all "\s*\.await" => ""
//@ all "::<(R|UShare(::)?<T>|T::VerificationShare)>" => ""
//@ all "\bR::from_seed" => "Rand::from_seed"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "\.cloned\(\)" => ""
//@ all "Share<T(::VerificationShare)?>" => "Share"
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ all "let (a|b) = (\w+)\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| (\S+)\)\s*\.collect::<Vec<_>>\(\);" => "let ghost \1_0 = \1@; let its = (\2).items(); let n_ = its.count_(); let mut up_\1 = new_list(n_); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == \1_0, up_\1@ =~= ups(\1_0.take(i_ as int)) { let \3 = its.at_(i_); up_\1.push(\4); } proof { assert(\1_0.take(\1_0.len() as int) =~= \1_0); } let \1 = up_\1; let ghost u\1_ = \1@;"
//@ all "\(0\.\.(\w+)\)\s*\.map\(\|_\| self\.prf\.gen_rand\(\)\)\s*\.collect\(\)" => "self.prf.rands(\1)"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "(let cs = self\s*\.aby_dot_many\([^;]*;)" => "let ghost z_ = a_@; \1 proof { let l_ = self.log(); assert(l_.last() == Ev::Dots(two(ua_, z_), two(ub_, ub_), cs@)) by { let (p_, q_) = (l_.last()->Dots_0, l_.last()->Dots_1); assert(p_ =~= two(ua_, z_)); assert(q_ =~= two(ub_, ub_)); } }"
//@ re "for \((des), (a_)\) in (\w+)\.iter_mut\(\)\.zip\(([^{]*)\) \{([^{}]*)\}" => "let its = (\4).items(); let n_ = if \3.len() <= its.count_() { \3.len() } else { its.count_() }; for i_ in 0..n_ invariant n_ == ua_.len(), its.v@ == z_, z_.len() == n_, \3@.len() == n_, forall|i: int| 0 <= i < i_ ==> #[trigger] \3@[i] == mask_one(ua_[i], r.w@, z_[i]), forall|i: int| i_ <= i < n_ ==> #[trigger] \3@[i] == ua_[i] { let \2 = its.at_(i_); let mut \1 = \3[i_]; \5 \3.set(i_, \1); } proof { assert(\3@ =~= masks(ua_, r.w@, z_)); }"
//@ all "\*des (\S)= ([^;]*);" => "des = des \1 (\2);"
//@ re "for \((v), (b)\) in ([^{]*?) \{([^{}]*)\}" => "let ghost (vs_, w0_) = (v@, w); let its = (\3).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == ub_.len(), vs_.len() == n_, its.v@ == zipped(vs_, ub_), w.a.w@ == w0_.a.w@ + vdot(firsts(ub_), vs_, i_ as int), w.b.w@ == w0_.b.w@ + vdot(seconds(ub_), vs_, i_ as int) { let (\1, \2) = its.at_(i_); \4 }"
//@ all "\bw \+= ([^;]*);" => "w = w + (\1);"
//@ re "let \(wa, wb\) = w\.get_ab\(\);" => "let ghost w_ = w; let (wa, wb) = w.get_ab();"
//@ re "let digest = " => "proof { hashed(self.id(), w_, Seq::<u8>::empty(), hasher.d@); one_row(self.id(), seq![w_]); assert(Seq::<u8>::empty() + row(self.id(), w_) =~= row(self.id(), w_)); } let digest = "
//@ re "Ok\(" => "proof { let h = views(hashes@); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); assert((-cs@[0].a.w@) * r.w@ == -(cs@[0].a.w@ * r.w@) && (-cs@[0].b.w@) * r.w@ == -(cs@[0].b.w@ * r.w@)) by (nonlinear_arith); assert(w_ == left_dot(ub_, vs_, cs@[0], r.w@, cs@[1])); assert(dot_checked(old(self).log(), self.log(), old(self).id(), ua_, z_, ub_, cs@, r.w@, vs_, h)); } Ok("
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot_sacrifice_many
//@ re "^.*?\bfn dot_sacrifice_many\b[^{]*\{" => "pub fn dot_sacrifice_many(&mut self, a: &[Vec<Share>], b: &[Vec<Share>]) -> (r: Result<Vec<Share>, Error>) requires a@.len() == b@.len(), 2 * a@.len() <= usize::MAX ensures final(self).network.id == old(self).network.id, r is Ok ==> dots_done(old(self).log(), final(self).log(), old(self).id(), vals(a@), vals(b@), r->Ok_0@) {"
//@ re "type UShare[^;]*;" => ""
//@ re "assert!\(UShare[^;]*;" => ""
//@ all "\s*\.await" => ""
//@ all "::<(R|UShare(::)?<T>|T::VerificationShare)>" => ""
//@ all "\bR::from_seed" => "Rand::from_seed"
//@ all "debug_assert_eq!\([^;]*\);" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "\s*\.cloned\(\)" => ""
//@ all "Share<T(::VerificationShare)?>" => "Share"
//@ all "(\w+\[\d+\]) != (\w+\[\d+\])" => "unlike(&\1, &\2)"
//@ all "(\w+\[\d+\]) == (\w+\[\d+\])" => "!unlike(&\1, &\2)"
//@ all "let mut (a_mul|b_mul) = (\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| \{\s*(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| (\S+)\)\s*\.collect::<Vec<_>>\(\)\s*\}\)\s*\.collect::<Vec<_>>\(\);" => "let its = \2.items(); let n_ = its.count_(); let mut \1: Vec<Vec<Share>> = Vec::with_capacity(n_); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == \2@, \1@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] \1@[i])@ == ups(\2@[i]@) { let \3 = its.at_(i_); let jts = \4.items(); let m_ = jts.count_(); let mut row_ = new_list(m_); for j_ in 0..m_ invariant m_ == jts.v@.len(), jts.v@ == \4@, row_@ =~= ups(\4@.take(j_ as int)) { let \5 = jts.at_(j_); row_.push(\6); } proof { assert(\4@.take(m_ as int) =~= \4@); } \1.push(row_); }"
//@ all "\(0\.\.([\w.()]+?)\)\s*\.map\(\|_\| self\.prf\.gen_rand\(\)\)\s*\.collect(?:::<Vec<_>>)?\(\)" => "self.prf.rands(\1)"
//@ re "for (b) in (b_mul[^{]*?) \{([^{}]*)\}" => "let ghost (x_, y_) = (vals(a_mul@), vals(b_mul@)); let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == len, x_.len() == len, y_ == vals(b_mul@), y_.len() == len, its.v@ == b_mul@, a_mul@.len() == len + i_, forall|i: int| 0 <= i < len ==> (#[trigger] a_mul@[i])@ == x_[i], forall|i: int| 0 <= i < i_ ==> (#[trigger] a_mul@[len + i])@.len() == y_[i].len(), self.network == old(self).network { let \1 = its.at_(i_); let ghost was_ = a_mul@; \3 assert(a_mul@ == was_.push(a_mul@.last())); } let ghost z_ = vals(a_mul@.skip(len as int)); assert(vals(a_mul@) =~= x_ + z_); proof { assert forall|i: int| 0 <= i < len implies (#[trigger] z_[i]).len() == y_[i].len() by { assert(a_mul@[len + i]@.len() == y_[i].len()); } }"
//@ all "(\w+)\.extend\((\w+)\)" => "extend_with(&mut \1, \2)"
//@ all "(\w+)\[len\.\.\]\.to_vec\(\)" => "rest_of(&\1, len)"
//@ re "(let cs = self\s*\.aby_dot_many\([^;]*;)" => "proof { assert(vals(b_mul@) =~= y_ + y_); assert(vals(a_@) =~= z_); } let ghost (am_, bm_) = (a_mul@, b_mul@); \1 proof { let l_ = self.log(); assert(l_.last() == Ev::Dots(x_ + z_, y_ + y_, cs@)); assert forall|i: int| 0 <= i < len implies (#[trigger] x_[i]).len() == y_[i].len() by { assert(am_[i]@.len() == bm_[i]@.len()); assert(vals(am_)[i] == am_[i]@ && vals(bm_)[i] == bm_[i]@); } }"
//@ re "for \((des), (a_)\) in (\w+)\.iter_mut\(\)\.zip\(([^{]*)\) \{\s*for \((des_), (a__)\) in des\.iter_mut\(\)\.zip\(([^{]*)\) \{([^{}]*)\}\s*\}" => "let its = (\4.items()); let n_ = if \3.len() <= its.count_() { \3.len() } else { its.count_() }; for i_ in 0..n_ invariant n_ == len, x_.len() == len, z_.len() == len, y_.len() == len, its.v@.len() == len, vals(its.v@) == z_, \3@.len() == len, forall|i: int| 0 <= i < len ==> (#[trigger] z_[i]).len() == y_[i].len(), forall|i: int| 0 <= i < len ==> (#[trigger] x_[i]).len() == y_[i].len(), forall|i: int| 0 <= i < i_ ==> (#[trigger] \3@[i])@ == masks(x_[i], r.w@, z_[i]), forall|i: int| i_ <= i < len ==> (#[trigger] \3@[i])@ == x_[i] { let \2 = its.at_(i_); assert(z_[i_ as int] == \2@); assert(x_[i_ as int].len() == z_[i_ as int].len()); let mut des = \3[i_].dup(); let jts = (\7.items()); let m_ = if des.len() <= jts.count_() { des.len() } else { jts.count_() }; let ghost (xi, zi) = (x_[i_ as int], z_[i_ as int]); for j_ in 0..m_ invariant m_ == xi.len(), zi.len() == m_, jts.v@ == zi, des@.len() == m_, forall|i: int| 0 <= i < j_ ==> #[trigger] des@[i] == mask_one(xi[i], r.w@, zi[i]), forall|i: int| j_ <= i < m_ ==> #[trigger] des@[i] == xi[i] { let \6 = jts.at_(j_); let mut \5 = des[j_]; \8 des.set(j_, \5); } proof { assert(des@ =~= masks(xi, r.w@, zi)); } \3.set(i_, des); } proof { assert(vals(\3@) =~= masked_all(x_, r.w@, z_)); }"
//@ all "\*des_ (\S)= ([^;]*);" => "des_ = des_ \1 (\2);"
//@ all "\.items\(\)\.(?:into_)?iter\(\)" => ".items()"
//@ re "(\w+)\.into_iter\(\)\.flatten\(\)\.collect(?:_vec|::<Vec<_>>)\(\)" => "flatten_(\1)"
//@ re "match self\.network\.get_id\(\) \{" => "let id_ = self.network.get_id(); let ghost vs_ = v@; let ghost ws_ = left_dots(y_, vs_, cs@, r.w@); proof { flat_len(x_, r.w@, z_, y_, len as int); assert(x_.take(len as int) =~= x_); assert(masked_all(x_, r.w@, z_).take(len as int) =~= masked_all(x_, r.w@, z_)); assert(ws_.take(0) =~= Seq::empty()); assert(rows(id_ as int, ws_.take(0)) =~= Seq::empty()); } match id_ {"
//@ all "(\d) => \{\s*let mut v_iter = v\.into_iter\(\);\s*for (\(.*?\)) in ([^{]*?) \{(.*?)for (b__) in ([^{]*?) \{(.*?)\}(.*?)\}" => "\1 => { let mut v_iter = cursor(v); let its = (\3); let n_ = its.count_(); for i_ in 0..n_ invariant id_ == \1, n_ == len, n_ == its.v@.len(), y_.len() == len, vs_.len() == offs(y_, len as int), cs@.len() == 2 * len, ws_ == left_dots(y_, vs_, cs@, r.w@), v_iter.v@ == vs_, v_iter.pos@ == offs(y_, i_ as int), forall|i: int| 0 <= i < n_ ==> (#[trigger] its.v@[i]).0@ == y_[i] && its.v@[i].1 == (cs@[i], cs@[len + i]), hasher.d@ == rows(id_ as int, ws_.take(i_ as int)) { let ghost h_ = hasher.d@; let \2 = its.at_(i_); \4 let jts = (\6); let m_ = jts.count_(); let ghost (yi, w0_, sg, of) = (y_[i_ as int], w_, seg(vs_, y_, i_ as int), offs(y_, i_ as int)); proof { offs_up(y_, i_ as int + 1, len as int); } for j_ in 0..m_ invariant m_ == yi.len(), jts.v@ == yi, of >= 0, of + m_ <= vs_.len(), sg == vs_.subrange(of, of + m_), v_iter.v@ == vs_, v_iter.pos@ == of + j_, w_.a.w@ == w0_.a.w@ + vdot(firsts(yi), sg, j_ as int), w_.b.w@ == w0_.b.w@ + vdot(seconds(yi), sg, j_ as int) { let \5 = jts.at_(j_); \7 } let ghost w__ = w_; \8 proof { assert((-cs@[i_ as int].a.w@) * r.w@ == -(cs@[i_ as int].a.w@ * r.w@) && (-cs@[i_ as int].b.w@) * r.w@ == -(cs@[i_ as int].b.w@ * r.w@)) by (nonlinear_arith); assert(w__ == ws_[i_ as int]); hashed(id_ as int, w__, h_, hasher.d@); rows_next(id_ as int, ws_, i_ as int); } } "
//@ all "\bw_ \+= ([^;]*);" => "w_ = w_ + (\1);"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "Vec::with_capacity\(len\)" => "new_list(len)"
//@ re "let digest = " => "proof { assert(ws_.take(len as int) =~= ws_); } let digest = "
//@ re "for (c_) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == len, n_ == its.v@.len(), cs@.len() == 2 * len, its.v@ == cs@.take(len as int), c@ =~= downs(cs@.take(i_ as int)) { let \1 = its.at_(i_); \3 }"
//@ re "Ok\(c\)" => "proof { let h = views(hashes@); assert(h[0] == hashes@[0].v@ && h[1] == hashes@[1].v@ && h[2] == hashes@[2].v@); assert(x_ =~= all_ups(vals(a@))); assert(y_ =~= all_ups(vals(b@))); assert(dots_checked(old(self).log(), self.log(), old(self).id(), x_, z_, y_, cs@, r.w@, vs_, h)); } Ok(c)"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot_many
//@ re "^.*?\bfn dot_many\b[^{]*\{" => "pub fn dot_many(&mut self, a: &[Vec<Share>], b: &[Vec<Share>]) -> (r: Result<Vec<Share>, Error>) requires 2 * a@.len() <= usize::MAX ensures r is Ok ==> a@.len() == b@.len() && dots_done(old(self).log(), final(self).log(), old(self).id(), vals(a@), vals(b@), r->Ok_0@) {"
//@ all "\s*\.await" => ""
//@ all "::<T, ChaCha12Rng>" => ""
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn get_id
//@ re "-> [^{]*\{" => "-> (r: usize) ensures r == self.network.id@, r < 3 {"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn mul
//@ re "^.*?\bfn mul\b[^{]*\{" => "pub fn mul(&mut self, a: Share, b: Share) -> (r: Result<Share, Error>) ensures r is Ok ==> multiplied(old(self).log(), final(self).log(), old(self).id(), a, b, r->Ok_0) {"
//@ all "\s*\.await" => ""
//@ all "::<T, ChaCha12Rng>" => ""
//@ all "\.(to_owned|clone)\(\)" => ".dup()"
//@ all "PartyID::try_from\((self\.[\w.]*get_id\(\)) as u8\)\.expect\([^()]*\)" => "\1"
//@ re "(let uv = self\.reconstruct_many)" => "let ghost mid_ = self.log(); \1"
//@ re "let u = uv\[0\]" => "let ghost o_ = uv@; let u = uv[0]"
//@ re "Ok\(c\)" => "proof { let l_ = self.log(); assert(l_.last()->Opened_0 =~= two(s_sub(a, x), s_sub(b, y))); assert(c == beaver(self.id(), a, b, z, o_[0].w@, o_[1].w@)); assert(product_of(old(self).log(), mid_, self.log(), old(self).id(), a, b, x, y, z, o_)); } Ok(c)"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn dot
//@ re "^.*?\bfn dot\b[^{]*\{" => "pub fn dot(&mut self, a: Vec<Share>, b: Vec<Share>) -> (r: Result<Share, Error>) ensures r is Ok ==> a@.len() == b@.len() && dot_done(old(self).log(), final(self).log(), old(self).id(), a@, b@, r->Ok_0) {"
//@ all "\s*\.await" => ""
//@ all "::<T, ChaCha12Rng>" => ""
//@ end
}
fn main() {}
}
