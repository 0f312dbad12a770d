// C15 / C14 / C01 / C02: Swift3's jointly sent messages: what is received from one party is compared with what the other one
// vouches for; joint sharings, inputs and openings on top of them, for lists of every length. Extraction directives are
// replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
/// `^` of the binary engine: the group has exponent two, equations are meant modulo 2
//@ each R rhs | El o.w@ | &El o.w@
impl BitXorSpecImpl<$R> for El { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: $R) -> bool { true } open spec fn bitxor_spec(self, o: $R) -> El { el(self.w@ + $rhs) } }
impl BitXor<$R> for El { type Output = El; #[verifier::external_body] fn bitxor(self, o: $R) -> El { unimplemented!() } }
//@ done
#[derive(Debug)]
pub enum Error { JmpVerifyError, VerifyError, InvalidSizeError, IdError(usize), ValueError, ConversionError, Other }
/// wire encoding of one element (C09: fixed length, injective)
pub uninterp spec fn enc1(w: int) -> Seq<u8>;
pub open spec fn enc(v: Seq<El>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc(v.drop_last()) + enc1(v.last().w@) } }
proof fn enc_next(v: Seq<El>, i: int) requires 0 <= i < v.len() ensures enc(v.take(i + 1)) == enc(v.take(i)) + enc1(v[i].w@)
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
impl El {
    #[verifier::external_body] pub fn add_to_bytes(&self, other: &mut BytesMut) ensures final(other).v@ == old(other).v@ + enc1(self.w@) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(self) -> (r: Bytes) ensures r.b@ == enc1(self.w@) { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes_mut(o: BytesMut) -> (r: Result<El, Error>) ensures r is Ok ==> enc1(r->Ok_0.w@) == o.v@ { unimplemented!() }
    pub fn to_sharetype(self) -> (r: El) ensures r == self { self }
}
pub fn plain_(x: El) -> (r: El) ensures r == x { x }
// ---------------------------------------------------------------- bytes, hash, network
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { pub fn from(b: Vec<u8>) -> (r: Self) ensures r.b@ == b@ { Bytes { b } } }
pub struct BytesMut { pub v: Vec<u8> }
impl BytesMut { pub fn new() -> (r: Self) ensures r.v@.len() == 0 { BytesMut { v: Vec::new() } } pub fn freeze(self) -> (r: Bytes) ensures r.b@ == self.v@ { Bytes { b: self.v } } }
pub uninterp spec fn sha(x: Seq<u8>) -> Seq<u8>;
pub struct Sha512 { pub d: Ghost<Seq<u8>> }
pub struct Digest { pub d: Ghost<Seq<u8>> }
impl Sha512 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.d@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, a: Bytes) ensures final(self).d@ == old(self).d@ + a.b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.d@ == sha(self.d@) { unimplemented!() }
}
impl Digest { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.d@ { unimplemented!() } }
#[verifier::external_body] pub fn differs(a: &BytesMut, b: &Digest) -> (r: bool) ensures r == (a.v@ != b.d@) { unimplemented!() }
#[verifier::external_body] pub fn exchange_<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
/// what was sent to and received from each party, in order; an operation that fails may have done anything
pub struct Net { pub out: Ghost<Ch>, pub inn: Ghost<Ch>, pub id: Ghost<int> }
pub ghost struct Ch { pub c0: Seq<Seq<u8>>, pub c1: Seq<Seq<u8>>, pub c2: Seq<Seq<u8>> }
pub open spec fn put(m: Ch, k: int, x: Seq<u8>) -> Ch { if k == 0 { Ch { c0: m.c0.push(x), ..m } } else if k == 1 { Ch { c1: m.c1.push(x), ..m } } else { Ch { c2: m.c2.push(x), ..m } } }
impl Net {
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == self.id@, r < 3 { unimplemented!() }
    #[verifier::external_body] pub fn get_num_parties(&self) -> (r: usize) ensures r == 3 { unimplemented!() }
    #[verifier::external_body] pub fn send(&mut self, id: usize, b: Bytes) -> (r: Result<(), Error>) ensures final(self).id == old(self).id, r is Ok ==> final(self).inn == old(self).inn && final(self).out@ == put(old(self).out@, id as int, b.b@) { unimplemented!() }
    #[verifier::external_body] pub fn receive(&mut self, id: usize) -> (r: Result<BytesMut, Error>) ensures final(self).id == old(self).id, r is Ok ==> final(self).out == old(self).out && final(self).inn@ == put(old(self).inn@, id as int, r->Ok_0.v@) { unimplemented!() }
}
#[verifier::external_body] pub fn ring_slice_to_bytes(v: &[El]) -> (r: Bytes) ensures r.b@ == enc(v@) { unimplemented!() }
#[verifier::external_body] pub fn ring_vec_from_bytes(b: BytesMut, n: usize) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> r->Ok_0@.len() == n && enc(r->Ok_0@) == b.v@ { unimplemented!() }
pub mod utils { use super::*;
//@ each F sig what | send_value value:El enc1(value.w@) | send_vec value:&[El] enc(value@)
//@ extract iris-mpc/src/aby3/utils.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F(network: &mut Net, $sig, id: usize) -> (r: Result<(), Error>) ensures final(network).id == old(network).id, r is Ok ==> final(network).inn == old(network).inn && final(network).out@ == put(old(network).out@, id as int, $what) {"
//@ all "\s*\.await" => ""
//@ end
//@ done
//@ extract iris-mpc/src/aby3/utils.rs fn receive_value
//@ re "^.*?\bfn receive_value\b[^{]*\{" => "pub fn receive_value(network: &mut Net, id: usize) -> (r: Result<El, Error>) ensures final(network).id == old(network).id, r is Ok ==> final(network).out == old(network).out && final(network).inn@ == put(old(network).inn@, id as int, enc1(r->Ok_0.w@)) {"
//@ all "\s*\.await" => ""
//@ all "\bR::" => "El::"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn receive_vec
//@ re "^.*?\bfn receive_vec\b[^{]*\{" => "pub fn receive_vec(network: &mut Net, id: usize, len: usize) -> (r: Result<Vec<El>, Error>) ensures final(network).id == old(network).id, r is Ok ==> r->Ok_0@.len() == len && final(network).out == old(network).out && final(network).inn@ == put(old(network).inn@, id as int, enc(r->Ok_0@)) {"
//@ all "\s*\.await" => ""
//@ end
}
// ---------------------------------------------------------------- randomness
/// the n-th element of each generator (how the generators of the parties agree: C17)
pub uninterp spec fn s1(n: int) -> int;
pub uninterp spec fn s2(n: int) -> int;
pub uninterp spec fn sp(n: int) -> int;
pub struct Prf { pub n1: Ghost<int>, pub n2: Ghost<int>, pub np: Ghost<int> }
impl Prf {
    #[verifier::external_body] pub fn gen_1(&mut self) -> (r: El) ensures r == el(s1(old(self).n1@)), *final(self) == (Prf { n1: Ghost(old(self).n1@ + 1), n2: old(self).n2, np: old(self).np }) { unimplemented!() }
    #[verifier::external_body] pub fn gen_2(&mut self) -> (r: El) ensures r == el(s2(old(self).n2@)), *final(self) == (Prf { n1: old(self).n1, n2: Ghost(old(self).n2@ + 1), np: old(self).np }) { unimplemented!() }
    #[verifier::external_body] pub fn gen_p(&mut self) -> (r: El) ensures r == el(sp(old(self).np@)), *final(self) == (Prf { n1: old(self).n1, n2: old(self).n2, np: Ghost(old(self).np@ + 1) }) { unimplemented!() }
}
// ---------------------------------------------------------------- shares
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Swift { pub a: El, pub b: El, pub c: El }
impl Swift {
    pub fn new(a: El, b: El, c: El) -> (r: Self) ensures r.a == a, r.b == b, r.c == c { Swift { a, b, c } }
    pub fn get_abc(self) -> (r: (El, El, El)) ensures r == (self.a, self.b, self.c) { (self.a, self.b, self.c) }
}
pub open spec fn as_(v: Seq<Swift>) -> Seq<El> { Seq::new(v.len(), |i: int| v[i].a) }
pub open spec fn bs_(v: Seq<Swift>) -> Seq<El> { Seq::new(v.len(), |i: int| v[i].b) }
pub open spec fn cs_(v: Seq<Swift>) -> Seq<El> { Seq::new(v.len(), |i: int| v[i].c) }
/// what a share opens to with the missing component r
pub open spec fn value(x: bool, s: Swift, r: int) -> int { if x { s.c.w@ + s.a.w@ + s.b.w@ + r } else { s.c.w@ - s.a.w@ - s.b.w@ - r } }
// ---------------------------------------------------------------- the party's state
pub struct Sw { pub network: Net, pub prf: Prf, pub send_queue_next: BytesMut, pub send_queue_prev: BytesMut, pub rcv_queue_next: BytesMut, pub rcv_queue_prev: BytesMut, pub mul_proof: Proof, pub and_proof: Proof, pub dot_proof: Proof }
/// a proof with gates waiting in it
pub struct Proof { pub waiting: Ghost<int> }
impl Proof { #[verifier::external_body] pub fn get_muls(&self) -> (r: usize) ensures r == self.waiting@ { unimplemented!() } }
pub ghost struct S { pub out: Ch, pub inn: Ch, pub me: int, pub vn: Seq<u8>, pub vp: Seq<u8>, pub rn: Seq<u8>, pub rp: Seq<u8> }
pub open spec fn nx(me: int) -> int { if me == 2 { 0 } else { me + 1 } }
pub open spec fn pv(me: int) -> int { if me == 0 { 2 } else { me - 1 } }
pub open spec fn sent(s: S, k: int, x: Seq<u8>) -> S { S { out: put(s.out, k, x), ..s } }
pub open spec fn told(s: S, k: int, x: Seq<u8>) -> S { if k == nx(s.me) { S { vn: s.vn + x, ..s } } else { S { vp: s.vp + x, ..s } } }
/// what comes from one party waits for the comparison with what the other one vouches for
pub open spec fn came(s: S, k: int, x: Seq<u8>) -> S { let t = S { inn: put(s.inn, k, x), ..s }; if k == nx(s.me) { S { rp: s.rp + x, ..t } } else { S { rn: s.rn + x, ..t } } }
pub open spec fn compared(s: S) -> S { S { out: put(put(s.out, nx(s.me), sha(s.vn)), pv(s.me), sha(s.vp)), inn: put(put(s.inn, nx(s.me), sha(s.rn)), pv(s.me), sha(s.rp)), vn: Seq::empty(), vp: Seq::empty(), rn: Seq::empty(), rp: Seq::empty(), ..s } }
/// equal, seen from outside
pub open spec fn alike(s: S, t: S) -> bool { s.me == t.me && s.vn =~= t.vn && s.vp =~= t.vp && s.rn =~= t.rn && s.rp =~= t.rp && s.out == t.out && s.inn == t.inn }
/// the components a party shows in an opening, and who vouches: P0 sends, P1 sends to P0 and vouches to P2, P2 vouches
pub open spec fn shown(s: S, a: Seq<u8>, b: Seq<u8>, r: Seq<u8>) -> S { if s.me == 0 { came(sent(sent(s, 2, a), 1, b), 1, r) } else if s.me == 1 { came(told(sent(s, 0, a), 2, b), 0, r) } else { came(told(told(s, 0, b), 1, a), 0, r) } }
pub open spec fn opening(o: S, n: S, a: Seq<u8>, b: Seq<u8>, r: Seq<u8>) -> bool { n == compared(shown(compared(o), a, b, r)) }
pub open spec fn opened_one(o: S, n: S, v: Swift, r: int, x: bool) -> bool { exists|c: El| #[trigger] opening(o, n, enc1(v.a.w@), enc1(v.b.w@), enc1(c.w@)) && r == value(x, v, c.w@) }
pub open spec fn opened_all(o: S, n: S, v: Seq<Swift>, r: Seq<El>, x: bool) -> bool { exists|c: Seq<El>| #[trigger] opening(o, n, enc(as_(v)), enc(bs_(v)), enc(c)) && c.len() == v.len() && r.len() == v.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == el(value(x, v[i], c[i].w@)) }
proof fn nothing(q: Seq<u8>) ensures q + enc(Seq::<El>::empty()) == q { assert(q + enc(Seq::<El>::empty()) =~= q); }
pub open spec fn ring(a: usize, b: usize, c: usize) -> bool { a < 3 && b < 3 && c < 3 && a != b && b != c && a != c }
pub open spec fn first(a: usize, b: usize) -> int { if b == (a + 1) % 3 { a as int } else { b as int } }
/// a joint sharing of x: the two senders know it, the second one vouches; the drawn components are of the agreed generators
pub open spec fn mask(x: bool, a1: int, p: int) -> int { if x { a1 } else { a1 + p + p } }
pub open spec fn jshared(o: Sw, n: Sw, s1_: int, input: Option<El>, x: bool, r: Swift) -> bool {
    let me = o.st().me; let p = sp(o.prf.np@);
    if me == s1_ { let a1 = s1(o.prf.n1@); r.a == el(a1) && r.b == el(p) && r.c == el(mask(x, a1, p) + input.unwrap().w@) && (n.st() == (sent(o.st(), pv(s1_), enc1(r.c.w@)))) }
    else if me == nx(s1_) { let a1 = s2(o.prf.n2@); r.a == el(p) && r.b == el(a1) && r.c == el(mask(x, a1, p) + input.unwrap().w@) && (n.st() == (told(o.st(), pv(s1_), enc1(r.c.w@)))) }
    else { r.a == el(p) && r.b == el(p) && (n.st() == (came(o.st(), s1_, enc1(r.c.w@)))) }
}
pub open spec fn jshared_all(o: Sw, n: Sw, s1_: int, input: Option<Vec<El>>, len: int, x: bool, r: Seq<Swift>) -> bool {
    let me = o.st().me;
    r.len() == len && if me == s1_ { input.unwrap()@.len() == len && (n.st() == (sent(o.st(), pv(s1_), enc(cs_(r))))) && forall|i: int| 0 <= i < len ==> #[trigger] r[i] == (Swift { a: el(s1(o.prf.n1@ + i)), b: el(sp(o.prf.np@ + i)), c: el(mask(x, s1(o.prf.n1@ + i), sp(o.prf.np@ + i)) + input.unwrap()@[i].w@) }) }
    else if me == nx(s1_) { input.unwrap()@.len() == len && (n.st() == (told(o.st(), pv(s1_), enc(cs_(r))))) && forall|i: int| 0 <= i < len ==> #[trigger] r[i] == (Swift { a: el(sp(o.prf.np@ + i)), b: el(s2(o.prf.n2@ + i)), c: el(mask(x, s2(o.prf.n2@ + i), sp(o.prf.np@ + i)) + input.unwrap()@[i].w@) }) }
    else { (n.st() == (came(o.st(), s1_, enc(cs_(r))))) && forall|i: int| 0 <= i < len ==> (#[trigger] r[i]).a == el(sp(o.prf.np@ + i)) && r[i].b == el(sp(o.prf.np@ + i)) }
}
pub open spec fn own(o: Prf, n: int, k: int) -> int { if n == 1 { s1(o.n1@ + k) } else { s2(o.n2@ + k) } }
pub open spec fn drew(o: Prf, n: Prf, k1: int, k2: int, kp: int) -> bool { n.n1@ == o.n1@ + k1 && n.n2@ == o.n2@ + k2 && n.np@ == o.np@ + kp }
/// the three shares of a joint sharing, the generators agreeing and the receiver holding the common c, open to x
proof fn jshare_opens(a1: int, p: int, x: int, bin: bool, s: Swift, t: Swift, u: Swift)
    requires s == (Swift { a: el(a1), b: el(p), c: el(mask(bin, a1, p) + x) }), t == (Swift { a: el(p), b: el(a1), c: el(mask(bin, a1, p) + x) }), u.a == el(p), u.b == el(p), u.c == t.c
    ensures s.a == t.b, t.a == u.b, u.a == s.b, !bin ==> value(false, s, t.a.w@) == x && value(false, t, u.a.w@) == x && value(false, u, s.a.w@) == x,
        bin ==> (value(true, s, t.a.w@) - x) % 2 == 0 && (value(true, t, u.a.w@) - x) % 2 == 0 && (value(true, u, s.a.w@) - x) % 2 == 0
{ }
/// who vouches for what the dealer d sends (as documented for the dealers 0, 1, 2), who receives it from the dealer
pub open spec fn voucher(d: int) -> int { if d == 1 { 2 } else { 1 } }
/// An input of party d: the dealer draws with every generator and sends the common component to both others; the others
/// draw what they share with the dealer and with each other
pub open spec fn inputted(o: Sw, n: Sw, d: int, input: Option<El>, r: Swift) -> bool {
    let me = o.st().me; let (v, p, y, z) = (voucher(d), sp(o.prf.np@), s1(o.prf.n1@), s2(o.prf.n2@)); let e = enc1(r.c.w@);
    &&& if me == d { r == (Swift { a: el(y), b: el(z), c: el(input.unwrap().w@ + y + z + p) }) && drew(o.prf, n.prf, 1, 1, 1) }
        else if me == nx(d) { r.a == el(p) && r.b == el(z) && drew(o.prf, n.prf, 0, 1, 1) } else { r.a == el(y) && r.b == el(p) && drew(o.prf, n.prf, 1, 0, 1) }
    &&& if me == d { alike(n.st(), sent(sent(o.st(), v, e), 3 - d - v, e)) }
        else if me == v { n.st() == told(S { inn: put(o.st().inn, d, e), ..o.st() }, 3 - d - v, e) } else { n.st() == came(o.st(), d, e) }
}
/// the three shares of an input, the generators agreeing and both others holding the common component, open to it
proof fn input_opens(y: int, z: int, p: int, x: int, s: Swift, t: Swift, u: Swift)
    requires s == (Swift { a: el(y), b: el(z), c: el(x + y + z + p) }), t == (Swift { a: el(p), b: el(y), c: s.c }), u == (Swift { a: el(z), b: el(p), c: s.c })
    ensures s.a == t.b, t.a == u.b, u.a == s.b, value(false, s, t.a.w@) == x, value(false, t, u.a.w@) == x, value(false, u, s.a.w@) == x
{ }
/// a dealt sharing: well-formed, and every party opens it to the value with the missing component
pub open spec fn dealt(x: El, v: Seq<Swift>) -> bool { v.len() == 3 && v[0].a == v[1].b && v[1].a == v[2].b && v[2].a == v[0].b && v[0].c == v[1].c && v[1].c == v[2].c && value(false, v[0], v[1].a.w@) == x.w@ }
#[verifier::external_body] pub fn draw_() -> (r: El) { unimplemented!() }
//@ extract iris-mpc/src/swift3/protocol.rs fn share
//@ re "^.*?\bfn share\b[^{]*\{" => "pub fn share(input: El) -> (r: Vec<Swift>) ensures dealt(input, r@) {"
//@ all "\brng\.gen::<[^(]*>\(\)" => "draw_()"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "\bShare::new\(" => "Swift::new("
//@ end
impl Sw {
    pub open spec fn st(self) -> S { S { out: self.network.out@, inn: self.network.inn@, me: self.network.id@, vn: self.send_queue_next.v@, vp: self.send_queue_prev.v@, rn: self.rcv_queue_next.v@, rp: self.rcv_queue_prev.v@ } }
    pub open spec fn ids(self) -> bool { 0 <= self.network.id@ < 3 }
    pub open spec fn proofs(self, o: Sw) -> bool { self.mul_proof == o.mul_proof && self.and_proof == o.and_proof && self.dot_proof == o.dot_proof }
    pub fn get_id(&self) -> (r: usize) ensures r == self.network.id@, r < 3 { self.network.get_id() }
//@ extract iris-mpc/src/swift3/protocol.rs fn clear_and_hash
//@ re "^.*?\bfn clear_and_hash\b[^{]*\{" => "pub fn clear_and_hash(data: &mut BytesMut) -> (r: Digest) ensures r.d@ == sha(old(data).v@), final(data).v@.len() == 0 {"
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ re "hasher\.finalize\(\)" => "proof { assert(Seq::<u8>::empty() + old(data).v@ =~= old(data).v@); } hasher.finalize()"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_send
//@ re "^.*?\bfn jmp_send\b[^{]*\{" => "pub fn jmp_send(&mut self, value: El, id: usize) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).st() == sent(old(self).st(), id as int, enc1(value.w@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_send_many
//@ re "^.*?\bfn jmp_send_many\b[^{]*\{" => "pub fn jmp_send_many(&mut self, values: &[El], id: usize) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).st() == sent(old(self).st(), id as int, enc(values@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_queue
//@ re "^.*?\bfn jmp_queue\b[^{]*\{" => "pub fn jmp_queue(&mut self, value: El, id: usize) -> (r: Result<(), Error>) ensures r is Ok == (id < 3 && id != old(self).network.id@), r is Ok ==> final(self).st() == told(old(self).st(), id as int, enc1(value.w@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
    pub open spec fn but_send_queue_next(self, o: Sw) -> bool { self.network == o.network && self.prf == o.prf && self.send_queue_prev == o.send_queue_prev && self.rcv_queue_next == o.rcv_queue_next && self.rcv_queue_prev == o.rcv_queue_prev && self.proofs(o) }
    pub open spec fn but_send_queue_prev(self, o: Sw) -> bool { self.network == o.network && self.prf == o.prf && self.send_queue_next == o.send_queue_next && self.rcv_queue_next == o.rcv_queue_next && self.rcv_queue_prev == o.rcv_queue_prev && self.proofs(o) }
    pub open spec fn but_rcv_queue_next(self, o: Sw) -> bool { self.network == o.network && self.prf == o.prf && self.send_queue_next == o.send_queue_next && self.send_queue_prev == o.send_queue_prev && self.rcv_queue_prev == o.rcv_queue_prev && self.proofs(o) }
    pub open spec fn but_rcv_queue_prev(self, o: Sw) -> bool { self.network == o.network && self.prf == o.prf && self.send_queue_next == o.send_queue_next && self.send_queue_prev == o.send_queue_prev && self.rcv_queue_next == o.rcv_queue_next && self.proofs(o) }
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_queue_many
//@ re "^.*?\bfn jmp_queue_many\b[^{]*\{" => "pub fn jmp_queue_many(&mut self, values: &[El], id: usize) -> (r: Result<(), Error>) ensures r is Ok == (id < 3 && id != old(self).network.id@), r is Ok ==> final(self).st() == told(old(self).st(), id as int, enc(values@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "for (\w+) in ([^{]*?) \{([^{}]*(self\.\w+)[^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); let ghost was = *self; proof { assert(its.v@.take(0) =~= Seq::empty()); nothing(\4.v@); } for i_ in 0..n_ invariant n_ == its.v@.len(), \4.v@ == was.\4.v@ + enc(its.v@.take(i_ as int)), self.but_\4(was) { let \1 = its.at_(i_); \3 proof { enc_next(its.v@, i_ as int); let z = was.\4.v@; assert(z + enc(its.v@.take(i_ as int)) + enc1(its.v@[i_ as int].w@) =~= z + enc(its.v@.take(i_ + 1))); } } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ all "was\.self\." => "was."
//@ all "but_self\." => "but_"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_receive
//@ re "^.*?\bfn jmp_receive\b[^{]*\{" => "pub fn jmp_receive(&mut self, id: usize) -> (r: Result<El, Error>) ensures r is Ok ==> id < 3 && id != old(self).network.id@ && final(self).st() == came(old(self).st(), id as int, enc1(r->Ok_0.w@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_receive_many
//@ re "^.*?\bfn jmp_receive_many\b[^{]*\{" => "pub fn jmp_receive_many(&mut self, id: usize, len: usize) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> id < 3 && id != old(self).network.id@ && r->Ok_0@.len() == len && final(self).st() == came(old(self).st(), id as int, enc(r->Ok_0@)), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "for (\w+) in ([^{]*?) \{([^{}]*(self\.\w+)[^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); let ghost was = *self; proof { assert(its.v@.take(0) =~= Seq::empty()); nothing(\4.v@); } for i_ in 0..n_ invariant n_ == its.v@.len(), \4.v@ == was.\4.v@ + enc(its.v@.take(i_ as int)), self.but_\4(was) { let \1 = its.at_(i_); \3 proof { enc_next(its.v@, i_ as int); let z = was.\4.v@; assert(z + enc(its.v@.take(i_ as int)) + enc1(its.v@[i_ as int].w@) =~= z + enc(its.v@.take(i_ + 1))); } } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ all "was\.self\." => "was."
//@ all "but_self\." => "but_"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jmp_verify
//@ re "^.*?\bfn jmp_verify\b[^{]*\{" => "pub fn jmp_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).st() == compared(old(self).st()), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ re "Ok\(\(\)\)\s*\}\s*$" => "proof { assert(alike(self.st(), compared(old(self).st()))); } Ok(()) }"
//@ all "(\w+)\.as_ref\(\) != (\w+)\.as_slice\(\)" => "differs(&\1, &\2)"
//@ all "(\w+)\.as_ref\(\) == (\w+)\.as_slice\(\)" => "!differs(&\1, &\2)"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jshare
//@ re "^.*?\bfn jshare\b[^{]*\{" => "pub fn jshare(&mut self, input: Option<El>, mut sender1: usize, mut sender2: usize, receiver: usize) -> (r: Result<Swift, Error>) requires ring(sender1, sender2, receiver) ensures r is Ok ==> (old(self).network.id@ == receiver || input is Some) && jshared(*old(self), *final(self), first(sender1, sender2), input, false, r->Ok_0) && drew(old(self).prf, final(self).prf, if old(self).network.id@ == first(sender1, sender2) { 1 } else { 0 }, if old(self).network.id@ == nx(first(sender1, sender2)) { 1 } else { 0 }, 1), final(self).network.id == old(self).network.id, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jshare_binary
//@ re "^.*?\bfn jshare_binary\b[^{]*\{" => "pub fn jshare_binary(&mut self, input: Option<El>, mut sender1: usize, mut sender2: usize, receiver: usize) -> (r: Result<Swift, Error>) requires ring(sender1, sender2, receiver) ensures r is Ok ==> (old(self).network.id@ == receiver || input is Some) && jshared(*old(self), *final(self), first(sender1, sender2), input, true, r->Ok_0) && drew(old(self).prf, final(self).prf, if old(self).network.id@ == first(sender1, sender2) { 1 } else { 0 }, if old(self).network.id@ == nx(first(sender1, sender2)) { 1 } else { 0 }, 1), final(self).network.id == old(self).network.id, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ end
    pub open spec fn but_prf(self, o: Sw) -> bool { self.network == o.network && self.send_queue_next == o.send_queue_next && self.send_queue_prev == o.send_queue_prev && self.rcv_queue_next == o.rcv_queue_next && self.rcv_queue_prev == o.rcv_queue_prev && self.proofs(o) }
//@ extract iris-mpc/src/swift3/protocol.rs fn jshare_many
//@ re "^.*?\bfn jshare_many\b[^{]*\{" => "pub fn jshare_many(&mut self, input: Option<Vec<El>>, mut sender1: usize, mut sender2: usize, receiver: usize, len: usize) -> (r: Result<Vec<Swift>, Error>) requires ring(sender1, sender2, receiver) ensures r is Ok ==> (old(self).network.id@ == receiver || input is Some) && jshared_all(*old(self), *final(self), first(sender1, sender2), input, len as int, false, r->Ok_0@) && drew(old(self).prf, final(self).prf, if old(self).network.id@ == first(sender1, sender2) { len as int } else { 0 }, if old(self).network.id@ == nx(first(sender1, sender2)) { len as int } else { 0 }, len as int), final(self).network.id == old(self).network.id, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "let mut (alphas_1|alphas_p|betas) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new();"
//@ re "let mut shares = Vec::with_capacity\(([^;]*)\);" => "let mut shares: Vec<Swift> = Vec::new(); let ghost f_ = first(sender1, sender2); let ghost o_ = *self; let ghost in0 = input;"
//@ all "for (inp\w*) in ([^{]*?) \{([^{}]*gen_([12])[^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), self_id == sender\4, self.but_prf(o_), drew(o_.prf, self.prf, if \4 == 1 { i_ as int } else { 0 }, if \4 == 1 { 0 } else { i_ as int }, i_ as int), alphas_1@.len() == i_, alphas_p@.len() == i_, betas@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] alphas_1@[k] == el(own(o_.prf, \4, k)), forall|k: int| 0 <= k < i_ ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), forall|k: int| 0 <= k < i_ ==> #[trigger] betas@[k] == el(mask(false, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@) { let \1 = its.at_(i_); \3 }"
//@ all "for (\(\((\w+), (\w+)\), (\w+)\)) in ([^{]*?) \{([^{}]*new\(\2, \3, \4\)[^{}]*)\}" => "let ghost bs = betas@; let its2 = (\5).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, its2.v@ == zipped(zipped(alphas_1@, alphas_p@), bs), alphas_1@.len() == n2, alphas_p@.len() == n2, bs.len() == n2, forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_1@[k] == el(own(o_.prf, 1, k)), forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(own(o_.prf, 1, k)), b: el(sp(o_.prf.np@ + k)), c: bs[k] }) { let \1 = its2.at_(i_); \6 } proof { assert(cs_(shares@) =~= bs); assert forall|k: int| 0 <= k < len implies (#[trigger] shares@[k]).c == el(mask(false, own(o_.prf, 1, k), sp(o_.prf.np@ + k)) + its.v@[k].w@) by { assert(bs[k] == el(mask(false, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@)); } }"
//@ all "for (\(\((\w+), (\w+)\), (\w+)\)) in ([^{]*?) \{([^{}]*new\(\3, \2, \4\)[^{}]*)\}" => "let ghost bs = betas@; let its2 = (\5).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, its2.v@ == zipped(zipped(alphas_1@, alphas_p@), bs), alphas_1@.len() == n2, alphas_p@.len() == n2, bs.len() == n2, forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_1@[k] == el(own(o_.prf, 2, k)), forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(sp(o_.prf.np@ + k)), b: el(own(o_.prf, 2, k)), c: bs[k] }) { let \1 = its2.at_(i_); \6 } proof { assert(cs_(shares@) =~= bs); assert forall|k: int| 0 <= k < len implies (#[trigger] shares@[k]).c == el(mask(false, own(o_.prf, 2, k), sp(o_.prf.np@ + k)) + its.v@[k].w@) by { assert(bs[k] == el(mask(false, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@)); } }"
//@ all "for (beta\w*) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); let ghost g_ = *self; for i_ in 0..n_ invariant n_ == its.v@.len(), self.but_prf(g_), drew(o_.prf, self.prf, 0, 0, i_ as int), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(sp(o_.prf.np@ + k)), b: el(sp(o_.prf.np@ + k)), c: its.v@[k] }) { let \1 = its.at_(i_); \3 } proof { assert(cs_(shares@) =~= its.v@); }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn jshare_binary_many
//@ re "^.*?\bfn jshare_binary_many\b[^{]*\{" => "pub fn jshare_binary_many(&mut self, input: Option<Vec<El>>, mut sender1: usize, mut sender2: usize, receiver: usize, len: usize) -> (r: Result<Vec<Swift>, Error>) requires ring(sender1, sender2, receiver) ensures r is Ok ==> (old(self).network.id@ == receiver || input is Some) && jshared_all(*old(self), *final(self), first(sender1, sender2), input, len as int, true, r->Ok_0@) && drew(old(self).prf, final(self).prf, if old(self).network.id@ == first(sender1, sender2) { len as int } else { 0 }, if old(self).network.id@ == nx(first(sender1, sender2)) { len as int } else { 0 }, len as int), final(self).network.id == old(self).network.id, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "let mut (alphas_1|alphas_p|betas) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new();"
//@ re "let mut shares = Vec::with_capacity\(([^;]*)\);" => "let mut shares: Vec<Swift> = Vec::new(); let ghost f_ = first(sender1, sender2); let ghost o_ = *self; let ghost in0 = input;"
//@ all "for (inp\w*) in ([^{]*?) \{([^{}]*gen_([12])[^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), self_id == sender\4, self.but_prf(o_), drew(o_.prf, self.prf, if \4 == 1 { i_ as int } else { 0 }, if \4 == 1 { 0 } else { i_ as int }, i_ as int), alphas_1@.len() == i_, alphas_p@.len() == i_, betas@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] alphas_1@[k] == el(own(o_.prf, \4, k)), forall|k: int| 0 <= k < i_ ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), forall|k: int| 0 <= k < i_ ==> #[trigger] betas@[k] == el(mask(true, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@) { let \1 = its.at_(i_); \3 }"
//@ all "for (\(\((\w+), (\w+)\), (\w+)\)) in ([^{]*?) \{([^{}]*new\(\2, \3, \4\)[^{}]*)\}" => "let ghost bs = betas@; let its2 = (\5).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, its2.v@ == zipped(zipped(alphas_1@, alphas_p@), bs), alphas_1@.len() == n2, alphas_p@.len() == n2, bs.len() == n2, forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_1@[k] == el(own(o_.prf, 1, k)), forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(own(o_.prf, 1, k)), b: el(sp(o_.prf.np@ + k)), c: bs[k] }) { let \1 = its2.at_(i_); \6 } proof { assert(cs_(shares@) =~= bs); assert forall|k: int| 0 <= k < len implies (#[trigger] shares@[k]).c == el(mask(true, own(o_.prf, 1, k), sp(o_.prf.np@ + k)) + its.v@[k].w@) by { assert(bs[k] == el(mask(true, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@)); } }"
//@ all "for (\(\((\w+), (\w+)\), (\w+)\)) in ([^{]*?) \{([^{}]*new\(\3, \2, \4\)[^{}]*)\}" => "let ghost bs = betas@; let its2 = (\5).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), n2 == len, its2.v@ == zipped(zipped(alphas_1@, alphas_p@), bs), alphas_1@.len() == n2, alphas_p@.len() == n2, bs.len() == n2, forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_1@[k] == el(own(o_.prf, 2, k)), forall|k: int| 0 <= k < n2 ==> #[trigger] alphas_p@[k] == el(sp(o_.prf.np@ + k)), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(sp(o_.prf.np@ + k)), b: el(own(o_.prf, 2, k)), c: bs[k] }) { let \1 = its2.at_(i_); \6 } proof { assert(cs_(shares@) =~= bs); assert forall|k: int| 0 <= k < len implies (#[trigger] shares@[k]).c == el(mask(true, own(o_.prf, 2, k), sp(o_.prf.np@ + k)) + its.v@[k].w@) by { assert(bs[k] == el(mask(true, alphas_1@[k].w@, alphas_p@[k].w@) + its.v@[k].w@)); } }"
//@ all "for (beta\w*) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); let ghost g_ = *self; for i_ in 0..n_ invariant n_ == its.v@.len(), self.but_prf(g_), drew(o_.prf, self.prf, 0, 0, i_ as int), shares@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] shares@[k] == (Swift { a: el(sp(o_.prf.np@ + k)), b: el(sp(o_.prf.np@ + k)), c: its.v@[k] }) { let \1 = its.at_(i_); \3 } proof { assert(cs_(shares@) =~= its.v@); }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn input
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<El>, id: usize) -> (r: Result<Swift, Error>) requires old(self).ids() ensures r is Ok ==> id < 3 && (id == old(self).st().me ==> input.is_some()) && inputted(*old(self), *final(self), id as int, input, r->Ok_0), final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "\bShare::new\(" => "Swift::new("
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn open
//@ re "^.*?\bfn open\b[^{]*\{" => "pub fn open(&mut self, share: Swift) -> (r: Result<El, Error>) ensures r is Ok ==> opened_one(old(self).st(), final(self).st(), share, r->Ok_0.w@, false), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ re "Ok\(([^;]*)\)\s*\}\s*$" => "proof { assert(opening(old(self).st(), self.st(), enc1(share.a.w@), enc1(share.b.w@), enc1(rcv.w@))); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn open_bit
//@ re "^.*?\bfn open_bit\b[^{]*\{" => "pub fn open_bit(&mut self, share: Swift) -> (r: Result<El, Error>) ensures r is Ok ==> opened_one(old(self).st(), final(self).st(), share, r->Ok_0.w@, true), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ re "Ok\(([^;]*)\)\s*\}\s*$" => "proof { assert(opening(old(self).st(), self.st(), enc1(share.a.w@), enc1(share.b.w@), enc1(rcv.w@))); } Ok(\1) }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn open_many
//@ re "^.*?\bfn open_many\b[^{]*\{" => "pub fn open_many(&mut self, shares: Vec<Swift>) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> opened_all(old(self).st(), final(self).st(), shares@, r->Ok_0@, false), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "let mut ([abc]) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new();"
//@ all "let mut (output) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new(); proof { assert(opening(old(self).st(), self.st(), enc(as_(shares@)), enc(bs_(shares@)), enc(rcv@))); }"
//@ re "for (share) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), a@ =~= as_(its.v@.take(i_ as int)), b@ =~= bs_(its.v@.take(i_ as int)), c@ =~= cs_(its.v@.take(i_ as int)) { let \1 = its.at_(i_); \3 } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ re "for (\((?:\w+, \(){2}\w+, \w+\)\)\)) in ([^{]*?) \{([^{}]*)\}" => "let its2 = (\2).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(rcv@, zipped(as_(shares@), zipped(bs_(shares@), cs_(shares@)))), output@.len() == i_, rcv@.len() == shares@.len(), forall|i: int| 0 <= i < i_ ==> #[trigger] output@[i] == el(value(false, shares@[i], rcv@[i].w@)) { let \1 = its2.at_(i_); \3 }"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn open_bit_many
//@ re "^.*?\bfn open_bit_many\b[^{]*\{" => "pub fn open_bit_many(&mut self, shares: Vec<Swift>) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> opened_all(old(self).st(), final(self).st(), shares@, r->Ok_0@, true), final(self).network.id == old(self).network.id, final(self).prf == old(self).prf, final(self).proofs(*old(self)) { "
//@ all "\s*\.await" => ""
//@ all "T::Share\b" => "El"
//@ all "::<(?:T|Bit|El)>" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "debug_assert!\([^;]*\);" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ all "Error::ValueError\([^;]*?\)\);" => "Error::ValueError);"
//@ all "std::mem::swap\(" => "exchange_("
//@ all "\bShare::new\(" => "Swift::new("
//@ all "T::from_sharetype\(" => "plain_("
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "let mut ([abc]) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new();"
//@ all "let mut (output) = Vec::with_capacity\(([^;]*)\);" => "let mut \1: Vec<El> = Vec::new(); proof { assert(opening(old(self).st(), self.st(), enc(as_(shares@)), enc(bs_(shares@)), enc(rcv@))); }"
//@ re "for (share) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), a@ =~= as_(its.v@.take(i_ as int)), b@ =~= bs_(its.v@.take(i_ as int)), c@ =~= cs_(its.v@.take(i_ as int)) { let \1 = its.at_(i_); \3 } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ re "for (\((?:\w+, \(){2}\w+, \w+\)\)\)) in ([^{]*?) \{([^{}]*)\}" => "let its2 = (\2).items(); let n2 = its2.count_(); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(rcv@, zipped(as_(shares@), zipped(bs_(shares@), cs_(shares@)))), output@.len() == i_, rcv@.len() == shares@.len(), forall|i: int| 0 <= i < i_ ==> #[trigger] output@[i] == el(value(true, shares@[i], rcv@[i].w@)) { let \1 = its2.at_(i_); \3 }"
//@ end
    #[verifier::external_body] pub fn mul_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).mul_proof.waiting@ == 0 && final(self).and_proof == old(self).and_proof && final(self).dot_proof == old(self).dot_proof { unimplemented!() }
    #[verifier::external_body] pub fn and_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).and_proof.waiting@ == 0 && final(self).mul_proof == old(self).mul_proof && final(self).dot_proof == old(self).dot_proof { unimplemented!() }
    #[verifier::external_body] pub fn dot_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).dot_proof.waiting@ == 0 && final(self).mul_proof == old(self).mul_proof && final(self).and_proof == old(self).and_proof { unimplemented!() }
//@ extract iris-mpc/src/swift3/protocol.rs fn verify
//@ re "^.*?\bfn verify\b[^{]*\{" => "pub fn verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).mul_proof.waiting@ == 0 && final(self).and_proof.waiting@ == 0 && final(self).dot_proof.waiting@ == 0 {"
//@ all "\s*\.await" => ""
//@ end
}
#[verifier::external_body] pub fn unreached<T>() -> T requires false { unimplemented!() }
fn main() {}
}
