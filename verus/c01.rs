// C01: sharing, inputs and openings of Aby3, the sharings of MalAby3 and SpdzWise, for values of the ring and lists of
// every length (openings of the other engines: c15_*.rs). Extraction directives are replaced by the text of the named
// function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::*;
verus! {
//@ include ring.inc
//@ include iters.inc
/// `^` of the binary engine: the group has exponent two, equations are meant modulo 2
//@ each R rhs | El o.w@ | &El o.w@
impl BitXorSpecImpl<$R> for El { open spec fn obeys_bitxor_spec() -> bool { true } open spec fn bitxor_req(self, o: $R) -> bool { true } open spec fn bitxor_spec(self, o: $R) -> El { el(self.w@ + $rhs) } }
impl BitXor<$R> for El { type Output = El; #[verifier::external_body] fn bitxor(self, o: $R) -> El { unimplemented!() } }
//@ done
impl El {
    pub fn to_sharetype(self) -> (r: El) ensures r == self { self }
    /// of a value of the narrower ring: the value itself (C10)
    pub fn wide(self) -> (r: El) ensures r == self { self }
}
pub fn plain_(x: El) -> (r: El) ensures r == x { x }
#[derive(Debug)]
pub enum Error { IdError(usize), ValueError, VerifyError, Other }
#[verifier::external_body] pub fn draw_() -> (r: El) { unimplemented!() }
/// what a party has exchanged, in order
pub enum Ev { ToNext(Seq<El>), FromPrev(Seq<El>), ToPrev(Seq<El>), FromNext(Seq<El>), Vouched(Seq<El>), SentJointly(Seq<El>), GotJointly(Seq<El>) }
pub struct Net { pub log: Ghost<Seq<Ev>> }
pub uninterp spec fn me() -> int;
impl Net {
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == me(), r < 3 { unimplemented!() }
    #[verifier::external_body] pub fn get_num_parties(&self) -> (r: usize) ensures r == 3 { unimplemented!() }
}
pub open spec fn traded(l: Seq<Ev>, t: Seq<El>, g: Seq<El>) -> Seq<Ev> { l.push(Ev::ToNext(t)).push(Ev::FromPrev(g)) }
pub mod utils { use super::*;
    #[verifier::external_body] pub fn send_and_receive_value(n: &mut Net, v: El) -> (r: Result<El, Error>) ensures r is Ok ==> final(n).log@ == traded(old(n).log@, seq![v], seq![r->Ok_0]) { unimplemented!() }
    #[verifier::external_body] pub fn send_iter_and_receive_iter(n: &mut Net, v: Vec<El>) -> (r: Result<Items<El>, Error>) ensures r is Ok ==> r->Ok_0.v@.len() == v@.len() && final(n).log@ == traded(old(n).log@, v@, r->Ok_0.v@) { unimplemented!() }
//@ each F ev | send_value_next ToNext | send_value_prev ToPrev
    #[verifier::external_body] pub fn $F(n: &mut Net, v: El) -> (r: Result<(), Error>) ensures r is Ok ==> final(n).log@ == old(n).log@.push(Ev::$ev(seq![v])) { unimplemented!() }
//@ done
//@ each F ev | receive_value_prev FromPrev | receive_value_next FromNext
    #[verifier::external_body] pub fn $F(n: &mut Net) -> (r: Result<El, Error>) ensures r is Ok ==> final(n).log@ == old(n).log@.push(Ev::$ev(seq![r->Ok_0])) { unimplemented!() }
//@ done
}
/// zero shares and random shares in the order they are drawn (C17)
pub struct Prf { pub log: Ghost<Seq<El>>, pub shares: Ghost<Seq<Share>> }
impl Prf {
    #[verifier::external_body] pub fn gen_zero_share(&mut self) -> (r: El) ensures final(self).log@ == old(self).log@.push(r), final(self).shares == old(self).shares { unimplemented!() }
    #[verifier::external_body] pub fn gen_rand(&mut self) -> (r: Share) ensures final(self).shares@ == old(self).shares@.push(r), final(self).log == old(self).log { unimplemented!() }
}
/// three shares a party i holds components i and i - 1 of, which add up to x
pub open spec fn dealt(x: El, v: Seq<Share>) -> bool { v.len() == 3 && v[0].a == v[1].b && v[1].a == v[2].b && v[2].a == v[0].b && v[0].a.w@ + v[1].a.w@ + v[2].a.w@ == x.w@ }
pub open spec fn seconds(v: Seq<Share>) -> Seq<El> { Seq::new(v.len(), |i: int| v[i].b) }
pub open spec fn opens1(o: Aby3, n: Aby3, s: Share, r: El) -> bool { exists|c: El| #[trigger] got1(o, n, s, c) && r.w@ == s.a.w@ + s.b.w@ + c.w@ }
pub open spec fn got1(o: Aby3, n: Aby3, s: Share, c: El) -> bool { n.prf == o.prf && n.network.log@ == traded(o.network.log@, seq![s.b], seq![c]) }
pub open spec fn opens(o: Aby3, n: Aby3, s: Seq<Share>, r: Seq<El>) -> bool { exists|c: Seq<El>| #[trigger] got(o, n, s, c) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).w@ == s[i].a.w@ + s[i].b.w@ + c[i].w@ }
pub open spec fn got(o: Aby3, n: Aby3, s: Seq<Share>, c: Seq<El>) -> bool { n.prf == o.prf && c.len() == s.len() && n.network.log@ == traded(o.network.log@, seconds(s), c) }
pub struct Aby3 { pub network: Net, pub prf: Prf }
impl Aby3 {
//@ extract iris-mpc/src/aby3/protocol.rs fn share
//@ re "^.*?\bfn share\b[^{]*\{" => "pub fn share(input: El) -> (r: Vec<Share>) ensures dealt(input, r@) {"
//@ all "\brng\.gen::<[^(]*>\(\)" => "draw_()"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ end
//@ extract iris-mpc/src/aby3/protocol.rs fn input
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<El>, id: usize) -> (r: Result<Share, Error>) ensures r is Ok ==> id < 3 && (id == me() ==> input.is_some()) && final(self).prf.log@ == old(self).prf.log@.push(final(self).prf.log@.last()) && r->Ok_0.a.w@ == final(self).prf.log@.last().w@ + (if id == me() { input.unwrap().w@ } else { 0 }) && final(self).network.log@ == traded(old(self).network.log@, seq![r->Ok_0.a], seq![r->Ok_0.b]) {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => ""
//@ all "Error::ValueError\(\"[^\"]*\"\.to_string\(\)\)" => "Error::ValueError"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "([\w.]+) \+= &?([^;]*);" => "\1 = \1 + \2;"
//@ end
//@ each F | open | open_bit
//@ extract iris-mpc/src/aby3/protocol.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F(&mut self, share: Share) -> (r: Result<El, Error>) ensures r is Ok ==> opens1(*old(self), *final(self), share, r->Ok_0) { let ghost o_ = *self;"
//@ all "\s*\.await" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "T::from_sharetype" => "plain_"
//@ all "\.convert\(\)" => ""
//@ re "let c = ([^;]*);" => "let c = \1; proof { assert(got1(o_, *self, share, c)); }"
//@ end
//@ done
//@ each F | open_many | open_bit_many
//@ extract iris-mpc/src/aby3/protocol.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F(&mut self, shares: Vec<Share>) -> (r: Result<Vec<El>, Error>) ensures r is Ok ==> opens(*old(self), *final(self), shares@, r->Ok_0@) { let ghost o_ = *self;"
//@ all "\s*\.await" => ""
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "T::from_sharetype" => "plain_"
//@ all "\.convert\(\)" => ""
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "let (\w+) = ([^;|]*?)\.map\(\|(\w+)\|\s*([^;]*)\);" => "let its = (\2).items(); let n_ = its.count_(); let mut \1: Vec<El> = Vec::with_capacity(n_); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == shares@, \1@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] \1@[i] == shares@[i].b { let \3 = its.at_(i_); \1.push((\4).dup()); } proof { assert(\1@ =~= seconds(shares@)); }"
//@ re "let (\w+) = (utils::send_iter_and_receive_iter[^;]*);" => "let \1 = \2; let ghost got_ = \1.sq(); proof { assert(got(o_, *self, shares@, got_)); }"
//@ re "let res = ([^;]*?)\.map\(\|(\([^|]*\))\|\s*([^;]*?)\)\s*\.collect(?:::<Vec<_>>)?\(\);" => "let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<El> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), got_.len() == shares@.len(), its2.v@ == zipped(shares@, got_), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] res@[i]).w@ == shares@[i].a.w@ + shares@[i].b.w@ + got_[i].w@ { let \2 = its2.at_(i_); res.push(\3); }"
//@ end
//@ done
}
/// whatever three parties hold well-formed shares of opens to the same value at each of them: the sum of the components
proof fn opens_to_the_sum(s: Seq<Share>, g0: El, g1: El, g2: El)
    requires s.len() == 3, s[0].a == s[1].b, s[1].a == s[2].b, s[2].a == s[0].b, g0 == s[2].b, g1 == s[0].b, g2 == s[1].b
    ensures ({ let x = s[0].a.w@ + s[1].a.w@ + s[2].a.w@; s[0].a.w@ + s[0].b.w@ + g0.w@ == x && s[1].a.w@ + s[1].b.w@ + g1.w@ == x && s[2].a.w@ + s[2].b.w@ + g2.w@ == x })
{ }
proof fn dealt_opens(x: El, s: Seq<Share>) requires dealt(x, s) ensures s[0].a.w@ + s[0].b.w@ + s[2].b.w@ == x.w@, s[1].a.w@ + s[1].b.w@ + s[0].b.w@ == x.w@, s[2].a.w@ + s[2].b.w@ + s[1].b.w@ == x.w@ { }
/// an input: the zero shares cancel (C17), the shares received are the ones sent
proof fn input_opens(z: Seq<int>, x: int, d: int, s: Seq<Share>)
    requires z.len() == 3, s.len() == 3, 0 <= d < 3, z[0] + z[1] + z[2] == 0, s[0].a == s[1].b, s[1].a == s[2].b, s[2].a == s[0].b, forall|i: int| 0 <= i < 3 ==> (#[trigger] s[i]).a.w@ == z[i] + if i == d { x } else { 0 }
    ensures s[0].a.w@ + s[1].a.w@ + s[2].a.w@ == x
{ assert(s[0].a.w@ == z[0] + if 0 == d { x } else { 0 }); assert(s[1].a.w@ == z[1] + if 1 == d { x } else { 0 }); assert(s[2].a.w@ == z[2] + if 2 == d { x } else { 0 }); }
// ---------------------------------------------------------------- MalAby3: the sharing, and inputs masked with a common random share
pub struct Mal { pub network: Net, pub prf: Prf }
impl Mal {
    pub fn get_id(&self) -> (r: usize) ensures r == me(), r < 3 { self.network.get_id() }
    /// c15_jmp.rs
    #[verifier::external_body] pub fn jmp_receive(&mut self) -> (r: Result<El, Error>) ensures r is Ok ==> final(self).network.log@ == old(self).network.log@.push(Ev::GotJointly(seq![r->Ok_0])), final(self).prf == old(self).prf { unimplemented!() }
    #[verifier::external_body] pub fn jmp_send(&mut self, v: El) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).network.log@ == old(self).network.log@.push(Ev::SentJointly(seq![v])), final(self).prf == old(self).prf { unimplemented!() }
    #[verifier::external_body] pub fn jmp_buffer(&mut self, v: El) ensures final(self).network.log@ == old(self).network.log@.push(Ev::Vouched(seq![v])), final(self).prf == old(self).prf { unimplemented!() }
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn share
//@ re "^.*?\bfn share\b[^{]*\{" => "pub fn share(input: El) -> (r: Vec<Share>) ensures dealt(input, r@) {"
//@ all "\brng\.gen::<[^(]*>\(\)" => "draw_()"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn reconstruct_id
//@ re "^.*?\bfn reconstruct_id\b[^{]*\{" => "pub fn reconstruct_id(&mut self, share: Share, id: usize) -> (r: Result<Option<El>, Error>) ensures r is Ok ==> revealed(*old(self), *final(self), share, id as int, r->Ok_0), id >= 3 ==> r is Err {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => ""
//@ all "T::from_sharetype" => "plain_"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn input
//@ re "^.*?\bfn input\b[^{]*\{" => "pub fn input(&mut self, input: Option<El>, id: usize) -> (r: Result<Share, Error>) ensures r is Ok ==> id < 3 && masked_in(*old(self), *final(self), input, id as int, r->Ok_0) { let ghost o_ = *self;"
//@ all "\s*\.await" => ""
//@ all "::<(?:T|_, T::Share)>" => ""
//@ all "Error::ValueError\(\"[^\"]*\"\.to_string\(\)\)" => "Error::ValueError"
//@ all "\.(?:to_owned|clone)\(\)" => ".dup()"
//@ all "([\w.]+) \+= &?([^;]*);" => "\1 = \1 + \2;"
//@ all "if (\w+) != (\w+_) \{" => "if differ(&\1, &\2) {"
//@ all "if (\w+) == (\w+_) \{" => "if !differ(&\1, &\2) {"
//@ end
}
#[verifier::external_body] pub fn differ(a: &El, b: &El) -> (r: bool) ensures r == (a.w@ != b.w@) { unimplemented!() }
/// party id learns the value: the third component comes jointly from the party before it (the one after it vouches)
pub open spec fn revealed(o: Mal, n: Mal, s: Share, id: int, r: Option<El>) -> bool {
    &&& id < 3 && n.prf == o.prf
    &&& if me() == id { exists|c: El| n.network.log@ == o.network.log@.push(Ev::GotJointly(#[trigger] seq![c])) && r == Some(el(s.a.w@ + s.b.w@ + c.w@)) }
        else { r is None && n.network.log@ == o.network.log@.push(if me() == (id + 2) % 3 { Ev::SentJointly(seq![s.b]) } else { Ev::Vouched(seq![s.a]) }) }
}
/// the difference d to the random share goes to both others, who compare what they got; it enters the dealer's component
pub open spec fn masked_in(o: Mal, n: Mal, input: Option<El>, id: int, r: Share) -> bool {
    let m = n.prf.shares@.last(); let l = o.network.log@; let k = l.len() as int; let g = n.network.log@;
    &&& n.prf.shares@ == o.prf.shares@.push(m) && n.prf.log == o.prf.log
    &&& if me() == id { let c = carried(g[k]); let d = carried(g[k + 1]); offered(l, g, c, d) && input.is_some() && d.w@ == input.unwrap().w@ - (m.a.w@ + m.b.w@ + c.w@) && r.a.w@ == m.a.w@ + d.w@ && r.b == m.b }
        else { let d = carried(g[k + 1]); let e = carried(g[k + 3]); heard(l, g, m, id, d, e) && d.w@ == e.w@ && r.a == m.a && r.b.w@ == m.b.w@ + if me() == (id + 1) % 3 { d.w@ } else { 0 } }
}
pub open spec fn carried(e: Ev) -> El { match e { Ev::ToNext(v) => v[0], Ev::FromPrev(v) => v[0], Ev::ToPrev(v) => v[0], Ev::FromNext(v) => v[0], Ev::Vouched(v) => v[0], Ev::SentJointly(v) => v[0], Ev::GotJointly(v) => v[0] } }
pub open spec fn offered(l: Seq<Ev>, n: Seq<Ev>, c: El, d: El) -> bool { n == l.push(Ev::GotJointly(seq![c])).push(Ev::ToNext(seq![d])).push(Ev::ToPrev(seq![d])) }
pub open spec fn heard(l: Seq<Ev>, n: Seq<Ev>, m: Share, id: int, d: El, e: El) -> bool {
    if me() == (id + 1) % 3 { n == l.push(Ev::Vouched(seq![m.a])).push(Ev::FromPrev(seq![d])).push(Ev::ToNext(seq![d])).push(Ev::FromNext(seq![e])) }
    else { n == l.push(Ev::SentJointly(seq![m.b])).push(Ev::FromNext(seq![d])).push(Ev::ToPrev(seq![d])).push(Ev::FromPrev(seq![e])) }
}
/// the random shares being well-formed (C17) and the component the one the dealer lacks, the shares are well-formed and open to the input
proof fn masked_input_opens(m: Seq<Share>, r: Seq<Share>, x: int, d: int, id: int)
    requires m.len() == 3, r.len() == 3, 0 <= id < 3, m[0].a == m[1].b, m[1].a == m[2].b, m[2].a == m[0].b, d == x - (m[0].a.w@ + m[1].a.w@ + m[2].a.w@),
        forall|i: int| 0 <= i < 3 ==> (#[trigger] r[i]).a.w@ == m[i].a.w@ + (if i == id { d } else { 0 }) && r[i].b.w@ == m[i].b.w@ + if i == (id + 1) % 3 { d } else { 0 }
    ensures r[0].a.w@ == r[1].b.w@, r[1].a.w@ == r[2].b.w@, r[2].a.w@ == r[0].b.w@, r[0].a.w@ + r[1].a.w@ + r[2].a.w@ == x
{ let (p, q, t) = (r[0], r[1], r[2]); assert(p == r[0] && q == r[1] && t == r[2]); }
// ---------------------------------------------------------------- SpdzWise: the value and its MAC are shared alike
pub struct TShare { pub value: Share, pub mac: Share }
impl TShare { pub fn new(value: Share, mac: Share) -> (r: Self) ensures r.value == value, r.mac == mac { TShare { value, mac } } }
pub open spec fn vals(v: Seq<TShare>) -> Seq<Share> { Seq::new(v.len(), |i: int| v[i].value) }
pub open spec fn macs_(v: Seq<TShare>) -> Seq<Share> { Seq::new(v.len(), |i: int| v[i].mac) }
impl TShare {
//@ extract iris-mpc/src/spdzwise/protocol.rs fn share
//@ re "^.*?\bfn share\b[^{]*\{" => "pub fn share(input: El, mac_key: El) -> (r: Vec<TShare>) ensures dealt(input, vals(r@)), dealt(el(mac_key.w@ * input.w@), macs_(r@)) {"
//@ all "T::to_verificationtype\(" => "plain_("
//@ all "T::VerificationShare::from_sharetype\(" => "plain_("
//@ all "<Aby3<N> as MpcTrait<[^(]*>>::share\(\s*((?:[^(),]|\([^()]*\))*),\s*<[^(]*\(\),\s*rng,?\s*\)" => "Aby3::share(\1)"
//@ re "(values\s*\.into_iter\(\)[^|;]*?)\.map\(\|(\([^|]*\))\|\s*Share::new(\([^()]*\))\)\s*\.collect\(\)" => "let its = \1; let n_ = its.count_(); let mut out_: Vec<TShare> = Vec::with_capacity(n_); for i_ in 0..n_ invariant n_ == its.v@.len(), its.v@ == zipped(values@, macs@), n_ == 3, values@.len() == 3, macs@.len() == 3, out_@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] out_@[i]).value == values@[i] && out_@[i].mac == macs@[i] { let \2 = its.at_(i_); out_.push(TShare::new\3); } proof { assert(vals(out_@) =~= values@); assert(macs_(out_@) =~= macs@); } out_"
//@ all "\.into_iter\(\)" => ".items()"
//@ end
}
fn main() {}
}
