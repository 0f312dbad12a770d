// C15 / C14: what is received from one neighbour is compared with what the other one vouches for, for lists of every
// length and every history of the queues (MalAby3 and SpdzWise). Extraction directives are replaced by the text of the
// named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
verus! {
//@ include jmp.inc
//@ include iters.inc
/// events of other files
pub struct Own;
pub mod utils { use super::*;
//@ each F sig post | send_value_next value:S ToNext(value.enc1()) | send_value_prev value:S ToPrev(value.enc1()) | send_vec_next value:&[S] ToNext(enc(value@))
//@ extract iris-mpc/src/aby3/utils.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F<S: Elem>(network: &mut Net, $sig) -> (r: Result<(), Error>) ensures r is Ok ==> final(network).log@ == old(network).log@.push(Ev::$post), final(network).id == old(network).id {"
//@ all "\s*\.await" => ""
//@ end
//@ done
//@ each F ev | receive_value_prev FromPrev | receive_value_next FromNext
//@ extract iris-mpc/src/aby3/utils.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F<S: Elem>(network: &mut Net) -> (r: Result<S, Error>) ensures r is Ok ==> final(network).log@ == old(network).log@.push(Ev::$ev(r->Ok_0.enc1())), final(network).id == old(network).id {"
//@ all "\s*\.await" => ""
//@ all "\bR::" => "S::"
//@ end
//@ done
//@ extract iris-mpc/src/aby3/utils.rs fn receive_vec_prev
//@ re "^.*?\bfn receive_vec_prev\b[^{]*\{" => "pub fn receive_vec_prev<S: Elem>(network: &mut Net, len: usize) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == len && final(network).log@ == old(network).log@.push(Ev::FromPrev(enc(r->Ok_0@))), final(network).id == old(network).id {"
//@ all "\s*\.await" => ""
//@ end
}
#[derive(Clone, Copy)] #[verifier::allow(autoderive_clone_without_spec)]
pub struct Share<S: Elem> { pub a: S, pub b: S }
impl<S: Elem> Share<S> {
    pub fn get_ab(self) -> (r: (S, S)) ensures r == (self.a, self.b) { (self.a, self.b) }
    pub fn get_a(self) -> (r: S) ensures r == self.a { self.a }
    pub fn get_b(self) -> (r: S) ensures r == self.b { self.b }
}
pub open spec fn firsts<S: Elem>(v: Seq<Share<S>>) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].a) }
pub open spec fn seconds<S: Elem>(v: Seq<Share<S>>) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].b) }
/// r are the values the shares open to with the third components c
pub open spec fn opened<S: Elem>(r: Seq<S>, v: Seq<Share<S>>, c: Seq<S>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] r[i] == plus3(v[i].a, v[i].b, c[i]) }
pub open spec fn opened_x<S: Elem>(r: Seq<S>, v: Seq<Share<S>>, c: Seq<S>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] r[i] == exor3(v[i].a, v[i].b, c[i]) }

/// the digest of everything vouched for goes to the previous party, the one of the next party has come in
pub open spec fn exchanged(l: Seq<Ev>, vouched: Seq<u8>, seen: Seq<u8>) -> Seq<Ev> { l.push(Ev::ToPrev(sha(vouched))).push(Ev::FromNext(sha(seen))) }
/// an opening: the second components go out, the third ones come in
pub open spec fn traded(l: Seq<Ev>, out: Seq<u8>, got: Seq<u8>) -> Seq<Ev> { l.push(Ev::ToNext(out)).push(Ev::FromPrev(got)) }

/// With honest neighbours: the digest received is the one of what the next party vouches for; if as many bytes were
/// announced there as received here, then what was received before and in this opening is what it vouched for
proof fn compared_means_equal(before: Seq<u8>, got: Seq<u8>, vouched_before: Seq<u8>, vouched: Seq<u8>)
    requires digested(before + got), digested(vouched_before + vouched), sha(before + got) == sha(vouched_before + vouched), got.len() == vouched.len()
    ensures before == vouched_before, got == vouched
{
    collision_free(before + got, vouched_before + vouched);
    let (x, y) = (before + got, vouched_before + vouched);
    assert(x == y); assert(x.len() == before.len() + got.len()); assert(y.len() == vouched_before.len() + vouched.len());
    assert(before =~= x.take(before.len() as int)); assert(vouched_before =~= y.take(before.len() as int));
    assert(got =~= x.skip(before.len() as int)); assert(vouched =~= y.skip(before.len() as int));
}
/// the list opened is the list of true third components, for any number of them
proof fn list_is_right<S: Elem>(before: Seq<u8>, c: Seq<S>, vouched_before: Seq<u8>, a: Seq<S>)
    requires digested(before + enc(c)), digested(vouched_before + enc(a)), sha(before + enc(c)) == sha(vouched_before + enc(a)), c.len() == a.len() ensures c == a
{ enc_len(c); enc_len(a); compared_means_equal(before, enc(c), vouched_before, enc(a)); enc_inj(c, a); }

//@ each E file | Mal aby3_mal | Spdz spdzwise
pub struct $E { pub network: Net, pub send_queue_prev: BytesMut, pub rcv_queue_next: BytesMut, pub rest: Ghost<int> }
impl $E {
    pub open spec fn kept(self, o: Self) -> bool { self.rest == o.rest && self.network.id == o.network.id }
//@ extract iris-mpc/src/$file/protocol.rs fn clear_and_hash
//@ re "^.*?\bfn clear_and_hash\b[^{]*\{" => "pub fn clear_and_hash(data: &mut BytesMut) -> (r: Digest) ensures r.d@ == sha(old(data).v@), final(data).v@.len() == 0 {"
//@ all "std::mem::swap\(" => "exchange_("
//@ re "hasher\.finalize\(\)" => "proof { assert(Seq::<u8>::empty() + old(data).v@ =~= old(data).v@); } hasher.finalize()"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_send
//@ re "^.*?\bfn jmp_send\b[^{]*\{" => "pub fn jmp_send<S: Elem>(&mut self, send: S) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).network.log@ == old(self).network.log@.push(Ev::ToNext(send.enc1())), final(self).send_queue_prev == old(self).send_queue_prev, final(self).rcv_queue_next == old(self).rcv_queue_next, final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.aby3\.network" => ".network"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_send_many
//@ re "^.*?\bfn jmp_send_many\b[^{]*\{" => "pub fn jmp_send_many<S: Elem>(&mut self, send: &[S]) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).network.log@ == old(self).network.log@.push(Ev::ToNext(enc(send@))), final(self).send_queue_prev == old(self).send_queue_prev, final(self).rcv_queue_next == old(self).rcv_queue_next, final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.aby3\.network" => ".network"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_buffer
//@ re "^.*?\bfn jmp_buffer\b[^{]*\{" => "pub fn jmp_buffer<S: Elem>(&mut self, buffer: S) ensures final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + buffer.enc1(), final(self).rcv_queue_next == old(self).rcv_queue_next, final(self).network == old(self).network, final(self).kept(*old(self)) {"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_buffer_many
//@ re "^.*?\bfn jmp_buffer_many\b[^{]*\{" => "pub fn jmp_buffer_many<S: Elem>(&mut self, buffer: &[S]) ensures final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + enc(buffer@), final(self).rcv_queue_next == old(self).rcv_queue_next, final(self).network == old(self).network, final(self).kept(*old(self)) {"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); proof { assert(its.v@.take(0) =~= Seq::empty()); assert(self.send_queue_prev.v@ + enc(its.v@.take(0)) =~= self.send_queue_prev.v@); } for i_ in 0..n_ invariant n_ == its.v@.len(), self.send_queue_prev.v@ == old(self).send_queue_prev.v@ + enc(its.v@.take(i_ as int)), self.rcv_queue_next == old(self).rcv_queue_next, self.network == old(self).network, self.kept(*old(self)) { let \1 = its.at_(i_); let ghost q = self.send_queue_prev.v@; \3 proof { enc_next(its.v@, i_ as int); let z = old(self).send_queue_prev.v@; assert(z + enc(its.v@.take(i_ as int)) + its.v@[i_ as int].enc1() =~= z + enc(its.v@.take(i_ + 1))); } } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_receive
//@ re "^.*?\bfn jmp_receive\b[^{]*\{" => "pub fn jmp_receive<S: Elem>(&mut self) -> (r: Result<S, Error>) ensures r is Ok ==> final(self).network.log@ == old(self).network.log@.push(Ev::FromPrev(r->Ok_0.enc1())) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + r->Ok_0.enc1(), final(self).send_queue_prev == old(self).send_queue_prev, final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.aby3\.network" => ".network"
//@ all "T::Share\b" => "S"
//@ all "\.to_owned\(\)" => ""
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_receive_many
//@ re "^.*?\bfn jmp_receive_many\b[^{]*\{" => "pub fn jmp_receive_many<S: Elem>(&mut self, len: usize) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == len && final(self).network.log@ == old(self).network.log@.push(Ev::FromPrev(enc(r->Ok_0@))) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + enc(r->Ok_0@), final(self).send_queue_prev == old(self).send_queue_prev, final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.aby3\.network" => ".network"
//@ all "T::Share\b" => "S"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); let ghost was = *self; proof { assert(its.v@.take(0) =~= Seq::empty()); assert(self.rcv_queue_next.v@ + enc(its.v@.take(0)) =~= self.rcv_queue_next.v@); } for i_ in 0..n_ invariant n_ == its.v@.len(), self.rcv_queue_next.v@ == was.rcv_queue_next.v@ + enc(its.v@.take(i_ as int)), self.send_queue_prev == was.send_queue_prev, self.network == was.network, self.kept(was) { let \1 = its.at_(i_); \3 proof { enc_next(its.v@, i_ as int); let z = was.rcv_queue_next.v@; assert(z + enc(its.v@.take(i_ as int)) + its.v@[i_ as int].enc1() =~= z + enc(its.v@.take(i_ + 1))); } } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_send_receive
//@ re "^.*?\bfn jmp_send_receive\b[^{]*\{" => "pub fn jmp_send_receive<S: Elem>(&mut self, send: S, buffer: S) -> (r: Result<S, Error>) ensures r is Ok ==> final(self).network.log@ == traded(old(self).network.log@, send.enc1(), r->Ok_0.enc1()) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + r->Ok_0.enc1() && final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + buffer.enc1(), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => "::<S>"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_send_receive_many
//@ re "^.*?\bfn jmp_send_receive_many\b[^{]*\{" => "pub fn jmp_send_receive_many<S: Elem>(&mut self, send: &[S], buffer: &[S]) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> r->Ok_0@.len() == send@.len() && final(self).network.log@ == traded(old(self).network.log@, enc(send@), enc(r->Ok_0@)) && final(self).rcv_queue_next.v@ == old(self).rcv_queue_next.v@ + enc(r->Ok_0@) && final(self).send_queue_prev.v@ == old(self).send_queue_prev.v@ + enc(buffer@), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "::<T>" => "::<S>"
//@ end
//@ extract iris-mpc/src/$file/protocol.rs fn jmp_verify
//@ re "^.*?\bfn jmp_verify\b[^{]*\{" => "pub fn jmp_verify(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).network.log@ == exchanged(old(self).network.log@, old(self).send_queue_prev.v@, old(self).rcv_queue_next.v@), final(self).send_queue_prev.v@.len() == 0, final(self).rcv_queue_next.v@.len() == 0, final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.aby3\s*\.network" => ".network"
//@ all "(?<![:\w])clear_and_hash" => "Self::clear_and_hash"
//@ all "(\w+)\.as_ref\(\) != (\w+)\.as_slice\(\)" => "differs(&\1, &\2)"
//@ all "(\w+)\.as_ref\(\) == (\w+)\.as_slice\(\)" => "!differs(&\1, &\2)"
//@ end
}
//@ done
impl Mal {
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn reconstruct
//@ re "^.*?\bfn reconstruct\b[^{]*\{" => "pub fn reconstruct<S: Elem>(&mut self, share: Share<S>) -> (r: Result<S, Error>) ensures r is Ok ==> trade_one(*old(self), *final(self), share, r->Ok_0, false), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<T>" => "::<S>"
//@ re "Ok\(T::from_sharetype\((\S+) \+ (\S+) \+ (\S+)\)\)" => "proof { assert(traded_with(*old(self), *self, share, c)); } Ok(sum3(\1, \2, \3))"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn open
//@ re "^.*?\bfn open\b[^{]*\{" => "pub fn open<S: Elem>(&mut self, share: Share<S>) -> (r: Result<S, Error>) ensures r is Ok ==> open_one(*old(self), *final(self), share, r->Ok_0, false), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<T>" => "::<S>"
//@ re "Ok\(T::from_sharetype\((\S+) \+ (\S+) \+ (\S+)\)\)" => "proof { assert(opened_with(*old(self), *self, share, c)); } Ok(sum3(\1, \2, \3))"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn open_bit
//@ re "^.*?\bfn open_bit\b[^{]*\{" => "pub fn open_bit<S: Elem>(&mut self, share: Share<S>) -> (r: Result<S, Error>) ensures r is Ok ==> open_one(*old(self), *final(self), share, r->Ok_0, true), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<Bit>" => "::<S>"
//@ re "Ok\(\((\S+) \^ (\S+) \^ (\S+)\)\.convert\(\)\.convert\(\)\)" => "proof { assert(opened_with(*old(self), *self, share, c)); } Ok(xor3(\1, \2, \3))"
//@ end
//@ each F how g h | reconstruct_many false trade_list trade_had | reconstruct_binary_many true trade_list trade_had | open_many false open_list open_had | open_bit_many true open_list open_had
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn $F
//@ re "^.*?\bfn $F\b[^{]*\{" => "pub fn $F<S: Elem>(&mut self, shares: Vec<Share<S>>) -> (r: Result<Vec<S>, Error>) ensures r is Ok ==> $g(*old(self), *final(self), shares@, r->Ok_0@, $how), final(self).kept(*old(self)) {"
//@ all "\s*\.await" => ""
//@ all "\.to_owned\(\)|\.clone\(\)" => ""
//@ all "::<(T|Bit)>" => "::<S>"
//@ all "\.(?:into_)?iter\(\)" => ".items()"
//@ all "T::from_sharetype" => ""
//@ all "\.convert\(\)" => ""
//@ all "\((\w+) \+ &?([\w.]+) \+ &?([\w.]+)\)" => "sum3(\1, \2, \3)"
//@ all "\((\w+) \^ &?([\w.]+) \^ &?([\w.]+)\)" => "xor3(\1, \2, \3)"
//@ all "let mut (shares_[ab]) = Vec::with_capacity\(len\);" => "let mut \1: Vec<S> = Vec::with_capacity(len);"
//@ re "for (\w+) in ([^{]*?) \{([^{}]*)\}" => "let its = (\2).items(); let n_ = its.count_(); for i_ in 0..n_ invariant n_ == its.v@.len(), shares_a@ =~= firsts(its.v@.take(i_ as int)), shares_b@ =~= seconds(its.v@.take(i_ as int)) { let \1 = its.at_(i_); \3 } proof { assert(its.v@.take(n_ as int) =~= its.v@); }"
//@ re "let res = ([^;]*?)\.map\(\|(\([^|]*\))\|(.*?)\)\s*\.collect\(\);\s*Ok\(res\)" => "let its2 = (\1).items(); let n2 = its2.count_(); let mut res: Vec<S> = Vec::with_capacity(n2); for i_ in 0..n2 invariant n2 == its2.v@.len(), its2.v@ == zipped(shares@, shares_c@), res@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] res@[i] == value($how, shares@[i], shares_c@[i]) { let \2 = its2.at_(i_); res.push(\3); } proof { assert($h(*old(self), *self, shares@, shares_c@)); assert(valued(res@, shares@, shares_c@, $how)); } Ok(res)"
//@ end
//@ done
}
/// one opening without / with comparison before and after it
pub open spec fn traded_with<S: Elem>(o: Mal, s: Mal, v: Share<S>, c: S) -> bool { s.network.log@ == traded(o.network.log@, v.b.enc1(), c.enc1()) && s.send_queue_prev.v@ == o.send_queue_prev.v@ + v.a.enc1() && s.rcv_queue_next.v@ == o.rcv_queue_next.v@ + c.enc1() }
pub open spec fn opened_with<S: Elem>(o: Mal, s: Mal, v: Share<S>, c: S) -> bool { s.send_queue_prev.v@.len() == 0 && s.rcv_queue_next.v@.len() == 0 && s.network.log@ == exchanged(traded(exchanged(o.network.log@, o.send_queue_prev.v@, o.rcv_queue_next.v@), v.b.enc1(), c.enc1()), v.a.enc1(), c.enc1()) }
pub open spec fn trade_one<S: Elem>(o: Mal, s: Mal, v: Share<S>, r: S, x: bool) -> bool { exists|c: S| #[trigger] traded_with(o, s, v, c) && r == value(x, v, c) }
pub open spec fn open_one<S: Elem>(o: Mal, s: Mal, v: Share<S>, r: S, x: bool) -> bool { exists|c: S| #[trigger] opened_with(o, s, v, c) && r == value(x, v, c) }
pub open spec fn trade_had<S: Elem>(o: Mal, s: Mal, v: Seq<Share<S>>, c: Seq<S>) -> bool { s.network.log@ == traded(o.network.log@, enc(seconds(v)), enc(c)) && s.send_queue_prev.v@ == o.send_queue_prev.v@ + enc(firsts(v)) && s.rcv_queue_next.v@ == o.rcv_queue_next.v@ + enc(c) }
pub open spec fn open_had<S: Elem>(o: Mal, s: Mal, v: Seq<Share<S>>, c: Seq<S>) -> bool { s.send_queue_prev.v@.len() == 0 && s.rcv_queue_next.v@.len() == 0 && s.network.log@ == exchanged(traded(exchanged(o.network.log@, o.send_queue_prev.v@, o.rcv_queue_next.v@), enc(seconds(v)), enc(c)), enc(firsts(v)), enc(c)) }
pub open spec fn trade_list<S: Elem>(o: Mal, s: Mal, v: Seq<Share<S>>, r: Seq<S>, x: bool) -> bool { exists|c: Seq<S>| #[trigger] trade_had(o, s, v, c) && valued(r, v, c, x) }
pub open spec fn open_list<S: Elem>(o: Mal, s: Mal, v: Seq<Share<S>>, r: Seq<S>, x: bool) -> bool { exists|c: Seq<S>| #[trigger] open_had(o, s, v, c) && valued(r, v, c, x) }
proof fn empty_first(q: Seq<u8>, e: Seq<u8>) requires q.len() == 0 ensures q + e == e { assert(q + e =~= e); }
pub open spec fn value<S: Elem>(x: bool, v: Share<S>, c: S) -> S { if x { exor3(v.a, v.b, c) } else { plus3(v.a, v.b, c) } }
pub open spec fn valued<S: Elem>(r: Seq<S>, v: Seq<Share<S>>, c: Seq<S>, x: bool) -> bool { c.len() == v.len() && r.len() == v.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == value(x, v[i], c[i]) }
fn main() {}
}
