// C17: after the set-up the keys of the parties are in step, for all seeds and all commitment randomness.
// `async fn` is read as a sequential function whose network calls append to / take from message sequences;
// the three parties are composed by a lemma: what one receives is what the other sent.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::laws_eq::*;
verus! {
//@ include c17_base.inc
//@ include c17_net.inc
// ---------------------------------------------------------------- replicated engines
mod aby {
use super::*;
//@ extract iris-mpc/src/aby3/random/prf.rs struct Prf
//@ all "\b(my_prf|next_prf):" => "pub \1:"
//@ end
impl Prf {
//@ extract iris-mpc/src/aby3/random/prf.rs fn new in "impl Prf"
//@ re "-> Self" => "-> (r: Self) ensures r.my_prf.st@ == init(my_key@), r.next_prf.st@ == init(next_key@)"
//@ end
}
pub open spec fn sync(p: Prf, q: Prf, r: Prf) -> bool { p.my_prf.st@ == q.next_prf.st@ && q.my_prf.st@ == r.next_prf.st@ && r.my_prf.st@ == p.next_prf.st@ }
pub struct Aby3 { pub network: Net, pub prf: Prf }
mod utils {
use super::*;
//@ extract iris-mpc/src/aby3/utils.rs fn bytes_to_seed
//@ re "-> Result<PrfSeed, Error>" => "-> (r: Result<PrfSeed, Error>) ensures r is Ok <==> bytes.b@.len() == 32, r is Ok ==> r->Ok_0@ == bytes.b@"
//@ re "Error::Other\([^;]*?\.to_owned\(\),?\s*\)" => "Error::Other"
//@ all "pub\(crate\)" => "pub"
//@ re "Ok\(their_seed\)" => "proof { assert(their_seed@ =~= bytes0); } Ok(their_seed)"
//@ re "let mut their_seed" => "let ghost bytes0 = bytes.b@; let mut their_seed"
//@ end
//@ extract iris-mpc/src/aby3/utils.rs fn send_and_receive
//@ all "\s*\.await" => ""
//@ re "pub\(crate\) async fn" => "pub fn"
//@ re "<N: NetworkTrait>" => ""
//@ re "&mut N" => "&mut Net"
//@ re "-> Result<BytesMut, IOError> \{" => "-> (r: Result<BytesMut, Error>) requires old(network).id < 3 ensures r is Ok ==> final(network).id == old(network).id && final(network).sent@[nx(old(network).id as int)] == old(network).sent@[nx(old(network).id as int)].push(data.b@) && old(network).inb@[pv(old(network).id as int)].len() > 0 && r->Ok_0.b@ == old(network).inb@[pv(old(network).id as int)][0], old(network).inb@[pv(old(network).id as int)].len() > 0 ==> r is Ok {"
//@ end
}
pub open spec fn aby_done(a: Aby3, b: Aby3, seed: Seq<u8>) -> bool {
    let i = a.network.id as int;
    &&& b.network.id == a.network.id
    &&& b.network.sent@[nx(i)] == a.network.sent@[nx(i)].push(seed)
    &&& a.network.inb@[pv(i)].len() > 0 && a.network.inb@[pv(i)][0].len() == 32
    &&& b.prf.my_prf.st@ == init(seed) && b.prf.next_prf.st@ == init(a.network.inb@[pv(i)][0])
}
impl Aby3 {
//@ extract iris-mpc/src/aby3/protocol.rs fn setup_prf_from_seed
//@ all "\s*\.await" => ""
//@ re "async fn" => "fn"
//@ re "Bytes::from_iter\((\w+)\.into_iter\(\)\)" => "Bytes::from_array(\1)"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires old(self).network.id < 3 ensures r is Ok ==> aby_done(*old(self), *final(self), seed@), old(self).network.inb@[pv(old(self).network.id as int)].len() > 0 && old(self).network.inb@[pv(old(self).network.id as int)][0].len() == 32 ==> r is Ok"
//@ end
}
proof fn aby_in_step(a0: Aby3, a1: Aby3, a2: Aby3, b0: Aby3, b1: Aby3, b2: Aby3, s0: Seq<u8>, s1: Seq<u8>, s2: Seq<u8>)
    requires a0.network.id == 0, a1.network.id == 1, a2.network.id == 2, aby_done(a0, b0, s0), aby_done(a1, b1, s1), aby_done(a2, b2, s2),
        delivered(b0.network, a0.network, a1.network), delivered(b1.network, a1.network, a2.network), delivered(b2.network, a2.network, a0.network)
    ensures sync(b0.prf, b1.prf, b2.prf)
{
    assert(a1.network.inb@[0][0] == s0);
    assert(a2.network.inb@[1][0] == s1);
    assert(a0.network.inb@[2][0] == s2);
}

pub struct MalAby3 { pub network: Net, pub prf: Prf }
/// a commitment and its opening: seed and randomness
pub open spec fn committed(m: Seq<Seq<u8>>, m0: Seq<Seq<u8>>, seed: Seq<u8>, rand: Seq<u8>) -> bool { rand.len() == 32 && m == m0.push(sha(seed + rand)).push(seed + rand) }
pub open spec fn opened(m: Seq<Seq<u8>>) -> bool { m.len() >= 2 && m[1].len() == 64 && m[0] == sha(m[1]) }
pub open spec fn mal_done(a: MalAby3, b: MalAby3, s1: Seq<u8>, s2: Seq<u8>) -> bool {
    let i = a.network.id as int;
    let (m, p) = (a.network.inb@[nx(i)], a.network.inb@[pv(i)]);
    &&& b.network.id == a.network.id
    &&& exists|r: Seq<u8>| committed(b.network.sent@[nx(i)], a.network.sent@[nx(i)], s1, r)
    &&& exists|r: Seq<u8>| committed(b.network.sent@[pv(i)], a.network.sent@[pv(i)], s2, r)
    &&& opened(m) && opened(p)
    &&& b.prf.my_prf.st@ == init(xor(s1, m[1].subrange(0, 32)))
    &&& b.prf.next_prf.st@ == init(xor(s2, p[1].subrange(0, 32)))
}
impl MalAby3 {
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn verify_commitment
//@ re "-> bool" => "-> (r: bool) ensures r == (comm@ == sha(data@ + rand@))"
//@ all "RingElement::convert_slice_rev\((&?\w+)\)\.to_vec\(\)" => "elements(\1)"
//@ re "opening\.verify" => "proof { enc_els(data@); } opening.verify"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn send_seed_opening
//@ all "\s*\.await" => ""
//@ re "async fn" => "fn"
//@ all "CommitOpening<RingElement<u8>>" => "CommitOpening<El8>"
//@ re "-> Result<\(\), Error>" => "-> (r: Result<(), Error>) requires old(self).network.id < 3 ensures r is Ok, final(self).prf == old(self).prf, final(self).network.id == old(self).network.id, final(self).network.inb == old(self).network.inb, final(self).network.sent@ == old(self).network.sent@.insert(nx(old(self).network.id as int), old(self).network.sent@[nx(old(self).network.id as int)].push(enc(opening1.values@) + opening1.rand@)).insert(pv(old(self).network.id as int), old(self).network.sent@[pv(old(self).network.id as int)].push(enc(opening2.values@) + opening2.rand@))"
//@ all "for val in (\w+)\.values\.iter\(\) \{\s*val\.add_to_bytes\(&mut (\w+)\);\s*\}" => "for val in it: \1.values.iter() invariant it.seq().len() == \1.values@.len(), forall|i: int| 0 <= i < \1.values@.len() ==> *it.seq()[i] == \1.values@[i], \2.b@ =~= enc(\1.values@.subrange(0, it.index@)) { val.add_to_bytes(&mut \2); proof { enc_step(\1.values@, it.index@ as int); } } assert(\1.values@.subrange(0, \1.values@.len() as int) =~= \1.values@);"
//@ end
//@ extract iris-mpc/src/aby3_mal/protocol.rs fn setup_prf_from_seed
//@ all "\s*\.await" => ""
//@ re "async fn" => "fn"
//@ re "-> Result<\(\), Error> \{" => "-> (r: Result<(), Error>) requires old(self).network.id < 3 ensures r is Ok ==> mal_done(*old(self), *final(self), seed1@, seed2@), opened(old(self).network.inb@[nx(old(self).network.id as int)]) && opened(old(self).network.inb@[pv(old(self).network.id as int)]) ==> r is Ok { proof { enc_els(seed1@); enc_els(seed2@); }"
//@ all "RingElement::convert_slice_rev\((&?\w+)\)\.to_vec\(\)" => "elements(\1)"
//@ all "(\w+)\.comm\.to_owned\(\)" => "copy_vec(&\1.comm)"
//@ all "Commitment::<RingElement<u8>>" => "Commitment::<El8>"
//@ all "debug_assert_eq!\((\w+), (\d+)\);" => "assert(\1 == \2);"
//@ all "(\w+)\[\.\.(\w+)\]\.clone_into\(&mut (\w+)\)" => "clone_range(&\1, 0, \2, &mut \3)"
//@ all "(\w+)\.copy_from_slice\(&(\w+)\[(\w+)\.\.\]\)" => "copy_range(&\2, \3, \2.len(), &mut \1)"
//@ all "for \(r, \(a, b\)\) in (\w+)\s*\.iter_mut\(\)\s*\.zip\(([\w\[\]]+)\.iter\(\)\.zip\((\w+)\.into_iter\(\)\)\)\s*\{\s*\*r = (?:b \^ a|a \^ b);\s*\}" => "xor2(&mut \1, &\2, \3);"
//@ re "let comm_size" => "let ghost (j, k) = (nx(old(self).network.id as int), pv(old(self).network.id as int)); let ghost (m, p) = (old(self).network.inb@[j], old(self).network.inb@[k]); proof { assert(j != k); assert(msg1.b@ == m[0] && msg2.b@ == p[0]); assert(self.network.inb@[j] == m.skip(1) && self.network.inb@[k] == p.skip(1)); if opened(m) && opened(p) { digest_len(m[1]); digest_len(p[1]); } } let comm_size"
//@ re "let seed_size" => "proof { assert(m.skip(1).len() > 0 && p.skip(1).len() > 0); assert(m.skip(1)[0] == m[1] && p.skip(1)[0] == p[1]); assert(msg1.b@ == m[1] && msg2.b@ == p[1]); assert(committed(self.network.sent@[j], old(self).network.sent@[j], seed1@, open1.rand@)); assert(committed(self.network.sent@[k], old(self).network.sent@[k], seed2@, open2.rand@)); } let ghost (ms1, ms2) = (msg1.b@, msg2.b@); let seed_size"
//@ re "if !Self::verify_commitment\(&rcv_open1" => "proof { assert(rcv_open1@ + rcv_rand1@ =~= ms1); assert(rcv_open2@ + rcv_rand2@ =~= ms2); assert(rcv_open1@ =~= m[1].subrange(0, 32)); assert(rcv_open2@ =~= p[1].subrange(0, 32)); } if !Self::verify_commitment(&rcv_open1"
//@ re "(self\.prf = [^;]*;)" => "\1 proof { assert(committed(self.network.sent@[j], old(self).network.sent@[j], seed1@, open1.rand@)); assert(committed(self.network.sent@[k], old(self).network.sent@[k], seed2@, open2.rand@)); assert(opened(m)); assert(opened(p)); assert(self.prf.my_prf.st@ == init(xor(seed1@, m[1].subrange(0, 32)))); assert(self.prf.next_prf.st@ == init(xor(seed2@, p[1].subrange(0, 32)))); }"
//@ end
}
proof fn xor_comm(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len() ensures xor(a, b) == xor(b, a)
{
    assert forall|x: u8, y: u8| #[trigger] (x ^ y) == y ^ x by { assert(x ^ y == y ^ x) by (bit_vector); }
    assert(xor(a, b) =~= xor(b, a));
}
/// party x's messages to party y, in the two rounds
proof fn pair(x0: Net, x: Net, y: Net, s: Seq<u8>)
    requires delivered(x, x0, y), s.len() == 32, exists|r: Seq<u8>| committed(x.sent@[y.id as int], x0.sent@[y.id as int], s, r)
    ensures y.inb@[x.id as int].len() >= 2, y.inb@[x.id as int][1].subrange(0, 32) == s, opened(y.inb@[x.id as int])
{
    let r = choose|r: Seq<u8>| committed(x.sent@[y.id as int], x0.sent@[y.id as int], s, r);
    let m = y.inb@[x.id as int];
    assert(m[0] == sha(s + r));
    assert(m[1] == s + r);
    assert((s + r).subrange(0, 32) =~= s);
}
proof fn mal_in_step(a0: MalAby3, a1: MalAby3, a2: MalAby3, b0: MalAby3, b1: MalAby3, b2: MalAby3, s: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    requires a0.network.id == 0, a1.network.id == 1, a2.network.id == 2, s.len() == 3, t.len() == 3, forall|i: int| 0 <= i < 3 ==> #[trigger] s[i].len() == 32, forall|i: int| 0 <= i < 3 ==> #[trigger] t[i].len() == 32,
        mal_done(a0, b0, s[0], t[0]), mal_done(a1, b1, s[1], t[1]), mal_done(a2, b2, s[2], t[2]),
        delivered(b0.network, a0.network, a1.network), delivered(b1.network, a1.network, a2.network), delivered(b2.network, a2.network, a0.network),
        delivered(b1.network, a1.network, a0.network), delivered(b2.network, a2.network, a1.network), delivered(b0.network, a0.network, a2.network)
    ensures sync(b0.prf, b1.prf, b2.prf)
{
    pair(a0.network, b0.network, a1.network, s[0]);
    pair(a1.network, b1.network, a2.network, s[1]);
    pair(a2.network, b2.network, a0.network, s[2]);
    pair(a1.network, b1.network, a0.network, t[1]);
    pair(a2.network, b2.network, a1.network, t[2]);
    pair(a0.network, b0.network, a2.network, t[0]);
    xor_comm(s[0], t[1]);
    xor_comm(s[1], t[2]);
    xor_comm(s[2], t[0]);
}
}

fn main() {}
}
