// C17: jointly tossed coins are equal at all parties, fresh from every party, and opened against the commitments.
// Extraction directives are replaced by the text of the named function of /repo (see tools/verus_job.py).
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::laws_eq::*;
verus! {
//@ include c17_base.inc
//@ include c17_net.inc
#[verifier::external_body] pub fn seed_of_(r: &mut ChaCha12Rng) -> (s: PrfSeed) { unimplemented!() }
/// `*r ^= a ^ b` over zipped bytes
#[verifier::external_body] pub fn xor_in(r: &mut [u8; 32], a: Vec<u8>, b: Vec<u8>) requires a@.len() == 32, b@.len() == 32 ensures final(r)@ == xor(old(r)@, xor(a@, b@)) { unimplemented!() }
/// `*r ^= s.0 ^ t` over zipped bytes and elements
#[verifier::external_body] pub fn xor_els(r: &mut [u8; 32], a: &[u8; 32], b: Vec<El8>) requires b@.len() == 32 ensures final(r)@ == xor(old(r)@, xor(a@, bytes_of(b@))) { unimplemented!() }
pub open spec fn bytes_of(e: Seq<El8>) -> Seq<u8> { Seq::new(e.len(), |i: int| e[i].0) }
#[verifier::external_body] pub fn unreached<T>() -> T requires false { unimplemented!() }
impl Net {
    /// to both others, then one message from each (C21: not claimed; every network does)
    #[verifier::external_body] pub fn broadcast(&mut self, d: Bytes) -> (r: Result<Vec<BytesMut>, Error>) requires old(self).id < 3
        ensures final(self).id == old(self).id,
            r is Ok ==> ({ let i = old(self).id as int; let (j, k) = (nx(i), pv(i)); r->Ok_0@.len() == 3 && r->Ok_0@[i].b@ == d.b@ && final(self).sent@ == old(self).sent@.insert(j, old(self).sent@[j].push(d.b@)).insert(k, old(self).sent@[k].push(d.b@))
                && old(self).inb@[j].len() > 0 && old(self).inb@[k].len() > 0 && r->Ok_0@[j].b@ == old(self).inb@[j][0] && r->Ok_0@[k].b@ == old(self).inb@[k][0]
                && final(self).inb@ == old(self).inb@.insert(j, old(self).inb@[j].skip(1)).insert(k, old(self).inb@[k].skip(1)) }),
            old(self).inb@[nx(old(self).id as int)].len() > 0 && old(self).inb@[pv(old(self).id as int)].len() > 0 ==> r is Ok { unimplemented!() }
}
/// a commitment and its opening: seed and randomness
pub open spec fn committed(m: Seq<Seq<u8>>, m0: Seq<Seq<u8>>, seed: Seq<u8>, rand: Seq<u8>) -> bool { rand.len() == 32 && m == m0.push(sha(seed + rand)).push(seed + rand) }
pub open spec fn opened(m: Seq<Seq<u8>>) -> bool { m.len() >= 2 && m[1].len() == 64 && m[0] == sha(m[1]) }
pub struct Swift3 { pub network: Net }
/// own seed s committed and opened to both, the openings received fit the commitments received before, all seeds mixed
pub open spec fn tossed(a: Net, b: Net, s: Seq<u8>, rand: Seq<u8>, r: Seq<u8>) -> bool {
    let i = a.id as int; let (m, p) = (a.inb@[nx(i)], a.inb@[pv(i)]);
    &&& b.id == a.id && s.len() == 32
    &&& committed(b.sent@[nx(i)], a.sent@[nx(i)], s, rand) && committed(b.sent@[pv(i)], a.sent@[pv(i)], s, rand)
    &&& opened(m) && opened(p)
    &&& r == xor(s, xor(m[1].subrange(0, 32), p[1].subrange(0, 32)))
}
pub open spec fn coined(a: Net, b: Net, r: Seq<u8>) -> bool { exists|s: Seq<u8>, rand: Seq<u8>| tossed(a, b, s, rand, r) }
impl Swift3 {
//@ extract iris-mpc/src/swift3/protocol.rs fn verify_commitment
//@ re "-> bool" => "-> (r: bool) ensures r == (comm@ == sha(data@ + rand@))"
//@ all "RingElement::convert_slice_rev\((&?\w+)\)\.to_vec\(\)" => "elements(\1)"
//@ re "opening\.verify" => "proof { enc_els(data@); } opening.verify"
//@ end
//@ extract iris-mpc/src/swift3/protocol.rs fn coin
//@ re "^.*?\bfn coin\b[^{]*\{" => "pub fn coin(&mut self, rng: &mut ChaCha12Rng) -> (r: Result<PrfSeed, Error>) requires old(self).network.id < 3 ensures r is Ok ==> coined(old(self).network, final(self).network, r->Ok_0@), opened(old(self).network.inb@[nx(old(self).network.id as int)]) && opened(old(self).network.inb@[pv(old(self).network.id as int)]) ==> r is Ok { let ghost n0 = self.network; let ghost (j, k) = (nx(n0.id as int), pv(n0.id as int)); let ghost (m, p) = (n0.inb@[j], n0.inb@[k]);"
//@ all "\s*\.await" => ""
//@ all "unreachable!\(\)" => "unreached()"
//@ re "let mut (\w+) = rng\.gen::<R::Seed>\(\);" => "let mut \1 = seed_of_(rng); let ghost seed0 = \1@; proof { enc_els(seed0); }"
//@ all "RingElement::convert_slice_rev\((\w+)\.as_ref\(\)\)\.to_vec\(\)" => "elements(&\1)"
//@ re "let \((\w+), (\w+), (\w+)\) = \(([^;]*)\);" => "let (\1, \2, \3) = (\4); let ghost rand0 = \2@;"
//@ all "Commitment::<RingElement<u8>>" => "Commitment::<El8>"
//@ all "let mut (rcv_\w+) = Vec::with_capacity\((\w+)\);" => "let mut \1: Vec<u8> = Vec::new();"
//@ all "(res\[ids\.\d\])\.as_ref\(\)\.clone_into\(&mut (\w+)\)" => "clone_range(&\1, 0, \1.len(), &mut \2)"
//@ all "(res\[ids\.\d\])\[\.\.(\w+)\]\.clone_into\(&mut (\w+)\)" => "clone_range(&\1, 0, \2, &mut \3)"
//@ all "(\w+)\.copy_from_slice\(&(res\[ids\.\d\])\[(\w+)\.\.([^\]]*)\]\)" => "copy_range(&\2, \3, \4, &mut \1)"
//@ re "for val in (\w+)\.(?:into_)?iter\(\) \{\s*val\.add_to_bytes\(&mut (\w+)\);\s*\}" => "let ghost open0 = \1@; for val in it: \1.iter() invariant it.seq().len() == open0.len(), forall|i: int| 0 <= i < open0.len() ==> *it.seq()[i] == open0[i], \2.b@ =~= enc(open0.subrange(0, it.index@)) { val.add_to_bytes(&mut \2); proof { enc_step(open0, it.index@ as int); } } assert(open0.subrange(0, open0.len() as int) =~= open0);"
//@ all "seed\.as_ref\(\)\.len\(\)" => "seed.len()"
//@ re "let comm_size" => "let ghost res1 = res@; proof { assert(j != k); if opened(m) && opened(p) { digest_len(m[1]); digest_len(p[1]); } } let comm_size"
//@ re "let seed_size" => "let ghost res2 = res@; proof { assert(m.skip(1).len() > 0 && p.skip(1).len() > 0); assert(m.skip(1)[0] == m[1] && p.skip(1)[0] == p[1]); assert(res2[j].b@ == m[1] && res2[k].b@ == p[1]); assert(committed(self.network.sent@[j], n0.sent@[j], seed0, rand0)); assert(committed(self.network.sent@[k], n0.sent@[k], seed0, rand0)); } let seed_size"
//@ all "if !Self::verify_commitment\(&(\w+), (\w+), (\w+)\) \{\s*return Err\(Error::InvalidCommitment\(ids\.(\d)\)\)" => "proof { let t = ids.\4 as int; let x = \1@ + \2@; assert(t == j || t == k); assert(res1[t].b@ == if t == j { m[0] } else { p[0] }); assert(res2[t].b@ == if t == j { m[1] } else { p[1] }); assert(\3@ =~= res1[t].b@); assert(\1@ =~= res2[t].b@.subrange(0, 32)); assert(x =~= res2[t].b@); assert(opened(if t == j { m } else { p }) <==> \3@ == sha(x)); } if !Self::verify_commitment(&\1, \2, \3) { return Err(Error::InvalidCommitment(ids.\4))"
//@ re "seed\s*\.as_mut\(\)\s*\.iter_mut\(\)\s*\.zip\((\w+)\.into_iter\(\)\.zip\((\w+)\.into_iter\(\)\)\)\s*\.for_each\(\|\(r, \(a, b\)\)\| \*r \^= (?:a \^ b|b \^ a)\);" => "let ghost (x_, y_) = (\1@, \2@); xor_in(&mut seed, \1, \2);"
//@ re "Ok\(seed\)\s*\}\s*$" => "proof { xor_comm(x_, y_); assert(tossed(n0, self.network, seed0, rand0, seed@)); } Ok(seed) }"
//@ end
}
proof fn xor_comm(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len() ensures xor(a, b) == xor(b, a)
{
    assert forall|x: u8, y: u8| #[trigger] (x ^ y) == y ^ x by { assert(x ^ y == y ^ x) by (bit_vector); }
    assert(xor(a, b) =~= xor(b, a));
}
proof fn xor_ac(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires a.len() == b.len(), b.len() == c.len() ensures xor(a, xor(b, c)) == xor(b, xor(c, a)), xor(a, xor(b, c)) == xor(b, xor(a, c)), xor(a, xor(b, c)) == xor(c, xor(a, b))
{
    assert forall|x: u8, y: u8, w: u8| #[trigger] (x ^ (y ^ w)) == y ^ (w ^ x) by { assert(x ^ (y ^ w) == y ^ (w ^ x)) by (bit_vector); }
    assert(xor(a, xor(b, c)) =~= xor(b, xor(c, a))); xor_comm(a, c); assert(xor(b, xor(c, a)) =~= xor(c, xor(a, b)));
}
proof fn pair(x0: Net, x: Net, y: Net, s: Seq<u8>, r: Seq<u8>)
    requires delivered(x, x0, y), s.len() == 32, committed(x.sent@[y.id as int], x0.sent@[y.id as int], s, r)
    ensures y.inb@[x.id as int].len() >= 2, y.inb@[x.id as int][1].subrange(0, 32) == s, opened(y.inb@[x.id as int])
{
    let m = y.inb@[x.id as int]; assert(m[0] == sha(s + r)); assert(m[1] == s + r); assert((s + r).subrange(0, 32) =~= s);
}
proof fn coins_are_equal(a0: Net, a1: Net, a2: Net, b0: Net, b1: Net, b2: Net, r0: Seq<u8>, r1: Seq<u8>, r2: Seq<u8>)
    requires a0.id == 0, a1.id == 1, a2.id == 2, coined(a0, b0, r0), coined(a1, b1, r1), coined(a2, b2, r2),
        delivered(b0, a0, a1), delivered(b1, a1, a2), delivered(b2, a2, a0), delivered(b1, a1, a0), delivered(b2, a2, a1), delivered(b0, a0, a2)
    ensures r0 == r1, r1 == r2
{
    let (s0, q0) = choose|s: Seq<u8>, q: Seq<u8>| tossed(a0, b0, s, q, r0); let (s1, q1) = choose|s: Seq<u8>, q: Seq<u8>| tossed(a1, b1, s, q, r1); let (s2, q2) = choose|s: Seq<u8>, q: Seq<u8>| tossed(a2, b2, s, q, r2);
    pair(a0, b0, a1, s0, q0); pair(a0, b0, a2, s0, q0); pair(a1, b1, a0, s1, q1); pair(a1, b1, a2, s1, q1); pair(a2, b2, a0, s2, q2); pair(a2, b2, a1, s2, q2);
    xor_ac(s0, s1, s2); xor_ac(s1, s2, s0); xor_ac(s2, s0, s1); xor_comm(s1, s2); xor_comm(s2, s0); xor_comm(s0, s1);
}
// ---------------------------------------------------------------- replicated engines: common seeds, the third one jointly sent
/// common keys (C17, c17_setup.rs), the joint message (c15_jmp.rs)
pub struct Prf { pub own: Ghost<Seq<u8>>, pub other: Ghost<Seq<u8>> }
pub struct Rep { pub prf: Prf, pub sent: Ghost<Seq<El8>>, pub vouched: Ghost<Seq<El8>>, pub got: Ghost<Seq<El8>> }
impl Prf { #[verifier::external_body] pub fn gen_rands(&mut self) -> (r: (PrfSeed, PrfSeed)) ensures r.0@ == old(self).own@, r.1@ == old(self).other@ { unimplemented!() } }
impl Rep {
    #[verifier::external_body] pub fn jmp_send_receive_many(&mut self, send: &[El8], buffer: &[El8]) -> (r: Result<Vec<El8>, Error>)
        ensures final(self).prf == old(self).prf, r is Ok ==> r->Ok_0@.len() == send@.len() && final(self).sent@ == send@ && final(self).vouched@ == buffer@ && final(self).got@ == r->Ok_0@ { unimplemented!() }
//@ each F file | mal_coin aby3_mal | spdz_coin spdzwise
//@ extract iris-mpc/src/$file/protocol.rs fn coin
//@ re "^.*?\bfn coin\b[^{]*\{" => "pub fn $F(&mut self) -> (r: Result<PrfSeed, Error>) ensures r is Ok ==> shared_toss(old(self).prf, *final(self), r->Ok_0@) { let ghost (o1, o2) = (self.prf.own@, self.prf.other@);"
//@ all "\s*\.await" => ""
//@ all "self\.aby3\." => "self."
//@ all "::<(?:R::Seed|u8)>" => ""
//@ all "RingElement::convert_slice_rev\((\w+)\.as_ref\(\)\)" => "elements(&\1).as_slice()"
//@ re "for \(s1, \(s2, s3\)\) in (\w+)\s*\.as_mut\(\)\s*\.iter_mut\(\)\s*\.zip\((\w+)\.as_ref\(\)\.iter\(\)\.zip\((\w+)\.into_iter\(\)\)\)\s*\{\s*\*s1 \^= (?:s3\.0 \^ s2|s2 \^ s3\.0);\s*\}" => "let ghost e_ = \3@; proof { assert(els(o2).len() == o2.len()); } xor_els(&mut \1, &\2, \3);"
//@ end
//@ done
}
/// the seeds of both keys and the third one: the other key's goes to the next party, the own key's is vouched for
pub open spec fn shared_toss(p: Prf, f: Rep, r: Seq<u8>) -> bool { f.sent@ == els(p.other@) && f.vouched@ == els(p.own@) && f.got@.len() == p.other@.len() && r == xor(p.own@, xor(p.other@, bytes_of(f.got@))) }
proof fn shared_coins_are_equal(p0: Prf, p1: Prf, p2: Prf, f0: Rep, f1: Rep, f2: Rep, r0: Seq<u8>, r1: Seq<u8>, r2: Seq<u8>)
    requires p0.own@.len() == 32, p1.own@.len() == 32, p2.own@.len() == 32, p0.own == p1.other, p1.own == p2.other, p2.own == p0.other, shared_toss(p0, f0, r0), shared_toss(p1, f1, r1), shared_toss(p2, f2, r2), f0.got == f2.sent, f1.got == f0.sent, f2.got == f1.sent
    ensures r0 == r1, r1 == r2, f0.got == f1.vouched, f1.got == f2.vouched, f2.got == f0.vouched
{
    let (a, b, c) = (p0.own@, p1.own@, p2.own@);
    assert forall|s: Seq<u8>| #[trigger] bytes_of(els(s)) == s by { assert(bytes_of(els(s)) =~= s); }
    xor_ac(a, c, b); xor_ac(b, a, c); xor_ac(c, b, a); xor_comm(a, b); xor_comm(b, c); xor_comm(a, c);
}
fn main() {}
}
