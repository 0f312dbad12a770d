#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
I='iris-mpc/src/'
HK='cfg(vp_hooks): modules of the iris-mpc crate are crate-private'
p('C01','Sharing a value and opening it returns exactly that value',
  "In every protocol engine, a value that is secret-shared by a dealer or input by any one party is opened by all three parties to exactly that value, and a batch of shares opens to the same values in the same order. Any two parties' copies of the same share component agree.",
  ['inputs','configurations'],'every ring value, every party id, every outcome of the masking randomness, every protocol engine and ring width',
  'Tests share and open a few random values per engine; they cannot range over all values, all masks, and all input parties.',
  [I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'traits/mpc_trait.rs',I+'aby3/random/prf.rs'],
  [('share/input/open/open_many/open_bit','*/protocol.rs MpcTrait impls'),('replicated component pairs','aby3/share.rs, swift3/share.rs')],
  ['values returned by open / open_many / open_bit / open_bit_many at each of the three parties'],hook=HK)
p('C02','Local operations on shares act as the same operation on the secrets',
  'Adding, subtracting, negating, xoring, complementing and left-shifting shares, adding, subtracting, xoring or multiplying by a public constant, and the same operations on vectors of shares, yield shares whose opened value is that operation applied to the opened inputs. No communication happens and the result is again a consistent sharing.',
  ['inputs','configurations'],'all share components (hence all secrets and all splittings), all public constants, all shift amounts below the width, every party position, every share type',
  'Tests open the result of a handful of random operands; a rule that is wrong for one party position, one operator variant (by reference / in place) or one operand pattern goes unseen.',
  [I+'aby3/share.rs',I+'aby3/vecshare.rs',I+'swift3/share.rs',I+'swift3/vecshare.rs',I+'spdzwise/share.rs',I+'spdzwise/vecshare.rs'],
  [('operator impls','aby3/share.rs, swift3/share.rs, spdzwise/share.rs'),('add_const/sub_const/xor_const by party id','aby3/share.rs, swift3/share.rs')],
  ['reconstruction of the three parties\' result shares'],hook=HK)
p('C03','Secure multiplication and dot products compute the exact ring result',
  'In every engine, the product, dot product, batch of dot products and masked dot products of shared values open to the exact result in the ring, with one result per input pair in order, and the result can be used as input to further operations. A masked dot product sums exactly the positions whose mask bit is set.',
  ['inputs','configurations','histories'],'all secrets, all share splittings, all masking randomness and all public masks; several operations in sequence on one engine; vector lengths as stated by the check',
  'Tests multiply a few random vectors; cross terms that cancel only for special values, wrong PRF alignment after several operations, or one party position being wrong are only sampled.',
  [I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'traits/mpc_trait.rs',I+'aby3/share.rs'],
  [('local cross products plus zero sharing and resharing','aby3/protocol.rs mul/dot/dot_many/masked_dot_many'),('mul_post/dot_post','swift3/protocol.rs'),('shared MAC computed alongside','spdzwise/protocol.rs')],
  ['opened results of mul / dot / dot_many / masked_dot_many'],hook=HK)
p('C04','Shared boolean operations and arithmetic-to-binary conversion are exact',
  'In every engine AND and OR of shared words or bits, single and batched, open to the bitwise AND and OR of the operands, and converting an additively shared value to binary shares opens to the same bit pattern. Batched forms give one result per position, in order.',
  ['inputs','configurations','histories'],'all operands, all share splittings, all masks, all word widths',
  'Tests run a few random words; a carry rule or shift that is wrong only for long carry chains, or an engine-specific cross term, is sampled only.',
  [I+'traits/binary_trait.rs',I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'aby3/utils.rs'],
  [('full adder plus Kogge-Stone','traits/binary_trait.rs binary_add_3(_many)'),('and/and_many','*/protocol.rs BinaryMpcTrait impls'),('splitting an additive sharing into three binary sharings','a2b_pre')],
  ['opened binary results'],hook=HK)
p('C05','The extracted comparison bit is the most significant bit of the secret',
  'For every shared ring value, extracting the most significant bit yields a shared bit that opens to exactly that bit, in the single and the batched form, with one result per batch position in order for every batch size.',
  ['inputs','configurations'],'all ring values and all three-way splittings of them, all batch sizes',
  'Tests use a batch of random values; the bit is wrong only for particular carry patterns or batch positions (for example around multiples of the packing width).',
  [I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'aby3/utils.rs'],
  [('transpose, ripple-carry adder over packed lanes','aby3/protocol.rs msb_adder_many, aby3/utils.rs transpose_pack_u128'),('binary_add_3_many then top bit','other engines')],
  ['opened results of get_msb / get_msb_many'],hook=HK)
p('C06','OR-reduction of shared bits is the OR of all of them',
  'Reducing a non-empty vector of shared bits with OR opens to true exactly when at least one input bit is true, whatever the number of bits, the position of the set bits and the chunk size.',
  ['inputs','configurations'],'all bit vectors, all lengths at least one, all chunk sizes at least one, all masks',
  'Tests use one length and one chunk size; dropped lanes at packing boundaries, odd levels of the tree or leftover chunks stay unseen.',
  [I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'aby3/utils.rs',I+'traits/binary_trait.rs'],
  [('pack bits into words, OR tree over words, then fold the word','pack, utils::or_tree, reduce_or_u128..u8')],
  ['opened result of reduce_binary_or'],hook=HK)
p('C07','The secure matcher takes the same decision as the plaintext matcher',
  'For every pair of iris codes and masks, the secure comparison says match exactly when the masked Hamming distance divided by the number of jointly usable bits is below the threshold as decided by the plaintext reference, and the database query says match exactly when some entry matches. Too few jointly usable bits give an error and never a decision.',
  ['inputs','configurations'],'all codes and masks of the fixed code size, all database sizes and chunk sizes, every engine',
  'Tests compare random codes whose distance is far from the threshold; equality with the threshold, sign wrap-around and mask handling are boundary cases the samples do not hit.',
  [I+'iris/protocol.rs','plain-reference/src/lib.rs',I+'traits/mpc_trait.rs',I+'aby3/share.rs'],
  [('threshold scaled to integers and MSB of difference','iris/protocol.rs get_cmp_diff/compare_threshold'),('distance = sum a + sum b - 2 a.b under the combined mask','iris/protocol.rs masked_hamming_distance_post'),('is_close','plain-reference/src/lib.rs')],
  ['result of compare_iris / compare_iris_many / iris_in_db against IrisCode::is_close'],hook=HK)
p('C08','Iris code bit arrays behave as exact 12800-bit vectors',
  'Setting, clearing, flipping and reading a bit affects and reports exactly that position, the bit iterator yields the bits in index order exactly once each, counting and the bitwise operators agree with position-wise definitions, and a distance is the count of differing positions usable in both masks.',
  ['inputs'],'all bit arrays, all indices below the code size',
  'Tests exercise random codes through aggregate comparisons only; an off-by-one in the word index or a swapped bit order cancels out in aggregates.',
  ['plain-reference/src/lib.rs'],[('word and bit index arithmetic','plain-reference/src/lib.rs IrisCodeArray'),('Bits iterator','plain-reference/src/lib.rs')],
  ['get_bit, bits(), count_ones, & and ^, is_close'])
p('C09','Wire encoding round-trips and malformed messages give errors, not panics',
  'Encoding a ring element or a list of them and decoding it yields the same elements, in order, and consumes exactly the bytes written. A message of any other length, or containing bytes that encode no element, is rejected with an error, never with a panic or a made-up value.',
  ['inputs'],'every element of every ring type, every byte string received, every expected count',
  'Tests only decode messages the code itself encoded; arbitrary bytes from a peer are never tried.',
  [I+'types/int_ring.rs',I+'types/bit.rs',I+'types/ring_element.rs',I+'aby3/utils.rs'],
  [('fixed-width big-endian encoding','types/int_ring.rs'),('length check','aby3/utils.rs ring_vec_from_bytes, ring_iter_from_bytes'),('bit value check','types/bit.rs TryFrom<u8>')],
  ['decoded values and Err results'],hook=HK)
p('C10','Ring elements implement arithmetic modulo 2^k exactly',
  'Every operator on ring elements and single bits (by value, by reference and in place) equals the integer or bitwise operation modulo 2^k; bit decomposition, single-bit access and the top bit agree with each other and recombine to the element; conversions between signed, unsigned, wider verification rings and slice or vector views preserve values as documented (zero-extension up, truncation down).',
  ['inputs'],'all elements and pairs of elements of every ring width, all shift amounts below the width and all bit indices',
  'Tests touch the operators indirectly on random values; one wrong assign- or by-reference variant, or a sign-extension in one width, is not reached.',
  [I+'types/int_ring.rs',I+'types/ring_element.rs',I+'types/bit.rs',I+'types/sharable.rs',I+'aby3/utils.rs'],
  [('operator impls','types/ring_element.rs, types/bit.rs'),('casts','types/sharable.rs'),('split, to_bits, ceil_log2','aby3/utils.rs')],
  ['results of the operators and conversions'],hook=HK)
p('C11','Modular inverses are exact and exist exactly for odd elements',
  'The inverse of every odd element multiplied with the element is one, in every ring width that offers inverses, and asking for the inverse of an even element reports an error. Division rounds toward zero.',
  ['inputs'],'all ring elements of every width',
  'Tests invert random elements; the loop must be right for every quotient sequence.',
  [I+'types/mod.rs',I+'types/int_ring.rs'],[('reversed extended Euclid','types/mod.rs extended_euclid_rev'),('wrapping around 2^k','types/int_ring.rs inverse')],['result of inverse()'],hook=HK)
p('C12','Polynomial arithmetic used by the proofs is exact',
  'Sum, difference, product, negation and evaluation of polynomials equal their definitions, division with remainder satisfies dividend = quotient * divisor + remainder with a remainder of lower degree, zero and one are recognised as such, a modular inverse times the element is one, and interpolation returns the polynomial through the given points.',
  ['inputs'],'all coefficients; lengths as stated by the check',
  'Tests use random polynomials of one shape; zero or vanishing leading coefficients and unequal lengths are special shapes they do not hit.',
  [I+'dzkp/polynomial.rs',I+'dzkp/irreducible_polys.rs'],[('Poly operators, long_division, mod_inverse, lagrange_polys','dzkp/polynomial.rs')],['coefficients of the results'],hook=HK)
p('C13','Arithmetic in GF(2^64) is field arithmetic for its modulus',
  'Addition, multiplication, inversion, lifting of bits and serialization of the 64-bit binary field elements agree with carry-less arithmetic modulo the documented degree-64 polynomial; a non-zero element times its inverse is one, and encoding then decoding returns the element.',
  ['inputs'],'all field elements and pairs',
  'Tests use the field only inside proofs on random bits; algebraic laws are not tested.',
  [I+'dzkp/gf2p64.rs'],[('GF2p64 wrappers and inv_mod','dzkp/gf2p64.rs')],['results of the operators'],hook=HK)
p('C14','Honest runs of the actively secure engines verify successfully',
  'When all three parties follow the protocol, every verification step accepts and no operation reports an error, after any supported sequence and number of shared operations, and also when verifying repeatedly with further operations in between.',
  ['inputs','histories','configurations'],'all secrets and randomness; sequences of operations and batch sizes as stated by the check',
  'Tests verify once at the end of one operation on random data; rare values (a vanishing leading coefficient), bookkeeping across several verifications and odd batch sizes are not covered.',
  [I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'dzkp/and_proof.rs',I+'dzkp/mul_proof.rs',I+'dzkp/dot_proof.rs'],
  [('hash comparison of jointly sent messages','jmp_verify'),('sacrifice','aby3_mal dot_sacrifice'),('MAC check','spdzwise verify_macs'),('distributed zero-knowledge proofs','dzkp/*_proof.rs')],
  ['Ok/Err of verify(), open and every operation'],hook=HK)
p('C15','A deviating party is detected in the actively secure engines',
  'If one party alters a message it sends during an operation or an opening, then either the opened results are unchanged or some honest party reports an error no later than its next verification, for all but a negligible fraction of the verification randomness. An altered share never opens silently to a different value.',
  ['inputs','fault_sequences'],'every single altered message (each position, each additive offset), every corrupted party, all secrets and randomness',
  'No test alters a message; a verification step that is skipped, compares the wrong thing or is cleared too early passes every test.',
  [I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'dzkp/and_proof.rs',I+'dzkp/mul_proof.rs',I+'dzkp/dot_proof.rs',I+'commitment/mod.rs'],
  [('hash comparison of jointly sent messages','jmp_verify'),('sacrifice','aby3_mal'),('MAC check','spdzwise verify_macs'),('zero-knowledge proofs of local products','dzkp/*_proof.rs')],
  ['Err from verify()/open at an honest party, or unchanged opened values'],hook=HK)
p('C16','Multiplication triples are correct, never reused and sufficient for a query',
  'Every AND triple handed out satisfies c = a AND b on the opened values, no triple is handed out twice, and after the precomputation that the matcher itself performs for a database size and chunk size, the query never runs out of triples. Precomputing in the presence of left-over triples leaves the engine able to answer the next query.',
  ['inputs','configurations','histories'],'all database sizes and chunk sizes, all sequences of precompute and query; lengths as stated by the check',
  'Tests precompute for one database size with one chunk size; odd sizes, small chunks and left-over triples are untested.',
  [I+'spdzwise/triples.rs',I+'spdzwise/protocol.rs',I+'iris/protocol.rs'],
  [('triple pool','spdzwise/triples.rs'),('amount estimate','iris/protocol.rs msb_and_gates'),('precompute_and_triples','spdzwise/protocol.rs')],
  ['NotEnoughTriplesError, opened triples'],hook=HK)
p('C17','Correlated randomness and commitments agree between the parties',
  "After set-up, each pair of parties draws identical pseudo-random values from their common key, zero shares sum (or xor) to zero over the parties, jointly tossed coins are equal at all parties, and a commitment opens successfully exactly for the committed value and randomness.",
  ['inputs','histories'],'all seeds, any number of draws, any committed value',
  'Tests rely on agreement implicitly; a wrong pairing of keys for one party or a commitment that ignores part of the value shows up only in some engines.',
  [I+'aby3/random/prf.rs',I+'swift3/random/prf.rs',I+'commitment/mod.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs'],
  [('setup_prf_from_seed','*/protocol.rs'),('gen_zero_share','aby3/random/prf.rs'),('commit/open/verify','commitment/mod.rs')],
  ['values drawn by the three parties'],hook=HK)
p('C18','Party identifiers and network configurations are validated',
  'Next and previous party form the cycle 0,1,2 in opposite directions, a number is accepted as a party id exactly when it is 0, 1 or 2, and a network configuration is accepted exactly when the listed parties have pairwise distinct ids and the local id is one of them.',
  ['inputs','configurations'],'all integers as ids, all configurations up to the stated size',
  'Tests only use valid identifiers and configurations.',
  [I+'aby3/id.rs','mpc-net/src/config.rs'],[('TryFrom<usize> for PartyID, next_id/prev_id','aby3/id.rs'),('check_config','mpc-net/src/config.rs')],['Ok/Err of the conversions and of check_config'],hook=HK)
p('C19','Operations on mismatched sizes or invalid parties report an error',
  'Element-wise operations, dot products, comparisons and batch inputs given vectors of different lengths return an error and do not silently truncate or produce a result, and naming a non-existing input party is an error and not a panic, in every engine.',
  ['inputs','configurations'],'all pairs of lengths (as stated by the check), all party ids',
  'Tests only call operations with matching lengths and valid ids.',
  [I+'aby3/protocol.rs',I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'swift3/protocol.rs',I+'iris/protocol.rs',I+'aby3/vecshare.rs'],
  [('length checks','*/protocol.rs, */vecshare.rs'),('id check','*/protocol.rs input')],['Err results'],hook=HK)
p('C20','Shares reveal nothing about the secret to a single party',
  'The view of any single party during sharing, operations and opening is distributed independently of the other parties\' secrets.',
  ['inputs','schedules'],'all secrets, all views','Tests cannot observe distributions.',
  [I+'aby3/protocol.rs',I+'swift3/protocol.rs'],[('masking with PRF output','*/random/prf.rs')],['party views'])
p('C21','Messages between parties arrive complete, in order and without deadlock',
  'On the real network stack, every message sent on a channel is received exactly once and in order, frames are reassembled exactly, and the protocols never deadlock.',
  ['schedules','fault_sequences'],'all interleavings, partial reads and connection failures','Tests use in-memory channels.',
  ['mpc-net/src/channel.rs','mpc-net/src/lib.rs','mpc-net/src/codecs.rs',I+'aby3/network.rs'],[('length-delimited frames over QUIC streams','mpc-net/src/channel.rs')],['received frames'])
p('C22','Verification has a negligible soundness error',
  'A deviation that changes a result is caught except with probability at most 2^-40 over the verification randomness.',
  ['inputs','fault_sequences'],'all deviations, all randomness','A probability bound cannot be sampled at 2^-40.',
  [I+'aby3_mal/protocol.rs',I+'spdzwise/protocol.rs',I+'dzkp/mul_proof.rs'],[('statistical security parameters','spdzwise/protocol.rs, dzkp')],['failure probability'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
