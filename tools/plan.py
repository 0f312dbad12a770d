"""What each check consists of."""
TRUSTED_TYPES = ['rustc 1.99.1 (code generation), the Rust standard library', 'Kani 0.68 / CBMC, Verus and Z3 where they are the back end']
TRUSTED_COMMON = [
    'rustc 1.99.1 (code generation), the Rust standard library',
    'hooks/sym.rs: symbolic ring elements implement the IntRing2k/Sharable interface with term constructors; canonical form = polynomials modulo 2^W over atoms / XOR-of-AND form (checked against random evaluation on every comparison), z3 4.8.12 for the rest',
    'hooks/net.rs: in-memory network with ordered reliable delivery between three parties, in place of the QUIC stack',
]
ASSUME_COMMON = [
    'reliable ordered point-to-point channels (the network stack itself is not verified)',
    'PRF and RNG outputs are arbitrary values: proofs treat every draw as a free variable shared by the holders of the seed',
    'a comparison of two different symbolic values inside the code is decided as "different" (holds for all but a vanishing fraction of the values); concrete executions cover coincidences only by sampling',
]
SYM = 'the real generic protocol code runs, for all three parties, on symbolic ring elements; the contract of each operation (representation invariant in, reconstruction equals the specification out, replicated components agree, no unread message) becomes term equalities valid for all values and all randomness'
PLAN = {
 'C01': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution', verus=[dict(name='c01'), dict(name='c15_jmp'), dict(name='c15_swift3')], explain=SYM+'. Verus proves on top, for lists of every length, what each party computes and exchanges: the three shares dealt by share add up to the value and agree where they are replicated (Aby3, MalAby3, Swift3; SpdzWise: the value and key times the value), an input enters exactly the dealer\'s component and what is sent is what the neighbour stores (MalAby3: the difference to a common random share, compared by the two others), every opening sends the component the neighbour lacks and adds (xors) the three components, position by position in order, and three-party lemmas: such shares open to the value at all three parties', trusted=['verus/c01.rs: the network, the iterators and the ring operators by their contracts (C09, standard library, C02/C10); random shares and zero shares by theirs (C17); jmp in MalAby3\'s input by its contract (proved in c15_jmp.rs)', 'verus/c01.rs: ring elements as representatives of their residue class; for the binary engine xor is addition in a group of exponent two', 'verus/c15_*.rs: as listed under C15', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'], assume=['symbolic part: vector lengths are those listed in scopes'],
   functions=['MpcTrait::{share,input,open,open_many,open_bit,open_bit_many} of Aby3, MalAby3, SpdzWise, Swift3', 'setup_prf, preprocess', 'random::prf', 'jmp send/receive (MalAby3, SpdzWise, Swift3)', 'MalAby3::{reconstruct_id,input}', 'Swift3::{input,share}']),
 'C02': dict(level='proof', explain=SYM, trusted=[], assume=['shift amounts and vector lengths as listed in scopes'],
   functions=['operators of aby3::share::Share, swift3::share::Share, spdzwise::share::Share', 'add_const/sub_const/mul_const/xor_const per party', 'VecShare and VecShareTrait operations', 'to/from_verification_share']),
 'C03': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution', verus=[dict(name='c03'), dict(name='c03_spdz'), dict(name='c15_mal'), dict(name='c03_swift')], explain=SYM+'. Verus proves on top, for vectors and lists of every length, what each product of Aby3 computes at each party: position k is the k-th zero share plus the local cross terms of exactly the k-th operands (masked: of exactly the positions set in the k-th mask), every first component is sent, and the second components are the ones received, in order; the same for MalAby3 (aby_mul_many, aby_dot_many, and the full mul, dot and dot_many: the product returned is the one its sacrifice checks), for the default masked_dot_many (an unmasked position contributes nothing), for SpdzWise (values and their MACs, and what is queued for verification), for Swift3 (mul, dot, dot_many: local products and their registration for the proof, what is sent, queued and jointly shared), and three-party lemmas: shares of this form open to the sum of the products of what was shared, over exactly the masked positions, and the MAC opens to the key times that',
   trusted=['verus/c03.rs: ring elements read as integers (reduction modulo 2^K commutes with sums and products; operators: C10), the resharing helpers by their contracts (C09), zero shares by theirs (C17), iterators by verus/iters.inc (zip, iter, chunks: sequences of the standard library)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'],
   assume=['vector lengths and masks of the symbolic part as listed in scopes'],
   functions=['MpcTrait::{mul,dot,dot_many,masked_dot_many} of the four engines', 'Swift3: aby_mul, aby_dot(_many), mul_post, dot_post(_many)', 'filter_reduce_add_twice', 'zero sharing']),
 'C04': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically; execution of the compiled code', verus=[dict(name='c04'), dict(name='c04_and'), dict(name='c04_swift')],
   explain='AND of words and bits in every engine proved on the real three-party code with symbolic secrets and randomness. Verus proves over the contract of the AND protocols, for all list lengths, all widths from 2 to 128 bits and all values: OR (single and batched), the circuits binary_add_3 and binary_add_3_many (full adder and parallel prefix: the opened word is the sum of the three words modulo 2^K, at every position), ceil_log2, the list operations of the shares they use, the split of an additive share into three words for Aby3, MalAby3 and Swift3, arithmetic_to_binary(_many) of all engines (the circuit is called with the three parts of each share, in order), and three-party lemmas for both sharings: the three words are well-formed sharings and the resulting word is the shared value. On top, conversions and lists are executed on the compiled code of every engine',
   trusted=['verus/c04.rs: inside the circuits the registers are what the shares open to (share-level xor and shift: C02; AND: proved here on the real code per engine)', 'verus/c04.rs: contracts assumed for Vec append, slice split and copies; ring subtraction and negation (C10)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially; for-each and zip loops become index loops)'],
   assume=['lengths of lists in the executed obligations as listed in scopes'],
   functions=['and, and_many of Aby3, MalAby3, SpdzWise, Swift3', 'BinaryMpcTrait::{xor,xor_many,xor_assign,or,or_many,binary_add_3,binary_add_3_many}', 'utils::ceil_log2', 'VecShareTrait for Vec<Share<T>> of Aby3 and Swift3: {xor_many,xor_assign_many,shl_assign_many,with_capacity,push,extend,split_at,get_at}', 'a2b_pre of Aby3, MalAby3, Swift3', 'arithmetic_to_binary(_many) of all engines']),
 'C05': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; execution of the compiled code', verus=[dict(name='c05'), dict(name='c05_single')],
   explain='Verus proves for the packed engines (Aby3 and SpdzWise), for every batch size above zero, every width from 4 to 128 bits and all values: the bit transpositions (transpose_shared_input, transpose_pack_u128), the packed AND and XOR, the two-level adder msb_adder_many (its output at position i is the sign bit of the sum of the three inputs at position i; padding is dropped), the split of a share into three sharings (a2b_pre), get_msb_many of both engines (SpdzWise: the MACs of its inputs are checked before it switches to the semi-honest adder), and the three-party lemma that the bit returned at position i is the sign bit of the value shared at position i; and, on top of the conversion (C04), get_msb of all engines and get_msb_many of MalAby3 and Swift3 with the lemmas that the top bits form a well-formed sharing of the sign bit. The contract is also evaluated on the compiled code of every engine: all 2^24 three-way splittings of every 8-bit value for Aby3, boundary values, carry patterns and batch sizes around the 128-lane packing for every engine and width',
   trusted=['verus/c05.rs: inside the adder the registers are what the shares open to (share-level operations: C02, and_many: C04, xor_many: C02/C19); transpose_pack_u128 on shares carries over to opened values by lemma opened_packed','verus/c05.rs: contracts assumed for flatten, chunks, repeat, resize, flat_map of to_bits (C10), from_verificationtype (C10), verify_macs (C15)','ring elements of width K are words below 2^K (operators: C10)','tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'],
   assume=['batch sizes of the executed obligations as listed in scopes'],
   functions=['MpcTrait::{get_msb,get_msb_many} of Aby3, MalAby3, SpdzWise, Swift3', 'utils::{transpose_shared_input, transpose_pack_u128}', 'Aby3 and SpdzWise::{transposed_pack_xor, transposed_pack_xor_assign, transposed_pack_and, msb_adder_many, get_msb_many}', 'Aby3::a2b_pre']),
 'C06': dict(level='proof', technique='Verus contracts and loop invariants on functions extracted from the source on every run; execution of the compiled code', verus=dict(name='c06'),
   explain='Verus proves, for every number of bits above zero and every chunk size above zero: or_tree returns a word whose every bit is the OR of that bit over all input words (all list lengths, chunk sizes and values); pack of Aby3, SpdzWise and Swift3 puts bit c*width+l at position l of word c and zeros elsewhere; split; reduce_or_u128, _u64, _u32, _u16 (the macro is expanded) and reduce_or_u8 of the three engines return 1 exactly for non-zero words; reduce_binary_or of the four engines returns the OR of all bits, with the lemma that the packed words hold the bits and nothing else. The contract is also evaluated on the compiled code: or_tree on symbolic words over the contract of or_many (lengths 1..24 and several chunk sizes), and per engine the whole reduction on all patterns of short lengths and on single-bit patterns at the boundary positions',
   trusted=['verus/c06.rs: registers carry this party\'s components and the value they open to; that words built component-wise from the bits (or halves, or single bits) open to the word of the opened bits (half, bit) is assumed at the constructors (new2, new3, half2, half3, bit2, bit3) and proved as lemmas opened_laid, halves_xor and bit_xor', 'or and or_many: contract C04', 'contracts assumed for chunks and sub-slices of vectors, the truncating cast as_() (C10)', 'ring elements of width K are words below 2^K (operators: C10)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially; macro_rules reduce_or is expanded)'], assume=['batch sizes of the executed obligations as listed in scopes'],
   functions=['utils::{or_tree, split}', 'pack, reduce_or_u128/u64/u32/u16/u8, reduce_binary_or of Aby3, SpdzWise and Swift3', 'MalAby3::reduce_binary_or']),
 'C07': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution', verus=dict(name='c07'), explain='Verus proves the whole composition for databases of every size and every chunk size over the contracts of the engine operations: the constructor accepts exactly rings with more bits than the distance needs, a query with too few usable bits or mismatched lists gives an error, every entry is judged under its own mask (distance = sum a + sum b - 2 a.b over the masked positions, all three list formats; threshold of its own usable count; top bit of the difference), the answer is the disjunction over all entries, and by lemma this is exactly the decision of the plaintext matcher (IrisCode::is_close, verified from its source too). Underneath: masked Hamming distances of every engine (and the subtraction of the threshold) proved for all code and mask bits on symbolic shares of short arrays plus a sign lemma decided for all distances 0..12800 and all usable counts; get_msb per C05; the composition (compare_iris*, iris_in_db, the plaintext matcher and an independent definition of the decision) is executed on real 12800-bit codes at, just below and just above the threshold and at the usable-bit limit, databases with the match at each boundary position, and databases without match', trusted=['verus/c07.rs: engine operations by what they do to the values shares open to (C01-C06, C16), 12800-bit arrays by C08, the list formats by C06, std slices and iterators by their documentation', 'verus/c07.rs: the floating-point threshold is one uninterpreted function of the usable count, the same in both matchers; its range and exact values are decided natively for every count', 'verus/c07.rs: chunk size 0 is excluded (std chunks panics)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'], assume=['array lengths of the symbolic part as listed in scopes', 'the end-to-end query is proved over the contracts of its parts and executed as a whole'],
   functions=['IrisProtocol::{new,combine_masks,masked_hamming_distance_post,masked_hamming_distance_many,get_cmp_diff,compare_threshold,compare_threshold_many,compare_iris,compare_iris_many,iris_in_db}', 'VecShareTrait::filter_reduce_add_twice (Aby3, Swift3, SpdzWise)', 'IrisCode::is_close', 'aby3::utils::ceil_log2', 'MpcTrait::masked_dot_many as used by them']),
 'C08': dict(level='proof', opt=1, proto=False, technique='contracts on the compiled code, decided by Kani/CBMC for all arrays and positions; iterator by a state invariant and step contract',
   kani=[dict(name='c08', deps=['plain-reference'], scope='all 12800-bit arrays, all positions'), dict(name='c08iter', deps=['plain-reference'], rustflags='--cfg vp_hooks_plain', nonative=True, scope='all arrays, all iterator states: inductive, no bound'), dict(name='c08count', deps=['plain-reference'], nonative=True, tier='thorough', harness_timeout=3000, scope='all arrays')],
   explain='contracts with frame conditions for set, get, flip (every other word unchanged), the four bitwise operators, constants and raw views, proved by Kani on the compiled crate for all arrays and all positions; the bit iterator by an invariant of its private state (established by bits(), preserved by next(), which yields the bit at the index), hence for the whole iteration; count_ones equals the sum of the word counts for all arrays in the thorough tier (minutes), executed in quick; distance executed at and next to the threshold',
   trusted=['repr(transparent) transmute between IrisCodeArray and [u64; 200] in the harness', 'hooks/plain_hooks.rs: constructor and view of the private iterator state'], assume=['count_ones as a sum over words and is_close: executed on sampled arrays in the quick tier'],
   functions=['IrisCodeArray::{get_bit,set_bit,flip_bit,bits,count_ones,as_raw_slice,as_raw_mut_slice}', 'BitAnd, BitAndAssign, BitXor, BitXorAssign for IrisCodeArray', 'Bits::{next,size_hint,len}', 'IrisCode::{default,is_close}']),
 'C09': dict(level='proof', opt=1, proto=False, technique='Verus contracts and loop invariants on the list and message functions extracted from the source; contracts of the element encodings on the compiled code decided by Kani/CBMC; execution',
   kani=dict(name='c09', deps=['iris-mpc'], scope='all element values, all message contents, the lengths around 0, 1 and 2 elements'), verus=dict(name='c09'),
   explain='contracts of the encoders and decoders of every width proved by Kani on the compiled crate: to_bytes gives the big-endian encoding and consumes exactly its bytes, a message is accepted exactly when it is an encoding of the requested number of elements and then decoded to it, anything else is an error and never a panic; over those element contracts Verus proves for every number of elements and every message that a list is sent as the concatenation of its encodings, that a message is accepted exactly when it is the encoding of the requested number of elements, which are returned in order (vector and iterator form, the iterator by a contract of next and size_hint), and that every send and receive helper moves exactly the encoded message to and from the named party; lists of 0, 1, 2 elements for all contents are proved on the compiled crate as well, lists up to 39 elements and all lengths around 0..5 elements executed',
   trusted=['tools/vendor_kani.py: bytes 1.5.0 with leaking storage for the Kani build', 'verus/c09.rs: contracts of Bytes and BytesMut (append, split off the front, length), of the network (messages as sequences), async functions read sequentially', 'tools/verus_job.py: the extraction (drops comments and attributes, `.await`, type parameters of the network)'], assume=['a list in memory has at most usize::MAX encoded bytes (precondition of the size computation)', 'ring_iter_to_bytes over other iterators than slices is executed, not proved'],
   functions=['IntRing2k::{add_to_bytes,to_bytes,from_bytes,from_bytes_mut,take_from_bytes_mut} for Bit,u8..u128', 'the same of RingElement', 'aby3::utils::{ring_vec_from_bytes,ring_iter_from_bytes,RingBytesIter,ring_slice_to_bytes,ring_iter_to_bytes,bytes_to_seed}', 'aby3::utils::{send_and_receive,send_and_receive_value,send_slice_and_receive_{vec,iter},send_slices_and_receive_iters,send_value*,send_vec*,receive_value*,receive_vec*}']),
 'C10': dict(level='proof', opt=1, proto=False, technique='contracts on the compiled code decided by Kani/CBMC (z3 for products) for all values of every width',
   kani=dict(name='c10', deps=['iris-mpc','num-traits'], scope='all values of the width'),
   explain='each operator in its by-value, by-reference and in-place form, mixed signed and unsigned forms, shifts, bit access, decomposition and recomposition, conversions to and from signed and verification types, slice and vector views: contract stated with the integer operation modulo 2^k, proved by Kani on the compiled crate for all values of u8..u128 and Bit; every harness is also executed natively',
   trusted=[], assume=['slice and vector views proved for two elements (the layout does not depend on the length)', 'integer primitives of the standard library'],
   functions=['all operator impls of RingElement and Bit', 'RingImpl::{get_msb,get_bit,to_bits,from_bits,upgrade_to_128}', 'Sharable::{to_sharetype,from_sharetype,to_verificationtype,from_verificationtype,to_verificationshare,from_verificationshare,arithmetic_shr,slice/vec conversions}', 'convert_slice/vec(_rev)']),
 'C11': dict(level='proof', opt=1, proto=False, technique='Verus contracts and loop invariants on functions extracted from the source on every run; exhaustive execution of small widths',
   verus=dict(name='c11'),
   explain='Verus proves, for all values and all iterations, the loop invariant s*a = r (mod b) and gcd(r0,r1) = gcd(b,a) of extended_euclid_rev generically over the ring interface, that an odd element and a power of two are coprime, and from these that inverse returns Ok exactly for odd elements with a*inverse = 1 (including the debug assertion), for u8, u16, u32, u64; floor_div per width; all u8 pairs, all u16 elements and samples of the rest are executed on the compiled code',
   trusted=['tools/verus_job.py: the extraction (drops comments and attributes; rules in verus/c11.rs: self renamed, debug_assert as obligation, Self spelled out)', 'Verus specifications of the primitive wrapping_sub, wrapping_mul, division'], assume=['u128 has no inverse (todo! in the code): not required'],
   functions=['types::extended_euclid_rev', 'IntRing2k::inverse for u8,u16,u32,u64,Bit', 'IntRing2k::floor_div for all widths', 'RingElement::{inverse,floor_div}']),
 'C16': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on the triple container, the engine and the matcher extracted from the source; execution of the real code with recorded consumption',
   verus=dict(name='c16'),
   explain='Verus proves for all sizes, widths and values: packing the operands and results of AND gates of any width into registers is a fixed injective linear placement (so nothing is lost, and if every gate so far and the new one satisfies c = a AND b on the opened values, every register does); the container invariant; get hands out the first registers and removes exactly them, extend appends; swap_bit exchanges two bits and permute applies one and the same bijection to the three lists; generate_triples returns checked triples of the AND protocol; verify_triple_queue hands every waiting gate to the check and takes max(len, 2^13) from the pool, failing for lack of triples only if the pool is smaller; precompute_and_triples leaves at least max(ceil(amount/128), 2^13) and keeps the left-overs in front; the amount the matcher asks for covers what its chunks and the OR use, for every database and chunk size (loop invariant over the chunks). The two consumption figures used there (2K-3 registers per 128 comparisons, one register per 128 bits of OR) are measured on the compiled engine over a grid; pool, packing, container and whole queries are executed too, and generated triples are opened',
   trusted=['verus/c16.rs: RingElement<u128> read as its word, async functions read sequentially, contracts of Vec::{drain,extend,last_mut,pop,split_at}, mem::take and slice chunks, of gen_range (an index of the range), of the coin, of the AND protocol (C04) and of the sacrifice check (C15)', 'tools/verus_job.py: the extraction (drops comments, attributes, `.await`)'], assume=['databases and chunks of at most 2^32 entries, pools of at most 2^53 registers (no overflow of usize)', 'gates per comparison and per OR are measured, not proved', 'no gate is waiting for verification when a query starts', 'database sizes, chunk sizes and sequences of the executed obligations as listed in scopes'],
   functions=['Triples::{default,new,len,get,get_all,extend,push_t,add_all_t,split_and_add_t,add_t,add_many_t}', 'SpdzWise::{swap_bit,permute,generate_triples,verify_triple_queue,precompute_and_triples}', 'IrisProtocol::{padded_to_128,msb_and_gates,iris_in_db}', 'executed: SpdzWise::{verify,and,and_many,reduce_binary_or,get_msb_many}']),
 'C12': dict(level='proof', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; execution of the compiled code', verus=[dict(name='c12'), dict(name='c12_inv')],
   explain='Verus proves, for polynomials of every length with every coefficient, over any commutative coefficient ring (coefficients are integers modulo an ideal of which only the ring axioms are known): all forms of + - * (by polynomials and by scalars), negation, zero, one, lift are the coefficient-wise definitions, multiplication is the convolution; degree, leading_coeff and shrink; evaluate is the value; long_division succeeds exactly for divisors whose leading coefficient is invertible and gives dividend = quotient * divisor + remainder with the remainder below the divisor, `%` likewise; interpolate is the combination of the basis polynomials with the values and, for every basis, runs through all points; the three Lagrange constructions give a basis (one at their own point, zero at all others) for all distinct points; mod_inverse and native_mod_inverse lift an inverse modulo 2 to an inverse modulo 2^K for every K and every modulus (Hensel step); the packing of coefficients modulo 2 into words and back. The compiled operators run on symbolic coefficients as well (all values and zero patterns, listed lengths); moduli proved irreducible (Rabin); inverses and Lagrange bases executed against an independent bit-by-bit reference',
   trusted=['verus/c12.rs: coefficient operators are those of a commutative ring (C10, C13), a vector of coefficients is shorter than isize::MAX, contracts of the iterator adapters (iters.inc), Vec::resize, vec![] and max', 'verus/c12_inv.rs: a polynomial modulo the modulus is its class; inverses of the extension field of two elements (inv_mod: C13); that the word of the coefficients modulo 2 stands for the polynomial modulo 2 (to_gf2p64, from_u64: their bits are proved, the correspondence of classes is not)', 'tools/verus_job.py: the extraction (drops comments and attributes)'], proto=False,
   assume=['`%` is used with moduli whose leading coefficient is invertible (its expect is a precondition)', 'points are distinct: their differences are invertible', 'lengths of the executed obligations as listed in scopes'],
   functions=['Poly::{add,sub,mul,add_assign,sub_assign,mul_assign,neg,rem (all forms),from_vec,lift,degree,leading_coeff,shrink,evaluate,zero,is_zero,one,is_one,long_division,interpolate,reduce_coeffs}', 'Poly::{lagrange_polys (both rings),native_lagrange_polys,mod_inverse,mod_inverse_inner,native_mod_inverse,native_mod_inverse_inner,to_gf2p64,from_u64}', 'executed: IrreduciblePolys::get']),
 'C13': dict(level='proof', opt=1, proto=False, technique='contracts on the compiled code decided by Kani/CBMC; Verus loop invariant for the Euclidean inverse; exhaustive basis pairs',
   kani=dict(name='c13', deps=['iris-mpc', 'serde'], scope='all 64-bit elements'), verus=dict(name='c13'),
   explain='all operator forms of addition, subtraction and negation, zero, one, lifting, equality, decoding and the product of every element with every power of x (both orders, against shift-and-reduce by x^64+x^4+x^3+x+1) proved by Kani on the compiled crate for all values, and that the four multiplication forms agree for all pairs; the inverse modulo a smaller polynomial proved by Verus for all operands and iterations (loop invariant over GF(2)[x] with degrees, no product leaves the word); all 64*64 basis products, inverses and messages executed against a bit-by-bit reference',
   trusted=['the multiplication of the gf256 crate is bilinear (assumed; sampled), so that the products with powers of x determine it', 'verus/c13.rs: ring and degree laws of GF(2)[x] as axioms, contracts of p64 division, product and difference assumed of gf256', 'tools/verus_job.py: the extraction (drops comments, attributes and .to_owned() on Copy values)'], assume=['recip of gf256 (a^(2^64-2)) is executed on samples', 'serialization is executed on samples, decoding proved'],
   functions=['GF2p64::{new,get,lift,inverse,inv_mod,extended_euclid_rev,to_poly,from_poly,random,MODULUS}', 'operator impls, Zero, One, Default, Neg of GF2p64', 'Serialize, Deserialize for GF2p64']),
 'C14': dict(level='exploration', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution', verus=[dict(name='c15_jmp'), dict(name='c15_swift3'), dict(name='c15_spdz'), dict(name='c15_mal'), dict(name='c03_spdz')], explain='contracts of the three zero-knowledge proof systems (prove, verify_prev, verify_next, combine_verifications accept whenever the registered relation holds): the real code of the prover and both verifiers on symbolic operands and resharing randomness for all operand values with sampled challenges, on all 512 operand patterns of a single AND gate, and on many sampled challenges and sizes; contract of verify on the engines (honest sequence: no error, opened values exact) over random sequences of inputs, linear operations, products, dot products, comparison bits, OR-reductions, openings and verifications. Verus proves on top, for every length, what each party sends, queues and hashes in jmp_send/receive/buffer and jmp_verify (in order and in full, queues emptied afterwards, so that nothing stale enters the next comparison), and that what hash_based_zero_verify, the triple comparison and the sacrifices announce is exactly the digest of the values that are zero in an honest run', trusted=['verus/c15_*.rs: collision resistance of the hash on what is hashed; the network, the iterators and the share operators by their contracts (C09, standard library, C02); what the coin, the reconstruction and the conversions between ring widths return is uninterpreted (C17, C01, C10)', 'verus/c15_*.rs: ring elements as representatives of their residue class; encodings tell classes apart (C09)', 'get_msb_many of SpdzWise: only the part up to the switch to the semi-honest adder is verified here (the adder: C05)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'], assume=['challenges and lengths of the sequences as listed in scopes (sampled)', 'proofs with more than one block (m > 1) are executed, not proved'],
   functions=['MulProof, DotProof, AndProof: register_*, calc_params, set_parameters, lagrange_points, prove, verify_prev, verify_next, combine_verifications; Proof::from_seed', 'MpcTrait::verify of MalAby3, Swift3, SpdzWise (jmp_verify, verify_macs, triple verification, verify_muls)', 'the operations whose transcripts they check', 'MalAby3: jmp_send(_many), jmp_buffer(_many), jmp_receive(_many), jmp_verify, get_mul_triple(_many), dot_sacrifice(_many); SpdzWise: the same jmp functions, verify_macs, hash_based_zero_verify, verify_triples, verify (Verus)', 'Swift3: send/receive helpers, clear_and_hash, jmp_send(_many), jmp_queue(_many), jmp_receive(_many), jmp_verify, jshare(_binary)(_many), open(_many), open_bit(_many), verify, products and ANDs with their registration for the proofs (Verus)']),
 'C15': dict(level='exploration', opt=1, technique='Verus contracts and loop invariants on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution', verus=[dict(name='c15_jmp'), dict(name='c15_swift3'), dict(name='c15_spdz'), dict(name='c15_mal'), dict(name='c03_spdz'), dict(name='c03_swift'), dict(name='c04_swift')], explain='contract of each interactive operation against a deviating party: after any alteration of any message of one party, every honest party either opens the exact value or an honest party reports an error by the end of the next verification, and no party panics or waits for ever. Decided on symbolic values (each message shifted by an arbitrary amount, all secrets and randomness) for openings, products and dot products, and by executing every message x eleven alterations (bit flips, replacements, truncation, extension, removal, reordering), pairs of messages of the same party, random sequences and whole database queries. Verus proves on top, for lists of every length, for MalAby3, SpdzWise and (jmp, joint sharing, openings) Swift3: every element received under jmp is queued in order and every element buffered is hashed in order, the digest of exactly these is compared with the neighbour\'s (jmp_verify returns an error otherwise and empties the queues), openings compare before and after, MACs of every queued share enter the check with a fresh random coefficient each, every pair of triples of every pending AND is opened and compared against both other parties, and in MalAby3 no product (mul, dot, dot_many, get_mul_triple(_many)) is returned before its sacrifice, over every entry, has been announced by all three parties with equal digests; SpdzWise queues the value and the MAC of every masked product; Swift3: verify compares the queues of both neighbours and accepts only if each of the three proofs with at least one gate waiting was accepted', trusted=['verus/c15_*.rs: collision resistance of the hash on what is hashed; the network, the iterators and the share operators by their contracts (C09, standard library, C02); what the coin, the reconstruction and the conversions between ring widths return is uninterpreted (C17, C01, C10)', 'verus/c15_*.rs: ring elements as representatives of their residue class; encodings tell classes apart (C09)', 'get_msb_many of SpdzWise: only the part up to the switch to the semi-honest adder is verified here (the adder: C05)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`/`.await`: the functions are read sequentially)'], assume=['the symbolic results are generic: they hold for all but a vanishing fraction of the values (the soundness error itself is C22)', 'one deviating party that alters contents of messages; dropped and reordered messages only as emptied or rotated contents', 'sequences, alterations and sampled messages as listed in scopes'],
   functions=['MpcTrait::{open,open_many,open_bit,open_bit_many,verify} of MalAby3, Swift3, SpdzWise', 'jmp_send, jmp_receive, jmp_verify, verify_macs, MAC and triple verification, verification of MulProof, DotProof and AndProof', 'IrisProtocol::iris_in_db with verification', 'MalAby3: clear_and_hash, jmp_*, reconstruct, open(_many), open_bit(_many), get_mul_triple(_many), dot_sacrifice(_many), mul, dot, dot_many (Verus)', 'SpdzWise: clear_and_hash, jmp_*, get_r, hash_based_zero_verify, verify_macs, open(_many), input, mul, dot, dot_many, masked_dot_many, open_bit(_many), verify_triples, get_msb(_many), and(_many), verify (Verus)', 'Swift3: send/receive helpers, clear_and_hash, jmp_send(_many), jmp_queue(_many), jmp_receive(_many), jmp_verify, jshare(_binary)(_many), open(_many), open_bit(_many), verify (Verus)']),
 'C17': dict(level='proof', opt=1, technique='Verus contracts on functions extracted from the source on every run; contracts on the real protocol code decided symbolically and by execution',
   verus=[dict(name='c17'), dict(name='c17_setup'), dict(name='c17_coin')],
   explain='contracts of the pseudo-random generators of both replicated families, of the zero shares (telescoping sums over an arbitrary abelian group, for + and xor), of commitments (opens iff the committed values and randomness, from collision resistance), of the joint coin (Swift3: own seed committed before anything is revealed, an accepted coin mixes three seeds whose openings fit the commitments received before, equal at all parties; MalAby3 and SpdzWise: from the common keys and the jointly sent third one) and of the key set-up of Aby3 and MalAby3 (keys in step at all three parties after any set-up that succeeds, and honest messages make it succeed), proved by Verus on the functions extracted from the source; a history of any length keeps the generators in step because every draw has the in-step relation as pre- and postcondition. The compiled protocols of all engines are executed on top: every kind of draw, zero shares (proved on symbolic values), coins, commitments with every single alteration, set-up with every altered message, and the states of the generators compared after each public operation',
   trusted=['verus/c17_base.inc: collision resistance and output length of SHA-512; a generator is a state and each draw a function of it; wire encodings are injective and of fixed length (decided by C09)', 'verus/c17_setup.rs: async functions read sequentially, the network as sequences of messages, slice copies and the byte-wise xor loops replaced by their contracts', 'tools/verus_job.py: the extraction (textual, drops comments and attributes; ring elements become elements of an abstract group)'],
   assume=['Swift3 and SpdzWise set-up and the draws inside operations are executed, not proved', 'probabilistic independence of draws is not claimed'],
   functions=['aby3::random::prf::Prf::{new,gen_rands,gen_rand,gen_zero_share,gen_binary_zero_share}', 'swift3::random::prf::Prf (all)', 'Commitment::{commit,commit_with_rand,open,get_comm_size,get_rand_size}, CommitOpening::verify', 'Aby3::setup_prf_from_seed, bytes_to_seed, send_and_receive', 'MalAby3::{setup_prf_from_seed,send_seed_opening,verify_commitment}', 'executed: set-up, coin and operations of all engines']),
 'C18': dict(level='proof', opt=1, proto=False, technique='Verus contracts on functions extracted from the source on every run; execution of the compiled code',
   verus=dict(name='c18'),
   explain='Verus proves for all numbers that a usize or u8 is accepted exactly when it is 0, 1 or 2 (the error names the number), that next and previous are the two directions of the cycle and inverse, and for all configurations that check_config accepts exactly when the ids of the listed parties are pairwise distinct and the own id is among them (multiset argument over sorting and removal of equal neighbours); that establish fails on any other configuration before anything else, and the engine network is only built with three parties and an own id below three. The compiled code is executed on all u8, all usize up to 100000, the neighbourhood of powers of two, every order and equality pattern of up to five ids, and invalid configurations given to the network constructor',
   trusted=['verus/c18.rs: contracts of Iterator::{find,map,collect}, sort_unstable and Vec::dedup; the rest of establish and of Aby3Network::new after the validation is dropped by the extraction (any result)', 'tools/verus_job.py: the extraction (drops comments and attributes, `async`)'], assume=['executed obligations: check_config for at most five (thorough: six) parties, usize conversions on the listed numbers'],
   functions=['PartyID: TryFrom<usize>, TryFrom<u8>, next_id, prev_id, Into<usize>; Display executed', 'NetworkConfig::check_config', 'MpcNetworkHandler::establish and Aby3Network::new (validation part)']),
 'C19': dict(level='proof', opt=1, technique='Verus contracts on functions extracted from the source on every run; execution of the compiled code', verus=dict(name='c19'), explain='Verus proves for all lengths of all lists and for all ids that each of 41 operations (dot products, batches of them including the inner lists, masked dot products, masked sums, element-wise AND/OR/XOR, three-operand additions, the packed adder, threshold comparisons, the matcher, input, opening to one party) gives an error on a mismatch before anything is sent, received or queued; what follows the checks is replaced by a call that may do and return anything. Executed on the compiled code: for the same operations every pair of different lengths in the stated range, and every id in the stated range, at all three parties of every engine: an error at each party, no value, no panic, nobody waiting for a message', trusted=['verus/c19.rs: get_num_parties() is 3 (C18); element types are abstracted; in the loops over pairs of lists the zip is read as an index loop over lists already checked to have the same length; the text between the checks is dropped only if it has no await, no return and does not name the network (it draws randomness: in the batch operations a mismatch in a later pair is found after some randomness was drawn, and before anything is sent)','tools/verus_job.py: the extraction (drops comments and attributes, `async`)'], assume=['executed obligations: lengths and ids as listed in scopes'],
   functions=['MpcTrait::{input,dot,dot_many,masked_dot_many} of Aby3, MalAby3, SpdzWise, Swift3, Plain', 'BinaryMpcTrait::{and_many,or_many,binary_add_3_many,xor_many,xor_assign_many}', 'VecShareTrait::{xor_many,xor_assign_many,filter_reduce_add_twice}', 'IrisProtocol::{compare_iris_many,compare_threshold_many,iris_in_db}']),
}
