#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list is kept here because JSON lines are hard to edit by hand."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)

BP, BPRP, BIP, BU, BV, BVAL = ['bulletproofs/' + f for f in ('bp.go', 'bprp.go', 'bip.go', 'util.go', 'vector.go', 'validate.go')]
CCS, BB, UT = 'ccs08/ccs08.go', 'crypto/bbsignatures/bb.go', 'util/util.go'
BN, CU, TW, G12, G6, G2F, OA = ['crypto/bn256/' + f for f in ('bn256.go', 'curve.go', 'twist.go', 'gfp12.go', 'gfp6.go', 'gfp2.go', 'optate.go')]
PP, MC = 'crypto/p256/p256.go', 'crypto/p256/mycurve.go'
CONV, PARSE, BIG = 'util/byteconversion/conversion.go', 'util/byteconversion/parse.go', 'util/bn/bn.go'

p('C01', 'Every honest in-range Bulletproof is accepted',
  'For every supported range [0, 2^n) and every integer in that range, proving succeeds and the resulting proof verifies, whatever random numbers the prover draws. This also holds after the proof has been encoded to JSON and decoded, and for any number of proofs made with the same parameters in any order.',
  ['inputs', 'configurations', 'histories'], 'all n in {1,2,4,8,16,32}, all secrets in [0,2^n), all random tapes (including all-zero and extreme scalars), all histories of proofs sharing one set of parameters',
  'The tests prove the secrets 0, 3, 18 for n=32 only, with whatever randomness occurs; no other size and no boundary bit pattern is tried.',
  [BP, BIP, BU, BV, PP, UT], [('prove/verify equations (65)-(67)', BP), ('inner product recursion', BIP), ('parameters are only read', BP)], ['BulletProof.Verify', 'json.Marshal/Unmarshal'])
p('C02', 'A Bulletproof for a value outside its range is never accepted',
  'Running the prover with a secret whose value modulo the group order lies outside [0, 2^n) never yields a proof that verifies, for any supported n. This includes negative numbers, values just past either end, and values differing from an in-range one by a multiple of 2^n.',
  ['inputs', 'configurations'], 'all n, all integers outside the range (mod group order), all tapes',
  'The tests try -1, 2^32 and 2^32+1 for n=32 only.',
  [BP, UT], [('bit decomposition versus commitment', BP), ('condition (65)', BP)], ['BulletProof.Verify'])
p('C03', 'Generic range proofs decide membership in [a, b) exactly',
  'For all bounds a and b, a generic range proof computed for an integer x verifies if and only if a <= x < b (for intervals not wider than 2^32; a wider interval never admits an x outside it). The answer does not depend on the sign of the bounds or on JSON transport.',
  ['inputs', 'configurations'], 'all int64 pairs a, b (positive, negative, equal, inverted), all x near and far from the bounds',
  'The tests use only [18,200) and five values of x.',
  [BPRP, BP], [('two shifted proofs', BPRP), ('interval carried with the proof', BPRP)], ['ProofBPRP.Verify'])
p('C04', 'A Bulletproof that was altered in transit is rejected',
  'Changing the value of any single element of a valid range proof or generic range proof (a point, a scalar, the order of elements, the size, the interval), or exchanging elements between valid proofs, makes verification fail. The verifier never accepts the altered proof, whatever element and whatever new value was chosen.',
  ['inputs'], 'all positions in a proof that carry information the verifier relies on, all replacement values (random, negated, shifted, identity, copied from another position or another proof)',
  'No test alters a proof.',
  [BP, BPRP, BIP, BVAL], [('verification equations', BP), ('Fiat-Shamir challenges over all messages', BU), ('generators compared with Setup', BVAL)], ['BulletProof.Verify', 'ProofBPRP.Verify'])
p('C05', 'No forged Bulletproof is accepted',
  'A prover who does not know an in-range opening of the commitment cannot produce an accepted proof with any known attack on a verifier that omits a check: unrelated inner product arguments, generators with known relations, commitments or messages chosen after the challenges, challenges that coincide, an evaluation that is not the inner product, missing rounds, identity elements. Accepted proofs cannot be turned into accepted proofs for another commitment either.',
  ['inputs', 'programs'], 'a catalogue of adversarial provers, each with random secrets, sizes and tapes, attacking the real verifier',
  'The tests contain no dishonest prover; completeness tests pass with every one of these checks missing.',
  [BP, BIP, BU, BVAL], [('challenge derivation', BU), ('binding of the inner product argument', BIP), ('canonical generators', BP)], ['BulletProof.Verify'])
p('C06', 'Both halves of a generic range proof concern one secret and one interval',
  'A generic range proof assembled from halves that were made for different secrets, different intervals or with different blinding is rejected. So is one whose halves were exchanged or whose stated interval was changed without shifting the halves accordingly.',
  ['inputs', 'histories'], 'all pairs of proofs and intervals, all ways to recombine them',
  'The tests only verify proofs produced in one piece.',
  [BPRP], [('relation between the two commitments', BPRP)], ['ProofBPRP.Verify'])
p('C07', 'Verifying untrusted data never crashes',
  'Whatever JSON document is decoded into a range proof, generic range proof or inner product proof, verification returns normally with either an answer or an error. It never panics, and a document that lacks a required element, has vectors of unsuitable length, an unsupported size, or points that are not on the curve is never accepted.',
  ['inputs'], 'all JSON documents accepted by the decoder: structural mutations of valid proofs and documents generated from the schema',
  'The tests decode only encodings of valid proofs.',
  [BP, BPRP, BIP, BVAL, PP], [('validation before use', BVAL)], ['BulletProof.Verify', 'ProofBPRP.Verify', 'InnerProductProof.Verify'])
p('C08', 'Verification is a repeatable, read-only observation',
  'Verifying a proof any number of times, interleaved with encoding, decoding, copying and verifying other proofs, always gives the same answer. It changes neither the proof, nor the parameters, nor the encoding of the proof, for valid and invalid proofs alike and for every proof system in the library.',
  ['histories'], 'all sequences of verify / encode / decode / copy / prove operations over shared objects',
  'Every test verifies a proof once.',
  [BP, BIP, BPRP, CCS, BN], [('verifier works on copies', BIP), ('encoding works on copies', BN)], ['deep comparison of the proof before and after', 'JSON text'])
p('C09', 'Range setup accepts exactly the supported sizes',
  'Setting up a range proof for the end b succeeds exactly for b in {2, 4, 16, 256, 65536, 2^32} and otherwise returns an error without panicking. Two setups for the same b give equal parameters with exactly log2(b) pairs of generators.',
  ['inputs'], 'all int64 values', 'The tests only use 2^32.',
  [BP, BU], [('power-of-two checks', BU), ('limit of 32 bits', BP)], ['Setup'])
p('C10', 'Commitment generators are independent and nobody knows a relation between them',
  'All generators of the range proof parameters are distinct valid group elements, derived by hashing public labels so that each can be recomputed from its label, and equal for every party. The second commitment generator of the set membership and pairing based range proofs is likewise not a known multiple of the base point.',
  ['configurations', 'inputs'], 'all supported sizes and positions; all published scalars in the source',
  'No test looks at the generators.',
  [BP, BIP, PP, CCS], [('hash-to-curve with labels', PP)], ['parameters returned by Setup, SetupSet, SetupUL'])
p('C11', 'Bulletproof commitments and messages are freshly and fully blinded',
  'Every group element and response scalar that a range proof publishes depends on fresh random input of full width, so that two proofs of the same secret share no commitment, message or response and the proof contains neither the secret nor a blinding value. Response scalars are reduced modulo the group order, so that their size tells nothing. All random scalars are uniform over the whole group order: changing any byte of the randomness changes the proof.',
  ['inputs', 'histories'], 'all secrets, sizes, tapes; every byte of the random tape; pairs of proofs with shared parameters',
  'Tests cannot see randomness reuse: a proof made with constant blinding verifies equally well.',
  [BP, BPRP], [('blinding factors alpha, rho, tau1, tau2, gamma and vectors sL, sR', BP)], ['published proof elements as a function of the random tape'])
p('C12', 'Failing randomness never yields a proof, key or parameters',
  'If the source of randomness fails at any point during proving, key generation or setup, the operation does not return a result together with a nil error. This holds for every position of the first failing read and for short reads.',
  ['fault_sequences'], 'every read position in every randomised operation; error, short read with error',
  'No test injects a failure of the randomness source.',
  [BP, BPRP, CCS, BB, BN], [('error of the random source', BP), ('error of key generation', BB)], ['return values under fault injection'])
p('C13', 'The inner product argument proves exactly true inner products',
  'For vectors of any power-of-two length and any integer entries, the argument for <a, b> = c verifies if and only if c is the inner product modulo the group order and the vectors open the commitment. Its length is logarithmic: one pair of points per halving.',
  ['inputs', 'configurations'], 'lengths 1..32, entries including 0, negative, order-1, equal halves; all false c; altered messages',
  'The test uses one pair of vectors of length 4 and one true c.',
  [BIP, BV, BU], [('recursive halving', BIP), ('binding of c', BIP)], ['InnerProductProof.Verify'])
p('C14', 'Set membership proofs decide membership exactly',
  'For every set of integers, proving membership succeeds for exactly the elements of the set and the proof then verifies under the parameters of that set; for any other integer no accepted proof is produced. A proof is not accepted under the parameters of another setup.',
  ['inputs', 'configurations'], 'sets with negative, extreme, repeated and single elements, all members and non-members',
  'The test uses one set of four positive numbers and one member.',
  [CCS, BB, BN, UT], [('signatures on the elements', CCS), ('pairing equation', CCS)], ['ProveSet', 'VerifySet'])
p('C15', 'Digit-based range proofs accept exactly [0, u^l)',
  'For every base u >= 2 and length l >= 1, the proof made for an integer x and any commitment randomness verifies if and only if 0 <= x < u^l. A proof with another number of digits, or for another base, is not accepted.',
  ['inputs', 'configurations'], 'all small u, l; all x at the ends and of every digit pattern, negative x, x >= u^l; all commitment randomness',
  'The test uses u=10, l=5, one value.',
  [CCS, UT, BB], [('digit decomposition', UT), ('commitment to the digits', CCS)], ['ProveUL', 'VerifyUL'])
p('C16', 'Pairing-based range proofs decide membership in [a, b) exactly',
  'For all bounds 0 <= a <= b with b >= 2, the proof made for x verifies if and only if a <= x < b. For any other bounds, setup fails or no x outside the interval is accepted.',
  ['inputs', 'configurations'], 'all bounds around powers of the internal base, wide and one-element intervals, all x at the ends',
  'The test uses one interval and one value, both in the middle.',
  [CCS], [('two shifted digit proofs', CCS), ('number of digits computed from b', CCS)], ['range proof verification'])
p('C17', 'No altered or forged set or digit proof is accepted',
  'Changing any element of a valid set membership or digit-based proof, exchanging elements between proofs, or building a proof without a valid signature (responses and challenge chosen first, identity elements, commitment chosen last) never yields an accepted proof.',
  ['inputs', 'programs'], 'all elements and replacement values; a catalogue of adversarial provers',
  'No test alters a proof or tries to cheat.',
  [CCS, UT], [('recomputed challenge', CCS), ('pairing equation', CCS)], ['VerifySet', 'VerifyUL'])
p('C18', 'Both halves of a pairing-based range proof concern one secret',
  'A range proof for [a, b) assembled from the halves of proofs for different secrets or different commitments is rejected, even when each half is valid on its own.',
  ['inputs', 'histories'], 'all pairs of secrets inside and outside the interval',
  'The test verifies one honest proof.',
  [CCS], [('relation between the two commitments', CCS)], ['range proof verification'])
p('C19', 'Signatures verify exactly for the signed message and key',
  'For every generated key pair and integer message other than the one with no inverse, signing succeeds and the signature verifies; it does not verify for a message different modulo the group order, another key, or another signature value. Key generation and signing report an error exactly when they fail.',
  ['inputs'], 'all keys (including small and extreme private keys), all messages (negative, zero, larger than the order)',
  'The test signs 42 once and ignores the returned errors.',
  [BB, BN], [('inverse of message plus key', BB), ('pairing equation', BB)], ['Keygen', 'Sign', 'signature verification'])
p('C20', 'The pairing groups obey the group laws in every representation',
  'Addition, negation, and multiplication by any integer (negative, zero, larger than the order) in both source groups agree with the abelian group of that order, for every sequence of operations, including equal and opposite operands, the identity, and results stored over an operand. Operands that are not the result are never changed in value.',
  ['inputs', 'histories'], 'all operation sequences over a pool of points tracked by their discrete logarithm; all aliasing patterns',
  'Tests use a few fixed expressions with random scalars, never aliasing and hardly negative scalars.',
  [BN, CU, TW, G2F], [('Jacobian addition and doubling', CU), ('twist arithmetic', TW)], ['encoded points compared with an independent implementation'])
p('C21', 'The pairing is bilinear and non-degenerate',
  'For all multiples of the generators, pairing aP with bQ equals the pairing of the generators to the power ab, in every internal representation of P and Q and for the identity, and it agrees with an independent implementation. Checking a product of pairings answers true exactly when the sum of the products of the exponents is zero modulo the order.',
  ['inputs'], 'all scalars incl. 0, negative, order multiples; points produced by any operations; lists of pairs of any length',
  'Tests check bilinearity for two random pairs in one representation; the product check is not tested.',
  [BN, OA, G12, G6, G2F, TW], [('Miller loop', OA), ('final exponentiation', OA)], ['Pair', 'PairingCheck'])
p('C22', 'The target group obeys the group laws',
  'Products, inverses and powers with any integer exponent in the target group agree with exponent arithmetic modulo the group order, and no operation changes an operand that is not its result. The identity test answers true exactly for the identity.',
  ['inputs', 'histories'], 'all operation sequences over elements tracked by exponent, all aliasing patterns, negative exponents',
  'Tests use exponentiation only with positive random exponents.',
  [BN, G12, G6, G2F], [('extension field arithmetic', G12)], ['GT operations'])
p('C23', 'Encodings of pairing group elements are canonical and lossless',
  'Decoding the encoding of any element gives an equal element, equal elements have equal encodings and equal printed forms, different elements have different ones, and encoding or printing does not change the element. Decoding rejects wrong lengths, coordinates that are not on the curve and points outside the group, without panicking.',
  ['inputs'], 'all elements in all representations incl. the identity; all byte strings (mutated encodings, random curve points outside the group)',
  'Tests decode the encoding of the generator and of the identity.',
  [BN, CU, TW], [('normalisation to affine form', TW), ('curve and subgroup checks', BN)], ['Marshal', 'Unmarshal', 'String'])
p('C24', 'secp256k1 operations obey the group laws',
  'Addition, doubling, negation and multiplication by any integer agree with an independent implementation of the curve for all points, including the identity in either representation, opposite points and results stored over an operand. Operands that are not the result keep their value.',
  ['inputs', 'histories'], 'all points (tracked by discrete logarithm and independent), all integers, all aliasing patterns; equal operands where the operation allows them',
  'Tests use three fixed multiples of the base point and never negate.',
  [PP, MC], [('addition formulas', MC), ('identity handling', PP)], ['coordinates compared with an independent implementation'])
p('C25', 'Hashing to the curve is deterministic and yields valid points',
  'For every input string, hashing to the curve returns a point on the curve other than the identity, the same one every time, equal to the first candidate of the documented try-and-increment construction. Different labels (strings that do not begin with a digit) give different points.',
  ['inputs'], 'all strings (empty, digits first, unicode, binary, long)',
  'The test hashes one string and checks nothing about the result.',
  [PP, CONV], [('try-and-increment', PP)], ['MapToGroup'])
p('C26', "Two's complement conversion is exact, minimal and reversible",
  "Every integer converts to its shortest big-endian two's complement byte string and back to itself, and every non-empty byte string converts to the integer it denotes. The empty string is reported as an error, and inputs are not modified.",
  ['inputs'], 'all integers, in particular around powers of 256 and their halves; all byte strings with any sign padding',
  'Tests use a dozen constants.',
  [CONV], [('sign byte handling', CONV)], ['ToByteArray', 'FromByteArray'])
p('C27', 'Integer lists parse exactly or are rejected',
  'Printing any non-empty list of integers in decimal, separated by commas, and parsing it yields the same list in the same order. Any input with a character other than digits, a leading minus sign and separators, or with a sign without digits, is rejected with an error, and parsing never panics or changes its input.',
  ['inputs'], 'all lists of integers, all byte strings',
  'Tests parse a few constants.',
  [PARSE], [('character validation', PARSE)], ['ParseInput', 'ConvertToBigInt'])
p('C28', 'Modular arithmetic helpers are exact and free of side effects',
  'Addition, subtraction, multiplication, reduction, inversion and power (also with negative exponents) agree with their mathematical definition for all integers, with results reduced to [0, m) where a modulus is given. Arguments are never modified and results never share storage with them.',
  ['inputs'], 'all integers incl. negative, zero, huge; all positive moduli incl. 1 and composite; invertible and non-invertible bases',
  'Tests use single-digit constants.',
  [BIG], [('big integer wrappers', BIG)], ['bn functions'])
p('C29', 'Vector helpers compute componentwise results modulo the group order',
  'Vector addition, subtraction, product, scaling, inner product, powers, multi-exponentiation and point addition agree with their definition for vectors of every length and any integer entries, and report an error exactly when lengths differ. Arguments are never modified.',
  ['inputs'], 'all lengths incl. 0, equal and unequal; entries negative, zero, beyond the order; points incl. identity, equal and opposite',
  'Tests use one vector of length 3 each and never unequal lengths.',
  [BV, BU], [('length checks', BV), ('reduction', BV)], ['Vector functions'])
p('C30', 'Pedersen commitments are well-formed and homomorphic',
  'The commitment to x with randomness r equals g^x h^r for all integers x and r, including zero, negative and multiples of the order, in both groups. Hence commitments add up: the sum of commitments to x and y is the commitment to x+y with the sum of the randomness.',
  ['inputs'], 'all x, r, h incl. degenerate values',
  'No test calls the commitment functions with zero or negative arguments.',
  [UT, PP, BN], [('Commit and CommitG1', UT)], ['commitment values compared with an independent implementation'])
p('C31', 'Shared parameters and proofs can be used concurrently',
  'Any number of goroutines may prove and verify with the same parameters and verify, encode or print the same proof or group element at the same time. There is no data race and every goroutine obtains the result it would obtain alone.',
  ['schedules'], 'random mixes of concurrent operations on shared objects, under the race detector',
  'All tests are sequential.',
  [BP, BPRP, CCS, BN, UT], [('operations only read shared objects', BN)], ['race detector', 'results per goroutine'])
p('C32', 'Challenge hashes are deterministic functions of the values hashed',
  'Every challenge hash depends only on the values of the elements given to it, not on their internal representation, and changes when any of these elements changes in value or order. The two challenges derived together are different functions of the input, and no hash modifies its input.',
  ['inputs'], 'all tuples of points, integers and target group elements in all representations; single-element changes',
  'The tests compare with constants using a condition that cannot fail unless both values are wrong.',
  [BU, UT, BIG, BIP], [('hash input encoding', BU)], ['HashBP', 'Hash', 'HashSet', 'CalculateHash'])
p('C33', 'Proofs interoperate with an independent implementation of the protocol',
  'A range proof or generic range proof produced by the library satisfies the verification equations of an independent implementation of the same protocol, and proofs produced by that implementation are accepted by the library. Both compute the same answer for altered proofs.',
  ['inputs', 'configurations'], 'all sizes, secrets and tapes; altered proofs',
  'The tests verify only with the code that produced the proof, so that an error made consistently on both sides goes unnoticed.',
  [BP, BIP, BU, BPRP], [('protocol equations', BP)], ['proofs exchanged as JSON with the independent implementation'])
p('C34', 'Pairing-based proofs and parameters reveal no secret',
  'A set membership or digit-based proof contains neither the secret, nor the commitment randomness, nor any random value of the prover, and each of its elements except the commitment depends on fresh randomness over the whole group order. Responses are reduced modulo the group order. The parameters handed to a prover do not contain the signing key.',
  ['inputs', 'histories'], 'all sets, members, bases, tapes; every scalar stored in proofs and parameters',
  'Tests only look at the verification result.',
  [CCS], [('prover state kept local', CCS), ('signing key dropped after setup', CCS)], ['all integers reachable from the returned values'])
p('C35', 'Digit decomposition is exact',
  'Decomposing an integer x into l digits of base u >= 2 yields digits in [0, u) that recombine to x modulo u^l, and to x itself exactly when 0 <= x < u^l. The argument is not modified.',
  ['inputs'], 'all x incl. negative and beyond u^l, all u >= 2 up to the int64 limit, all l >= 0',
  'The test decomposes 925 in base 10.',
  [UT], [('Decompose', UT)], ['Decompose'])
p('C36', 'Arithmetic in the target field is exact for every element',
  'For all elements of the field that contains the target group (given as twelve coordinates, including elements of subfields and elements with many zero coordinates), products, inverses of non-zero elements, powers with any integer exponent, encoding, decoding and the tests for zero and one agree with polynomial arithmetic, for every sequence of operations and also when the result is stored over an operand.',
  ['inputs', 'histories'], 'all field elements with coordinates below the field prime, all exponents, all histories over registers with all aliasing patterns',
  'The tests multiply and invert one fixed element per field; elements with zero coordinates or from subfields never occur.',
  [BN, G12, G6, G2F], [('tower arithmetic', G6), ('square and multiply', G12), ('scratch pool', BN)], ['GT.Add', 'GT.Invert', 'GT.Exp', 'GT.Marshal'])
p('C37', 'Proofs and parameters survive JSON transport unchanged',
  'Encoding any range proof, generic range proof, inner product proof, parameters or curve point to JSON and decoding the text gives an object with equal elements (points, scalars, sizes, interval ends, list lengths, absent elements), whose own encoding is the same text and on which verification answers the same. This holds for every content and whether the object is encoded by itself, by pointer, inside lists, maps or other structures, decoded over another object, or the text is laid out differently.',
  ['inputs'], 'all objects with valid points (including the identity and short coordinates), scalars below the order and any int64, all containers and layouts',
  'One test encodes and decodes one generic proof.',
  [BP, BPRP, BIP, PP], [('exported fields of the proof structures', BP), ('generic proof', BPRP), ('curve point', PP)], ['json.Marshal', 'json.Unmarshal', 'Verify'])

with open(OUT, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
