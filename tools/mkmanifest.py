#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('property-based testing: generated sizes, secrets, random tapes and histories; oracle: the proof verifies', 'extreme tape values and all secrets of n <= 8 are covered; larger ranges are sampled with preference for the ends'),
 'C02': ('property-based testing: prover run on generated out-of-range integers; oracle: no proof verifies', 'covers the library prover; adversarial provers are covered by C05'),
 'C03': ('property-based testing against the predicate a <= x < b', 'intervals wider than 2^32 are checked for soundness only'),
 'C04': ('metamorphic fuzzing: value-changing mutations and grafts of valid proofs; oracle: rejection', 'an alteration is only demanded to be rejected if it changes a value that the statement depends on; that a random alteration stays valid has negligible probability'),
 'C05': ('property-based testing with adversarial provers built on a reference model (each attack is first shown to fool a weakened verifier)', 'covers the listed families of attacks (missing check, missing hash input, known relations, reordered messages), not all provers'),
 'C06': ('property-based testing: recombination of proof halves; oracle: commitment offset computed on an independent curve implementation', 'binding of the halves is reduced to the offset of their commitments'),
 'C07': ('structure-aware fuzzing of JSON documents (mutated, generated, byte level); oracle: returns without panic, accepts only valid proofs', 'documents that claim sizes between 2^20 and 2^60 are left out, sizes are bounded by 40 kB'),
 'C08': ('stateful property-based testing: histories of verify/encode/copy/decode; oracle: same answer, unchanged state', 'state is what encodings and reflection over the fields show'),
 'C09': ('property-based testing plus enumeration around all powers of two; oracle: exact set of supported sizes', 'all int64 near powers of two and up to 4096 are enumerated, the rest is sampled'),
 'C10': ('property-based testing: differential against an independent hash-to-curve; search for small multiples', 'that hashed points have no known relation is an assumption; the search finds multiples up to a few hundred around generated centers'),
 'C11': ('property-based testing over random tapes: bit-flip influence analysis, freshness, search for secrets', 'shows dependence on randomness and absence of known values, not statistical hiding'),
 'C12': ('fault injection: every position of a failing read of the randomness source, generated arguments', 'a panic counts as failure to return a result'),
 'C13': ('property-based testing against an independent inner product verifier, with forgeries', 'forgeries are the listed families'),
 'C14': ('property-based testing: generated sets and integers; oracle: membership; provers with stolen signatures', ''),
 'C15': ('property-based testing: bases, lengths, integers; oracle: 0 <= x < u^l', 'u up to 16 with l up to 4 and products thereof'),
 'C16': ('property-based testing against the predicate a <= x < b, bounds around powers of 57', 'negative bounds are checked for soundness only'),
 'C17': ('metamorphic fuzzing and adversarial provers; oracle: rejection', 'covers the listed families of attacks'),
 'C18': ('property-based testing: recombination of proof halves; oracle: offset of commitments', ''),
 'C19': ('property-based testing against the exponent model of the signature', 'elements are generated with known discrete logarithms'),
 'C20': ('model-based testing: histories on registers; oracle: integers modulo the order encoded by an independent implementation', 'the independent implementation (go-ethereum cloudflare) is trusted'),
 'C21': ('property-based testing: exponent arithmetic and differential against an independent pairing', 'the independent implementation is trusted'),
 'C22': ('model-based testing of GT against exponent arithmetic and an independent implementation', 'the independent implementation is trusted'),
 'C23': ('property-based round-trip testing in many representations; coordinate fuzzing against the curve equations', 'coordinates not below the field prime and arbitrary GT byte strings are left out'),
 'C24': ('model-based testing of point histories against an independent secp256k1', 'the reference model was compared with a second implementation'),
 'C25': ('property-based testing: differential against an independent try-and-increment', ''),
 'C26': ('property-based testing: exact, minimal two\'s complement; round trips in both directions', ''),
 'C27': ('grammar-based fuzzing against a reference grammar', 'empty elements are treated as the code documents them'),
 'C28': ('property-based testing against definitions, with aliasing checks', ''),
 'C29': ('property-based testing against componentwise definitions', ''),
 'C30': ('property-based testing: differential and homomorphism, coinciding terms included', ''),
 'C31': ('generated concurrent schedules under the race detector; oracle: results of the same operations on separate copies', 'the race detector sees the schedules that ran; goroutines have their own random streams'),
 'C32': ('property-based testing: same values in other representations hash alike, any change of value changes the hash', 'collisions of SHA-256 are assumed not to occur'),
 'C33': ('differential testing against an independent prover and verifier over JSON', 'the reference follows the paper with the hash formats of the library'),
 'C34': ('property-based testing over random tapes: influence analysis, freshness, search for secrets and keys', 'shows dependence on randomness and absence of known values, not statistical hiding'),
 'C35': ('property-based testing: recombination of digits', ''),
 'C36': ('model-based testing of histories on field elements against polynomial arithmetic', 'coordinates not below the field prime and the inverse of zero are left out'),
 'C37': ('property-based round-trip testing: generated contents in several containers and layouts of the text', 'points off the curve and scalars outside [0, order) are left out'),
}
BASE = 'Search over generated cases, deterministic in VERIF_SEED. '
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    i = json.loads(line)['id']
    tech, note = T[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech,
                   'level': 'fault_enumeration' if i == 'C12' else 'exploration',
                   'level_note': BASE + (note[:1].upper() + note[1:] + '.' if note else 'Inputs are sampled, not exhausted.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the harness reaches unexported functions with files added by go build -overlay (harness/overlay).'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
