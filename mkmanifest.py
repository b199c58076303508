"""Writes MANIFEST.json (run by hand)."""
import json
DED = 'contract-based deductive verification of the crate\'s MIR (mirvc: symbolic execution with inferred loop invariants; z3 and polynomial identities)'
N = {
 'C01': ('proof', DED, 'Poseidon2::permutation, Poseidon2Params::new and every layer function proved equal to the specification for all inputs, constants and round numbers at every supported width and degree, debug and release MIR. Assumes the field laws and round numbers below 2^30.'),
 'C02': ('proof', DED, 'Poseidon::permutation_not_opt proved equal to the HADES specification for all inputs, constants, matrices and round numbers, widths 2 to 24, degrees 3, 5, 7.'),
 'C03': ('proof', DED, 'PoseidonParams::new followed by Poseidon::permutation proved equal to the same specification as C02 by induction over the round numbers (all rp >= 1), quick: widths 2,3,4,5,6,8,12,16; thorough: 2 to 24. Uses the contract of mat_inverse (C10); rational identities by Schwartz-Zippel evaluation.'),
 'C04': ('proof', DED, 'Both GMiMC evaluations proved equal to the specification for all inputs, constants and round numbers, widths 2 to 24.'),
 'C05': ('proof', DED, 'Neptune::permutation on the parameters made by NeptuneParams::new proved equal to the specification for all draws, inputs and round numbers, even widths 2 to 24.'),
 'C06': ('proof', DED + ' plus lemmas and ground obligations on the shipped constants', 'Bijectivity of every shipped instance from the contracts of C01 to C05, gcd(d, p-1) = 1, non-zero determinants of the shipped matrices and round-inverse lemmas. The matrices drawn at run time for Neptune are assumed invertible.'),
 'C07': ('proof', DED, 'accumulate of the three field trees proved to return the root of the padded complete tree for every number of leaves and every compression function; frame included.'),
 'C08': ('proof', DED, 'accumulate of the digest tree proved for every number of leaves, every digest and an arbitrary state of the hasher object.'),
 'C09': ('proof', DED, 'compress of the four hashers proved against the contract of the permutation; instances of another width proved not to return.'),
 'C10': ('proof', DED, 'mat_inverse proved to return the inverse and to stop only where a leading principal minor vanishes, n = 1 to 24, debug and release MIR; rational identities by Schwartz-Zippel evaluation.'),
 'C11': ('proof', DED, 'mat_transpose, mat_vec_mul (both), mat_mat_mul and equivalent_round_constants (both, all round numbers) proved for dimensions up to 24.'),
 'C12': ('proof', DED, 'from_hex proved against the contracts of the hex crate and of from_be_bytes_mod_order.'),
 'C13': ('proof', DED + ' of the static initialisers against the Grain derivation', 'Every entry of every table and parameter set, obtained by running the initialisers in the verifier under the contract of from_hex, equals the independent Grain derivation; the compiled constants are compared as well.'),
 'C14': ('proof', DED, 'GmimcParams::new for all arguments and NeptuneParams::new for all arguments of even widths 2 to 24, all random draws; shipped instances against the documented round formulas.'),
 'C15': ('proof', DED, 'Wrong length: all lengths, widths, degrees and round numbers symbolic, both profiles. Right length: contracts of the permutations at representative widths.'),
 'C16': ('proof', DED, 'The four constructors for all arguments (Neptune: widths 1 to 24), both profiles; every accepted degree evaluated for all inputs.'),
 'C17': ('other', 'ground obligations on the compiled field constants (Lucas and Pratt certificates)', 'Modulus, primality, primitive root, two-adic root and trace decided completely; arithmetic of the field library is an assumed contract and only sampled.'),
 'C18': ('proof', DED + ' (frame obligations)', 'Every permutation, compression, clone and accumulate leaves everything reachable from its arguments unchanged, and returns a function of its arguments; threads follow because the parameters are shared immutably (safe Rust).'),
}
m = dict(version=1, setup_cmd='python3-vt mirvc/build.py',
         hooks=dict(guard='none (no change of /repo is needed)', enable='not applicable', source_commits=[]),
         checks=[dict(property=k, quick_cmd='./check.sh ' + k, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + k, technique=t, level=l, level_note=n) for k, (l, t, n) in N.items()],
         not_applicable=[],
         notes='Two defects of the original tree were repaired in /repo (fix: commits d0b6c6c, f9f6c36); see KNOWN_FINDINGS.txt and DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
