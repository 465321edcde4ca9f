#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(D + '/properties.jsonl')]
ORACLE = {
 'A': ('property-based testing against a two-dimensional reference model in double-double arithmetic', 'matrix and vector answers against the mathematical definition'),
 'Q': ('property-based testing against quaternion algebra and Rodrigues rotation in double-double arithmetic', 'quaternion answers against the algebraic definition'),
 'B': ('property-based testing against interval arithmetic on the corner points', 'boxes against exact minima and maxima'),
 'S': ('property-based testing against the extreme points of the exact shape', 'support and shape data against the construction data'),
 'V': ('property-based testing against a model of the tolerance', 'tolerance answers and state against a model'),
 'I': ('property-based testing against exact geometry with rounding bands', 'answer and location of both query directions against exact geometry in double-double arithmetic; inside the rounding band nothing is judged, and integer lattice cases pin the closed boundary'),
}
SPECIAL = {
 'A04': ('stateful model-based property testing', 'random histories of writes, transpositions and rebuilds against a two-dimensional array'),
 'V01': ('stateful model-based property testing', 'random histories of tolerance settings against a model'),
 'I13': ('property-based testing against exact geometry with counted support evaluations', 'answers in both orders against the exact gap; non-termination is a bound of 4000 support evaluations'),
 'X01': ('metamorphic property testing (operand swap, box and location consistency)', 'both directions of each of the 12 supported pairs against each other'),
 'Q09': ('stateful model-based and differential property testing', 'histories of rigid motions as quaternion plus translation, as matrix and in a reference, compared on points'),
 'X03': ('metamorphic property testing (signed axis permutations, scaling, translation)', 'answers, locations, boxes and supports of a scene against those of its moved copy'),
 'X04': ('metamorphic and differential property testing between queries', 'related queries of the library against each other; exact geometry only sets aside what is within rounding'),
 'E01': ('fuzzing of requests within and outside the contract', 'refusal by panic against answer, and constructed truth for the pairs without a query'),
 'X05': ('stateful metamorphic property testing against operands built afresh', 'histories of up to 30 algebra operations of 50 kinds on shared values, every result bit-compared with fresh operands'),
 'X02': ('stateful metamorphic property testing against freshly built shapes', 'histories of up to 30 steps on up to 8 shapes, every answer bit-compared with fresh shapes'),
}
checks = []
for p in P:
    t, n = SPECIAL.get(p['id']) or ORACLE[p['id'][0]]
    checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'],
        thorough_cmd='./check.sh ' + p['id'] + ' --tier thorough',
        evidence_file='evidence/%s.json' % p['id'], technique=t, level='exploration',
        level_note='Generated-input search (random structured generation, then coverage-guided mutation of the generator tapes): ' + n + '. Assurance is that of the sampled inputs (counts, classes and samples in the evidence); trusted: the harness oracle, its stated rounding bounds and the platform\'s IEEE arithmetic.'))
json.dump(dict(version=1, setup_cmd='./check.sh --build', checks=checks, not_applicable=[],
    notes='No hooks: everything is reached through public items. Replay a failure with ./check.sh <ID> --replay <file>.'),
    open(D + '/MANIFEST.json', 'w'), indent=1)
open(D + '/MANIFEST.json', 'a').write('\n')
