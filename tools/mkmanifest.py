#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
TODO = set()
NOTE = ('All inputs, no bound: contracts over rustc MIR of the current tree, discharged by Z3. Assumes f64 behaves as the real numbers (no rounding, NaN or infinity), '
        'usize sums do not overflow, user closures and opaque trait parameters are functions of their arguments, and models of std, ndarray and itertools (spaces is verified from its own MIR). '
        'A function the verifier cannot reach after a change is checked by a bounded concrete harness instead, reported as bounded in the evidence.')
EXTRA = {'C31': 'MIR of the crate built with its `serde` feature: the code the derive macros generate and the hand-written one; the formats themselves (they store and replay what they are given) and the impls of other crates are assumed. '}
checks = []
for p in props:
    i = p['id']
    if i in NA or i in TODO:
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
        technique='contracts on the real MIR, weakest-precondition style symbolic execution with inferred loop summaries, discharged by Z3',
        level='proof', level_note=EXTRA.get(i, '') + NOTE))
na = [dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=k, reason='contracts not written yet') for k in sorted(TODO)]
m = dict(version=1, setup_cmd='python3-vt -c "import sys; sys.path.insert(0, \'mirvc\'); import contracts_all"', checks=checks, not_applicable=na,
    notes='No hooks: the checks read private items from the compiler\'s MIR. Every check builds /repo from the current tree into /verif/.build.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
