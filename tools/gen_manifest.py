#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'engine')]
NA = {
    'C30': 'quantifies over accumulated rounding error of run-time values; no sound static bound in reach is tight enough '
           'to separate correct code from wrong code (catastrophic cancellation makes the worst case unbounded); the building blocks are C35',
    'C31': 'quantifies over rounding error accumulated along run-time sequences of unbounded length; the exact-arithmetic '
           'part (every product carries its inverse) is C08',
}
REAL = ('Abstract interpretation of the MIR of the current tree with gated value numbering: decides the '
        'property for all inputs under exact real arithmetic (rounding is not modelled), with failure probability of an '
        'equality test below 2^-50 (random interpretation). Trusts rustc\'s MIR, the models of core/std functions and the '
        'input assumptions recorded in the evidence.')
FP = ('Abstract interpretation of the MIR of the current tree over IEEE floats in an order domain: decides the property for all '
      'inputs including rounding, overflow and signed zeros. Trusts rustc\'s MIR, the models of core/std functions, correct '
      'rounding of + - * / sqrt and the input assumptions recorded in the evidence.')
OTHER = {}


def main():
    checks, na = [], []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        if p in NA:
            na.append({'property': p, 'reason': NA[p]})
            continue
        if not os.path.exists(os.path.join(HERE, 'props', p.lower() + '.py')):
            na.append({'property': p, 'reason': 'check under construction'})
            continue
        m = importlib.import_module('props.' + p.lower())
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': getattr(m, 'TECHNIQUE', 'static analysis: abstract interpretation of MIR, gated value numbering with order and sign domains'),
            'level': 'other',
            'level_note': getattr(m, 'NOTE', FP if 'IEEE' in getattr(m, 'TECHNIQUE', '') else REAL),
        })
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 engine/dump.py setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
