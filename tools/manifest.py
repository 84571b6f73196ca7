#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing: '
T = {
 'S01': ('generated operand types x values against exact 128-bit arithmetic', ''),
 'S02': ('generated operand types x values against exact 128-bit arithmetic', ''),
 'S03': ('generated operand types x values; invariant on every result, bounds against exact interval arithmetic', ''),
 'S04': ('random expression programs against an exact evaluator', ''),
 'S05': ('generated operand types x values against exact comparison', ''),
 'S06': ('generated operand types x values x counts against exact shifts', ''),
 'S07': ('differential against the built-in operators, followed by a generated conversion', ''),
 'S08': ('generated source/destination pairs x values against exact membership', ''),
 'S09': ('stateful model-based testing: random operation histories against an exact model', ''),
 'S10': ('generated failing and succeeding operations under a recording policy against a reference classification', ''),
 'S11': ('differential: ignoring policy against wrapping built-in arithmetic', ''),
 'S12': ('exhaustive 8-bit and generated wider operands against exact arithmetic', ''),
 'S13': ('exhaustive 8-bit and generated operands against an extended-integer (set of meanings) model', 'KF1 is the one listed finding. '),
 'S14': ('exhaustive 8-bit and generated operands against a set-of-meanings model; metamorphic consistency', ''),
 'S15': ('generated intervals and member points; enclosure and attained-bounds invariants', ''),
 'S16': ('generated intervals and points against the sets denoted', ''),
 'S17': ('exhaustive 8-bit and generated pairs against exact comparison', ''),
 'S18': ('grammar-based text generation against a reference parser; round trip', ''),
 'S19': ('generated machines x operand types x values against a model of the C++ conversion rules', 'KF2 is the one listed finding. '),
 'S20': ('generated constant expressions, compiled: metamorphic compile time / run time agreement', ''),
 'S21': ('generated literals x safe types x operators; metamorphic against one-point ranges, exact oracle', ''),
 'S22': ('generated programs; compile accept/reject against run-time failure search and exact ranges', ''),
 'S23': ('generated programs; compile accept/reject against a reference of policies and ranges', ''),
 'S24': ('exhaustive over error codes, generated failures; differential throwing against recording policy', ''),
 'S25': ('generated operations, histories and primitives run under UBSan/ASan', ''),
 'S26': ('exhaustive 8/16-bit and generated values against reference bit arithmetic', ''),
 'S28': ('generated types, values, intervals and codes printed and compared with text made from exact numbers', ''),
 'S29': ('generated floating-point values x destinations against exact truncation', ''),
 'S30': ('generated programs of several translation units (headers, orders, compilers, dialects); differential between units and against exact values', 'KF3 is the one listed finding. '),
 'S31': ('random programs (model-based: the same program over safe integers and over an independent model of an integer type)', ''),
 'S32': ('generated promotion policies x operand types x values against exact arithmetic', ''),
 'S27': ('generated operator instantiations against a reference of the promotion rules', ''),
}
NOTE = ('Generated-input search: no violation among the cases counted in the evidence (8-bit operand pairs are exhaustive where the evidence says so), '
        'no claim beyond them. Trusts the reference model in harness/ (128-bit integers) and g++/clang++ of the sandbox. ')
m = dict(version=1, setup_cmd='true',
 checks=[dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --tier thorough' % k,
              evidence_file='evidence/%s.json' % k, technique=PBT + v[0], level='exploration', level_note=(NOTE + v[1]).strip()) for k, v in sorted(T.items())],
 not_applicable=[],
 notes='No hooks: everything is observed through the public headers. Known findings: known-findings.json.')
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
assert sorted(T) == sorted(ids)
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
