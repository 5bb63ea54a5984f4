"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from meta/*.json-like Python tables (meta/props.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
import props  # noqa: E402

TRUST = ('Sound up to: clang 18 lowering of the witness instantiations to LLVM IR, the primitive models of std:: types in '
         'sa/absint.py, and the listed assumptions of the evidence file; user code is opaque.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 sa/build.py setup',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 sa/check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 sa/check.py %s thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': (p['note'] + ' ' + TRUST).strip(),
    } for p in props.PROPS if 'na' not in p],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if 'na' in p],
    'notes': 'Static analysis only: path-sensitive abstract interpretation of LLVM IR obtained from /repo at every run, plus '
             'compile-time (type-level) witnesses. Nothing of stlab is executed by any check.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(props.PROPS), 'properties,', len(man['checks']), 'checks')
