#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from harness/<ID>/prop.json and not_applicable.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(root + '/harness/*/prop.json')):
    d = json.load(open(f))
    props.append({k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    assert len(d['title']) <= 80, d['id']
    checks.append({
        'property': d['id'],
        'quick_cmd': './run.sh %s quick' % d['id'],
        'thorough_cmd': './run.sh %s thorough' % d['id'],
        'technique': d.get('technique', 'symbolic execution of the real Go code (go/ssa) with SMT (z3), bounded'),
        'level': 'model_checking',
        'level_note': d['level_note'],
    })
nf = root + '/not_applicable.json'
if os.path.exists(nf):
    for d in json.load(open(nf)):
        props.append({k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
        na.append({'property': d['id'], 'reason': d['reason']})
open(root + '/properties.jsonl', 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
m = {'version': 1, 'setup_cmd': './run.sh --build', 'checks': checks, 'not_applicable': na,
     'notes': 'One engine (engine/, Go) symbolically executes the go/ssa form of /repo (loaded from source on every run) together with a harness from harness/<ID>/; see DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p, s)
    print('valid', len(props), len(checks))
except ImportError:
    print('written (not validated)')
