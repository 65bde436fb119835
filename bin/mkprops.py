#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
from props import PROPS

def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), note='', tech=''):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None),
                _note=note, _tech=tech)

L = []
exec(open(os.path.join(HERE, 'bin', 'propdefs.py')).read())

TRUST = ('TLC decides every recorded trace against the specification; trusted: the specification itself, TLC, and the thin Go recorder '
         '(/verif/harness), which makes inputs and writes down what the real code did but judges nothing. Exhaustive only where noted; '
         'otherwise the inputs are generated from VERIF_SEED.')
out = []
checks = []
for p in L:
    note, tech = p.pop('_note'), p.pop('_tech')
    out.append(json.dumps(p))
    if p['id'] in PROPS:
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=tech or 'TLA+ specification with TLC; trace validation of the real code against it',
                           level=PROPS[p['id']].get('level', 'model_checking'), level_note=(note + ' ' if note else '') + TRUST))
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in L if p['id'] not in PROPS]
missing = set(PROPS) - {p['id'] for p in L}
assert not missing, missing
json.dump(dict(version=1, setup_cmd='bin/check setup',
               hooks=dict(guard='verif', enable='no hooks: the harness is a separate Go module that uses exported API only', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='TLA+ with TLC. See DESIGN.md.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json')); 
for l in out: jsonschema.validate(json.loads(l), S)
jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(out), 'properties', len(checks), 'checks', len(na), 'not claimed')
