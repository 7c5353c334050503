"""Write properties.jsonl and MANIFEST.json from tools/props.py"""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS

NOTE = ('Exploration of generated inputs against an independent oracle, with shrinking; finds counterexamples, never proves their '
        'absence. Trusts numpy, scipy, the oracles in /verif and the tolerances stated in DESIGN.md.')
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        st = p['statement']
        n = len(re.findall(r'[.](?:\s|$)', st))
        if n > 3:
            print('statement of', p['id'], 'has', n, 'sentences')
        if len(p['title']) > 80:
            print('title of', p['id'], 'too long')
        for f in p['files']:
            if not os.path.exists('/repo/' + f):
                print(p['id'], 'no such file', f)
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': st,
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
        have = glob.glob(os.path.join(HERE, 'checks', p['id'].lower() + '_*.py'))
        if have:
            checks.append({'property': p['id'], 'quick_cmd': './run %s quick' % p['id'], 'thorough_cmd': './run %s thorough' % p['id'],
                           'technique': 'property-based testing (Hypothesis) against a reference model / invariants',
                           'level': 'exploration', 'level_note': p['level_note'] or NOTE})
        else:
            na.append({'property': p['id'], 'reason': 'no check has been built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'Property-based testing with a vendored copy of Hypothesis; see DESIGN.md.'}, fh, indent=1)
print(len(checks), 'checks')
