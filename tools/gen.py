"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py (the single place where the
properties are worded)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalogue import PROPS, NOT_APPLICABLE, NOTES

TECH = ('abstract interpretation of the source (intervals, difference bounds, linear equalities, polynomial '
        'normal forms, state partitioning), guarded summaries compared with a reference definition')
LEVEL_NOTE = ('no execution and no solver: the current source is interpreted abstractly on every run; sound for the '
              'interpreted constructs up to the stated assumptions (exact arithmetic, stated sequence shapes); '
              'anything the analysis cannot interpret ends with exit 2, never with a pass')

out, checks = [], []
seen = set()
for p in PROPS:
    assert p['id'] not in seen and len(p['title']) <= 80, p['id']
    seen.add(p['id'])
    assert p['statement'].count('. ') <= 2, (p['id'], 'more than three sentences')
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': p.get('state', []),
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p.get('observe', []), 'hook_needed': None}})
    if p['id'] in NOT_APPLICABLE:
        continue
    if not os.path.exists(os.path.join(ROOT, 'mqa', 'props', p['id'] + '.py')):
        print('no check for', p['id'])
        continue
    checks.append({'property': p['id'], 'quick_cmd': './run %s --tier quick' % p['id'],
                   'thorough_cmd': './run %s --tier thorough' % p['id'],
                   'evidence_file': '/verif/evidence/%s.json' % p['id'],
                   'technique': p.get('technique', TECH), 'level': 'other',
                   'level_note': p.get('level_note', LEVEL_NOTE)})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q mqa specs', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
               'notes': NOTES}, f, indent=1)
    f.write('\n')
print(len(out), 'properties', len(checks), 'checks')
