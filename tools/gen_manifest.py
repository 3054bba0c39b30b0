import json, sys
sys.path.insert(0, '/verif')
import plan
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
CLAIMED = plan.CLAIMED
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
     'checks': [dict(property=p, quick_cmd='python3-vt check.py %s' % p,
                     thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p,
                     technique=plan.technique(p), level=plan.level(p), level_note=plan.note(p)) for p in props if p in CLAIMED],
     'not_applicable': [dict(property=p, reason=plan.reason(p)) for p in props if p not in CLAIMED],
     'notes': 'No hooks: /repo carries only fix: commits; contracts live in /verif/specs and are checked against the current '
              'source of /repo on every run.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
