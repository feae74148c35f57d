"""Write MANIFEST.json from properties.jsonl and the implemented checks."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(root, 'tools', 'levels.json')))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(root, 'harness', 'props',
                                   p.lower() + '.py')):
        checks.append(dict(
            property=p,
            quick_cmd='VERIF_TIER=quick bash check.sh %s' % p,
            thorough_cmd='VERIF_TIER=thorough bash check.sh %s' % p,
            technique='model-based verification: TLA+ specification checked '
            'with TLC, bound to the code by replaying specification '
            'behaviours and validating recorded traces with TLC',
            level='model_checking',
            level_note=NOTES.get(p, NOTES['default'])))
    else:
        na.append(dict(property=p, reason=NOTES.get(
            'na_' + p, 'check not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='none', enable='no hooks are needed',
                    source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
