"""Rewrite MANIFEST.json from the check modules present (run by hand)."""
import importlib, json, os
import mc.env  # noqa
INFO = json.load(open('manifest_info.json'))
checks, na = [], []
for line in open('properties.jsonl'):
    pid = json.loads(line)['id']
    if os.path.exists('checks/%s.py' % pid.lower()):
        mod = importlib.import_module('checks.' + pid.lower())
        i = INFO.get(pid, {})
        checks.append(dict(
            property=pid, quick_cmd='./run.sh %s quick' % pid,
            thorough_cmd='./run.sh %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=i.get('technique', getattr(mod, 'TECHNIQUE', 'bounded explicit-state exploration of the real code')),
            level=getattr(mod, 'LEVEL', 'model_checking'),
            level_note=i.get('note', getattr(mod, 'NOTE', 'Bounds: ' + mod.BOUNDS['quick']))))
    else:
        na.append(dict(property=pid, reason=INFO.get(pid, {}).get('na', 'Check not built yet.')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
