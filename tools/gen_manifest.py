"""writes MANIFEST.json from the registry of scenarios (run by hand after adding a property)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'sim'))
import config, re

PY = '/opt/venv/bin/python'
import allprops
have = list(allprops.PROPS)
NA = {
    'C20': 'pure function of the grid: no schedule, clock, I/O, randomness or second party the property could depend on',
    'C21': 'pure function of two arrays: no schedule, clock, I/O, randomness or second party the property could depend on',
    'C22': 'pure function of the data and the normalisation vector: no schedule, clock, I/O, randomness or second party the property could depend on',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in have:
        c = config.PROPS[i]
        checks.append(dict(
            property=i,
            quick_cmd=f'{PY} sim/runner.py --property {i} --tier quick',
            thorough_cmd=f'{PY} sim/runner.py --property {i} --tier thorough',
            technique='deterministic simulation with fault injection (seeded schedules, crashes, I/O and clock faults '
                      'over a simulated MPI, storage and clock; reference-model oracle)',
            level=c['level'],
            level_note=c.get('note', 'seeded sample of scenarios and schedules; the library runs unmodified, MPI, '
                                     'clock and storage faults are simulated; see DESIGN.md')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks], [n['property'] for n in na])
