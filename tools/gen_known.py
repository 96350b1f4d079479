"""known_findings.json from the fix commits in /repo (subject -> property) plus open findings"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [l.rstrip('\n').split('\t') for l in open(os.path.join(ROOT, 'tools', 'fixes.tsv')) if l.strip()]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h\t%s', '--reverse'], text=True)
subj = {}
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if s.startswith('fix:'):
        subj[s[4:].strip()] = h
out = dict(fixed=[], findings=[])
for prop, s, what in FIX:
    out['fixed'].append(f'fixed: property={prop} {subj.pop(s)} {what}')
open_path = os.path.join(ROOT, 'tools', 'open_findings.json')
if os.path.exists(open_path):
    out['findings'] = json.load(open(open_path))
if subj:
    print('fix commits not described:', *[f'{h} {s}' for s, h in subj.items()], sep='\n  ')
json.dump(out, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
