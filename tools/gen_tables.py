"""fill the tables of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->) from tools/fixes.tsv and seeded/*/meta.json"""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()


def put(name, text):
    global s
    pat = re.compile(f'<!-- {name} -->.*?<!-- /{name} -->', re.S)
    assert pat.search(s), name
    s = pat.sub(lambda m: f'<!-- {name} -->\n{text}\n<!-- /{name} -->', s)


log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
sha = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
rows = ['| property | commit | defect |', '|---|---|---|']
for l in open(os.path.join(ROOT, 'tools/fixes.tsv')):
    if l.strip():
        prop, subj, what = l.rstrip('\n').split('\t')
        h = sha.get('fix: ' + subj) or sha.get(subj)
        rows.append(f'| {prop} | {h} | {what} |')
put('FIXES', '\n'.join(rows))
rows = ['| change | property | needs |', '|---|---|---|']
d = os.path.join(ROOT, 'seeded')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    rows.append(f'| {i} | {m["property"]} | {m["needs"]} |')
put('SEEDS', '\n'.join(rows))
open(p, 'w').write(s)
