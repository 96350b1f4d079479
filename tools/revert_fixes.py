"""revert every fix: commit of /repo in a scratch clone; the check of its property has to report it.
usage: revert_fixes.py [subject-substring]"""
import csv, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
want = sys.argv[1] if len(sys.argv) > 1 else ''
rows = [l.rstrip('\n').split('\t') for l in open(os.path.join(ROOT, 'tools/fixes.tsv')) if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
sha = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
bad = 0
for prop, subj, what in rows:
    if want not in subj:
        continue
    h = sha.get('fix: ' + subj) or sha.get(subj)
    if not h:
        print(prop, subj, 'NO COMMIT'); bad += 1; continue
    w = f'/tmp/revert-{os.getpid()}'
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    t = time.time()
    try:
        r = subprocess.run(['git', '-C', w, 'revert', '-n', h], capture_output=True, text=True)
        if r.returncode:
            print(f'{prop} | {subj} | conflict with later fixes', flush=True)
            continue
        z = subprocess.run([PY, 'sim/runner.py', '--property', prop, '--tier', 'quick', '--no-minimise'], cwd=ROOT, capture_output=True,
                           text=True, env=dict(os.environ, PYSPOD_SIM_REPO=w, VERIF_SEED='1'))
        k = [l for l in z.stdout.splitlines() if l.strip()]
        print(f'{prop} | {subj} | exit {z.returncode} | {time.time()-t:.0f}s | {" ".join(k)[:160]}', flush=True)
        bad += z.returncode != 1
    finally:
        shutil.rmtree(w, ignore_errors=True)
print('problems:', bad)
