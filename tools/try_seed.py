"""try planted changes: demo on clean and changed tree, stable tests, the property's check.
usage: try_seed.py ID... [--check-only] [--all-checks] [--count N]"""
import argparse, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
           OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', MPI4PY_MPIABI='openmpi',
           PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2', LC_ALL='C.UTF-8', MPLBACKEND='Agg')
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--check-only', action='store_true')
ap.add_argument('--demo-only', action='store_true')
ap.add_argument('--props', default='')
ap.add_argument('--count', default='')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
bad = 0
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = f'/tmp/seed-{i}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    out = [i, prop]
    try:
        r = subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stderr); bad += 1; continue
        # changed lines must be original ones
        if not a.check_only:
            t = time.time()
            c = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
            p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
            out.append(f'demo clean={c.returncode} planted={p.returncode} ({time.time()-t:.0f}s)')
            if c.returncode != 0:
                out.append('CLEAN DEMO FAILS: ' + (c.stdout + c.stderr)[-1500:])
            if p.returncode == 0:
                out.append('PLANTED DEMO PASSES')
            else:
                out.append('[' + (p.stdout + p.stderr).strip().splitlines()[-1][:150] + ']')
            bad += c.returncode != 0 or p.returncode == 0
            s = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/test_utils_serial.py', '-k',
                                'postproc_3d or weights_2d or weights_3d'], cwd=w, capture_output=True, text=True, env=ENV)
            m = subprocess.run(['mpiexec', '-n', '2', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--only-mpi',
                                'tests/test_utils_parallel.py', '-k', 'npy or pr0'], cwd=w, capture_output=True, text=True,
                               env=ENV)
            out.append(f'tests serial={s.returncode} mpi={m.returncode}')
            bad += bool(s.returncode or m.returncode)
        if not a.demo_only:
            for q in (a.props.split(',') if a.props else [prop]):
                t = time.time()
                cmd = [PY, 'sim/runner.py', '--property', q, '--tier', 'quick']
                if a.count:
                    cmd += ['--count', a.count]
                r = subprocess.run(cmd, cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, PYSPOD_SIM_REPO=w, VERIF_SEED='1'))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out.append(f'{q}: exit {r.returncode} {len(v)} violations ({time.time()-t:.0f}s)')
                bad += r.returncode != 1
                k = [l for l in r.stdout.splitlines() if l.strip()]
                out.append(' '.join(k[:3])[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(' | '.join(out), flush=True)
sys.exit(bool(bad))
