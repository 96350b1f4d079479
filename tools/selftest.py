"""trust in the simulator: conformance of the MPI model with the installed MPI, and determinism of simulated runs.
usage: selftest.py [--conform] [--determinism [N]]"""
import json, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
           OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', MPI4PY_MPIABI='openmpi',
           PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', MPLBACKEND='Agg')


def simulated(n, seed, folder):
    code = f'''
import sys, json, os
out = os.fdopen(os.dup(1), 'w')
sys.path[:0] = [{ROOT + "/sim/fakempi"!r}, {ROOT + "/sim"!r}, "/repo", {HERE!r}]
import harness as H, core, conform, random
H.boot({folder!r})
r = random.Random({seed})
scn = dict(strategy=r.choice(core.STRATEGIES), mpi=dict(send_mode=r.choice(['rendezvous', 'random', 'eager']),
     coll_mode=r.choice(['full', 'min', 'random']), io_sync=r.choice(['min', 'full']), reduce=r.choice(['order', 'random'])))
ctx = H.Ctx(scn, core.Choices({seed}), {folder!r} + '/case')
j = ctx.job({n}, lambda rank, comm: conform.program(H.M.MPI, comm, ctx.root))
print('RESULT ' + json.dumps(j.results), file=out, flush=True)
os._exit(0)
'''
    e = dict(ENV, PYTHONHASHSEED='0')
    r = subprocess.run([PY, '-c', code], capture_output=True, text=True, env=e)
    return result(r)


def result(r):
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            return json.loads(l[7:])
    print(r.returncode, r.stdout[-2000:], r.stderr[-3000:])
    sys.exit('no result')


def conform():
    bad = 0
    for n in (3, 4, 5):
        t = tempfile.mkdtemp()
        want = result(subprocess.run(['mpiexec', '-n', str(n), PY, os.path.join(HERE, 'conform.py'), t], capture_output=True, text=True,
                                     env=ENV))
        shutil.rmtree(t)
        for seed in range(8):
            t = tempfile.mkdtemp(dir='/dev/shm')
            got = simulated(n, seed, t)
            shutil.rmtree(t)
            for rk in range(n):
                for k in want[rk].keys() | got[rk].keys():
                    if want[rk].get(k) != got[rk].get(k):
                        bad += 1
                        print(f'n={n} seed={seed} rank={rk} {k}: MPI {want[rk].get(k)} simulator {got[rk].get(k)}')
        print(f'{n} processes: {len(want[0])} groups of operations compared under 8 schedules', flush=True)
    return bad


def batch(prop, n, hashseed, step):
    sys.path.insert(0, os.path.join(ROOT, 'sim'))
    import runner
    out = {}
    ps = []
    for k in range(step):
        sc = os.path.join('/dev/shm', f'pyspod-det-{os.getpid() % 10000:04d}{k}')
        shutil.rmtree(sc, ignore_errors=True)
        os.makedirs(sc)
        e = runner.env()
        e['PYTHONHASHSEED'] = hashseed
        ps.append((sc, subprocess.Popen([PY, os.path.join(ROOT, 'sim/runner.py'), '--worker', '--property', prop, '--count', str(n),
                                         '--start', str(k), '--step', str(step), '--scratch', sc], stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, text=True, env=e)))
    for sc, p in ps:
        for l in p.communicate()[0].splitlines():
            d = json.loads(l)
            if 'i' in d:
                out[d['i']] = (d['st'], d.get('msg'), d['digest'], d['steps'], d['switches'], d['nch'], d['simtime'],
                               sorted(d['stats'].items()))
        shutil.rmtree(sc, ignore_errors=True)
    return out


def determinism(n):
    bad = 0
    for q in [f'C{i:02d}' for i in range(1, 16)]:
        m = n if q != 'C15' else max(8, n // 8)
        a = batch(q, m, '0', 1)
        b = batch(q, m, '12345', 3)
        diff = [i for i in range(m) if a.get(i) != b.get(i)]
        bad += len(diff) + (len(a) != m)
        print(f'{q}: {m} seeds run twice (1 and 3 workers, other hash seed): {len(diff)} differ', diff[:5], flush=True)
        for i in diff[:1]:
            for x, y in zip(a.get(i) or (), b.get(i) or ()):
                if x != y:
                    print('   ', str(x)[:300], '|', str(y)[:300])
    return bad


if __name__ == '__main__':
    a = sys.argv[1:]
    bad = 0
    if '--conform' in a or not a:
        bad += conform()
    if '--determinism' in a or not a:
        bad += determinism(int(a[-1]) if a and a[-1].isdigit() else 60)
    print('differences:', bad)
    sys.exit(bool(bad))
