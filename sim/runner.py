"""Command line of the simulator.

  runner.py --property C01 --tier quick          run the seeded search
  runner.py --replay FILE                        run one recorded case again
  runner.py --case C01 17 [--log]                run one seed of the search, verbosely
"""
import argparse
import collections
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYSPOD_SIM_REPO', '/repo')
PY = os.environ.get('PYSPOD_SIM_PYTHON', '/opt/venv/bin/python')
KNOWN = os.path.join(VERIF, 'known_findings.json')
STALL_S = 90.0


def env():
    e = dict(os.environ)
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
        e[k] = '1'
    e.setdefault('PYTHONHASHSEED', '0')
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['MPLBACKEND'] = 'Agg'
    e['TF_CPP_MIN_LOG_LEVEL'] = '3'
    e['CUDA_VISIBLE_DEVICES'] = ''
    e['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    e['LC_ALL'] = 'C.UTF-8'
    e.pop('PYTHONPATH', None)
    return e


def scratch_base():
    for b in ('/dev/shm', '/tmp/sim'):       # same length: paths are part of some stored files
        try:
            os.makedirs(b, exist_ok=True)
            st = os.statvfs(b)
            if st.f_bavail * st.f_frsize > 300 << 20:
                t = os.path.join(b, f'w{os.getpid()}')
                os.mkdir(t)
                os.rmdir(t)
                return b
        except OSError:
            pass
    return '/tmp/sim'


# ---------------------------------------------------------------------------
# one case
# ---------------------------------------------------------------------------
def load():
    sys.path[:0] = [os.path.join(HERE, 'fakempi'), HERE, REPO]
    import harness
    import allprops as props
    return harness, props


def gen_case(props, prop, vseed, i):
    r = random.Random(f'{prop}/{vseed}/{i}')
    scn = props.PROPS[prop]['gen'](r)
    return json.loads(json.dumps(scn)), f'ch/{prop}/{vseed}/{i}'


def run_case(H, props, prop, scn, choices, root, keep_log=False):
    import core
    shutil.rmtree(root, ignore_errors=True)
    ctx = H.Ctx(scn, choices, root, keep_log)
    t0 = time.perf_counter()
    out = dict(st='ok')
    try:
        props.PROPS[prop]['run'](ctx)
    except core.Violation as v:
        out = dict(st='viol', vclass=v.vclass, msg=H.scrub(v.msg, root)[:600])
    except H.Skip:
        out = dict(st='skip')
    except core.Stall as s:
        out = dict(st='stall', vclass='stall', msg=str(s)[:300])
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        out = dict(st='harness', msg=f'{type(e).__name__}: {e}'[:300], tb=traceback.format_exc()[-3000:])
    out.update(digest=ctx.digest.hexdigest(), steps=ctx.steps, switches=ctx.switches, simtime=ctx.simtime,
               jobs=ctx.jobs, stats=ctx.stats, nch=len(choices.log), wall=time.perf_counter() - t0)
    if keep_log:
        out['log'] = [H.scrub(x, root) for x in ctx.log]
    if out['st'] != 'stall':
        os.chdir(os.path.dirname(root))
        shutil.rmtree(root, ignore_errors=True)
    return out


def start(scratch, prop=''):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (OSError, ValueError):
        pass
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    H, props = load()
    H.boot(scratch, extra=prop == 'C15')
    import core
    core.STALL_S = STALL_S
    return out, H, props, core


def worker(a):
    """stripe of seeds: a.start, a.start+a.step, ... ; a JSON line before and after each"""
    out, H, props, core = start(a.scratch, a.property)
    root = os.path.join(a.scratch, 'case')
    for i in range(a.start, a.count, a.step):
        out.write(json.dumps(dict(begin=i)) + '\n')
        scn, cs = gen_case(props, a.property, a.vseed, i)
        ch = core.Choices(cs)
        r = run_case(H, props, a.property, scn, ch, root)
        r['i'] = i
        if r['st'] in ('viol', 'stall'):
            r['choices'] = ch.log
            r['scn'] = scn
        out.write(json.dumps(r) + '\n')
        if r['st'] == 'stall':
            os._exit(3)
    out.write(json.dumps(dict(end=1)) + '\n')
    out.flush()
    os._exit(0)


# ---------------------------------------------------------------------------
# replay and minimisation (each in its own process)
# ---------------------------------------------------------------------------
def replay_main(a):
    with open(a.replay) as f:
        rp = json.load(f)
    base = a.scratch or os.path.join(scratch_base(), f'pyspod-sim-{os.getpid() % 10**7:07d}', 'w00')
    out, H, props, core = start(base, rp['property'])
    root = os.path.join(base, 'case')
    for i in rp.get('prelude', []):
        scn, cs = gen_case(props, rp['property'], rp['vseed'], i)
        run_case(H, props, rp['property'], scn, core.Choices(cs), root)
    ch = core.Choices(None, replay=rp['choices'])
    r = run_case(H, props, rp['property'], rp['scenario'], ch, root, keep_log=a.log)
    if a.json:
        out.write(json.dumps(r) + '\n')
    else:
        if a.log:
            for x in r.get('log', []):
                out.write(x + '\n')
        same = r.get('vclass') == rp['vclass'] and r['digest'] == rp['digest'] and r.get('msg') == rp['msg']
        if r['st'] in ('viol', 'stall'):
            out.write(f"VIOLATION property={rp['property']} replay={os.path.abspath(a.replay)}\n")
            out.write(f"  {r['vclass']}: {r['msg']}\n  exact reproduction: {same}\n")
        else:
            out.write(f"no violation ({r['st']}) {r.get('msg', '')}\n")
    out.flush()
    if not a.scratch:
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)
    os._exit({'viol': 1, 'stall': 1, 'ok': 0, 'skip': 0}.get(r['st'], 2))


SIMPLE = dict(strategy=['sticky'], clock=['normal'], weights=[None], read_fault=[None], serial=[True])


def edits(s, path=()):
    """candidate simplifications of a scenario, most drastic first"""
    import copy

    def put(fn):
        t = copy.deepcopy(s)
        fn(t)
        for q in ('pdata',):               # further data over the same points stays so
            if isinstance(s.get(q), dict) and isinstance(s.get('data'), dict):
                for k in ('xshape', 'nv'):
                    if s[q].get(k) == s['data'].get(k):
                        t[q][k] = copy.deepcopy(t['data'].get(k))
        return t if t != s else None
    for k in ('size', 'size2', 'size3', 'load_size'):
        if isinstance(s.get(k), int):
            for v in (1, 2, 3, s[k] - 1):
                if 0 < v < s[k] and not (s.get('split') and k == 'size'):
                    yield put(lambda t: t.__setitem__(k, v))
    for k, vs in SIMPLE.items():
        if k in s:
            for v in vs:
                yield put(lambda t: t.__setitem__(k, v))
    for k in ('faults', 'crashes', 'steps', 'ops', 'sizes'):
        if isinstance(s.get(k), list) and len(s[k]) > 1:
            for i in range(len(s[k])):
                yield put(lambda t: t[k].pop(i))
    for k in ('analyses', 'others'):
        if isinstance(s.get(k), list):
            for i in range(len(s[k])):
                yield put(lambda t: t[k].pop(i))
    if isinstance(s.get('mpi'), dict):
        for k, v in (('send_mode', 'eager'), ('coll_mode', 'full'), ('io_sync', 'full'), ('reduce', 'order')):
            yield put(lambda t: t['mpi'].__setitem__(k, v))
    if isinstance(s.get('fs'), dict):
        yield put(lambda t: t['fs'].__setitem__('bufsize', 8192))
    if isinstance(s.get('params'), dict):
        for k in list(s['params']):
            if k not in ('time_step', 'n_dft'):
                yield put(lambda t: t['params'].pop(k))
    d = s.get('data')
    if isinstance(d, dict):
        if d.get('form') not in ('array', 'mat', 'nc', None):
            yield put(lambda t: t['data'].update(form='array', cuts=[]))
        if d.get('cuts'):
            yield put(lambda t: t['data'].__setitem__('cuts', []))
            for i in range(len(d['cuts'])):
                yield put(lambda t: t['data']['cuts'].pop(i))
        for k, v in (('offset', 0.0), ('order', 'C'), ('npdtype', 'f8'), ('times', 'range')):
            if k in d and not (k == 'npdtype' and d.get('complex')):
                yield put(lambda t: t['data'].__setitem__(k, v))
        if d.get('complex'):
            yield put(lambda t: t['data'].update(complex=False, npdtype='f8', late_imag=False))
        if d.get('nv', 1) > 1 and s.get('weights') is None:
            yield put(lambda t: t['data'].__setitem__('nv', 1))
        if isinstance(d.get('xshape'), list):
            for i in range(len(d['xshape'])):
                if len(d['xshape']) > 1 and d['form'] != 'mat':
                    yield put(lambda t: t['data']['xshape'].pop(i))
                if d['xshape'][i] > 1:
                    yield put(lambda t: t['data']['xshape'].__setitem__(i, d['xshape'][i] - 1))
    for k in ('savefft', 'relative', 'padded', 'mpi4', 'svd', 'nreaders', 'item', 'nblocks'):
        if s.get(k):
            yield put(lambda t: t.__setitem__(k, None if k in ('nreaders', 'item', 'nblocks') else False))


def signature(r):
    """what two violations must share to be taken for one while a case is made smaller"""
    m = re.search(r'raised (\w+).*?( at [\w/]+\.py.*)?$', r['msg'], re.S) if r['vclass'] == 'exception' else None
    return (r['vclass'],) + (m.groups() if m else ())


def minimise_main(a):
    with open(a.minimise) as f:
        rp = json.load(f)
    out, H, props, core = start(a.scratch, rp["property"])
    root = os.path.join(a.scratch, 'case')
    end = time.time() + a.limit
    best = dict(rp)
    tried = 0

    def attempt(scn, replay):
        nonlocal tried
        tried += 1
        ch = core.Choices(None, replay=replay)
        try:
            r = run_case(H, props, rp['property'], scn, ch, root)
        except BaseException:
            return None
        if r['st'] == 'stall':
            os._exit(3)
        if r['st'] == 'viol' and signature(r) == signature(rp):
            return dict(best, scenario=scn, choices=trim(ch.log), msg=r['msg'], digest=r['digest'], steps=r['steps'])
        return None

    def trim(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    def save():
        tmp = a.minimise + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(best, minimise_runs=tried), f)
        os.replace(tmp, a.minimise)

    for replay in ([], best['choices']):
        b = attempt(best['scenario'], replay)
        if b:
            best = b
            break
    save()
    changed = True
    while changed and time.time() < end:
        changed = False
        for s in edits(best['scenario']):
            if time.time() > end:
                break
            if s is None:
                continue
            for replay in ([], best['choices']) if best['choices'] else ([],):
                b = attempt(s, replay)
                if b:
                    best = b
                    save()
                    changed = True
                    break
            if changed:
                break
    # shrink the schedule
    n = max(1, len(best['choices']) // 2)
    while n >= 1 and time.time() < end:
        i = 0
        while i < len(best['choices']) and time.time() < end:
            c = list(best['choices'])
            if any(c[i:i + n]):
                c[i:i + n] = [0] * len(c[i:i + n])
                b = attempt(best['scenario'], c)
                if b:
                    best = b
                    save()
            i += n
        if n == 1:
            break
        n //= 2
    # final: drop the recorded tail
    b = attempt(best['scenario'], best['choices'])
    if b:
        best = b
    save()
    os._exit(0)


# ---------------------------------------------------------------------------
# the search
# ---------------------------------------------------------------------------
class Pool:
    def __init__(self, prop, vseed, count, nw, scratch, known=()):
        self.known = known
        self.prop, self.vseed, self.count, self.nw, self.scratch = prop, vseed, count, nw, scratch
        self.lock = threading.Lock()
        self.results = []
        self.viol = []
        self.harness = []
        self.active = [None] * nw
        self.stop = False
        self.procs = [None] * nw
        self.threads = []
        self.deaths = 0

    def spawn(self, k, start):
        d = os.path.join(self.scratch, f'w{k:02d}')
        os.makedirs(d, exist_ok=True)
        err = open(os.path.join(self.scratch, f'err{k}'), 'ab')
        return subprocess.Popen([PY, os.path.abspath(__file__), '--worker', '--property', self.prop, '--vseed',
                                 str(self.vseed), '--start', str(start), '--step', str(self.nw), '--count',
                                 str(self.count), '--scratch', d], stdout=subprocess.PIPE, stderr=err, env=env(),
                                cwd=d, text=True)

    def run_stripe(self, k):
        nxt = k
        while nxt < self.count and not self.stop:
            p = self.spawn(k, nxt)
            self.procs[k] = p
            cur, done = None, False
            self.active[k] = (time.time() + 60, None)
            for line in p.stdout:
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if 'begin' in m:
                    cur = m['begin']
                    self.active[k] = (time.time(), cur)
                elif 'end' in m:
                    done = True
                else:
                    cur = None
                    nxt = m['i'] + self.nw
                    self.active[k] = (time.time(), None)
                    with self.lock:
                        self.results.append(m)
                        if m['st'] in ('viol', 'stall'):
                            self.viol.append(m)
                        elif m['st'] == 'harness':
                            self.harness.append(m)
            p.wait()
            self.active[k] = None
            if done or self.stop:
                return
            if cur is not None:            # died inside a case
                with self.lock:
                    m = dict(i=cur, st='died', vclass='died', msg=f'the process died (status {p.returncode})',
                             digest='', steps=0, switches=0, simtime=0, jobs=0, stats={}, nch=0, wall=0)
                    self.results.append(m)
                    self.viol.append(m)
                    self.deaths += 1
                nxt = cur + self.nw
            elif nxt >= self.count:
                return
            elif p.returncode != 3:
                with self.lock:
                    self.deaths += 1
                    if self.deaths > 20:
                        self.harness.append(dict(i=nxt, st='harness', msg=f'worker does not start ({p.returncode})'))
                        return

    def run(self, maxwall):
        t0 = time.time()
        for k in range(self.nw):
            t = threading.Thread(target=self.run_stripe, args=(k,), daemon=True)
            t.start()
            self.threads.append(t)
        first = None
        while any(t.is_alive() for t in self.threads):
            time.sleep(0.05)
            now = time.time()
            for k, a in enumerate(self.active):
                if a and a[1] is not None and now - a[0] > STALL_S + 60 and self.procs[k].poll() is None:
                    self.procs[k].kill()
            with self.lock:
                # a listed finding does not end the search
                n = sum(not known_match(self.known, self.prop, m) for m in self.viol)
            if n and first is None:
                first = now
            if (first and (now - first > 12 or n >= 12)) or now - t0 > maxwall or len(self.harness) > 5:
                break
        truncated = any(t.is_alive() for t in self.threads)
        self.stop = True
        for p in self.procs:
            if p is not None and p.poll() is None:
                p.kill()
        for t in self.threads:
            t.join(5)
        return truncated


def sub(args, scratch, limit):
    """run this file again in a fresh process"""
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return subprocess.run([PY, os.path.abspath(__file__)] + args + ['--scratch', scratch], env=env(), cwd=scratch,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None


def fresh(path, scratch, limit):
    p = sub(['--replay', path, '--json'], scratch, limit)
    if p is None:
        return dict(st='stall', vclass='stall', msg=f'no answer within {limit} s', digest='')
    for line in p.stdout.splitlines():
        try:
            return json.loads(line)
        except ValueError:
            pass
    if p.returncode < 0:
        return dict(st='died', vclass='died', msg=f'the process died (status {p.returncode})', digest='')
    return dict(st='harness', msg=(p.stderr or '')[-500:])


def norm(m):
    return m['vclass'] + ' ' + re.sub(r"[-+]?\d[\d.e+-]*", "#", m["msg"])[:90]


def known_match(known, prop, m):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['vclass'] == m['vclass'] and \
                re.search(k['match'], m['msg']):
            return k
    return None


def check(a):
    t0 = time.time()
    sys.path[:0] = [HERE]
    import config
    prop = a.property
    vseed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    cf = config.PROPS[prop]
    count = a.count or cf[tier]
    nw = a.workers or min(8, os.cpu_count() or 1)
    maxwall = 560 if tier == 'quick' else cf.get('thorough_wall', 3000)
    if a.maxwall:
        maxwall = a.maxwall
    scratch = os.path.join(scratch_base(), f'pyspod-sim-{os.getpid() % 10**7:07d}')
    os.makedirs(scratch, exist_ok=True)
    code = 2
    try:
        code = check2(a, t0, config, prop, vseed, tier, cf, count, nw, maxwall, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def check2(a, t0, config, prop, vseed, tier, cf, count, nw, maxwall, scratch):
    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            known = json.load(f)['findings']
    pool = Pool(prop, vseed, count, nw, scratch, known)
    truncated = pool.run(maxwall)
    viols = sorted(pool.viol, key=lambda m: (m['st'] != 'viol', m['i']))
    seen_known = {}
    groups = collections.OrderedDict()
    for m in viols:
        k = known_match(known, prop, m)
        if k:
            seen_known.setdefault(k['id'], (k, []))[1].append(m['i'])
        else:
            groups.setdefault(norm(m), []).append(m)
    reported = []
    unconfirmed = []
    rdir = os.path.join(VERIF, 'replays')
    tconf = time.time()
    for g, ms in groups.items():
        if len(reported) >= 2 or time.time() - tconf > 200:
            break
        for m in ms[:3]:
            r = confirm(m, prop, vseed, nw, scratch, rdir, a)
            if r:
                reported.append(r)
                break
            unconfirmed.append(m)
            if time.time() - tconf > 200:
                break
    for k, (kf, idx) in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {kf['what']} (seeds {idx[:5]})")
    for r in reported:
        print(f"VIOLATION property={prop} replay={r['path']}")
        print(f"  {r['vclass']}: {r['msg']}")
        print(f"  seed {vseed}/{r['i']}, {r['steps']} scheduler steps, {len(r['choices'])} recorded choices, "
              f"exact replay in a fresh process: {r['exact']}")
    evidence(a, t0, config, prop, vseed, tier, cf, count, nw, pool, truncated, reported, seen_known, unconfirmed)
    ok = [r for r in pool.results if r['st'] in ('ok', 'skip', 'viol', 'stall', 'died')]
    print(f"{prop} {tier}: {len(ok)} of {count} simulated cases in {time.time() - t0:.1f} s, "
          f"{len(viols)} violating, {len(reported)} reported, {len(pool.harness)} harness errors"
          + (', stopped early' if truncated else ''))
    if reported:
        return 1
    if pool.harness:
        for m in pool.harness[:3]:
            print('HARNESS ERROR', m['i'], m['msg'], m.get('tb', ''))
        return 2
    if unconfirmed:
        for m in unconfirmed[:3]:
            print('UNCONFIRMED (did not replay)', m['i'], m['vclass'], m['msg'])
        return 2
    if len(ok) < min(30, count):
        print('too few cases finished')
        for k in range(nw):
            try:
                with open(os.path.join(scratch, f'err{k}')) as f:
                    print(f.read()[-800:])
            except OSError:
                pass
        return 2
    return 0


def confirm(m, prop, vseed, nw, scratch, rdir, a):
    """replay in a fresh process, minimise, replay again; returns the report"""
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{prop}-{vseed}-{m["i"]}.json')
    if 'scn' not in m:                     # process died: choices unknown, use the seed
        H = None
        p = sub(['--describe', prop, str(vseed), str(m['i'])], os.path.join(scratch, 'd00'), 120)
        if p is None or not p.stdout.strip():
            return None
        m['scn'] = json.loads(p.stdout.strip().splitlines()[-1])
        m['choices'] = []
    rp = dict(property=prop, vseed=vseed, i=m['i'], scenario=m['scn'], choices=m['choices'], vclass=m['vclass'],
              msg=m['msg'], digest=m['digest'], steps=m['steps'])

    def write(d):
        with open(path, 'w') as f:
            json.dump(d, f)
    write(rp)
    limit = STALL_S + 60
    r = fresh(path, os.path.join(scratch, 'r00'), limit)
    bad = ('viol', 'stall', 'died')
    if r['st'] not in bad:
        # depends on what ran earlier in the same process?
        stripe = list(range(m['i'] % nw, m['i'], nw))
        for pre in (stripe[-3:], stripe[-40:]):
            if not pre:
                continue
            rp['prelude'] = pre
            write(rp)
            r = fresh(path, os.path.join(scratch, 'r00'), limit)
            if r['st'] in bad:
                break
        if r['st'] not in bad:
            os.unlink(path)
            return None
    rp.update(vclass=r['vclass'], msg=r['msg'], digest=r['digest'])
    write(rp)
    best = dict(rp)
    if not a.no_minimise and 'prelude' not in rp and r['st'] == 'viol':
        mp = path + '.min'
        with open(mp, 'w') as f:
            json.dump(rp, f)
        sub(['--minimise', mp, '--limit', '35'], os.path.join(scratch, 'm00'), 35 + STALL_S)
        try:
            with open(mp) as f:
                c = json.load(f)
            write(c)
            r2 = fresh(path, os.path.join(scratch, 'r00'), limit)
            if r2['st'] in bad and r2['vclass'] == c['vclass']:
                c.update(msg=r2['msg'], digest=r2['digest'])
                best = c
                r = r2
        except (OSError, ValueError):
            pass
        for x in (mp, mp + '.tmp'):
            if os.path.exists(x):
                os.unlink(x)
    write(best)
    r3 = fresh(path, os.path.join(scratch, 'r01'), limit)
    best['exact'] = r3.get('digest') == best['digest'] and r3.get('msg') == best['msg']
    best['path'] = path
    return best


def evidence(a, t0, config, prop, vseed, tier, cf, count, nw, pool, truncated, reported, seen_known, unconfirmed):
    res = pool.results
    wall = time.time() - t0
    stats = collections.Counter()
    for r in res:
        for k, v in r['stats'].items():
            stats[k] += v
    digs = set()
    nontriv = 0
    for r in res:
        if r['st'] in ('ok', 'viol') and r['digest'] not in digs:
            digs.add(r['digest'])
            if r['switches'] >= 2 or r['jobs'] > 1 or any(k.startswith('fault.') for k in r['stats']):
                nontriv += 1
    ok = [r for r in res if r['st'] in ('ok', 'viol', 'stall', 'died')]
    samples = []
    try:
        p = sub(['--describe', prop, str(vseed)] + [str(i) for i in sorted(r['i'] for r in ok)[:3]],
                os.path.join(pool.scratch, 'd01'), 120)
        byi = {r['i']: r for r in ok}
        for i, line in zip(sorted(r['i'] for r in ok)[:3], p.stdout.strip().splitlines()):
            samples.append(dict(seed=f'{vseed}/{i}', scenario=json.loads(line), event_digest=byi[i]['digest'],
                                scheduler_steps=byi[i]['steps'], context_switches=byi[i]['switches'],
                                outcome=byi[i]['st'], faults={k: v for k, v in byi[i]['stats'].items()
                                                              if k.startswith('fault.')}))
    except Exception as e:
        samples.append(dict(error=str(e)))
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    cov = dict(
        evaluations=len(ok), distinct_nontrivial=nontriv,
        rule='A case is a scenario (workload, process counts, settings, fault plan) and a schedule, both drawn from '
             'VERIF_SEED/index; two cases are distinct when the hashes over all their scheduler events differ; a case '
             'is non-trivial when processes interleaved (at least two context switches), or it spans several jobs, or '
             'an injected fault fired.',
        samples=samples,
        requested=count, stopped_early=truncated, skipped=sum(r['st'] == 'skip' for r in res),
        runs_per_hour=int(len(ok) / max(wall, 1e-9) * 3600), seeds_per_hour=int(len(ok) / max(wall, 1e-9) * 3600),
        simulated_jobs=sum(r['jobs'] for r in res),
        simulated_seconds=round(sum(r['simtime'] for r in res), 3),
        scheduler_steps=sum(r['steps'] for r in res), context_switches=sum(r['switches'] for r in res),
        recorded_choices=sum(r['nch'] for r in res), distinct_interleavings=len(digs),
        interleaving_measure='distinct hashes over the ordered list of all scheduling points, message deliveries, '
                             'storage operations and faults of the case',
        faults_injected=faults,
        storage_operations={k[3:]: v for k, v in sorted(stats.items()) if k.startswith('fs.')},
        clock_reads=stats.get('clock_reads', 0),
        messages={k[4:]: v for k, v in sorted(stats.items()) if k.startswith('mpi.')},
        reached={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe.')},
        real_components=cf['real'], stub_components=config.STUBS, workers=nw,
        known_findings=[dict(id=k, seeds=v[1][:20]) for k, v in seen_known.items()],
        reported=[dict(path=r['path'], vclass=r['vclass'], msg=r['msg'], exact=r['exact']) for r in reported],
        unconfirmed=len(unconfirmed))
    ev = dict(property=prop, tier=tier, seed=vseed, level=cf['level'], coverage=cov, assumptions=config.ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(reported))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f'{prop}.json'))


def describe(a):
    H, props = load()
    for i in a.describe[2:]:
        scn, _ = gen_case(props, a.describe[0], int(a.describe[1]), int(i))
        print(json.dumps(scn))


def case_main(a):
    base = os.path.join(scratch_base(), f'pyspod-sim-{os.getpid() % 10**7:07d}', 'w00')
    out, H, props, core = start(base, a.case[0])
    lo, hi = int(a.case[1]), int(a.case[-1]) + 1
    c = collections.Counter()
    ex = {}
    t0 = time.time()
    stats = collections.Counter()
    for i in range(lo, hi):
        scn, cs = gen_case(props, a.case[0], a.vseed, i)
        r = run_case(H, props, a.case[0], scn, core.Choices(cs), os.path.join(base, 'case'), keep_log=a.log)
        k = r['st'] + ' ' + (norm(r) if 'vclass' in r else r.get('msg', ''))
        c[k] += 1
        for q, v in r['stats'].items():
            stats[q] += v
        if k not in ex:
            ex[k] = (i, r.get('msg', ''), r.get('tb', ''))
        if hi - lo == 1:
            out.write(json.dumps(scn) + '\n')
            for x in r.get('log', []):
                out.write(x + '\n')
            out.write(json.dumps({q: v for q, v in r.items() if q != 'log'}, indent=1) + '\n')
        if r['st'] == 'stall':
            out.write(f'stall at {i}\n')
            break
    for k, v in c.most_common():
        out.write(f'{v:5d} {k[:100]} first={ex[k][0]} {ex[k][1][:400]}\n{ex[k][2]}\n')
    out.write(f'{time.time() - t0:.1f} s\n')
    out.write(' '.join(f'{k}={v}' for k, v in sorted(stats.items()) if k.startswith(('probe', 'fault'))) + '\n')
    out.flush()
    shutil.rmtree(os.path.dirname(base), ignore_errors=True)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--count', type=int, default=0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--maxwall', type=float, default=0)
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--json', action='store_true')
    ap.add_argument('--log', action='store_true')
    ap.add_argument('--case', nargs='+')
    ap.add_argument('--describe', nargs='+')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--minimise')
    ap.add_argument('--limit', type=float, default=40)
    ap.add_argument('--vseed', type=int, default=1)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--scratch')
    a = ap.parse_args()
    if a.worker:
        return worker(a)
    if a.minimise:
        return minimise_main(a)
    if a.describe:
        return describe(a)
    if (a.replay or a.case) and not os.environ.get('PYSPOD_SIM_ENV'):
        # fixed environment also when called by hand
        if sys.executable != PY or os.environ.get('OMP_NUM_THREADS') != '1':
            e = env()
            e['PYSPOD_SIM_ENV'] = '1'
            os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)
    if a.replay:
        return replay_main(a)
    if a.case:
        return case_main(a)
    sys.stdout.reconfigure(line_buffering=True)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        return check(a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == '__main__':
    sys.exit(main())
