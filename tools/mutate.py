"""systematic mutation of pyspod: small changes of executed lines, each tried against the checks that execute the line.
usage: mutate.py COV.json OUT.jsonl [--sample N] [--seed S] [--jobs J] [--count N] [--files a,b]
COV.json comes from coverage.py. Results: one JSON line per mutant (killed by which property, or survived)."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RATE = dict(C01=1, C02=1.4, C03=.8, C04=1.6, C05=.4, C06=1, C07=1.5, C08=1, C09=2, C10=2, C11=3, C12=2, C13=.4, C14=1.5, C15=12, C16=1.5)


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.out = []
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.fn = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append(dict(a=a, b=b, new=new, kind=kind, line=n.lineno, fn='.'.join(self.fn)))

    def quiet(self, n):
        """printing statements"""
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            return name in ('print', '_pr0', 'pr0', 'print_parameters', 'utils_par_pr0', 'flush', '_print')
        return isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert))

    def visit(self, n):
        if isinstance(n, ast.stmt) and self.quiet(n):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.fn.append(n.name)
            for x in n.body:
                self.visit(x)
            self.fn.pop()
            return
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)):
            self.add(n, 'pass', 'delete')
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript,)):
            self.add(n, 'pass', 'delete')
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Call, ast.BinOp)):
            # reassignment x = f(x)
            nm = n.targets[0].id
            if any(isinstance(k, ast.Name) and k.id == nm for k in ast.walk(n.value)):
                self.add(n, 'pass', 'delete')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) :
            t = self.text(n.test)
            self.add(n.test, f'(not ({t}))', 'negate')
            self.add(n.test, f'(False and ({t}))', 'false')
            if isinstance(n, ast.If):
                self.add(n.test, f'(True or ({t}))', 'true')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.add(n, op.join('(' + self.text(v) + ')' for v in n.values), 'boolop')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}
            k = m.get(type(n.ops[0]))
            if k:
                self.add(n, f'({self.text(n.left)}) {k} ({self.text(n.comparators[0])})', 'compare')
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.MatMult: []}
            s = isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr)
            if not s:
                for k in m.get(type(n.op), []):
                    self.add(n, f'(({self.text(n.left)}) {k} ({self.text(n.right)}))', 'binop')
                if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
                    self.add(n, f'({self.text(n.left)})', 'dropterm')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.add(n, str(not v), 'bool')
            elif isinstance(v, int):
                self.add(n, str(v + 1), 'const+')
                if v > 0:
                    self.add(n, str(v - 1), 'const-')
            elif isinstance(v, float):
                self.add(n, repr(v * 1.5 + 0.1), 'const')
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            sw = dict(min='max', max='min', Isend='send', ceil='floor', floor='ceil', conj='copy', zeros='ones', cumsum='copy', real='imag', transpose='copy', append=None, argsort=None)
            if sw.get(nm) and isinstance(f, ast.Attribute) or nm in ('min', 'max'):
                t = self.text(f)
                self.add(f, t[:len(t) - len(nm)] + sw[nm], 'call')
            if nm in ('conj', 'astype', 'copy', 'round', 'sort', 'squeeze') and isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name) or nm in ('conj', 'copy') and isinstance(f, ast.Attribute) and not n.args:
                self.add(n, f'({self.text(f.value)})', 'dropcall')
            elif nm in ('conj', 'abs', 'int', 'list', 'sorted', 'array', 'ascontiguousarray', 'asarray') and len(n.args) == 1:
                self.add(n, f'({self.text(n.args[0])})', 'dropcall')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            self.add(n, f'({self.text(n.operand)})', 'usub')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, f'({self.text(n.operand)})', 'not')
        if isinstance(n, (ast.Break, ast.Continue)):
            self.add(n, 'pass', 'flow')
        if isinstance(n, ast.ExceptHandler):
            pass
        if isinstance(n, ast.JoinedStr):
            return
        self.generic_visit(n)


def mutants(repo, files):
    out = []
    for f in files:
        src = open(os.path.join(repo, 'pyspod', f)).read()
        v = V(src)
        v.visit(ast.parse(src))
        for m in v.out:
            new = v.b[:m['a']] + m['new'].encode() + v.b[m['b']:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            m['file'] = f
            m['old'] = v.b[m['a']:m['b']].decode()
            m['src'] = new
            m['text'] = src.splitlines()[m['line'] - 1].strip()
            out.append(m)
    return out


FILES = ['spod/base.py', 'spod/standard.py', 'spod/streaming.py', 'spod/utils.py', 'pod/base.py', 'pod/standard.py', 'pod/utils.py',
         'utils/parallel.py', 'utils/reader.py', 'utils/weights.py', 'utils/postproc.py', 'emulation/neural_nets.py']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cov')
    ap.add_argument('out')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--count', type=int, default=240)
    ap.add_argument('--files', default='')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    cov = json.load(open(a.cov))
    ms = []
    for m in mutants(a.repo, a.files.split(',') if a.files else FILES):
        c = cov.get(m['file'], {}).get(str(m['line']))
        if not c:
            continue
        if m['file'] == 'utils/weights.py' and 'geo' in m['fn']:
            continue
        if re.search(r'total_size|size_per_ts|nchunks|time\.time\(\)|print\(', m['text']):
            continue                                    # logging, chunk sizes
        if m['file'] == 'utils/postproc.py' and re.search(r'figsize|fontsize|label|title|tick|colorbar|cmap|pad=|facecolor|shrink|adjust|legend|linewidth', m['text']):
            continue                                    # looks
        m['cov'] = {p: k for p, k in c.items() if k}
        if m['cov']:
            ms.append(m)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['key'] for l in open(a.out)}
    for m in ms:
        m['key'] = f"{m['file']}:{m['line']}:{m['a']}:{m['b']}:{m['new']}"
    print(len(ms), 'mutants,', len(done), 'done')
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    ms = [m for m in ms if m['key'] not in done]
    if a.list:
        return
    work = f'/tmp/mutw-{os.getpid()}'
    os.makedirs(work)
    import queue
    slots = queue.Queue()
    for j in range(a.jobs):
        w = os.path.join(work, str(j))
        os.makedirs(w)
        shutil.copytree(os.path.join(a.repo, 'pyspod'), os.path.join(w, 'pyspod'), ignore=shutil.ignore_patterns('__pycache__'))
        slots.put(w)
    o = open(a.out, 'a', buffering=1)
    t0 = time.time()
    n = [0, 0]

    def one(m):
        w = slots.get()
        try:
            p = os.path.join(w, 'pyspod', m['file'])
            with open(p, 'wb') as f:
                f.write(m['src'])
            # checks that run the line, the ones that do so most often and cheaply first
            order = sorted(m['cov'], key=lambda q: RATE[q] / min(1, m['cov'][q] / 60.))
            r = dict(key=m['key'], file=m['file'], line=m['line'], fn=m['fn'], kind=m['kind'], old=m['old'], new=m['new'], text=m['text'],
                     cov=m['cov'], killed=None)
            t = time.time()
            for q in order:
                cnt = a.count if q != 'C15' else a.count // 4
                e = dict(os.environ, PYSPOD_SIM_REPO=w, VERIF_SEED='1')
                z = subprocess.run([PY, 'sim/runner.py', '--property', q, '--tier', 'quick', '--count', str(cnt), '--workers', '1',
                                    '--no-minimise', '--maxwall', '150'], cwd=ROOT, env=e, capture_output=True, text=True)
                if z.returncode:
                    v = [l for l in z.stdout.splitlines() if l.strip()]
                    r['killed'] = q
                    r['rc'] = z.returncode
                    r['msg'] = ' '.join(v)[:300]
                    break
            r['t'] = round(time.time() - t, 1)
            o.write(json.dumps(r) + '\n')
            n[0] += 1
            n[1] += r['killed'] is not None
            if n[0] % 20 == 0:
                print(f'{n[0]}/{len(ms)} killed {n[1]} {time.time() - t0:.0f} s', flush=True)
        finally:
            shutil.copyfile(os.path.join(a.repo, 'pyspod', m['file']), os.path.join(w, 'pyspod', m['file']))
            slots.put(w)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
