"""lines of pyspod executed by the simulated cases, per property.
usage: coverage.py OUT.json [N] [props...]   (runs N cases of each property; map file -> line -> {prop: cases that ran it})"""
import json, os, subprocess, sys, collections
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(HERE), 'sim')
sys.path.insert(0, SIM)
import runner


def one(prop, n, out):
    import shutil
    mon = sys.monitoring
    mon.use_tool_id(4, 'simcov')
    seen = set()
    base = os.path.join(runner.REPO, 'pyspod') + os.sep

    def line(code, ln):
        f = code.co_filename
        if f.startswith(base):
            seen.add((f[len(base):], ln))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    scratch = os.path.join(runner.scratch_base(), f'pyspod-cov-{prop}')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    _, H, props, core = runner.start(scratch, prop)
    imp = set(seen)
    hits = collections.Counter()
    for i in range(n):
        seen.clear()
        mon.restart_events()
        scn, cs = runner.gen_case(props, prop, 1, i)
        runner.run_case(H, props, prop, scn, core.Choices(cs), os.path.join(scratch, 'w00'))
        hits.update(seen)
    with open(out, 'w') as f:
        json.dump([[a, b, hits.get((a, b), 0)] for a, b in sorted(set(hits) | imp)], f)
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def main():
    out = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    props = sys.argv[3:] or [f'C{i:02d}' for i in range(1, 16)]
    ps = []
    for p in props:
        ps.append((p, subprocess.Popen([runner.PY, os.path.abspath(__file__), '--one', p,
                                        str(n if p != 'C15' else min(n, 40)), f'{out}.{p}'], env=runner.env(), stderr=subprocess.DEVNULL)))
    m = {}
    for p, q in ps:
        if q.wait():
            print(p, 'failed')
            continue
        for f, ln, k in json.load(open(f'{out}.{p}')):
            m.setdefault(f, {}).setdefault(str(ln), {})[p] = k
        os.remove(f'{out}.{p}')
    json.dump(m, open(out, 'w'))


if __name__ == '__main__':
    if sys.argv[1] == '--one':
        one(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    main()
