"""which combinations of scenario features the generators reach in a quick batch.
usage: combos.py PROP [N]  -- prints features and pairs of values that never meet although both are common"""
import collections, itertools, json, os, random, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'sim'), os.path.join(ROOT, 'sim/fakempi')]


import runner
PROPS = runner.load()
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 2000


def flat(x, p=''):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from flat(v, p + '.' + str(k))
    elif isinstance(x, (list, tuple)):
        yield p + '#', len(x)
        if all(isinstance(v, (int, float)) for v in x) and x and len(x) <= 4:
            yield p + '!max', max(range(len(x)), key=lambda i: x[i])
    elif isinstance(x, float):
        yield p, round(x, 3) if abs(x) < 1e4 else '%.0e' % x
    else:
        yield p, x


rows = []
for i in range(n):
    s = runner.gen_case(PROPS[1], prop, 1, i)[0]
    rows.append(dict(flat(s)))
vals = collections.defaultdict(collections.Counter)
for r in rows:
    for k, v in r.items():
        vals[k][v] += 1
for k, c in vals.items():
    if len(c) > 9:
        nums = sorted(v for v in (r.get(k) for r in rows) if isinstance(v, (int, float)) and not isinstance(v, bool))
        if len(nums) < n // 20:
            for r in rows:
                r.pop(k, None)
            continue
        q = [nums[len(nums) * j // 4] for j in range(1, 4)]
        for r in rows:
            v = r.get(k)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                r[k] = 'q%d' % sum(v >= b for b in q)
vals = collections.defaultdict(collections.Counter)
for r in rows:
    for k in list(r):
        if 'seed' in k:
            r.pop(k)
    for k, v in r.items():
        vals[k][v] += 1
print(prop, n, 'cases')
for k, c in vals.items():
    print('  ', k, dict(c.most_common(12)))
one = collections.Counter()
two = collections.Counter()
for r in rows:
    it = sorted((k, str(v)) for k, v in r.items())
    one.update(it)
    two.update(itertools.combinations(it, 2))
keys = sorted(one)
print('pairs that never meet:')
miss = []
for a, b in itertools.combinations(keys, 2):
    if a[0] == b[0]:
        continue
    e = one[a] * one[b] / n
    if e >= 6 and not two[(a, b)]:
        miss.append((e, a, b))
for e, a, b in sorted(miss, key=lambda t: -t[0])[:80]:
    print('  %.0f' % e, a, b)
