"""Cross-cutting scenarios: communication soundness (C06) and the wall clock (C12). Both drive the scenarios of the
other properties under their own adversary."""
import copy
import os
import random

import yaml

import core
import props
import props2
import props3
import simfs
from core import Violation
from harness import HOME, M, Skip, gen_env, scrub

ALL = {}
for _m in (props, props2, props3):
    ALL.update(_m.PROPS)

SIM = ('deadlock', 'livelock', 'collective-mismatch', 'comm-leak', 'send-buffer-changed', 'stall')


def gen_sub(r, subs, several=False):
    sub = r.choice(subs)
    s = ALL[sub]['gen'](r)
    while sub in FIXED and several and s['size'] < 2:
        s = ALL[sub]['gen'](r)
    s.pop('read_fault', None)
    s['sub_of'] = sub
    return s


# ---------------------------------------------------------------------------
# C06 every parallel entry point makes progress
# ---------------------------------------------------------------------------
SUB6 = ['C01', 'C01', 'C02', 'C03', 'C03', 'C04', 'C04', 'C05', 'C05', 'C07', 'C08', 'C09', 'C11', 'C13', 'C14']
FIXED = ('C05', 'C13')        # their data are laid out for a given number of processes
SIZES = ('size', 'size2', 'size3', 'load_size')


def gen_c06(r):
    s = gen_sub(r, SUB6, True)
    s['mpi'] = dict(send_mode=r.choice(['rendezvous', 'rendezvous', 'random', 'eager']),
                    coll_mode=r.choice(['full', 'min', 'random']), io_sync=r.choice(['min', 'full']),
                    reduce=r.choice(['order', 'random']))
    s['strategy'] = r.choice(core.STRATEGIES)
    big = r.random() < 0.15
    for k in SIZES if s['sub_of'] not in FIXED else ():
        if isinstance(s.get(k), int) and (s[k] < 2 or big):
            s[k] = r.choice([2, 2, 3, 4, 5] if not big else [6, 7, 8])
    if s['sub_of'] == 'C09':
        s['jobs'] = []
        if s['pre'] == 'other':
            s['pre'] = 'same'
    return s


def run_c06(ctx):
    sub = ctx.scn['sub_of']
    try:
        ALL[sub]['run'](ctx)
    except Violation as v:
        if v.vclass in SIM or v.vclass == 'exception':
            raise
        ctx.probe('other_property')          # wrong values are the business of the other checks
    ctx.probe('sub_' + sub)


# ---------------------------------------------------------------------------
# C12 the wall clock has no effect on results or stored files
# ---------------------------------------------------------------------------
SUB12 = ['C01', 'C01', 'C02', 'C02', 'C03', 'C03', 'C04', 'C04', 'C07', 'C08', 'C09', 'C11', 'C14']
MODES = ['frozen', 'frozen', 'coarse', 'back', 'back', 'forward', 'skew']


def gen_c12(r):
    s = gen_sub(r, SUB12)
    s['bad_clock'] = r.choice(MODES)
    if s['sub_of'] == 'C09':
        s['jobs'] = []
        if s['pre'] == 'other':
            s['pre'] = 'same'
    return s


def stored_files(root):
    """names of all stored files, and the text of the parameter files"""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if rel.startswith('data'):
                continue
            if f.endswith('.yaml'):
                with simfs.passthru(), open(p) as h:
                    text = h.read()
                try:
                    text = repr(yaml.load(text, Loader=yaml.FullLoader))
                except yaml.YAMLError:
                    pass
                out[rel] = scrub(text, root).replace(os.path.relpath(root, HOME['dir']), '<root>')
            elif f.endswith(('.png', '.pdf', '.jpg')):      # may show round-off
                out[rel] = 'a figure' if os.path.getsize(p) else 'nothing'
            else:
                out[rel] = f'{os.path.getsize(p)} bytes'
    return out


def run_c12(ctx):
    s0 = ctx.scn
    top = ctx.root
    run = ALL[s0['sub_of']]['run']
    got, fails = {}, {}
    for part in ('normal', 'weird'):        # same length: paths are part of some stored files
        ctx.scn = copy.deepcopy(s0)
        ctx.scn['clock'] = 'normal' if part == 'normal' else s0['bad_clock']
        ctx.root = os.path.join(top, {'normal': 'runN', 'weird': 'runW'}[part])
        os.makedirs(ctx.root)
        try:
            run(ctx)
        except Violation as v:
            fails[part] = (v.vclass, scrub(v.msg, ctx.root) if v.vclass == 'wrong-path' else '')
            got[part] = stored_files(ctx.root)
            if part == 'normal':
                continue
            if 'normal' in fails:           # fails under any clock: about the clock only if the files tell so
                ctx.scn, ctx.root = s0, top
                ctx.probe('other_property')
                if fails['normal'][0] == fails['weird'][0] and (fails['normal'] != fails['weird'] or set(got['normal']) != set(got['weird'])):
                    raise Violation('changed-files', f'stored under a clock that is {s0["bad_clock"]}: {fails["weird"][1]} {sorted(set(got["weird"]) ^ set(got["normal"]))}'
                                    f' instead of {fails["normal"][1]}')
                return
            raise Violation(v.vclass, f'under a clock that is {s0["bad_clock"]}: ' + scrub(v.msg, ctx.root))
        got[part] = stored_files(ctx.root)
    ctx.scn, ctx.root = s0, top
    if fails:                               # another violation, seen under the normal clock only
        ctx.probe('other_property')
        return
    a, b = got['normal'], got['weird']
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            raise Violation('changed-files', f'stored file {k} differs under a clock that is {s0["bad_clock"]}: '
                            f'{str(b.get(k))[:150]!r} instead of {str(a.get(k))[:150]!r}')
    ctx.probe('sub_' + s0['sub_of'])
    ctx.probe('files_compared', len(a))


PROPS = {
    'C06': dict(gen=gen_c06, run=run_c06),
    'C12': dict(gen=gen_c12, run=run_c12),
}
