"""Deterministic scheduler: simulated processes ("ranks") are real threads of
which exactly one runs at any time; every hand-over is a decision of a seeded
choice source and is recorded, so that a run is a pure function of
(scenario, choice list)."""
import threading
import random
import hashlib
import traceback
import gc

_tls = threading.local()
STALL_S = 150.0


class SimKill(BaseException):
    """Raised inside a simulated process that has been killed."""


class Violation(Exception):
    """A property violation found by the simulator itself or by an oracle."""
    def __init__(self, vclass, msg, **info):
        super().__init__(vclass + ': ' + msg)
        self.vclass = vclass
        self.msg = msg
        self.info = info


class Stall(Exception):
    """A rank did not come back to the scheduler within the watchdog time."""


def cur_rank():
    return getattr(_tls, 'rank', None)


def cur_world():
    return getattr(_tls, 'world', None)


class Choices:
    """Source of all in-run nondeterminism. Records every decision."""
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.pos = 0
        self.log = []

    def _next(self, n):
        v = self.replay[self.pos] if self.pos < len(self.replay) else 0
        self.pos += 1
        return v % n

    def choose(self, n, weights=None):
        """integer in [0,n); option 0 is always the 'boring' one."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self._next(n)
        elif weights is not None:
            v = self.rng.choices(range(n), weights)[0]
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def flip(self, p):
        return self.choose(2, (1 - p, p)) == 1

    def pick(self, n, picker):
        """choose among n options; `picker(rng)` proposes an index."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self._next(n)
        else:
            v = picker(self.rng)
        self.log.append(v)
        return v


class _Rank:
    __slots__ = ('idx', 'lock', 'state', 'pred', 'desc', 'result', 'exc', 'tb', 'thread', 'killed', 'prio', 'nops')

    def __init__(self, idx):
        self.idx = idx
        self.lock = threading.Lock()
        self.lock.acquire()
        self.state = 'new'
        self.pred = None
        self.desc = ''
        self.result = None
        self.exc = None
        self.tb = None
        self.thread = None
        self.killed = False
        self.prio = 0.0
        self.nops = 0


STRATEGIES = ('uniform', 'pct', 'sticky', 'roundrobin', 'starve', 'lifo')


class World:
    """One simulated job: `size` ranks running fn(rank)."""

    def __init__(self, size, choices, strategy='uniform', max_steps=400000, crash_step=None,
                 keep_log=False, linger=True, stats=None):
        self.size = size
        self.ch = choices
        self.strategy = strategy
        self.max_steps = max_steps
        self.crash_step = crash_step
        self.ranks = [_Rank(i) for i in range(size)]
        self.main = threading.Lock()
        self.main.acquire()
        self.actions = []          # pending deliveries: (key, fn) ; schedulable
        self.steps = 0
        self.hash = hashlib.blake2b(digest_size=8)
        self.log = [] if keep_log else None
        self.killing = False
        self.crashed = False
        self.last = None
        self.violation = None
        self.linger = linger
        self.services = []         # objects with .on_kill()/.on_end(world)
        self.switches = 0
        self.stats = stats if stats is not None else {}
        self._pct_points = set()
        self._pct_inited = False
        self._starved = None
        self.mpi = None
        self.want_crash = False
        self.over = False

    # --- called from rank threads ---------------------------------------
    def event(self, desc):
        r = cur_rank()
        s = f'{r}:{desc}'
        self.hash.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    def step(self, desc=''):
        """scheduling point"""
        self.wait(None, desc)

    def wait(self, pred, desc=''):
        idx = cur_rank()
        if idx is None or cur_world() is not self:
            return
        r = self.ranks[idx]
        if r.killed:
            raise SimKill()
        r.pred = pred
        r.desc = desc
        r.state = 'ready'
        r.nops += 1
        self.main.release()
        r.lock.acquire()
        if r.killed:
            raise SimKill()
        r.state = 'running'
        self.event(desc)

    def post(self, key, fn):
        """schedule an asynchronous action (e.g. message delivery)"""
        self.actions.append((key, fn))

    def fail(self, vclass, msg, **info):
        """record a violation and kill the job"""
        if self.violation is None:
            self.violation = Violation(vclass, msg, **info)
        if cur_world() is self and cur_rank() is not None:
            self.ranks[cur_rank()].killed = True
            raise SimKill()

    # --- scheduler -------------------------------------------------------
    def _body(self, r, fn):
        _tls.rank = r.idx
        _tls.world = self
        r.lock.acquire()
        try:
            if not r.killed:
                r.state = 'running'
                r.result = fn(r.idx)
                r.state = 'done'
            else:
                r.state = 'killed'
        except SimKill:
            r.state = 'killed'
        except BaseException as e:     # noqa
            if r.killed:
                r.state = 'killed'
            else:
                r.state = 'failed'
                r.exc = e
                r.tb = traceback.format_exc()
        finally:
            _tls.rank = None
            _tls.world = None
            self.main.release()

    def _resume(self, r):
        r.lock.release()
        if not self.main.acquire(timeout=STALL_S):
            raise Stall(f'rank {r.idx} does not return to the scheduler (last op: {r.desc})')

    def _pick(self, opts):
        n = len(opts)
        if n == 1:
            return 0
        # order: last-run rank first => choice 0 is "no context switch"
        st = self.strategy

        def picker(rng):
            if st == 'uniform':
                return rng.randrange(n)
            if st == 'sticky':
                return 0 if rng.random() < 0.85 else rng.randrange(n)
            if st == 'roundrobin':
                # smallest number of ops so far
                best = min(range(n), key=lambda i: (self.ranks[opts[i][1]].nops if opts[i][0] == 'r' else -1, i))
                return best if rng.random() < 0.95 else rng.randrange(n)
            if st == 'lifo':
                # deliveries latest-first, ranks before deliveries
                rs = [i for i in range(n) if opts[i][0] == 'r']
                if rs and rng.random() < 0.97:
                    return rng.choice(rs)
                return n - 1 if rng.random() < 0.9 else rng.randrange(n)
            if st == 'pct':
                if not self._pct_inited:
                    self._pct_inited = True
                    for r in self.ranks:
                        r.prio = rng.random()
                    self._pct_points = {rng.randrange(1, 600) for _ in range(5)}
                    self._dprio = rng.random()
                if self.steps in self._pct_points:
                    self.ranks[rng.randrange(self.size)].prio = rng.random() - 1
                    self._dprio = rng.random()
                return max(range(n), key=lambda i: self.ranks[opts[i][1]].prio if opts[i][0] == 'r' else self._dprio)
            if st == 'starve':
                if self._starved is None or rng.random() < 0.01:
                    self._starved = rng.randrange(self.size)
                c = [i for i in range(n) if not (opts[i][0] == 'r' and opts[i][1] == self._starved)]
                return rng.choice(c) if c and rng.random() < 0.98 else rng.randrange(n)
            return 0
        return self.ch.pick(n, picker)

    def run(self, fn):
        gc_on = gc.isenabled()
        gc.disable()       # collector timing must not reorder close/flush calls
        try:
            for r in self.ranks:
                r.thread = threading.Thread(target=self._body, args=(r, fn), daemon=True)
                r.state = 'ready'
                r.thread.start()
            self._loop()
            for r in self.ranks:
                r.thread.join()
        finally:
            if gc_on:
                gc.enable()
        self.over = True
        for s in self.services:
            s.on_end(self)
        return self

    def _alive(self):
        return [r for r in self.ranks if r.state in ('ready',)]

    def _loop(self):
        while True:
            if self.want_crash:
                self.crash()
                return
            alive = self._alive()
            if not alive:
                return
            if self.violation is not None:
                self._kill_all(False)
                return
            if any(r.state == 'failed' for r in self.ranks) and not self.linger:
                self._kill_all(False)
                return
            self.steps += 1
            if self.crash_step is not None and self.steps >= self.crash_step:
                self.crash()
                return
            if self.steps > self.max_steps:
                self.violation = Violation('livelock', f'no end after {self.steps} simulated steps; ' + self._states())
                self._kill_all(False)
                return
            opts = []
            for r in alive:
                if r.pred is None or r.pred():
                    opts.append(('r', r.idx))
            if self.last is not None and ('r', self.last) in opts:
                opts.remove(('r', self.last))
                opts.insert(0, ('r', self.last))
            for i in range(len(self.actions)):
                opts.append(('a', i))
            if not opts:
                if any(r.state in ('failed', 'killed') for r in self.ranks):
                    self._kill_all(False)      # job aborted after a failure elsewhere
                    return
                self.violation = Violation('deadlock', self._states())
                self._kill_all(False)
                return
            k, i = opts[self._pick(opts)]
            if k == 'a':
                key, act = self.actions.pop(i)
                self.hash.update(('a' + key).encode())
                if self.log is not None:
                    self.log.append('deliver ' + key)
                act()
            else:
                if self.last != i:
                    self.switches += 1
                self.last = i
                self._resume(self.ranks[i])

    def _states(self):
        return '; '.join(f'rank {r.idx}: {r.state} in {r.desc or "start"}' for r in self.ranks)

    def crash(self):
        """kill every rank at this instant; only durable state survives"""
        self.crashed = True
        self._kill_all(True)

    def _kill_all(self, crash):
        self.killing = True
        for s in self.services:
            s.on_kill(self, crash)
        for r in self.ranks:
            r.killed = True
        for r in self.ranks:
            if r.state == 'ready':
                self._resume(r)
                n = 0
                while r.state == 'ready' and n < 10000:    # swallowed SimKill
                    self._resume(r)
                    n += 1
                if r.state == 'ready':
                    raise Stall(f'rank {r.idx} swallows termination in {r.desc}')

    # --- outcome helpers --------------------------------------------------
    @property
    def failed(self):
        return [r for r in self.ranks if r.state == 'failed']

    @property
    def ok(self):
        return all(r.state == 'done' for r in self.ranks)

    def digest(self):
        return self.hash.hexdigest()
