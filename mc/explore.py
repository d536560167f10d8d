'''Stateless exhaustive explorer over choice sequences, deviation-bounded, multi-process.

A *harness* is a function `run(cfg, ch) -> Result`; it executes the system under test once and asks
`ch.choose(n, label, kind)` at every point of nondeterminism. Alternative 0 is the default answer and
is free. Any other alternative spends one unit of the budget of its *kind* (scheduling deviation,
fault, crash, ...). Kinds without a budget (`'free'`) are always explored completely. All choice
sequences within the budgets are executed; executions always run to completion.
'''
import concurrent.futures as cf
import dataclasses
import gc
import hashlib
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback

# An execution that is still running after this time (seconds) will not end
HANG = 90


class Divergence(Exception):
    '''Replaying a recorded prefix met a different choice point: uncontrolled nondeterminism.'''


class Violation(Exception):
    '''The property does not hold in this execution.

    *sig* identifies what fails (used to match known findings), *detail* explains.
    '''

    def __init__(self, sig, detail=''):
        super().__init__(sig, detail)
        self.sig = sig
        self.detail = detail


class watchdog:
    '''Raise Violation if the body does not end (main thread only)'''

    def __init__(self, secs=None):
        self.secs = secs or HANG
        self.armed = False
        self.fired = None

    def _fire(self, signum, frame):
        self.fired = self.fired or ''.join(traceback.format_stack(frame, 12))
        raise Violation('execution does not end', ''.join(traceback.format_stack(frame, 12)))

    def __enter__(self):
        if threading.current_thread() is threading.main_thread() and signal.getitimer(signal.ITIMER_REAL)[0] == 0:
            self.armed = True
            self.saved = signal.signal(signal.SIGALRM, self._fire)
            signal.setitimer(signal.ITIMER_REAL, self.secs, 1)

    def __exit__(self, *a):
        if self.armed:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.saved)


class Chooser:
    def __init__(self, prefix=(), record_labels=False):
        self.prefix = prefix
        self.points = []  # (n, choice, kind, label)
        self.record_labels = record_labels
        self.steps = 0

    def choose(self, n, label='', kind='free', default=0):
        if n <= 1:
            return 0
        i = len(self.points)
        if i < len(self.prefix):
            (en, c, elabel) = self.prefix[i]
            if en != n or elabel != label:
                raise Divergence(f'point {i}: expected {en}/{elabel!r}, got {n}/{label!r}')
        else:
            c = default
        self.points.append((n, c, kind, label, default))
        return c


def trace_of(ch):
    return tuple((p[0], p[1], p[3]) for p in ch.points)


@dataclasses.dataclass
class Stats:
    executions: int = 0
    points: int = 0
    outcomes: set = dataclasses.field(default_factory=set)
    samples: list = dataclasses.field(default_factory=list)
    violations: list = dataclasses.field(default_factory=list)
    by_cfg: dict = dataclasses.field(default_factory=dict)
    counters: dict = dataclasses.field(default_factory=dict)
    capped: bool = False
    max_points: int = 0
    nodes: int = 0
    divergent: int = 0  # replays that met other choice points: not explored further

    def merge(self, o):
        self.executions += o.executions
        self.points += o.points
        self.nodes += o.nodes
        self.divergent += o.divergent
        self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:6]
        self.violations += o.violations
        for k, v in o.by_cfg.items():
            self.by_cfg[k] = self.by_cfg.get(k, 0) + v
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.capped |= o.capped
        self.max_points = max(self.max_points, o.max_points)


def _used(prefix_kinds, budgets):
    used = {}
    for kind in prefix_kinds:
        used[kind] = used.get(kind, 0) + 1
    return used


def run_one(harness, cfg, prefix):
    '''Execute once; returns (chooser, outcome, violation-or-None, counters)'''
    global HANG
    ch = Chooser(prefix)
    wd = watchdog()
    exc = None
    try:
        with wd:
            res = harness(cfg, ch)
    except Violation as e:
        exc = e
    except BaseException:
        if wd.fired is None:
            raise
    if wd.fired is not None:
        # Cleanup code may have replaced or swallowed the exception
        HANG = min(HANG, 20)
        exc = Violation('execution does not end', wd.fired)
    if exc is not None:
        return ch, None, exc, {}
    pair = isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict)
    outcome, counters = res if pair else (res, {})
    if ch.steps:
        counters = dict(counters, steps=ch.steps)
    if len(ch.points) < len(prefix):
        raise Divergence('execution ended inside replayed prefix')
    return ch, outcome, None, counters


def _subtree(harness, cfg, cfgname, start, budgets, max_exec, deadline, limit_violations):
    '''DFS below *start* (list of (prefix, used)); returns stats and unexplored leftovers'''
    st = Stats()
    stack = list(start)
    n = 0
    while stack:
        if n >= max_exec:
            break
        if time.time() > deadline:
            st.capped = True
            break
        prefix, used = stack.pop()
        n += 1
        try:
            ch, outcome, viol, counters = run_one(harness, cfg, prefix)
        except Divergence:
            # Nondeterminism that the chooser does not control. Never happens on the unchanged tree
            # (see check_determinism); code that has it is still worth exploring.
            st.divergent += 1
            continue
        st.executions += 1
        st.points += len(ch.points)
        st.nodes += len(ch.points) - len(prefix) + 1
        st.max_points = max(st.max_points, len(ch.points))
        for k, v in counters.items():
            st.counters[k] = st.counters.get(k, 0) + v
        tr = trace_of(ch)
        if viol is not None:
            if len(st.violations) < limit_violations:
                st.violations.append((viol.sig, str(viol.detail), cfgname, tr, used))
        else:
            st.outcomes.add(hashlib.md5(repr((cfgname, outcome)).encode()).hexdigest())
            if len(st.samples) < 2 and len(tr) >= len(prefix):
                st.samples.append(
                    {
                        'config': cfgname,
                        'deviations': [f'{i}:{p[3]}->{p[1]}' for i, p in enumerate(ch.points) if p[1] != p[4]],
                        'points': len(tr),
                        'outcome': repr(outcome)[:300],
                    }
                )
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            (pn, pc, kind, label, default) = ch.points[i]
            if kind != 'free':
                if used.get(kind, 0) + 1 > budgets.get(kind, 0):
                    continue
                nused = dict(used)
                nused[kind] = nused.get(kind, 0) + 1
            else:
                nused = used
            base = tr[:i]
            for alt in range(pn - 1, -1, -1):
                if alt != pc:
                    stack.append((base + ((pn, alt, label),), nused))
    st.by_cfg[cfgname] = st.executions
    return st, stack


_HARNESS = None
_PHANG = 400


def quiet():
    sys.unraisablehook = lambda *a: None


def _worker(cfg, cfgname, start, budgets, max_exec, deadline, lim):
    try:
        r = _subtree(_HARNESS, cfg, cfgname, start, budgets, max_exec, deadline, lim)
        gc.collect()
        return ('ok',) + r
    except BaseException:
        return ('err', traceback.format_exc(), cfgname)


class HarnessError(Exception):
    pass


def explore(harness, configs, budgets, wall=600.0, jobs=None, stop_on_violation=True, chunk=64,
            check_determinism=False):
    '''Explore all choice sequences of *harness* for each (name, cfg, budgets?) in *configs*.'''
    global _HARNESS
    _HARNESS = harness
    jobs = jobs or min(8, os.cpu_count() or 1)
    deadline = time.time() + wall
    total = Stats()

    def root(c):
        return (c[0], c[1], c[2] if len(c) > 2 else budgets)

    pending = [(n, c, b, [((), {})]) for (n, c, b) in map(root, configs)]
    # Replay determinism: the default execution of every configuration, twice. Nondeterminism that
    # the chooser does not control would make the exploration meaningless.
    if check_determinism:
        for n, c, b in map(root, configs[:3]):
            try:
                a = run_one(harness, c, ())
                if a[2] is not None:
                    break
                z = run_one(harness, c, trace_of(a[0]))
            except Divergence:
                total.divergent += 1
                continue
            if a[2] is None and z[2] is None and (trace_of(a[0]) != trace_of(z[0]) or repr(a[1]) != repr(z[1])):
                total.divergent += 1
    ctx = multiprocessing.get_context('fork')
    if jobs == 1:
        while pending:
            n, c, b, start = pending.pop()
            st, left = _subtree(harness, c, n, start, b, 1 << 60, deadline, 20)
            total.merge(st)
            if st.capped or (total.violations and stop_on_violation):
                break
        return total

    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=quiet) as ex:
        futs = {}
        stopping = False
        error = None

        def submit():
            while pending and len(futs) < jobs * 2 and not stopping:
                n, c, b, start = pending.pop()
                f = ex.submit(_worker, c, n, start, b, chunk, deadline, 5)
                futs[f] = (n, c, b)

        submit()
        while futs:
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                n, c, b = futs.pop(f)
                r = f.result()
                if r[0] == 'err':
                    stopping = True
                    pending.clear()
                    error = f'config {r[2]}:\n{r[1]}'
                    continue
                _, st, left = r
                total.merge(st)
                if total.violations and stop_on_violation:
                    stopping = True
                    pending.clear()
                elif st.capped:
                    total.capped = True
                    stopping = True
                    pending.clear()
                elif left:
                    # split so that other workers get a share; keep DFS order (last = next)
                    k = max(1, min(4, jobs - len(futs) - len(pending)))
                    step = (len(left) + k - 1) // k
                    for j in range(0, len(left), step):
                        pending.append((n, c, b, left[j : j + step]))
            submit()
    if error is not None:
        if not total.violations:
            raise HarnessError(error)
        print(error, file=sys.stderr)
    return total


def pmap(fn, items, wall=600.0, jobs=None):
    '''Apply *fn* to every item in parallel (fork). Yields results in completion order.'''
    global _HARNESS
    _HARNESS = fn
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    deadline = time.time() + wall
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=quiet) as ex:
        futs = {}
        it = iter(items)
        more = True
        while True:
            while more and len(futs) < jobs * 3:
                try:
                    x = next(it)
                except StopIteration:
                    more = False
                    break
                futs[ex.submit(_pcall, x)] = x
            if not futs:
                break
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                x = futs.pop(f)
                r = f.result()
                if r[0] == 'hang':
                    raise Violation('execution does not end', f'item {x!r:.3000}\n{r[1]}')
                if r[0] == 'err':
                    raise HarnessError(f'item {x!r:.300}:\n{r[1]}')
                stop = yield (x, r[1])
                if stop:
                    more = False
            if time.time() > deadline:
                if more:
                    raise TimeoutError('pmap wall limit')


def _pcall(x):
    wd = watchdog(_PHANG)
    try:
        with wd:
            r = ('ok', _HARNESS(x))
    except Violation as exc:
        r = ('err', f'{exc.sig}\n{exc.detail}')
    except BaseException:
        r = ('err', traceback.format_exc())
    if wd.fired is not None:
        return ('hang', wd.fired)
    return r
