'''C27: expire_backups over all reachable backup histories.'''
import asyncio  # noqa: F401
import importlib.util
import itertools
import os
import re
import shutil
import sys

from mc import world
from mc.explore import Violation, pmap

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state reachability over backup histories, every transition executed by the real expire_backups command (state file, deletions, injected crashes)'
NOTE = (
    'All reachable age configurations for the listed cycle definitions with 0..3 new backups per run, manual deletions and crashes between any two '
    'file operations; states merged by (ages in state-file order, unregistered backups); each transition runs the real command in a scratch directory.'
)

CONTRIB = None


def load():
    global CONTRIB
    if CONTRIB is None:
        path = os.path.join(os.environ.get('MC_REPO', '/repo'), 'contrib', 'expire_backups.py')
        spec = importlib.util.spec_from_file_location('mc_expire_backups', path)
        CONTRIB = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(CONTRIB)
        CONTRIB.setup_logging = lambda **kw: None
    return CONTRIB


class Crash(BaseException):
    pass


def name(i):
    return f'{2000 + i // 300:04d}-{1 + i // 28 % 12:02d}-{1 + i % 28:02d}_12:00:00'


def read_state(mod):
    if not os.path.exists('.expire_backups.dat'):
        return None
    with open('.expire_backups.dat', 'rb') as fh:
        return mod.thaw_basic_mapping(fh.read())


def backups():
    return sorted(x for x in os.listdir('.') if re.match(r'^\d{4}-', x))


def invoke(mod, cycles, crash_at=None, extra=()):
    '''Run the real command; returns (outcome, number of file operations, deleted)'''
    ops = []
    orig = (os.rename, shutil.rmtree, os.replace)

    def point(what):
        if crash_at is not None and len(ops) == crash_at:
            raise Crash()
        ops.append(what)

    def rename(a, b):
        point(('rename', a, b))
        return orig[0](a, b)

    def replace(a, b):
        point(('rename', a, b))
        return orig[2](a, b)

    def rmtree(p, *a, **k):
        point(('rm', p))
        if os.sep in p or not re.match(r'^\d{4}-', p):
            raise Violation('tries to delete something that is not a backup', p)
        return orig[1](p, *a, **k)

    os.rename, shutil.rmtree, os.replace = rename, rmtree, replace
    try:
        try:
            mod.main(['-p', '1', *extra, *map(str, cycles)])
            out = 'ok'
        except Crash:
            out = 'crash'
        except mod.QuietError as exc:
            out = 'refused'
        except SystemExit as exc:
            out = 'refused' if exc.code else 'ok'
        except Violation:
            raise
        except BaseException as exc:
            if type(exc).__name__ == 'BaseExceptionGroup' or isinstance(exc, BaseExceptionGroup):
                for e in exc.exceptions:
                    if isinstance(e, Violation):
                        raise e from None
                    if isinstance(e, Crash):
                        return 'crash', ops, []
            raise Violation(f'unexpected {type(exc).__name__}', repr(exc)) from None
    finally:
        os.rename, shutil.rmtree, os.replace = orig
    return out, ops, [o[1] for o in ops if o[0] == 'rm']


def ranges(cycles):
    return list(zip((0,) + tuple(cycles[:-1]), cycles))


def covered(ages, cycles, horizon):
    '''Set of (future step, range) for which one of the existing backups is in range'''
    return {(s, r) for s in range(horizon) for r in ranges(cycles) for a in ages if r[0] <= a + s < r[1]}


def setup_dir(state, fresh, missing=()):
    '''Materialize: *state* = ages in state-file order (oldest first numbering), *fresh* new backups'''
    mod = load()
    order = sorted(state, reverse=True)
    n = 0
    names = {}
    for a in order:
        names.setdefault(a, []).append(name(n))
        n += 1
    st = {}
    for a in state:
        st[names[a].pop(0)] = a
    for x in st:
        if x not in missing:
            os.mkdir(x)
    for _ in range(fresh):
        os.mkdir(name(n))
        n += 1
    if state is not None and (st or fresh > 1):
        with open('.expire_backups.dat', 'wb') as fh:
            fh.write(mod.freeze_basic_mapping(st))
    return st


def in_dir(fn):
    d = world.workdir()
    old = os.getcwd()
    os.chdir(d)
    try:
        return fn()
    finally:
        os.chdir(old)
        world.rmdir(d)


def model_ages(st, present):
    '''Ages after registering new backups (specification)'''
    new = sorted(set(present) - set(st))
    ages = {x: a + len(new) for x, a in st.items() if x in present}
    for i, x in enumerate(new):
        ages[x] = len(new) - 1 - i
    return ages


def check_run(mod, cycles, st, before, out, deleted, when):
    after = backups()
    if out == 'refused':
        if after != before or deleted:
            raise Violation('refused but deleted backups', when)
        return None
    ages = model_ages(st, before)
    gone = set(before) - set(after)
    if gone != set(deleted):
        raise Violation('unexpected deletions', f'{when}: {gone} vs {deleted}')
    kept = [ages[x] for x in after]
    h = max(cycles)
    lost = covered(ages.values(), cycles, h) - covered(kept, cycles, h)
    # a gap that newly made backups (one per cycle, all still young) will fill is no loss
    lost = {(s, r) for s, r in lost if not any(r[0] <= a < r[1] for a in range(s))}
    if lost:
        raise Violation(
            'deleted a backup that is needed for an age range',
            f'{when}: cycles {cycles} ages before {sorted(ages.values())} kept {sorted(kept)}: uncovered (in cycles, range) {sorted(lost)[:5]}',
        )
    new = read_state(mod)
    if new != {x: ages[x] for x in after}:
        raise Violation('state file does not match the backups', f'{when}: {new} expected {[(x, ages[x]) for x in after]}')
    return tuple(new.values())


def expand(job):
    cycles, state, tier, crash = job
    mod = load()
    res = []
    steps = 0
    try:
        variants = [(k, ()) for k in range(4)]
        variants += [(1, (i,)) for i in range(len(state))]
        for fresh, miss in variants:

            def run():
                st = setup_dir(state, fresh)
                victims = [list(st)[i] for i in miss]
                for v in victims:
                    os.rmdir(v)
                before = backups()
                if not os.path.exists('.expire_backups.dat') and len(before) > 1:
                    return None, 0
                when = f'ages {state} (state-file order), {fresh} new backups, manually deleted {victims}'
                out, ops, deleted = invoke(mod, cycles)
                return check_run(mod, cycles, st, before, out, deleted, when), len(ops)

            new, nops = in_dir(run)
            steps += 1

            def careful(extra, limit):
                setup_dir(state, fresh)
                for i in miss:
                    os.rmdir(sorted(backups())[i])
                before, st = backups(), read_state(mod)
                if st is None and len(before) > 1:
                    return
                out, ops, deleted = invoke(mod, cycles, extra=extra)
                after = backups()
                when = f'ages {state}, {fresh} new, options {extra}: {before} -> {after}'
                if len(before) - len(after) > limit * len(before):
                    raise Violation('deleted more than allowed', when)
                if (out == 'refused' or limit == 0) and read_state(mod) != st:
                    raise Violation('state changed although nothing was to be done', when)

            for extra, limit in ((['-p', '0.5'], 0.5), (['-p', '0.2'], 0.2), (['-n'], 0)):
                in_dir(lambda: careful(extra, limit))
                steps += 1
            if new is not None:
                res.append(((fresh, miss), new))
            if crash:
                for at in range(nops):

                    def crun():
                        st = setup_dir(state, fresh)
                        for i in miss:
                            os.rmdir(list(st)[i])
                        before = backups()
                        when = f'ages {state}, {fresh} new, crash before file operation {at}'
                        out, ops, deleted = invoke(mod, cycles, crash_at=at)
                        ages = model_ages(st, before)
                        mid = backups()
                        # whatever is left must cover what the history can offer
                        kept = [ages[x] for x in mid]
                        lost = covered(ages.values(), cycles, 1) - covered(kept, cycles, 1)
                        if lost:
                            raise Violation('crash lost a needed backup', f'{when}: {lost}')
                        out2, ops2, deleted2 = invoke(mod, cycles)
                        kept2 = [ages[x] for x in backups()]
                        h = max(cycles)
                        lost = covered(ages.values(), cycles, h) - covered(kept2, cycles, h)
                        lost = {(s, r) for s, r in lost if not any(r[0] <= a < r[1] for a in range(s))}
                        if out2 != 'ok' or read_state(mod) != {x: ages[x] for x in backups()}:
                            raise Violation('run after a crash does not know the ages of the backups', f'{when}: {out2} {read_state(mod)} expected {ages}')
                        if lost:
                            raise Violation('run after a crash deleted a needed backup', f'{when}: {out2} {lost}')

                    in_dir(crun)
                    steps += 1
        return res, steps, None
    except Violation as exc:
        return res, steps, (exc.sig, f'{exc.detail}\njob {job}')


def regular(job):
    '''One run after every backup: from warm-up on every range is always covered'''
    cycles, pattern, rounds = job
    mod = load()

    def run():
        n = 0
        trail = []
        for rnd in range(rounds):
            k = pattern[rnd % len(pattern)]
            st = read_state(mod) or {}
            for _ in range(k):
                os.mkdir(name(n))
                n += 1
            before = backups()
            if not before or (not os.path.exists('.expire_backups.dat') and len(before) > 1):
                mod_args = ['--reconstruct-state']
                return rnd, None
            out, ops, deleted = invoke(mod, cycles)
            check_run(mod, cycles, st, before, out, deleted, f'round {rnd} pattern {pattern}')
            ages = sorted((read_state(mod) or {}).values())
            trail.append(ages)
            # every backup made so far was once available for every range it passed through
            if n >= max(cycles) and max(pattern) == 1:
                for r in ranges(cycles):
                    if not any(r[0] <= a < r[1] for a in ages):
                        raise Violation('no backup in a configured age range', f'cycles {cycles} pattern {pattern} round {rnd}: range {r} ages {ages}\nhistory {trail[-6:]}')
            if len(ages) > sum(r[1] - r[0] for r in ranges(cycles)):
                raise Violation('redundant backups are not deleted', f'{ages}')
        return rounds, None

    try:
        return in_dir(run)
    except Violation as exc:
        return 0, (exc.sig, f'{exc.detail}\njob {job}')


def work(job):
    return (expand if job[0] == 'x' else regular)(job[1])


def run(rep, tier):
    q = tier == 'quick'
    defs = [(1, 3), (1, 2, 4), (2, 3), (3,), (2, 5), (1, 2, 3, 5)] if q else [(1, 3), (1, 2, 4), (2, 3), (1, 3, 7), (1, 2, 3, 5), (3,), (2, 5)]
    cap = 60 if q else 2500
    states = trans = 0
    samples = []
    exhaustive = True
    import time

    deadline = time.time() + (120 if q else 3000)
    for cycles in defs:
        seen = {()}
        frontier = [()]
        while frontier:
            if len(seen) > cap * 10 or time.time() > deadline:
                exhaustive = False
                break
            nxt = []
            for job, (res, steps, viol) in pmap(work, [('x', (cycles, s, tier, True)) for s in frontier], wall=3000):
                trans += steps
                if viol:
                    rep.violation(viol[0], viol[1], {'job': repr(job)})
                for _, new in res:
                    if new not in seen:
                        seen.add(new)
                        nxt.append(new)
            frontier = nxt
            if rep.violations:
                break
        states += len(seen)
        samples.append({'cycles': cycles, 'reachable_age_configurations': len(seen), 'example': max(seen, key=len)})
    pats = [p for ln in (1, 2, 3) for p in itertools.product((0, 1, 2), repeat=ln) if p[0] == 1]
    jobs = [('r', (c, p, 25 if q else 60)) for c in defs + ([] if q else [(1, 3, 7, 14, 31)]) for p in pats]
    hist = 0
    for job, (n, viol) in pmap(work, jobs, wall=3000):
        hist += 1
        trans += n
        if viol:
            rep.violation(viol[0], viol[1], {'job': repr(job)})
    rep.coverage.update(
        states=states,
        transitions=trans,
        traces_validated_against_impl=trans,
        histories=hist,
        samples=samples,
        exhaustive=exhaustive,
        rule='all age configurations reachable with 0-3 new backups or one manual deletion per run; a transition is one run of the real command (or one crash inside it followed by another run)',
    )


def replay(data):
    r = work(eval(data['job']))
    print(r[-1])
    return 1 if r[-1] else 0
