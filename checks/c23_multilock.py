'''C23: MultiLock under every schedule and every cancellation point.'''
import itertools

import trio

from mc.explore import Divergence, Violation, explore, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.multi_lock import MultiLock

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real MultiLock under a controlled Trio scheduler: all schedules and cancellation points within the bound'
NOTE = 'Client programs of up to 4 tasks on 2 keys; every schedule within the deviation bound, optional cancellation of one task between any two scheduler steps.'


class Mon:
    def __init__(self):
        self.holders = {}
        self.log = []

    def enter(self, key, who):
        self.log.append(('acq', who, key))
        if key in self.holders:
            raise Violation('two holders of the same key', f'{key}: {self.holders[key]} and {who}\n{self.log}')
        self.holders[key] = who

    def leave(self, key, who):
        self.log.append(('rel', who, key))
        self.holders.pop(key, None)


async def client(lock, mon, name, prog):
    for op in prog:
        k = op[0]
        if k == 'with':  # context manager, *op[2]* scheduling points inside
            async with lock(op[1]):
                mon.enter(op[1], name)
                try:
                    for _ in range(op[2]):
                        await trio.lowlevel.checkpoint()
                finally:
                    mon.leave(op[1], name)
        elif k == 'try':
            if lock.acquire_nowait(op[1]):
                mon.enter(op[1], name)
                await trio.lowlevel.cancel_shielded_checkpoint()
                mon.leave(op[1], name)
                await lock.release(op[1])
            else:
                mon.log.append(('busy', name, op[1]))
        elif k == 'handoff':  # acquire here, release in another task
            await lock.acquire(op[1])
            mon.enter(op[1], name)
            async with trio.open_nursery() as n:

                async def rel():
                    await trio.lowlevel.checkpoint()
                    mon.leave(op[1], name)
                    await lock.release(op[1])

                n.start_soon(rel, name='rel')
        elif k == 'reln':  # release without insisting on the key being locked
            await lock.acquire(op[1])
            mon.enter(op[1], name)
            try:
                await trio.lowlevel.checkpoint()
            finally:
                mon.leave(op[1], name)
                await lock.release(op[1], noerror=True)
        elif k == 'bad':  # release of a key that is not locked
            try:
                await lock.release(op[1])
            except KeyError:
                pass
            else:
                raise Violation('release of a key that is not locked is not reported', f'{op[1]}\n{mon.log}')
        elif k == 'noerr':
            # releasing a key that nobody holds
            await lock.release(op[1], noerror=True)
        elif k == 'nest':
            async with lock(op[1]):
                mon.enter(op[1], name)
                try:
                    async with lock(op[2]):
                        mon.enter(op[2], name)
                        try:
                            await trio.lowlevel.checkpoint()
                        finally:
                            mon.leave(op[2], name)
                finally:
                    mon.leave(op[1], name)


async def scenario(ctl, ch, cfg, mon):
    lock = MultiLock()
    done = []
    cancelled = []
    scopes = {}
    victims = cfg.get('victims', ())
    ctl.active = True

    async def wrap(name, prog):
        with trio.CancelScope() as sc:
            scopes[name] = sc
            await client(lock, mon, name, prog)
            done.append(name)
        if sc.cancelled_caught:
            cancelled.append(name)

    def on_step():
        for v in victims:
            if v in scopes and v not in done and not scopes[v].cancel_called and mon.log:
                if ch.choose(2, f'cancel {v}', 'fault'):
                    scopes[v].cancel()

    async with trio.open_nursery() as n:
        for i, prog in enumerate(cfg['tasks']):
            n.start_soon(wrap, f't{i}', prog, name=f't{i}')
        if victims:
            ctl.on_step = on_step
    ctl.on_step = None
    ctl.active = False
    # afterwards every key must be free again
    for key in cfg['keys']:
        if not lock.acquire_nowait(key):
            raise Violation('lock leaked', f'{key} still locked after all tasks ended (cancelled: {cancelled})\n{mon.log}')
        with trio.move_on_after(1) as sc:
            await lock.release(key)
        if sc.cancelled_caught:
            raise Violation('lock unusable', f'release of {key} hangs\n{mon.log}')
        if not lock.acquire_nowait(key):
            raise Violation('released key cannot be acquired', f'{key}\n{mon.log}')
    return tuple(mon.log)


def harness(cfg, ch):
    mon = Mon()
    try:
        return run_controlled(lambda ctl: scenario(ctl, ch, cfg, mon), ch, max_steps=500)
    except Deadlock:
        raise Violation('deadlock', f'tasks wait forever\n{mon.log}') from None
    except StepLimit:
        raise Violation('livelock', f'{mon.log}') from None
    except BaseException as exc:
        from mc.bc import leaf

        e = leaf(exc)
        if isinstance(e, (Violation, Divergence, KeyboardInterrupt)):
            raise e from None
        raise Violation(f'operation failed: {type(e).__name__}', f'{e!r}\n{mon.log}') from None


def configs(tier):
    A, B = 'A', ('B', 1)
    b = {'sched': 5 if tier == 'quick' else 8}
    bc = {'sched': 3 if tier == 'quick' else 5, 'fault': 1}
    cs = [
        ('mutex3', dict(keys=[A], tasks=[[('with', A, 1)], [('with', A, 1)], [('with', A, 0), ('with', A, 1)]]), b),
        ('two-keys', dict(keys=[A, B], tasks=[[('nest', A, B)], [('with', B, 1), ('with', A, 1)], [('nest', A, B)]]), b),
        ('try', dict(keys=[A, B], tasks=[[('try', A), ('try', A)], [('with', A, 1)], [('try', B), ('try', A)]]), b),
        ('handoff', dict(keys=[A], tasks=[[('handoff', A)], [('with', A, 1)], [('try', A), ('noerr', 'Z')]]), b),
        ('cancel-waiter', dict(keys=[A], victims=['t1'], tasks=[[('with', A, 2)], [('with', A, 1)], [('with', A, 1)]]), bc),
        ('cancel-holder', dict(keys=[A], victims=['t0'], tasks=[[('with', A, 2)], [('with', A, 1)]]), bc),
        ('cancel-nested', dict(keys=[A, B], victims=['t0'], tasks=[[('nest', A, B)], [('with', B, 1)], [('with', A, 1)]]), bc),
    ]
    # all combinations of short programs
    ops = [('with', A, 1), ('with', B, 0), ('reln', A), ('try', A), ('nest', A, B), ('handoff', A), ('bad', 'Z'), ('noerr', 'Z')]
    progs = [[o] for o in ops[:6]] + [[a, b] for a in ops for b in ops[:4]]
    g = {'sched': 2 if tier == 'quick' else 5}
    for i, x in enumerate(progs):
        for y in progs[i:]:
            cs.append((f'gen {x} {y}', dict(keys=[A, B], tasks=[x, y, [('with', A, 1)]]), g))
    gc = {'sched': 1 if tier == 'quick' else 4, 'fault': 2}
    one = [[o] for o in ops[:5]]  # (the program that releases in another task cannot be cancelled)
    for x, y, z in itertools.combinations_with_replacement(one, 3):
        cs.append((f'cancel {x} {y} {z}', dict(keys=[A, B], victims=['t0', 't1', 't2'], tasks=[x, y, z]), gc))
    if tier != 'quick':
        cs += [
            ('mutex4', dict(keys=[A], tasks=[[('with', A, 1)], [('with', A, 1)], [('with', A, 1)], [('with', A, 1)]]), {'sched': 5}),
            ('cancel-4', dict(keys=[A], victims=['t2'], tasks=[[('with', A, 1)], [('with', A, 1)], [('with', A, 1)], [('try', A), ('with', A, 1)]]), bc),
        ]
    return cs


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=150 if tier == 'quick' else 3000, check_determinism=True)
    rep.add_stats('schedules', st, 'every schedule and cancellation point within the deviation bound per client program')
    rep.coverage['budgets'] = {c[0]: c[2] for c in configs(tier)[:7]}
    rep.coverage['programs'] = len(configs(tier))


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    _, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation: {out}')
    return 1 if viol else 0
