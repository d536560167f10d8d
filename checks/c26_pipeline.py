'''C26: ParallelPipeline under every schedule, failure position and cancellation point.'''
import trio

from mc.bc import leaf, leaves
from mc.explore import Divergence, Violation, explore, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.common import ParallelPipeline

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real ParallelPipeline under a controlled Trio scheduler: all schedules, failure positions and cancellation points within the bound'
NOTE = 'Up to 4 jobs, 3 workers, buffer 0..2, list/generator/async-generator producers; every schedule within the deviation bound; one failure (worker, producer, setup) or one outside cancellation at every position.'


class Boom(OSError, ValueError, RuntimeError, LookupError):  # whatever code may expect to happen in normal operation
    pass


def members(exc):
    '''The exceptions a caller of the pipeline gets (not those merely hidden in a context)'''
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from members(e)
    else:
        yield exc


class Pipe(ParallelPipeline):
    def __init__(self, cfg, ch):
        self.cfg = cfg
        self.ch = ch
        self.started = []
        self.done = []
        self.finalized = 0
        self.failed_at = None
        self.setup = False
        self.active = 0

    def fail(self, where):
        '''Failure is a choice at every place where the configuration allows it'''
        if self.failed_at is None and where[0] in self.cfg.get('fail', ()) and self.ch.choose(2, 'fail:' + where[0], 'fault'):
            self.failed_at = len(self.started)
            raise Boom(where)

    async def produce(self):
        await trio.lowlevel.checkpoint()
        self.fail(('setup',))
        self.setup = True
        n = self.cfg['jobs']
        kind = self.cfg['producer']
        if kind == 'list':
            return list(range(n))
        if kind == 'gen':

            def gen():
                for i in range(n):
                    self.fail(('gen', i))
                    yield i
                self.fail(('gen', n))

            return gen()

        async def agen():
            for i in range(n):
                await trio.lowlevel.checkpoint()
                self.fail(('gen', i))
                yield i
            self.fail(('gen', n))

        return agen()

    async def consume(self, jobs):
        if not self.setup:
            raise Violation('worker started before setup finished', '')
        async for j in jobs:
            self.active += 1
            try:
                self.started.append(j)
                if self.started.count(j) > 1:
                    raise Violation('job processed twice', f'{self.started}')
                self.fail(('before', j))
                for _ in range(self.cfg.get('steps', 1)):
                    await trio.lowlevel.checkpoint()
                self.fail(('after', j))
                self.done.append(j)
            finally:
                self.active -= 1

    def finalize(self):
        self.finalized += 1
        if self.active or sorted(self.done) != list(range(self.cfg['jobs'])):
            raise Violation('finalized before every job was finished', f'done {self.done}, {self.active} running')
        self.fail(('finalize',))


async def scenario(ctl, ch, cfg, pipe):
    ctl.active = True
    if cfg.get('cancel'):
        with trio.CancelScope() as sc:
            def on_step():
                if not sc.cancel_called and ch.choose(2, 'cancel', 'fault'):
                    pipe.failed_at = len(pipe.started)
                    sc.cancel()

            ctl.on_step = on_step
            try:
                await pipe.run(cfg['workers'], **cfg['kw'])
                return 'ok' if not sc.cancel_called else 'ok-cancelled'
            finally:
                ctl.on_step = None
        return 'cancelled'
    await pipe.run(cfg['workers'], **cfg['kw'])
    return 'ok'


def harness(cfg, ch):
    pipe = Pipe(cfg, ch)
    try:
        res = run_controlled(lambda ctl: scenario(ctl, ch, cfg, pipe), ch, max_steps=800)
    except Deadlock:
        raise Violation('pipeline hangs', f'started {pipe.started} done {pipe.done} failed {pipe.failed_at}') from None
    except StepLimit:
        raise Violation('pipeline does not terminate', f'{pipe.started}') from None
    except BaseException as exc:
        e = leaf(exc)
        for x in leaves(exc):
            if isinstance(x, (Violation, Divergence, KeyboardInterrupt)):
                raise x from None
        if any(isinstance(x, Boom) for x in members(exc)) and pipe.failed_at is not None:
            res = 'failed'
        else:
            raise Violation(f'unexpected {type(e).__name__}', repr(exc)) from None
    if pipe.active:
        raise Violation('worker still running after the pipeline returned', '')
    if pipe.failed_at is not None and not cfg.get('cancel') and res != 'failed':
        raise Violation('failure is not propagated', f'{res} started {pipe.started}')
    if res.startswith('ok'):
        if pipe.finalized != 1 or sorted(pipe.done) != list(range(cfg['jobs'])):
            raise Violation('pipeline succeeded without finishing all jobs', f'{pipe.done} finalized {pipe.finalized}')
    else:
        if pipe.finalized and 'finalize' not in cfg.get('fail', ()):
            raise Violation('finalized in spite of a failure', f'{res}')
        # jobs already handed to a worker or buffered may still begin, no others
        late = len(pipe.started) - pipe.failed_at
        if late > cfg['workers'] + cfg['kw'].get('buffer_size', 0):
            raise Violation('pipeline continues after a failure', f'{late} more jobs started')
    return res, tuple(sorted(pipe.done)), pipe.failed_at


def configs(tier):
    cs = []
    q = tier == 'quick'
    for prod in ('list', 'gen', 'agen'):
        for workers, jobs, buf in ((1, 3, 0), (2, 3, 0), (2, 4, 1), (3, 2, 0), (2, 1, 2), (3, 0, 0), (3, 4, 1)) if not q else ((2, 3, 0), (2, 3, 1), (3, 2, 0), (2, 0, 0), (1, 2, 0)):
            kw = {} if buf == 0 else {'buffer_size': buf}
            base = dict(producer=prod, workers=workers, jobs=jobs, kw=kw)
            s = 3 if q else 4
            cs.append((f'{prod}-{workers}w{jobs}j{buf}b', base, {'sched': s}))
            f = ['before', 'after', 'setup', 'finalize'] + ([] if prod == 'list' else ['gen'])
            cs.append((f'{prod}-{workers}w{jobs}j{buf}b-fail', dict(base, fail=f), {'sched': s - 1, 'fault': 1}))
            cs.append((f'{prod}-{workers}w{jobs}j{buf}b-cancel', dict(base, cancel=True), {'sched': s - 1, 'fault': 1}))
    return cs


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=150 if tier == 'quick' else 3000, check_determinism=True)
    rep.add_stats('schedules', st, 'every schedule within the deviation bound combined with every single failure or cancellation point')


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough') + configs('quick'))[data['config']]
    _, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation: {out}')
    return 1 if viol else 0
