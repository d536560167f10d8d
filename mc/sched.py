'''Controlled Trio scheduler: every choice of the next task to step is a `Chooser` decision.

Trio's run loop takes a batch from `runner.runq` each pass. `ControlledQueue` replaces that deque and
hands out exactly one task per pass, the one the chooser picks. Virtual time is an auto-jumping
MockClock. `trio.to_thread.run_sync` is replaced by a synchronous call surrounded by two scheduling
points, so that no real thread runs. If every task is blocked and no timer is pending, the run is
reported as a deadlock.
'''
import collections
import contextlib
import threading
import math

import trio
import trio.testing
from trio._core import _run as trio_run


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class ControlledQueue:
    def __init__(self, ctl, initial):
        self.ctl = ctl
        self.picked = None
        self.q = []
        self.stamp = {}
        for t in initial:
            self.append(t)

    def append(self, task):
        # Canonical order: by scheduler step, then by creation. Trio wakes and cancels sets of tasks in
        # arbitrary order; that order must not leak into the choice labels.
        self.stamp[task] = (self.ctl.steps, self.ctl.index(task))
        self.q.append(task)
        self.q.sort(key=self.stamp.__getitem__)

    def __bool__(self):
        return bool(self.q)

    def __len__(self):
        return len(self.q)

    def __iter__(self):
        if self.ctl.hung:
            # even cancellation does not end the run: leave the event loop
            raise Deadlock()
        if not self.q:
            return iter(())
        self.picked = t = self.ctl.pick(self.q)
        return iter((t,))

    def clear(self):
        if self.picked is not None:
            self.q.remove(self.picked)
            self.picked = None


class Controller:
    def __init__(self, ch, max_steps=20000, kind='sched'):
        self.ch = ch
        self.kind = kind
        self.last = None
        self.steps = 0
        self.max_steps = max_steps
        self.active = False
        self.ids = {}
        self.overflow = False
        self.deadlocked = False
        self.hung = False
        self.scope = None
        self.on_step = None
        self.error = None
        self.names = {}

    def index(self, t):
        r = self.ids.get(t)
        if r is None:
            base = str(t.name).rsplit('.', 1)[-1]
            k = self.names.get(base, 0)
            self.names[base] = k + 1
            r = self.ids[t] = (len(self.ids), f'{base}#{k}')
        return r[0]

    def tname(self, t):
        self.index(t)
        return self.ids[t][1]

    def pick(self, q):
        if self.error is not None:
            return q[0]
        try:
            return self._pick(q)
        except BaseException as exc:
            # Must not propagate into the run loop. Stop exploring, report after the run.
            self.error = exc
            if self.scope is not None:
                self.scope.cancel()
            return q[0]

    def _pick(self, q):
        self.steps += 1
        if self.on_step is not None:
            self.on_step()
        if self.steps > self.max_steps and self.scope is not None and not self.overflow:
            self.overflow = True
            self.scope.cancel()
        # system tasks first, never a choice
        for t in q:
            if t is trio_run.GLOBAL_RUN_CONTEXT.runner.init_task or 'entry_queue' in str(t.name) or 'EntryQueue' in str(t.name):
                return t
        if len(q) == 1 or not self.active or self.overflow or self.deadlocked:
            t = q[0]
            self.last = t
            return t
        order = list(q)
        if self.last in order:
            order.remove(self.last)
            order.insert(0, self.last)
        i = self.ch.choose(len(order), 'sched:' + '|'.join(self.tname(t) for t in order), self.kind)
        self.last = order[i]
        return order[i]


class _DeadlockInstrument(trio.abc.Instrument):
    def __init__(self, ctl):
        self.ctl = ctl
        self.idle = 0

    def before_io_wait(self, timeout):
        runner = trio_run.GLOBAL_RUN_CONTEXT.runner
        if runner.runq or runner.waiting_for_idle or runner.deadlines.next_deadline() != math.inf:
            self.idle = 0
            return
        # several idle passes in a row: the run loop's own wakeups arrive as I/O events
        self.idle += 1
        if self.idle < 4 or self.ctl.scope is None:
            return
        self.idle = 0
        if self.ctl.deadlocked:
            # cancellation did not help either
            self.ctl.hung = True
            runner.entry_queue.run_sync_soon(lambda: None)
            return
        self.ctl.deadlocked = True

        def kill():
            if self.ctl.scope is not None:
                self.ctl.scope.cancel()

        runner.entry_queue.run_sync_soon(kill)


async def _sync_thread(sync_fn, *args, thread_name=None, abandon_on_cancel=False, limiter=None):
    if limiter is not None:
        async with limiter:
            await trio.lowlevel.checkpoint()
            r = sync_fn(*args)
            await trio.lowlevel.cancel_shielded_checkpoint()
            return r
    await trio.lowlevel.checkpoint()
    r = sync_fn(*args)
    await trio.lowlevel.cancel_shielded_checkpoint()
    return r


@contextlib.contextmanager
def patched_threads():
    orig = trio.to_thread.run_sync
    trio.to_thread.run_sync = _sync_thread
    try:
        yield
    finally:
        trio.to_thread.run_sync = orig


async def _nothread(sync_fn, *args, thread_name=None, abandon_on_cancel=False, limiter=None):
    '''Plain synchronous stand-in with one ordinary checkpoint (no exploration)'''
    r = sync_fn(*args)
    await trio.lowlevel.cancel_shielded_checkpoint()
    return r


class _Abort(BaseException):
    pass


class _Split:
    '''A function running in its own thread, advanced step by step by a Trio task'''

    local = threading.local()

    def __init__(self, fn, args):
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = self.abort = False
        self.res = None
        self.thread = threading.Thread(target=self.body, args=(fn, args), daemon=True)
        self.thread.start()

    def body(self, fn, args):
        _Split.local.cur = self
        self.go.acquire()
        try:
            if not self.abort:
                self.res = (True, fn(*args))
        except BaseException as exc:
            self.res = (False, exc)
        self.done = True
        self.back.release()

    def step(self):
        self.go.release()
        self.back.acquire()
        return self.done

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.abort:
            raise _Abort()


def pause():
    '''Scheduling point inside a function that runs in a (split) worker thread'''
    cur = getattr(_Split.local, 'cur', None)
    if cur is not None:
        cur.pause()


async def _split_thread(sync_fn, *args, thread_name=None, abandon_on_cancel=False, limiter=None):
    if limiter is not None:
        async with limiter:
            return await _split_thread(sync_fn, *args)
    await trio.lowlevel.checkpoint()
    t = _Split(sync_fn, args)
    try:
        while not t.step():
            await trio.lowlevel.cancel_shielded_checkpoint()
    except BaseException:
        t.abort = True
        t.go.release()
        t.thread.join()
        raise
    t.thread.join()
    await trio.lowlevel.cancel_shielded_checkpoint()
    if t.res[0]:
        return t.res[1]
    raise t.res[1]


def run_controlled(async_fn, ch, *args, max_steps=20000, threads='explore', kind='sched'):
    '''Run async_fn(ctl, *args) under the controlled scheduler.

    The function sets `ctl.active = True` once the exploration should begin. Raises Deadlock or
    StepLimit if the run could not finish.
    '''
    ctl = Controller(ch, max_steps, kind)

    async def main():
        runner = trio_run.GLOBAL_RUN_CONTEXT.runner
        runner.runq = ControlledQueue(ctl, runner.runq)
        with trio.CancelScope() as scope:
            ctl.scope = scope
            try:
                return await async_fn(ctl, *args)
            finally:
                if not ctl.deadlocked:
                    ctl.scope = None

    trio_run._r.seed(1)
    clock = trio.testing.MockClock(autojump_threshold=0)
    orig = trio.to_thread.run_sync
    trio.to_thread.run_sync = {'explore': _sync_thread, 'split': _split_thread}.get(threads, _nothread)
    try:
        res = trio.run(main, clock=clock, instruments=[_DeadlockInstrument(ctl)])
    except BaseException:
        if ctl.error is not None:
            raise ctl.error from None
        if ctl.hung:
            raise Deadlock() from None
        raise
    finally:
        trio.to_thread.run_sync = orig
        ch.steps += ctl.steps
    if ctl.error is not None:
        raise ctl.error
    if ctl.deadlocked:
        raise Deadlock()
    if ctl.overflow:
        raise StepLimit()
    return res
