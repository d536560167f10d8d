'''Block cache harness: the real BlockCache, its real worker tasks, the real SQLite metadata and
real cache files, under the controlled scheduler, with an in-memory backend.'''
import os
import traceback

import trio

from mc import world
from mc.explore import Violation
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.block_cache import BlockCache

I0 = 4  # first test inode (1 root, 2 control, 3 lost+found)


# ---- sequential specification of one block ------------------------------------------------


def apply_op(op, val):
    '''Return (new value, result) of a block operation on the content *val*'''
    k = op[0]
    if k == 'w':  # overwrite whole block
        return op[3], None
    if k == 'p':  # partial write at offset
        off, data = op[3], op[4]
        v = val.ljust(off, b'\0')
        return v[:off] + data + v[off + len(data) :], None
    if k == 't':
        n = op[3]
        return val[:n].ljust(n, b'\0'), None
    if k == 'r':
        return val, val
    if k in ('rm', 'rmr'):
        return b'', None
    if k == 'clone':  # copy of a block that is known to contain op[5]
        return op[5], None
    raise AssertionError(op)


def linearizable(events, init):
    '''*events*: list of (op, start, end, result); end None = still pending. Brute force.

    Returns the set of possible final values, empty if not linearizable.'''
    n = len(events)
    finals = set()
    seen = set()

    def rec(done, val):
        if (done, val) in seen:
            return
        seen.add((done, val))
        if all(done >> i & 1 or events[i][2] is None for i in range(n)):
            finals.add(val)
        # minimal: no undone completed event ended before it started
        for i in range(n):
            if done >> i & 1:
                continue
            s = events[i][1]
            ok = True
            for j in range(n):
                if j != i and not done >> j & 1 and events[j][2] is not None and events[j][2] < s:
                    ok = False
                    break
            if not ok:
                continue
            nv, res = apply_op(events[i][0], val)
            if events[i][2] is not None and events[i][3] != res:
                continue
            rec(done | 1 << i, nv)

    rec(0, init)
    return finals


class Run:
    def __init__(self, cfg):
        self.cfg = cfg
        self.clock = 0
        self.history = []  # [op, start, end, result, task]
        self.d = None
        self.cache = None
        self.db = None
        self.backend = None
        self.fs = None
        self.phase = 'setup'
        self.monitor = []
        self.hook = None
        self.failed = False
        self.on_step = None
        self.after_op = None  # called when an operation of a client has finished

    def tick(self):
        self.clock += 1
        return self.clock


async def do_op(run, op):
    cache = run.cache
    k = op[0]
    if k == 'w':
        _, i, b, data = op
        h = len(data) // 2
        async with cache.get(i, b) as el:
            el.seek(0)
            el.truncate(0)
            el.write(data[:h])
            await trio.lowlevel.checkpoint()
            el.seek(h)
            el.write(data[h:])
        return None
    if k == 'p':
        _, i, b, off, data = op
        async with cache.get(i, b, max_write=off + len(data) - 1) as el:
            el.seek(off)
            el.write(data)
        return None
    if k == 't':
        _, i, b, n = op
        async with cache.get(i, b) as el:
            el.truncate(n)
        return None
    if k == 'r':
        _, i, b = op
        async with cache.get(i, b) as el:
            el.seek(0)
            x = el.read(3)
            await trio.lowlevel.checkpoint()
            el.seek(3)
            return x + el.read()
    if k == 'rm':
        await cache.remove(op[1], op[2])
        return None
    if k == 'rmr':
        await cache.remove(op[1], op[2], op[3])
        return None
    if k == 'flush':
        await cache.flush()
        return None
    if k == 'sflush':
        await cache.start_flush(op[1])
        return None
    if k == 'drop':
        await cache.drop()
        return None
    if k == 'clone':
        # as by s3qlcp (the target does not exist before)
        _, i, b, j, c, _ = op
        await cache.start_flush(i)
        db = run.db
        for (oid,) in db.get_list('SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?', (i, b)):
            db.execute('INSERT INTO inode_blocks (inode, blockno, obj_id) VALUES(?,?,?)', (j, c, oid))
            db.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (oid,))
        return None
    if k == 'reload':
        # as by unmounting and mounting with --keep-cache
        await cache.destroy(keep_cache=True)
        run.cache = await run.new_cache()
        return None
    if k == 'stat':
        n, used, dc, ds, _ = cache.get_usage()
        return (n, used, dc, ds)
    raise AssertionError(op)


async def timed(run, op, task):
    ev = [op, run.tick(), None, None, task]
    run.history.append(ev)
    ev[3] = await do_op(run, op)
    ev[2] = run.tick()
    if run.after_op:
        run.after_op(ev)
    return ev


def blocks_of(op):
    if op[0] == 'rmr':
        return [(op[1], b) for b in range(op[2], op[3])]
    if op[0] in ('w', 'p', 't', 'r', 'rm'):
        return [(op[1], op[2])]
    if op[0] == 'clone':
        return [(op[3], op[4])]
    return []


def all_blocks(cfg):
    s = set(cfg.get('init', {}))
    for ops in cfg['tasks']:
        for op in ops:
            s.update(blocks_of(op))
    return sorted(s)


def history_finals(run, cfg, extra=()):
    '''Check linearizability of each block; return {block: set of final values}'''
    res = {}
    for key in all_blocks(cfg):
        ev = [tuple(e[:4]) for e in run.history if key in blocks_of(e[0])]
        finals = linearizable(ev, cfg.get('init', {}).get(key, b''))
        if not finals:
            raise Violation(
                'block history not linearizable',
                f'block {key}, initial {cfg.get("init", {}).get(key, b"")!r}\n'
                + '\n'.join(f'{e[1]:3}..{e[2]} {e[0]} -> {e[3]!r}' for e in ev),
            )
        res[key] = finals
    return res


def check_accounting(run, when):
    n, used, dc, ds, _ = run.cache.get_usage()
    files = {}
    for f in os.listdir(run.cache.path):
        if f.endswith('.tmp'):
            continue
        files[f] = os.path.getsize(os.path.join(run.cache.path, f))
    if n != len(files):
        raise Violation('cache entry count wrong', f'{when}: reported {n}, files {files}')
    if used != sum(files.values()):
        raise Violation('cache size accounting wrong', f'{when}: reported {used}, files {files}')
    if not (0 <= dc <= n and 0 <= ds <= used):
        raise Violation('dirty accounting wrong', f'{when}: {n} {used} {dc} {ds}')
    return n, used, dc, ds


async def scenario(ctl, run, on_setup=None, on_quiet=None):
    cfg = run.cfg
    run.d = world.workdir()
    run.db = world.new_db(run.d)
    for _ in range(cfg.get('inodes', 2)):
        world.add_inode(run.db, size=1 << 20)
    be = run.backend = world.MemBackend(*cfg.get('workers', (1, 1)))
    be.points = False

    def monitor(op, key):
        if op == 'delete':
            oid = int(key[10:])
            if run.db.has_val('SELECT 1 FROM inode_blocks WHERE obj_id=?', (oid,)):
                run.monitor.append(('deletes an object that is still referenced', key))
        elif op == 'write' and key in be.data:
            run.monitor.append(('overwrites an existing object', key))
        if run.hook:
            run.hook(op, key)

    be.hook = monitor
    run.fs = world.FakeFs()
    async with trio.open_nursery() as nursery:

        async def new_cache():
            cache = await BlockCache.create(
                be,
                run.db,
                os.path.join(run.d, 'cache'),
                cfg.get('max_size', 10000),
                cfg.get('max_entries', 2),
                nursery=nursery,
            )
            cache.fs = run.fs
            return cache

        run.new_cache = new_cache
        cache = run.cache = await new_cache()
        for (i, b), data in sorted(cfg.get('init', {}).items()):
            await do_op(run, ('w', i, b, data))
        if cfg.get('init'):
            if cfg.get('keep') != 'dirty':
                await cache.flush()
            if not cfg.get('keep'):
                await cache.drop()
            else:
                for b in cfg.get('evicted', ()):
                    pass
        # let workers become idle
        await trio.testing.wait_all_tasks_blocked()
        be.points = True
        run.history.clear()
        run.phase = 'run'
        if on_setup:
            on_setup(run)
        ctl.on_step = run.on_step
        ctl.active = True

        async def client(n, ops):
            for op in ops:
                await timed(run, op, n)

        async with trio.open_nursery() as clients:
            for n, ops in enumerate(cfg['tasks']):
                clients.start_soon(client, n, ops, name=f'client{n}')
        ctl.active = bool(cfg.get('explore_end'))
        run.phase = 'end'
        if on_quiet:
            await on_quiet(run)
        cache = run.cache
        check_accounting(run, 'after all operations')
        await cache.flush()
        n, used, dc, ds = check_accounting(run, 'after flush')
        if dc or ds:
            raise Violation('dirty entries after flush', f'{dc} entries, {ds} bytes')
        if cfg.get('final_reads', True):
            await cache.drop()
            if check_accounting(run, 'after drop')[0]:
                raise Violation('entries left after drop', '')
            for i, b in all_blocks(cfg):
                await timed(run, ('r', i, b), 'final')
        await cache.destroy(keep_cache=cfg.get('keep_cache', False))
        ctl.active = False
    run.phase = 'done'


def describe(run):
    return '\n'.join(f'{e[1]:3}..{e[2]} task {e[4]}: {e[0]} -> {e[3]!r}' for e in run.history)


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from leaves(e)
    else:
        yield exc
        for c in (exc.__context__, exc.__cause__):
            if c is not None:
                yield from leaves(c)


def leaf(exc):
    while isinstance(exc, BaseExceptionGroup) and exc.exceptions:
        exc = exc.exceptions[0]
    return exc


def execute(
    cfg, ch, hook=None, on_setup=None, on_quiet=None, final=True, cleanup=True, tolerate=()
):
    '''Run one execution, apply the generic oracles. Returns the Run'''
    run = Run(cfg)
    run.hook = hook
    try:
        with world.quiet_excepthook():
            try:
                run_controlled(lambda ctl: scenario(ctl, run, on_setup, on_quiet), ch, max_steps=6000)
            except Deadlock:
                raise Violation('deadlock', 'all tasks blocked\n' + describe(run)) from None
            except StepLimit:
                raise Violation('livelock', 'no end after 6000 steps\n' + describe(run)) from None
            except BaseException as exc:
                e = leaf(exc)
                if isinstance(e, Violation):
                    raise Violation(e.sig, f'{e.detail}\n{describe(run)}') from None
                from mc.explore import Divergence

                if isinstance(e, (Divergence, KeyboardInterrupt)):
                    raise e from None
                if tolerate and any(isinstance(x, tolerate) for x in leaves(exc)):
                    run.failed = True
                    return run
                tb = ''.join(traceback.format_exception(e)[-3:])
                raise Violation(
                    f'operation failed: {type(e).__name__}', f'{e}\n{tb}\n{describe(run)}'
                ) from None
        if final:
            if run.monitor:
                raise Violation(run.monitor[0][0], f'{run.monitor}\n{describe(run)}')
            if run.fs.failsafe:
                raise Violation('file system degraded to read-only without any fault', describe(run))
            history_finals(run, cfg)
        return run
    finally:
        if run.cache is not None:
            for el in list(run.cache.cache.values()):
                el.dirty = False
                try:
                    el.close()
                except Exception:
                    pass
        if cleanup:
            close(run)


def close(run):
    if run.db is not None:
        try:
            run.db.conn.close()
        except Exception:
            pass
    if run.d:
        world.rmdir(run.d)


def db_oracle(run, sizes=False):
    errs = world.check_db(run.db, run.backend, None)
    if errs:
        raise Violation('metadata/backend inconsistent at quiescence', '\n'.join(errs) + '\n' + describe(run))
