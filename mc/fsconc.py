'''Concurrent file system requests under the controlled scheduler, judged by brute-force linearization
over the reference model plus consistency at quiescence.'''
import itertools
import traceback

import pyfuse3
import trio
import trio.testing

from mc import fsmc, fsmodel, world
from mc.bc import leaf
from mc.explore import Divergence, Violation
from mc.sched import Deadlock, StepLimit, run_controlled

TREE_OPS = ('rmtree', 'copy', 'lock')
SCAN = ('readdir', 'stat', 'extstat')


class Ev:
    __slots__ = ('task', 'op', 'start', 'end', 'res', 'sym')

    def __init__(self, task, op, start, sym):
        self.task, self.op, self.start, self.sym = task, op, start, sym
        self.end = None
        self.res = None


class Stub:
    def __init__(self, ino, kind, lookups):
        self.ino, self.kind, self.lookups = ino, kind, lookups


class Names:
    def __init__(self, m):
        self.nodes = {k: Stub(n.ino, n.kind, n.lookups) for k, n in m.nodes.items()}


def attrs(a):
    return (a.st_ino, a.st_mode, a.st_uid, a.st_gid, a.st_nlink, a.st_size, a.st_rdev)


def model_attrs(n):
    return (n.ino, n.mode, n.uid, n.gid, n.nlink, n.size, n.rdev)


def resolve(op, mp):
    return tuple(mp.get(a, a) if isinstance(a, str) and a.startswith('@') else a for a in op)


async def observe(env, m):
    '''Everything visible: {ino: (mode, uid, gid, nlink, size, rdev, xattrs, target, content, entries)}'''
    res = {}
    todo = [1] + [n.ino for n in m.nodes.values() if n.ino]
    while todo:
        ino = todo.pop()
        if ino in res:
            continue
        try:
            a = await env.attr(ino)
        except KeyError:
            res[ino] = None
            continue
        kind = a.st_mode & 0o170000
        xa = {}
        for nm in await env.fs.listxattr(ino, fsmc.Ctx):
            xa[nm] = await env.fs.getxattr(ino, nm, fsmc.Ctx)
        ents = None
        content = target = None
        if kind == 0o040000:
            ents = {}
            for nm, c, _ in await env.readdir(ino):
                if nm in ents:
                    raise Violation('duplicate directory entry', f'{nm!r}')
                ents[nm] = c
                todo.append(c)
        elif kind == 0o120000:
            target = await env.fs.readlink(ino, fsmc.Ctx)
        elif kind == 0o100000:
            content = await env.read(ino, 0, a.st_size + 8)
        res[ino] = attrs(a)[1:] + (xa, target, content, ents)
    # root link count is not modelled
    if res.get(1):
        r = list(res[1])
        r[3] = 1
        res[1] = tuple(r)
    return res


def model_view(m, known):
    live = m.live()
    res = {}
    for n in m.nodes.values():
        if n.nid in live or n.lookups:
            res[n.ino] = model_attrs(n)[1:] + (
                dict(n.xattrs),
                n.target,
                n.content if n.kind == 'f' else None,
                {k: m.nodes[c].ino for k, c in n.children.items()} if n.kind == 'd' else None,
            )
    r = list(res[1])
    r[3] = 1
    res[1] = tuple(r)
    for ino in known:
        res.setdefault(ino, None)
    return res


def linearize(m0, evs, final, view=None, prefixes=None):
    '''Find an order of the events that explains results and final state. Returns model or None

    If *prefixes* is a list, all explaining orders are searched and every intermediate model is added.'''
    view = view or (lambda v: v)
    n = len(evs)
    why = []

    trail = []
    hit = []

    def rec(m, mp, done):
        trail.append(m)
        try:
            return rec2(m, mp, done)
        finally:
            trail.pop()

    def rec2(m, mp, done):
        if len(done) == n:
            v = view(model_view(m, final.keys()))
            if v == final:
                if prefixes is not None:
                    hit.append(m)
                    prefixes.extend(trail)
                    return None
                return m
            diff = {k: (final.get(k), v.get(k)) for k in set(v) | set(final) if final.get(k) != v.get(k)}
            why.append((tuple(evs[i].op for i in done), f'final state differs (observed, predicted): {diff}'))
            return None
        for i in range(n):
            if i in done:
                continue
            e = evs[i]
            if any(j not in done and j != i and evs[j].end < e.start for j in range(n)):
                continue
            m2 = m.clone()
            op = resolve(e.op, mp)
            mp2 = mp
            if op[0] == 'stat':
                nd = m2.nodes.get(op[1])
                if nd is None or ('ok', model_attrs(nd)) != e.res:
                    why.append((tuple(evs[i].op for i in done), f'{op}: result {e.res} not explained'))
                    continue
            elif op[0] not in SCAN:
                try:
                    x = m2.apply(op)
                except KeyError:
                    continue
                if x.errnos:
                    if not (e.res[0] == 'err' and e.res[1] in x.errnos):
                        why.append((tuple(evs[i].op for i in done), f'{op}: {e.res}, predicted {x.errnos}'))
                        continue
                elif e.res[0] == 'err':
                    why.append((tuple(evs[i].op for i in done), f'{op}: {e.res}, predicted success'))
                    continue
                elif x.new is not None:
                    m2.nodes[x.new].ino = e.res[1][0]
                    mp2 = dict(mp)
                    mp2[e.sym] = x.new
                elif op[0] == 'read' and e.res[1] != x.value:
                    why.append((tuple(evs[i].op for i in done), f'{op}: {e.res}, predicted {x.value!r}'))
                    continue
                elif op[0] in ('lookup', 'link') and e.res[1] != model_attrs(m2.nodes[x.target]):
                    why.append((tuple(evs[i].op for i in done), f'{op}: {e.res}'))
                    continue
                m2.purge()
            r = rec(m2, mp2, done + (i,))
            if r is not None:
                return r
        return None

    r = rec(m0.clone(), {}, ())
    return (hit[0] if hit else r), why


class Conc:
    def __init__(self, cfg):
        self.cfg = cfg
        self.clock = 0
        self.evs = []
        self.env = None
        self.m0 = None
        self.result = None

    async def client(self, t, ops):
        for k, op in enumerate(ops):
            if any(isinstance(a, str) and a.startswith('@') and a not in self.names.nodes for a in op[1:]):
                continue  # needs the result of a request that was refused
            self.clock += 1
            e = Ev(t, op, self.clock, f'@{t}.{k}')
            self.evs.append(e)
            e.res = await self.one(op, e.sym)
            self.clock += 1
            e.end = self.clock

    async def one(self, op, sym):
        env = self.env
        try:
            if op[0] == 'readdir':
                await env.readdir(self.names.nodes[op[1]].ino)
                return ('ok', None)
            if op[0] == 'extstat':
                await env.fs.getxattr(fsmc.CTRL_INODE, b's3qlstat', fsmc.Ctx)
                return ('ok', None)
            if op[0] == 'stat':
                return ('ok', attrs(await env.attr(self.names.nodes[op[1]].ino)))
            r = await env.perform(self.names, op)
        except pyfuse3.FUSEError as exc:
            return ('err', exc.errno)
        except Violation:
            raise
        except Exception as exc:
            raise Violation(
                f'{op[0]} failed with {type(exc).__name__} in a concurrent run',
                f'{exc!r}\n' + ''.join(traceback.format_exc().splitlines(True)[-6:]),
            ) from None
        if hasattr(r, 'st_ino'):
            if op[0] in ('create', 'mkdir', 'symlink', 'mknod'):
                self.names.nodes[sym] = Stub(r.st_ino, 'd' if op[0] == 'mkdir' else 'f', 1)
            return ('ok', attrs(r))
        return ('ok', r)


async def scenario(ctl, c):
    cfg = c.cfg
    env = c.env = fsmc.Env(cfg.get('max_entries', 100))
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        m = fsmodel.Model()
        for o in cfg['setup']:
            await env.step(m, o, check=False)
        await trio.testing.wait_all_tasks_blocked()
        c.m0 = m.clone()
        c.names = Names(m)
        for n in c.m0.nodes.values():
            assert n.ino is not None
        env.be.points = True
        ctl.active = True
        t0 = fsmc.CLOCK.t
        async with trio.open_nursery() as clients:
            for t, ops in enumerate(cfg['tasks']):
                clients.start_soon(c.client, t, ops, name=f'client{t}')
        ctl.active = False
        env.be.points = False
        if cfg.get('judge'):
            await cfg['judge'](c)
        else:
            final = await observe(env, c.m0_with(c.evs))
            r = linearize(c.m0, c.evs, final)
            if r[0] is None:
                raise Violation(
                    'concurrent requests: no sequential order explains results and final state',
                    '\n'.join(f'order {a}: {b}' for a, b in r[1][:4]),
                )
            m = r[0]
            c.result = tuple(e.res for e in c.evs)
            # timestamps of completed writes must not be lost
            for e in c.evs:
                if e.op[0] in ('write', 'hwrite', 'truncate') and e.res[0] == 'ok' and not isinstance(e.op[1], str):
                    nd = m.nodes.get(e.op[1])
                    if nd is not None and (await env.attr(nd.ino)).st_ctime_ns <= t0:
                        raise Violation('timestamp update lost', f'{e.op}')
            await env.settle(m, fsck=cfg.get('fsck', False))
        await env.cache.destroy()
        if env.fs.failsafe:
            raise Violation('file system switched to read-only mode', '')
        nursery.cancel_scope.cancel()


def _m0_with(self, evs):
    '''model of the setup, plus stubs for inodes that were created, for observation'''
    m = self.m0.clone()
    for e in evs:
        if e.res and e.res[0] == 'ok' and e.op[0] in ('create', 'mkdir', 'symlink', 'mknod'):
            n = m.add('f')
            n.ino = e.res[1][0]
    return m


Conc.m0_with = _m0_with


def describe(c):
    return '\n'.join(f'{e.start:3}..{e.end} task {e.task}: {e.op} -> {e.res}' for e in c.evs)


def harness(cfg, ch):
    c = Conc(cfg)
    try:
        with world.quiet_excepthook() as q:
            try:
                run_controlled(lambda ctl: scenario(ctl, c), ch, max_steps=8000)
            except Deadlock:
                raise Violation('deadlock', describe(c)) from None
            except StepLimit:
                raise Violation('livelock', describe(c)) from None
            except BaseException as exc:
                e = leaf(exc)
                if isinstance(e, Violation):
                    raise Violation(e.sig, f'{e.detail}\nsetup {cfg["setup"]}\n{describe(c)}') from None
                if isinstance(e, (Divergence, KeyboardInterrupt)):
                    raise e from None
                tb = ''.join(traceback.format_exception(e)[-4:])
                raise Violation(f'request failed: {type(e).__name__}', f'{e}\n{tb}\n{describe(c)}') from None
        bugs = [e for e in q.seen if 'BUG' in str(e) or 'destroy' in str(e)]
        if bugs:
            raise Violation('internal consistency alarm raised', repr(bugs[0]))
        return c.result, {'requests': len(c.evs)}
    finally:
        if c.env is not None:
            run_close(c.env)


def run_close(env):
    '''close() without an event loop'''
    co = env.close()
    try:
        co.send(None)
    except StopIteration:
        pass
