'''C18: the local backend under concurrency, crashes and all key sets.'''
import builtins
import io
import itertools
import os
import re
import shutil

import trio

from mc import sched, world
from mc.explore import Divergence, Violation, explore, pmap, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql import common
from s3ql.backends import local
from s3ql.backends.common import NoSuchObject

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real local backend in a scratch directory: all schedules (with scheduling points inside worker threads) of small concurrent programs, all crash and error points of a store, all small key sets and prefixes'
NOTE = (
    'Programs of up to 4 tasks on up to 2 keys, three-chunk objects, every schedule within the deviation bound, results checked for linearizability; '
    'the process dies before or after every file operation and every chunk of a store (and of a pair of concurrent stores).'
)

TMP = re.compile(r'^[^#]+#[0-9]+--?[0-9]+\.tmp$')  # what fsck.s3ql removes


class Crash(BaseException):
    pass


def val(i):
    return b'%d' % i * (8 + i) + b'.'


class Src(io.BytesIO):
    '''Source handle: every read is a scheduling point (and a crash point)'''

    hook = None

    def read(self, n=-1):
        sched.pause()
        if self.hook:
            self.hook('read')
        return super().read(n)


class Dst(io.BytesIO):
    def write(self, b):
        sched.pause()
        return super().write(b)


def linearizable(hist, final):
    '''hist: list of (start, end, op, arg, result); is there an order explaining everything?'''

    def rec(state, todo):
        if not todo:
            return state == final
        first_end = min(h[1] for h in todo)
        for i, h in enumerate(todo):
            if h[0] > first_end:
                continue
            _, _, op, arg, res = h
            nxt = state
            if op == 'store':
                nxt = arg
            elif op == 'delete':
                nxt = None
            elif op in ('read', 'lookup'):
                if res != state:
                    continue
            elif op == 'contains' and res != (state is not None):
                continue
            if rec(nxt, todo[:i] + todo[i + 1 :]):
                return True
        return False

    return rec


async def run_op(be, op, hist, clock):
    name, key, arg = op
    t0 = clock()
    res = None
    if name == 'store':
        await be.write_fh(key, Src(val(arg)), {'v': arg})
        arg = arg
    elif name == 'delete':
        await be.delete(key)
    elif name == 'read':
        fh = Dst()
        try:
            m = await be.readinto_fh(key, fh)
        except NoSuchObject:
            res = None
        else:
            res = m['v']
            if fh.getvalue() != val(res):
                raise Violation('read returns a mixture of versions', f'{key}: metadata of {res}, data {fh.getvalue()!r}')
    elif name == 'lookup':
        try:
            res = (await be.lookup(key))['v']
        except NoSuchObject:
            res = None
    elif name == 'contains':
        res = await be.contains(key)
    elif name == 'list':
        res = [x async for x in be.list(key)]
    hist.append((t0, clock(), name, key, arg, res))


async def state(be, keys):
    out = {}
    for k in keys:
        try:
            d, m = await be.fetch(k)
        except NoSuchObject:
            out[k] = None
            if await be.contains(k):
                raise Violation('contains() disagrees with read', k) from None
            continue
        except Exception as exc:
            raise Violation('object unreadable', f'{k}: {exc!r}') from None
        if d != val(m['v']):
            raise Violation('object is a mixture of versions', f'{k}: {m} {d!r}')
        out[k] = m['v']
        if (await be.lookup(k)) != m or not await be.contains(k):
            raise Violation('lookup disagrees with read', k)
    lst = [x async for x in be.list()]
    if sorted(lst) != sorted(k for k in keys if out[k] is not None):
        raise Violation('listing does not match the stored objects', f'listed {lst}, stored {out}')
    return out


def leftovers(d):
    return [f for _, _, fs in os.walk(d) for f in fs if '#' in f]


A, B, C = 's3ql_data_1', 's3ql_data_1234', 's3ql_params'
PROGS = {
    'two stores': [[('store', A, 2)], [('store', A, 3)]],
    'two stores, deep key': [[('store', B, 2)], [('store', B, 3)]],
    'stores of two keys in a new directory': [[('store', B, 2)], [('store', 's3ql_data_1235', 3)]],
    'store and read': [[('store', A, 2)], [('read', A, None), ('lookup', A, None)]],
    'store and delete': [[('store', A, 2)], [('delete', A, None), ('contains', A, None)]],
    'two stores and read': [[('store', A, 2)], [('store', A, 3)], [('read', A, None)]],
    'store, delete and read': [[('store', A, 2)], [('delete', A, None)], [('read', A, None)]],
    'stores and list': [[('store', A, 2)], [('store', C, 3)], [('list', '', None)]],
    'delete and read': [[('delete', A, None)], [('read', A, None)], [('lookup', A, None)]],
    'store twice against store': [[('store', A, 2), ('store', A, 4)], [('store', A, 3)]],
    'three stores': [[('store', A, 2)], [('store', A, 3)], [('store', A, 4)]],
}
BUF = 4


def harness(cfg, ch):
    name, limit, pre = cfg
    prog = PROGS[name]
    d = world.workdir()
    old = common.BUFSIZE
    common.BUFSIZE = BUF
    hist = []
    n = [0]

    def clock():
        n[0] += 1
        return n[0]

    async def main(ctl):
        be = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={}, max_connections=limit)
        keys = sorted({op[1] for t in prog for op in t if op[1]})
        init = {k: None for k in keys}
        if pre:
            for k in keys:
                await be.store(k, val(1), {'v': 1})
                init[k] = 1

        async def client(t):
            for op in t:
                await run_op(be, op, hist, clock)

        ctl.active = True
        async with trio.open_nursery() as nursery:
            for i, t in enumerate(prog):
                nursery.start_soon(client, t, name=f'task{i}')
        ctl.active = False
        fin = await state(be, keys)
        for k in keys:
            h = [(a, b, op, arg, res) for a, b, op, key, arg, res in hist if key == k]
            if not linearizable(h, fin[k])(init[k], h):
                raise Violation('results are not those of any order of the requests', f'{name}: {k} initially {init[k]}, finally {fin[k]}: {h}')
        for a, b, op, pfx, _, res in hist:
            if op != 'list':
                continue
            if len(set(res)) != len(res):
                raise Violation('listing returns a key twice', repr(res))
            for k in keys:
                # present throughout / never present
                stores = [x for x in hist if x[3] == k and x[2] in ('store', 'delete')]
                if k in res and not pre and not [x for x in stores if x[2] == 'store' and x[0] < b]:
                    raise Violation('listing returns a key that was never stored', k)
                always = (pre and not [x for x in stores if x[2] == 'delete' and x[0] < b]) or [x for x in stores if x[2] == 'store' and x[1] < a and not any(y[2] == 'delete' and y[0] < b for y in stores)]
                if always and k not in res:
                    raise Violation('listing misses a stored key', f'{k}: {res}')
            if set(res) - set(keys):
                raise Violation('listing returns something that is not an object', repr(res))
        left = leftovers(d)
        if left:
            raise Violation('completed requests leave temporary files', repr(left))
        return repr(sorted(fin.items())) + repr([(h[2], h[5]) for h in sorted(hist, key=lambda x: x[2:4])])

    try:
        return run_controlled(main, ch, threads='split')
    except (Deadlock, StepLimit) as exc:
        raise Violation('requests do not terminate', f'{name}: {exc!r}') from None
    except (Violation, Divergence):
        raise
    except BaseException as exc:
        e = exc
        while isinstance(e, BaseExceptionGroup):
            e = e.exceptions[0]
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception):
            raise
        raise Violation('request fails because of another one', f'{name}: {e!r}') from None
    finally:
        common.BUFSIZE = old
        shutil.rmtree(d, ignore_errors=True)


# -- crash and error points -----------------------------------------------------------------------
OPS = ['rename', 'replace', 'link', 'unlink', 'remove', 'makedirs', 'mkdir', 'open', 'ftruncate', 'truncate', 'write']


class Fault:
    '''Interrupts the process (or fails an operation) at the n-th file operation'''

    def __init__(self, d, at, exc):
        self.d = d
        self.at = at
        self.exc = exc
        self.n = 0
        self.log = []
        self.saved = {}
        self.dead = False

    def point(self, what):
        if self.dead:
            raise self.exc()
        if self.n == self.at:
            self.dead = self.exc is Crash
            self.n += 1
            self.log.append('! ' + what)
            raise self.exc()
        self.n += 1
        self.log.append(what)

    def __enter__(self):
        for name in OPS:
            f = self.saved[name] = getattr(os, name)

            def wrapped(*a, _f=f, _n=name, **k):
                if not (isinstance(a[0], (str, int)) and (isinstance(a[0], int) or str(a[0]).startswith(self.d))):
                    return _f(*a, **k)
                self.point('before ' + _n)
                r = _f(*a, **k)
                if self.exc is Crash:
                    self.point('after ' + _n)
                return r

            setattr(os, name, wrapped)
        self.had = 'open' in vars(local)

        def opener(path, mode='r', *a, **k):
            if 'w' not in mode and 'x' not in mode and 'a' not in mode and '+' not in mode:
                return builtins.open(path, mode, *a, **k)
            self.point('before open')
            fh = builtins.open(path, mode, *a, **k)
            return Writer(fh, self)

        local.open = opener
        Src.hook = staticmethod(lambda what: self.point(what))
        return self

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(os, name, f)
        if not self.had:
            del local.open
        Src.hook = None


class Writer:
    '''File opened for writing: torn writes and errors'''

    def __init__(self, fh, fault):
        self.fh = fh
        self.fault = fault

    def write(self, b):
        try:
            self.fault.point('before write')
        except Crash:
            raise
        if self.fault.exc is Crash and len(b) > 1:
            self.fh.write(b[: len(b) // 2])
            self.fault.point('inside write')
            self.fh.write(b[len(b) // 2 :])
        else:
            self.fh.write(b)
        return len(b)

    def close(self):
        self.fh.close()
        self.fault.point('after close') if self.fault.exc is Crash and not self.fault.dead else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, n):
        return getattr(self.fh, n)


def enospc():
    return OSError(28, 'No space left on device')


def fault_item(it):
    '''One interrupted operation; returns (reached, violation)'''
    kind, key, pre, op, at = it
    d = world.workdir()
    old = common.BUFSIZE
    common.BUFSIZE = BUF
    reached = [False, '']

    async def make():
        return await local.AsyncBackend.create(storage_url='local://' + d, backend_options={}, max_connections=2)

    async def first():
        be = await make()
        if pre:
            await be.store(key, val(1), {'v': 1})
        await be.store(C, val(7), {'v': 7})
        f = Fault(d, at, Crash if kind == 'crash' else enospc)
        ok = False
        try:
            with f:
                if op == 'store':
                    await be.write_fh(key, Src(val(2)), {'v': 2})
                else:
                    await be.delete(key)
            ok = True
        except Crash:
            pass
        except OSError as exc:
            if exc.errno != 28:
                raise
        reached[:] = [f.n > at, f.log[-1] if f.log else '']
        return ok

    async def second(ok):
        be = await make()
        s = await state(be, [key, C])
        new = 2 if op == 'store' else None
        want = {new} if ok else {1 if pre else None, new}
        if s[key] not in want or s[C] != 7:
            raise Violation('interrupted request leaves a wrong state', f'{it} at {reached[1]}: {s}')
        for f in leftovers(d):
            if not TMP.match(f):
                raise Violation('interrupted store leaves a file that nothing cleans up', f'{it} at {reached[1]}: {f}')
        # and the next store works and leaves exactly the objects
        await be.write_fh(key, Src(val(3)), {'v': 3})
        if (await state(be, [key, C]))[key] != 3:
            raise Violation('store after an interrupted one is lost', f'{it} at {reached[1]}')
        await be.delete(key)
        if (await state(be, [key, C]))[key] is not None:
            raise Violation('deleted object comes back', f'{it} at {reached[1]}')

    try:
        with sched.patched_threads():
            ok = trio.run(first)
            trio.run(second, ok)
        return reached[0], None
    except Violation as v:
        return reached[0], (v.sig, v.detail)
    except Exception as exc:
        return reached[0], ('request after an interrupted one fails', f'{it} at {reached[1]}: {exc!r}')
    finally:
        common.BUFSIZE = old
        shutil.rmtree(d, ignore_errors=True)


# -- key sets and prefixes ------------------------------------------------------------------------
NUMS = ['1', '12', '123', '1234', '12345', '123456', '1234567', '2', '124', '13', '1235678', '0', '1000', '999999999']
OTHER = ['s3ql_params', 's3ql_metadata_0000000001', 's3ql_metadata', 's3ql_data', 's3ql_', 'a/b', 'a=2Fb', 'a#b', 's3ql_data_1#', 's3ql_data_=', 's3ql_data_12/3', 'x']


# everything that could be mistaken for an escaped character, or is one
PARTS = ['=', '/', '#', '3D', '2F', '23', 'a', '.', '=3D', '=2F', '=23', '%2F', ' ']


def awkward():
    ks = sorted({''.join(x) for n in (1, 2, 3) for x in itertools.product(PARTS, repeat=n)} - {'.', '..', '...'})
    return [pre + k for k in ks for pre in ('', 's3ql_data_')]


def list_item(it):
    keys = it[1]
    d = world.workdir()

    async def main():
        be = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={})
        n = 0
        for k in keys:
            await be.store(k, k.encode(), {'v': k})
        few = len(keys) > 40
        pfx = {''} | {k[:i] for k in keys for i in range(1, len(k) + 1)} | {'zzz', 's3ql_data_9', 's3ql_data_1239', 's3ql_d'}
        if few:
            pfx = {'', 's3ql_data_', *keys}
        for p in sorted(pfx):
            n += 1
            got = [x async for x in be.list(p)]
            want = [k for k in keys if k.startswith(p)]
            if sorted(got) != sorted(want):
                raise Violation('listing does not return exactly the keys with the prefix', f'keys {keys} prefix {p!r}: got {sorted(got)}, expected {sorted(want)}')
        for k in keys:
            if await be.fetch(k) != (k.encode(), {'v': k}) or await be.lookup(k) != {'v': k} or not await be.contains(k):
                raise Violation('object was replaced by one with another key', f'{keys}: {k}')
        for k in NUMS:
            k = 's3ql_data_' + k
            if k in keys:
                continue
            for what in ('lookup', 'read', 'get_size'):
                n += 1
                try:
                    await getattr(be, what)(k)
                except NoSuchObject:
                    continue
                except Exception as exc:
                    raise Violation(f'{what} of a missing object does not report it as missing', f'{k}: {exc!r}') from None
                raise Violation(f'{what} of a missing object succeeds', k)
            if await be.contains(k):
                raise Violation('contains() true for missing object', k)
            await be.delete(k)
        rest = list(keys)
        for k in keys:
            await be.delete(k)
            rest.remove(k)
            if few and len(rest) % 20:
                continue
            if sorted([x async for x in be.list('')]) != sorted(rest):
                raise Violation('deleting removes something else', f'{keys}: {k}')
        return n

    try:
        with sched.patched_threads():
            return trio.run(main), None
    except Violation as v:
        return 0, (v.sig, v.detail)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def any_item(it):
    return list_item(it) if it[0] == 'list' else fault_item(it)


def items(tier):
    for kind in ('crash', 'fail'):
        for key in (A, B, C + 'x'):
            for pre in (False, True):
                for op in ('store', 'delete'):
                    for at in range(60):
                        yield (kind, key, pre, op, at)
    k = 3 if tier == 'quick' else 4
    nums = ['s3ql_data_' + x for x in NUMS]
    for n in range(1, k + 1):
        for c in itertools.combinations(nums[:9], n):
            yield ('list', c)
    for n in range(1, 3):
        for c in itertools.combinations(nums[:6] + OTHER, n):
            yield ('list', c)
    aw = awkward()
    for i in range(0, len(aw), 100):
        yield ('list', tuple(aw[i : i + 100]))
    yield ('list', tuple(nums))
    yield ('list', tuple(nums + OTHER))


def configs(tier):
    dev = 3 if tier == 'quick' else 5
    for name in PROGS:
        three = len(PROGS[name]) > 2
        for pre in (False, True):
            for limit in (1, 4):
                yield f'{name}, limit {limit}, {"existing" if pre else "new"}', (name, limit, pre), {'sched': dev - 1 if three else dev + 1}


def run(rep, tier):
    st = explore(harness, list(configs(tier)), {}, wall=100 if tier == 'quick' else 3000, check_determinism=True)
    rep.add_stats('schedules', st)
    n = pts = 0
    for it, (k, v) in pmap(any_item, list(items(tier)), wall=100 if tier == 'quick' else 1500):
        n += 1
        if it[0] != 'list':
            pts += bool(k)
        if v:
            rep.violation(v[0], v[1], {'item': it})
    rep.coverage.setdefault('parts', {})['faults'] = {'interruption_points': pts, 'items': n}
    rep.coverage['traces_validated_against_impl'] += n
    rep.coverage['rule'] = 'all schedules within the deviation bound of each program x connection limit x initial state; interruption at each file operation and chunk; all key subsets up to the stated size x all prefixes'


def replay(data):
    if 'item' in data:
        r = any_item(tuple(tuple(x) if isinstance(x, list) else x for x in data['item']))
        print(r)
        return 1 if r[1] else 0
    for n, c, *_ in configs('thorough'):
        if n == data['config']:
            r = run_one(harness, c, tuple(data['trace']))
            print(r[2] and r[2].sig, r[2] and r[2].detail)
            return 1 if r[2] else 0
    return 2
