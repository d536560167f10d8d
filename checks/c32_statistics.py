'''C32: the numbers that s3qlstat, statfs and the cache statistics report are exact after every history.'''
import ast
import contextlib
import io
import os
import re
import struct
import time

import pyfuse3
import trio

from checks import c03_crash
from mc import fsmc, fsmodel, world
from mc.explore import Violation, pmap
from mc.fsmc import BLOCK, CTRL_INODE, Ctx

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all request sequences up to a depth on the real file system stack; every reported number is compared with the reference model, the cache directory and the objects in the backend'
NOTE = (
    'All sequences of requests of an alphabet from five set-ups; numbers compared with data in the cache, after a flush and after '
    'the cache was dropped. statfs() may lag by 30 s (documented in the code), so the clock is advanced before each call.'
)

_PLAN = None
_real_time = time.time


class FakeTime:
    def __init__(self):
        self.off = 0.0

    def __call__(self):
        return _real_time() + self.off


CLOCK = FakeTime()


def printed(buf):
    '''What s3qlstat --raw prints for *buf*'''
    from s3ql import statfs as mod

    saved = {}

    def patch(o, n, v):
        if hasattr(o, n):
            saved[(o, n)] = getattr(o, n)
            setattr(o, n, v)

    patch(mod, 'setup_logging', lambda *a, **k: None)
    patch(mod, 'assert_fs_owner', lambda *a, **k: '/nowhere')
    patch(pyfuse3, 'getxattr', lambda *a, **k: buf)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            mod.statfs('/nowhere', raw=True)
    finally:
        for (o, n), v in saved.items():
            setattr(o, n, v)
    return out.getvalue()


def parse(out):
    d = {}
    for ln in out.splitlines():
        k, v = ln.split(':', 1)
        d[k.strip()] = [float(x) for x in re.findall(r'\d+(?:\.\d+)?', v)]
    return d


def pct(a, b):
    return round(a * 100 / b, 2) if b else 0.0


async def numbers(env, m, when, outputs):
    buf = await env.fs.getxattr(CTRL_INODE, b's3qlstat', Ctx)
    v = struct.unpack('QQQQQQQQQQQQ', buf)
    files = {}
    p = env.cache.path
    if os.path.isdir(p):
        for f in os.listdir(p):
            with open(os.path.join(p, f), 'rb') as fh:
                files[f] = fh.read()
    exp = {
        0: ('directory entries', sum(len(n.children) for n in m.nodes.values())),
        2: ('inodes', len(m.nodes) + 1),
        3: ('total size', sum(n.size for n in m.nodes.values() if not n.hidden)),
        7: ('cache entries', len(files)),
        8: ('cache size', sum(map(len, files.values()))),
        6: ('database size', os.path.getsize(os.path.join(env.d, 'db'))),
    }
    be = env.be
    if when != 'in cache':
        exp[1] = ('objects', len(be.data))
        exp[4] = ('size after deduplication', sum(map(len, be.data.values())))
        exp[5] = ('size after compression', sum(be.stored_size(k) for k in be.data))
        exp[9] = ('dirty cache entries', 0)
        exp[10] = ('dirty cache size', 0)
    elif not (v[9] <= v[7] and v[10] <= v[8]):
        raise Violation('more dirty than cached data reported', f'{when}: {v}')
    else:
        # blocks whose data is not in the backend are dirty
        todo = {}
        for f, data in files.items():
            hit = re.match(r'^(\d+)-(\d+)$', f)
            if hit and world.read_block(env.db, be, int(hit.group(1)), int(hit.group(2))) != data:
                todo[f] = len(data)
        if v[9] < len(todo) or v[10] < sum(todo.values()):
            raise Violation('modified blocks are not reported as dirty', f'{when}: {v[9:11]}, modified {todo}')
    for i, (what, val) in exp.items():
        if v[i] != val:
            raise Violation(f's3qlstat reports a wrong number: {what}', f'{when}: {v[i]}, expected {val}\n{v}')
    CLOCK.off += 100
    s = await env.fs.statfs(Ctx)
    if s.f_files - s.f_ffree != len(m.nodes) + 1 or s.f_favail != s.f_ffree:
        raise Violation('statfs reports wrong number of inodes', f'{when}: {s.f_files} {s.f_ffree}, expected {len(m.nodes) + 1}')
    size = v[4]
    used = (s.f_blocks - s.f_bfree) * s.f_frsize
    if abs(used - size) > s.f_frsize or s.f_bsize != s.f_frsize or s.f_bavail != s.f_bfree or s.f_blocks * s.f_frsize < size:
        raise Violation(
            'statfs reports wrong space', f'{when}: {s.f_blocks} {s.f_bfree} {s.f_bavail} {s.f_frsize} {s.f_bsize}, data {size}'
        )
    outputs.append((when, v, buf))


async def run_path(setup, path, max_entries, outputs):
    env = fsmc.Env(max_entries)
    m = fsmodel.Model()
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            for o in tuple(setup) + tuple(path):
                await env.step(m, o, check=False)
                await env.drain()
                if o[0] == 'copy':
                    await env.compare(m, 'after copy', data=False)
            await numbers(env, m, 'in cache', outputs)
            await env.ctrl(b's3ql_flushcache!')
            await env.drain()
            await numbers(env, m, 'after flush', outputs)
            await env.ctrl(b's3ql_dropcache!')
            await env.drain()
            await numbers(env, m, 'after drop', outputs)
            errs = world.check_db(env.db, env.be, BLOCK, open_ok=[n.ino for n in m.nodes.values() if n.nlink == 0])
            if errs:
                raise Violation('metadata inconsistent', '\n'.join(errs))
        finally:
            await env.close()
        nursery.cancel_scope.cancel()


def judge(setup, path, max_entries):
    outputs = []
    orig = time.time
    time.time = CLOCK
    try:
        fsmc.trio_run(run_path, setup, path, max_entries, outputs)
    finally:
        time.time = orig
    for when, v, buf in outputs:
        d = parse(printed(buf))
        exp = {
            'Directory entries': [v[0]],
            'Inodes': [v[2]],
            'Data objects': [v[1]],
            'Total data size': [v[3]],
            'After de-duplication': [v[4], pct(v[4], v[3])],
            'After compression': [v[5], pct(v[5], v[3]), pct(v[5], v[4])],
            'Database size': [v[6]],
            'Cache size': [v[8], v[7]],
            'Cache size (dirty)': [v[10], v[9]],
        }
        for k, val in exp.items():
            if d.get(k) is not None and any(abs(a - b) > 0.011 for a, b in zip(d[k], val)) or d.get(k) is None:
                raise Violation('s3qlstat prints a wrong number', f'{when}: {k}: {d.get(k)}, expected {val}')
    return len(outputs)


SETUPS = dict(
    c03_crash.SETUPS,
    orphan=(('create', 0, b'a'), ('write', 2, 0, b'A' * 8), ('unlink', 0, b'a'), ('symlink', 0, b'a', b'target')),
)


def _item(item):
    setup, path, max_entries = item
    from mc.fsbfs import model_at

    base = model_at(SETUPS[setup] + path)
    n = 0
    viols = []
    nxt = []
    for op in c03_crash.alphabet(base, setup, path):
        m = base.clone()
        if m.apply(op).errnos:
            continue
        m.purge()
        try:
            n += judge(SETUPS[setup], path + (op,), max_entries)
        except Violation as v:
            viols.append((v.sig, f'{v.detail}\nsetup {SETUPS[setup]}\npath {path + (op,)}, cache entries {max_entries}',
                          repr((setup, path + (op,), max_entries))))  # fmt: skip
        nxt.append((op, repr(m.canon())))
    return n, viols[:5], nxt


def run(rep, tier):
    t0 = time.time()
    wall = 80 if tier == 'quick' else 3000
    frontier = [(s, (), e) for s in SETUPS for e in (100, 1)]
    states = set()
    edges = checked = 0
    capped = False
    viols = 0
    for depth in range(2 if tier == 'quick' else 3):
        nxt = []
        left = wall - (time.time() - t0)
        if left < 1:
            capped = True
            break
        try:
            for item, (n, vs, ops) in pmap(_item, frontier, wall=left):
                checked += n
                for sig, detail, data in vs:
                    viols += bool(rep.violation(sig, detail, {'path': data}))
                for op, key in ops:
                    edges += 1
                    states.add((item[2], key))
                    nxt.append((item[0], item[1] + (op,), item[2]))
        except TimeoutError:
            capped = True
        if viols or capped:
            break
        frontier = sorted(nxt, key=repr)
    rep.coverage.update(
        states=len(states), transitions=edges, traces_validated_against_impl=edges,
        exhaustive=not capped and not viols, sets_of_numbers_compared=checked, capped=capped,
        rule='all sequences of requests up to the depth (not deduplicated); three sets of numbers per sequence',
    )  # fmt: skip


def replay(data):
    setup, path, me = ast.literal_eval(data['path'])
    try:
        judge(SETUPS[setup], path, me)
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
