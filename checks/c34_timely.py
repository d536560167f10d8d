'''C34: modified data and metadata reach the backend within the configured delays.'''
import ast
import contextlib
import hashlib
import itertools
import os
import time
import traceback

import trio

from mc import bc, metadb, world
from mc.explore import Chooser, Divergence, Violation, explore, pmap, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.block_cache import BlockCache
from s3ql.mount import CommitTask, MetadataUploadTask

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of timed histories against the real CommitTask, MetadataUploadTask and block cache in virtual time, plus stateless model checking of their schedules'
NOTE = (
    'Histories of one action per time slot, for several slot lengths and upload durations; every schedule within the deviation bound for '
    'selected programs. Allowances: 10 s for the interval of the scan, plus the time taken by uploads in progress. In-memory backend.'
)
EPOCH = 1_700_000_000.0
DELAY = 6
SCAN = 10
X, Y = 4, 5
K = b'KKKKKKKK'


@contextlib.contextmanager
def virtual_time():
    '''time.time() and friends follow the clock of the event loop'''
    saved = time.time

    def now():
        try:
            return EPOCH + trio.current_time()
        except RuntimeError:
            return saved()

    time.time = now
    try:
        yield
    finally:
        time.time = saved


class Blocks:
    '''A block cache with its periodic upload; *prog* has one entry (a tuple of actions) per slot'''

    def __init__(self, cfg):
        self.cfg = cfg
        self.now = trio.current_time
        self.mod = {}  # (inode, block) -> (time of last modification, how, content)
        self.old = {}
        self.flushing = False
        self.uploads = []
        self.d = None
        self.run = None
        self.scans = 0

    def hook(self, op, key):
        if op != 'write':
            return
        self.uploads.append((round(self.now(), 3), key))
        if self.flushing:
            return
        # The periodic upload must leave alone what is still being modified
        oid = int(key[10:])
        for i, b in self.db.query('SELECT inode, blockno FROM inode_blocks WHERE obj_id=?', (oid,)):
            m = self.mod.get((i, b))
            if m is not None and m[1] == 'write' and self.now() - m[0] < self.cfg.get('delay', DELAY) - 0.01:
                # (an upload that was waiting for another one may have been initiated earlier)
                raise Violation('block uploaded while it is being modified', f'block {i}-{b}, modified at {m[0]}, uploaded at {self.now()}\n{self.describe()}')

    def describe(self):
        return f'{self.cfg}\nuploads: {self.uploads}'

    def stored(self, i, b, data):
        rows = list(self.db.query('SELECT obj_id, hash FROM inode_blocks JOIN objects ON obj_id=objects.id WHERE inode=? AND blockno=?', (i, b)))
        return bool(rows) and rows[0][1] == hashlib.sha256(data).digest() and self.be.data.get(f's3ql_data_{rows[0][0]}') == data

    def check(self):
        self.scans += 1
        lat = self.cfg.get('latency', 0)
        allow = self.cfg.get('delay', DELAY) + SCAN + lat * (len(self.mod) + 2) + 0.5
        for (i, b), (t, _, data) in sorted(self.mod.items()):
            if self.now() - t > allow and not self.stored(i, b, data):
                raise Violation('modified block is not uploaded', f'block {i}-{b} was last modified at {t}, now {self.now()}\n{self.describe()}')

    async def act(self, op):
        k = op[0]
        cache = self.cache
        if k == 'w':
            async with cache.get(op[1], op[2]) as el:
                el.seek(0)
                el.truncate(0)
                el.write(op[3])
                self.mod[op[1:3]] = (self.now(), 'write', op[3])
        elif k == 'p':
            async with cache.get(op[1], op[2]) as el:
                old = self.mod.get(op[1:3], (0, '', b''))[2]
                el.seek(len(old))
                el.write(b'+')
                self.mod[op[1:3]] = (self.now(), 'write', old + b'+')
        elif k == 't':
            async with cache.get(op[1], op[2]) as el:
                old = self.mod.get(op[1:3], (0, '', b''))[2]
                el.truncate(min(3, len(old)))
                self.mod[op[1:3]] = (self.now(), 'truncate', old[:3])
        elif k == 'r':
            async with cache.get(op[1], op[2]) as el:
                el.seek(0)
                got = el.read()
            want = self.mod.get(op[1:3], (0, '', b''))[2]
            if got != want:
                raise Violation('wrong data', f'{op}: {got!r}, expected {want!r}\n{self.describe()}')
        elif k == 'rm':
            self.mod.pop(op[1:3], None)
            await cache.remove(op[1], op[2])
        elif k in ('flush', 'sflush'):
            self.flushing = True
            await (cache.flush() if k == 'flush' else cache.start_flush(op[1]))
            if k == 'flush':
                self.flushing = False
        else:
            raise AssertionError(op)

    async def main(self, ctl):
        cfg = self.cfg
        self.d = world.workdir()
        self.db = world.new_db(self.d)
        for _ in range(2):
            world.add_inode(self.db, size=1 << 20)
        lat = cfg.get('latency', 0)
        be = self.be = world.MemBackend(*cfg.get('workers', (1, 1)))
        be.points = False
        be.hook = self.hook
        write = be.write_fh

        async def slow(*a, **kw):
            if lat:
                await trio.sleep(lat / 2)
            r = await write(*a, **kw)
            if lat:
                await trio.sleep(lat / 2)
            return r

        be.write_fh = slow
        async with trio.open_nursery() as nursery:
            cache = self.cache = await BlockCache.create(
                be, self.db, os.path.join(self.d, 'cache'), cfg.get('max_size', 10000), cfg.get('max_entries', 20), nursery=nursery
            )
            cache.fs = world.FakeFs()
            task = CommitTask(cache, cfg.get('delay', DELAY))
            ended = trio.Event()

            async def runner():
                await task.run()
                ended.set()

            nursery.start_soon(runner, name='committask')
            watching = trio.CancelScope()

            async def watch():
                with watching:
                    while True:
                        await trio.sleep(1)
                        self.check()

            nursery.start_soon(watch, name='watch')
            ctl.active = bool(cfg.get('schedules'))

            async def client(prog):
                for slot in prog:
                    for op in slot:
                        await self.act(op)
                    await trio.sleep(cfg['slot'])

            async with trio.open_nursery() as clients:
                for p in cfg['progs']:
                    clients.start_soon(client, p, name='client')
            rest = cfg.get('delay', DELAY) + SCAN + lat * (len(self.mod) + 2) + 1
            await trio.sleep(cfg.get('rest', rest))
            if 'rest' not in cfg:
                self.check()
            ctl.active = False
            task.stop()
            with trio.move_on_after(lat * 3 + 2):
                await ended.wait()
            if not ended.is_set():
                raise Violation('periodic upload does not stop', self.describe())
            watching.cancel()
            n = len(self.uploads)
            self.flushing = True
            if 'rest' not in cfg:
                await trio.sleep(DELAY + SCAN)
                if len(self.uploads) != n:
                    raise Violation('upload after everything has been uploaded', self.describe())
            await cache.destroy()
        errs = world.check_db(self.db, self.be, None)
        if errs:
            raise Violation('metadata and objects inconsistent', '\n'.join(errs) + '\n' + self.describe())
        return tuple(self.uploads)

    def close(self):
        c = getattr(self, 'cache', None)
        if c is not None:
            for el in list(c.cache.values()):
                el.dirty = False
                with contextlib.suppress(Exception):
                    el.close()
        with contextlib.suppress(Exception):
            self.db.conn.close()
        if self.d:
            world.rmdir(self.d)


class Meta:
    '''The periodic metadata upload; *prog* has one action per slot'''

    def __init__(self, cfg):
        self.cfg = cfg
        self.s = metadb.Session(16384, points=False)
        self.changes = []  # (time, state after the change)
        self.triggers = []
        self.published = []  # (time, state)
        self.begun = []

    def describe(self):
        return f'{self.cfg}\nchanges: {[t for t, _ in self.changes]}, requests: {self.triggers}, published: {[(t, i) for t, i in self.published]}'

    def index(self, state):
        for i in range(len(self.changes) - 1, -1, -1):
            if self.changes[i][1] == state:
                return i
        raise Violation('published metadata is not a state of the file system', self.describe())

    def check(self):
        now = trio.current_time()
        lat = self.cfg['latency']
        # the upload in progress, and the one that follows it
        dur = 2 * (self.per_upload * lat) + 2
        newest = max((i for _, i in self.published), default=0)
        iv = self.cfg['interval']
        for i, (t, _) in enumerate(self.changes):
            if iv and now - t > iv + dur and newest < i:
                raise Violation('modified metadata is not uploaded', f'changed at {t}, now {now}\n{self.describe()}')
        for t in self.triggers:
            want = max((i for i, (u, _) in enumerate(self.changes) if u <= t), default=0)
            if now - t > dur and not any(u >= t and i >= want for u, i in self.published):
                raise Violation('requested metadata upload does not happen', f'requested at {t}, now {now}\n{self.describe()}')

    async def main(self, ctl):
        s, cfg = self.s, self.cfg
        lat = cfg['latency']
        self.per_upload = 40
        await s.mkfs()
        self.n = 0

        def change():
            self.n += 1
            s.db.execute('INSERT INTO names (name, refcount) VALUES(?,?)', (b'%d' % self.n, self.n))
            self.changes.append((trio.current_time(), metadb.content(s.db)))

        change()
        write = s.be.write_fh

        async def slow(key, *a, **kw):
            if lat:
                await trio.sleep(lat)
            r = await write(key, *a, **kw)
            m = metadb.PARAMS_RE.match(key)
            if m and int(m.group(1), 16) in s.snap and int(m.group(1), 16) not in self.seen:
                no = int(m.group(1), 16)
                self.seen.add(no)
                out = s.d + '/snap'
                with open(out, 'wb') as fh:
                    fh.write(s.snap[no][1])
                for ext in ('-wal', '-shm'):
                    with contextlib.suppress(FileNotFoundError):
                        os.unlink(out + ext)
                self.published.append((trio.current_time(), self.index(metadb.file_content(out))))
            return r

        self.seen = set(s.snap)
        s.be.write_fh = slow
        task = MetadataUploadTask(s.params, s.be, s.db, metadata_backup_interval=cfg['interval'], cachepath=s.path)
        ended = trio.Event()

        async def runner():
            await task.run()
            ended.set()

        async with trio.open_nursery() as nursery:
            nursery.start_soon(runner, name='upload')
            watching = trio.CancelScope()

            async def watch():
                with watching:
                    while True:
                        await trio.sleep(1)
                        self.check()

            nursery.start_soon(watch, name='watch')
            ctl.active = bool(cfg.get('schedules'))
            for a in cfg['prog']:
                if a == 'change':
                    change()
                elif a == 'request':
                    self.triggers.append(trio.current_time())
                    task.event.set()
                elif a == 'both':
                    change()
                    self.triggers.append(trio.current_time())
                    task.event.set()
                elif a == 'stop':
                    break
                await trio.sleep(cfg['slot'])
            ctl.active = False
            if 'stop' not in cfg['prog']:
                await trio.sleep((cfg['interval'] or 0) + 2 * self.per_upload * lat + 4)
                self.check()
            watching.cancel()
            if not cfg['interval'] and len(self.published) > len(self.triggers):
                raise Violation('metadata upload without a request', self.describe())
            task.stop()
            with trio.move_on_after(self.per_upload * lat + 2):
                await ended.wait()
            if not ended.is_set():
                raise Violation('metadata upload does not stop', self.describe())
        await s.unmount()
        return tuple(self.published)

    def close(self):
        self.s.close()


def controlled(obj, ch, max_steps=20000):
    try:
        with world.quiet_excepthook(), virtual_time():
            return run_controlled(obj.main, ch, max_steps=max_steps)
    except Deadlock:
        raise Violation('deadlock', obj.describe()) from None
    except StepLimit:
        raise Violation('no progress', obj.describe()) from None
    except BaseException as exc:
        for e in bc.leaves(exc):
            if isinstance(e, (Violation, Divergence, KeyboardInterrupt)):
                raise e from None
        raise Violation(f'unexpected {type(next(bc.leaves(exc))).__name__}', ''.join(traceback.format_exception(exc)) + obj.describe()) from None
    finally:
        obj.close()


def harness(cfg, ch):
    return controlled((Meta if 'prog' in cfg else Blocks)(cfg), ch)


# --- actions of one slot
def fresh(n):
    return b'%08d' % n


NONE = ()
SMALL = [NONE, (('w', X, 0, None),), (('w', X, 1, None),), (('r', X, 0),), (('w', X, 1, None), ('r', X, 0)), (('p', Y, 0), ('r', X, 1))]
FULL = SMALL[:4] + [
    (('w', X, 0, K),), (('w', Y, 0, K),), (('p', X, 0),), (('t', X, 0),), (('rm', X, 0),), (('flush',),), (('sflush', X),),
    (('w', X, 1, None), ('r', X, 0)),
]
TIMES = [dict(slot=4, latency=0), dict(slot=2.5, latency=0), dict(slot=4, latency=3), dict(slot=5, latency=8)]


def concrete(seq):
    n = 0
    out = []
    for slot in seq:
        ops = []
        for op in slot:
            if op[0] == 'w' and op[3] is None:
                n += 1
                op = op[:3] + (fresh(n),)
            ops.append(op)
        out.append(tuple(ops))
    return tuple(out)


def chunk(item):
    base, progs = item
    n = 0
    ups = 0
    out = []
    shapes = set()
    for p in progs:
        cfg = dict(base, **({'prog': p} if base.get('meta') else {'progs': [concrete(p)]}))
        n += 1
        try:
            r = harness(cfg, Chooser())
            ups += len(r)
            shapes.add(r)
        except Violation as v:
            out.append((v.sig, v.detail, {'cfg': repr(cfg)}))
            if len(out) > 3:
                break
    return n, ups, len(shapes), out


def histories(q):
    items = []
    for tm in TIMES if not q else TIMES[:1] + TIMES[2:]:
        seqs = [s for s in itertools.product(SMALL, repeat=5 if q else 6) if any(o and o[0][0] == 'w' for o in s[:2])]
        items += [(tm, seqs[i : i + 40]) for i in range(0, len(seqs), 40)]
    for tm in TIMES[1:3] if q else TIMES:
        seqs = [s for s in itertools.product(FULL, repeat=3 if q else 4) if s[0] and s[0][0][0] not in ('r', 'rm', 'flush', 'sflush', 't')]
        items += [(tm, seqs[i : i + 40]) for i in range(0, len(seqs), 40)]
    # small caches: blocks are also uploaded because of a lack of space (no upper limit for uploads then)
    acts = ['none', 'change', 'request', 'both', 'stop']
    for iv, slot, lat in ((60, 13, 0), (60, 13, 1.5), (None, 13, 0.5), (20, 13, 0.25), (60, 31, 4)):
        k = (4 if iv == 20 or slot == 31 else 3) if q else 6
        seqs = [s for s in itertools.product(acts, repeat=k) if 'stop' not in s[:-1]]
        items += [(dict(meta=1, interval=iv, slot=slot, latency=lat), seqs[i : i + 40]) for i in range(0, len(seqs), 40)]
    return items


def configs(tier):
    W = lambda b, d, i=X: ('w', i, b, d)
    A, B, C = fresh(1), fresh(2), fresh(3)
    cs = [
        ('two blocks', dict(slot=4, latency=0, progs=[((W(0, A),), (W(0, B),), NONE), ((W(1, A),), (('r', X, 0),), NONE)])),
        ('stop', dict(slot=7, latency=0, rest=0, progs=[((W(0, A),), NONE), ((W(1, B),),)])),
        ('stop2', dict(slot=6, latency=2, rest=1, progs=[((W(0, A), W(1, A)), NONE), ((W(0, B, Y),), (W(0, C, Y),))])),
        ('rewrite', dict(slot=6, latency=1, progs=[((W(0, A),), (W(0, B),)), (NONE, (W(0, C),))])),
        ('remove', dict(slot=6, latency=1, progs=[((W(0, A), W(1, B)), (('rm', X, 0),)), (NONE, (('p', X, 1),))])),
        ('dedup', dict(slot=6, latency=1, progs=[((W(0, A),), NONE), ((W(0, A, Y),), (('t', Y, 0),))])),
        ('evict', dict(slot=6, latency=1, max_entries=1, progs=[((W(0, A),), (('r', X, 0),)), ((W(1, B),), (('p', X, 1),))], delay=0)),
        ('meta', dict(interval=20, slot=13, latency=1, prog=('change', 'request', 'both'))),
        ('meta2', dict(interval=None, slot=2, latency=1, prog=('both', 'both', 'change', 'request'))),
        ('meta3', dict(interval=9, slot=3, latency=1, prog=('change', 'both', 'change', 'stop'))),
    ]
    return [(n, dict(c, schedules=True)) for n, c in cs]


def run(rep, tier):
    q = tier == 'quick'
    items = histories(q)
    n = ups = shapes = 0
    cap = False
    try:
        for _, (k, u, s, vs) in pmap(chunk, items, wall=70 if q else 4000):
            n += k
            ups += u
            shapes += s
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    st = explore(harness, configs(tier), {'sched': 2 if q else 3}, wall=60 if q else 3000, check_determinism=True)
    rep.add_stats('schedules', st, 'every schedule within the deviation bound')
    c = rep.coverage
    c['traces_validated_against_impl'] += n
    c['parts']['timed histories'] = {'histories': n, 'uploads': ups, 'distinct_outcomes': shapes, 'capped': cap}
    c['exhaustive'] = c.get('exhaustive', True) and not cap
    c['rule'] = 'every timed history of the stated actions and lengths; every schedule with at most %d deviations of every program' % (2 if q else 3)


def replay(data):
    if 'cfg' in data:
        cfg = ast.literal_eval(data['cfg'])
        cfg.pop('meta', None)
        try:
            print(harness(cfg, Chooser()))
        except Violation as v:
            print(v.sig, v.detail, sep='\n')
            return 1
        return 0
    cfg = dict(configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation; {out}')
    return 1 if viol else 0
