'''C29: the block cache keeps its limits, reports its usage exactly, and evicts only what is safely recorded.'''
import ast
import contextlib
import hashlib
import itertools
import os

import trio

from mc import bc, fsmc, fsmodel
from mc.explore import Chooser, Violation, explore, pmap, run_one

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real block cache under a controlled Trio scheduler, plus exhaustive enumeration of operation histories; limits are checked at every scheduler step, reported usage against the files on disk whenever no operation is in progress, every deletion of a cache file against the database and the backend'
NOTE = (
    'Caches of 0-3 entries and 0-16 bytes, up to three clients; all schedules within the deviation bound; all sequential histories up to the stated length. '
    'Limits may be exceeded by one block per client. In-memory backend.'
)
A, B, C = b'AAAAAAAA', b'BBBBBBBB', b'CCCC'
X, Y = 4, 5
BIG = 16  # largest block the programs make


class Monitor:
    def __init__(self, cfg):
        self.cfg = cfg
        self.run = None
        self.checks = 0
        self.evictions = 0
        self.max_n = 0

    def install(self, run):
        self.run = run
        run.on_step = self.step
        run.after_op = self.after

    def in_progress(self):
        return [e for e in self.run.history if e[2] is None]

    def limits(self):
        n, used, dc, ds, _ = self.run.cache.get_usage()
        k = len(self.cfg['tasks'])
        self.max_n = max(self.max_n, n)
        if n > self.cfg.get('max_entries', 2) + k:
            raise Violation('more cache entries than allowed', f'{n} entries, limit {self.cfg.get("max_entries", 2)}, {k} clients\n{bc.describe(self.run)}')
        if used > self.cfg.get('max_size', 10000) + k * BIG:
            raise Violation('cache larger than allowed', f'{used} bytes, limit {self.cfg.get("max_size", 10000)}, {k} clients\n{bc.describe(self.run)}')

    def step(self):
        if self.run.phase == 'run':
            self.limits()

    def after(self, ev):
        run = self.run
        if run.phase == 'setup' or self.in_progress():
            return
        self.checks += 1
        n, used, dc, ds = bc.check_accounting(run, f'after {ev[0]}')
        self.limits()
        if len(self.cfg['tasks']) == 1 or run.phase == 'end':
            if ev[0][0] == 'flush' and (dc or ds):
                raise Violation('dirty entries after flush', f'{dc} entries, {ds} bytes\n{bc.describe(run)}')
            if ev[0][0] == 'drop' and n:
                raise Violation('entries left after drop', f'{n}\n{bc.describe(run)}')
        # what has to be dirty
        d = 0
        dsz = 0
        for f in os.listdir(run.cache.path):
            i, b = f.split('-')
            if not b.isdigit():
                raise Violation('temporary file left in cache', f'{f}\n{bc.describe(run)}')
            buf = self.read(os.path.join(run.cache.path, f))
            rec = self.recorded(int(i), int(b))
            if rec != hashlib.sha256(buf).digest() and not (rec is None and not buf):
                d += 1
                dsz += len(buf)
        if dc < d or ds < dsz:
            raise Violation('modified entries not reported as dirty', f'reported {dc} ({ds} bytes), at least {d} ({dsz} bytes)\n{bc.describe(run)}')

    @staticmethod
    def read(path):
        with open(path, 'rb') as fh:
            return fh.read()

    def recorded(self, i, b):
        rows = list(self.run.db.query('SELECT hash FROM inode_blocks JOIN objects ON obj_id=objects.id WHERE inode=? AND blockno=?', (i, b)))
        return rows[0][0] if rows else None

    def unlink(self, path):
        '''A file of the cache is about to be deleted'''
        run = self.run
        if run is None or run.cache is None:
            return
        p = os.path.abspath(os.fspath(path))
        base, f = os.path.split(p)
        if base != os.path.abspath(run.cache.path) or f.endswith('.tmp'):
            return
        i, b = map(int, f.split('-'))
        self.evictions += 1
        if any((i, b) in bc.blocks_of(e[0]) and e[0][0] in ('rm', 'rmr') for e in self.in_progress()):
            return
        buf = self.read(p)
        rec = self.recorded(i, b)
        if rec is None and not buf:
            return
        if rec != hashlib.sha256(buf).digest():
            raise Violation('entry evicted although its data is not recorded', f'{f}: {buf!r}, {"no" if rec is None else "another"} object\n{bc.describe(run)}')
        (oid,) = next(iter(run.db.query('SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?', (i, b))))
        if run.backend.data.get(f's3ql_data_{oid}') == buf:
            return
        for g in os.listdir(run.cache.path):
            if g != f and not g.endswith('.tmp') and self.read(os.path.join(base, g)) == buf:
                return
        raise Violation('entry evicted although its data is stored nowhere', f'{f}: {buf!r}, object {oid}\n{bc.describe(run)}')


@contextlib.contextmanager
def watched(mon):
    saved = os.unlink, os.remove

    def wrap(fn):
        def unlink(path, *a, **kw):
            mon.unlink(path)
            return fn(path, *a, **kw)

        return unlink

    os.unlink, os.remove = wrap(saved[0]), wrap(saved[1])
    try:
        yield
    finally:
        os.unlink, os.remove = saved


def harness(cfg, ch):
    mon = Monitor(cfg)
    with watched(mon):
        run = bc.execute(cfg, ch, on_setup=mon.install, cleanup=False)
        mon.run = None
    bc.close(run)
    return (mon.max_n, len(run.history)), {'quiescent_checks': mon.checks, 'cache_file_deletions': mon.evictions}


def configs(tier):
    cs = [
        ('evict-2w', dict(tasks=[[('w', X, 0, A), ('r', X, 1)], [('w', X, 1, B), ('r', X, 0)]], max_entries=1)),
        ('zero', dict(tasks=[[('w', X, 0, A), ('r', X, 0)], [('w', X, 1, B), ('r', X, 0)]], max_entries=0)),
        ('3 readers', dict(init={(X, 0): A, (X, 1): B, (X, 2): C}, tasks=[[('r', X, 0), ('r', X, 2)], [('r', X, 1)], [('r', X, 2), ('p', X, 2, 0, b'z')]], max_entries=1)),
        ('same block', dict(init={(X, 0): A}, tasks=[[('r', X, 0)], [('p', X, 0, 8, B)], [('t', X, 0, 3)]], max_entries=1)),
        ('grow', dict(init={(X, 0): C}, tasks=[[('p', X, 0, 4, A), ('p', X, 1, 0, b'x')], [('p', X, 0, 2, A), ('t', X, 0, 1)]], max_entries=5, max_size=8)),
        ('size-2', dict(tasks=[[('w', X, 0, A), ('w', X, 2, C)], [('w', X, 1, B), ('p', X, 1, 8, A), ('r', X, 0)]], max_entries=10, max_size=8)),
        ('no size', dict(tasks=[[('w', X, 0, A), ('p', X, 0, 8, C)], [('w', Y, 0, B)]], max_entries=10, max_size=0)),
        ('rm-evict', dict(init={(X, 0): A, (X, 1): B}, keep='dirty', tasks=[[('rmr', X, 0, 2), ('w', X, 0, C)], [('r', X, 2), ('r', X, 1)]], max_entries=1)),
        ('dedup', dict(tasks=[[('w', X, 0, A), ('r', X, 1)], [('w', Y, 0, A), ('r', Y, 1)]], max_entries=1)),
        ('drop', dict(init={(X, 0): A}, keep='dirty', tasks=[[('p', X, 0, 8, b'x'), ('r', X, 1)], [('drop',), ('w', Y, 0, A)]], max_entries=2)),
        ('rewrite', dict(init={(X, 0): B}, keep='dirty', tasks=[[('w', X, 0, A), ('r', X, 1)], [('flush',), ('p', X, 0, 1, b'!')]], max_entries=1)),
        ('2 workers', dict(tasks=[[('w', X, 0, A), ('w', X, 1, B)], [('w', X, 2, C), ('w', X, 3, A)]], max_entries=1, workers=(2, 1))),
    ]
    if tier == 'thorough':
        cs += [
            ('3w', dict(tasks=[[('w', X, 0, A), ('r', X, 1)], [('w', X, 1, B), ('r', X, 2)], [('w', X, 2, A), ('r', X, 0)]], max_entries=1)),
            ('3 size', dict(tasks=[[('w', X, 0, A), ('t', X, 0, 1)], [('p', X, 0, 4, B), ('r', X, 1)], [('w', X, 1, A), ('rm', X, 0)]], max_entries=10, max_size=9)),
        ]
    return cs


OPS = [
    ('w', X, 0, A), ('w', X, 1, B), ('w', Y, 0, A), ('p', X, 0, 8, C), ('t', X, 0, 3), ('r', X, 0), ('r', X, 1), ('rm', X, 0), ('flush',), ('drop',), ('sflush', X), ('reload',),
]


def sequential(item):
    lim, seqs = item
    n = checks = 0
    out = []
    for s in seqs:
        cfg = dict(tasks=[list(s)], final_reads=True, **lim)
        n += 1
        try:
            _, cnt = harness(cfg, Chooser())
            checks += cnt['quiescent_checks']
        except Violation as v:
            out.append((v.sig, f'{lim} {v.detail}', {'lim': lim, 'seq': repr(s)}))
    return n, checks, out


# -- requests to the file system: how the cache is told about what will be done to a block

FS_SETUP = (('create', 0, b'f'), ('write', 2, 0, b'abcdef'), ('create', 0, b'g'))
FS_OPS = [('write', 2, off, b'0123456789abcdefghijklmnopqrstuvwxyz'[:n]) for off, n in ((0, 8), (4, 4), (4, 8), (5, 1), (12, 12), (16, 3), (1, 30))] + [
    ('write', 3, 0, b'abcdef'), ('write', 3, 4, b'abcdefgh'), ('truncate', 2, 3), ('truncate', 2, 13), ('read', 2, 0, 40), ('read', 3, 3, 9), ('unlink', 0, b'f'), ('copy', 4, 6), ('flush',),
]
FS_COPY = (('mkdir', 0, b'd'), ('create', 4, b'h'), ('write', 5, 0, b'hh'), ('mkdir', 0, b'e'))


async def fs_history(lim, ops):
    env = fsmc.Env(**lim)
    m = fsmodel.Model()
    n = 0
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            for i, o in enumerate(ops):
                if o[0] == 'unlink' and o[2] not in m.nodes[o[1]].children:
                    break
                await env.step(m, o, check=False)
                if o[0] == 'copy':
                    await env.compare(m, 'after copy', data=False)
                n += 1
                used = bc_usage(env)
                if used[0] > lim['max_entries'] + 1:
                    raise Violation('more cache entries than allowed', f'{lim} {ops[: i + 1]}: {used}')
                if used[1] > lim['max_size'] + fsmc.BLOCK:
                    raise Violation('cache larger than allowed', f'{lim} {ops[: i + 1]}: {used}')
            await env.cache.destroy()
        finally:
            await env.close()
        nursery.cancel_scope.cancel()
    return n


def bc_usage(env):
    class R:
        cache = env.cache

    return bc.check_accounting(R, 'after a request')


def fs_chunk(item):
    lim, seqs = item
    n = 0
    out = []
    for s in seqs:
        try:
            n += fsmc.trio_run(fs_history, lim, FS_SETUP + FS_COPY + s)
        except Violation as v:
            out.append((v.sig, f'{lim} {s}: {v.detail}', {'fs': repr((lim, s))}))
    return len(seqs), n, out


def fs_part(rep, q):
    items = []
    for lim in (dict(max_entries=50, max_size=16), dict(max_entries=2, max_size=500), dict(max_entries=50, max_size=30)):
        depth = 3 if q else 4
        seqs = [s for s in itertools.product(FS_OPS, repeat=depth) if s.count(('copy', 4, 6)) < 2]
        items += [(lim, seqs[i : i + 50]) for i in range(0, len(seqs), 50)]
    n = checks = 0
    cap = False
    try:
        for _, (k, c, vs) in pmap(fs_chunk, items, wall=60 if q else 3000):
            n += k
            checks += c
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    return {'histories': n, 'length': depth, 'comparisons': checks, 'capped': cap}


def run(rep, tier):
    q = tier == 'quick'
    lims = [dict(max_entries=1), dict(max_entries=2), dict(max_entries=9, max_size=8)]
    depth = 4 if q else 5
    items = []
    for lim in lims:
        seqs = [s for s in itertools.product(OPS, repeat=depth) if s[0][0] not in ('rm', 'flush', 'drop', 'sflush', 'reload')]
        if q:
            # the last but one operation before a purely administrative last one adds nothing
            seqs = [s for s in seqs if s[-1][0] not in ('sflush', 'rm', 'drop', 'reload')]
        items += [(lim, seqs[i : i + 60]) for i in range(0, len(seqs), 60)]
    n = checks = 0
    cap = False
    try:
        for _, (k, c, vs) in pmap(sequential, items, wall=70 if q else 3500):
            n += k
            checks += c
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    fsp = fs_part(rep, q)
    st = explore(harness, configs(tier), {'sched': 2 if q else 3}, wall=80 if q else 3500, check_determinism=True)
    rep.add_stats('interleavings', st)
    c = rep.coverage
    c['traces_validated_against_impl'] += n
    c['parts']['sequential histories'] = {'histories': n, 'length': depth, 'quiescent_checks': checks, 'capped': cap}
    c['traces_validated_against_impl'] += fsp['histories']
    c['parts']['file system requests'] = fsp
    c['exhaustive'] = c.get('exhaustive', True) and not cap and not fsp['capped']
    c['rule'] = f'every schedule with at most {2 if q else 3} deviations of every program; every history of {depth} of {len(OPS)} operations for {len(lims)} limits'


def replay(data):
    if 'fs' in data:
        lim, s = ast.literal_eval(data['fs'])
        r = fs_chunk((lim, [s]))[2]
        print(r)
        return 1 if r else 0
    if 'seq' in data:
        r = sequential((data['lim'], [ast.literal_eval(data['seq'])]))[2]
        print(r)
        return 1 if r else 0
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation; {out}')
    return 1 if viol else 0
