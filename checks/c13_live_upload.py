'''C13: background metadata upload against concurrent writers under every schedule.'''
import traceback

import trio

from mc import metadb
from mc.bc import leaves
from mc.explore import Divergence, Violation, explore, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.mount import MetadataUploadTask

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real MetadataUploadTask, Connection, write tracking and upload code against concurrent writers under a controlled Trio scheduler'
NOTE = (
    'Up to two background uploads against one or two writers (single statements, batched transactions that wait while the transaction is '
    'open, as s3qlcp, s3qllock and s3qlrm do, explicit and automatic checkpoints); every schedule within the deviation bound. Each '
    'published snapshot is downloaded and must equal one committed state that is not older than the start of its upload.'
)
ROWS = 6


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.s = metadb.Session(cfg['block'], points=False, conns=cfg.get('conns', 1))
        self.hist = []  # committed states
        self.n = 0
        self.need = {}  # seq_no -> index of state that has to be included
        self.done_writers = 0

    def note(self):
        if self.s.db.conn.in_transaction:
            return
        c = metadb.content(self.s.db)
        if not self.hist or self.hist[-1] != c:
            self.hist.append(c)

    def write(self, kind='upd'):
        db = self.s.db
        self.n += 1
        if kind == 'upd':
            # one statement that touches many pages
            db.execute('UPDATE names SET refcount=? WHERE refcount>0', (self.n + 10,))
        elif kind == 'ins':
            db.execute('INSERT INTO names (name, refcount) VALUES(?,?)', (b'%d-' % self.n + b'y' * 3500, self.n + 10))
        elif kind == 'del':
            db.execute('DELETE FROM names WHERE id=(SELECT MAX(id) FROM names)')
        self.note()

    async def writer(self, prog):
        db = self.s.db
        for op in prog:
            await trio.lowlevel.checkpoint()
            if op in ('upd', 'ins', 'del'):
                self.write(op)
            elif op == 'ckpt':
                await db.checkpoint()
            elif op == 'read':
                db.get_list('SELECT COUNT(*) FROM names')
            elif op == 'batch':
                async with db.batch(0.5) as bm:
                    self.write('upd')
                    await trio.lowlevel.checkpoint()
                    self.write('ins')
                    await bm.finish_batch(1)
                    self.note()
                    await bm.start_batch()
                    self.write('upd')
                    await trio.lowlevel.checkpoint()
                self.note()
            elif op == 'batch1':
                async with db.batch(0.5):
                    self.write('upd')
                    await trio.lowlevel.checkpoint()
                    self.write('upd')
                self.note()
            elif op == 'failbatch':
                # the operation inside fails, e.g. because of an upload error
                try:
                    async with db.batch(0.5):
                        self.write('upd')
                        await trio.lowlevel.checkpoint()
                        raise KeyError('test')
                except KeyError:
                    pass
                self.note()
        self.done_writers += 1

    async def uploads(self, task, count):
        for _ in range(count):
            await trio.lowlevel.checkpoint()
            seq = self.s.params.seq_no
            self.need[seq] = len(self.hist) - 1
            task.event.set()
            while self.s.params.seq_no == seq or self.busy:
                await self.cond()
        task.stop()

    async def cond(self):
        await trio.sleep(1)

    def hook(self, op, key):
        pass

    async def main(self, ctl):
        s = self.s
        await s.mkfs()
        for i in range(ROWS):
            self.write('ins')
        s.db.sync_checkpoint()
        if self.cfg.get('auto'):
            s.db.get_list('PRAGMA wal_autocheckpoint = 1')
        self.note()
        for op in self.cfg.get('prefix', ('upd',)):
            self.write(op)
        task = MetadataUploadTask(s.params, s.be, s.db, metadata_backup_interval=None, cachepath=s.path)
        self.busy = False

        async def runner():
            await task.run()

        s.be.points = True
        ctl.active = True
        async with trio.open_nursery() as n:
            n.start_soon(runner)
            for p in self.cfg['writers']:
                n.start_soon(self.writer, p)
            n.start_soon(self.uploads, task, self.cfg.get('uploads', 1))
        ctl.active = False
        s.be.points = False
        if self.done_writers != len(self.cfg['writers']):
            raise Violation('writer did not finish', '')
        self.note()
        final = metadb.content(s.db)
        last = s.params.seq_no
        await s.unmount()
        await s.verify()
        self.need[last] = len(self.hist) - 1
        which = []
        for seq, idx in sorted(self.need.items()):
            if seq not in s.snap:
                raise Violation('no snapshot was published', f'seq {seq}')
            out = s.d + f'/snap{seq}'
            with open(out, 'wb') as fh:
                fh.write(s.snap[seq][1])
            c = metadb.file_content(out)
            if c not in self.hist:
                raise Violation('snapshot is not a committed state', f'seq {seq}')
            pos = max(i for i, h in enumerate(self.hist) if h == c)
            if pos < idx:
                raise Violation('snapshot lacks changes made before the upload', f'seq {seq}: has state {pos}, upload was started in state {idx}')
            which.append(pos - idx)
        out = s.d + f'/snap{last}'
        if metadb.file_content(out) != final:
            raise Violation('last upload lacks changes', '')
        return len(self.hist), tuple(which)


def harness(cfg, ch):
    w = World(cfg)
    try:
        return run_controlled(w.main, ch, max_steps=4000)
    except Deadlock:
        raise Violation('deadlock', f'{w.done_writers} writers finished') from None
    except StepLimit:
        raise Violation('no progress', '') from None
    except BaseException as exc:
        for e in leaves(exc):
            if isinstance(e, (Violation, Divergence, KeyboardInterrupt)):
                raise e from None
        e = next(leaves(exc))
        raise Violation(f'unexpected {type(e).__name__}', ''.join(traceback.format_exception(exc))) from None
    finally:
        w.s.close()


PROGS = {
    'single': [('upd', 'ins', 'upd')],
    'ckpt': [('upd', 'ckpt', 'ins', 'ckpt')],
    'batch': [('batch',)],
    'batch1': [('batch1', 'upd')],
    'fail': [('failbatch', 'upd')],
    'two': [('upd', 'del', 'ckpt'), ('batch1',)],
    'read': [('read', 'upd', 'del'), ('ckpt', 'upd')],
}


def configs(tier):
    t = tier == 'thorough'
    cs = []
    for name, progs in PROGS.items():
        for auto in (False, True):
            for block in (16384,) if not t else (4096, 16384, 65536):
                for ups in (1, 2):
                    if ups == 2 and not t and name not in ('single', 'batch'):
                        continue
                    d = (3 if t else 2) - (ups - 1 if not t else 0)
                    cs.append((f'{name}-auto{int(auto)}-b{block}-u{ups}', dict(writers=progs, auto=auto, block=block, uploads=ups), {'sched': d}))
    return cs


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=120 if tier == 'quick' else 5000, check_determinism=True)
    rep.add_stats('schedules', st, 'every schedule within the deviation bound, for every writer program, checkpoint mode and block size')


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough') + configs('quick'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    if viol:
        print('VIOLATION reproduced:', viol.sig, viol.detail, sep='\n')
        return 1
    print('no violation; outcome', out)
    return 0
