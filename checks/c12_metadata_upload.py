'''C12: all sequences of database changes, checkpoints, uploads and session changes.'''
import traceback

import trio

from mc import metadb
from mc.explore import Violation, explore, run_one

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation sequences on the real SQLite connection, write-tracking extension and upload/download code; every uploaded snapshot is downloaded and compared byte for byte'
NOTE = (
    'All sequences of the stated depth over 10 operations (growing, in-place update, deleting, compacting, checkpointing, background '
    'upload, unmount and mount on the same or another host, full upload) for block sizes below, equal to, unaligned to and above the page size.'
)
ROWS = 5
OPS = ('ins', 'upd', 'del', 'vac', 'ckpt', 'periodic', 'umount', 'move', 'full', 'auto')


def step(s, op):
    '''Synchronous database operations; return True if done'''
    db = s.db
    s.n += 1
    if op == 'ins':
        for i in range(ROWS):
            db.execute('INSERT INTO names (name, refcount) VALUES(?,?)', (b'%d-%d-' % (s.n, i) + bytes([65 + s.n % 26]) * 3000, s.n))
    elif op == 'upd':
        db.execute('UPDATE names SET refcount=? WHERE id=(SELECT MAX(id) FROM names)', (s.n,))
        db.execute('UPDATE inodes SET size=? WHERE id=1', (s.n,))
    elif op == 'del':
        db.execute('DELETE FROM names WHERE refcount>1 AND id % 2 = 1')
    elif op == 'vac':
        db.execute('VACUUM')
    elif op == 'ckpt':
        db.sync_checkpoint()
    elif op == 'auto':
        # what SQLite does by itself once the log has grown
        db.get_list('PRAGMA wal_checkpoint(PASSIVE)')
    else:
        return False
    return True


async def run_seq(cfg, ch, log):
    s = metadb.Session(cfg['block'])
    try:
        await s.mkfs()
        for op in cfg['prefix']:
            await one(s, op)
        prev = None
        for i in range(cfg['depth']):
            ops = [o for o in OPS if not (o == prev and o in ('ckpt', 'vac', 'upd', 'auto'))]
            if i == cfg['depth'] - 1:
                ops = [o for o in ops if o in ('periodic', 'umount', 'move', 'full')]
            op = ops[ch.choose(len(ops), 'op')]
            log.append(op)
            prev = op
            await one(s, op)
        # whatever is left has to go out with the last upload
        want = metadb.content(s.db)
        await s.unmount()
        await s.verify()
        p, data = s.snap[s.params.seq_no]
        out = s.d + '/final'
        with open(out, 'wb') as fh:
            fh.write(data)
        if metadb.file_content(out) != want:
            raise Violation('last upload lacks changes', str(log))
        if s.params.seq_no != max(s.snap):
            raise Violation('sequence number decreased', str(log))
        return len(s.snap), len(data) // 4096
    finally:
        s.close()


async def one(s, op):
    before = metadb.content(s.db)
    seq = s.params.seq_no
    if step(s, op):
        return
    if op == 'periodic':
        # the background upload covers what was committed when it started
        await s.periodic()
        out = s.d + '/per'
        with open(out, 'wb') as fh:
            fh.write(s.snap[seq][1])
        if metadb.file_content(out) != before:
            raise Violation('background upload lacks changes', '')
    else:
        await s.unmount(full=op == 'full')
        await s.verify()
        if op == 'move':
            await s.move()
        await s.mount()
    if s.params.seq_no <= seq:
        raise Violation('sequence number did not increase', f'{op}: {seq} -> {s.params.seq_no}')
    if metadb.content(s.db) != before:
        raise Violation('database changed', op)
    await s.verify(only={seq})


def harness(cfg, ch):
    log = []
    try:
        return trio.run(run_seq, cfg, ch, log)
    except Violation as v:
        v.detail = f'{cfg["prefix"]} {log}\n{v.detail}'
        raise
    except BaseException as exc:
        if type(exc).__module__.startswith('mc.') or isinstance(exc, KeyboardInterrupt):
            raise
        raise Violation(f'unexpected {type(exc).__name__}', f'{cfg["prefix"]} {log}\n{traceback.format_exc()}') from None


def configs(tier):
    d = 3 if tier == 'quick' else 5
    cs = []
    for block in (4096, 3000, 10240, 65536):
        for prefix in ((), ('ins', 'ins', 'umount'), ('ins', 'ins', 'del', 'periodic', 'vac')):
            cs.append((f'block{block}-{"-".join(prefix)}', dict(block=block, prefix=prefix, depth=d + (1 if not prefix and block == 10240 else 0))))
    return cs


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=120 if tier == 'quick' else 5000, check_determinism=False)
    rep.add_stats('sequences', st, 'every operation sequence of the stated depth that ends in an upload, for every block size and initial history')


def replay(data):
    cfg = dict(configs('thorough') + configs('quick'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    if viol:
        print('VIOLATION reproduced:', viol.sig, viol.detail, sep='\n')
        return 1
    print('no violation; outcome', out)
    return 0
