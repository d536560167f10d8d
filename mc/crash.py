'''Crash images of the block cache: capture (metadata rows, cache files, backend objects) and check
that the real Fsck recovers every block.'''
import hashlib
import os
import traceback

from mc import bc, world
from mc.explore import Violation

_checked = {}  # per process: state digest -> None | (sig, detail)


def torn_values(run, key, finals):
    '''Additional values that an interrupted write may leave'''
    res = set()
    for op, s, e, r, t in run.history:
        if e is None and key in bc.blocks_of(op):
            if op[0] == 'w':
                d = op[3]
                res |= {b'', d[: len(d) // 2], d}
    return res


class Recorder:
    '''Captures a crash image at every scheduling step, metadata statement and backend request'''

    def __init__(self, run, tables=('objects', 'inode_blocks')):
        self.run = run
        self.images = {}
        self.n = 0
        self.blocks = bc.all_blocks(run.cfg)
        self.enabled = True
        self.last = None

    def install(self):
        run = self.run
        db = run.db
        for name in ('execute', 'rowid'):
            orig = getattr(db, name)

            def wrapped(*a, _orig=orig, **kw):
                self.snap()
                r = _orig(*a, **kw)
                self.snap()
                return r

            setattr(db, name, wrapped)
        run.on_step = self.snap
        run.backend.after = lambda op, key: self.snap()

    def snap(self):
        if not self.enabled:
            return
        run = self.run
        self.n += 1
        cur = run.db.conn.cursor()
        rows = (
            tuple(cur.execute('SELECT id,hash,refcount,phys_size,length FROM objects')),
            tuple(cur.execute('SELECT inode,blockno,obj_id FROM inode_blocks')),
        )
        files = []
        p = run.cache.path
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                with open(os.path.join(p, f), 'rb') as fh:
                    files.append((f, fh.read()))
        files = tuple(files)
        be = tuple(sorted(run.backend.data.items()))
        hist = tuple((e[0], e[1], e[2], e[3]) for e in run.history)
        k = (rows, files, be, run.clock)
        if k == self.last:
            return
        self.last = k
        key = (rows, files, be)
        allowed = {}
        for b in self.blocks:
            ev = [h for h in hist if b in bc.blocks_of(h[0])]
            finals = bc.linearizable(ev, run.cfg.get('init', {}).get(b, b''))
            allowed[b] = frozenset(finals | torn_values(run, b, finals))
        ak = tuple(sorted(allowed.items()))
        # keep the strictest: several histories can lead to the same image
        self.images.setdefault((key, ak), (self.n, len(hist), hist[-1] if hist else None, run.phase))


def verify(run, images, fsck_crash=False):
    '''Run the real Fsck on every image; raises Violation. Returns number of images checked anew'''
    new = 0
    base = world.dump(run.db)
    for (key, allowed), where in images.items():
        dg = hashlib.md5(repr((sorted(run.cfg.get('init', {})), key, allowed)).encode()).digest()
        if dg not in _checked:
            new += 1
            _checked[dg] = check_image(base, key, dict(allowed), fsck_crash)
        res = _checked[dg]
        if res is not None:
            raise Violation(res[0], f'{res[1]}\ncrash at point {where}\n{bc.describe(run)}')
    return new


def materialize(base, key):
    (objects, blocks), files, be = key
    d = world.workdir()
    db = world.new_db(d)
    rows = dict(base)
    rows['objects'] = objects
    rows['inode_blocks'] = blocks
    mx = max([o[0] for o in objects] + [int(k[10:]) for k, _ in be] + [0])
    seq = dict(base['sqlite_sequence'])
    seq['objects'] = max(mx, seq.get('objects', 0))
    rows['sqlite_sequence'] = tuple(seq.items())
    world.restore(db, rows)
    cd = os.path.join(d, 'cache')
    os.mkdir(cd)
    for f, data in files:
        with open(os.path.join(cd, f), 'wb') as fh:
            fh.write(data)
    backend = world.MemBackend()
    backend.points = False
    backend.data = dict(be)
    backend.meta = {k: {} for k in backend.data}
    return d, db, cd, backend


def show(key):
    (objects, blocks), files, be = key
    return (
        f'objects(id,hash,ref,phys,len): {[(o[0], o[1][:3].hex() if o[1] else None) + o[2:] for o in objects]}\n'
        f'inode_blocks: {blocks}\ncache files: {files}\nbackend: {be}'
    )


def check_image(base, key, allowed, fsck_crash=False):
    from s3ql.fsck import Fsck

    d, db, cd, backend = materialize(base, key)
    try:
        fsck = Fsck(cd, backend, world.fsck_params(), db)
        inner = {}
        if fsck_crash:
            _record_fsck(db, cd, backend, inner)
        try:
            world.run_sync_trio(fsck.check)
        except Exception as exc:
            e = bc.leaf(exc)
            tb = ''.join(traceback.format_exception(e)[-3:])
            return (f'fsck fails after crash: {type(e).__name__}', f'{e}\n{tb}\n{show(key)}')
        errs = world.check_db(db, backend)
        if errs:
            return ('inconsistent after crash and fsck', '\n'.join(errs) + '\n' + show(key))
        for (i, b), vals in allowed.items():
            v = world.read_block(db, backend, i, b)
            if v not in vals:
                return (
                    'completed write lost after crash and fsck' if v in (b'', 'LOST') else 'wrong block content after crash and fsck',
                    f'inode {i} block {b}: {v!r}, allowed {sorted(vals)}\n{show(key)}',
                )
        left = os.listdir(cd) if os.path.isdir(cd) else []
        if left:
            return ('fsck leaves cache files behind', f'{left}\n{show(key)}')
        inner.pop(key, None)
        for k in inner:
            dg = hashlib.md5(repr(('inner', k, sorted(allowed.items()))).encode()).digest()
            if dg not in _checked:
                _checked[dg] = check_image(base, k, allowed)
            if _checked[dg] is not None:
                sig, detail = _checked[dg]
                return (sig + ' (checker interrupted and run again)', f'{detail}\nfirst crash: {show(key)}')
        return None
    finally:
        db.conn.close()
        world.rmdir(d)


def _record_fsck(db, cd, backend, out):
    """Collect the images that an interruption of the checker itself can leave"""

    def snap(*_):
        cur = db.conn.cursor()
        rows = (
            tuple(cur.execute('SELECT id,hash,refcount,phys_size,length FROM objects')),
            tuple(cur.execute('SELECT inode,blockno,obj_id FROM inode_blocks')),
        )
        files = []
        if os.path.isdir(cd):
            for f in sorted(os.listdir(cd)):
                with open(os.path.join(cd, f), 'rb') as fh:
                    files.append((f, fh.read()))
        out.setdefault((rows, tuple(files), tuple(sorted(backend.data.items()))), None)

    for name in ('execute', 'rowid'):
        orig = getattr(db, name)

        def wrapped(*a, _orig=orig, **kw):
            if a[0].startswith(('INSERT INTO ob', 'INSERT INTO in', 'UPDATE ob', 'UPDATE in', 'DELETE')):
                snap()
            return _orig(*a, **kw)

        setattr(db, name, wrapped)
    backend.after = snap
