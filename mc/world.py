'''Fixtures: databases, in-memory backends, file systems; independent consistency checker.'''
import hashlib
import io
import os
import shutil
import stat
import sys

import trio

import s3ql  # noqa: F401
from s3ql.backends.common import AsyncBackend, NoSuchObject
from s3ql.backends import common as bcommon
from s3ql.database import Connection, FsAttributes, create_tables
from s3ql.mkfs import init_tables

SCRATCH = os.environ.get('MC_SCRATCH', '/tmp/mc-scratch')
BLOCK = 8
TABLES = (
    'objects',
    'inodes',
    'inode_blocks',
    'symlink_targets',
    'names',
    'contents',
    'ext_attributes',
)

_cnt = 0
_template = None


def workdir():
    '''Fresh private directory; the previous one of this process is removed'''
    global _cnt
    _cnt += 1
    d = os.path.join(SCRATCH, f'w{os.getpid()}-{_cnt}')
    os.mkdir(d)
    return d


def rmdir(d):
    assert d.startswith(SCRATCH + '/w')
    shutil.rmtree(d, ignore_errors=True)


def template_db():
    global _template
    if _template is None:
        p = os.path.join(SCRATCH, f'template-{os.getpid()}.db')
        db = Connection(p)
        create_tables(db)
        init_tables(db)
        db.execute('UPDATE inodes SET uid=0,gid=0,mtime_ns=0,atime_ns=0,ctime_ns=0')
        db.close()
        with open(p, 'rb') as fh:
            _template = fh.read()
        os.unlink(p)
    return _template


def new_db(d, name='db', data=None):
    p = os.path.join(d, name)
    with open(p, 'wb') as fh:
        fh.write(data or template_db())
    db = Connection(p)
    db.conn.cursor().execute('PRAGMA synchronous=OFF')
    return db


def columns(db, table):
    return [r[1] for r in db.query(f'PRAGMA table_info({table})')]


_cols = {}


def dump(db):
    '''All rows of all tables (order-independent)'''
    out = {}
    for t in TABLES:
        if t not in _cols:
            _cols[t] = ','.join(columns(db, t))
        out[t] = tuple(sorted(db.query(f'SELECT {_cols[t]} FROM {t}'), key=repr))
    out['sqlite_sequence'] = tuple(sorted(db.query('SELECT name,seq FROM sqlite_sequence')))
    return out


def restore(db, rows):
    cur = db.conn.cursor()
    cur.execute('BEGIN')
    for t in TABLES:
        cur.execute(f'DELETE FROM {t}')
        for r in rows[t]:
            cur.execute(f'INSERT INTO {t} VALUES ({",".join("?" * len(r))})', r)
    cur.execute('DELETE FROM sqlite_sequence')
    for r in rows['sqlite_sequence']:
        cur.execute('INSERT INTO sqlite_sequence (name,seq) VALUES (?,?)', r)
    cur.execute('COMMIT')


def add_inode(db, mode=stat.S_IFREG | 0o644, size=0, name=None, parent=1):
    '''Insert an inode (and a directory entry) without going through s3ql code'''
    id_ = db.rowid(
        'INSERT INTO inodes (mode,uid,gid,mtime_ns,atime_ns,ctime_ns,refcount,size) '
        'VALUES (?,0,0,0,0,0,?,?)',
        (mode, 1, size),
    )
    name = name or b'f%d' % id_
    nid = db.rowid('INSERT INTO names (name,refcount) VALUES(?,1)', (name,))
    db.execute('INSERT INTO contents (name_id,inode,parent_inode) VALUES(?,?,?)', (nid, id_, parent))
    return id_


class BackendFault(Exception):
    '''Injected permanent backend error'''


class MemBackend:
    '''In-memory stand-in for `AsyncComprencBackend` with scheduling points inside operations.

    `hook(op, key)` is called synchronously when an operation starts and may raise an exception.
    Data is copied in two halves with a scheduling point in between, so that a writer that changes
    the source while it is being uploaded is noticed. The object becomes visible atomically.
    '''

    def __init__(self, max_connections=1, max_threads=1):
        self.data = {}
        self.meta = {}
        self.max_connections = max_connections
        self.max_threads = max_threads
        self.hook = None
        self.after = None
        self.backend = self
        self.deletes = []
        self.points = True
        self.passphrase = None

    async def _pt(self):
        if self.points:
            await trio.lowlevel.checkpoint()

    def is_temp_failure(self, exc):
        return False

    async def write_fh(self, key, fh, len_, metadata=None, dont_compress=False):
        if self.hook:
            self.hook('write', key)
        off = fh.tell()
        h = len_ // 2
        a = fh.read(h)
        await self._pt()
        b = fh.read(len_ - h)
        buf = a + b
        await self._pt()
        if self.hook:
            self.hook('write-commit', key)
        self.data[key] = buf
        self.meta[key] = dict(metadata or {})
        if self.after:
            self.after('write', key)
        await self._pt()
        return len(buf) + 100

    def stored_size(self, key):
        return len(self.data[key]) + 100

    async def store(self, key, val, metadata=None):
        return await self.write_fh(key, io.BytesIO(val), len(val), metadata)

    async def readinto_fh(self, key, fh, size_hint=None):
        if self.hook:
            self.hook('read', key)
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        buf = self.data[key]
        fh.write(buf[: len(buf) // 2])
        await self._pt()
        fh.write(buf[len(buf) // 2 :])
        return dict(self.meta[key])

    async def fetch(self, key):
        fh = io.BytesIO()
        m = await self.readinto_fh(key, fh)
        return fh.getvalue(), m

    async def read(self, key):
        return (await self.fetch(key))[0]

    async def lookup(self, key):
        if self.hook:
            self.hook('lookup', key)
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        return dict(self.meta[key])

    async def get_size(self, key):
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        return len(self.data[key]) + 100

    async def contains(self, key):
        await self._pt()
        return key in self.data

    async def delete(self, key):
        if self.hook:
            self.hook('delete', key)
        await self._pt()
        self.data.pop(key, None)
        self.meta.pop(key, None)
        self.deletes.append(key)
        if self.after:
            self.after('delete', key)
        await self._pt()

    async def delete_multi(self, keys, *, log_progress=False):
        for k in list(keys):
            await self.delete(k)
            keys.remove(k)

    async def list(self, prefix=''):
        for k in sorted(self.data):
            if k.startswith(prefix):
                await self._pt()
                yield k

    async def close(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False


class RawMemBackend(AsyncBackend):
    '''In-memory raw backend (below the compression/encryption layer)'''

    def __init__(self, max_connections=1):
        super().__init__(_factory_sentinel=bcommon._FACTORY_SENTINEL)
        self.data = {}
        self.meta = {}
        self.hook = None
        self._mc = max_connections
        self.points = True

    @property
    def max_connections(self):
        return self._mc

    async def _pt(self):
        if self.points:
            await trio.lowlevel.checkpoint()

    def is_temp_failure(self, exc):
        return False

    async def readinto_fh(self, key, fh):
        if self.hook:
            self.hook('read', key)
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        buf, meta = self.data[key], dict(self.meta[key])
        fh.write(buf)
        return meta

    async def write_fh(self, key, fh, metadata=None):
        if self.hook:
            self.hook('write', key)
        fh.seek(0)
        buf = fh.read()
        meta = dict(metadata or {})
        await self._pt()
        if self.hook:
            self.hook('write-commit', key)
        self.data[key] = bytes(buf)
        self.meta[key] = meta
        return len(buf)

    async def lookup(self, key):
        if self.hook:
            self.hook('lookup', key)
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        return dict(self.meta[key])

    async def get_size(self, key):
        await self._pt()
        if key not in self.data:
            raise NoSuchObject(key)
        return len(self.data[key])

    async def delete(self, key):
        if self.hook:
            self.hook('delete', key)
        await self._pt()
        self.data.pop(key, None)
        self.meta.pop(key, None)

    async def list(self, prefix=''):
        for k in sorted(self.data):
            if k.startswith(prefix):
                await self._pt()
                yield k


class FakeFs:
    '''Stand-in for fs.Operations as seen by the block cache'''

    failsafe = False


# --------------------------------------------------------------------------------------------
# Independent consistency checker. Deliberately does not use s3ql.fsck.


def check_db(db, backend=None, max_obj_size=None, open_ok=(), inflight_ok=False, sizes=True):
    '''Return list of inconsistencies in the metadata (and its relation to the backend).

    *open_ok*: inodes that may legitimately have no directory entry (unlinked, still open).
    '''
    errs = []
    d = dump(db)
    cols = {t: columns(db, t) for t in TABLES}

    def rows(t):
        return [dict(zip(cols[t], r)) for r in d[t]]

    objects = {r['id']: r for r in rows('objects')}
    inodes = {r['id']: r for r in rows('inodes')}
    names = {r['id']: r for r in rows('names')}
    contents = rows('contents')
    blocks = rows('inode_blocks')
    xattrs = rows('ext_attributes')
    syml = rows('symlink_targets')

    cnt = {}
    for b in blocks:
        cnt[b['obj_id']] = cnt.get(b['obj_id'], 0) + 1
        if b['obj_id'] not in objects:
            errs.append(f'block {b["inode"]}/{b["blockno"]} refers to missing object row {b["obj_id"]}')
        if b['inode'] not in inodes:
            errs.append(f'block {b["inode"]}/{b["blockno"]} belongs to missing inode')
    for oid, o in objects.items():
        if o['refcount'] != cnt.get(oid, 0):
            errs.append(f'object {oid}: refcount {o["refcount"]}, referenced {cnt.get(oid, 0)} times')
        if cnt.get(oid, 0) == 0:
            errs.append(f'object {oid}: unreferenced row')
        if not inflight_ok:
            if o['hash'] is None:
                errs.append(f'object {oid}: NULL hash')
            if o['phys_size'] < 0:
                errs.append(f'object {oid}: phys_size {o["phys_size"]}')
    if backend is not None:
        keys = {int(k[10:]) for k in backend.data if k.startswith('s3ql_data_') and k[10:].isdigit()}
        for k in sorted(keys - set(objects)):
            errs.append(f'backend object {k} has no row (leaked)')
        for k in sorted(set(objects) - keys):
            if not (inflight_ok and objects[k]['phys_size'] == -1):
                errs.append(f'object {k} is missing in the backend (lost)')
        for k in sorted(keys & set(objects)):
            buf = backend.data[f's3ql_data_{k}']
            o = objects[k]
            if o['hash'] is not None and hashlib.sha256(buf).digest() != o['hash']:
                errs.append(f'object {k}: backend content does not match recorded hash')
            if o['length'] != len(buf):
                errs.append(f'object {k}: length {o["length"]} recorded, {len(buf)} stored')
            size = getattr(backend, 'stored_size', lambda key: None)(f's3ql_data_{k}')
            if o['phys_size'] != -1 and size is not None and o['phys_size'] != size:
                errs.append(f'object {k}: phys_size {o["phys_size"]} recorded, {size} bytes stored')
    ncnt = {}
    for c in contents:
        ncnt[c['name_id']] = ncnt.get(c['name_id'], 0) + 1
        for f in ('inode', 'parent_inode'):
            if c[f] not in inodes:
                errs.append(f'dirent {c}: {f} does not exist')
    for x in xattrs:
        ncnt[x['name_id']] = ncnt.get(x['name_id'], 0) + 1
        if x['inode'] not in inodes:
            errs.append(f'xattr of missing inode {x["inode"]}')
    for nid, n in names.items():
        if n['refcount'] != ncnt.get(nid, 0):
            errs.append(f'name {n["name"]!r}: refcount {n["refcount"]}, used {ncnt.get(nid, 0)} times')
        if ncnt.get(nid, 0) == 0:
            errs.append(f'name {n["name"]!r}: unused row')
    for nid in ncnt:
        if nid not in names:
            errs.append(f'name id {nid} used but missing')
    icnt = {}
    for c in contents:
        icnt[c['inode']] = icnt.get(c['inode'], 0) + 1
    for id_, i in inodes.items():
        if id_ in (1, 2):  # root, ctrl
            continue
        n = icnt.get(id_, 0)
        if n == 0 and id_ in open_ok:
            if i['refcount'] != 0:
                errs.append(f'inode {id_}: refcount {i["refcount"]} but no entries')
            continue
        if i['refcount'] != n:
            errs.append(f'inode {id_}: refcount {i["refcount"]}, {n} directory entries')
        if n == 0:
            errs.append(f'inode {id_}: unreachable')
        if stat.S_ISDIR(i['mode']) and n > 1:
            errs.append(f'directory {id_} has {n} entries')
    # reachability
    child = {}
    for c in contents:
        child.setdefault(c['parent_inode'], []).append(c['inode'])
    seen = {1}
    todo = [1]
    while todo:
        for x in child.get(todo.pop(), ()):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    for id_ in inodes:
        if id_ not in seen and id_ != 2 and id_ not in open_ok:
            errs.append(f'inode {id_} not reachable from the root')
    for s in syml:
        i = inodes.get(s['inode'])
        if i is None:
            errs.append(f'symlink target of missing inode {s["inode"]}')
        elif i['size'] != len(s['target']):
            errs.append(f'symlink {s["inode"]}: size {i["size"]} target length {len(s["target"])}')
    if sizes and max_obj_size:
        for b in blocks:
            i = inodes.get(b['inode'])
            o = objects.get(b['obj_id'])
            if i is None or o is None:
                continue
            end = b['blockno'] * max_obj_size + o['length']
            if o['length'] > max_obj_size:
                errs.append(f'object {b["obj_id"]}: longer than block size')
            if end > i['size']:
                errs.append(f'inode {b["inode"]}: size {i["size"]} smaller than its blocks ({end})')
    for id_, i in inodes.items():
        m = i['mode']
        if id_ in child and not stat.S_ISDIR(m):
            errs.append(f'non-directory {id_} has entries')
    return errs


def read_block(db, backend, inode, blockno):
    '''Content of a block as recorded in metadata + backend; None if not present, 'LOST' if broken'''
    r = db.get_list('SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?', (inode, blockno))
    if not r:
        return b''
    buf = backend.data.get('s3ql_data_%d' % r[0][0])
    return 'LOST' if buf is None else buf


class quiet_excepthook:
    '''Record (instead of print) errors raised via sys.excepthook from finalizers'''

    def __enter__(self):
        self.seen = []
        self.orig = sys.excepthook
        sys.excepthook = lambda t, v, tb: self.seen.append(v)
        return self

    def __exit__(self, *a):
        sys.excepthook = self.orig


def run_sync_trio(fn, *args):
    '''Run an async function to completion without schedule exploration'''
    import trio.testing

    return trio.run(fn, *args, clock=trio.testing.MockClock(autojump_threshold=0))


def fsck_params(max_obj_size=BLOCK):
    return FsAttributes(data_block_size=max_obj_size, metadata_block_size=65536)
