'''C11: the real Fsck on every corruption (and combination of corruptions) of a reference file system.'''
import copy
import hashlib
import itertools
import os
import stat
import sys
import traceback

import apsw

from mc import bc, world
from mc.explore import pmap

from s3ql.fsck import Fsck

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of single and combined corruptions of every metadata row, backend object and cache file of a reference file system; the real Fsck is run twice on each and compared with an independent consistency checker and an independent model of what must survive'
NOTE = (
    'About 400 corruptions (every row deleted, every reference dangling or redirected, loops, wrong counts, sizes and types, lost and spurious objects, '
    'cache files, interrupted uploads) of a file system with directories, hard links, shared and sparse blocks, symlinks, devices and extended attributes; '
    'all singles, all pairs (quick: pairs that touch related parts plus a fixed part of the rest), thorough also triples of the structural ones.'
)

B = world.BLOCK
ROOT, CTRL, LOF = 1, 2, 3
D, E, F, G, S, P, L, X, DEV, H, L2 = range(4, 15)
DIR, REG = stat.S_IFDIR | 0o755, stat.S_IFREG | 0o644
DATA = {1: b'obj-one!', 2: b'obj-two!', 3: b'three', 4: b'four', 5: b'five'}
DNAME = b'd\xff\xe9'  # not valid UTF-8

INODES = {
    D: (DIR, 0, 0, 1),
    E: (DIR, 0, 0, 1),
    F: (REG, 16, 0, 1),
    G: (REG, 21, 0, 2),
    S: (stat.S_IFLNK | 0o777, 4, 0, 1),
    P: (stat.S_IFIFO | 0o600, 0, 0, 1),
    L: (REG, 4, 0, 1),
    X: (DIR, 0, 0, 1),
    DEV: (stat.S_IFBLK | 0o600, 0, 2049, 1),
    H: (REG, 4, 0, 1),
    L2: (REG, 0, 0, 1),
}
ENTRIES = [
    (ROOT, DNAME, D), (D, b'e', E), (ROOT, b'f', F), (D, b'g', G), (E, b'f', G), (E, b's', S), (ROOT, b'p', P),
    (LOF, b'inode-6', L), (LOF, b'inode-6-1', L2), (E, b'x', X), (ROOT, b'dev', DEV), (X, b'h_/'[:2], H),
]
BLOCKS = [(F, 0, 1), (F, 1, 2), (G, 0, 2), (G, 2, 3), (L, 0, 4), (H, 0, 5)]


def reference():
    '''-> {table: [row dict]}, objects, cache files'''
    d = world.workdir()
    db = world.new_db(d)
    base = world.dump(db)
    cols = {t: world.columns(db, t) for t in world.TABLES}
    db.conn.close()
    world.rmdir(d)
    st = {t: [dict(zip(cols[t], r)) for r in base[t]] for t in world.TABLES}
    assert sorted(r['id'] for r in st['inodes']) == [ROOT, CTRL, LOF]
    for i, (mode, size, rdev, ref) in INODES.items():
        st['inodes'].append(
            dict(id=i, uid=10 + i, gid=20 + i, mode=mode, mtime_ns=i, atime_ns=i + 1, ctime_ns=i + 2, refcount=ref, size=size, rdev=rdev, locked=0)
        )
    for o, buf in DATA.items():
        st['objects'].append(
            dict(id=o, hash=hashlib.sha256(buf).digest(), refcount=sum(b[2] == o for b in BLOCKS), phys_size=len(buf) + 100, length=len(buf))
        )
    st['inode_blocks'] = [dict(inode=i, blockno=n, obj_id=o) for i, n, o in BLOCKS]
    st['symlink_targets'] = [dict(inode=S, target=b'../g')]
    names = {r['name']: r for r in st['names']}

    def use(name):
        if name not in names:
            names[name] = dict(id=max(r['id'] for r in names.values()) + 1, name=name, refcount=0)
            st['names'].append(names[name])
        names[name]['refcount'] += 1
        return names[name]['id']

    rid = max(r['rowid'] for r in st['contents'])
    for p, n, i in ENTRIES:
        rid += 1
        st['contents'].append(dict(rowid=rid, name_id=use(n), inode=i, parent_inode=p))
    st['ext_attributes'] = [
        dict(inode=F, name_id=use(b'user.a'), value=b'v1'),
        dict(inode=D, name_id=use(b'f'), value=b'v2'),
        dict(inode=G, name_id=use(b'user.a'), value=b'v3'),
    ]
    return {'t': st, 'be': {f's3ql_data_{o}': buf for o, buf in DATA.items()}, 'cache': {}}


KEY = {
    'objects': ('id',), 'inodes': ('id',), 'names': ('id',), 'inode_blocks': ('inode', 'blockno'),
    'symlink_targets': ('inode',), 'contents': ('rowid',), 'ext_attributes': ('inode', 'name_id'),
}


def find(st, t, key):
    for r in st['t'][t]:
        if r['_k'] == key:
            return r
    return None


class Op:
    '''A corruption: kind, table, key of the row in the reference, changes'''

    def __init__(self, name, group, fn):
        self.name, self.group, self.fn = name, group, fn


def corruptions():
    ref = reference()
    ops = []

    def op(name, group, fn):
        ops.append(Op(name, group, fn))

    def delete(t, k):
        def fn(st):
            r = find(st, t, k)
            if r is not None:
                st['t'][t].remove(r)

        return fn

    def change(t, k, **ch):
        def fn(st):
            r = find(st, t, k)
            if r is not None:
                r.update(ch)

        return fn

    def insert(t, **row):
        return lambda st: st['t'][t].append(dict(row, _k=None))

    ent = {r['rowid']: r for r in ref['t']['contents']}
    nm = {r['id']: r['name'] for r in ref['t']['names']}
    for t, rows in ref['t'].items():
        for r in rows:
            k = tuple(r[c] for c in KEY[t])
            op(f'delete {t} {k}', t, delete(t, k))
            if 'refcount' in r:
                for v in (0, r['refcount'] + 1, r['refcount'] - 1, -1) if t != 'inodes' or k[0] > 3 else ():
                    if v != r['refcount'] and not (v == 0 and r['refcount'] == 1 and v == r['refcount'] - 1 and False):
                        op(f'{t} {k} refcount {v}', t + ' count', change(t, k, refcount=v))
    for rowid, r in ent.items():
        n = f'entry {nm[r["name_id"]]!r} of {r["parent_inode"]}'
        k = (rowid,)
        op(f'{n}: name dangling', 'contents', change('contents', k, name_id=999))
        op(f'{n}: inode dangling', 'contents', change('contents', k, inode=999))
        op(f'{n}: parent dangling', 'contents', change('contents', k, parent_inode=999))
        if r['inode'] in (LOF, D, E, X):
            op(f'{n}: parent is itself', 'loops', change('contents', k, parent_inode=r['inode']))
        for v in {LOF: (D, X, F), D: (E, X, LOF, F), E: (X, P), X: (F, LOF)}.get(r['inode'], (F, X)):
            op(f'{n}: parent {v}', 'loops', change('contents', k, parent_inode=v))
        for v in (ROOT, X, F):
            if v != r['inode']:
                op(f'{n}: inode {v}', 'contents', change('contents', k, inode=v))
    for r in ref['t']['inode_blocks']:
        k = (r['inode'], r['blockno'])
        op(f'block {k}: object dangling', 'blocks', change('inode_blocks', k, obj_id=999))
        op(f'block {k}: object 4', 'blocks', change('inode_blocks', k, obj_id=4))
        for v in (999, E, LOF):
            op(f'block {k}: inode {v}', 'blocks', change('inode_blocks', k, inode=v))
        op(f'block {k}: number 7', 'blocks', change('inode_blocks', k, blockno=7))
    for v in (ROOT, LOF, D, P, S):
        op(f'lost block of inode {v}', 'blocks', insert('inode_blocks', inode=v, blockno=0, obj_id=998))
    for r in ref['t']['ext_attributes']:
        k = (r['inode'], r['name_id'])
        op(f'xattr {k}: name dangling', 'xattr', change('ext_attributes', k, name_id=999))
        op(f'xattr {k}: inode dangling', 'xattr', change('ext_attributes', k, inode=999))
    op('xattr clash', 'xattr', lambda st: _xattr_clash(st))
    for v in (999, F):
        op(f'symlink of inode {v}', 'symlink', change('symlink_targets', (S,), inode=v))
    for r in ref['t']['objects']:
        o = r['id']
        op(f'object {o}: no hash', 'objects', change('objects', (o,), hash=None))
        op(f'object {o}: no size', 'objects', change('objects', (o,), phys_size=-1))
        op(f'object {o}: lost', 'backend', lambda st, o=o: st['be'].pop(f's3ql_data_{o}', None))
        op(f'object {o}: upload interrupted', 'backend', lambda st, o=o: (change('objects', (o,), phys_size=-1)(st), st['be'].pop(f's3ql_data_{o}', None)))
        op(f'object {o}: not listed yet', 'backend', lambda st, o=o: st.setdefault('hidden', set()).add(f's3ql_data_{o}'))
    for k in ('s3ql_data_6', 's3ql_data_77', 's3ql_data_junk', 's3ql_metadata_junk'):
        op(f'spurious {k}', 'backend', lambda st, k=k: st['be'].setdefault(k, b'junk'))
    op('object row without object and reference', 'objects', insert('objects', id=60, hash=b'6' * 32, refcount=1, phys_size=5, length=5))
    op('object row with object, unused', 'objects', lambda st: (insert('objects', id=61, hash=hashlib.sha256(b'un').digest(), refcount=0, phys_size=102, length=2)(st), st['be'].setdefault('s3ql_data_61', b'un')))
    for i in (F, G, L):
        for v in (0, 5, 100):
            op(f'inode {i} size {v}', 'inodes', change('inodes', (i,), size=v))
    op('fifo with size', 'unix', change('inodes', (P,), size=7))
    op('symlink size', 'unix', change('inodes', (S,), size=9))
    op('file with device number', 'unix', change('inodes', (F,), rdev=5))
    for i, modes in {
        ROOT: (0o755, REG), LOF: (0o700, REG, stat.S_IFIFO | 0o644), D: (0o755, REG), X: (0o755, REG), F: (0o644, DIR, stat.S_IFLNK | 0o777),
        G: (0o644, DIR), S: (0o777, REG), P: (0o600, REG),
    }.items():
        for m in modes:
            op(f'inode {i} mode {m:o}', 'unix' if m & ~0o7777 else 'inodes', change('inodes', (i,), mode=m))
    for name, new in (('long', b'n' * 300), ('slash', b'a/b'), ('latin', b'\xe9\xff'), ('lf', b'inode-6-1')):
        for nid, old in nm.items():
            if old in (DNAME, b'f', b'lost+found', b'x'):
                op(f'name {old!r} {name}', 'names', change('names', (nid,), name=new))
    for n in range(244, 251):
        op(f'long name taken ({n})', 'names', lambda st, n=n: _long_taken(st, n))
    op('unused name', 'names', insert('names', id=50, name=b'unused', refcount=1))
    op('unused name, no count', 'names', insert('names', id=51, name=b'unused0', refcount=0))
    op('orphaned file', 'inodes', insert('inodes', id=40, uid=1, gid=1, mode=REG, mtime_ns=1, atime_ns=1, ctime_ns=1, refcount=0, size=5, rdev=0, locked=0))
    op('orphaned directory', 'inodes', insert('inodes', id=41, uid=1, gid=1, mode=DIR, mtime_ns=1, atime_ns=1, ctime_ns=1, refcount=1, size=0, rdev=0, locked=0))
    op('orphaned tree', 'loops', lambda st: (insert('inodes', id=42, uid=1, gid=1, mode=DIR, mtime_ns=1, atime_ns=1, ctime_ns=1, refcount=1, size=0, rdev=0, locked=0)(st), insert('contents', rowid=70, name_id=_nid(b'f'), inode=F, parent_inode=42)(st)))
    for c, data in (
        ((F, 0), b'dirty'), ((F, 0), DATA[1]), ((F, 1), DATA[3]), ((G, 1), b'sparse'), ((F, 9), b'beyond'), ((F, 1), b''), ((L, 0), DATA[4]), ((G, 0), b'dirty'),
        ((999, 0), b'no inode'), ((E, 0), b'a dir'), ((LOF, 0), b'lof'), ((H, 0), DATA[1]),
    ):
        op(f'cache {c} {data!r}', 'cache', lambda st, c=c, data=data: st['cache'].setdefault('%d-%d' % c, data))
    op('cache tmp file', 'cache', lambda st: st['cache'].setdefault('6-1.tmp', b'xx'))
    for n, how in itertools.product((250, 300, 1200), ('', 'leaf refcount', 'leaf size', 'leaf block lost', 'leaf mode', 'middle parent', 'middle inode', 'circular', 'leaf long name')):
        if n == 300 or how in ('', 'circular', 'middle parent'):
            op(f'chain of {n} directories {how}', 'deep', lambda st, n=n, how=how: _deep(st, n, how))
    return ops


def _deep(st, n, how):
    '''a chain of n directories, the last one with a file'''
    t = st['t']
    nid = _nid(b'f')
    parent = D
    for k in range(n):
        i = 1000 + k
        t['inodes'].append(dict(id=i, uid=1, gid=1, mode=DIR, mtime_ns=1, atime_ns=1, ctime_ns=1, refcount=1, size=0, rdev=0, locked=0, _k=None))
        t['contents'].append(dict(rowid=i, name_id=nid, inode=i, parent_inode=parent, _k=None))
        parent = i
    leaf = 5000
    t['inodes'].append(dict(id=leaf, uid=1, gid=1, mode=REG, mtime_ns=1, atime_ns=1, ctime_ns=1, refcount=1, size=8, rdev=0, locked=0, _k=None))
    t['contents'].append(dict(rowid=leaf, name_id=nid, inode=leaf, parent_inode=parent, _k=None))
    t['inode_blocks'].append(dict(inode=leaf, blockno=0, obj_id=1, _k=None))
    for r in t['names']:
        if r['id'] == nid:
            r['refcount'] += n + 1
    for r in t['objects']:
        if r['id'] == 1:
            r['refcount'] += 1
    mid = t['contents'][-n // 2 - 1]
    if how == 'leaf refcount':
        t['inodes'][-1]['refcount'] = 3
    elif how == 'leaf size':
        t['inodes'][-1]['size'] = 3
    elif how == 'leaf mode':
        t['inodes'][-1]['mode'] = 0o644
    elif how == 'leaf block lost':
        t['inode_blocks'][-1]['obj_id'] = 998
    elif how == 'leaf long name':
        t['names'].append(dict(id=90, name=b'l' * 300, refcount=1, _k=None))
        t['contents'][-1]['name_id'] = 90
    elif how == 'middle parent':
        mid['parent_inode'] = 998
    elif how == 'middle inode':
        t['inodes'].remove(next(r for r in t['inodes'] if r['id'] == mid['inode']))
    elif how == 'circular':
        first = t['contents'][-n - 1]
        first['parent_inode'] = mid['inode']
        first['name_id'] = _nid(b'p')
        for r in t['names']:
            r['refcount'] += (r['name'] == b'p') - (r['id'] == nid)


_names_of_ref = None


def _nid(name):
    for r in _ref()['t']['names']:
        if r['name'] == name:
            return r['id']
    raise KeyError(name)


def _xattr_clash(st):
    # an extended attribute already has the name that would be chosen next
    st['t']['names'].append(dict(id=80, name=b'lost+found_1', refcount=1, _k=None))
    st['t']['ext_attributes'].append(dict(inode=F, name_id=80, value=b'clash', _k=None))


def _long_taken(st, n):
    # the entry that is moved to lost+found has a long name that is already taken there
    for k, (name, parent, inode) in enumerate(((b'n' * n, 999, F), (b'[999]-' + b'n' * n, LOF, L2))):
        st['t']['names'].append(dict(id=81 + k, name=name, refcount=1, _k=None))
        st['t']['contents'].append(dict(rowid=81 + k, name_id=81 + k, inode=inode, parent_inode=parent, _k=None))
        r = find(st, 'inodes', (inode,))
        if r is not None:
            r['refcount'] += 1


_cache = {}


def _ref():
    if 'ref' not in _cache:
        _cache['ref'] = reference()
    return _cache['ref']


def _ops():
    if 'ops' not in _cache:
        _cache['ops'] = corruptions()
    return _cache['ops']


# -- model of what must survive

class View:
    '''What can be read from a state, looking at the rows only'''

    def __init__(self, st):
        t = st['t']
        self.inodes = {r['id']: r for r in t['inodes']}
        self.names = {r['id']: r['name'] for r in t['names']}
        self.objects = {r['id']: r for r in t['objects']}
        self.contents = t['contents']
        self.child = {}
        for r in t['contents']:
            self.child.setdefault(r['parent_inode'], []).append(r)
        self.blocks = {}  # inode -> {blockno: data}
        self.lost = set()  # inodes with lost blocks
        for r in t['inode_blocks']:
            o = self.objects.get(r['obj_id'])
            buf = st['be'].get('s3ql_data_%d' % r['obj_id'])
            if o is None or o['hash'] is None or buf is None:
                self.lost.add((r['inode'], r['blockno']))
            else:
                self.blocks.setdefault(r['inode'], {})[r['blockno']] = buf
        for f, buf in st['cache'].items():
            if f.endswith('.tmp'):
                continue
            i, n = map(int, f.split('-'))
            h = hashlib.sha256(buf).digest()
            self.lost.discard((i, n))
            self.blocks.setdefault(i, {}).pop(n, None)
            # the data may be de-duplicated against an object that has been lost
            if any(o['hash'] == h and o['phys_size'] != -1 and f's3ql_data_{o["id"]}' not in st['be'] for o in self.objects.values()):
                self.lost.add((i, n))
            else:
                self.blocks[i][n] = buf
        # an interrupted upload is repeated from a cache file with the same content
        for r in t['inode_blocks']:
            o = self.objects.get(r['obj_id'])
            if (r['inode'], r['blockno']) in self.lost and o and o['hash'] and o['phys_size'] == -1 and '%d-%d' % (r['inode'], r['blockno']) not in st['cache']:
                for buf in st['cache'].values():
                    if hashlib.sha256(buf).digest() == o['hash']:
                        self.lost.discard((r['inode'], r['blockno']))
                        self.blocks.setdefault(r['inode'], {})[r['blockno']] = buf
        self.lost_inodes = {i for i, _ in self.lost if i not in self.inodes or not stat.S_ISDIR(self.inodes[i]['mode'])}
        self.entries = {}
        for r in t['contents']:
            self.entries[r['inode']] = self.entries.get(r['inode'], 0) + 1
        self.symlinks = {r['inode']: r['target'] for r in t['symlink_targets']}
        self.xattrs = {}
        for r in t['ext_attributes']:
            self.xattrs.setdefault(r['inode'], []).append((self.names.get(r['name_id']), r['value']))
        self.tree = {}  # path -> inode
        self.tainted = set()  # paths below something damaged
        lim = sys.getrecursionlimit()
        sys.setrecursionlimit(5000)
        self._walk(ROOT, (), (ROOT,), False)
        sys.setrecursionlimit(lim)

    def _walk(self, ino, path, chain, taint):
        for r in self.child.get(ino, ()):
            n = self.names.get(r['name_id'])
            i = self.inodes.get(r['inode'])
            if n is None or i is None or i['id'] in chain or i['id'] == ROOT:
                continue
            p = (*path, n)
            t = taint or i['id'] in self.lost_inodes
            isdir = stat.S_ISDIR(i['mode'])
            if p == (b'lost+found',) and not isdir:
                t = True
            if isdir and self.entries[i['id']] > 1:
                t = True
            self.tree[p] = i['id']
            if t:
                self.tainted.add(p)
            if isdir:
                self._walk(i['id'], p, (*chain, i['id']), t)

    def lof_entries(self, inode):
        return sum(
            r['inode'] == inode and r['parent_inode'] in (ROOT, inode) and self.names.get(r['name_id']) == b'lost+found' for r in self.contents
        )

    def unix_problems(self):
        out = []
        has_blocks = {i for i, b in self.blocks.items() if b} | self.lost_inodes
        for i, r in self.inodes.items():
            m = r['mode']
            tg = self.symlinks.get(i)
            lnk = stat.S_ISLNK(m)
            if lnk and (tg is None or len(tg) != r['size']):
                out.append(i)
            elif tg is not None and not lnk:
                out.append(i)
            elif r['size'] and not (stat.S_ISREG(m) or lnk or stat.S_ISDIR(m)):
                out.append(i)
            elif r['rdev'] and not (stat.S_ISBLK(m) or stat.S_ISCHR(m)):
                out.append(i)
            elif i in self.child and not stat.S_ISDIR(m):
                out.append(i)
            elif i in has_blocks and not stat.S_ISREG(m):
                out.append(i)
        for r in self.contents:
            if len(self.names.get(r['name_id'], b'')) > 255:
                out.append(r['inode'])
        return out


IGNORE = ('directory ', 'non-directory ', 'symlink ')


class LaggingBackend(world.MemBackend):
    '''Some objects exist, but are not listed yet'''

    hidden = ()

    async def list(self, prefix=''):
        async for k in super().list(prefix):
            if k not in self.hidden:
                yield k


class Env:
    def __init__(self):
        self.d = world.workdir()
        self.db = world.new_db(self.d)
        self.cols = {t: world.columns(self.db, t) for t in world.TABLES}
        self.cd = os.path.join(self.d, 'cache')
        os.mkdir(self.cd)
        self.be = LaggingBackend()
        self.be.points = False

    def load(self, st):
        rows = {t: [tuple(r[c] for c in self.cols[t]) for r in st['t'][t]] for t in world.TABLES}
        rows['sqlite_sequence'] = [('objects', 5), ('inodes', L2), ('contents', max(r['rowid'] for r in _ref()['t']['contents']))]
        world.restore(self.db, rows)
        self.be.data = dict(st['be'])
        self.be.hidden = st.get('hidden', ())
        self.be.meta = {k: {} for k in st['be']}
        for f in os.listdir(self.cd):
            os.unlink(os.path.join(self.cd, f))
        for f, buf in st['cache'].items():
            with open(os.path.join(self.cd, f), 'wb') as fh:
                fh.write(buf)

    def state(self):
        d = world.dump(self.db)
        st = {t: [dict(zip(self.cols[t], r)) for r in d[t]] for t in world.TABLES}
        cache = {}
        for fn in os.listdir(self.cd):
            with open(os.path.join(self.cd, fn), 'rb') as fh:
                cache[fn] = fh.read()
        return {'t': st, 'be': dict(self.be.data), 'cache': cache}

    def fsck(self, *how):
        f = Fsck(self.cd, self.be, world.fsck_params(B), self.db)
        f.expect_errors = True
        world.run_sync_trio(f.check, *how)
        return f

    def close(self):
        self.db.conn.close()
        world.rmdir(self.d)


def env():
    if 'env' not in _cache or _cache.get('pid') != os.getpid():
        _cache['env'] = Env()
        _cache['pid'] = os.getpid()
    return _cache['env']


def base_state():
    st = copy.deepcopy(_ref())
    for t, rows in st['t'].items():
        for r in rows:
            r['_k'] = tuple(r[c] for c in KEY[t])
    return st


def try_ops(idx):
    '''-> None | (sig, detail)'''
    st = base_state()
    names = []
    for i in idx:
        o = _ops()[i]
        names.append(o.name)
        o.fn(st)
    e = env()
    try:
        e.load(st)
    except apsw.ConstraintError:
        try:
            e.db.execute('ROLLBACK')
        except Exception:
            pass
        _cache.pop('env').close()
        return 'skip'
    ctx = f'corruptions {names}'
    pre = View(st)
    pre_errs = [x for x in world.check_db(e.db, e.be) if not x.startswith(IGNORE)]
    try:
        f = e.fsck()
    except Exception as exc:
        x = bc.leaf(exc)
        tb = [fr for fr in traceback.extract_tb(x.__traceback__) if 's3ql' in fr.filename]
        where = f' in {tb[-1].name}' if tb else ''
        chain = ' <- '.join(fr.name for fr in reversed(tb[-4:]))
        _cache.pop('env').close()
        return ('checker fails: ' + type(x).__name__ + where, f'{ctx}: {x!r} ({chain})')
    post_st = e.state()
    post = View(post_st)
    errs = [x for x in world.check_db(e.db, e.be, B, sizes=True) if not x.startswith(IGNORE)]
    # what is neither listed nor referred to can not be found yet
    lagging = [x for x in errs if x.startswith('backend object ') and x.endswith('(leaked)') and 's3ql_data_' + x.split()[2] in st.get('hidden', ())]
    errs = [x for x in errs if x not in lagging]
    if errs:
        return ('inconsistent after checking: ' + errs[0].split(':')[0].split()[0], f'{ctx}: {errs[:4]}')
    if post_st['cache']:
        return ('cache files left', f'{ctx}: {list(post_st["cache"])}')
    bad = [x for x in pre_errs if 'unused row' not in x and 'unreferenced row' not in x]
    if bad and not f.found_errors:
        return ('errors not reported', f'{ctx}: {bad[:4]}')
    r = survived(pre, post, st, post_st)
    if r:
        return (r[0], f'{ctx}: {r[1]}')
    if st.get('hidden') and lagging:
        return None
    # again
    try:
        f = e.fsck()
    except Exception as exc:
        x = bc.leaf(exc)
        _cache.pop('env').close()
        return ('second run fails: ' + type(x).__name__, f'{ctx}: {x!r}')
    up = post.unix_problems()
    if f.found_errors and not up:
        return ('second run reports errors', ctx)
    again = e.state()
    for t in world.TABLES:
        if again['t'][t] != post_st['t'][t]:
            diff = [r for r in again['t'][t] if r not in post_st['t'][t]] + [r for r in post_st['t'][t] if r not in again['t'][t]]
            return ('second run changes ' + t, f'{ctx}: {diff[:4]}')
    if again['be'] != post_st['be']:
        return ('second run changes objects', ctx)
    if st['cache']:
        # fsck.s3ql --keep-cache
        e.load(st)
        try:
            e.fsck('keep')
        except Exception as exc:
            x = bc.leaf(exc)
            _cache.pop('env').close()
            return ('checker fails (keeping the cache): ' + type(x).__name__, f'{ctx}: {x!r}')
        kept = e.state()
        blocks = {i: b for i, b in View(dict(kept, cache={})).blocks.items() if b}
        if blocks != {i: b for i, b in post.blocks.items() if b} or kept['be'] != post_st['be']:
            return ('different result when keeping the cache', ctx)
        want = {fn: buf for fn, buf in st['cache'].items() if not fn.endswith('.tmp')}
        if kept['cache'] != want:
            return ('cache files not kept', f'{ctx}: {kept["cache"]}')
    return None


def survived(pre, post, st, post_st):
    old = set(pre.names.values())
    for name in post.names.values():
        if len(name) > 255 and name not in old:
            return 'name that is too long', f'{len(name)} bytes'
    lof = post.tree.get((b'lost+found',))
    if lof is None or not stat.S_ISDIR(post.inodes[lof]['mode']):
        return 'no lost+found directory', repr(sorted(post.tree))
    for i, r in pre.inodes.items():
        q = post.inodes.get(i)
        if q is None:
            return 'inode dropped', f'{i}'
        for c in ('uid', 'gid', 'mtime_ns', 'atime_ns', 'ctime_ns', 'rdev', 'locked'):
            if r[c] != q[c]:
                return 'inode attribute changed', f'{i} {c}: {r[c]} -> {q[c]}'
        if r['mode'] != q['mode'] and (stat.S_IFMT(r['mode']) or r['mode'] != stat.S_IMODE(q['mode'])):
            return 'inode mode changed', f'{i}: {r["mode"]:o} -> {q["mode"]:o}'
        bl = pre.blocks.get(i, {})
        pb = post.blocks.get(i, {})
        for n, buf in bl.items():
            if pb.get(n) != buf:
                return 'undamaged block lost or changed', f'inode {i} block {n}: {buf!r} -> {pb.get(n)!r}'
        for n, buf in pb.items():
            if n not in bl:
                return 'block appears', f'inode {i} block {n}: {buf!r}'
        end = max([r['size']] + [n * B + len(buf) for n, buf in bl.items()])
        if q['size'] != end:
            return 'wrong file size', f'inode {i}: {r["size"]} -> {q["size"]}, expected {end}'
        if i in pre.symlinks and post.symlinks.get(i) != pre.symlinks[i]:
            return 'symlink target lost', f'{i}'
        if sorted(v for _, v in pre.xattrs.get(i, ())) != sorted(v for _, v in post.xattrs.get(i, ())):
            return 'extended attribute lost', f'{i}: {pre.xattrs.get(i)} -> {post.xattrs.get(i)}'
        names = {n for n, _ in pre.xattrs.get(i, ()) if n is not None}
        if not names <= {n for n, _ in post.xattrs.get(i, ())}:
            return 'extended attribute renamed', f'{i}: {pre.xattrs.get(i)} -> {post.xattrs.get(i)}'
        if i not in (ROOT, CTRL):
            n = post.entries.get(i, 0)
            # (an entry that has the name of the lost+found directory, but is something else, is replaced)
            if n < max(1, pre.entries.get(i, 0) - pre.lof_entries(i)):
                return 'directory entry dropped', f'inode {i}: {pre.entries.get(i, 0)} -> {n}'
    inv = {}
    for p, i in post.tree.items():
        inv.setdefault(i, []).append(p)
    for p, i in pre.tree.items():
        if p in pre.tainted:
            continue
        if post.tree.get(p) != i:
            return 'undamaged entry moved', f'{p} -> {inv.get(i)}'
    for i in pre.lost_inodes:
        if i in (ROOT, CTRL) or i not in pre.inodes or i == LOF:
            continue
        for r in post.contents:
            if r['inode'] == i and r['parent_inode'] != lof:
                return 'damaged file not moved to lost+found', f'inode {i}: {inv.get(i)}'
    # nothing but what was there, an additional lost+found and what is needed to reach it
    extra = set(post.inodes) - set(pre.inodes) - {ROOT}
    if len(extra) > 1:
        return 'additional inodes', repr(extra)
    return None


def batch(item):
    out = []
    n = skipped = 0
    for idx in item:
        r = try_ops(idx)
        if r == 'skip':
            skipped += 1
            continue
        n += 1
        if r:
            out.append((r[0], r[1], [_ops()[i].name for i in idx]))
    return n, skipped, out


STRUCT = ('contents', 'loops', 'inodes', 'blocks')


def items(tier):
    ops = _ops()
    N = len(ops)
    yield from ([(i,)] for i in range(N))
    q = tier == 'quick'
    for i in range(N):
        js = []
        for j in range(i + 1, N):
            a, b = ops[i].group, ops[j].group
            if 'deep' in (a, b) and (a == b or (q and (a not in ('loops', 'deep') or 'chain of 300 directories' not in ops[j].name)) or '1200' in ops[j].name):
                continue
            if 'count' in a or 'count' in b:
                near = i * 31 + j
                if q and near % 9:
                    continue
            elif q and (i * 7 + j) % 2:
                continue
            js.append((i, j))
        for k in range(0, len(js), 40):
            yield js[k : k + 40]
    if not q:
        core = [i for i in range(N) if ops[i].group in ('loops', 'unix', 'cache') or ops[i].name.startswith(('delete names', 'delete inodes', 'delete contents', 'lost block', 'object '))]
        for i, j in itertools.combinations(core, 2):
            ks = [(i, j, k) for k in core if k > j]
            for s in range(0, len(ks), 60):
                yield ks[s : s + 60]


def run(rep, tier):
    seen = {}
    n = skipped = 0
    cap = False
    try:
        for it, r in pmap(batch, list(items(tier)), wall=120 if tier == 'quick' else 3000):
            n += r[0]
            skipped += r[1]
            for sig, detail, names in r[2]:
                if sig not in seen:
                    seen[sig] = 1
                    rep.violation(sig, detail, {'ops': names})
    except TimeoutError:
        cap = True
    ops = _ops()
    c = rep.coverage
    c['evaluations'] = n
    c['distinct_nontrivial'] = n
    c['parts'] = {'corruptions': len(ops), 'combinations': n, 'impossible (constraint)': skipped}
    rep.coverage['rule'] = (
        'every single corruption of every row, object and cache file; pairs (quick: every second structural pair, every ninth with a wrong count); '
        'chains of up to 1200 directories; thorough: all pairs and all triples of structural corruptions; each followed by a second run'
        + (' (stopped at the time limit)' if cap else '')
    )


def replay(data):
    idx = [next(i for i, o in enumerate(_ops()) if o.name == n) for n in data['ops']]
    r = try_ops(idx)
    print(r)
    return 1 if r else 0
