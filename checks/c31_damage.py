'''C31: lost or damaged data objects are contained: EIO for exactly the affected data, read-only mode, nothing else suffers.'''
import ast
import errno
import hashlib
import itertools
import os
import stat
import traceback

import pyfuse3
import trio

from mc import fsmc, world
from mc.explore import Violation, pmap
from mc.fsmc import Attr, Ctx, Fields
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.fsck import Fsck
from s3ql.authinfo import CompressSpec

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive fault enumeration on the real file system layer, block cache, compression/encryption layer and fsck: every data object of a small file system is damaged in every way of a catalogue, at every point of every request sequence up to a bounded length; every reply, the stored state and the state after fsck are compared with an executable reference model'
NOTE = (
    'One file system of five files and four data objects (shared blocks, sparse and partial blocks), one damaged object per run, '
    'damage before or between requests, sequential requests through the FUSE handlers; in-memory raw backend. '
    'Requests that overwrite a whole damaged block may succeed or fail.'
)
B = fsmc.BLOCK
AA, BB, CC, DD = b'AAAAAAAA', b'BBBBBBBB', b'CCCCCCCC', b'DDD'
# name -> blocks; None: hole
FILES = {b'a': [AA, BB, AA], b'b': [BB, CC], b'c': [DD], b'e': [], b'h': [None, CC, None]}
SIZES = {b'a': 24, b'b': 16, b'c': 3, b'e': 0, b'h': 20}
CONTENTS = [AA, BB, CC, DD]
FAIL = 'EIO'


def content(f):
    buf = b''.join((x or b'').ljust(B, b'\0') for x in FILES[f])
    return bytearray(buf[: SIZES[f]].ljust(SIZES[f], b'\0'))


# -- damage
def lose(raw, key, other):
    del raw.data[key], raw.meta[key]


def truncate(raw, key, other):
    raw.data[key] = raw.data[key][:-1]


def empty(raw, key, other):
    raw.data[key] = b''


def flip(raw, key, other):
    b = bytearray(raw.data[key])
    b[len(b) // 2] ^= 0x10
    raw.data[key] = bytes(b)


def flip_end(raw, key, other):
    b = bytearray(raw.data[key])
    b[-1] ^= 1
    raw.data[key] = bytes(b)


def append(raw, key, other):
    raw.data[key] += b'x'


def swap(raw, key, other):
    raw.data[key], raw.meta[key] = raw.data[other], dict(raw.meta[other])


def swap_body(raw, key, other):
    raw.data[key] = raw.data[other]


def no_meta(raw, key, other):
    raw.meta[key] = {}


def bad_meta(raw, key, other):
    m = raw.meta[key] = dict(raw.meta[key])
    for k in m:
        if isinstance(m[k], bytes):
            m[k] = m[k][:-1]
        elif isinstance(m[k], str):
            m[k] = m[k] + 'x'


def bad_version(raw, key, other):
    raw.meta[key] = dict(raw.meta[key], format_version=17)


def plaintext(raw, key, other):
    raw.meta[key] = {'format_version': 2, 'encryption': 'None', 'compression': 'None', 'data': b'{}'}
    raw.data[key] = b'evil'


KINDS = dict(lose=lose, truncate=truncate, empty=empty, flip=flip, flip_end=flip_end, append=append, swap=swap,
             swap_body=swap_body, no_meta=no_meta, bad_meta=bad_meta, bad_version=bad_version, plaintext=plaintext)
# (passphrase, compression, kinds that this layer can notice)
LAYERS = {
    'encrypted': (b'secret', 'lzma-1', list(KINDS)),
    'compressed': (None, 'bzip2-1', ['lose', 'truncate', 'empty', 'flip', 'append', 'no_meta', 'bad_version']),
    'plain': (None, 'none', ['lose', 'no_meta', 'bad_version']),
}


class Env(fsmc.Env):
    '''As fsmc.Env, with the real compression and encryption layer above a raw backend'''

    layer = 'encrypted'

    async def open(self, nursery):
        fsmc.install()
        self.d = world.workdir()
        self.db = world.new_db(self.d)
        pw, comp, _ = LAYERS[self.layer]
        self.raw = world.RawMemBackend()
        self.raw.points = self.points
        self.be = await AsyncComprencBackend.create(pw, CompressSpec.parse(comp), self.raw)
        await self.start(nursery)

    async def start(self, nursery):
        self.cache = await fsmc.BlockCache.create(
            self.be, self.db, os.path.join(self.d, 'cache'), self.max_size, self.max_entries, nursery=nursery
        )
        self.fs = fsmc.s3fs.Operations(self.cache, self.db, B, fsmc.InodeCache(self.db, 0))
        self.fs.init()
        self.cache.fs = self.fs


class Model:
    '''Contents as sets of allowed values; which blocks can only come from the damaged object'''

    def __init__(self):
        self.files = {f: content(f) for f in FILES}
        self.names = {f: f for f in FILES}  # directory entry -> file
        self.dirty = {}  # (file, offset) -> alternative byte values after a failed request
        self.sizes = {}  # file -> alternative sizes after a failed request
        self.link = {(f, i): x for f in FILES for i, x in enumerate(FILES[f]) if x}  # block -> content of stored object
        self.cached = set()  # blocks that certainly are in the cache
        self.maybe = set()  # blocks that may be in the cache
        self.failsafe = False
        self.bad = None

    def broken(self, f, i):
        return self.link.get((f, i)) == self.bad and self.bad is not None and (f, i) not in self.cached


def blocks(off, n):
    return range(off // B, (off + n - 1) // B + 1) if n > 0 else range(0)


class Run:
    def __init__(self, env, m):
        self.env = env
        self.m = m
        self.ino = {}
        self.counts = {'eio': 0, 'eperm': 0, 'ok': 0}

    async def setup(self):
        fs = self.env.fs
        for f in FILES:
            fi, at = await fs.create(1, f, stat.S_IFREG | 0o644, os.O_RDWR, Ctx)
            self.ino[f] = at.st_ino
            for i, x in enumerate(FILES[f]):
                if x:
                    await fs.write(fi.fh, i * B, x)
            if SIZES[f]:
                await fs.setattr(at.st_ino, Attr(st_size=SIZES[f]), Fields(update_size=True), None, Ctx)
            await fs.release(fi.fh)
        at = await fs.mkdir(1, b'dir', stat.S_IFDIR | 0o755, Ctx)
        self.dir = at.st_ino
        await fs.setxattr(self.ino[b'a'], b'user.x', b'1', Ctx)
        await self.env.ctrl(b's3ql_dropcache!')
        await self.env.drain()

    def damage(self, kind, data):
        h = hashlib.sha256(data).digest()
        ids = self.env.db.get_list('SELECT id FROM objects WHERE hash=?', (h,))
        if not ids:
            return  # removed by an earlier request
        oid = ids[0][0]
        other = self.env.db.get_val('SELECT MIN(id) FROM objects WHERE id != ?', (oid,))
        KINDS[kind](self.env.raw, f's3ql_data_{oid}', f's3ql_data_{other}')
        self.m.bad = data

    async def request(self, op):
        '''Perform; returns value or errno as int'''
        fs = self.env.fs
        k = op[0]
        i = self.ino.get(op[1]) if len(op) > 1 else None
        try:
            if k == 'read':
                return ('ok', await self.env.read(i, op[2], op[3]))
            if k == 'write':
                fi = await fs.open(i, os.O_RDWR, Ctx)
                n = await fs.write(fi.fh, op[2], op[3])
                await fs.release(fi.fh)
                return ('ok', n)
            if k == 'hwrite':
                return ('ok', await fs.write(i, op[2], op[3]))
            if k == 'trunc':
                return ('ok', (await fs.setattr(i, Attr(st_size=op[2]), Fields(update_size=True), None, Ctx)).st_size)
            if k == 'otrunc':
                await fs.open(i, os.O_WRONLY | os.O_TRUNC, Ctx)
            elif k == 'chmod':
                await fs.setattr(i, Attr(st_mode=stat.S_IFREG | 0o600), Fields(update_mode=True), None, Ctx)
            elif k == 'unlink':
                await fs.unlink(1, op[1], Ctx)
                await fs.forget([(i, fs.open_inodes[i])])
            elif k == 'link':
                await fs.link(i, 1, b'new-link', Ctx)
            elif k == 'rename':
                await fs.rename(1, op[1], 1, b'new-name', 0, Ctx)
            elif k == 'create':
                await fs.create(1, b'new-file', stat.S_IFREG | 0o644, os.O_RDWR, Ctx)
            elif k == 'mkdir':
                await fs.mkdir(1, b'new-dir', stat.S_IFDIR | 0o755, Ctx)
            elif k == 'mknod':
                await fs.mknod(1, b'new-node', stat.S_IFIFO | 0o755, 0, Ctx)
            elif k == 'symlink':
                await fs.symlink(1, b'new-sym', b'target', Ctx)
            elif k == 'rmdir':
                await fs.rmdir(1, b'dir', Ctx)
            elif k == 'setxattr':
                await fs.setxattr(i, b'user.y', b'1', Ctx)
            elif k == 'removexattr':
                await fs.removexattr(i, b'user.x', Ctx)
            elif k == 'copy':
                await self.env.ctrl(b'copy', b'(%d, %d)' % (1, self.dir))
            elif k == 'lock':
                await self.env.ctrl(b'lock', b'%d' % self.dir)
            elif k == 'rmtree':
                await self.env.ctrl(b'rmtree', repr((1, b'dir')).encode())
            elif k == 'drop':
                await self.env.ctrl(b's3ql_dropcache!')
            elif k == 'flush':
                await self.env.ctrl(b's3ql_flushcache!')
            elif k == 'statfs':
                await fs.statfs(Ctx)
            elif k == 'readdir':
                return ('ok', sorted(e[0] for e in await self.env.readdir(1)))
            elif k == 'getattr':
                return ('ok', (await fs.getattr(i, Ctx)).st_size)
            else:
                raise AssertionError(op)
            return ('ok', None)
        except pyfuse3.FUSEError as exc:
            return ('err', exc.errno)
        except Violation:
            raise
        except Exception as exc:
            raise Violation(
                f'{k} ends the mount process: {type(exc).__name__}',
                f'{op}: {exc!r}\n' + ''.join(traceback.format_exc().splitlines(True)[-6:]),
            ) from None

    def allowed(self, f, off, n):
        '''Predicate for the bytes of a read'''
        m = self.m

        def ok(buf):
            if not any(len(buf) == max(0, min(n, s - off)) for s in {len(m.files[f])} | m.sizes.get(f, set())):
                return False
            for j, c in enumerate(buf):
                cur = m.files[f][off + j] if off + j < len(m.files[f]) else 0
                if c != cur and c not in m.dirty.get((f, off + j), ()):
                    return False
            return True

        return ok

    async def step(self, op):
        m = self.m
        k = op[0]
        f = op[1] if len(op) > 1 else None
        was_failsafe = self.env.fs.failsafe
        if m.failsafe and not was_failsafe:
            raise Violation('no longer read-only although damage was found', f'before {op}')
        st, val = await self.request(op)
        self.counts['ok' if st == 'ok' else errno.errorcode[val].lower()] = 1 + self.counts.get('ok' if st == 'ok' else errno.errorcode[val].lower(), 0)
        modifies = k not in ('read', 'drop', 'flush', 'statfs', 'readdir', 'getattr')
        # -- which damaged blocks does it have to look at / could it look at
        must = may = set()
        if f in m.files:
            size = len(m.files[f])
            if k == 'read':
                must = may = {i for i in blocks(op[2], min(op[3], size - op[2])) if m.broken(f, i)}
            elif k in ('write', 'hwrite'):
                off, buf = op[2], op[3]
                may = {i for i in blocks(off, len(buf)) if m.broken(f, i)}
                must = {i for i in may if not (off <= i * B and off + len(buf) >= min((i + 1) * B, max(size, off + len(buf))))}
            elif k == 'trunc':
                i = op[2] // B
                if op[2] % B and m.broken(f, i):
                    may = {i}
                    must = {i} if op[2] < size else set()
        if modifies and m.failsafe:
            if st != 'err' or val != errno.EPERM:
                raise Violation('change accepted although damage was found', f'{op}: {st} {val}')
            return
        if st == 'err' and val == errno.EPERM and modifies and was_failsafe:
            m.failsafe = True  # deletion of a lost object was noticed
            return
        if must and not m.maybe & {(f, i) for i in must} and not (st == 'err' and val == errno.EIO):
            raise Violation('damaged data not reported', f'{op}: {st} {val!r}; damaged blocks {sorted(must)}')
        if st == 'err':
            if val != errno.EIO or not may:
                raise Violation('unexpected error', f'{op}: {errno.errorcode.get(val, val)}; damaged blocks {sorted(may)}')
            if not self.env.fs.failsafe:
                raise Violation('not read-only although damage was found', f'{op}')
            m.failsafe = True
        # -- effect
        if k == 'read':
            if st == 'ok' and not self.allowed(f, op[2], op[3])(val):
                raise Violation('wrong data', f'{op}: {val!r}, expected {bytes(m.files[f][op[2]:op[2] + op[3]])!r}')
            if st == 'ok':
                self.touch(f, blocks(op[2], len(val)))
            else:
                m.maybe |= {(f, i) for i in blocks(op[2], op[3])}
        elif k in ('write', 'hwrite'):
            off, buf = op[2], op[3]
            old = m.files[f]
            new = bytearray(old.ljust(off + len(buf), b'\0'))
            new[off : off + len(buf)] = buf
            if st == 'ok':
                if val != len(buf):
                    raise Violation('short write', f'{op}: {val}')
                m.files[f] = new
                self.touch(f, blocks(off, len(buf)))
                for i in blocks(off, len(buf)):
                    m.link.pop((f, i), None)
            else:
                m.sizes.setdefault(f, set()).update((len(old), len(new)))
                for j in range(off, off + len(buf)):
                    m.dirty.setdefault((f, j), set()).add(new[j])
                m.maybe |= {(f, i) for i in blocks(off, len(buf))}
        elif k in ('trunc', 'otrunc'):
            n = op[2] if k == 'trunc' else 0
            old = m.files[f]
            new = bytearray(old[:n].ljust(n, b'\0'))
            if st == 'ok':
                if k == 'trunc' and val != n:
                    raise Violation('wrong size', f'{op}: {val}')
                m.files[f] = new
                if n % B:
                    self.touch(f, [n // B])
                    m.link.pop((f, n // B), None)
                for i in range(-(-n // B), -(-len(old) // B) + 1):
                    m.link.pop((f, i), None)
                    m.cached.discard((f, i))
            else:
                m.sizes.setdefault(f, set()).update((len(old), n))
                for j in range(n, len(old)):
                    m.dirty.setdefault((f, j), set()).add(0)
        elif k == 'drop' and st == 'ok':
            # contents that now are stored again may share an object with the damaged one
            m.cached.clear()
            m.maybe.clear()
        elif k == 'unlink' and st == 'ok':
            m.names = {n: x for n, x in m.names.items() if x != f}
            for i in range(8):
                m.link.pop((f, i), None)
            del m.files[f]
        elif k == 'readdir':
            exp = sorted([*m.names, b'dir'])
            if [x for x in val if x in exp] != exp:
                raise Violation('directory entries lost', f'{op}: {val}, expected {exp}')
        elif k == 'getattr' and f in m.files and val not in {len(m.files[f])} | m.sizes.get(f, set()):
            raise Violation('wrong size', f'{op}: {val}')
        elif k == 'rename' and st == 'ok':
            m.names[b'new-name'] = m.names.pop(f)
        elif k == 'link' and st == 'ok':
            m.names[b'new-link'] = f

    def touch(self, f, bs):
        self.m.cached |= {(f, i) for i in bs}

    async def verify(self, when, broken_ok=True):
        '''Everything that is not damaged has to be there'''
        m = self.m
        for f in sorted(m.files):
            size = (await self.env.fs.getattr(self.ino[f], Ctx)).st_size
            if size not in {len(m.files[f])} | m.sizes.get(f, set()):
                raise Violation('wrong size', f'{when}: {f} has {size}, expected {len(m.files[f])}')
            for i in range(-(-size // B)):
                n = min(B, size - i * B)
                st, val = await self.request(('read', f, i * B, n))
                if st == 'err':
                    if val != errno.EIO or not m.broken(f, i):
                        raise Violation('intact data cannot be read', f'{when}: {f} block {i}: {errno.errorcode.get(val, val)}')
                    if not self.env.fs.failsafe:
                        raise Violation('not read-only although damage was found', f'{when} {f} {i}')
                    m.failsafe = True
                    continue
                if m.broken(f, i) and (f, i) not in m.maybe and not (m.dirty and f in m.sizes):
                    raise Violation('damaged data not reported', f'{when}: {f} block {i}: {val!r}')
                if not self.allowed(f, i * B, n)(val):
                    raise Violation('wrong data', f'{when}: {f} block {i}: {val!r}, expected {bytes(m.files[f][i * B:i * B + n])!r}')
        st, val = await self.request(('readdir',))
        exp = [*m.names, b'dir']
        if st != 'ok' or not set(exp) <= set(val):
            raise Violation('directory entries lost', f'{when}: {val}, expected {exp}')


async def scenario(layer, max_entries, data, kind, ops, at, counts):
    '''Damage the object with content *data* before request number *at*'''
    env = Env(max_entries)
    env.layer = layer
    m = Model()
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            run = Run(env, m)
            await run.setup()
            for n, op in enumerate(ops):
                if n == at:
                    run.damage(kind, data)
                if max_entries < 10:
                    # what survives in a small cache is up to the cache
                    m.maybe |= m.cached
                    m.cached.clear()
                await run.step(op)
            if max_entries < 10:
                m.maybe |= m.cached
                m.cached.clear()
            await run.verify('at the end')
            await run.step(('drop',))
            await env.drain()
            await run.verify('after drop')
            await env.fs.destroy()
            await env.cache.destroy()
            lost = [o for (o,) in env.db.get_list('SELECT id FROM objects') if f's3ql_data_{o}' not in env.raw.data]
            errs = [e for e in world.check_db(env.db, None, B)]
            if errs:
                raise Violation('metadata inconsistent', '\n'.join(errs))
            if len(lost) > (kind == 'lose'):
                raise Violation('other objects are gone', str(lost))
            # -- repair
            f = Fsck(os.path.join(env.d, 'cache'), env.be, world.fsck_params(B), env.db)
            os.makedirs(os.path.join(env.d, 'cache'), exist_ok=True)
            try:
                await f.check()
            except Exception as exc:
                raise Violation(f'fsck crashed: {type(exc).__name__}', traceback.format_exc()[-1500:]) from None
            if lost and not f.found_errors:
                raise Violation('fsck does not notice a lost object', str(lost))
            if not lost and f.found_errors:
                raise Violation('fsck finds errors in consistent metadata', '')
            if not lost:
                await env.start(nursery)
                m.failsafe = False
                await run.verify('after fsck')
                await env.fs.destroy()
                await env.cache.destroy()
        finally:
            for k, v in run.counts.items():
                counts[k] = counts.get(k, 0) + v
            await env.close()
        nursery.cancel_scope.cancel()


# -- requests
def alphabet(tier):
    a, b, c, e, h = sorted(FILES)
    W = b'wwwwwwww'
    A = [
        ('read', a, 0, 24), ('read', a, 9, 3), ('read', a, 20, 10), ('read', b, 0, 8), ('read', b, 8, 8), ('read', c, 0, 9), ('read', h, 0, 20), ('read', h, 16, 4),
        ('write', a, 0, W), ('write', a, 3, b'x'), ('write', a, 4, W), ('write', a, 24, b'y'), ('write', b, 6, b'xxxx'), ('write', b, 16, b'zz'), ('write', c, 3, b'yy'), ('write', c, 0, b'vvv'),
        ('write', e, 0, b'new'), ('write', h, 2, b'u'), ('write', h, 14, b'uuuu'),
        ('trunc', a, 4), ('trunc', a, 8), ('trunc', a, 20), ('trunc', a, 40), ('trunc', b, 13), ('trunc', c, 1), ('trunc', c, 6), ('trunc', h, 10), ('trunc', e, 3),
        ('otrunc', a), ('unlink', a), ('unlink', b), ('unlink', c), ('rename', b), ('drop',),
    ]
    if tier == 'thorough':
        A += [('flush',), ('write', h, 8, W), ('write', b, 8, W), ('otrunc', c), ('unlink', h), ('read', b, 7, 2)]
    return A


# once damage was found, every kind of change has to be refused, and everything else has to work
AFTER = [
    ('chmod', b'c'), ('link', b'c'), ('rename', b'c'), ('create',), ('mkdir',), ('mknod',), ('symlink',), ('rmdir',), ('setxattr', b'c'), ('removexattr', b'a'), ('copy',), ('lock',), ('rmtree',),
    ('unlink', b'c'), ('write', b'e', 0, b'q'), ('hwrite', b'e', 0, b'q'), ('hwrite', b'c', 3, b'q'), ('trunc', b'e', 5), ('trunc', b'c', 1), ('otrunc', b'e'), ('statfs',), ('readdir',), ('getattr', b'a'), ('flush',),
    ('drop',), ('read', b'c', 0, 3), ('read', b'a', 0, 24), ('read', b'b', 0, 16), ('read', b'h', 0, 20),
]
# how the damage is found
TRIGGERS = {
    AA: [('read', b'a', 0, 1), ('write', b'a', 17, b'x'), ('trunc', b'a', 20)],
    BB: [('read', b'a', 8, 1), ('write', b'b', 1, b'x'), ('trunc', b'b', 4)],
    CC: [('read', b'h', 8, 1), ('write', b'b', 9, b'x'), ('trunc', b'h', 10)],
    DD: [('read', b'c', 0, 1), ('write', b'c', 1, b'x'), ('trunc', b'c', 2)],
}


def one(item):
    out = []
    counts = {}
    n = 0
    for case in item:
        n += 1
        try:
            fsmc.trio_run(scenario, *case, counts)
        except Violation as v:
            out.append((v.sig, f'{v.detail}\ncase (layer, cache entries, damaged content, damage, requests, damage before request): {case}', repr(case)))
            if len(out) > 5:
                break
        except OSError as exc:
            out.append((f'unmount failed: {type(exc).__name__}', f'{exc!r}\ncase: {case}\n{traceback.format_exc()[-1500:]}', repr(case)))
            break
    return n, counts, out


def cases(tier):
    q = tier == 'quick'
    A = alphabet(tier)
    for layer, (_, _, kinds) in LAYERS.items():
        for kind in kinds:
            for data in CONTENTS:
                # all requests, damage before the first or between
                main = kind in ('lose', 'flip') and layer == 'encrypted' or not q
                for op in A:
                    yield (layer, 100, data, kind, (op,), 0)
                for t in TRIGGERS[data]:
                    if main:
                        for x in AFTER:
                            yield (layer, 100, data, kind, (t, x), 0)
                        if not q:
                            for x, y in itertools.product(AFTER, AFTER):
                                yield (layer, 100, data, kind, (t, x, y), 0)
                    # work that was accepted before has to survive
                    yield (layer, 100, data, kind, (('write', b'e', 0, b'new'), ('write', b'a', 24, b'more'), t) + tuple(AFTER), 0)
                if kind in ('lose', 'flip') and (layer == 'encrypted' or not q):
                    for x, y in itertools.product(A, A):
                        for at in (0, 1):
                            if at == 0 and q and kind == 'flip':
                                continue
                            yield (layer, 100, data, kind, (x, y), at)
                        if not q:
                            yield (layer, 1, data, kind, (x, y), 0)
                            for z in A:
                                yield (layer, 100, data, kind, (x, y, z), 1)


def sensible(ops):
    gone, moved = set(), set()
    for op in ops:
        f = op[1] if len(op) > 1 else None
        if f in gone or f in moved and op[0] in ('unlink', 'rename'):
            return False
        if op[0] == 'unlink':
            gone.add(f)
        elif op[0] == 'rename':
            moved.add(f)
    return True


def run(rep, tier):
    q = tier == 'quick'
    # objects with the same content as the damaged one would be shared: not part of the alphabet
    seen = set()
    todo = []
    for c in cases(tier):
        if c not in seen and sensible(c[4]):
            seen.add(c)
            todo.append(c)
    # the long ones and the short ones first
    todo.sort(key=lambda c: (len(c[4]) < 5, len(c[4]), c[4][-1] not in AFTER))
    n = 0
    counts = {}
    by = {}
    cap = False
    viol = 0
    try:
        for item, (k, cnt, vs) in pmap(one, [todo[i : i + 40] for i in range(0, len(todo), 40)], wall=140 if q else 5000):
            n += k
            for x in item:
                by[f'{x[0]}/{x[3]}'] = by.get(f'{x[0]}/{x[3]}', 0) + 1
            for a, b in cnt.items():
                counts[a] = counts.get(a, 0) + b
            for sig, detail, data in vs:
                viol += bool(rep.violation(sig, detail, {'case': data}))
            if viol > 20:
                break
    except TimeoutError:
        cap = True
    c = rep.coverage
    c['evaluations'] = n
    c['distinct_nontrivial'] = n
    c['requests_by_outcome'] = counts
    c['cases_by_damage'] = by
    c['exhaustive'] = not cap and not viol
    c['rule'] = 'a case is a layer, a damaged object, a kind of damage, a point of damage and a request sequence; all are different'
    c['samples'] = [repr(todo[i]) for i in range(0, len(todo), max(1, len(todo) // 4))][:4]


def replay(data):
    _, counts, out = one([ast.literal_eval(data['case'])])
    for sig, detail, _ in out:
        print('VIOLATION reproduced:', sig, detail, sep='\n')
    return 1 if out else 0
