'''File system harness: the real `fs.Operations`, inode cache, block cache, SQLite metadata and fsck,
driven through the FUSE request interface and compared with `fsmodel.Model` after every operation.'''
import errno
import os
import stat
import time
import traceback

import pyfuse3
import trio
import trio.testing

from mc import fsmodel, world
from mc.explore import Violation
from s3ql import fs as s3fs
from s3ql.block_cache import BlockCache
from s3ql.fsck import Fsck
from s3ql.inode_cache import InodeCache

BLOCK = 8
CTRL_INODE = 2


class Ctx:
    uid = 7
    gid = 8
    pid = 1
    umask = 0


class Fields:
    def __init__(self, **kw):
        for k in ('atime', 'mtime', 'mode', 'uid', 'gid', 'size', 'ctime'):
            setattr(self, 'update_' + k, False)
        self.__dict__.update(kw)


class Attr:
    '''st_* values of a setattr request'''

    def __init__(self, **kw):
        for k in ('mode', 'uid', 'gid', 'size', 'atime_ns', 'mtime_ns', 'ctime_ns', 'rdev'):
            setattr(self, 'st_' + k, 0)
        for k, v in kw.items():
            setattr(self, k, v)


class Clock:
    def __init__(self):
        self.t = 10**18

    def __call__(self):
        self.t += 1
        return self.t


_real_time_ns = time.time_ns
CLOCK = Clock()


class Token:
    '''readdir reply buffer'''

    def __init__(self, limit=1 << 30):
        self.limit = limit
        self.entries = []  # (name, ino, next offset)


def _reply(token, name, attr, next_id):
    if len(token.entries) >= token.limit:
        return False
    token.entries.append((bytes(name), attr.st_ino, next_id))
    return True


def install():
    '''Stand-ins for calls into the kernel, deterministic clock'''
    pyfuse3.readdir_reply = _reply
    pyfuse3.invalidate_inode = lambda *a, **k: None
    pyfuse3.invalidate_entry_async = lambda *a, **k: None
    pyfuse3.invalidate_entry = lambda *a, **k: None
    time.time_ns = CLOCK


class Env:
    '''One mounted file system (inside a running trio loop)'''

    def __init__(self, max_entries=100, max_size=100000, points=False):
        self.max_entries = max_entries
        self.max_size = max_size
        self.points = points

    async def open(self, nursery):
        install()
        self.d = world.workdir()
        self.db = world.new_db(self.d)
        self.be = world.MemBackend()
        self.be.points = self.points
        self.problems = []

        def monitor(op, key):
            if op == 'delete':
                oid = int(key[10:])
                if self.db.has_val('SELECT 1 FROM inode_blocks WHERE obj_id=?', (oid,)):
                    self.problems.append('deletes an object that is still referenced: ' + key)

        self.be.hook = monitor
        self.cache = await BlockCache.create(
            self.be, self.db, os.path.join(self.d, 'cache'), self.max_size, self.max_entries, nursery=nursery
        )
        self.fs = s3fs.Operations(self.cache, self.db, BLOCK, InodeCache(self.db, 0))
        self.fs.init()
        self.cache.fs = self.fs

    async def close(self):
        '''Quick teardown of a run that may have failed'''
        try:
            for el in list(self.cache.cache.values()):
                el.dirty = False
                try:
                    el.close()
                except Exception:
                    pass
            ino = self.fs.inodes
            for o in getattr(ino, 'attrs', {}).values():
                o.dirty = False
            if hasattr(ino, 'attrs'):
                ino.attrs.clear()
        except Exception:
            pass
        try:
            self.db.conn.close()
        except Exception:
            pass
        world.rmdir(self.d)

    # -- requests
    async def ctrl(self, name, val=b''):
        await self.fs.setxattr(CTRL_INODE, name, val, Ctx)

    async def attr(self, ino):
        return await self.fs.getattr(ino, Ctx)

    async def readdir(self, ino):
        '''Complete listing; the references that the kernel gets are returned immediately'''
        tok = Token()
        fh = await self.fs.opendir(ino, Ctx)
        await self.fs.readdir(fh, 0, tok)
        await self.fs.releasedir(fh)
        if tok.entries:
            await self.fs.forget([(e[1], 1) for e in tok.entries])
        return tok.entries

    async def read(self, ino, off, n):
        fi = await self.fs.open(ino, os.O_RDONLY, Ctx)
        r = await self.fs.read(fi.fh, off, n)
        await self.fs.flush(fi.fh)
        await self.fs.release(fi.fh)
        return r

    async def perform(self, m, op):
        '''Execute *op* (in terms of nids of model *m*, the state before); returns attributes or value'''
        fs = self.fs
        k = op[0]
        I = lambda nid: m.nodes[nid].ino  # noqa: E731,E741
        if k == 'create':
            fi, at = await fs.create(I(op[1]), op[2], stat.S_IFREG | 0o644, os.O_RDWR | os.O_CREAT, Ctx)
            await fs.release(fi.fh)
            return at
        if k == 'creat2':
            fl = os.O_RDWR | os.O_CREAT | (os.O_TRUNC if op[3] else 0)
            fi, at = await fs.create(I(op[1]), op[2], stat.S_IFREG | 0o644, fl, Ctx)
            await fs.release(fi.fh)
            return at
        if k == 'mkdir':
            return await fs.mkdir(I(op[1]), op[2], stat.S_IFDIR | 0o755, Ctx)
        if k == 'mknod':
            md = fsmodel.IFMT[op[3]] | 0o644
            return await fs.mknod(I(op[1]), op[2], md, 0x103 if op[3] == 'c' else 0, Ctx)
        if k == 'symlink':
            return await fs.symlink(I(op[1]), op[2], op[3], Ctx)
        if k == 'link' and op[1] == 'ctrl':
            return await fs.link(CTRL_INODE, I(op[2]), op[3], Ctx)
        if k == 'link':
            return await fs.link(I(op[1]), I(op[2]), op[3], Ctx)
        if k == 'unlink':
            return await fs.unlink(I(op[1]), op[2], Ctx)
        if k == 'rmdir':
            return await fs.rmdir(I(op[1]), op[2], Ctx)
        if k == 'rename':
            return await fs.rename(I(op[1]), op[2], I(op[3]), op[4], op[5] if len(op) > 5 else 0, Ctx)
        if k == 'lookup':
            at = await fs.lookup(I(op[1]), op[2], Ctx)
            if at.st_ino == CTRL_INODE:
                await fs.forget([(CTRL_INODE, 1)])
                return 'ctrl'
            return at
        if k == 'forget':
            await fs.forget([(I(op[1]), m.nodes[op[1]].lookups)])
            return None
        if k == 'chmod':
            md = fsmodel.IFMT[m.nodes[op[1]].kind] | op[2]
            return await fs.setattr(I(op[1]), Attr(st_mode=md), Fields(update_mode=True), None, Ctx)
        if k == 'chown':
            return await fs.setattr(
                I(op[1]), Attr(st_uid=op[2], st_gid=op[3]), Fields(update_uid=True, update_gid=True), None, Ctx
            )
        if k == 'utimes':
            return await fs.setattr(
                I(op[1]),
                Attr(st_atime_ns=op[2], st_mtime_ns=op[3]),
                Fields(update_atime=True, update_mtime=True),
                None,
                Ctx,
            )
        if k == 'truncate':
            return await fs.setattr(I(op[1]), Attr(st_size=op[2]), Fields(update_size=True), None, Ctx)
        if k == 'write':
            fi = await fs.open(I(op[1]), os.O_RDWR, Ctx)
            n = await fs.write(fi.fh, op[2], op[3])
            await fs.flush(fi.fh)
            await fs.release(fi.fh)
            if n != len(op[3]):
                raise Violation('short write', f'{op}: {n}')
            return None
        if k == 'hwrite':
            n = await fs.write(I(op[1]), op[2], op[3])
            if n != len(op[3]):
                raise Violation('short write', f'{op}: {n}')
            return None
        if k == 'openw':
            fi = await fs.open(I(op[1]), (os.O_RDWR if op[3:] else os.O_WRONLY) | (os.O_TRUNC if op[2] else 0), Ctx)
            await fs.release(fi.fh)
            return None
        if k == 'openr':
            fi = await fs.open(I(op[1]), os.O_RDONLY, Ctx)
            await fs.release(fi.fh)
            return None
        if k == 'read':
            return await self.read(I(op[1]), op[2], op[3])
        if k == 'setxattr':
            return await fs.setxattr(I(op[1]), op[2], op[3], Ctx)
        if k == 'removexattr':
            return await fs.removexattr(I(op[1]), op[2], Ctx)
        if k == 'fsync':
            await fs.fsync(I(op[1]), False)
            return None
        if k == 'drop':
            return await self.ctrl(b's3ql_dropcache!')
        if k == 'flush':
            return await self.ctrl(b's3ql_flushcache!')
        if k == 'lock':
            return await self.ctrl(b'lock', b'%d' % I(op[1]))
        if k == 'rmtree':
            return await self.ctrl(b'rmtree', repr((I(op[1]), op[2])).encode())
        if k == 'copy':
            return await self.ctrl(b'copy', b'(%d, %d)' % (I(op[1]), I(op[2])))
        raise AssertionError(op)

    async def step(self, m, op, check=True):
        '''Execute *op* in state *m* (modified in place) and compare the result'''
        before = m.clone()
        x = m.apply(op)
        t0 = CLOCK.t
        try:
            res = await self.perform(before, op)
            got = None
        except pyfuse3.FUSEError as exc:
            got = exc.errno
        except Violation:
            raise
        except Exception as exc:
            raise Violation(
                f'{op[0]} failed with {type(exc).__name__}',
                f'{op}: {exc!r}\n' + ''.join(traceback.format_exc().splitlines(True)[-4:]),
            ) from None
        if x.errnos and got not in x.errnos:
            raise Violation(
                f'{op[0]}: expected {"/".join(sorted(errno.errorcode[e] for e in x.errnos))}, '
                f'got {errno.errorcode.get(got, got) if got else "success"}',
                f'{op}',
            )
        if not x.errnos and got is not None:
            raise Violation(f'{op[0]}: unexpected error {errno.errorcode.get(got, got)}', f'{op}')
        if got is None:
            if op[0] == 'copy' and op[1] != op[2]:
                await self.check_copied_times(before, op)
            if x.new is not None:
                m.nodes[x.new].ino = res.st_ino
                if res.st_ino in [n.ino for n in m.nodes.values() if n.nid != x.new]:
                    raise Violation('inode number reused while in use', f'{op} {res.st_ino}')
                self.cmp_attr(m.nodes[x.new], res, op)
            elif x.target is not None:
                if res.st_ino != m.nodes[x.target].ino:
                    raise Violation(f'{op[0]}: wrong inode returned', f'{op}: {res.st_ino}')
                self.cmp_attr(m.nodes[x.target], res, op)
            elif op[0] in ('chmod', 'chown', 'utimes', 'truncate'):
                self.cmp_attr(m.nodes[op[1]], res, op)
            elif op[0] == 'read' and res != x.value:
                raise Violation('read returned wrong data', f'{op}: {res!r}, expected {x.value!r}')
            elif op[0] == 'lookup' and res != x.value:
                raise Violation('lookup returned wrong inode', f'{op}: {res!r}')
        m.purge()
        if check:
            await self.check_times(m, x, t0, op)
        return x

    async def check_copied_times(self, m, op):
        todo = [(m.nodes[op[1]], m.nodes[op[2]].ino)]
        while todo:
            s, ino = todo.pop()
            a, b = await self.attr(s.ino), await self.attr(ino)
            if (a.st_mtime_ns, a.st_atime_ns) != (b.st_mtime_ns, b.st_atime_ns):
                raise Violation('timestamps of the copy differ', f'{op}: node {s.nid}: {a.st_mtime_ns, a.st_atime_ns} {b.st_mtime_ns, b.st_atime_ns}')
            for name, c in s.children.items():
                e = await self.fs.lookup(ino, name, Ctx)
                await self.fs.forget([(e.st_ino, 1)])
                if not m.nodes[c].hidden:
                    todo.append((m.nodes[c], e.st_ino))

    def cmp_attr(self, n, a, op):
        exp = (n.mode, n.uid, n.gid, n.nlink, n.size, n.rdev)
        got = (a.st_mode, a.st_uid, a.st_gid, a.st_nlink, a.st_size, a.st_rdev)
        if n.nid == 0:
            exp, got = exp[:3], got[:3]
        if exp != got:
            raise Violation(
                'attributes differ from the reference',
                f'after {op}: node {n.nid} (inode {n.ino}): (mode,uid,gid,nlink,size,rdev) is {got}, expected {exp}',
            )

    async def check_times(self, m, x, t0, op):
        for n in m.nodes.values():
            if n.ino is None or n.hidden:
                continue
            a = await self.attr(n.ino)
            for what, req, free in (('mtime', x.m, x.free_m), ('ctime', x.c, x.free_c)):
                v = getattr(a, f'st_{what}_ns') > t0
                if n.nid in free:
                    continue
                if v and n.nid not in req:
                    raise Violation(f'{what} changed without cause', f'{op}: node {n.nid}')
                if not v and n.nid in req and not (op[0] == 'utimes' and what == 'mtime'):
                    raise Violation(f'{what} not updated', f'{op}: node {n.nid}')
        if x.value and isinstance(x.value, tuple) and x.value[0] == 'times' and not x.errnos:
            a = await self.attr(m.nodes[x.value[1]].ino)
            if (a.st_atime_ns, a.st_mtime_ns) != x.value[2:]:
                raise Violation('timestamps not stored', f'{op}: {a.st_atime_ns} {a.st_mtime_ns}')

    # -- comparison of the whole state
    async def compare(self, m, when, data=True):
        '''Compare everything that can be observed with the model; learns inode numbers of copies'''
        seen = set()
        todo = [0]
        while todo:
            nid = todo.pop(0)
            if nid in seen:
                continue
            seen.add(nid)
            n = m.nodes[nid]
            await self.compare_node(m, n, when, data)
            if n.kind == fsmodel.DIR:
                ents = await self.readdir(n.ino)
                names = [e[0] for e in ents]
                if sorted(names) != sorted(n.children) or len(set(names)) != len(names):
                    raise Violation(
                        'directory entries differ from the reference',
                        f'{when}: node {nid}: {sorted(names)}, expected {sorted(n.children)}',
                    )
                for name, ino, _ in ents:
                    c = m.nodes[n.children[name]]
                    if c.ino is None:
                        if ino in [q.ino for q in m.nodes.values()]:
                            raise Violation('copy shares an inode with its source', f'{when}: {name} {ino}')
                        c.ino = ino
                    if c.ino != ino:
                        raise Violation(
                            'directory entry refers to the wrong inode',
                            f'{when}: node {nid} entry {name!r}: inode {ino}, expected {c.ino}',
                        )
                    a = await self.fs.lookup(n.ino, name, Ctx)
                    await self.fs.forget([(a.st_ino, 1)])
                    if a.st_ino != ino:
                        raise Violation('lookup and readdir disagree', f'{when}: {name!r}')
                    todo.append(c.nid)
        for n in list(m.nodes.values()):
            if n.nid not in seen and n.lookups:
                await self.compare_node(m, n, when, data)

    async def compare_node(self, m, n, when, data):
        try:
            a = await self.attr(n.ino)
        except KeyError:
            raise Violation('inode vanished while still in use', f'{when}: node {n.nid} inode {n.ino}') from None
        self.cmp_attr(n, a, when)
        if n.hidden:
            return
        names = await self.fs.listxattr(n.ino, Ctx)
        xa = {}
        for nm in names:
            xa[nm] = await self.fs.getxattr(n.ino, nm, Ctx)
        if xa != n.xattrs or len(names) != len(xa):
            raise Violation('extended attributes differ', f'{when}: node {n.nid}: {xa}, expected {n.xattrs}')
        if n.kind == fsmodel.LNK:
            t = await self.fs.readlink(n.ino, Ctx)
            if t != n.target:
                raise Violation('symlink target differs', f'{when}: {t!r}, expected {n.target!r}')
        if n.kind == fsmodel.REG and data:
            c = await self.read(n.ino, 0, len(n.content) + 2 * BLOCK)
            if c != n.content:
                raise Violation(
                    'file content differs from the reference',
                    f'{when}: node {n.nid}: {c!r}, expected {n.content!r}',
                )
            for off, ln in ((1, BLOCK - 1), (BLOCK - 1, 2), (BLOCK, BLOCK + 1), (n.size - 1, 4), (n.size + 3, 4)):
                if 0 <= off and (off < n.size or when == 'in cache'):
                    c = await self.read(n.ino, off, ln)
                    if c != n.content[off : off + ln]:
                        raise Violation(
                            'partial read differs from the reference',
                            f'{when}: node {n.nid}: read({off},{ln}) = {c!r}, expected {n.content[off:off + ln]!r}',
                        )

    async def settle(self, m, fsck=False):
        '''Flush everything, compare the stored state; finally forget all inodes'''
        await self.compare(m, 'in cache')
        await self.ctrl(b's3ql_dropcache!')
        await self.drain()
        open_ok = [n.ino for n in m.nodes.values() if n.nlink == 0]
        errs = world.check_db(self.db, self.be, BLOCK, open_ok=open_ok)
        if errs:
            raise Violation('metadata inconsistent after flush', '\n'.join(errs))
        await self.compare(m, 'after flush and drop')
        for n in sorted(m.nodes.values(), key=lambda n: n.nid):
            if n.lookups:
                await self.fs.forget([(n.ino, n.lookups)])
                n.lookups = 0
        m.purge()
        await self.ctrl(b's3ql_dropcache!')
        await self.drain()
        errs = world.check_db(self.db, self.be, BLOCK)
        if errs:
            raise Violation('metadata inconsistent after the kernel forgot all inodes', '\n'.join(errs))
        live = {n.ino for n in m.nodes.values()} | {CTRL_INODE}
        have = {r[0] for r in self.db.get_list('SELECT id FROM inodes')}
        if live != have:
            raise Violation(
                'inodes left behind or lost',
                f'stored {sorted(have)}, expected {sorted(live)}',
            )
        if self.problems:
            raise Violation('deletes an object that is still referenced', str(self.problems))
        if fsck:
            await self.fsck()
        else:
            await self.wipe(m)

    async def wipe(self, m):
        '''Delete everything; nothing may stay behind in metadata or backend'''
        async def rm(ino):
            for name, c, _ in await self.readdir(ino):
                if c == 3:
                    continue
                a = await self.attr(c)
                if stat.S_ISDIR(a.st_mode):
                    await rm(c)
                    await self.fs.rmdir(ino, name, Ctx)
                else:
                    await self.fs.unlink(ino, name, Ctx)

        if any(n.locked for n in m.nodes.values()):
            for name, c, _ in await self.readdir(1):
                if c != 3:
                    await self.ctrl(b'rmtree', repr((1, name)).encode())
        else:
            try:
                await rm(1)
            except pyfuse3.FUSEError as exc:
                raise Violation('cannot delete the tree', repr(exc)) from None
        await self.ctrl(b's3ql_dropcache!')
        await self.drain()
        left = {t: self.db.get_val(f'SELECT COUNT(*) FROM {t}') for t in world.TABLES}
        exp = dict.fromkeys(world.TABLES, 0)
        exp.update(inodes=3, contents=1, names=1)
        if left != exp or self.be.data:
            raise Violation(
                'something stays behind after everything was deleted and forgotten',
                f'rows {left}, expected {exp}; backend {sorted(self.be.data)}; '
                f'inodes {self.db.get_list("SELECT id,refcount FROM inodes")}',
            )

    async def drain(self):
        '''Wait until removal workers are idle'''
        await trio.testing.wait_all_tasks_blocked()

    async def fsck(self):
        f = Fsck(os.path.join(self.d, 'cache'), self.be, world.fsck_params(BLOCK), self.db)
        try:
            await f.check()
        except Exception as exc:
            raise Violation(f'fsck crashed: {type(exc).__name__}', traceback.format_exc()[-1500:]) from None
        if f.found_errors:
            raise Violation('fsck finds errors after normal operation', '')


async def run_path(path, op, drop, fsck=False, setup=(), max_entries=100, final=True):
    '''Fresh file system, execute setup+path (assumed checked), then *op*, then compare everything'''
    env = Env(max_entries)
    m = fsmodel.Model()
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            for o in tuple(setup) + tuple(path):
                await env.step(m, o, check=False)
                if o[0] == 'copy':
                    await env.compare(m, 'after copy', data=False)
            if drop:
                await env.ctrl(b's3ql_dropcache!')
            if op is not None:
                await env.step(m, op)
            nxt = m.clone()
            if final:
                await env.settle(m, fsck)
            await env.cache.destroy()
            if final and env.fs.failsafe:
                raise Violation('file system switched to read-only mode', '')
        finally:
            await env.close()
        nursery.cancel_scope.cancel()
    return nxt


def first_leaf(exc):
    while isinstance(exc, BaseExceptionGroup) and exc.exceptions:
        exc = exc.exceptions[0]
    return exc


_SUBJECT = os.path.dirname(os.path.abspath(s3fs.__file__)) + os.sep


def raised_by_subject(exc):
    '''Was *exc* raised by (or below) the code under test, rather than by the harness itself?'''
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    files = [os.path.abspath(f.f_code.co_filename) for f, _ in traceback.walk_tb(exc.__traceback__)]
    last = [f for f in files if f.startswith((_SUBJECT, here))]
    return bool(last) and last[-1].startswith(_SUBJECT)


async def _nothread(sync_fn, *args, thread_name=None, abandon_on_cancel=False, limiter=None):
    r = sync_fn(*args)
    await trio.lowlevel.cancel_shielded_checkpoint()
    return r


def trio_run(fn, *args):
    '''Run without schedule exploration; Violation and other errors are unwrapped'''
    orig = trio.to_thread.run_sync
    trio.to_thread.run_sync = _nothread
    try:
        with world.quiet_excepthook() as q:
            try:
                r = trio.run(fn, *args)
            except BaseException as exc:
                exc = first_leaf(exc)
                if isinstance(exc, Exception) and not isinstance(exc, Violation) and raised_by_subject(exc):
                    raise Violation(f'a request fails with {type(exc).__name__}', ''.join(traceback.format_exception(exc)[-6:])) from None
                raise exc from None
        bugs = [e for e in q.seen if 'BUG' in str(e) or 'destroy' in str(e)]
        if bugs:
            raise Violation('internal consistency alarm raised', repr(bugs[0]))
        return r
    finally:
        trio.to_thread.run_sync = orig
