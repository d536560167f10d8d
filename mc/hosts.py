'''Several hosts sharing one backend: runs the real mkfs, mount, fsck and s3qladm commands with an in-memory backend
and a stand-in for pyfuse3's main loop, and cuts the power at any chosen point.

A state is a plain value: backend objects plus the files of every host. A session is run on a copy; the result is a new
state. Nothing survives a session except backend objects and files.
'''
import contextlib
import faulthandler
import io
import os
import re
import shutil
import signal
import sys
import traceback

import apsw
import pyfuse3
import trio
import trio.testing

import s3ql.backends as backends
from mc import fsmc, sched, world
from mc.explore import Violation
from s3ql import sqlite3ext
from s3ql.logging import QuietError

URL = 'mem://fs'
STEM = None  # name of the cache files, found out after mkfs


class Crash(BaseException):
    pass


class Fail(Exception):
    '''Permanent backend error'''


class State:
    '''What survives a crash'''

    def __init__(self, data=None, meta=None, files=None):
        self.data = data or {}
        self.meta = meta or {}
        self.files = files or {}  # host -> {relpath: bytes}

    def clone(self):
        return State(dict(self.data), {k: dict(v) for k, v in self.meta.items()}, {h: dict(f) for h, f in self.files.items()})


def load_files(d):
    out = {}
    for base, dirs, names in os.walk(d):
        rel = os.path.relpath(base, d)
        for n in dirs:
            out[os.path.normpath(os.path.join(rel, n)) + '/'] = b''
        for n in names:
            p = os.path.join(base, n)
            if n.endswith('.log'):
                continue
            with open(p, 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, n))] = fh.read()
    return out


def store_files(d, files):
    for n in sorted(files):
        p = os.path.join(d, n)
        if n.endswith('/'):
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(files[n])


class Backend(world.RawMemBackend):
    known_options = set()
    needs_login = False
    current = None

    @classmethod
    async def create(cls, **kw):
        return cls.current

    def __init__(self, run):
        super().__init__(1)
        self.run = run
        self.points = False
        self.hook = self._hook

    def _hook(self, op, key):
        if op == 'write':
            return
        self.run.point(op, key)

    async def write_fh(self, key, fh, *a, **kw):
        if self.run.during:
            await self.run.during(key)
        return await super().write_fh(key, fh, *a, **kw)

    async def close(self):
        pass


class Result:
    def __init__(self):
        self.status = None  # 'ok', 'refused', 'crash', 'exit', 'fail'
        self.code = None
        self.error = None
        self.reached_main = False
        self.info = {}
        self.points = 0
        self.where = None


class Run:
    '''One command on one host'''

    def __init__(self, state, host, crash_at=None, fail_at=None):
        self.state = state.clone()
        self.host = host
        self.crash_at = crash_at
        self.fail_at = fail_at
        self.n = 0
        self.dead = False
        self.labels = []
        self.dir = world.workdir()
        store_files(self.dir, self.state.files.get(host, {}))
        self.res = Result()
        self.captured = None
        self.ops = None
        self.body = None
        self.during = None  # async function(key): what happens at the same time as an upload

    # ---- points at which power may fail
    def point(self, op, key=''):
        if self.dead:
            raise Crash()
        if op in ('lookup',) or (op == 'read' and not key.startswith('s3ql_metadata')):
            return
        i = self.n
        self.n += 1
        self.labels.append(f'{op} {key}')
        if i == self.crash_at:
            self.res.where = f'{i}: {op} {key}'
            self.capture()
            self.dead = True
            raise Crash()
        if i == self.fail_at and op in ('write-commit', 'delete', 'read'):
            self.res.where = f'{i}: {op} {key}'
            self.failed = True
            raise Fail(key)

    def capture(self):
        st = State(dict(self.be.data), {k: dict(v) for k, v in self.be.meta.items()}, dict(self.state.files))
        st.files[self.host] = load_files(self.dir)
        self.captured = st

    # ---- running a command
    def execute(self, fn, body=None):
        '''Run command *fn* (synchronous entry point); *body*: async function(operations), the time while it is mounted'''
        self.body = body
        self.failed = False
        be = self.be = Backend(self)
        be.data = dict(self.state.data)
        be.meta = {k: dict(v) for k, v in self.state.meta.items()}
        Backend.current = be
        backends.async_prefix_map['mem'] = Backend
        res = self.res
        with self.patched():
            try:
                fn(self)
                res.status = 'ok'
            except BaseException as exc:
                e = self.classify(exc)
                if e is not None:
                    raise e from None
        if self.captured is None:
            self.capture()
        # what a killed process leaves behind does not complain, and must be gone before the
        # extension is reset
        cache = getattr(self.ops, 'cache', None)
        if cache is not None:
            for el in list(cache.cache.values()):
                el.dirty = False
                el.close()
        self.ops = None
        for conn in apsw.connections():
            conn.close(True)
        sqlite3ext.reset()
        res.points = self.n
        res.labels = self.labels
        shutil.rmtree(self.dir, ignore_errors=True)
        return res, self.captured

    def classify(self, exc):
        res = self.res
        ls = list(_leaves(exc))
        for e in ls:
            if isinstance(e, Violation):
                return e
        if self.dead:
            res.status = 'crash'
            return None
        if isinstance(exc, KeyboardInterrupt):
            return exc
        if self.failed:
            res.status = 'fail'
            return None
        if isinstance(exc, SystemExit):
            res.status = 'exit'
            res.code = exc.code
            return None
        quiet = [e for e in ls if isinstance(e, QuietError)]
        if quiet:
            res.status = 'refused'
            res.code = quiet[0].exitcode
            res.error = str(quiet[0])
            return None
        res.status = 'error'
        res.error = ''.join(traceback.format_exception(exc))
        res.code = type(ls[0]).__name__
        return None

    @contextlib.contextmanager
    def patched(self):
        run = self
        orig = {}

        def patch(obj, name, val):
            orig[(obj, name)] = getattr(obj, name)
            setattr(obj, name, val)

        real_run = trio.run
        real_rename = os.rename
        real_replace = os.replace
        real_unlink = os.unlink
        real_rmtree = shutil.rmtree

        def trio_run(fn, *a, **kw):
            async def main():
                with trio.move_on_after(10**7) as sc:
                    return await fn(*a)
                if sc.cancelled_caught:
                    raise Violation('command hangs', '')

            return real_run(main, clock=trio.testing.MockClock(autojump_threshold=0))

        def rename(a, b, **kw):
            if str(b).endswith('.params') or str(a).endswith('-cache'):
                run.point('rename-before', os.path.basename(b))
                real_rename(a, b, **kw)
                run.point('rename-after', os.path.basename(b))
            else:
                real_rename(a, b, **kw)

        def replace(a, b, **kw):
            if str(b).endswith('.params') or str(a).endswith('-cache'):
                run.point('rename-before', os.path.basename(b))
                real_replace(a, b, **kw)
                run.point('rename-after', os.path.basename(b))
            else:
                real_replace(a, b, **kw)

        def unlink(a, **kw):
            if str(a).endswith('.params'):
                run.point('unlink-before', os.path.basename(a))
                real_unlink(a, **kw)
                run.point('unlink-after', os.path.basename(a))
            else:
                real_unlink(a, **kw)

        def rmtree(a, *args, **kw):
            if str(a).endswith('-cache'):
                run.point('rmtree-before', os.path.basename(a))
                real_rmtree(a, *args, **kw)
                run.point('rmtree-after', os.path.basename(a))
            else:
                real_rmtree(a, *args, **kw)

        def fuse_init(operations, mountpoint, opts):
            run.ops = operations

        async def fuse_main(*a, **kw):
            run.res.reached_main = True
            run.point('main', '')
            if run.body:
                await run.body(run)

        noop = lambda *a, **k: None  # noqa: E731
        import s3ql.fsck as fsck_mod
        import s3ql.mkfs as mkfs_mod
        import s3ql.mount as mount_mod

        patch(trio, 'run', trio_run)
        patch(trio.to_thread, 'run_sync', sched._nothread)
        patch(os, 'rename', rename)
        patch(os, 'replace', replace)
        patch(os, 'unlink', unlink)
        patch(os, 'remove', unlink)
        patch(shutil, 'rmtree', rmtree)
        patch(os, 'fsync', noop)
        patch(pyfuse3, 'init', fuse_init)
        patch(pyfuse3, 'main', fuse_main)
        patch(pyfuse3, 'close', noop)
        patch(pyfuse3, 'terminate', noop)
        patch(signal, 'signal', noop)
        patch(faulthandler, 'enable', noop)
        patch(faulthandler, 'register', noop)
        for m in (mount_mod, fsck_mod, mkfs_mod):
            if hasattr(m, 'setup_logging'):
                patch(m, 'setup_logging', noop)
        hook = sys.excepthook
        tmpdir = os.environ.get('SQLITE_TMPDIR')
        fsmc.patch() if hasattr(fsmc, 'patch') else None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            for (obj, name), val in orig.items():
                setattr(obj, name, val)
            sys.excepthook = hook
            if tmpdir is None:
                os.environ.pop('SQLITE_TMPDIR', None)
            else:
                os.environ['SQLITE_TMPDIR'] = tmpdir


def _leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from _leaves(e)
    else:
        yield exc


# ---- commands
def authfile():
    p = os.path.join(world.SCRATCH, f'authinfo-{os.getpid()}')
    if not os.path.exists(p):
        with open(os.open(p, os.O_CREAT | os.O_WRONLY, 0o600), 'w') as fh:
            fh.write('[mem]\nstorage-url: mem://\ncompress: none\n')
    return p


def mkfs(run):
    from s3ql.mkfs import mkfs

    mkfs(URL, authfile=authfile(), cachedir=run.dir, plain=True, metadata_block_size=16)


def mount(run, **kw):
    from s3ql.mount import mount

    mount(URL, '/tmp', authfile=authfile(), cachedir=run.dir, fg=True, compress='none', cachesize=1000,
          max_cache_entries=20, metadata_backup_interval=0, max_threads=1, **kw)


def fsck(run, **kw):
    from s3ql.fsck import fsck

    fsck(URL, authfile=authfile(), cachedir=run.dir, batch=True, max_threads=1, **kw)


PARAMS_RE = re.compile('^s3ql_params_([0-9a-f]+)$')
