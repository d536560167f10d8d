'''Small file system fixture for demonstrations (everything lives in a scratch directory)'''
import errno, os, shutil, stat, sys, tempfile
from contextlib import asynccontextmanager

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import pyfuse3
import trio
from s3ql import ROOT_INODE, fs as s3fs
from s3ql.backends import local
from s3ql.authinfo import CompressSpec
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.block_cache import BlockCache
from s3ql.database import Connection, FsAttributes, create_tables
from s3ql.fsck import Fsck
from s3ql.inode_cache import InodeCache
from s3ql.mkfs import init_tables

BLOCK = 1024
FILE = stat.S_IFREG | 0o644
DIR = stat.S_IFDIR | 0o755
SPEC = CompressSpec.parse('none')


class Ctx:
    uid = os.getuid()
    gid = os.getgid()
    pid = os.getpid()
    umask = 0


class Fields:
    def __init__(self, **kw):
        for k in ('atime', 'mtime', 'mode', 'uid', 'gid', 'size', 'ctime'):
            setattr(self, 'update_' + k, False)
        self.__dict__.update(kw)


def reply(token, name, attr, off):
    if len(token.out) >= token.limit:
        return False
    token.out.append((bytes(name), attr.st_ino, off))
    return True


class Token:
    def __init__(self, limit=10**9):
        self.limit = limit
        self.out = []


pyfuse3.readdir_reply = reply
pyfuse3.invalidate_inode = lambda *a, **k: None
pyfuse3.invalidate_entry = lambda *a, **k: None
pyfuse3.invalidate_entry_async = lambda *a, **k: None


class Fs:
    async def create(self, parent, name):
        fi, attr = await self.ops.create(parent, name, FILE, os.O_RDWR, Ctx)
        return attr.st_ino

    async def mkdir(self, parent, name):
        return (await self.ops.mkdir(parent, name, DIR, Ctx)).st_ino

    async def write(self, ino, off, data):
        assert await self.ops.write(ino, off, data) == len(data)

    async def size(self, ino):
        return (await self.ops.getattr(ino, Ctx)).st_size

    async def read(self, ino):
        return await self.ops.read(ino, 0, await self.size(ino))

    async def lookup(self, parent, name):
        return (await self.ops.lookup(parent, name, Ctx)).st_ino

    async def truncate(self, ino, size):
        attr = await self.ops.getattr(ino, Ctx)
        attr.st_size = size
        await self.ops.setattr(ino, attr, Fields(update_size=True), None, Ctx)

    async def drop(self):
        await self.cache.drop()
        self.ops.inodes.flush()

    async def settle(self):
        for _ in range(50):
            await trio.sleep(0.01)

    async def fsck(self):
        await self.drop()
        await self.settle()
        f = Fsck(os.path.join(self.dir, 'cache'), self.backend, FsAttributes(data_block_size=BLOCK, metadata_block_size=BLOCK), self.db)
        await f.check()
        self.ops.inodes.drop()
        return f.found_errors


@asynccontextmanager
async def filesystem(max_entries=100, max_size=10**7, wrap=lambda b: b):
    self = Fs()
    self.dir = tempfile.mkdtemp(prefix='demo-')
    try:
        os.mkdir(self.dir + '/backend')
        plain = wrap(await local.AsyncBackend.create(storage_url='local://' + self.dir + '/backend', backend_options={}))
        self.plain = plain
        self.backend = await AsyncComprencBackend.create(None, SPEC, plain)
        self.db = Connection(self.dir + '/db')
        create_tables(self.db)
        init_tables(self.db)
        async with trio.open_nursery() as nursery:
            self.cache = await BlockCache.create(self.backend, self.db, self.dir + '/cache', max_size, max_entries, nursery=nursery)
            self.ops = s3fs.Operations(self.cache, self.db, BLOCK, InodeCache(self.db, 0))
            self.ops.init()
            self.cache.fs = self.ops
            yield self
            with trio.move_on_after(20):
                self.ops.inodes.destroy()
                await self.cache.destroy()
            nursery.cancel_scope.cancel()
        self.db.close()
    finally:
        shutil.rmtree(self.dir, ignore_errors=True)


def main(fn, timeout=120):
    '''Exit 0 if fn() returns, 1 if it fails'''
    import traceback

    async def run():
        with trio.fail_after(timeout):
            await fn()

    try:
        trio.run(run)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)
