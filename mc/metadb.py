'''A file system's metadata database with its uploads: the real Connection, write tracking extension,
MetadataUploadTask, upload_metadata and download_metadata on an in-memory backend.'''
import os
import re

import apsw
import trio

from mc import world
from mc.explore import Violation
from s3ql import sqlite3ext
from s3ql.database import Connection, FsAttributes, download_metadata, expire_objects, upload_metadata, upload_params, write_params
from s3ql.mount import MetadataUploadTask

PARAMS_RE = re.compile('^s3ql_params_([0-9a-f]{10})$')


def content(db):
    '''Logical content of the part of the database the harness changes'''
    return tuple(db.get_list('SELECT id, name, refcount FROM names ORDER BY id'))


def file_content(path):
    c = apsw.Connection(path, flags=apsw.SQLITE_OPEN_READONLY)
    try:
        return tuple(c.cursor().execute('SELECT id, name, refcount FROM names ORDER BY id'))
    finally:
        c.close()


class Session:
    '''Database, parameters and backend of one file system'''

    def __init__(self, blocksize, points=False, conns=1):
        self.d = world.workdir()
        self.blocksize = blocksize
        self.be = world.MemBackend(max_connections=conns, max_threads=0 if conns == 1 else 1)
        if conns == 1:
            self.be.max_threads = 0
        self.be.points = points
        self.be.after = self._after
        self.path = os.path.join(self.d, 'fs')
        self.hosts = 0
        self.snap = {}  # seq_no -> (params, bytes of the database)
        self.params = FsAttributes(data_block_size=blocksize, metadata_block_size=blocksize, seq_no=1)
        with open(self.path + '.db', 'wb') as fh:
            fh.write(world.template_db())
        sqlite3ext.reset()
        self.db = None
        self.n = 0

    def _after(self, op, key):
        # remember what the database looked like when its parameters were published
        m = PARAMS_RE.match(key)
        if op == 'write' and m:
            p = FsAttributes.deserialize(self.be.data[key])
            if p.db_md5:
                with open(self.path + '.db', 'rb') as fh:
                    self.snap[p.seq_no] = (p, fh.read())

    def connect(self):
        sqlite3ext.reset()
        self.db = Connection(self.path + '.db', self.blocksize)

    async def mkfs(self):
        self.connect()
        self.db.close()
        await upload_metadata(self.be, self.db, self.params, incremental=False)
        write_params(self.path, self.params)
        await upload_params(self.be, self.params)
        await self.mount()

    async def mount(self):
        self.connect()
        self.params.seq_no += 1
        self.params.is_mounted = True
        write_params(self.path, self.params)
        await upload_params(self.be, self.params)

    async def unmount(self, full=False):
        self.params.is_mounted = False
        if full:
            self.db.execute('VACUUM')
        self.db.close()
        await upload_metadata(self.be, self.db, self.params, incremental=not full)
        write_params(self.path, self.params)
        await upload_params(self.be, self.params)
        await expire_objects(self.be)
        self.db = None

    async def move(self):
        '''Continue on a different host'''
        self.hosts += 1
        self.path = os.path.join(self.d, f'host{self.hosts}')
        sqlite3ext.reset()
        self.db = await download_metadata(self.be, self.path + '.db', self.params)
        self.db.close()

    async def periodic(self, times=1):
        '''One iteration of the background upload'''
        task = MetadataUploadTask(self.params, self.be, self.db, metadata_backup_interval=None, cachepath=self.path)
        async with trio.open_nursery() as n:
            n.start_soon(task.run)
            seq = self.params.seq_no
            task.event.set()
            while self.params.seq_no == seq:
                await trio.lowlevel.checkpoint()
            task.stop()

    async def verify(self, only=None):
        '''Every snapshot that is still there can be downloaded and is what the database was'''
        nos = [int(m.group(1), 16) for m in map(PARAMS_RE.match, sorted(self.be.data)) if m]
        for no in nos:
            if no not in self.snap or (only and no not in only):
                continue
            p, data = self.snap[no]
            if p.is_mounted and no == self.params.seq_no:
                continue  # session in progress
            out = os.path.join(self.d, 'restore')
            try:
                conn = await download_metadata(self.be, out, p.copy())
            except Exception as exc:
                raise Violation('snapshot cannot be downloaded', f'seq {no}: {exc!r}')
            conn.conn.close()
            with open(out, 'rb') as fh:
                got = fh.read()
            for ext in ('', '-wal', '-shm'):
                if os.path.exists(out + ext):
                    os.unlink(out + ext)
            a, b = strip(got), strip(data)
            if a != b:
                bad = [i for i in range(0, max(len(a), len(b)), 4096) if a[i : i + 4096] != b[i : i + 4096]]
                raise Violation('downloaded snapshot differs from the database', f'seq {no}: {len(a)} vs {len(b)} bytes, pages {[i // 4096 for i in bad]}')

    def close(self):
        try:
            if self.db is not None:
                self.db.conn.close()
        except Exception:
            pass
        self.db = None
        sqlite3ext.reset()
        world.rmdir(self.d)


def strip(b):
    # read/write version of the header: opening the downloaded file switches it to WAL mode
    return b[:18] + b[20:24] + b[28:92] + b[100:]
