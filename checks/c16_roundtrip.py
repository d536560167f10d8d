'''C16: objects survive compression/encryption/local storage unchanged; bounded-exhaustive.'''
import io
import itertools
import os
import shutil

import trio

from mc import sched, world
from mc.explore import Violation, pmap
from s3ql import common
from s3ql.authinfo import CompressSpec
from s3ql.backends import comprenc, local
from s3ql.backends.comprenc import AsyncComprencBackend

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of (algorithm and level, passphrase, content class, length around every buffer boundary, source position, every pattern of short reads, metadata) executed on the real pipeline with a small I/O buffer'
NOTE = (
    'Buffer size set to 8 bytes (and to the real value for lengths around it), so that every alignment of content, compressor output and buffer '
    'boundaries up to three buffers is covered; short reads enumerated for the first reads of every source; in-memory and local storage.'
)

PLAINS = ['none-6', 'zlib-0', 'zlib-6', 'zlib-9', 'bzip2-1', 'bzip2-9', 'lzma-0', 'lzma-6']
ALL = [f'{a}-{n}' for a in ('none', 'zlib', 'bzip2', 'lzma') for n in range(10)]
BUF = 8


def content(kind, n):
    if kind == 'zero':
        return bytes(n)
    if kind == 'text':
        return (b'the quick brown fox ' * (n // 20 + 1))[:n]
    out = bytearray()
    x = 12345
    while len(out) < n:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        out += (x >> 24).to_bytes(5, 'little')
    return bytes(out[:n])


class Source(io.BytesIO):
    '''A BytesIO whose first reads are short, according to a pattern'''

    def __init__(self, data, pattern):
        super().__init__(data)
        self.pattern = list(pattern)

    def read(self, n=-1):
        if self.pattern and n is not None and n > 0:
            k = self.pattern.pop(0)
            if k:
                n = min(n, k)
        return super().read(n)


class FileLike:
    '''Not a BytesIO: takes the threaded path'''

    def __init__(self, src):
        self.src = src
        for m in ('read', 'write', 'seek', 'tell', 'getvalue', 'flush', 'truncate', 'close'):
            setattr(self, m, getattr(src, m))


class RawSource(io.RawIOBase):
    '''A real unbuffered binary stream with short reads'''

    def __init__(self, data, pattern):
        self.b = Source(data, pattern)

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        d = self.b.read(len(b))
        b[: len(d)] = d
        return len(d)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


async def pair(kind, d, passphrase, spec):
    if kind == 'mem':
        raw = world.RawMemBackend()
        raw.points = False
    else:
        raw = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={}, max_connections=2)
    return raw, await AsyncComprencBackend.create(passphrase, CompressSpec.parse(spec), raw)


def buffers(n):
    for m in (common, comprenc):
        m.BUFSIZE = n


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and repr(a) == repr(b)


async def one(raw, be, key, data, before, after, src, meta, no_compress, reader, writer_off, what):
    '''Store *data* located at offset *before* of a longer source, read it back every way'''
    fh = src(b'B' * before + data + b'A' * after)
    fh.seek(before)
    size = await be.write_fh(key, fh, len(data), dict(meta) if meta is not None else None, dont_compress=no_compress)
    real = await raw.get_size(key)
    if size != real or await be.get_size(key) != real:
        raise Violation('reported object size is wrong', f'{what}: write_fh says {size}, stored {real}')
    for hint in (None, 0, len(data), 10**9):
        dst = reader()
        dst.write(b'#' * writer_off)
        m = await be.readinto_fh(key, dst, size_hint=hint)
        got = dst.getvalue()
        if got != b'#' * writer_off + data:
            raise Violation('content changed by storing it', f'{what} hint={hint}: got {got[:80]!r} for {data[:80]!r} ({len(got)} / {len(data)} bytes)')
        if not same(m, dict(meta or {})):
            raise Violation('metadata changed by storing it', f'{what}: {m!r} for {meta!r}')
    m = await be.lookup(key)
    if not same(m, dict(meta or {})):
        raise Violation('lookup returns other metadata than stored', f'{what}: {m!r} for {meta!r}')
    f = await be.fetch(key)
    if f[0] != data or await be.read(key) != data or not await be.contains(key):
        raise Violation('fetch/read/contains disagree with what was stored', what)


METAS = [None, {}, {'a': 'x', 'b': b'\0\xff', 'c': 1, 'd': 1.5, 'e': True, 'f': None, "g'": 'ü\n\0'}, {'object_id': 'zz', 'signature': b'1', 'data': 'D', 'compression': 'LZMA', 'nonce': b''}]
PATTERNS = [()] + list(itertools.product((0, 1, 3), repeat=3))


def item(it):
    '''One group of round trips; returns (count, violation or None)'''
    part, kind, spec, pw, sync = it[:5]
    n = 0
    d = world.workdir()
    tables = [getattr(comprenc, n, {}) for n in ('SYNC_COMPRESSION_THRESHOLD', 'SYNC_DECOMPRESSION_THRESHOLD')]
    old = (common.BUFSIZE, [dict(t) for t in tables])
    try:
        if not sync:
            for t in tables:
                for k in t:
                    t[k] = -1
        elif sync == 'small':
            for t in tables:
                for k in t:
                    t[k] = 5

        async def body():
            nonlocal n
            raw, be = await pair(kind, d, pw, spec)
            if part == 'lengths':
                buffers(BUF)
                for ln in range(3 * BUF + 3):
                    for c in ('zero', 'rand'):
                        for before, after in ((0, 0), (3, 0), (0, 5), (BUF, BUF)):
                            for nc in (False, True):
                                data = content(c, ln)
                                mk = io.BytesIO if ln % 2 else (lambda x: FileLike(io.BytesIO(x)))
                                await one(raw, be, 'k%d' % (n % 3), data, before, after, mk, METAS[n % 4], nc, io.BytesIO, n % 2 * 5, f'{it} len={ln} {c} at {before}+{after} dont_compress={nc}')
                                n += 1
            elif part == 'short':
                buffers(BUF)
                for ln in (0, 1, BUF - 1, BUF, BUF + 1, 2 * BUF + 1):
                    for pat in PATTERNS:
                        for before, after in ((0, 0), (3, 4)):
                            for cls in (Source, RawSource):
                                await one(raw, be, 'k', content('rand', ln), before, after, lambda x: cls(x, pat), None, False, io.BytesIO, 0, f'{it} len={ln} short reads {pat} ({cls.__name__}) at {before}+{after}')
                                n += 1
            elif part == 'real':
                # the real buffer size and thresholds
                B = old[0]
                for ln in it[5]:
                    for c in ('zero', 'text', 'rand'):
                        await one(raw, be, 's3ql_data_%d' % ln, content(c, ln), 0, 0, io.BytesIO, METAS[2], False, io.BytesIO, 0, f'{it[:5]} len={ln} {c}')
                        n += 1
            elif part == 'keys':
                buffers(BUF)
                keys = ['s3ql_data_%d' % i for i in (0, 1, 12, 123, 1234, 12345, 123456, 1234567)] + ['s3ql_metadata_%010x' % 5, 'a/b', 'a=b', 'a#b', 'a.b', 'ü x', '=2F', 's3ql_params']
                for i, k in enumerate(keys):
                    await one(raw, be, k, content('rand', 30 + i), 0, 0, io.BytesIO, METAS[2], False, io.BytesIO, 0, f'{it} key={k!r}')
                    n += 1
                for i, k in enumerate(keys):  # all still there, none replaced another
                    if await be.read(k) != content('rand', 30 + i):
                        raise Violation('object changed by storing another one', f'{it} key={k!r}')
                    if kind == 'mem' and pw is None and spec == 'none-6' and await raw.get_size(k) != 30 + i:
                        raise Violation('reported object size is wrong', f'{it} key={k!r}')
                lst = sorted([x async for x in be.list('')])
                if lst != sorted(keys):
                    raise Violation('listing does not return exactly the stored keys', f'{it}: {lst}')
            await be.close()

        try:
            with sched.patched_threads():
                trio.run(body)
        except Violation as v:
            return n, (v.sig, v.detail)
        except Exception as exc:
            import traceback

            return n, ('storing and reading back fails', f'{it}: {exc!r}\n{traceback.format_exc()[-1500:]}')
        return n, None
    finally:
        buffers(old[0])
        for t, o in zip(tables, old[1], strict=True):
            t.update(o)
        shutil.rmtree(d, ignore_errors=True)


def items(tier):
    pws = (None, b'pass')
    specs = PLAINS if tier == 'quick' else ALL
    for pw in pws:
        for spec in ALL:
            yield ('keys', 'mem', spec, pw, True)
        for spec in PLAINS:
            yield ('keys', 'local', spec, pw, True)
        for spec in specs:
            for sync in (True, 'small', False):
                yield ('lengths', 'mem', spec, pw, sync)
        for spec in ('none-6', 'zlib-6', 'bzip2-6', 'lzma-6'):
            yield ('lengths', 'local', spec, pw, 'small')
            for kind in ('mem', 'local'):
                yield ('short', kind, spec, pw, 'small')
            B = 256 * 1024
            th = [250, 3 * 1024, 4 * 1024, 10 * 1024, 25 * 1024, 50 * 1024]
            lens = [x + d for x in th + [B, 2 * B] for d in (-1, 0, 1)]
            if tier != 'quick':
                lens += [3 * B + d for d in (-1, 0, 1)] + [10 * B + 17]
            for kind in ('mem', 'local'):
                for i in range(0, len(lens), 6):
                    yield ('real', kind, spec, pw, True, lens[i : i + 6])


def run(rep, tier):
    n = groups = 0
    its = list(items(tier))
    for it, (k, v) in pmap(item, its, wall=150 if tier == 'quick' else 1500):
        n += k
        groups += 1
        if v:
            rep.violation(v[0], v[1], {'item': it})
    rep.coverage.update(
        {
            'exhaustive': True,
            'evaluations': n,
            'distinct_nontrivial': n,
            'rule': 'product of (storage, algorithm-level, passphrase, sync/threaded) x lengths 0..3 buffers+2 x content x source offset and surplus x dont_compress; short-read patterns {full,1,3}^3; real buffer and threshold boundaries +-1; keys; each read back with four size hints, lookup, fetch',
            'samples': [repr(x) for x in its[:3]],
            'parts': {'groups': groups},
        }
    )


def replay(data):
    it = data['item']
    it[3] = it[3] and b'pass'
    r = item(tuple(it))
    print(r)
    return 1 if r[1] else 0
