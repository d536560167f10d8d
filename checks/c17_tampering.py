'''C17: every tampering with stored objects is detected, every corruption is reported as such.'''
import io
import itertools
import os
import shutil

import trio

from mc import sched, world
from mc.explore import Violation, pmap
from s3ql import common
from s3ql.authinfo import CompressSpec
from s3ql.backends import comprenc, local
from s3ql.backends.common import CorruptedObjectError
from s3ql.backends.comprenc import AsyncComprencBackend, ObjectNotEncrypted

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of modifications of stored objects (every single-byte change, truncation, extension, chunk and field substitution, cross-object, cross-key and cross-version splice) replayed through the real read path'
NOTE = (
    'Small reference objects (two keys, two versions, two passphrases, plain) per algorithm; all 255 changes of every byte of the encrypted metadata fields '
    'and of the stored data; every truncation length; deletions, duplications and exchanges of ranges; every combination of fields from different objects; '
    'cryptographic primitives are assumed sound.'
)

OK_ERRORS = (CorruptedObjectError, ObjectNotEncrypted)
SPECS = ['none-6', 'zlib-6', 'bzip2-6', 'lzma-6']
K1, K2 = 's3ql_data_1', 's3ql_data_22'
D1, D1OLD, D2 = b'The first object.', b'The former one...', b'Other object data'
M1 = {'x': 1, 'name': 'first'}
M1OLD = {'x': 0, 'name': 'former'}
M2 = {'x': 2, 'name': 'second'}


class Raw(world.RawMemBackend):
    '''Hands out whatever is stored as metadata'''

    async def readinto_fh(self, key, fh):
        fh.write(self.data[key])
        return self.meta[key]

    async def lookup(self, key):
        return self.meta[key]


async def produce(spec, pw, key, data, meta, tick):
    '''One genuine stored object: (data, metadata)'''
    raw = world.RawMemBackend()
    raw.points = False
    be = await AsyncComprencBackend.create(pw, CompressSpec.parse(spec), raw)
    orig = comprenc.time.time
    comprenc.time.time = lambda: 1700000000.5 + tick
    try:
        await be.store(key, data, meta)
    finally:
        comprenc.time.time = orig
    return raw.data[key], raw.meta[key]


async def objects(spec, pw):
    return {
        'a': await produce(spec, pw, K1, D1, M1, 0),
        'old': await produce(spec, pw, K1, D1OLD, M1OLD, -10),
        'b': await produce(spec, pw, K2, D2, M2, 1),
        'otherpw': await produce(spec, b'other' if pw else b'pass', K1, D1, M1, 2),
        'plain': await produce(spec, None, K1, D1, M1, 3),
        'longer': await produce(spec, pw, K1 + '0', D1 + b'!' * 60, M1, 4),
    }


class Probe:
    '''Reads (data, meta) as object K1 and judges the outcome'''

    def __init__(self, spec, pw, allowed):
        self.raw = Raw()
        self.raw.points = False
        self.spec = spec
        self.pw = pw
        self.allowed = allowed  # genuine (content, metadata) pairs under this key
        self.genuine = []  # what is stored for them
        self.n = self.detected = 0

    async def start(self):
        self.be = await AsyncComprencBackend.create(self.pw, CompressSpec.parse(self.spec), self.raw)
        return self

    async def __call__(self, what, data, meta, expect=None):
        self.n += 1
        gen = [i for i, (d, m) in enumerate(self.genuine) if m == meta and all(type(meta[k]) is type(v) for k, v in m.items())]
        genuine = [i for i in gen if self.genuine[i][0] == data]
        self.raw.data[K1] = data
        self.raw.meta[K1] = meta
        got = []
        for op in ('read', 'lookup'):
            fh = io.BytesIO()
            try:
                if op == 'read':
                    m = await self.be.readinto_fh(K1, fh)
                else:
                    m = await self.be.lookup(K1)
            except OK_ERRORS:
                got.append(None)
                continue
            except Exception as exc:
                raise Violation('damaged object makes %s fail with something other than a corruption error' % ('reading' if op == 'read' else 'lookup'), f'{self.spec} passphrase={self.pw!r} {what}: {exc!r}') from None
            got.append((fh.getvalue() if op == 'read' else None, m))
        r, lk = got
        if r is None:
            self.detected += 1
        if genuine and r != self.allowed[genuine[0]]:
            raise Violation('genuine object cannot be read', f'{self.spec} passphrase={self.pw!r} {what}: {r!r}')
        if gen and (lk is None or lk[1] != self.allowed[gen[0]][1]):
            raise Violation('genuine object cannot be looked up', f'{self.spec} passphrase={self.pw!r} {what}: {lk!r}')
        if self.pw is not None and r is not None and not genuine:
            raise Violation('tampering not detected', f'{self.spec} {what}: reads {r!r}')
        if self.pw is not None and lk is not None and not gen:
            raise Violation('tampered metadata not detected by lookup', f'{self.spec} {what}: {lk!r}')
        if expect is not None and r is not None and not genuine:
            # the compressed formats contain a checksum
            if r[0] != expect or what.split(' ', 2)[2].startswith(('truncate', 'append', 'prepend', 'drop')):
                raise Violation('damaged compressed data not detected', f'{self.spec} {what}: reads {r!r}')
        if r is not None and self.pw is not None:
            if r not in self.allowed:
                raise Violation('tampering not detected', f'{self.spec} {what}: reads {r!r}')
        if self.pw is not None and lk is not None and lk[1] not in [x[1] for x in self.allowed]:
            raise Violation('tampered metadata not detected by lookup', f'{self.spec} {what}: {lk!r}')


def edits(buf, values):
    '''Every single-byte change, truncation, extension, removal, duplication and exchange of ranges'''
    n = len(buf)
    for i in range(n):
        for v in values:
            if v:
                yield f'byte {i} ^ {v}', buf[:i] + bytes([buf[i] ^ v]) + buf[i + 1 :]
    for i in range(n):
        yield f'truncate to {i}', buf[:i]
        yield f'cut first {i + 1}', buf[i + 1 :]
        yield f'drop byte {i}', buf[:i] + buf[i + 1 :]
        yield f'insert 0 at {i}', buf[:i] + b'\0' + buf[i:]
    for ext in (b'\0', b'\n', b'\0' * 40, b'x', buf, buf[-32:], b'\xff' * 300):
        yield f'append {ext[:10]!r}', buf + ext
        yield f'prepend {ext[:10]!r}', ext + buf
    for sz in (1, 4, 16, 32):
        for i in range(0, n - 2 * sz + 1, max(1, sz // 4)):
            yield f'exchange {sz} at {i}', buf[:i] + buf[i + sz : i + 2 * sz] + buf[i : i + sz] + buf[i + 2 * sz :]


WRONG = [None, 0, 1, -1, 2**40, 1.5, True, False, '', 'None', 'AES', 'AES_v2', 'ZLIB', 'BZIP2', 'LZMA', 'zzz', b'', b'{ }', b"{ '__size': 'x' }", b"{ '__size': -1 }", b"{ '__size': None }", b'[]', b"{ 'a': [] }", b'\xff', 'ü']


def field_edits(o, others):
    '''Every replacement, removal and addition of a metadata field; every mixture of two objects'''
    data, meta = o
    for k in meta:
        yield f'remove {k}', data, {a: b for a, b in meta.items() if a != k}
        for v in WRONG:
            yield f'{k} := {v!r}', data, {**meta, k: v}
    for k, v in itertools.product(('payload_offset', 'extra', '', 'signature2', 'object_id ', '__size'), WRONG):
        yield f'add {k}={v!r}', data, {**meta, k: v}
    for off in (0, 1, 5, len(data), len(data) + 1, 10**9, -1):
        yield f'payload_offset {off}', data, {**meta, 'payload_offset': off}
    keys = list(meta)
    for name, (odata, ometa) in others:
        allk = sorted(set(keys) | set(ometa))
        for mask in range(1 << len(allk)):
            m = {}
            for i, k in enumerate(allk):
                src = ometa if mask >> i & 1 else meta
                if k in src:
                    m[k] = src[k]
            for dn, dd in (('own', data), (name, odata)):
                yield f'fields of {name}: {[k for i, k in enumerate(allk) if mask >> i & 1]}, data of {dn}', dd, m
    # ambiguity of the signed representation: move the boundary between two fields
    for a, b in itertools.permutations(keys, 2):
        for va in (meta[a],):
            for tag in ('s', 'b', 'i'):
                if isinstance(va, str):
                    vb = meta[b]
                    vb = vb if isinstance(vb, str) else str(vb) if isinstance(vb, int) else vb.decode('latin1')
                    m = {k: v for k, v in meta.items() if k != b}
                    m[a] = f'{va}\0{b}\0{tag}{vb}'
                    yield f'merge {b} into {a}', data, m
    yield 'metadata not a mapping', data, None
    yield 'metadata is a list', data, [1]
    yield 'empty metadata', data, {}
    yield 'metadata keys renamed', data, {k.upper(): v for k, v in meta.items()}


def splices(a, others):
    '''Data streams composed of parts of different objects'''
    for name, (odata, _) in others:
        n = min(len(a[0]), len(odata))
        for i in range(n + 1):
            yield f'data: own[:{i}] + {name}', a[0][:i] + odata[i:], a[1]
            yield f'data: {name}[:{i}] + own', odata[:i] + a[0][i:], a[1]
            yield f'data: own[:{i}] + whole {name}', a[0][:i] + odata, a[1]
            for j in range(i + 1, n + 1, 3):
                yield f'data: own with {name}[{i}:{j}]', a[0][:i] + odata[i:j] + a[0][j:], a[1]


def item(it):
    part, spec, pw, arg, sel = it
    out = None
    pr = None
    buf = common.BUFSIZE

    async def body():
        nonlocal pr
        obs = await objects(spec, pw)
        a = obs['a']
        allowed = [(D1, M1), (D1OLD, M1OLD)]
        pr = await Probe(spec, pw, allowed).start()
        pr.genuine = [obs['a'], obs['old']]
        for w, i in (('unmodified', 'a'), ('unmodified old', 'old')):
            await pr(w, *obs[i])
        expect = {'a': D1, 'longer': D1 + b'!' * 60}[arg] if part in ('data', 'data8') and pw is None and not spec.startswith('none') else None
        others = [(k, v) for k, v in obs.items() if k != 'a']
        full = range(1, 256)
        if part == 'data8':
            for m in (common, comprenc):
                m.BUFSIZE = 8
            gen = ((f'{arg} data {w} (8 byte buffers)', d, obs[arg][1]) for w, d in edits(obs[arg][0], (1, 128, 255)))
        elif part == 'data':
            gen = ((f'{arg} data {w}', d, obs[arg][1]) for w, d in edits(obs[arg][0], full))
        elif part == 'meta':
            def g():
                for k, v in a[1].items():
                    if isinstance(v, bytes):
                        for w, d in edits(v, full):
                            yield f'{k} {w}', a[0], {**a[1], k: d}
                    elif isinstance(v, str):
                        for w, d in edits(v.encode(), (1, 2, 4, 8, 16, 32, 64)):
                            yield f'{k} {w}', a[0], {**a[1], k: d.decode('latin1')}
                    elif isinstance(v, int):
                        for x in range(-3, 40):
                            if x != v:
                                yield f'{k} := {x}', a[0], {**a[1], k: x}
            gen = g()
        elif part == 'fields':
            gen = field_edits(obs[arg], [(k, v) for k, v in obs.items() if k != arg])
        elif part == 'splice':
            gen = splices(a, others)
        elif part == 'prev':  # every prefix/suffix composition with an older version of the same object
            gen = splices(obs['old'], [('a', a)])
        for i, (w, d, m) in enumerate(gen):
            if i % sel[1] == sel[0]:
                await pr(w, d, m, expect)

    try:
        with sched.patched_threads():
            trio.run(body)
    except Violation as v:
        out = (v.sig, v.detail)
    finally:
        common.BUFSIZE = comprenc.BUFSIZE = buf
    return (pr.n, pr.detected), out


# -- local storage: the file itself is damaged ---------------------------------------------------
def item_local(it):
    _, spec, pw, arg, sel = it
    n = det = 0
    d = world.workdir()

    async def body():
        nonlocal n, det
        raw = await local.AsyncBackend.create(storage_url='local://' + d, backend_options={})
        be = await AsyncComprencBackend.create(pw, CompressSpec.parse(spec), raw)
        await be.store(K1, D1, M1)
        paths = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]
        assert len(paths) == 1
        with open(paths[0], 'rb') as fh:
            orig = fh.read()

        async def stored():
            fh = io.BytesIO()
            m = await raw.readinto_fh(K1, fh)
            return fh.getvalue(), m

        genuine = await stored()
        for i, (w, buf) in enumerate(edits(orig, (1, 2, 4, 8, 16, 32, 64, 128, 255, 0x20 ^ 0x0A))):
            if i % sel[1] != sel[0]:
                continue
            with open(paths[0], 'wb') as fh:
                fh.write(buf)
            n += 1
            try:
                same = await stored() == genuine
            except Exception:
                same = False
            for op in ('read', 'lookup', 'raw read', 'raw lookup'):
                fh = io.BytesIO()
                b = raw if op.startswith('raw') else be
                try:
                    m = await (b.readinto_fh(K1, fh) if op.endswith('read') else b.lookup(K1))
                except OK_ERRORS:
                    det += op == 'read'
                    continue
                except Exception as exc:
                    raise Violation('damaged file makes %s fail with something other than a corruption error' % op, f'{spec} passphrase={pw!r} {w}: {exc!r}') from None
                if op == 'read' and pw is not None and not same:
                    raise Violation('tampering not detected', f'{spec} file {w}: {fh.getvalue()!r} {m!r}')
                if b is be and pw is not None and (m != M1 or (op == 'read' and fh.getvalue() != D1)):
                    raise Violation('tampering not detected', f'{spec} file {w}: {fh.getvalue()!r} {m!r}')

    try:
        with sched.patched_threads():
            trio.run(body)
    except Violation as v:
        return (n, det), (v.sig, v.detail)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (n, det), None


def any_item(it):
    return item_local(it) if it[0] == 'local' else item(it)


def items(tier):
    for pw in (b'pass', None):
        for spec in SPECS:
            for arg in ('a', 'longer'):
                if arg == 'a' or pw is None or tier != 'quick':
                    for s in range(4):
                        yield ('data', spec, pw, arg, (s, 4))
            for arg in ('a', 'longer'):
                yield ('data8', spec, pw, arg, (0, 1))
            for s in range(4):
                yield ('meta', spec, pw, None, (s, 4))
                yield ('splice', spec, pw, None, (s, 4))
            yield ('prev', spec, pw, None, (0, 1))
            for arg in ('a', 'b', 'plain', 'otherpw'):
                for s in range(4):
                    yield ('fields', spec, pw, arg, (s, 4))
            for s in range(2):
                yield ('local', spec, pw, None, (s, 2))


def run(rep, tier):
    n = det = 0
    its = list(items(tier))
    seen = {}
    for it, ((k, dt), v) in pmap(any_item, its, wall=150 if tier == 'quick' else 1500):
        n += k
        det += dt
        if v:
            rep.violation(v[0] + (' (unencrypted)' if it[2] is None else ''), v[1], {'item': it})
    rep.coverage.update(
        {
            'exhaustive': True,
            'evaluations': n,
            'distinct_nontrivial': det,
            'rule': 'all 255 changes of each byte of the stored data and of each bytes-valued metadata field, truncations, extensions, range removals/exchanges; all subsets of metadata fields exchanged with each other object; data splices at every offset; every byte of the local backend file; nontrivial = modification reported as corruption',
            'samples': [repr(x) for x in its[:3]],
        }
    )


def replay(data):
    it = data['item']
    it[2] = it[2] and b'pass'
    r = any_item(tuple(it))
    print(r)
    return 1 if r[1] else 0
