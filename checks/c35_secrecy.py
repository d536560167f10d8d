'''C35: nothing but ciphertext leaves the host if the file system is encrypted.'''
import ast
import base64
import bz2
import itertools
import lzma
import os
import re
import zlib

import trio

from checks import c28_passphrase as c28
from mc import fsmc, hosts, world
from mc.explore import Violation, pmap
from mc.hosts import Run, State
from s3ql import adm as adm_mod
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.authinfo import CompressSpec
from s3ql.common import freeze_basic_mapping

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of histories of the real mkfs, mount, fsck and s3qladm commands on an encrypted file system, with every compression algorithm and with a power loss or a backend failure at every modification; every object given to the backend is searched for the secrets, in every encoding and after every decompression, opened with the passphrases, and compared with all other objects ever stored'
NOTE = (
    'Secrets: contents, names, extended attributes, symlink targets, passphrases, master key. Ciphertexts and nonces must be unique over the whole history, '
    'assuming that the clock never returns the same value twice. In-memory backend below the encryption layer.'
)
POOL = c28.POOL
ROOT = 1
KEY_RE = re.compile(r'^s3ql_(data_\d+|metadata_[0-9a-f]+_[0-9a-f]+|params_[0-9a-f]+|params|passphrase|passphrase_bak\d+|seq_no_\d+|metadata.*)$')
SECRETS = {
    'contents': [b'Attack at dawn, from the %d. hill near the river' % i for i in range(8)],
    'name': b'plan-of-attack',
    'directory name': b'top-secret-files',
    'xattr name': b'user.classification',
    'xattr value': b'eyes-of-the-general-only',
    'symlink target': b'/home/general/where-the-gold-is',
}


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


class Record:
    '''Everything the backend has been given, over the whole history'''

    def __init__(self):
        self.writes = []


REC = None


def install():
    '''Record what reaches the backend'''
    if getattr(hosts.Backend, 'recording', False):
        return
    orig = hosts.Backend.write_fh

    async def write_fh(self, key, fh, metadata=None):
        pos = fh.tell()
        fh.seek(0)
        buf = bytes(fh.read())
        fh.seek(pos)
        if REC is not None:
            REC.append((key, buf, dict(metadata or {})))
        return await orig(self, key, fh, metadata)

    hosts.Backend.write_fh = write_fh
    hosts.Backend.recording = True


def needles(pws, mk):
    out = []
    for what, v in SECRETS.items():
        for s in v if isinstance(v, list) else [v]:
            out.append((what, s))
    out += [('passphrase', p.encode()) for p in pws]
    out.append(('master key', mk))
    res = []
    for what, s in out:
        res.append((what, s))
        res.append((what, s.hex().encode()))
        for k in range(3):
            # base64, at any alignment
            e = base64.b64encode(b'\0' * k + s)
            res.append((what, e[4 if k else 0 : len(e) - 4]))
    return [(w, s) for w, s in res if len(s) >= 7]


def views(buf):
    yield 'as is', buf
    for name, fn in (('zlib', lambda b: zlib.decompressobj().decompress(b)), ('bzip2', bz2.decompress), ('lzma', lzma.decompress), ('base64', lambda b: base64.b64decode(b, validate=True))):
        try:
            yield name, fn(buf)
        except Exception:
            pass
    for off in (4, 8, 16):
        try:
            yield f'zlib at {off}', zlib.decompressobj().decompress(buf[off:])
        except Exception:
            pass


def fetch_with(key, buf, meta, pw):
    '''What an owner of passphrase *pw* can read'''
    be = world.RawMemBackend()
    be.points = False
    be.data[key], be.meta[key] = buf, meta

    async def main():
        cb = await AsyncComprencBackend.create(pw, CompressSpec.parse('none'), be)
        return await cb.fetch(key)

    try:
        return world.run_sync_trio(main)
    except Exception:
        return None


def judge(writes, mk, hist):
    seen = {}
    pws = [p.encode() for p in POOL]
    nd = needles(POOL, mk)
    n = 0
    for key, buf, meta in writes:
        n += 1
        where = f'object {key}, history {hist}'
        if not KEY_RE.match(key):
            raise Violation('object with an unexpected name', where)
        flat = freeze_basic_mapping(meta)
        raw = [v if isinstance(v, bytes) else str(v).encode() for v in meta.values()]
        for part, data in [('payload', buf), ('metadata', flat), ('name', key.encode())] + [('metadata', r) for r in raw]:
            for how, v in views(data):
                for what, s in nd:
                    if s in v:
                        raise Violation(f'{what} is readable in the backend', f'{part}, {how}: {where}')
        is_key = key.startswith('s3ql_passphrase')
        got = {p: fetch_with(key, buf, meta, p) for p in pws}
        for p, g in got.items():
            if g is not None and not is_key:
                raise Violation('object can be read without the master key', f'with passphrase {p}: {where}')
            if g is not None and is_key and g[0] != mk:
                raise Violation('key object does not contain the master key', where)
        if is_key and sum(g is not None for g in got.values()) > 1:
            raise Violation('key object can be read with several passphrases', where)
        if fetch_with(key, buf, meta, None) is not None:
            raise Violation('object can be read without any key', where)
        if not is_key and fetch_with(key, buf, meta, mk) is None:
            raise Violation('object can not be read with the master key', where)
        # Equal ciphertexts, or equal nonces, tell about the plaintext
        tags = [('payload', buf)] if len(buf) >= 12 else []
        tags += [(k, bytes(v)) for k, v in meta.items() if isinstance(v, bytes) and len(v) >= 12 and k in ('nonce', 'data', 'signature')]
        for t, v in tags:
            if (t, v) in seen:
                raise Violation(f'two objects with the same {t}', f'{seen[t, v]} and {where}')
            seen[t, v] = key
        # the first bytes of a payload (header) as well
        if len(buf) >= 12:
            for t, v in ((('start of payload', buf[:12])),):
                if (t, v) in seen:
                    raise Violation(f'two objects with the same {t}', f'{seen[t, v]} and {where}')
                seen[t, v] = key
    return n


async def body_ops(run, k):
    ops = run.ops

    async def put(parent, nm, data):
        fi, at = await ops.create(parent, nm, 0o100644, os.O_RDWR | os.O_CREAT, Ctx())
        await ops.write(fi.fh, 0, data)
        await ops.flush(fi.fh)
        await ops.release(fi.fh)
        await ops.forget([(at.st_ino, 1)])
        return at.st_ino

    n = SECRETS['name'] + b'-%d' % k
    d = await ops.mkdir(ROOT, SECRETS['directory name'] + b'-%d' % k, 0o40755, Ctx())
    a = await put(ROOT, n, SECRETS['contents'][k])
    # the same contents twice, and long, compressible contents
    await put(d.st_ino, n, SECRETS['contents'][k])
    await put(d.st_ino, n + b'z', SECRETS['contents'][k] * 200)
    await ops.setxattr(a, SECRETS['xattr name'], SECRETS['xattr value'], Ctx())
    s = await ops.symlink(ROOT, n + b'-link', SECRETS['symlink target'], Ctx())
    await ops.forget([(d.st_ino, 1), (s.st_ino, 1)])
    run.point('middle', '')
    # contents that are replaced by other ones
    await ops.cache.flush()
    at = await ops.lookup(ROOT, n, Ctx())
    fi = await ops.open(at.st_ino, os.O_RDWR, Ctx())
    await ops.write(fi.fh, 0, SECRETS['contents'][k + 1])
    await ops.release(fi.fh)
    await ops.forget([(at.st_ino, 1)])
    # as requested by s3qlctrl
    seq = run.ops.upload_task.params.seq_no if hasattr(ops.upload_task, 'params') else None

    ops.upload_task.event.set()
    for _ in range(2000):
        await trio.sleep(0.01)
        if seq is not None and ops.upload_task.params.seq_no != seq:
            break
    run.point('middle', '')


def step(st, hist, pw, action, crash=None, fail=None):
    '''-> result, new state, current passphrase'''
    kind = action[0]
    r = Run(st, 'A' if kind != 'elsewhere' else 'B', crash, fail)
    text = ''
    body = None
    if kind in ('work', 'elsewhere'):
        k = sum(a[0] in ('work', 'elsewhere') for a in hist) % 6

        async def body(run):
            await body_ops(run, k)

        from s3ql.mount import mount

        def fn(run):
            mount(hosts.URL, '/tmp', authfile=c28.authfile(pw), cachedir=run.dir, fg=True, compress=action[1], cachesize=1000, max_cache_entries=20,
                  metadata_backup_interval=0, max_threads=1, keep_cache=True)
    elif kind == 'fsck':
        from s3ql.fsck import fsck

        def fn(run):
            fsck(hosts.URL, authfile=c28.authfile(pw), cachedir=run.dir, batch=True, max_threads=1, force=True)
    else:
        args = {
            'passphrase': ('passphrase', action[1] + '\n' if kind == 'passphrase' else ''),
            'recover': ('recover-key', action[1] + '\n' + action[2] + '\n' if kind == 'recover' else ''),
            'shrink': ('shrink-db', ''),
            'restore': ('restore-metadata', '0\n'),
            'upgrade': ('upgrade', 'yes\n'),
        }[kind]
        text = args[1]

        def fn(run):
            adm_mod.main(['--authfile', c28.authfile(None if kind == 'recover' else pw), '--cachedir', run.dir, '--max-threads', '1', args[0], hosts.URL])

    with c28.console(text):
        res, new = r.execute(fn, body)
    if res.status == 'ok' and kind in ('passphrase', 'recover'):
        pw = action[-1]
    if res.status == 'error' and not r.failed:
        raise Violation(f'{kind} fails with {res.code}', f'{hist} {action}\n{res.error}')
    return res, new, pw


_base = {}


def base():
    '''-> state, master key, writes of mkfs'''
    global REC
    if 'st' not in _base:
        install()
        REC = []
        r, st, out = c28.command(State(), ('mkfs', POOL[0]))
        if r.status != 'ok':
            raise Violation('mkfs fails', f'{r.status} {r.code} {r.error}')
        m = re.search('---BEGIN MASTER KEY---(.*)---END MASTER KEY---', out, re.S)
        if not m:
            raise Violation('mkfs does not show the master key', out)
        text = m.group(1).strip()
        _base.update(st=st, text=text, mk=base64.b64decode(re.sub(r'\s', '', text)), writes=list(REC))
    return _base


def actions(pw, text):
    other = POOL[(POOL.index(pw) + 1) % len(POOL)]
    return [('work', 'none'), ('work', 'zlib-6'), ('work', 'bzip2-6'), ('work', 'lzma-6'), ('elsewhere', 'zlib-6'), ('fsck',), ('passphrase', other), ('recover', text, other), ('shrink',), ('restore',), ('upgrade',)]


def history(hist, cut=None):
    '''Run a history of indices of actions; *cut*: the last but one action is interrupted: ('crash' | 'fail', point)
    -> writes, number of points of the last action'''
    global REC
    b = base()
    REC = list(b['writes'])
    st, pw = b['st'], POOL[0]
    done = []
    points = []
    for pos, i in enumerate(hist):
        a = actions(pw, b['text'])[i]
        kw = {}
        if cut and pos == cut[0]:
            kw = {cut[1]: cut[2]}
        res, st, pw2 = step(st, done, pw, a, **kw)
        if res.status == 'crash' and a[0] in ('passphrase', 'recover'):
            # either may be in force
            pw2 = c28.holder(st, 's3ql_passphrase')[0] or pw
        pw = pw2
        points.append(res.points)
        done.append(a[:2] + ((res.status,) if res.status != 'ok' else ()))
    n = judge(REC, b['mk'], done)
    w = REC
    REC = None
    return n, points, tuple(done), len({x[0] for x in w})


def chunk(item):
    n = w = 0
    out = []
    outcomes = set()
    keys = 0
    for hist, cut in item:
        try:
            k, points, done, d = history(hist, cut)
            n += 1
            w += k
            keys = max(keys, d)
            outcomes.add(tuple(x[0] + (x[-1] if x[-1] in ('refused', 'crash', 'fail', 'exit') else '') for x in done))
        except Violation as v:
            out.append((v.sig, v.detail, {'hist': repr(hist), 'cut': repr(cut)}))
            if len(out) > 2:
                break
    return n, w, keys, sorted(outcomes), out


def mkfs_twice(rep):
    '''Two file systems with the same passphrase have nothing in common'''
    global REC
    install()
    both = []
    mks = []
    for _ in range(2):
        REC = []
        r, st, out = c28.command(State(), ('mkfs', POOL[0]))
        m = re.search('---BEGIN MASTER KEY---(.*)---END MASTER KEY---', out, re.S)
        mks.append(base64.b64decode(re.sub(r'\s', '', m.group(1))))
        both.append(REC)
        judge(REC, mks[-1], ['mkfs'])
    if mks[0] == mks[1]:
        rep.violation('two file systems with the same master key', '', {'mkfs': 1})
    if len(mks[0]) < 32 or len(set(mks[0])) < 8:
        rep.violation('master key is not random', '', {'mkfs': 1})
    for x in both[0]:
        for y in both[1]:
            if x[1] == y[1] and len(x[1]) >= 12:
                rep.violation('objects of two file systems are equal', f'{x[0]} {y[0]}', {'mkfs': 1})


def run(rep, tier):
    q = tier == 'quick'
    try:
        mkfs_twice(rep)
        base()
    except Violation as v:
        rep.violation(v.sig, v.detail, {'mkfs': 1})
        return
    N = len(actions(POOL[0], ''))
    items = []
    depth = 2 if q else 3
    for d in range(1, depth + 1):
        items += [(h, None) for h in itertools.product(range(N), repeat=d)]
    if q:
        # and what may follow a session with each kind of command in between
        items += [((i, j, k), None) for i in (0, 2) for j in (5, 6, 8, 9) for k in (1, 4, 5)]
    # interruptions: number of points of every action after a session
    cuts = []
    for i in range(N):
        try:
            _, points, _, _ = history((1, i))
        except Violation as v:
            rep.violation(v.sig, v.detail, {'hist': repr((1, i)), 'cut': 'None'})
            continue
        for p in range(points[1]):
            for how in ('crash', 'fail'):
                for after in ((5,), (6, 5)) if q else ((5,), (6, 5), (7, 5), (5, 2), (9, 5)):
                    cuts.append(((1, i) + after, (1, how, p)))
    items += cuts
    chunks = [items[i : i + 6] for i in range(0, len(items), 6)]
    n = w = 0
    keys = 0
    outcomes = set()
    cap = False
    try:
        for _, (k, x, ks, oc, vs) in pmap(chunk, chunks, wall=110 if q else 6000):
            n += k
            w += x
            keys = max(keys, ks)
            outcomes |= set(oc)
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    rep.coverage.update({
        'states': n,
        'transitions': w,
        'traces_validated_against_impl': n,
        'distinct_outcomes': len(outcomes),
        'samples': [' '.join(o) for o in sorted(outcomes)[:: max(1, len(outcomes) // 8)]][:8],
        'parts': {'histories': n, 'interrupted': len(cuts), 'objects_examined': w, 'largest_number_of_objects': keys},
        'exhaustive': not cap,
        'rule': f'every history of up to {depth} commands; every interruption of every command after a session, followed by recovery',
    })


def replay(data):
    if 'mkfs' in data:
        class R:
            bad = []

            def violation(self, *a):
                self.bad.append(a)

        r = R()
        try:
            mkfs_twice(r)
            base()
        except Violation as v:
            r.bad.append((v.sig, v.detail))
        print(r.bad)
        return 1 if r.bad else 0
    try:
        print(history(ast.literal_eval(data['hist']), ast.literal_eval(data['cut'])))
    except Violation as v:
        print(v.sig, v.detail, sep='\n')
        return 1
    return 0
