'''C30: s3ql_verify reports exactly the missing and corrupted objects.'''
import ast
import atexit
import hashlib
import io
import itertools
import os


from mc import bc, hosts, world
from mc.explore import Violation, explore, pmap, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql import verify as verify_mod
from s3ql.authinfo import CompressSpec
from s3ql.backends.comprenc import AsyncComprencBackend

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of every combination of damage to a small set of objects (encrypted/compressed/plain) with every range, checked by the real verification pipeline on the real encryption layer; all schedules of its workers within a deviation bound; the real command for exit code and output files'
NOTE = (
    'Three to four objects with gaps in their numbers; damage kinds: missing, payload flipped (first/middle/last byte), truncated, emptied, extended, metadata removed or '
    'changed, replaced by another object, replaced by an unencrypted object, valid object with other content (same/shorter/longer); all combinations, metadata-only and full mode, '
    'every starting position; one to four workers.'
)

IDS = [2, 3, 7, 11]
BLOCKS = {2: b'first block ' * 5, 3: b'second', 7: b'', 11: b'fourth' * 40}
PASS = b'secret'


def key(i):
    return 's3ql_data_%d' % i


def flip(buf, n):
    b = bytearray(buf)
    b[n] ^= 1
    return bytes(b)


class Fixture:
    '''Pristine and damaged raw versions of every object'''

    def __init__(self, pw, compress):
        self.pw, self.compress = pw, compress
        self.variants = {}
        self.raw = self.build(BLOCKS)
        other = self.build({i: bytes(b ^ 1 for b in v) or b'x' for i, v in BLOCKS.items()})
        short = self.build({i: v[: len(v) // 2] for i, v in BLOCKS.items()})
        long_ = self.build({i: v + b'more' for i, v in BLOCKS.items()})
        plain = Fixture.build(self, BLOCKS, None, 'none') if pw else None
        for i in IDS:
            data, meta = self.raw[key(i)]
            # name -> (raw object, found by metadata check)
            v = {'ok': ((data, meta), None), 'missing': (None, 'missing')}
            m = dict(meta)
            del m['format_version']
            v['no format version'] = ((data, m), 'meta')
            m = dict(meta)
            del m['data']
            v['no metadata'] = ((data, m), 'meta')
            if pw:
                m = dict(meta)
                m['signature'] = flip(meta['signature'], 0)
                v['metadata signature'] = ((data, m), 'meta')
                m = dict(meta)
                m['data'] = flip(meta['data'], -1)
                v['metadata changed'] = ((data, m), 'meta')
                v['other object'] = (self.raw[key(IDS[(IDS.index(i) + 1) % len(IDS)])], 'meta')
                v['not encrypted'] = (plain[key(i)], 'meta')
            if data:
                v['first byte'] = ((flip(data, 0), meta), 'data')
                v['middle byte'] = ((flip(data, len(data) // 2), meta), 'data')
                v['last byte'] = ((flip(data, -1), meta), 'data')
                v['truncated'] = ((data[:-1], meta), 'data')
                v['empty'] = ((b'', meta), 'data')
            v['extended'] = ((data + b'\0', meta), 'data')
            v['other content'] = (other[key(i)], 'data')
            if len(BLOCKS[i]) > 1:
                v['shorter content'] = (short[key(i)], 'data')
            v['longer content'] = (long_[key(i)], 'data')
            # damage that does not change anything is no damage
            self.variants[i] = {n: x for n, x in v.items() if n == 'ok' or x[0] != (data, meta)}

    def build(self, blocks, pw=-1, compress=None):
        pw = self.pw if pw == -1 else pw
        raw = world.RawMemBackend()
        raw.points = False

        async def fill():
            be = await AsyncComprencBackend.create(pw, CompressSpec.parse(compress or self.compress), raw)
            for i, b in blocks.items():
                await be.write_fh(key(i), io.BytesIO(b), len(b))

        world.run_sync_trio(fill)
        return {k: (raw.data[k], raw.meta[k]) for k in raw.data}


FIX = {'encrypted': (PASS, 'none'), 'encrypted zlib': (PASS, 'zlib-6'), 'plain': (None, 'none'), 'plain lzma': (None, 'lzma-2')}
_fix = {}
_db = {}


def fixture(name):
    if name not in _fix:
        _fix[name] = Fixture(*FIX[name])
    return _fix[name]


def database():
    if _db.get('pid') != os.getpid():
        _db['pid'] = os.getpid()
        _db['dir'] = world.workdir()
        db = _db['db'] = world.new_db(_db['dir'])
        for i, b in BLOCKS.items():
            db.execute(
                'INSERT INTO objects (id, hash, refcount, phys_size, length) VALUES(?,?,1,?,?)',
                (i, hashlib.sha256(b).digest(), len(b), len(b)),
            )
    return _db['db']


def expected(fx, combo, full, offset):
    missing, corrupted = [], []
    for i, n in zip(IDS[offset:], combo[offset:]):
        how = fx.variants[i][n][1]
        if how == 'missing':
            missing.append(key(i))
        elif how == 'meta' or (how == 'data' and full):
            corrupted.append(key(i))
    return missing, corrupted


async def verify(fx, combo, full, offset, workers, points=True):
    raw = world.RawMemBackend(max_connections=workers)
    raw.points = points
    for i, n in zip(IDS, combo):
        obj = fx.variants[i][n][0]
        if obj is not None:
            raw.data[key(i)], raw.meta[key(i)] = obj
    be = await AsyncComprencBackend.create(fx.pw, CompressSpec.parse(fx.compress), raw)
    cfh, mfh = io.StringIO(), io.StringIO()
    await verify_mod.retrieve_objects(database(), be, cfh, mfh, worker_count=workers, full=full, offset=offset)
    return mfh.getvalue(), cfh.getvalue()


def judge(fx, combo, full, offset, res):
    if isinstance(res, BaseException):
        return 'verification aborts: ' + type(bc.leaf(res)).__name__, repr(bc.leaf(res))
    m, c = expected(fx, combo, full, offset)
    for what, exp, got in (('missing', m, res[0]), ('corrupted', c, res[1])):
        ls = got.splitlines()
        if got and not got.endswith('\n'):
            return 'incomplete line', repr(got)
        if sorted(ls) != sorted(exp):
            lack = [k for k in exp if k not in ls]
            return (f'{what} object not reported' if lack else f'object wrongly reported as {what}'), f'expected {exp}, got {ls}'
    return None


def chunk(item):
    name, n_obj, combos = item
    fx = fixture(name)
    out = []
    n = 0
    for combo in combos:
        for full, offset in itertools.product((False, True), range(len(IDS) + 2)):
            n += 1

            async def main():
                return await verify(fx, combo, full, offset, 1 + n % 2, points=False)

            try:
                res = world.run_sync_trio(main)
            except Exception as exc:
                res = exc
            r = judge(fx, combo, full, offset, res)
            if r:
                out.append((r[0], f'{name}, {combo}, full={full}, offset={offset}: {r[1]}', dict(fix=name, combo=combo, full=full, offset=offset)))
    return n, out


def combos(name, tier):
    '''All combinations for the first three objects; the fourth (and, quick: kinds equivalent to others) undamaged or missing'''
    fx = fixture(name)
    kinds = [list(fx.variants[i]) for i in IDS]
    if tier == 'quick':
        # every pair of kinds on every pair of objects, plus all combinations of representative kinds
        rep = ['ok', 'missing', 'no metadata', 'last byte', 'other content']
        seen = set()
        for c in itertools.product(*[[k for k in rep if k in ks] for ks in kinds]):
            seen.add(c)
            yield c
        for a, b in itertools.combinations(range(len(IDS)), 2):
            for x, y in itertools.product(kinds[a], kinds[b]):
                c = ['ok'] * len(IDS)
                c[a], c[b] = x, y
                if tuple(c) not in seen:
                    seen.add(tuple(c))
                    yield tuple(c)
    else:
        yield from itertools.product(*kinds[:3], ('ok', 'missing', 'other content'))


# -- schedules

def configs(tier):
    cs = []
    dam = [('ok', 'missing', 'ok', 'ok'), ('other content', 'ok', 'longer content', 'missing'), ('missing', 'no metadata', 'missing', 'last byte'), ('shorter content', 'shorter content', 'extended', 'truncated')]
    for name in ('encrypted', 'plain'):
        for i, combo in enumerate(dam):
            combo = tuple(k if k in fixture(name).variants[o] else 'missing' for o, k in zip(IDS, combo))
            for full, workers, off in ((True, 2, 0), (False, 2, 0), (True, 3, 1), (True, 4, 0), (False, 3, 2)):
                cs.append((f'{name} {i} full={full} workers={workers} offset={off}', dict(fix=name, combo=combo, full=full, workers=workers, offset=off)))
    return cs


def harness(cfg, ch):
    fx = fixture(cfg['fix'])
    database()

    async def main(ctl):
        ctl.active = True
        return await verify(fx, cfg['combo'], cfg['full'], cfg['offset'], cfg['workers'])

    try:
        res = run_controlled(main, ch, max_steps=4000, threads='split')
    except (Deadlock, StepLimit) as exc:
        raise Violation('verification hangs', repr(exc)) from None
    except Violation:
        raise
    except Exception as exc:
        res = exc
    r = judge(fx, cfg['combo'], cfg['full'], cfg['offset'], res)
    if r:
        raise Violation(r[0], f'{cfg}: {r[1]}')
    return res


# -- the command itself

FILES = [b'one!', b'two two two', b'3']


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


def image():
    '''State of a real file system with three data objects'''
    if 'st' not in _db:
        _, st = hosts.Run(hosts.State(), 'A').execute(hosts.mkfs)

        async def body(run):
            for n, buf in enumerate(FILES):
                fi, attr = await run.ops.create(1, b'f%d' % n, 0o100644, os.O_RDWR, Ctx)
                await run.ops.write(fi.fh, 0, buf)
                await run.ops.release(fi.fh)

        r, st = hosts.Run(st, 'A').execute(hosts.mount, body)
        if r.status != 'ok':
            raise Violation('cannot mount', f'{r.status} {r.error}')
        _db['st'] = st
        _db['keys'] = sorted((k for k in st.data if k.startswith('s3ql_data_')), key=lambda k: int(k[10:]))
    return _db['st'], _db['keys']


def command(item):
    '''Run s3ql_verify; -> (n, violations)'''
    dam, full, offset, present, host = item
    st, keys = image()
    st = st.clone()
    exp = {'missing': [], 'corrupted': []}
    for i, (k, d) in enumerate(zip(keys, dam)):
        if d == 'missing':
            del st.data[k], st.meta[k]
        elif d == 'metadata':
            st.meta[k] = dict(st.meta[k], format_version=9)
        elif d == 'content':
            st.data[k] = flip(st.data[k], 0)
        if i >= offset:
            if d == 'missing':
                exp['missing'].append(k)
            elif d == 'metadata' or (d == 'content' and full):
                exp['corrupted'].append(k)
    out = world.workdir()
    names = {w: os.path.join(out, w + '.txt') for w in exp}
    for w, c in zip(('missing', 'corrupted'), present):
        if c is not None:
            with open(names[w], 'w') as fh:
                fh.write(c)
    try:

        at_exit = []
        saved = atexit.register, getattr(verify_mod, 'setup_logging', None)
        atexit.register = lambda f, *a, **kw: (at_exit.append((f, a, kw)), f)[1]
        if saved[1]:
            verify_mod.setup_logging = lambda *a, **kw: None

        def fn(run):
            verify_mod.verify(hosts.URL, authfile=hosts.authfile(), cachedir=run.dir, max_threads=1, missing_file=names['missing'], corrupted_file=names['corrupted'], data=full, start_with=offset)

        try:
            res, post = hosts.Run(st, host).execute(fn)
        finally:
            atexit.register = saved[0]
            if saved[1]:
                verify_mod.setup_logging = saved[1]
        for f, a, kw in reversed(at_exit):
            f(*a, **kw)
        got = {}
        for w, p in names.items():
            got[w] = None
            if os.path.exists(p):
                with open(p) as fh:
                    got[w] = fh.read()
    finally:
        world.rmdir(out)
    ctx = f'damage {dam}, full={full}, start-with={offset}, existing files {present}, host {host}'
    data = {'command': repr(item)}
    if post.data != st.data:
        return 1, [('verification changes the backend', ctx, data)]
    if any(present):
        if res.status in ('ok', 'exit') and res.code != 46 and res.status == 'ok':
            return 1, [('existing report not respected', f'{ctx}: {res.status}', data)]
        for w, c in zip(('missing', 'corrupted'), present):
            if c and got[w] != c:
                return 1, [('existing report overwritten', f'{ctx}: {got[w]!r}', data)]
        return 1, []
    bad = exp['missing'] or exp['corrupted']
    if bad:
        if (res.status, res.code) != ('exit', 46):
            return 1, [('damage does not give exit code 46', f'{ctx}: {res.status} {res.code} {res.error}', data)]
        for w in exp:
            if sorted((got[w] or '').splitlines()) != sorted(exp[w]):
                return 1, [(f'wrong list of {w} objects', f'{ctx}: {got[w]!r}, expected {exp[w]}', data)]
    else:
        if res.status != 'ok':
            return 1, [('undamaged file system reported', f'{ctx}: {res.status} {res.code} {res.error}', data)]
        if any(got[w] for w in exp):
            return 1, [('report although there is no damage', f'{ctx}: {got}', data)]
    return 1, []


def commands(tier):
    for dam in itertools.product(('ok', 'missing', 'metadata', 'content'), repeat=3):
        for full in (False, True):
            for offset in range(5):
                yield dam, full, offset, (None, None), 'A'
    for dam in itertools.product(('ok', 'missing'), repeat=3):
        for host in 'AB':
            for present in itertools.product((None, '', 'old\n'), repeat=2):
                yield dam, True, 0, present, host


def run(rep, tier):
    q = tier == 'quick'
    items = []
    for name in FIX:
        cs = list(combos(name, tier))
        items += [(name, len(IDS), cs[i : i + 40]) for i in range(0, len(cs), 40)]
    n = nc = 0
    cap = False
    try:
        for it, (k, vs) in pmap(chunk, items, wall=70 if q else 3000):
            n += k
            nc += len(it[2])
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    image()
    ncmd = 0
    try:
        for _, (k, vs) in pmap(command, list(commands(tier)), wall=60 if q else 1000):
            ncmd += k
            for sig, detail, data in vs:
                rep.violation(sig, detail, data)
    except TimeoutError:
        cap = True
    st = explore(harness, configs(tier), {'sched': 3 if q else 4}, wall=60 if q else 3000, check_determinism=True, stop_on_violation=False)
    rep.add_stats('schedules', st)
    c = rep.coverage
    c['traces_validated_against_impl'] += n + ncmd
    c['states'] += nc
    c['parts']['combinations'] = {'damage combinations': nc, 'runs': n, 'runs of the command': ncmd, 'capped': cap}
    c['exhaustive'] = c.get('exhaustive', True) and not cap
    c['rule'] = 'every listed combination of damage with every starting position, both modes; every schedule of 2-4 workers with at most %d deviations for %d configurations' % (3 if q else 4, len(configs(tier)))


def replay(data):
    if 'command' in data:
        r = command(ast.literal_eval(data['command']))[1]
        print(r)
        return 1 if r else 0
    if 'config' in data:
        cfg = dict(configs('thorough'))[data['config']]
        ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
        print(viol.sig if viol else f'no violation; {out}')
        return 1 if viol else 0
    fx = fixture(data['fix'])

    async def main():
        return await verify(fx, data['combo'], data['full'], data['offset'], 1, points=False)

    try:
        res = world.run_sync_trio(main)
    except Exception as exc:
        res = exc
    r = judge(fx, data['combo'], data['full'], data['offset'], res)
    print(r)
    return 1 if r else 0
