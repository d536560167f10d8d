'''C15: all histories of mount, unmount, crash, fsck on several hosts sharing a backend.'''
import ast
import hashlib
import os
import pickle
import re
import time
import zlib

import apsw
import pyfuse3
import trio

from mc import fsmc, hosts, world
from mc.explore import Violation, pmap
from mc.hosts import Run, State
from s3ql.common import thaw_basic_mapping

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over histories of the real mkfs, mount, fsck and metadata upload code on several hosts, with a crash or a permanent backend failure at every backend write, metadata read and local parameter update'
NOTE = (
    'Every command from every distinct state up to the stated depth, on two (thorough: three) hosts sharing one in-memory backend; power loss or backend failure '
    'at every point of every command within the crash budget. Only the kernel side (pyfuse3 main loop) is replaced. Crashes keep what '
    'was written to local files (process crash).'
)
ROOT = 1
SHARED = b'shared'  # overwritten by several sessions; may be lost when a session is given up
HIDDEN = {b'lost+found', SHARED}


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


# ---- independent decoding of what is stored
def params_of(raw):
    # objects of the unencrypted, uncompressed storage layer hold the plain serialization
    return thaw_basic_mapping(raw)


BLK = re.compile('^s3ql_metadata_([0-9a-f]{12})_([0-9a-f]+)$')
PAR = re.compile('^s3ql_params_([0-9a-f]+)$')


def names_in_db(files):
    '''Names in the root directory of a database given as {suffix: bytes}; None if unreadable'''
    d = world.workdir()
    try:
        for sfx, b in files.items():
            with open(os.path.join(d, 'x.db' + sfx), 'wb') as fh:
                fh.write(b)
        try:
            c = apsw.Connection(os.path.join(d, 'x.db'))
            try:
                cur = c.cursor()
                if next(cur.execute('PRAGMA integrity_check'))[0] != 'ok':
                    return None
                return frozenset(bytes(r[0]) for r in cur.execute('SELECT name FROM contents_v WHERE parent_inode=1')) - HIDDEN
            finally:
                c.close()
        except apsw.Error:
            return None
    finally:
        world.rmdir(d)


def assemble(data, p):
    '''Database bytes of the snapshot with parameters *p*, None if it cannot be restored'''
    best = {}
    for k in data:
        m = BLK.match(k)
        if m:
            b, s = int(m.group(1), 16), int(m.group(2), 16)
            if s <= p['seq_no'] and s > best.get(b, -1):
                best[b] = s
    size, bs = p['db_size'], p['metadata_block_size']
    out = bytearray(size)
    for b in range((size + bs - 1) // bs):
        if b not in best:
            return None
        blk = data['s3ql_metadata_%012x_%010x' % (b, best[b])]
        out[b * bs : b * bs + len(blk)] = blk
    del out[size:]
    if hashlib.sha256(out).hexdigest() != p['db_md5']:
        return None
    return bytes(out)


_cache = {}


def snapshot_names(data, p):
    raw = assemble(data, p)
    if raw is None:
        return None
    h = hashlib.md5(raw).digest()
    if h not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        _cache[h] = names_in_db({'': raw})
    return _cache[h]


def local_view(files):
    par = [v for k, v in files.items() if k.endswith('.params')]
    db = {k[k.rindex('.db') + 3 :]: v for k, v in files.items() if '.db' in k and not k.endswith('/') and '-cache' not in k}
    p = params_of(par[0]) if par else None
    h = hashlib.md5(repr(sorted(db.items())).encode()).digest()
    if h not in _cache:
        # the shared memory file is rebuilt from the log
        _cache[h] = names_in_db({k: v for k, v in db.items() if k in ('', '-wal')}) if '' in db else frozenset({b'!missing'})
    return p, _cache[h], bool(db.get('-wal')), any('-cache/' in k and not k.endswith('/') for k in files), any(k.endswith('-cache/') for k in files)


class Model:
    '''What has to hold: see check()'''

    def __init__(self):
        self.must = frozenset()  # names that completed sessions have left
        self.full = frozenset()  # those of them whose contents must be intact
        self.shared = None  # content of the common file, None if not known
        self.pshared = None  # the same after the session that did not complete
        self.pfull = frozenset()
        self.maybe = frozenset()  # names of a session that is being given up
        self.pending = None  # (host, names, reached main) of the session that did not complete
        self.max_seq = 0
        self.n = 0
        self.last_host = 'A'

    def clone(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        return m


def remote(st):
    raw = st.data.get('s3ql_params')
    return params_of(raw) if raw else None


def canon(st, m):
    r = remote(st)
    base = m.max_seq
    sets = {'must': m.must, 'full': m.full, 'maybe': m.maybe, 'pfull': m.pfull if m.pending else frozenset(), 'pend': m.pending[1] if m.pending else frozenset()}
    out = [('remote', r['seq_no'] - base, r['is_mounted'], r['needs_fsck'])]
    sets['remote'] = snapshot_names(st.data, r)
    if sets['remote'] is None:
        out.append('remote-bad')
        sets['remote'] = frozenset()
    seqs = sorted(int(PAR.match(k).group(1), 16) for k in st.data if PAR.match(k))
    out.append(tuple((s - base, params_of(st.data['s3ql_params_%010x' % s])['is_mounted']) for s in seqs[-2:]))
    for h in sorted(st.files):
        p, names, wal, cf, cd = local_view(st.files[h])
        out.append((h, p and (p['seq_no'] - base, p['is_mounted'], p['needs_fsck'], p == r), names is None, wal, cf, cd))
        sets[h] = names or frozenset()
    allm = frozenset().union(*sets.values())
    keys = sorted(sets)
    vec = frozenset(tuple(x in sets[k] for k in keys) for x in allm)
    return repr((out, sorted(vec), m.pending and (m.pending[0], m.pending[2], m.pshared is None), m.last_host, m.shared is None))


# ---- sessions
async def idle(run):
    for _ in range(20):
        await trio.sleep(1)


def content(name):
    return b'content of ' + name


def body_for(kind, name, m):
    async def work(run):
        db = run.ops.db
        run.res.info['start'] = frozenset(bytes(r[0]) for r in db.query('SELECT name FROM contents_v WHERE parent_inode=1')) - HIDDEN
        run.res.info['seq'] = params_of(run.be.data['s3ql_params'])['seq_no']
        run.res.info['names'] = run.res.info['start']
        run.res.info['shared'] = m.shared if m.pending is None else m.pshared
        await check_contents(run)
        if kind == 'mount':
            return
        await add(run, name)
        if kind == 'work':
            run.res.info['shared'] = None
            await put(run, SHARED, content(name))
            run.res.info['shared'] = content(name)
            run.point('work', '')
        if kind == 'upload':
            seq = params_of(run.be.data['s3ql_params'])['seq_no']

            async def during(key):
                # the file system stays in use while the next sequence number is published
                if key == 's3ql_params_%010x' % (seq + 1):
                    run.during = None
                    await add(run, name + b'y')

            run.during = during
            await run.ops.setxattr(pyfuse3.ROOT_INODE + 1, b'upload-meta', b'dummy', Ctx())
            for _ in range(1000):
                await trio.sleep(1)
                if params_of(run.be.data['s3ql_params'])['seq_no'] > seq:
                    break
            await idle(run)
            await add(run, name + b'x')

    async def add(run, nm):
        await put(run, nm, content(nm))
        run.res.info['names'] |= {nm}
        run.point('work', '')

    async def put(run, nm, data):
        ops = run.ops
        fi, at = await ops.create(ROOT, nm, 0o100644, os.O_RDWR | os.O_CREAT | os.O_TRUNC, Ctx())
        await ops.write(fi.fh, 0, data)
        await ops.flush(fi.fh)
        await ops.release(fi.fh)
        await ops.forget([(at.st_ino, 1)])

    async def check_contents(run):
        ops = run.ops
        want = {n: content(n) for n in (m.pfull if m.pending else m.full)}
        if run.res.info['shared'] is not None:
            want[SHARED] = run.res.info['shared']
        if not want.keys() - {SHARED} <= run.res.info['start']:
            return  # reported by the caller
        for nm, data in sorted(want.items()):
            try:
                at = await ops.lookup(ROOT, nm, Ctx())
                fi = await ops.open(at.st_ino, os.O_RDONLY, Ctx())
                got = await ops.read(fi.fh, 0, 1000)
                await ops.release(fi.fh)
                await ops.forget([(at.st_ino, 1)])
            except pyfuse3.FUSEError as exc:
                got = repr(exc)
            if got != data:
                raise Violation('content of a file written by a completed or recovered session is lost', f'{nm}: {got}, expected {data}')

    return work


def command(action):
    def fn(run):
        if action in ('mount', 'work', 'upload'):
            # leaves blocks in the cache that the next session of another host may turn stale
            hosts.mount(run, keep_cache=action == 'work')
        elif action == 'nfsfail':

            def init(*a):
                raise RuntimeError('fuse: device not found')

            pyfuse3.init = init
            hosts.mount(run, nfs=True)
        elif action == 'fsck':
            hosts.fsck(run)
        elif action == 'force':
            hosts.fsck(run, force=True, keep_cache=True)
        elif action == 'remote':
            hosts.fsck(run, force_remote=True)

    return fn


def session(st, m, host, action, crash_at=None, fail_at=None):
    '''Run one command; returns (state, model, result). Raises Violation.'''
    m = m.clone()
    m.n += 1
    name = b'm%d' % m.n
    before = remote(st)
    r = Run(st, host, crash_at, fail_at)
    res, new = r.execute(command(action), body_for(action, name, m) if action in ('mount', 'work', 'upload') else None)
    after = remote(new)
    published = m.pending is None or (not before['is_mounted'] and not before['needs_fsck'] and before['seq_no'] >= m.pending[3])
    if res.status == 'error':
        raise Violation(f'{"fsck" if action in ("fsck", "force", "remote") else "mount"} fails with {res.code}', res.error)
    if after['seq_no'] < before['seq_no']:
        raise Violation('sequence number of the backend decreased', f'{before["seq_no"]} -> {after["seq_no"]}')
    fsck = action in ('fsck', 'force', 'remote')
    if res.reached_main and 'start' in res.info:
        lost = m.must - res.info['start']
        if lost:
            raise Violation('mounted metadata lacks changes of completed sessions', f'{lost}')
        if m.pending is not None and m.pending[2]:
            if not published:
                raise Violation('mounted although the last session did not end cleanly', f'{m.pending}')
            if m.pending[1] - res.info['start']:
                raise Violation('mounted metadata lacks changes of the last session', f'{m.pending}')
        if res.info['seq'] <= m.max_seq:
            raise Violation('session does not get a new sequence number', f'{res.info["seq"]}, seen {m.max_seq}')
        if m.pending is not None:
            m.must |= m.pending[1]
            m.full = m.pfull
            m.shared = m.pshared
        m.pending = None
        if res.info['start'] != m.must:
            raise Violation('mounted metadata has changes that had been given up', f'{res.info["start"] - m.must}')
    keeps = m.pending is not None and (action != 'remote' or m.pending[0] == host or published)
    known = m.must | (m.pending[1] if keeps else frozenset())
    if res.status == 'ok' and r.failed and after['needs_fsck']:
        res.status = 'fail'  # noticed, and the file system is marked accordingly
    if res.status in ('ok', 'exit'):
        if fsck and res.status == 'ok':
            # marked as clean; nothing done
            pass
        elif fsck or res.reached_main:
            if res.status == 'exit' and res.code not in (0, 128, None):
                raise Violation('unexpected exit code', f'{res.code}')
            got = snapshot_names(new.data, after)
            if after['is_mounted'] or after['needs_fsck']:
                raise Violation('file system is not marked as clean after completion', f'{after}')
            if got is None:
                raise Violation('metadata in the backend cannot be restored after completion', '')
            want = known | (res.info.get('names', frozenset()) if not fsck else frozenset())
            if want - got:
                raise Violation('metadata in the backend lacks changes after completion', f'{want - got}')
            if action != 'remote' and got - want - m.maybe:
                raise Violation('changes that had been given up are back', f'{got - want - m.maybe}')
            m.maybe = frozenset()
            if after['seq_no'] <= m.max_seq:
                raise Violation('session does not get a new sequence number', f'{after["seq_no"]}, seen {m.max_seq}')
            m.must = want if not fsck else got
            if not fsck:
                m.full |= res.info['names'] - res.info['start']
                m.shared = res.info['shared']
            elif keeps:
                m.full = m.pfull
                m.shared = m.pshared
            elif m.pending is not None:
                m.shared = None
            m.pending = None
            m.max_seq = after['seq_no']
    elif res.status in ('crash', 'fail'):
        if res.reached_main:
            m.pending = (host, m.must | res.info.get('names', frozenset()), True, res.info.get('seq', after['seq_no']))
            m.pfull = m.full | (res.info['names'] - res.info['start'] if 'names' in res.info else frozenset())
            m.pshared = res.info.get('shared', m.shared)
        elif m.pending is None and after != before:
            m.pending = (host, m.must, False, after['seq_no'])
            m.pfull = m.full
            m.pshared = m.shared
        m.last_host = host
        if not after['is_mounted']:
            # what a clean superblock refers to has to be there
            got = snapshot_names(new.data, after)
            if got is None:
                raise Violation('backend is marked as clean, but the metadata cannot be restored', f'{after}')
            if known - got and not (action == 'remote'):
                raise Violation('backend is marked as clean, but lacks changes', f'{known - got}')
        if res.reached_main or after['seq_no'] > before['seq_no']:
            m.max_seq = max(m.max_seq, before['seq_no'])
        if action == 'remote' and after['seq_no'] > before['seq_no']:
            # the user has given up the unfinished session
            m.maybe |= m.pending[1] if m.pending else frozenset()
            m.pending = (host, m.must, False, after['seq_no'])
            m.pfull = m.full
            m.pshared = None
    # the last completed state is always available
    ok = any(m.must <= (snapshot_names(new.data, p) or frozenset()) for p in [params_of(new.data[k]) for k in sorted(new.data, reverse=True) if PAR.match(k) or k == 's3ql_params'] if not p['is_mounted'])
    if not ok:
        raise Violation('no restorable snapshot of the completed sessions is left', '')
    return new, m, res


def recover(st, m, host):
    '''After whatever happened the user can check and mount again'''
    crashed = m.pending[0] if m.pending else m.last_host
    s2, m2, res = session(st, m, host, 'fsck')
    if res.status == 'refused':
        if host == crashed and m.pending is not None and m.pending[2]:
            raise Violation('fsck refuses to check on the host that crashed', res.error)
        s2, m2, res = session(s2, m2, host, 'remote')
        if res.status == 'refused':
            raise Violation('file system can not be checked', res.error)
    s3, m3, res = session(s2, m2, host, 'mount')
    if not res.reached_main:
        raise Violation('file system can not be mounted after it has been checked', f'{res.error}')


CFG = {}


def initial():
    r = Run(State(), 'A')
    res, st = r.execute(hosts.mkfs)
    if res.status != 'ok':
        raise Violation('mkfs fails', f'{res.error}')
    m = Model()
    m.max_seq = remote(st)['seq_no']
    for h in CFG['hosts']:
        st.files.setdefault(h, {})
    return st, m


def pack(st, m):
    return zlib.compress(pickle.dumps((st, m)), 1)


def expand(item):
    '''All successors of one state'''
    blob, path, crashes, last = item
    st, m = pickle.loads(zlib.decompress(blob))
    succ = []
    viols = []
    n = 0

    def attempt(action, host, crash, fail):
        nonlocal n
        n += 1
        step = (host, action, crash, fail)
        try:
            s2, m2, res = session(st, m, host, action, crash, fail)
            return s2, m2, res, step
        except Violation as v:
            viols.append((v.sig, str(v.detail), path + (step,)))
            return None

    if last:
        for host in CFG['hosts']:
            try:
                n += 2
                recover(st, m, host)
            except Violation as v:
                viols.append((v.sig, str(v.detail), path + ('recover ' + host,)))
        return succ, n, viols
    acts = [(h, a) for h in CFG['hosts'] for a in CFG['actions']]
    for host, action in acts:
        x = attempt(action, host, None, None)
        if x is None:
            continue
        s2, m2, res, step = x
        succ.append((hashlib.md5(canon(s2, m2).encode()).digest(), pack(s2, m2), path + (step,), crashes))
        if crashes >= CFG['crashes']:
            continue
        for kind in CFG['faults']:
            seen = set()
            for i in range(res.points):
                if kind == 'fail' and not res.labels[i].startswith(('write', 'delete', 'read')):
                    continue
                y = attempt(action, host, i if kind == 'crash' else None, i if kind == 'fail' else None)
                if y is None:
                    continue
                s3, m3, r3, step3 = y
                c = hashlib.md5(canon(s3, m3).encode()).digest()
                if c not in seen:
                    seen.add(c)
                    succ.append((c, pack(s3, m3), path + (step3,), crashes + 1))
    return succ, n, viols[:6]


def run(rep, tier):
    t = tier == 'thorough'
    CFG.update(
        hosts=('A', 'B', 'C') if t else ('A', 'B'),
        actions=('mount', 'work', 'upload', 'nfsfail', 'fsck', 'force', 'remote'),
        crashes=3 if t else 2,
        faults=('crash', 'fail'),
        depth=5 if t else 3,
    )
    wall = 6000 if t else 130
    t0 = time.time()
    fsmc.install()
    st, m = initial()
    seen = {hashlib.md5(canon(st, m).encode()).digest()}
    frontier = [(pack(st, m), (), 0)]
    trans = 0
    levels = []
    capped = False
    samples = []
    progress = []
    for depth in range(CFG['depth'] + 1):
        levels.append(len(frontier))
        last = depth == CFG['depth']
        nxt = []
        nv = 0
        done = {True: 0, False: 0}
        progress.append(done)
        left = wall - (time.time() - t0)
        if left < 1:
            capped = True
            break
        # first of all: from every state the file system can be recovered
        todo = [f + (True,) for f in frontier]
        if not last:
            todo += [f + (False,) for f in frontier]
        try:
            for item, (succ, n, viols) in pmap(expand, todo, wall=left):
                trans += n
                done[item[3]] += 1
                for sig, detail, path in viols:
                    nv += bool(rep.violation(sig, f'{detail}\nhistory {path}', {'path': repr(path), 'hosts': CFG['hosts']}))
                for c, blob, path, cr in succ:
                    if c not in seen:
                        seen.add(c)
                        nxt.append((blob, path, cr))
                        if len(samples) < 4 and depth == 1 and len(nxt) % 37 == 0:
                            samples.append(repr(path))
                if nv > 10:
                    break
        except TimeoutError:
            capped = True
        frontier = sorted(nxt, key=lambda x: repr(x[1]))
        if nv or capped:
            break
    c = rep.coverage
    c['states'] = len(seen)
    c['transitions'] = trans
    c['traces_validated_against_impl'] = trans
    c['samples'] = samples
    c['states_per_level'] = levels
    c['recovered_and_expanded_per_level'] = [(d[True], d[False]) for d in progress]
    c['hosts'] = CFG['hosts']
    c['crash_budget'] = CFG['crashes']
    c['exhaustive'] = not capped and not nv
    c['rule'] = 'every command on every host from every distinct state, with a crash and with a permanent backend failure at every point; from every state the recovery fsck + mount'


def replay(data):
    CFG.update(hosts=tuple(data['hosts']))
    fsmc.install()
    st, m = initial()
    try:
        for step in ast.literal_eval(data['path']):
            if step[0] == 'r':
                print(step)
                recover(st, m, step.split()[1])
            else:
                host, action, crash, fail = step
                st, m, res = session(st, m, host, action, crash, fail)
                print(step, res.status, res.code, res.where or '')
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
