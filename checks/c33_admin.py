'''C33: metadata restore, file system upgrade and database compaction, interrupted anywhere.'''
import ast
import hashlib
import os
import pickle
import time
import zlib

import pyfuse3
import trio

from checks.c15_protocol import PAR, SHARED, params_of, remote, snapshot_names
from checks.c28_passphrase import console
from mc import fsmc, hosts, world
from mc.explore import Violation, pmap
from mc.hosts import Run, State
from s3ql import adm as adm_mod
from s3ql.authinfo import Authinfo, CompressSpec
from s3ql.backends import open_backend
from s3ql.common import freeze_basic_mapping, thaw_basic_mapping

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of histories of the real s3qladm restore-metadata, upgrade and shrink-db commands with mount and fsck on two hosts, with a power loss or a permanent backend failure at every backend modification, metadata read and local file replacement; after every history the file system is recovered and its files compared with the completed sessions'
NOTE = (
    'Set-ups: three completed sessions (with and without files kept in the cache, and with a last session that crashed), and a file system of the previous '
    'revision. Every available snapshot is restored. In-memory backend with atomic objects; crashes keep what was written to local files.'
)
ROOT = 1
HOSTS = ('A', 'B')
OLDREV = adm_mod.CURRENT_FS_REV - 1
CFG = {}


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


def fname(k):
    return b'm%d' % k


def content(k):
    return b'content of %d' % k


EMPTY = (frozenset(), None)  # (numbers of the files, number of the session that last wrote the common file)


class Model:
    def __init__(self):
        self.alts = frozenset([EMPTY])  # what the file system may contain
        self.alive = frozenset()  # sessions whose data objects are still there
        self.snaps = {}  # seq -> state
        self.definite = frozenset()
        self.restored = {}  # host -> (states that fsck has to commit there)
        self.dirty = {}  # host -> states that are only there (last session crashed)
        self.n = 0
        self.fmt = 'new'
        self.base = frozenset()  # what remains if the crashed session is given up

    def clone(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        m.snaps = dict(self.snaps)
        m.restored = dict(self.restored)
        m.dirty = dict(self.dirty)
        return m


def adm(run, args, text=''):
    with console(text) as out:
        try:
            adm_mod.main(['--authfile', hosts.authfile(), '--cachedir', run.dir, '--max-threads', '1', args, hosts.URL])
        finally:
            run.res.info['out'] = out.getvalue()


def local_params(st, host):
    raw = [v for f, v in st.files[host].items() if f.endswith('.params')]
    return thaw_basic_mapping(raw[0]) if raw else None


def seqs(st):
    return sorted(int(PAR.match(k).group(1), 16) for k in st.data if PAR.match(k))


async def read_all(run):
    '''-> {name: content or error}'''
    ops = run.ops
    out = {}
    for (nm,) in ops.db.get_list('SELECT name FROM contents_v WHERE parent_inode=1'):
        nm = bytes(nm)
        if nm == b'lost+found':
            continue
        try:
            at = await ops.lookup(ROOT, nm, Ctx())
            fi = await ops.open(at.st_ino, os.O_RDONLY, Ctx())
            out[nm] = bytes(await ops.read(fi.fh, 0, 1000))
            await ops.release(fi.fh)
            await ops.forget([(at.st_ino, 1)])
        except pyfuse3.FUSEError as exc:
            out[nm] = exc.errno
    return out


async def put(run, nm, data):
    ops = run.ops
    fi, at = await ops.create(ROOT, nm, 0o100644, os.O_RDWR | os.O_CREAT | os.O_TRUNC, Ctx())
    await ops.write(fi.fh, 0, data)
    await ops.flush(fi.fh)
    await ops.release(fi.fh)
    await ops.forget([(at.st_ino, 1)])


def matches(files, state, alive):
    '''None | why *files* is not this state of the file system'''
    nos, last = state
    want = {fname(k) for k in nos}
    names = set(files) - {SHARED}
    if names - want:
        return f'files {names - want} do not belong there'
    for k in sorted(nos & alive):
        if files.get(fname(k)) != content(k):
            return f'{fname(k)} is {files.get(fname(k), "missing")!r}'
    for k in sorted(nos - alive):
        if files.get(fname(k)) not in (None, content(k)) and not isinstance(files[fname(k)], int):
            return f'{fname(k)} is {files[fname(k)]!r}'
    if last is None:
        return f'{SHARED} does not belong there' if SHARED in files else None
    if last in alive:
        if files.get(SHARED) != content(last):
            return f'{SHARED} is {files.get(SHARED, "missing")!r}, expected {content(last)!r}'
    elif files.get(SHARED) not in (None, content(last)) and not isinstance(files[SHARED], int):
        return f'{SHARED} is {files[SHARED]!r}'
    return None


def step(st, m, host, action, crash=None, fail=None):
    '''-> state, model, result. Raises Violation'''
    m = m.clone()
    m.n += 1
    k = m.n
    before = remote(st)
    kind = action[0]
    r = Run(st, host, crash, fail)
    r.res.info['out'] = ''

    async def body(run):
        run.res.info['files'] = await read_all(run)
        if kind == 'work':
            await put(run, fname(k), content(k))
            run.point('work', '')
            await put(run, SHARED, content(k))
            run.point('work', '')

    fn = {
        'mount': lambda run: hosts.mount(run, keep_cache=True),
        'work': lambda run: hosts.mount(run, keep_cache=True),
        'fsck': hosts.fsck,
        'remote': lambda run: hosts.fsck(run, force_remote=True),
        'restore': lambda run: adm(run, 'restore-metadata', '%d\n' % action[1]),
        'shrink': lambda run: adm(run, 'shrink-db'),
        'upgrade': lambda run: adm(run, 'upgrade', 'yes\n'),
    }[kind]
    backups = seqs(st)
    res, new = r.execute(fn, body)
    after = remote(new)
    if res.status == 'error' and not r.failed:
        if kind == 'restore' and snapshot_names(st.data, params_of(st.data['s3ql_params_%010x' % backups[action[1]]])) is None:
            # not a consistent snapshot, and this has been noticed
            res.status = 'fail'
        else:
            raise Violation(f'{kind} fails with {res.code}', res.error)
    if before and (not after or after['seq_no'] < before['seq_no']):
        raise Violation('sequence number of the backend decreased', f'{before} -> {after}')
    done = res.status in ('ok', 'exit') and not (r.failed and after and after['needs_fsck'])
    cut = res.status in ('crash', 'fail') or not done and res.status != 'refused'

    for h in list(m.restored):
        # sessions on other hosts may have made it outdated
        p = local_params(st, h)
        if p is None or p['seq_no'] < (before['seq_no'] if before else 0):
            del m.restored[h]
            m.definite -= {h}
    if m.fmt == 'old' and kind != 'upgrade' and (res.status != 'refused' or new.data != st.data):
        raise Violation(f'{kind} accepts a file system of an older revision', f'{res.status}')


    if kind in ('mount', 'work') and res.reached_main:
        if host in m.definite:
            raise Violation('file system can be mounted although restored metadata has not been checked', '')
        if m.fmt == 'mid':
            m.fmt = 'inuse'
        if host not in m.dirty and m.dirty:
            raise Violation('mounted although the last session did not end cleanly', '')
        if 'files' in res.info:
            files = res.info['files']
            why = {s: matches(files, s, m.alive) for s in m.alts}
            fit = [s for s in why if why[s] is None]
            if not fit:
                raise Violation('mounted file system does not contain what it should', f'{sorted(map(str, why.items()))}')
            m.alts = frozenset(fit)
            if kind == 'work':
                if len(fit) > 1:
                    raise AssertionError('ambiguous')
                (nos, last), = m.alts
                s = (nos | {k}, k)
                m.alive |= {k}
                if done:
                    m.alts = frozenset([s])
                    m.snaps[after['seq_no']] = s
                else:
                    m.base = m.alts
                    m.snaps.setdefault(after['seq_no'], (nos, last))
                    m.dirty = {host: frozenset([s, (nos | {k}, last)]) | m.alts}
                    m.alts = m.dirty[host]
    elif kind in ('fsck', 'remote'):
        exp = set(m.restored[host]) if host in m.restored else set()
        if host not in m.definite:
            exp |= m.alts | m.dirty.get(host, frozenset())
        if kind == 'remote' or host not in m.dirty:
            exp |= m.base
        if res.status == 'ok':
            # marked as clean
            if host in m.definite:
                raise Violation('fsck does not check restored metadata', '')
        elif res.status == 'exit':
            if res.code not in (0, 128):
                raise Violation('fsck fails', f'exit code {res.code}')
            got = snapshot_names(new.data, after)
            if got is None or after['is_mounted'] or after['needs_fsck']:
                raise Violation('no usable metadata in the backend after fsck', f'{after}')
            fit = []
            for s in exp:
                want = {fname(x) for x in s[0] & m.alive}
                if want <= got <= {fname(x) for x in s[0]}:
                    fit.append(s)
            if not fit:
                raise Violation('metadata after fsck does not contain what it should', f'{sorted(got)}; allowed {exp}')
            m.alts = frozenset(fit)
            m.alive &= frozenset().union(*(s[0] for s in fit))
            m.restored.pop(host, None)
            m.definite -= {host}
            m.dirty = {}
            m.base = frozenset()
            m.snaps[after['seq_no']] = fit[0] if len(fit) == 1 else None
        elif cut:
            exp |= m.alts
            m.alts = frozenset(exp)
            if m.dirty:
                # other hosts may find some of the new metadata in the backend
                every = exp | m.base
                m.base = frozenset((a[0], b[1]) for a in every for b in every)
            if host in m.restored:
                keep = frozenset.intersection(*(s[0] for s in exp))
                m.alive &= keep
    elif kind == 'restore':
        seq = backups[action[1]]
        s = m.snaps.get(seq)
        cons = snapshot_names(st.data, params_of(st.data['s3ql_params_%010x' % seq]))
        if new.data != st.data:
            raise Violation('restore-metadata changes the backend before fsck', '')
        if s is not None:
            opts = frozenset([s])
        else:
            # what unclean sessions have left
            nos = frozenset(int(x[1:]) for x in cons or ())
            opts = frozenset((nos, x) for x in nos | {None})
        if done:
            m.restored[host] = opts
            m.definite |= {host}
            if host in m.dirty:
                m.dirty = {}
                m.alts = m.base
        elif cut:
            m.restored[host] = frozenset(opts | m.alts | m.base | m.restored.get(host, frozenset()))
            m.definite -= {host}
            if host in m.dirty and new.files[host] != st.files[host]:
                # the unsaved changes were to be given up anyway
                m.dirty = {}
                m.alts |= m.base
        elif res.status == 'refused':
            raise Violation('restore-metadata refuses to restore', res.error)
    elif kind == 'shrink':
        if done:
            got = snapshot_names(new.data, after)
            (s,) = m.alts if len(m.alts) == 1 else (None,)
            if got is None or after['is_mounted'] or after['needs_fsck']:
                raise Violation('no usable metadata in the backend after shrink-db', f'{after}')
            if host in m.definite:
                raise Violation('shrink-db accepts restored metadata that has not been checked', '')
            if s is not None and not {fname(x) for x in s[0] & m.alive} <= got <= {fname(x) for x in s[0]}:
                raise Violation('files lost by shrink-db', f'{got} expected {s}')
            m.snaps[after['seq_no']] = s
    elif kind == 'upgrade':
        out = res.info['out']
        if done and ('complete' in out or 'already' in out):
            if m.fmt == 'old' or m.fmt == 'mid':
                got = after and snapshot_names(new.data, after)
                (s,) = m.alts
                if got != {fname(x) for x in s[0]}:
                    raise Violation('metadata in the backend lacks files after the upgrade', f'{after} {got}')
            m.fmt = 'new'
            rev = old_revision(new)
            if rev is not None and rev <= OLDREV:
                raise Violation('file system can still be used by the previous version after the upgrade', f'revision {rev}')
        elif cut:
            if m.fmt == 'old':
                m.fmt = 'mid'
        elif m.fmt in ('old', 'mid'):
            raise Violation('upgrade cannot be completed', f'{res.status} {res.code} {out[-300:]}')
    if after and not after['is_mounted'] and not after['needs_fsck'] and not m.fmt == 'old':
        if snapshot_names(new.data, after) is None:
            raise Violation('backend is marked as clean, but the metadata cannot be restored', f'{after}')
    return new, m, res


def recover(st, m, host):
    '''After any history: complete the upgrade, check, mount on both hosts'''
    s, mm = st, m
    if mm.fmt in ('old', 'mid', 'inuse'):
        s, mm, res = step(s, mm, 'A', ('upgrade',))
        if mm.fmt != 'new':
            raise Violation('upgrade cannot be completed', f'{res.status} {res.code} {res.info["out"][-300:]}')
    s, mm, res = step(s, mm, host, ('fsck',))
    if res.status == 'refused':
        if mm.dirty and host not in mm.dirty:
            return  # what is left when the crashed session is given up is checked by C15
        if res.code == 43:
            raise Violation('local metadata is not usable', res.error)
        s, mm, res = step(s, mm, host, ('remote',))
        if res.status == 'refused':
            raise Violation('file system can not be checked', res.error)
    for h in (host, HOSTS[1 - HOSTS.index(host)]):
        s, mm, res = step(s, mm, h, ('mount',))
        if not res.reached_main and not (h in mm.restored):
            raise Violation('file system can not be mounted after it has been checked', f'host {h}: {res.error}')


# ---- previous revision
def old_revision(st):
    from s3ql.backends.comprenc import AsyncComprencBackend

    if 's3ql_metadata' not in st.data:
        return None
    be = world.RawMemBackend()
    be.points = False
    be.data, be.meta = dict(st.data), {k: dict(v) for k, v in st.meta.items()}

    async def main():
        b = await AsyncComprencBackend.create(None, CompressSpec.parse('none'), be)
        return (await b.lookup('s3ql_metadata'))['revision']

    return world.run_sync_trio(main)


def downgrade(run):
    '''Turn it into what the previous revision would have left'''
    p = params_of(run.be.data['s3ql_params'])
    old = {
        'revision': OLDREV, 'seq_no': p['seq_no'], 'label': p['label'], 'max_obj_size': p['data_block_size'], 'needs_fsck': False,
        'inode_gen': p['inode_gen'], 'last_fsck': p['last_fsck'], 'last-modified': p['last_modified'], 'db-md5': 'x',
    }

    async def main():
        be = await open_backend(hosts.URL, Authinfo.from_file(hosts.authfile(), hosts.URL), compress=CompressSpec.parse('none'))
        for key in [x for x in run.be.data if x.startswith(('s3ql_params', 's3ql_metadata'))]:
            await be.delete(key)
        await be.store('s3ql_metadata', b'metadata dump of the previous revision', old)
        await be.close()

    trio.run(main)
    for f in os.listdir(run.dir):
        if f.endswith('.params'):
            with open(os.path.join(run.dir, f), 'wb') as fh:
                fh.write(freeze_basic_mapping(old))


# ---- exploration
def setup(name):
    r = Run(State(), 'A')
    res, st = r.execute(hosts.mkfs)
    if res.status != 'ok':
        raise Violation('mkfs fails', f'{res.error}')
    m = Model()
    m.snaps[remote(st)['seq_no']] = EMPTY
    for h in HOSTS:
        st.files.setdefault(h, {})
    n = 3 if name in ('sessions', 'crashed') else 2
    for i in range(n):
        st, m, res = step(st, m, 'A', ('work',))
        if not res.reached_main or res.status != 'ok':
            raise Violation('file system can not be mounted', f'{res.status} {res.error}')
    if name == 'crashed':
        pts = [i for i, x in enumerate(step(st, m, 'A', ('work',))[2].labels) if x.startswith('work')]
        st, m, res = step(st, m, 'A', ('work',), pts[-1])
    if name == 'other':
        # the local copy of host A is outdated
        st, m, res = step(st, m, 'B', ('work',))
    if name == 'old':
        r = Run(st, 'A')
        res, st = r.execute(downgrade)
        if res.status != 'ok':
            raise AssertionError(f'{res.error}')
        st.files['B'] = {}
        m.fmt = 'old'
        m.snaps = {}
    return st, m


SETUPS = ('sessions', 'crashed', 'other', 'old')


def actions(st, m):
    if m.fmt in ('old', 'mid', 'inuse'):
        yield 'A', ('upgrade',)
        for h in HOSTS:
            yield h, ('work',)
            yield h, ('fsck',)
        return
    n = len(seqs(st))
    for h in HOSTS:
        for i in range(n):
            yield h, ('restore', i)
        yield h, ('work',)
        yield h, ('fsck',)
        yield h, ('shrink',)


def pack(st, m):
    return zlib.compress(pickle.dumps((st, m)), 1)


def canon(st, m, host):
    def params(raw):
        d = thaw_basic_mapping(raw)
        return tuple((x, d.get(x)) for x in ('seq_no', 'is_mounted', 'needs_fsck', 'revision', 'db_md5'))

    out = [host, m.fmt, sorted(map(repr, m.alts)), sorted(m.alive), repr(sorted(m.restored.items())), sorted(m.dirty), sorted(m.definite)]
    for x in sorted(st.data):
        out.append((x, params(st.data[x]) if x.startswith('s3ql_params') else len(st.data[x])))
    for h in sorted(st.files):
        for f, raw in sorted(st.files[h].items()):
            out.append((h, f, params(raw) if f.endswith('.params') else hashlib.md5(raw).hexdigest()))
    return hashlib.md5(repr(out).encode()).hexdigest()


def expand(item):
    blob, path, crashes, last = item
    st, m = pickle.loads(zlib.decompress(blob))
    succ = []
    viols = []
    n = 0
    if last:
        for host in HOSTS:
            n += 1
            try:
                recover(st, m, host)
            except Violation as v:
                viols.append((v.sig, str(v.detail), path + ('recover ' + host,)))
        return succ, n, viols
    for host, act in actions(st, m):
        n += 1
        try:
            s2, m2, res = step(st, m, host, act)
        except Violation as v:
            viols.append((v.sig, str(v.detail), path + ((host, act, None, None),)))
            continue
        succ.append((canon(s2, m2, host), pack(s2, m2), path + ((host, act, None, None),), crashes))
        if crashes >= CFG['crashes'] or act[0] == 'work':
            continue
        seen = set()
        for kind in ('crash', 'fail'):
            for i in range(res.points):
                if kind == 'fail' and not res.labels[i].startswith(('write', 'delete', 'read')):
                    continue
                c, f = (i, None) if kind == 'crash' else (None, i)
                n += 1
                try:
                    s3, m3, r3 = step(st, m, host, act, c, f)
                except Violation as v:
                    viols.append((v.sig, str(v.detail), path + ((host, act, c, f),)))
                    continue
                x = canon(s3, m3, host)
                if x not in seen:
                    seen.add(x)
                    succ.append((x, pack(s3, m3), path + ((host, act, c, f),), crashes + 1))
    return succ, n, viols[:6]


def run(rep, tier):
    t = tier == 'thorough'
    CFG.update(crashes=2 if t else 1, depth=3 if t else 2)
    wall = 6000 if t else 130
    t0 = time.time()
    fsmc.install()
    frontier = []
    seen = set()
    for name in SETUPS:
        st, m = setup(name)
        frontier.append((pack(st, m), (name,), 0))
        seen.add(canon(st, m, 'A'))
    trans = 0
    nv = 0
    levels = []
    samples = []
    capped = False
    for depth in range(CFG['depth'] + 1):
        levels.append(len(frontier))
        last = depth == CFG['depth']
        todo = [f + (True,) for f in frontier] + ([] if last else [f + (False,) for f in frontier])
        nxt = []
        try:
            for item, (succ, n, viols) in pmap(expand, todo, wall=max(1, wall - (time.time() - t0))):
                trans += n
                for sig, detail, path in viols:
                    nv += bool(rep.violation(sig, f'{detail}\nhistory {path}', {'path': repr(path)}))
                for c, blob, path, cr in succ:
                    if c not in seen:
                        seen.add(c)
                        nxt.append((blob, path, cr))
                        if len(samples) < 5 and len(nxt) % 41 == 0:
                            samples.append(repr(path))
                if nv > 10:
                    break
        except TimeoutError:
            capped = True
        if nv or capped:
            break
        frontier = sorted(nxt, key=lambda x: repr(x[1]))
    c = rep.coverage
    c['states'] = len(seen)
    c['transitions'] = trans
    c['traces_validated_against_impl'] = trans
    c['samples'] = samples
    c['states_per_level'] = levels
    c['exhaustive'] = not capped and not nv
    c['rule'] = (
        f'every command from every distinct state up to depth {CFG["depth"]}, at most {CFG["crashes"]} of them interrupted at every point by a power loss '
        'and by a permanent backend failure; from every state: recovery on either host, then a mount on both'
    )


def replay(data):
    fsmc.install()
    path = ast.literal_eval(data['path'])
    st, m = setup(path[0])
    for x in path[1:]:
        try:
            if isinstance(x, str):
                recover(st, m, x.split()[1])
            else:
                st, m, res = step(st, m, x[0], x[1], x[2], x[3])
                print(x, res.status, res.code, res.error and res.error[:300], res.where)
        except Violation as v:
            print(f'VIOLATION reproduced: {v.sig}\n{v.detail}')
            return 1
    print('no violation')
    return 0
