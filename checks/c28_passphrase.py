'''C28: passphrase change, key recovery, creation and deletion of file systems, interrupted anywhere.'''
import ast
import base64
import contextlib
import io
import os
import re
import sys

import trio

from mc import hosts, world
from mc.explore import Violation, pmap
from mc.hosts import Run, State
from s3ql import adm as adm_mod
from s3ql.authinfo import Authinfo, CompressSpec
from s3ql.backends import open_backend
from s3ql.backends.comprenc import AsyncComprencBackend

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over the states of the four key objects, with the real mkfs, s3qladm passphrase, recover-key and clear commands, a power loss or permanent backend failure at every backend modification of each; every state is opened with every passphrase'
NOTE = (
    'Three passphrases (ASCII, non-ASCII, with blanks); search until no new assignment of passphrases to key copies appears; key objects also missing or '
    'corrupted; interrupted mkfs/clear followed by every kind of mkfs. In-memory backend with atomic objects.'
)

POOL = ['alpha', 'b\xe4ta \u20ac', 'gamma  delta']
KEYS = ['s3ql_passphrase', 's3ql_passphrase_bak1', 's3ql_passphrase_bak2', 's3ql_passphrase_bak3']


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


def authfile(pw):
    n = 'none' if pw is None else POOL.index(pw)
    p = os.path.join(world.SCRATCH, f'authinfo-{os.getpid()}-{n}')
    if not os.path.exists(p):
        with open(os.open(p, os.O_CREAT | os.O_WRONLY, 0o600), 'w', encoding='utf-8') as fh:
            fh.write('[mem]\nstorage-url: mem://\ncompress: none\n')
            if pw is not None:
                fh.write(f'fs-passphrase: {pw}\n')
    return p


@contextlib.contextmanager
def console(text):
    '''-> what is printed; *text* is typed'''
    out = io.StringIO()
    saved = sys.stdin, getattr(adm_mod, 'setup_logging', None)
    sys.stdin = io.StringIO(text)
    if saved[1]:
        adm_mod.setup_logging = lambda *a, **kw: None
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        sys.stdin = saved[0]
        if saved[1]:
            adm_mod.setup_logging = saved[1]


def command(st, what, crash_at=None, fail_at=None, host='A'):
    '''Run a command; *what*: ('mkfs', pw or None) | ('passphrase', old, new) | ('recover', masterkey, new) | ('clear',)
    -> result, new state, output'''
    r = Run(st, host, crash_at=crash_at, fail_at=fail_at)
    box = []

    def fn(run):
        if what[0] == 'mkfs':
            from s3ql.mkfs import mkfs

            text = '' if what[1] is None else what[1] + '\n'
            with console(text) as out:
                box.append(out)
                mkfs(hosts.URL, authfile=authfile(None), cachedir=run.dir, plain=what[1] is None, metadata_block_size=16)
            return
        old, cmd, text = {
            'passphrase': lambda: (what[1], 'passphrase', what[2] + '\n'),
            'recover': lambda: (None, 'recover-key', what[1] + '\n' + what[2] + '\n'),
            'clear': lambda: (None, 'clear', 'yes\n'),
        }[what[0]]()
        with console(text) as out:
            box.append(out)
            adm_mod.main(['--authfile', authfile(old), '--cachedir', run.dir, '--max-threads', '1', cmd, hosts.URL])

    res, post = r.execute(fn)
    return res, post, box[0].getvalue() if box else ''


async def _fetch(be, key, pw):
    cb = await AsyncComprencBackend.create(pw, CompressSpec.parse('none'), be)
    return (await cb.fetch(key))[0]


def raw_backend(st):
    be = world.RawMemBackend()
    be.points = False
    be.data, be.meta = dict(st.data), {k: dict(v) for k, v in st.meta.items()}
    return be


def holder(st, key):
    '''Passphrase that unlocks this key object and what is in it; (None, why) if there is none'''
    if key not in st.data:
        return None, 'missing'
    be = raw_backend(st)
    for pw in POOL:

        async def main(pw=pw):
            return await _fetch(be, key, pw.encode())

        try:
            return pw, world.run_sync_trio(main)
        except Exception:
            pass
    return None, 'unreadable'


def opens(st, pw):
    '''Open the file system like every command does and read everything; -> None | why not'''
    r = Run(st, 'B')
    n = []

    def fn(run):
        async def main():
            be = await open_backend(hosts.URL, Authinfo.from_file(authfile(pw), hosts.URL), compress=CompressSpec.parse('none'))
            keys = [k async for k in be.list() if not k.startswith('s3ql_passphrase')]
            for k in keys:
                await be.fetch(k)
            n.extend(keys)
            await be.close()

        trio.run(main)

    with console(''):
        res, post = r.execute(fn)
    if res.status == 'ok':
        return None
    return f'{res.status} {res.code} {res.error}'


def mountable(st, pw, names=None, host='B'):
    seen = []

    async def body(run):
        db = run.ops.db
        seen.extend(bytes(r[0]) for r in db.query('SELECT name FROM contents_v WHERE parent_inode=1'))

    from s3ql.mount import mount

    def fn(run):
        mount(hosts.URL, '/tmp', authfile=authfile(pw), cachedir=run.dir, fg=True, compress='none', cachesize=1000, max_cache_entries=20, metadata_backup_interval=0, max_threads=1)

    with console(''):
        res, post = Run(st, host).execute(fn, body)
    if res.status != 'ok':
        return f'{res.status} {res.code} {res.error}'
    if names is not None and not names <= set(seen):
        return f'names {seen}'
    return None


_base = {}


def base():
    '''An encrypted file system with a file; -> state, master key'''
    if 'st' not in _base:
        r, st, out = command(State(), ('mkfs', POOL[0]))
        if r.status != 'ok':
            raise Violation('mkfs fails', f'{r.status} {r.code} {r.error}')
        m = re.search('---BEGIN MASTER KEY---(.*)---END MASTER KEY---', out, re.S)
        if not m:
            raise Violation('mkfs does not show the master key', out)
        text = m.group(1).strip()
        mk = base64.b64decode(re.sub(r'\s', '', text))

        async def body(run):
            fi, attr = await run.ops.create(1, b'file', 0o100644, os.O_RDWR, Ctx)
            await run.ops.write(fi.fh, 0, b'some data')
            await run.ops.release(fi.fh)

        from s3ql.mount import mount

        def fn(run):
            mount(hosts.URL, '/tmp', authfile=authfile(POOL[0]), cachedir=run.dir, fg=True, compress='none', cachesize=1000, max_cache_entries=20, metadata_backup_interval=0, max_threads=1)

        with console(''):
            res, st = Run(st, 'A').execute(fn, body)
        if res.status != 'ok':
            raise Violation('new file system cannot be mounted', f'{res.status} {res.code} {res.error}')
        _base.update(st=st, mk=mk, text=text)
    return _base['st'], _base['mk'], _base['text']


def canon(st):
    return tuple(holder(st, k)[0] for k in KEYS)


def build(c):
    '''State with the given passphrases of the key objects (None: missing, '!': corrupted)'''
    st, mk, _ = base()
    st = st.clone()
    be = raw_backend(st)

    async def main():
        for k, pw in zip(KEYS, c):
            if pw is None:
                await be.delete(k)
            elif pw == '!':
                be.data[k] = bytes(b ^ 1 for b in be.data[k])
            else:
                cb = await AsyncComprencBackend.create(pw.encode(), CompressSpec.parse('none'), be)
                await cb.store(k, mk)

    world.run_sync_trio(main)
    st.data, st.meta = be.data, be.meta
    return st


def faults(st, what):
    '''Runs of a command: undisturbed, then interrupted at every point'''
    yield None, None
    r, _, _ = command(st, what)
    for i in range(r.points):
        yield i, None
    for i in range(r.points):
        yield None, i


def step(item):
    '''All commands on one assignment of passphrases'''
    c, acts = item
    _, mk, text = base()
    st = build(c)
    out, succ, n = [], [], 0

    def bad(sig, detail, *w):
        out.append((sig, f'key copies {c}, {w}: {detail}', repr((c, w))))

    for what in acts:
        if what[0] == 'recover':
            what = ('recover', text if len(what) == 2 else what[2], what[1])
        for crash_at, fail_at in faults(st, what):
            res, post, _ = command(st, what, crash_at, fail_at)
            n += 1
            w = (what, crash_at, fail_at, res.where)
            others = lambda s: {k: (v, s.meta[k]) for k, v in s.data.items() if k not in KEYS}  # noqa: E731
            if others(post) != others(st):
                bad('other objects changed', '', *w)
                continue
            now = [holder(post, k) for k in KEYS]
            allowed_to_run = what[0] == 'recover' or c[0] == what[1]
            if not allowed_to_run:
                if res.status not in ('refused', 'exit', 'crash', 'fail'):
                    bad('wrong passphrase not refused', f'{res.status} {res.error}', *w)
                if post.data != st.data:
                    bad('refused command changes key objects', f'{[x[0] for x in now]}', *w)
                continue
            if what[0] == 'recover' and what[1] != text:
                if post.data != st.data:
                    bad('malformed master key accepted', f'{[x[0] for x in now]}', *w)
                continue
            new = what[2]
            for k, old, (pw, val) in zip(KEYS, c, now):
                if pw is None and (old is None or old == '!'):
                    continue
                if pw not in (old, new):
                    bad('key copy has neither the old nor the new passphrase' if pw else 'key copy lost', f'{k}: {old!r} -> {pw!r} {val!r}', *w)
                elif val != mk:
                    bad('key copy does not hold the master key', f'{k} {val!r}', *w)
            if res.status == 'ok':
                if crash_at is not None or (fail_at is not None and res.where):
                    bad('interrupted command reports success', '', *w)
                if {pw for pw, _ in now} != {new}:
                    bad('old passphrase still in use after completion', f'{[x[0] for x in now]}', *w)
                why = opens(post, new)
                if why:
                    bad('file system cannot be opened with the new passphrase', why, *w)
                for pw in POOL:
                    if pw != new and opens(post, pw) is None:
                        bad('file system opens with another passphrase', repr(pw), *w)
            elif crash_at is None and fail_at is None:
                bad('command fails', f'{res.status} {res.code} {res.error}', *w)
            else:
                good = [pw for pw in POOL if pw in (c[0], new) and opens(post, pw) is None]
                if not good and c[0] not in (None, '!'):
                    bad('neither passphrase opens the file system', f'{[x[0] for x in now]}', *w)
            succ.append(tuple(pw if pw else ('!' if k in post.data else None) for k, (pw, _) in zip(KEYS, now)))
    return n, out, sorted(set(succ), key=repr)


def actions(tier):
    a = [('passphrase', o, n) for o in POOL for n in POOL]
    a += [('recover', n) for n in POOL]
    a += [('recover', POOL[1], bad) for bad in ('', 'AAAA', 'not base64!', base64.b64encode(b'x' * 31).decode(), base64.b64encode(b'x' * 33).decode())]
    return a


# -- creation and deletion

def create_step(item):
    '''An interrupted first command, then a second one (also interrupted), then a third without interruption'''
    first, second, third, crash1 = item
    out = []
    n = 0

    def bad(sig, detail, *w):
        out.append((sig, f'{w}: {detail}', repr(('create', item))))

    st0, _, _ = base() if first[0] == 'clear' else (State(), None, None)
    r1, st1, _ = command(st0, first, crash_at=crash1)
    n += 1
    pts = [None] if second is None else [None, *range(command(st1, second)[0].points)]
    for c2 in pts:
        hist = [(first, r1.status, r1.where)]
        st = st1
        done = r1.status == 'ok' and first
        if second is not None:
            r2, st, _ = command(st1, second, crash_at=c2)
            n += 1
            hist.append((second, r2.status, r2.where))
            if c2 is None and r2.status == 'error':
                bad('command fails', f'{r2.error}', *hist)
                continue
            if r2.status == 'ok':
                done = second
            elif second[0] == 'clear':
                done = None
        # the third one has to work or to refuse because there is a file system
        r3, st3, o3 = command(st, third)
        n += 1
        hist.append((third, r3.status, r3.error))
        if third[0] == 'clear':
            if r3.status != 'ok' or st3.data:
                bad('clear leaves something behind', f'{r3.status} {sorted(st3.data)}', *hist)
            continue
        if r3.status == 'ok':
            why = mountable(st3, third[1], {b'lost+found'})
            if why:
                bad('new file system cannot be used', why, *hist)
            for pw in POOL:
                if pw != third[1] and third[1] is not None and mountable(st3, pw) is None:
                    bad('new file system opens with another passphrase', repr(pw), *hist)
            if third[1] is not None:
                m = re.search('---BEGIN MASTER KEY---(.*)---END MASTER KEY---', o3, re.S)
                mk = base64.b64decode(re.sub(r'\s', '', m.group(1))) if m else None
                for k in KEYS:
                    if holder(st3, k) != (third[1], mk):
                        bad('key copy is wrong after creation', f'{k} {holder(st3, k)}', *hist)
        elif r3.status == 'refused':
            if st3.data != st.data:
                bad('refused creation changes objects', '', *hist)
            if not st.data:
                bad('creation refused without a file system', f'{r3.error}', *hist)
            elif done and done[0] == 'mkfs':
                why = mountable(st, done[1], {b'lost+found'})
                if why:
                    bad('completed file system cannot be used', why, *hist)
        else:
            bad('command fails', f'{r3.status} {r3.error}', *hist)
    return n, out


def create_items(tier):
    kinds = [('mkfs', None), ('mkfs', POOL[0]), ('mkfs', POOL[1])]
    p = {k: command(State(), k)[0].points for k in kinds}
    for a in kinds:
        for c1 in [*range(p[a]), None]:
            for t in kinds + [('clear',)]:
                yield a, None, t, c1
            for b in kinds + [('clear',)]:
                for t in kinds:
                    yield a, b, t, c1
    st, _, _ = base()
    for c1 in [*range(command(st, ('clear',))[0].points), None]:
        for t in kinds + [('clear',)]:
            yield ('clear',), None, t, c1
        for t in kinds:
            yield ('clear',), ('clear',), t, c1


def run(rep, tier):
    q = tier == 'quick'
    st, mk, text = base()
    for pw in POOL:
        why = opens(st, pw)
        if (why is None) != (pw == POOL[0]):
            rep.violation('new file system and passphrase', f'{pw!r}: {why}', {'item': 'base'})
    why = mountable(st, POOL[0], {b'file'})
    if why:
        rep.violation('file system cannot be mounted', why, {'item': 'base'})
    acts = actions(tier)
    start = [canon(st), (None, *canon(st)[1:]), ('!', *canon(st)[1:]), (None,) * 4, ('!',) * 4, (POOL[0], '!', None, POOL[1])]
    seen = set(start)
    front = start
    runs = 0
    capped = False
    depth = 0
    seen_sig = set()

    def note(vs):
        for sig, detail, data in vs:
            if sig not in seen_sig:
                seen_sig.add(sig)
                rep.violation(sig, detail, {'item': data})

    try:
        while front:
            nxt = set()
            items = [(c, acts[i : i + 6]) for c in front for i in range(0, len(acts), 6)]
            for _, (n, vs, succ) in pmap(step, items, wall=60 if q else 2500):
                runs += n
                note(vs)
                nxt |= set(succ) - seen
            seen |= nxt
            front = sorted(nxt, key=repr)
            depth += 1
    except TimeoutError:
        capped = True
    ncreate = 0
    try:
        for _, (n, vs) in pmap(create_step, list(create_items(tier)), wall=60 if q else 2500):
            ncreate += n
            note(vs)
    except TimeoutError:
        capped = True
    c = rep.coverage
    c['states'] = len(seen)
    c['transitions'] = runs + ncreate
    c['traces_validated_against_impl'] = runs + ncreate
    c['exhaustive'] = not capped and not front
    c['parts'] = {'key states': len(seen), 'left to explore': len(front), 'depth': depth, 'runs of passphrase/recover-key': runs, 'runs of mkfs/clear': ncreate, 'capped': capped}
    c['samples'] = [repr(s) for s in sorted(seen, key=repr)[:4]]
    c['rule'] = (
        'every command (all pairs of passphrases, recovery with right and malformed keys) from every state of the four key objects reached within '
        + (f'{depth} commands' if front else 'any number of commands')
        + ', uninterrupted and with power loss or failure at every point; all histories of up to two interrupted mkfs/clear followed by an undisturbed one'
    )


def replay(data):
    if data['item'] == 'base':
        st, _, _ = base()
        print([(pw, opens(st, pw)) for pw in POOL], mountable(st, POOL[0], {b'file'}))
        return 1
    it = ast.literal_eval(data['item'])
    if it[0] == 'create':
        r = create_step(it[1])[1]
    else:
        r = step((it[0], actions('quick')))[1]
    for x in r[:5]:
        print(x[:2])
    return 1 if r else 0
