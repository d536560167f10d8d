'''Crash images of a whole mounted file system: every operation of an alphabet is executed after every path of
operations on the real stack; an image (committed metadata, cache files, backend objects) is taken after every
statement, file operation and backend request of the last operation, the real fsck recovers it, and the tree is
compared with the reference model before and after the operation.'''
import ast
import hashlib
import os
import stat
import sys
import time
import traceback

import trio

from mc import fsmc, fsmodel, world
from mc.explore import Violation, pmap
from mc.fsmc import BLOCK

_EVENTS = frozenset(
    'write writelines truncate ftruncate unlink remove rename replace link execute executemany close flush fsync pwrite'.split()
)
_checked = {}
_PLAN = None


class Recorder:
    '''Takes an image after every C call that may change persistent state'''

    def __init__(self, env):
        self.env = env
        self.images = {}
        self.rows = None
        self.points = 0

    def snap(self):
        env = self.env
        if env.db.conn.getautocommit():
            self.rows = world.dump(env.db)
        files = []
        p = env.cache.path
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                with open(os.path.join(p, f), 'rb') as fh:
                    files.append((f, fh.read()))
        self.points += 1
        key = (tuple(sorted(self.rows.items())), tuple(files), tuple(sorted(env.be.data.items())))
        self.images.setdefault(key, self.points)

    def _profile(self, frame, event, arg):
        if event == 'c_return' and getattr(arg, '__name__', '') in _EVENTS:
            if frame.f_code.co_filename == __file__ or frame.f_code.co_filename == world.__file__:
                return
            sys.setprofile(None)
            try:
                self.snap()
            finally:
                sys.setprofile(self._profile)

    def start(self):
        self.snap()
        sys.setprofile(self._profile)

    def stop(self):
        sys.setprofile(None)
        self.snap()


def attrs(n):
    return (n.mode, n.uid, n.gid, n.size)


def expectation(pre, post, synced):
    '''What recovery has to preserve. Hashable.

    per inode: (ino, in_pre, in_post, format, entries before, entries after, contents before and after, symlink
    target, xattrs or None, attributes or None)'''
    res = []
    inos = {}
    for m, w in ((pre, 0), (post, 1)):
        for nid in m.live():
            n = m.nodes[nid]
            if n.ino is not None:
                inos.setdefault(n.ino, [None, None])[w] = n
    open_unlinked = {n.ino for m in (pre, post) for n in m.nodes.values() if n.nlink == 0 and n.ino is not None}

    def entries(m, n):
        if n is None:
            return ()
        return tuple(sorted((m.nodes[p].ino, nm) for p, nm in m.parents(n.nid)))

    for ino in sorted(inos):
        a, b = inos[ino]
        n = b or a
        xa = tuple(tuple(sorted(q.xattrs.items())) if q else () for q in (a, b))
        at = None
        s = synced.get(ino)
        if a is not None and b is not None and attrs(a) == attrs(b) == s and a.content == b.content:
            at = s
        res.append(
            (ino, a is not None, b is not None, stat.S_IFMT(n.mode), entries(pre, a), entries(post, b),
             a.content if a else b'', b.content if b else b'', n.target, xa, at, n.nid in (0, 1), n.rdev)
        )  # fmt: skip
    return tuple(res), tuple(sorted(open_unlinked))


def check_image(key, exp, copy_target=None):
    from s3ql.fsck import Fsck

    rows, files, be = key
    rows = dict(rows)
    d = world.workdir()
    db = world.new_db(d)
    try:
        world.restore(db, rows)
        cd = os.path.join(d, 'cache')
        os.mkdir(cd)
        for f, data in files:
            with open(os.path.join(cd, f), 'wb') as fh:
                fh.write(data)
        backend = world.MemBackend()
        backend.points = False
        backend.data = dict(be)
        backend.meta = {k: {} for k in backend.data}
        def show():
            return '\n'.join(
                [f'{t}: {r}' for t, r in sorted(rows.items())] + [f'cache files: {files}', f'backend: {be}']
            )

        for again in (False, True):
            fsck = Fsck(cd, backend, world.fsck_params(), db)
            try:
                world.run_sync_trio(fsck.check)
            except Exception as exc:
                e = fsmc.first_leaf(exc)
                tb = ''.join(traceback.format_exception(e)[-3:])
                return (f'fsck fails after crash: {type(e).__name__}', f'{e}\n{tb}\n{show()}')
            if again and fsck.found_errors:
                return ('second fsck after crash still finds errors', show())
        errs = world.check_db(db, backend, BLOCK)
        if errs:
            return ('inconsistent after crash and fsck', '\n'.join(errs) + '\n' + show())
        r = compare(db, backend, exp, copy_target)
        if r is not None:
            return (r[0], f'{r[1]}\n{show()}')
        return None
    finally:
        db.conn.close()
        world.rmdir(d)


def compare(db, backend, exp, copy_target):
    nodes, open_unlinked = exp
    inodes = {
        r[0]: r[1:] for r in db.query('SELECT id,mode,uid,gid,size,rdev FROM inodes')
    }
    ents = {}
    for ino, name, par in db.query(
        'SELECT inode,name,parent_inode FROM contents JOIN names ON names.id=name_id'
    ):
        ents.setdefault(ino, set()).add((par, name))
    lf = [i for i, s in ents.items() if (1, b'lost+found') in s]
    lf = lf[0] if lf else None
    known = {2}
    for ino, in_pre, in_post, fmt, e0, e1, c0, c1, target, xa, at, special, rdev in nodes:
        known.add(ino)
        have = inodes.get(ino)
        if have is None:
            if in_pre and in_post:
                return ('an existing file or directory is lost after crash and fsck', f'inode {ino} {e0}')
            continue
        if stat.S_IFMT(have[0]) != fmt or (have[4] or 0) != rdev:
            return ('file type changed after crash and fsck', f'inode {ino}: {have}')
        es = ents.get(ino, set())
        if not special and not (copy_target is not None and not in_pre):
            if in_pre and in_post and e0 == e1:
                if es != set(e0):
                    return ('directory entries changed after crash and fsck', f'inode {ino}: {sorted(es)}, expected {e0}')
            else:
                spare = lf if not (in_pre and in_post) else None
                bad = {e for e in es if e not in e0 and e not in e1 and (spare is None or e[0] != spare)}
                if bad:
                    return ('unexpected directory entry after crash and fsck', f'inode {ino}: {bad}, allowed {e0} {e1}')
                if in_pre and in_post:
                    lost = (set(e0) & set(e1)) - es
                    if lost or not es:
                        return ('directory entry lost after crash and fsck', f'inode {ino}: {lost}')
        if target is not None:
            r = db.get_list('SELECT target FROM symlink_targets WHERE inode=?', (ino,))
            t = r[0][0] if r else None
            if t != target and in_pre:
                return ('symlink target lost after crash and fsck', f'inode {ino}: {t!r}, expected {target!r}')
        if not (copy_target is not None and not in_pre):
            x = set(db.get_list(
                'SELECT name,value FROM ext_attributes JOIN names ON names.id=name_id WHERE inode=?', (ino,)))
            both = {n for n, _ in xa[0]} & {n for n, _ in xa[1]} if in_pre and in_post else set()
            if not x <= set(xa[0]) | set(xa[1]) or not both <= {n for n, _ in x}:
                return ('extended attributes lost after crash and fsck', f'inode {ino}: {x}, expected {xa}')
        if at is not None and not special and have[:4] != at:
            return ('stored attributes lost after crash and fsck', f'inode {ino}: {have[:4]}, expected {at}')
        if fmt == stat.S_IFREG:
            size = have[3]
            buf = bytearray(size)
            for b in {r[0] for r in db.query('SELECT blockno FROM inode_blocks WHERE inode=?', (ino,))}:
                v = world.read_block(db, backend, ino, b)
                if v == 'LOST':
                    return ('completed write lost after crash and fsck', f'inode {ino} block {b}: object missing')
                buf[b * BLOCK : b * BLOCK + len(v)] = v
            ln = max(size, len(c0), len(c1))
            z = b'\0' * ln
            got, p, q = ((bytes(x) + z)[:ln] for x in (buf, c0, c1))
            if not in_pre:
                p = z[:ln]
            elif not in_post:
                q = z[:ln]
            for i in range(ln):
                if got[i] != p[i] and got[i] != q[i]:
                    return (
                        'completed write lost after crash and fsck' if not got[i] else 'wrong file content after crash and fsck',
                        f'inode {ino}: {bytes(buf)!r}, expected {c0!r} or {c1!r}',
                    )
    for ino in inodes:
        if ino in known:
            continue
        es = ents.get(ino, set())
        if ino in open_unlinked:
            bad = {e for e in es if e[0] != lf}
        else:
            bad = {e for e in es if copy_target is None} or (set() if copy_target is not None else {None})
        if bad:
            return ('removed or unknown inode appears after crash and fsck', f'inode {ino}: {sorted(es)} {inodes[ino]}')
    return None


async def run_path(setup, path, op, max_entries=100):
    env = fsmc.Env(max_entries)
    m = fsmodel.Model()
    synced = {}
    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            for o in tuple(setup) + tuple(path):
                await env.step(m, o, check=False)
                await env.drain()
                if o[0] == 'copy':
                    await env.compare(m, 'after copy', data=False)
                track(m, o, synced)
            pre = m.clone()
            rec = Recorder(env)
            rec.start()
            try:
                await env.step(m, op, check=False)
                await env.drain()
            finally:
                rec.stop()
            if op[0] == 'copy':
                await env.compare(m, 'after copy', data=False)
            post = m.clone()
            done = {}
            s2 = dict(synced)
            track(m, op, s2)
            # what the completed operation promises; the last image was taken after it
            last = list(rec.images)[-1]
            done[last] = expectation(post, post, s2)
            env.images = {k: [expectation(pre, post, synced)] + ([done[k]] if k in done else []) for k in rec.images}
            env.points_seen = rec.points
            n = env
        finally:
            await env.close()
        nursery.cancel_scope.cancel()
    return n.images, n.points_seen


def track(m, o, synced):
    if o[0] in ('drop', 'flush'):
        for n in m.nodes.values():
            if n.ino is not None:
                synced[n.ino] = attrs(n)
    elif o[0] == 'fsync':
        synced[m.nodes[o[1]].ino] = attrs(m.nodes[o[1]])


def judge(setup, path, op, max_entries=100):
    '''Raises Violation; returns (crash points, images, images checked anew)'''
    images, points = fsmc.trio_run(run_path, setup, path, op, max_entries)
    new = 0
    for key, exps in images.items():
        for exp in exps:
            ct = op if op[0] == 'copy' and exp is exps[0] else None
            dg = hashlib.md5(repr((key, exp, ct is not None)).encode()).digest()
            if dg not in _checked:
                new += 1
                _checked[dg] = check_image(key, exp, ct)
            if _checked[dg] is not None:
                sig, detail = _checked[dg]
                raise Violation(sig, f'{detail}\nexpected: {exp}')
    return points, len(images), new


def _item(item):
    setup, path, max_entries = item
    s = _PLAN.setups[setup]
    from mc.fsbfs import model_at

    base = model_at(s + path)
    tot = [0, 0, 0, 0]
    viols = []
    nxt = []
    for op in _PLAN.alphabet(base, setup, path):
        m = base.clone()
        x = m.apply(op)
        if x.errnos:
            continue
        tot[3] += 1
        try:
            for i, v in enumerate(judge(s, path, op, max_entries)):
                tot[i] += v
        except Violation as v:
            if len(viols) < 5:
                viols.append((v.sig, f'{v.detail}\nsetup {s}\npath {path}\noperation {op}, cache entries {max_entries}',
                              repr((setup, path, op, max_entries))))
        nxt.append(op)
    return tot, viols, nxt


class Plan:
    def __init__(self, setups, alphabet, depth, entries=(100,)):
        self.setups = dict(setups)
        self.alphabet = alphabet
        self.depth = depth
        self.entries = entries


def explore_crashes(rep, plan, wall, name='file_system'):
    global _PLAN
    _PLAN = plan
    t0 = time.time()
    frontier = [(s, (), e) for s in plan.setups for e in plan.entries]
    tot = [0, 0, 0, 0]
    capped = False
    viols = 0
    levels = []
    for depth in range(plan.depth):
        levels.append(len(frontier))
        nxt = []
        left = wall - (time.time() - t0)
        if left < 1:
            capped = True
            break
        try:
            for item, (t, vs, ops) in pmap(_item, frontier, wall=left):
                tot = [a + b for a, b in zip(tot, t)]
                for sig, detail, data in vs:
                    viols += bool(rep.violation(sig, detail, {'fscrash': data}))
                nxt += [(item[0], item[1] + (op,), item[2]) for op in ops]
                if viols > 20:
                    break
        except TimeoutError:
            capped = True
        if viols or capped:
            break
        frontier = sorted(nxt, key=repr)
    rep.coverage.setdefault('parts', {})[name] = {
        'operation_sequences': tot[3], 'crash_points': tot[0], 'images': tot[1],
        'images_recovered_by_fsck': tot[2], 'paths_per_level': levels, 'capped': capped,
    }  # fmt: skip
    rep.coverage['exhaustive'] = rep.coverage.get('exhaustive', True) and not capped and not viols
    return tot


def replay(plans, data):
    setup, path, op, entries = ast.literal_eval(data['fscrash'])
    plan = next(p for p in plans.values() if setup in p.setups)
    try:
        judge(plan.setups[setup], path, op, entries)
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
