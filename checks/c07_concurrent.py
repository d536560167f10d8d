'''C07: concurrent requests keep data and metadata consistent.'''
import itertools
import os

from mc import fsconc, fsmc, world
from mc.explore import Violation, explore, run_one

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of concurrent FUSE requests on the real Operations/InodeCache/BlockCache/SQLite under a controlled Trio scheduler (deviation-bounded DFS); oracle: brute-force linearization over the reference model, consistency checker at quiescence'
NOTE = (
    'All pairs (selected triples) of requests that a Linux kernel can issue at the same time, several cache states; '
    'requests serialized by VFS locks are not combined.'
)
A, B, C, X = b'a', b'b', b'c', b'user.x'
# dir 2: file 3 (a, 10 bytes), file 4 (b); dir 5: file 6 (c, hard link of 3 as h)
SETUP = (
    ('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAAAAAABB'), ('create', 2, B), ('write', 4, 0, b'CCCC'),
    ('mkdir', 0, B), ('create', 5, C), ('write', 6, 0, b'AAAAAAAA'), ('setxattr', 3, X, b'1'),
)  # fmt: skip

# (name, ops, VFS locks held exclusively)
OPS = [
    ('write0', (('write', 3, 0, b'ww'),), {'w3a'}),
    ('write1', (('write', 3, 9, b'vvvvv'),), {'w3b'}),
    ('write-mid', (('write', 3, 4, b'uu'),), {'w3c'}),
    ('write-far', (('write', 3, 26, b'far'),), {'w3d'}),
    ('write-other', (('write', 6, 0, b'AAAAAAAA'),), {'w6'}),
    ('truncate', (('truncate', 3, 5),), {'w3a', 'w3b', 'w3c', 'w3d', 'i3'}),
    ('truncate0', (('truncate', 3, 0),), {'w3a', 'w3b', 'w3c', 'w3d', 'i3'}),
    ('extend', (('truncate', 4, 20),), {'i4'}),
    ('chmod', (('chmod', 3, 0o600),), {'i3'}),
    ('setxattr', (('setxattr', 3, X, b'22'),), {'i3'}),
    ('unlink', (('unlink', 2, A),), {'d2', 'i3'}),
    ('unlink-forget', (('unlink', 2, B), ('forget', 4)), {'d2', 'i4', 'w4'}),
    ('rename', (('rename', 2, A, 5, B),), {'d2', 'd5'}),
    ('replace', (('rename', 2, B, 2, A),), {'d2', 'i3'}),
    ('replace2', (('rename', 2, A, 5, C),), {'d2', 'd5', 'i6'}),
    ('link', (('link', 3, 5, A),), {'d5', 'i3'}),
    ('create', (('create', 2, C), ('write', '@', 0, b'AAAAAAAA')), {'d2'}),
    ('create5', (('create', 5, A), ('write', '@', 0, b'CCCC'), ('unlink', 5, A)), {'d5'}),
    ('read', (('read', 3, 2, 3),), {'w3a', 'w3c', 'r3'}),
    ('read1', (('read', 3, 8, 2),), {'w3b', 'r3b'}),
    ('stat', (('stat', 3),), set()),
    ('drop', (('drop',),), {'ctrl'}),
    ('flush', (('flush',),), {'ctrl'}),
    ('fsync', (('fsync', 3),), {'i3'}),
    ('readdir', (('readdir', 2),), {'d2'}),
    ('extstat', (('extstat',),), set()),
]
BYNAME = {o[0]: o for o in OPS}


def fix(ops, t):
    return tuple(tuple(f'@{t}.0' if a == '@' else a for a in o) for o in ops)


def compatible(names):
    for a, b in itertools.combinations(names, 2):
        if BYNAME[a][2] & BYNAME[b][2]:
            return False
        # reading the size that a concurrent request changes: result still linearizable
    return True


TRIPLES = [
    ('write0', 'write1', 'drop'), ('write0', 'chmod', 'drop'), ('write-far', 'unlink', 'drop'),
    ('truncate', 'drop', 'write-other'), ('write0', 'write-mid', 'flush'), ('write1', 'write-far', 'setxattr'),
    ('unlink-forget', 'write-other', 'flush'), ('create', 'write0', 'drop'), ('replace2', 'write0', 'drop'),
]  # fmt: skip


def configs(tier):
    cs = []
    names = [o[0] for o in OPS]
    for a, b in itertools.combinations_with_replacement(names, 2):
        if a == b or not compatible((a, b)):
            continue
        if {a, b} <= {'stat', 'read', 'read1', 'readdir', 'extstat', 'fsync'}:
            continue
        for st in ('warm', 'clean', 'cold'):
            su = SETUP + {'warm': (), 'clean': (('flush',),), 'cold': (('drop',),)}[st]
            ent = 1 if st == 'cold' else 100
            if st == 'clean' and tier == 'quick' and 'write' not in a + b:
                continue
            cs.append((f'{a}|{b}|{st}', dict(setup=su, tasks=[fix(BYNAME[n][1], i) for i, n in enumerate((a, b))], max_entries=ent)))
    for tr in TRIPLES:
        assert compatible(tr), tr
        for st in ('warm', 'cold'):
            su = SETUP + {'warm': (), 'cold': (('drop',),)}[st]
            cs.append((f'{"|".join(tr)}|{st}', dict(setup=su, tasks=[fix(BYNAME[n][1], i) for i, n in enumerate(tr)], max_entries=1 if st == 'cold' else 100)))
    return cs


# ---- operations on whole trees ------------------------------------------------------------

# dir 2 (a): file 3 (a), file 4 (b); sub dir 5 (c) with file 6 (a); empty dir 7 (b), the copy target
TSETUP = (
    ('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAAAAAABB'), ('create', 2, B), ('write', 4, 0, b'CCCC'),
    ('mkdir', 2, C), ('create', 5, A), ('write', 6, 0, b'AAAAAAAA'), ('setxattr', 3, X, b'1'), ('mkdir', 0, B),
    ('setxattr', 6, X, b'2'),
)  # fmt: skip
TARGET = 7

TREE = {'copy': (('copy', 2, TARGET),), 'rmtree': (('rmtree', 0, A),), 'lock': (('lock', 2),)}
OTHERS = {
    'write': (('write', 3, 0, b'ww'),),
    'write-dup': (('write', 4, 0, b'AAAAAAAA'),),
    'write-extend': (('write', 6, 6, b'vvvv'),),
    'truncate': (('truncate', 3, 5),),
    'unlink-first': (('unlink', 2, A),),
    'unlink-forget': (('unlink', 2, A), ('forget', 3)),
    'unlink-last': (('unlink', 5, A), ('forget', 6)),
    'unlink-two': (('unlink', 2, B), ('unlink', 5, A)),
    'rmdir': (('unlink', 5, A), ('rmdir', 2, C)),
    'create': (('create', 2, b'n'), ('write', '@', 0, b'nnn')),
    'create-sub': (('create', 5, b'n'),),
    'create-target': (('create', TARGET, A),),
    'create-target2': (('create', TARGET, b'other'),),
    'rmdir-target': (('rmdir', 0, B),),
    'mkdir': (('mkdir', 5, b'n'),),
    'rename-in': (('rename', 2, A, 2, b'z'),),
    'rename-down': (('rename', 2, A, 5, b'z'),),
    'rename-up': (('rename', 5, A, 2, b'z'),),
    'rename-dir-out': (('rename', 2, C, 0, b'z'),),
    'replace': (('rename', 2, B, 2, A),),
    'link': (('link', 3, 0, b'hl'),),
    'setxattr': (('setxattr', 6, X, b'33'),),
    'removexattr': (('removexattr', 3, X),),
    'chmod': (('chmod', 6, 0o600),),
    'extstat': (('extstat',),),
    # uploads of old blocks in the background
    'commit': (('flush',),),
    'write-commit': (('write', 3, 8, b'xx'), ('flush',)),
    'evict': (('read', 6, 0, 1), ('read', 3, 8, 2)),
    'forget-dirty': (('forget', 6),),
    'forget-all': (('forget', 3), ('forget', 4), ('forget', 6)),
}


def file_of(m, path):
    nid = 0
    for p in path:
        n = m.nodes[nid]
        if p not in n.children:
            return None
        nid = n.children[p]
    return m.nodes[nid]


def paths(m, top, pre=()):
    res = {}
    for k, c in m.nodes[top].children.items():
        n = m.nodes[c]
        res[pre + (k,)] = (n.mode, n.uid, n.gid, n.size, n.rdev, tuple(sorted(n.xattrs.items())), n.target, n.content if n.kind == 'f' else None)
        if n.kind == 'd':
            res.update(paths(m, c, pre + (k,)))
    return res


async def judge(c):
    env = c.env
    tree = [e for e in c.evs if e.op[0] in fsconc.TREE_OPS][0]
    rest = [e for e in c.evs if e is not tree]
    src = [e for e in rest if e.op[1:2] != (TARGET,) and e.op[1:3] != (0, B)]
    kind = tree.op[0]
    final = await fsconc.observe(env, c.m0_with(c.evs))
    known = {n.ino for n in c.m0_with(c.evs).nodes.values()}
    tino = c.m0.nodes[TARGET].ino
    ENOTEMPTY, ENOENT, EPERM, EINVAL, EEXIST = 39, 2, 1, 22, 17
    allowed = {'copy': (EEXIST, ENOTEMPTY, ENOENT), 'rmtree': (ENOTEMPTY, ENOENT), 'lock': ()}[kind]
    if tree.res[0] == 'err' and tree.res[1] not in allowed:
        raise Violation(f'{kind}: unexpected error', repr(tree.res))
    if tree.res[0] == 'err' and kind == 'copy' and len(src) == len(rest):
        raise Violation('copy failed without conflict', repr(tree.res))
    if tree.res[0] == 'err' and kind == 'rmtree' and not any(e.op[0] in ('create', 'mkdir', 'rename', 'unlink') for e in rest):
        raise Violation('rmtree failed without conflict', repr(tree.res))
    open_ok = [i for i in known if final.get(i) and final[i][3] == 0]

    if kind == 'copy':
        if any(e.res[0] == 'err' for e in src):
            raise Violation('request failed because of a concurrent copy', '')

        direct = {e.res[1][0] for e in rest if e not in src and e.op[0] == 'create'}

        def view(v):
            v = {k: x for k, x in v.items() if k in known and k != tino and k not in direct}
            root = list(v[1])
            root[9] = {k: x for k, x in root[9].items() if k != B}
            v[1] = tuple(root)
            return v

        pre = []
        m, why = fsconc.linearize(c.m0, src, view(final), view, pre)
        if m is None:
            raise Violation('source changed by a concurrent copy', '\n'.join(f'order {a}: {b}' for a, b in why[:4]))
        if tree.res[0] == 'ok' and final.get(tino):
            got = {}

            walk2(final, tino, (), known, c, got)
            cand = [paths(x, 2) for x in pre]
            for p in set(got) | {k for x in cand for k in x}:
                ok = {x.get(p) for x in cand}
                if got.get(p) not in ok and got.get(p) != 'direct' and not partial(got.get(p), ok):
                    raise Violation(
                        'copy is not a state of the source', f'{p}: copied {got.get(p)}, source had {sorted(ok, key=repr)}'
                    )
    elif kind == 'rmtree':
        for e in rest:
            if e.res[0] == 'err' and e.res[1] not in (ENOENT, ENOTEMPTY, EINVAL):
                raise Violation('unexpected error besides rmtree', repr((e.op, e.res)))
        if tree.res[0] == 'ok' and A in final[1][9]:
            raise Violation('rmtree succeeded but the tree is still there', '')
    else:
        for e in rest:
            if e.res[0] == 'err' and e.res[1] != EPERM:
                raise Violation('unexpected error besides lock', repr((e.op, e.res)))

        def view(v):
            return v

        good = [e for e in rest if e.res[0] == 'ok']
        m, why = fsconc.linearize(c.m0, good, final)
        if m is None:
            raise Violation('refused request had an effect', '\n'.join(f'order {a}: {b}' for a, b in why[:4]))
        # everything that stayed in the tree is locked
        for p, n in ((q, file_of(m, (A,) + q)) for q in paths(m, 2)):
            o = file_of(c.m0, (A,) + p)
            if o is not None and o.nid == n.nid and n.kind == 'f':
                try:
                    await env.fs.write(n.ino, 0, b'no')
                except fsmc.pyfuse3.FUSEError:
                    continue
                raise Violation('lock missed a file', repr(p))
    # data of completed writes that survived
    for e in rest:
        if e.op[0] in ('write', 'truncate') and e.res[0] == 'ok' and kind != 'copy':
            nid = e.op[1]
            if isinstance(nid, str):
                continue
            n = c.m0.nodes[nid]
            f = final.get(n.ino)
            if f is not None and len(rest) == 1:
                x = c.m0.clone()
                x.apply(e.op)
                if f[8] != x.nodes[nid].content:
                    raise Violation('completed write lost', f'{e.op}: {f[8]!r}')
    await env.ctrl(b's3ql_dropcache!')
    await env.drain()
    errs = world.check_db(env.db, env.be, 8, open_ok=open_ok)
    if errs:
        raise Violation('metadata inconsistent after concurrent requests', '\n'.join(errs))
    again = await fsconc.observe(env, c.m0_with(c.evs))
    if again != final:
        raise Violation('stored state differs from the cached state', repr({k: (final.get(k), again.get(k)) for k in set(final) | set(again) if final.get(k) != again.get(k)}))
    # forget everything
    look = {}
    for n in c.m0.nodes.values():
        look[n.ino] = n.lookups
    for e in c.evs:
        if e.res[0] != 'ok':
            continue
        if e.op[0] in ('create', 'mkdir', 'link', 'lookup'):
            look[e.res[1][0]] = look.get(e.res[1][0], 0) + 1
        if e.op[0] == 'forget':
            look[c.m0.nodes[e.op[1]].ino] = 0
    for ino, k in sorted(look.items()):
        if k:
            await env.fs.forget([(ino, k)])
    await env.ctrl(b's3ql_dropcache!')
    await env.drain()
    errs = world.check_db(env.db, env.be, 8)
    if errs:
        raise Violation('metadata inconsistent after the kernel forgot all inodes', '\n'.join(errs))
    if kind != 'lock':
        await env.wipe(c.m0)
    c.result = (tree.res, tuple(e.res[0] for e in rest))


def partial(g, ok):
    # A size change in progress needs not be atomic with respect to a copy, but every byte has to
    # be either the old or the new one.
    ok = [x for x in ok if x is not None and g is not None and x[:3] + x[4:7] == g[:3] + g[4:7]]
    if not ok or g[7] is None or len(g[7]) != g[3] or not min(x[3] for x in ok) <= g[3] <= max(x[3] for x in ok):
        return False
    return all(any(x[7][i:i+1].ljust(1, b'\0')[0] == b for x in ok) for i, b in enumerate(g[7]))


def view_tuple(f):
    # observe(): mode uid gid nlink size rdev xattrs target content entries
    return (f[0], f[1], f[2], f[4], f[5], tuple(sorted(f[6].items())), f[7], f[8])


def walk2(final, ino, p, known, c, got):
    setup = {n.ino for n in c.m0.nodes.values()}
    for nm, ci in final[ino][9].items():
        if ci in known:
            if ci in setup:
                raise Violation('copy shares an inode with its source', f'{p} {nm!r}')
            got[p + (nm,)] = 'direct'  # created directly in the target by a concurrent request
            continue
        got[p + (nm,)] = view_tuple(final[ci])
        if final[ci][9] is not None:
            walk2(final, ci, p + (nm,), known, c, got)


def tree_configs(tier):
    cs = []
    for t, tops in TREE.items():
        for o, oops in OTHERS.items():
            for st in ('warm', 'cold', 'closed', 'stored'):
                closed = (('forget', 3), ('forget', 4), ('forget', 6))
                su = TSETUP + {'warm': (), 'cold': (('drop',),), 'closed': closed, 'stored': closed + (('drop',),)}[st]
                ent = 1 if st == 'cold' else 100
                if st in ('closed', 'stored') and (t == 'lock' or any(x[0] in ('read', 'write', 'truncate', 'forget', 'link', 'setxattr', 'removexattr', 'chmod') for x in oops)):
                    continue
                if t != 'copy' and (o in ('rmdir-target', 'create-target', 'create-target2') or t == 'lock' and o in ('forget-all', 'forget-dirty')):
                    continue
                cs.append((f'{t}|{o}|{st}', dict(setup=su, tasks=[tops, fix(oops, 1)], max_entries=ent, judge=judge)))
    return cs


def run(rep, tier):
    tc = tree_configs(tier)
    tdev = 2 if tier == 'quick' else 3
    if tier == 'quick':
        tc = [(n, c, {'sched': 2 if n.startswith('copy') and n.endswith('warm') or n.startswith('rmtree') and n.endswith('closed') else 1}) for n, c in tc]
    st = explore(fsconc.harness, tc, {'sched': tdev}, wall=100 if tier == 'quick' else 4000)
    rep.add_stats('operations on trees', st, '')
    dev = 2 if tier == 'quick' else 3
    cs = configs(tier)
    if tier == 'quick':
        cs = [(n, c, {'sched': 2 if n.count('|') > 2 or 'drop' in n or 'flush' in n else 1}) for n, c in cs]
    if os.environ.get('MC_ONLY'):
        return
    st = explore(fsconc.harness, cs, {'sched': dev}, wall=150 if tier == 'quick' else 4000, check_determinism=True)
    rep.add_stats('request pairs and triples', st, f'every schedule with at most {dev} deviations per request combination')
    rep.coverage['request_combinations'] = len(cs)


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough') + tree_configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(fsconc.harness, cfg, [tuple(x) for x in data['trace']])
    if viol:
        print('VIOLATION reproduced:', viol.sig, viol.detail, sep='\n')
        return 1
    print('no violation; outcome', out)
    return 0
