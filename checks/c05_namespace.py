'''C05: namespace operations behave like the reference model and keep the metadata consistent.'''
from mc import fsmodel
from mc.fsbfs import Plan, bfs
from mc.fsbfs import replay as bfs_replay
from mc.fsmodel import CHR, CTRL, DIR, FIFO, LNK, REG

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over a reference file system model; every edge is executed on the real Operations/InodeCache/BlockCache/SQLite stack and compared, then checked by an independent consistency checker and the real fsck'
NOTE = (
    'Every operation of the alphabet from every distinct reference state within the depth bound, in two variants '
    '(warm caches; caches dropped before). Requests are those a Linux kernel can issue.'
)
A, X = b'a', b'user.x'
NAMES = (A, X)


def alphabet(m, setup='', path=(), max_nodes=5, names=NAMES):
    live = m.live()
    nodes = [n for n in m.nodes.values() if not n.hidden and n.nid]
    room = len(nodes) < max_nodes
    dirs = [n for n in m.nodes.values() if n.kind == DIR and not n.hidden and (n.nid in live or n.lookups)]
    for d in dirs:
        dead = d.nid not in live
        for nm in names:
            ex = nm in d.children
            if not ex and (room or dead):
                yield ('create', d.nid, nm)
                yield ('mkdir', d.nid, nm)
                if not dead:
                    yield ('symlink', d.nid, nm, b'tgt')
                    yield ('mknod', d.nid, nm, FIFO)
                    yield ('mknod', d.nid, nm, CHR)
            if ex and m.nodes[d.children[nm]].kind == REG:
                yield ('creat2', d.nid, nm, True)
            if not ex:
                for n in nodes:
                    if n.kind != DIR and n.nid in live and n.lookups:
                        yield ('link', n.nid, d.nid, nm)
            if dead:
                continue
            yield ('lookup', d.nid, nm)
            yield ('unlink', d.nid, nm)
            yield ('rmdir', d.nid, nm)
            if ex:
                yield ('rmtree', d.nid, nm)
            for d2 in dirs:
                if d2.nid not in live:
                    continue
                for nm2 in names:
                    if (d.nid, nm) == (d2.nid, nm2):
                        continue
                    s = m.nodes[d.children[nm]] if ex else None
                    if s is None:
                        if d is d2:
                            yield ('rename', d.nid, nm, d2.nid, nm2)
                        continue
                    if s.kind == DIR and m.is_ancestor(s.nid, d2.nid):
                        continue
                    t = d2.children.get(nm2)
                    if t is not None:
                        t = m.nodes[t]
                        # the kernel refuses these itself
                        if t is s or (t.kind == DIR) != (s.kind == DIR) or m.is_ancestor(t.nid, d.nid):
                            continue
                    yield ('rename', d.nid, nm, d2.nid, nm2)
    for n in nodes:
        if not n.lookups and n.nid not in live:
            continue
        if n.lookups and not any(m.nodes[c].lookups for c in n.children.values()):
            yield ('forget', n.nid)
        if not n.lookups:
            continue
        if n.nlink == 0 and n.kind != REG:
            continue
        yield ('setxattr', n.nid, X, b'1')
        if n.xattrs:
            yield ('setxattr', n.nid, X, b'22')
            yield ('setxattr', n.nid, X, b'')
            yield ('setxattr', n.nid, A, b'1')
        yield ('removexattr', n.nid, X)
        yield ('chmod', n.nid, 0o600)
        if n.kind == DIR:
            yield ('chmod', n.nid, 0o2755)
        if n.kind == REG:
            yield ('write', n.nid, 0, b'A')
            yield ('write', n.nid, 6, b'BBBB')
            yield ('truncate', n.nid, 3)
    # special names
    yield ('create', 0, CTRL)
    yield ('lookup', 0, CTRL)
    yield ('unlink', 0, CTRL)
    yield ('rename', 0, CTRL, 0, A)
    if A not in m.nodes[0].children:
        yield ('link', 'ctrl', 0, A)
    for n in nodes[:1]:
        for p, nm in m.parents(n.nid)[:1]:
            yield ('rename', p, nm, 0, CTRL)
            yield ('rename', p, nm, p, X if nm == A else A, 2)
            yield ('rename', p, nm, p, X if nm == A else A, 1)
            if n.kind == DIR:
                yield ('lookup', n.nid, b'.')
                yield ('lookup', n.nid, b'..')
            elif n.lookups:
                yield ('link', n.nid, 0, CTRL)
        if n.lookups and n.nid in live:
            yield ('chown', n.nid, 9, 10)
            yield ('utimes', n.nid, 5, 6)
            yield ('utimes', n.nid, 1 << 63, 6)


SETUPS = {
    'empty': (),
    'dir+file': (('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAAAAAAAB')),
    'hardlink': (('mkdir', 0, A), ('create', 0, X), ('write', 3, 0, b'A'), ('link', 3, 2, X), ('setxattr', 3, X, b'1')),
    'nested': (('mkdir', 0, A), ('mkdir', 2, A), ('create', 3, X), ('setxattr', 3, X, b'1')),
    'orphans': (('create', 0, A), ('write', 2, 0, b'A'), ('setxattr', 2, X, b'1'), ('mkdir', 0, X), ('unlink', 0, A), ('rmdir', 0, X)),
    'unknown': (('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AA'), ('create', 0, X), ('write', 4, 0, b'AA'), ('forget', 3), ('forget', 4), ('forget', 2)),
    'replace': (('create', 0, A), ('write', 2, 0, b'A'), ('create', 0, X), ('write', 3, 0, b'BB'), ('setxattr', 3, A, b'1')),
    'emptydirs': (('mkdir', 0, A), ('mkdir', 0, X), ('setxattr', 2, X, b'1'), ('setxattr', 3, X, b'1')),
    'mixed': (('symlink', 0, A, b'tgt'), ('mknod', 0, X, CHR)),
}


DEPTH = dict.fromkeys(SETUPS, 2)


def plan(tier):
    return Plan(
        SETUPS,
        alphabet,
        dict(DEPTH, empty=3) if tier == 'quick' else {k: 4 for k in SETUPS},
    )


def run(rep, tier):
    bfs(rep, plan(tier), 110 if tier == 'quick' else 5000)
    rep.coverage['rule'] = 'all operations from all distinct reference states within the depth bound (see parts)'


def replay(data):
    return bfs_replay(plan('quick'), data)
