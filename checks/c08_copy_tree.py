'''C08: a tree copy is an exact, independent snapshot.'''
from mc.fsbfs import Plan, bfs
from mc.fsbfs import replay as bfs_replay
from mc.fsmodel import CHR, DIR, LNK, REG

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over a reference model with a deep-copy operation; every edge (changes before, the copy, changes of either side after it, removal of either side) executed on the real file system and compared'
NOTE = 'Warm and dropped caches, inodes known or forgotten by the kernel, data not yet uploaded, hard links inside and across the copied tree, nested copies.'
A, B, X = b'a', b'b', b'user.x'


def alphabet(m, setup, path):
    live = m.live()
    copies = sum(o[0] == 'copy' for o in path)
    root = m.nodes[0]
    dirs = [n for n in m.nodes.values() if n.kind == DIR and n.nid in live and not n.hidden]
    fresh = [d for d in dirs if d.nid and not d.children]
    if copies < 2:
        for s in dirs:
            for t in fresh:
                if s is t or m.is_ancestor(t.nid, s.nid):
                    continue
                if not s.children and not s.xattrs:
                    continue
                yield ('copy', s.nid, t.nid)
    if copies and b'n' not in root.children:
        yield ('mkdir', 0, b'n')
    for n in list(m.nodes.values()):
        if n.hidden or n.nid == 0:
            continue
        if n.kind == REG and (n.lookups or n.nid in live):
            yield ('write', n.nid, 6, b'ZZZZ')
            yield ('truncate', n.nid, 5)
        if n.nid not in live:
            continue
        if n.kind in (REG, DIR):
            if X in n.xattrs:
                yield ('removexattr', n.nid, X)
                yield ('setxattr', n.nid, X, b'new')
        if n.kind == DIR:
            if B not in n.children and len(m.nodes) < 16:
                yield ('create', n.nid, B)
            for nm, c in sorted(n.children.items()):
                if m.nodes[c].kind != DIR:
                    yield ('unlink', n.nid, nm)
                yield ('rmtree', n.nid, nm)
                if B not in n.children:
                    yield ('rename', n.nid, nm, n.nid, B)
        else:
            yield ('chmod', n.nid, 0o600)
        if n.lookups and not any(m.nodes[c].lookups for c in n.children.values()) and not copies:
            yield ('forget', n.nid)


SETUPS = {
    'file': (('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAAAAAAB'), ('mkdir', 0, X)),
    'hardlinks': (('mkdir', 0, A), ('mkdir', 0, X), ('create', 2, A), ('write', 4, 0, b'AA'), ('link', 4, 2, X), ('link', 4, 0, b'out')),
    'special': (
        ('mkdir', 0, A), ('mkdir', 0, X), ('symlink', 2, A, b'target'), ('mknod', 2, X, CHR),
        ('setxattr', 2, X, b'dirattr'), ('chmod', 2, 0o2750), ('chown', 2, 9, 10),
    ),
    'nested': (
        ('mkdir', 0, A), ('mkdir', 0, X), ('mkdir', 2, A), ('create', 4, A), ('setxattr', 5, X, b'1'),
        ('write', 5, 0, b'AAAAAAAA'), ('setxattr', 4, A, b'2'), ('create', 2, X), ('write', 6, 0, b'AAAAAAAA'),
    ),
    'uploaded': (
        ('mkdir', 0, A), ('mkdir', 0, X), ('create', 2, A), ('write', 4, 0, b'AAAAAAAABBBBBBBBC'), ('create', 2, X),
        ('write', 5, 0, b'AAAAAAAAAAAAAAAA'), ('flush',),
    ),
    'attributes': (
        ('mkdir', 0, A), ('mkdir', 0, X), ('setxattr', 2, X, b'1'), ('setxattr', 3, X, b'2'), ('setxattr', 3, B, b'3'), ('create', 2, A),
        ('setxattr', 4, X, b'4'), ('setxattr', 4, B, b'5'), ('utimes', 4, 5, 6), ('utimes', 2, 7, 8),
    ),
    'orphan': (('mkdir', 0, A), ('mkdir', 0, X), ('create', 2, A), ('write', 4, 0, b'AA'), ('unlink', 2, A)),
}  # fmt: skip


DEPTH = dict(dict.fromkeys(SETUPS, 2), file=3, orphan=3, hardlinks=3)


def wide(n):
    '''Directory with *n* entries (batch limits): files, a subdirectory with entries, a hard link pair'''
    ops = [('mkdir', 0, A), ('mkdir', 0, X), ('mkdir', 2, b'sub'), ('create', 4, A), ('link', 5, 4, B)]
    for i in range(n - 2):
        ops.append(('create', 2, b'%03d' % i))
    ops += [('link', 5, 2, b'zlast'), ('write', 5, 0, b'AAAA'), ('write', 6, 0, b'BBBB')]
    return tuple(ops)


def flat(n):
    return (('mkdir', 0, A), ('mkdir', 0, X)) + tuple(('create', 2, b'%03d' % i) for i in range(n))


def wide_alphabet(m, setup, path):
    if not path:
        yield ('copy', 2, 3)
    else:
        yield ('rmtree', 0, X)
        yield ('rmtree', 0, A)
        yield ('lock', 3)


WIDE = {f'{n} entries': wide(n) for n in (97, 98, 99, 100, 101, 102, 103, 201, 202, 203)}
WIDE.update((f'flat, {n} entries', flat(n)) for n in (99, 100, 101, 200))


def plan(tier):
    return Plan(SETUPS, alphabet, DEPTH if tier == 'quick' else 4, variants=((False, False), (True, True)))


def wide_plan(tier):
    return Plan(WIDE, wide_alphabet, 2)


def run(rep, tier):
    bfs(rep, wide_plan(tier), 110, 'wide directories')
    bfs(rep, plan(tier), 110 if tier == 'quick' else 5000)


def replay(data):
    return bfs_replay(wide_plan('quick') if 'entries' in data['bfs'][:22] else plan('quick'), data)
