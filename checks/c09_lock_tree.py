'''C09: a locked tree cannot be changed.'''
from checks import c05_namespace, c08_copy_tree
from mc.fsbfs import Plan, bfs
from mc.fsbfs import replay as bfs_replay
from mc.fsmodel import DIR, REG

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state breadth-first search over a reference model with immutable trees; every request from every state executed on the real file system and compared'
NOTE = 'Requests through entries, hard links outside the tree, handles opened before the lock, renames across the boundary, copies from and into locked trees, rmtree; directories larger than one lock batch.'
A, B, X = b'a', b'b', b'user.x'


def alphabet(m, setup, path):
    live = m.live()
    yield from c05_namespace.alphabet(m, setup, path, max_nodes=7, names=(A, B))
    for n in list(m.nodes.values()):
        if n.hidden or not n.nid:
            continue
        if n.kind == REG and n.lookups:
            yield ('hwrite', n.nid, 3, b'HHHHHHH')
            yield ('openw', n.nid, True)
            yield ('openw', n.nid, False)
            yield ('openw', n.nid, False, True)
            yield ('openr', n.nid)
            yield ('chown', n.nid, 9, 9)
            yield ('utimes', n.nid, 5, 6)
            yield ('truncate', n.nid, 0)
            yield ('truncate', n.nid, 20)
        if n.kind == DIR and n.nid in live:
            if not n.locked:
                yield ('lock', n.nid)
            for t in list(m.nodes.values()):
                if t.kind == DIR and t.nid in live and t.nid and not t.hidden and t is not n:
                    if (not t.children and not t.xattrs or t.locked) and not m.is_ancestor(t.nid, n.nid):
                        if t.locked or n.children:
                            yield ('copy', n.nid, t.nid)


SETUPS = {
    'tree': (
        ('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAAAAAAB'), ('setxattr', 3, X, b'1'),
        ('mkdir', 2, B), ('setxattr', 5 - 1, X, b'1'), ('mkdir', 0, B), ('lock', 2),
    ),
    'hardlink': (
        ('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAA'), ('link', 3, 0, B), ('lock', 2),
    ),
    'deep': (('mkdir', 0, A), ('mkdir', 2, A), ('mkdir', 3, A), ('create', 4, A), ('mkdir', 0, B), ('lock', 2), ('forget', 5)),
    'copied': (('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'A'), ('lock', 2), ('mkdir', 0, B), ('copy', 2, 4)),
    'file': (('create', 0, A), ('write', 2, 0, b'A'), ('lock', 2), ('mkdir', 0, B)),
    'unlinked': (('mkdir', 0, A), ('create', 2, A), ('write', 3, 0, b'AAAA'), ('lock', 2), ('rmtree', 0, A)),
}  # fmt: skip


def wide_alphabet(m, setup, path):
    if not path:
        yield ('lock', 2)
        return
    for n in m.nodes.values():
        if n.nid > 1:
            yield ('chmod', n.nid, 0o700)
    yield ('copy', 2, 3)
    yield ('rmtree', 0, A)


def plan(tier):
    return Plan(SETUPS, alphabet, 2 if tier == 'quick' else 3, variants=((False, False), (True, True)))


WIDE = {f'{n} entries': c08_copy_tree.wide(n) for n in (99, 101, 201)}


def wide_plan(tier):
    return Plan(WIDE, wide_alphabet, 2, variants=((False, False),))


def run(rep, tier):
    bfs(rep, wide_plan(tier), 110, 'wide directories')
    bfs(rep, plan(tier), 110 if tier == 'quick' else 5000)


def replay(data):
    return bfs_replay(wide_plan('quick') if 'entries' in data['bfs'][:16] else plan('quick'), data)
