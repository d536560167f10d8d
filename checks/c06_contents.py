'''C06: file contents and sizes equal those of a byte array.'''
from mc import fsbfs, fsmc
from mc.fsbfs import Plan, bfs

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all operation sequences up to a depth on the real Operations/BlockCache stack with block size 8 and forced evictions, compared with a byte-array reference model after every operation'
NOTE = 'Offsets and lengths chosen around block boundaries; cache of one, two and many blocks; caches dropped at any position of the sequence.'

F = 2  # nid of the file
G = 3


def data(path, n):
    return bytes([65 + (len(path) * 7 + i // 8) % 26 for i in range(n)])


def alphabet(m, setup, path):
    w = [(0, 1), (7, 2), (8, 8), (3, 16), (17, 2), (5, 3)]
    t = [0, 5, 8, 12, 30]
    if setup == 'wide':
        w = [(0, 8), (1, 6), (15, 1), (16, 9), (7, 26), (8 * 40 + 3, 2)]
        t = [1, 7, 9, 16, 24, 8 * 40]
    for off, n in w:
        yield ('write', F, off, data(path, n))
    for n in t:
        if n != m.nodes[F].size:
            yield ('truncate', F, n)
    if m.nodes[F].size:
        yield ('openw', F, True, True)
        yield ('read', F, 6, 4)
    yield ('drop',)
    yield ('flush',)
    yield ('fsync', F)
    if setup == 'two files':
        yield ('write', G, 0, data(path, 8))
        yield ('truncate', G, 4)


SETUPS = {
    'empty': (('create', 0, b'f'),),
    'wide': (('create', 0, b'f'), ('write', 2, 0, b'0123456789abcdefghijklmn')),
    'two files': (('create', 0, b'f'), ('create', 0, b'g'), ('write', 2, 0, b'AAAAAAAAB'), ('write', 3, 0, b'AAAAAAAA')),
}


def plans(tier):
    d = 3 if tier == 'quick' else 4
    for entries in (1, 2, 100) if tier != 'quick' else (1, 100):
        yield f'cache of {entries} blocks', Plan(SETUPS, alphabet, d, variants=((False, False),), max_entries=entries, dedupe=False)


def run(rep, tier):
    for name, p in plans(tier):
        bfs(rep, p, 70 if tier == 'quick' else 2500, name)
    rep.coverage['rule'] = 'all operation sequences up to the depth, each executed from a fresh file system; states are histories'


def replay(data):
    rc = 0
    for name, p in plans('quick'):
        rc |= fsbfs.replay(p, data)
    return rc
