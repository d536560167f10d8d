'''C10: directory listings are complete and duplicate-free under concurrent changes.'''
import ast
import os

import trio

from mc import fsmc, fsmodel
from mc.explore import Violation, pmap

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all interleavings of partial listings with directory changes (up to a depth) on the real Operations, compared with a model that tracks the lifetime of each entry'
NOTE = 'Pieces of one or two entries, several open listings through one handle position, names whose interned ids are older or newer than the listing position; also listings across more than 100 entries.'

D = 2  # nid of the directory
OLD = b'old'  # name interned before all others
SETUP = (
    ('mkdir', 0, b'dir'), ('mkdir', 0, b'other'), ('create', 3, OLD), ('create', D, b'p'), ('mkdir', D, b'q'),
    ('create', D, b'r'),
)  # fmt: skip


class Listing:
    def __init__(self, m):
        self.off = 0
        self.seen = []  # (name, birth)
        self.offsets = [0]
        self.done = False


async def run_seq(seq, check_wipe=True):
    env = fsmc.Env()
    m = fsmodel.Model()
    birth = {}
    clock = [0]
    refs = {}

    def sync():
        clock[0] += 1
        ch = m.nodes[D].children
        for k in list(birth):
            if ch.get(k) != birth[k][1]:
                del birth[k]
        for k, v in ch.items():
            if k not in birth:
                birth[k] = (clock[0], v)

    async with trio.open_nursery() as nursery:
        await env.open(nursery)
        try:
            for o in SETUP:
                await env.step(m, o, check=False)
            sync()
            start = dict(birth)
            always = dict(birth)
            ls = Listing(m)

            async def piece(k):
                tok = fsmc.Token(k)
                await env.fs.readdir(m.nodes[D].ino, ls.off, tok)
                if not tok.entries:
                    ls.done = True
                for name, ino, nxt in tok.entries:
                    refs[ino] = refs.get(ino, 0) + 1
                    if name not in birth:
                        raise Violation('listing returns an entry that does not exist', f'{name!r}')
                    if m.nodes[birth[name][1]].ino != ino:
                        raise Violation('listing returns a wrong inode', f'{name!r}')
                    key = (name, birth[name][0])
                    if key in ls.seen:
                        raise Violation('listing returns an entry twice', f'{name!r}, all {ls.seen}')
                    ls.seen.append(key)
                    if nxt in ls.offsets or nxt in (0, 1, 2):
                        raise Violation('listing offsets are not unique', f'{nxt} {ls.offsets}')
                    ls.offsets.append(nxt)
                    ls.off = nxt

            for o in seq:
                if o[0] == 'piece':
                    await piece(o[1])
                else:
                    await env.step(m, o, check=False)
                    sync()
                    for k in list(always):
                        if birth.get(k) != always[k]:
                            del always[k]
            n = 0
            while not ls.done:
                await piece(1 if n < 2 else 100)
                n += 1
            names = [k for k, _ in ls.seen]
            for k in always:
                if (k, always[k][0]) not in ls.seen:
                    raise Violation('listing misses an entry that existed throughout', f'{k!r}, got {names}')
            # resuming again at any returned position gives the rest (in the same order)
            full = [e[0] for e in await env.readdir(m.nodes[D].ino)]
            for i, off in enumerate(ls.offsets):
                tok = fsmc.Token()
                await env.fs.readdir(m.nodes[D].ino, off, tok)
                got = [e[0] for e in tok.entries]
                await env.fs.forget([(e[1], 1) for e in tok.entries])
                exp = [k for k in names[i:] if k in always]
                if [k for k in got if k in exp] != exp:
                    raise Violation('resumed listing misses entries', f'offset {off}: {got}, expected {exp}')
                if i and names[i - 1] in got and names[i - 1] in always:
                    raise Violation('resumed listing repeats an entry', f'offset {off}: {got}')
            if sorted(full) != sorted(birth):
                raise Violation('full listing differs', f'{full} {sorted(birth)}')
            # the kernel returns exactly the references it got
            if refs:
                await env.fs.forget(sorted(refs.items()))
            await env.settle(m)
            await env.cache.destroy()
        finally:
            await env.close()
        nursery.cancel_scope.cancel()
    return tuple(ls.seen)


def sequences(depth, maxops):
    '''All sequences over pieces and changes; changes are generated from the model state'''

    def rec(m, seq, left, ops, pieces):
        yield seq
        if not left:
            return
        for k in (1, 2):
            if pieces < 3:
                yield from rec(m, seq + (('piece', k),), left - 1, ops, pieces + 1)
        if ops >= maxops or not pieces:
            return
        ch = m.nodes[D].children
        al = []
        for n in sorted(ch):
            c = m.nodes[ch[n]]
            al.append(('rmdir' if c.kind == 'd' else 'unlink', D, n))
            if OLD not in ch:
                al.append(('rename', D, n, D, OLD))
            al.append(('rename', D, n, 3, b'moved'))
            if b'new' not in ch:
                al.append(('rename', D, n, D, b'new'))
        for n in (OLD, b'new', b'p'):
            if n not in ch:
                al.append(('create', D, n))
        if OLD in ch and b'p' in ch and m.nodes[ch[OLD]].kind == 'f':
            al.append(('rename', D, b'p', D, OLD))
        for o in al:
            x = m.clone()
            e = x.apply(o)
            if e.errnos:
                continue
            x.purge()
            yield from rec(x, seq + (o,), left - 1, ops + 1, pieces)

    m = fsmodel.Model()
    for o in SETUP:
        m.apply(o)
    yield from rec(m, (), depth, 0, 0)


def _chunk(seqs):
    out = []
    n = set()
    for s in seqs:
        try:
            n.add(fsmc.trio_run(run_seq, s))
        except Violation as v:
            out.append((v.sig, f'{v.detail}\nsequence {s}', repr(s)))
    return len(seqs), out[:5], n


def run(rep, tier):
    depth, ops = (5, 3) if tier == 'quick' else (6, 3)
    seqs = [s for s in sequences(depth, ops) if s and s[-1][0] != 'piece' or not s]
    chunks = [seqs[i : i + 50] for i in range(0, len(seqs), 50)]
    total = 0
    outcomes = set()
    capped = False
    try:
        for _, (n, vs, oc) in pmap(_chunk, chunks, wall=120 if tier == 'quick' else 4000):
            total += n
            outcomes |= oc
            for sig, detail, data in vs:
                rep.violation(sig, detail, {'seq': data})
    except TimeoutError:
        capped = True
    c = rep.coverage
    c['states'] = len(outcomes)
    c['transitions'] = sum(len(s) for s in seqs)
    c['traces_validated_against_impl'] = total
    c['exhaustive'] = not capped
    c['rule'] = f'all sequences of at most {depth} listing pieces and directory changes (at most {ops} changes), each ended by a complete listing and resumption from every returned offset; states: distinct listing results'
    c['samples'] = [repr(s) for s in seqs[100:103]]


def replay(data):
    try:
        fsmc.trio_run(run_seq, ast.literal_eval(data['seq']))
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
