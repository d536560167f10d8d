'''C14: expiry of metadata snapshots for every layout of blocks and every interruption.'''
import ast
import itertools
import re
import time

import trio

from mc import world
from mc.explore import Violation, pmap
from s3ql.database import FsAttributes, expire_objects

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of snapshot histories (database sizes, modified blocks, sessions that did not end) and of every interruption of the real expire_objects, checked against an independent computation of what each snapshot needs'
NOTE = (
    'All histories of up to 4 (thorough: 5) snapshots over 3 blocks with every combination of size and modified blocks, complete or unclean; all retention counts; '
    'interruption before every deletion, in the order the code deletes, followed by another session and a repeated expiry.'
)
PAR = re.compile('^s3ql_params_([0-9a-f]+)$')
BLK = re.compile('^s3ql_metadata_([0-9a-f]+)_([0-9a-f]+)$')
NBLK = 3


class Crash(BaseException):
    pass


def kinds(prev):
    '''Possible next sessions after one with *prev* blocks: (size, modified blocks, complete)'''
    for size in range(1, NBLK + 1):
        new = set(range(prev, size))
        for mask in range(1 << size):
            ch = {b for b in range(size) if mask >> b & 1}
            if not new <= ch:
                continue
            yield (size, tuple(sorted(ch)), True)
    # crashed session: some blocks were uploaded, the parameters still have the previous size
    if prev:
        for mask in range(1 << NBLK):
            ch = tuple(b for b in range(NBLK) if mask >> b & 1)
            yield (prev, ch, False)


def histories(n):
    def rec(h, prev):
        if len(h) == n:
            yield h
            return
        for k in kinds(prev):
            if h and not h[-1][2]:
                # a crashed session is followed by a full upload of the checked file system
                if not k[2] or len(k[1]) != k[0]:
                    continue
            yield from rec(h + (k,), k[0])

    yield from rec((), 0)


def build(be, hist, block, gap=1):
    for i, (size, ch, clean) in enumerate(hist):
        no = 1 + i * gap
        add(be, no, size, ch, clean, block)


def add(be, no, size, ch, clean, block):
    for b in ch:
        be.data['s3ql_metadata_%012x_%010x' % (b, no)] = b'%d-%d' % (b, no)
    # the last block need not be full
    p = FsAttributes(data_block_size=1024, metadata_block_size=block, seq_no=no, db_size=size * block - (no % 2) * (block // 2), is_mounted=not clean)
    be.data['s3ql_params_%010x' % no] = p.serialize()
    be.data['s3ql_params'] = p.serialize()
    for k in be.data:
        be.meta.setdefault(k, {})


def snapshots(be):
    '''{seq_no: tuple of block objects or None, if blocks are missing}, needed objects'''
    blocks = {}
    for k in be.data:
        m = BLK.match(k)
        if m:
            blocks.setdefault(int(m.group(1), 16), []).append(int(m.group(2), 16))
    out = {}
    for k in be.data:
        m = PAR.match(k)
        if not m:
            continue
        p = FsAttributes.deserialize(be.data[k])
        need = []
        for b in range(-(-p.db_size // p.metadata_block_size)):
            c = [s for s in blocks.get(b, ()) if s <= p.seq_no]
            need.append(('s3ql_metadata_%012x_%010x' % (b, max(c)), be.data['s3ql_metadata_%012x_%010x' % (b, max(c))]) if c else None)
        out[p.seq_no] = (None if None in need else tuple(need), not p.is_mounted)
    return out


async def expire(be, keep, crash_at):
    n = 0

    def hook(op, key):
        nonlocal n
        if op == 'delete':
            if n == crash_at:
                raise Crash()
            n += 1

    be.hook = hook
    be.deletes.clear()
    try:
        await expire_objects(be, versions_to_keep=keep)
        return n, False
    except Crash:
        return n, True
    finally:
        be.hook = None


def check(be, before, keep, done, what):
    after = snapshots(be)
    retained = sorted(before)[-keep:]
    for no in retained:
        if no not in after:
            raise Violation('retained snapshot was removed', f'{what}: {no}')
        if before[no][0] is not None and after[no][0] != before[no][0]:
            raise Violation('retained snapshot is not restorable any more', f'{what}: {no} {before[no]} -> {after[no]}')
    if not done:
        return
    if sorted(after) != retained:
        raise Violation('wrong set of snapshots left', f'{what}: {sorted(after)} expected {retained}')
    need = {x[0] for no in retained for x in (after[no][0] or ())}
    for no in retained:
        if after[no][0] is None:
            return
    extra = [k for k in be.data if BLK.match(k) and k not in need]
    if extra:
        raise Violation('obsolete metadata objects are left', f'{what}: {extra}')


async def one(hist, keep, block, gap, crash_at):
    be = world.MemBackend()
    be.points = False
    be.data['s3ql_data_1'] = b'data'
    be.data['s3ql_passphrase'] = b'pw'
    build(be, hist, block, gap)
    before = snapshots(be)
    what = f'history {hist} keep {keep} block {block} gap {gap} crash {crash_at}'
    try:
        n, crashed = await expire(be, keep, crash_at)
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f'expiry fails with {type(exc).__name__}', f'{what}: {exc!r}')
    if not crashed:
        check(be, before, keep, True, what)
    else:
        check(be, before, keep, False, what)
        # next session, then expire again
        no = max(before) + gap
        size = hist[-1][0]
        add(be, no, size, range(size) if not hist[-1][2] else (0,), True, block)
        b2 = snapshots(be)
        try:
            await expire(be, keep, None)
        except Exception as exc:
            raise Violation(f'expiry after an interruption fails with {type(exc).__name__}', f'{what}: {exc!r}')
        check(be, b2, keep, True, what + ' (repeated)')
    if b'data' != be.data.get('s3ql_data_1') or b'pw' != be.data.get('s3ql_passphrase') or 's3ql_params' not in be.data:
        raise Violation('object that is not metadata was removed', what)
    return n, crashed


async def batch(items):
    n = points = 0
    viols = []
    for hist in items:
        for keep in range(1, len(hist) + 1):
            for block, gap in ((10, 1),) if len(hist) > 3 else ((10, 1), (7, 3)):
                try:
                    dels, _ = await one(hist, keep, block, gap, None)
                    n += 1
                    for i in range(dels):
                        await one(hist, keep, block, gap, i)
                        n += 1
                    points += dels
                except Violation as v:
                    if len(viols) < 3:
                        viols.append((v.sig, str(v.detail), (hist, keep, block, gap)))
    return n, points, viols


def chunk(items):
    return trio.run(batch, items)


def chunks(it, k=100):
    while True:
        c = list(itertools.islice(it, k))
        if not c:
            return
        yield c


def run(rep, tier):
    depth = 4 if tier == 'quick' else 5
    wall = 100 if tier == 'quick' else 4000
    t0 = time.time()
    execs = points = nh = 0
    capped = False
    nv = 0
    samples = []
    per = {}
    for d in range(1, depth + 1):
        k = 0
        try:
            for items, (n, p, viols) in pmap(chunk, chunks(histories(d)), wall=max(1, wall - (time.time() - t0))):
                execs += n
                points += p
                k += len(items)
                if len(samples) < 4 and d == 3:
                    samples.append(repr(items[0]))
                for sig, detail, data in viols:
                    nv += bool(rep.violation(sig, detail, {'case': repr(data)}))
                if nv > 5:
                    break
        except TimeoutError:
            capped = True
        nh += k
        per[d] = k
        if nv or capped:
            break
    c = rep.coverage
    c['states'] = nh
    c['transitions'] = execs
    c['traces_validated_against_impl'] = execs
    c['evaluations'] = execs
    c['fault_positions'] = points
    c['histories_per_length'] = per
    c['samples'] = samples
    c['exhaustive'] = not capped and not nv
    c['rule'] = 'every history of snapshots, every retention count, every interruption of the deletion'


def replay(data):
    hist, keep, block, gap = ast.literal_eval(data['case'])

    async def main():
        dels, _ = await one(hist, keep, block, gap, None)
        for i in range(dels):
            await one(hist, keep, block, gap, i)

    try:
        trio.run(main)
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
