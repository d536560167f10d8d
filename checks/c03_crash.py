'''C03: a crash at any point of any schedule loses no completed write once fsck has run.'''
from mc import bc, crash, fscrash
from mc.fsmodel import DIR, REG
from mc.explore import explore, run_one

LEVEL = 'fault_enumeration'
TECHNIQUE = 'stateless model checking of the real block cache with a crash image at every scheduler step, SQL statement and backend request; each distinct image is recovered by the real Fsck and compared with the write history; the same for every sequence of file system requests'
NOTE = (
    'Process-crash model (SQLite WAL and cache files survive as written). All schedules within the deviation bound of the listed '
    'programs; images deduplicated by content. In-memory backend with atomic object visibility. File system level: all sequences of requests '
    'of an alphabet, crash at every point of the last one; attribute changes count as durable only after fsync or a flush.'
)
A, B, C = b'AAAAAAAA', b'BBBBBBBB', b'CCCC'
X, Y = 4, 5


def configs(tier):
    cs = [
        ('upload', dict(tasks=[[('w', X, 0, A), ('flush',), ('w', X, 0, B)], [('w', Y, 0, A), ('sflush', Y)]], max_entries=3)),
        ('overwrite', dict(init={(X, 0): A}, tasks=[[('w', X, 0, B), ('sflush', X), ('p', X, 0, 0, b'x')], [('drop',)]], max_entries=2)),
        ('evict', dict(init={(X, 0): A}, tasks=[[('p', X, 0, 2, b'zz'), ('r', X, 1)], [('w', X, 1, B), ('r', X, 0)]], max_entries=1)),
        ('dedup', dict(init={(X, 0): A, (Y, 0): A}, tasks=[[('w', X, 0, B), ('sflush', X)], [('w', Y, 0, B), ('sflush', Y), ('w', Y, 0, A), ('sflush', Y)]], max_entries=3)),
        ('remove', dict(init={(X, 0): A}, keep='dirty', tasks=[[('rm', X, 0), ('w', X, 0, C)], [('flush',)]], max_entries=2)),
        ('rm-shared', dict(init={(X, 0): A, (Y, 0): A}, tasks=[[('rm', X, 0)], [('w', Y, 0, B), ('sflush', Y)]], max_entries=2)),
        ('trunc', dict(init={(X, 0): A, (X, 1): B}, keep=True, tasks=[[('t', X, 0, 3)], [('rm', X, 1), ('w', X, 1, A)], [('flush',)]], max_entries=2)),
        ('stale-rm', dict(init={(X, 0): A}, tasks=[[('w', X, 0, B), ('rm', X, 0), ('w', X, 0, C)], [('flush',)]], max_entries=2)),
        ('download', dict(init={(X, 0): A}, tasks=[[('r', X, 0), ('p', X, 0, 8, b'!')], [('r', X, 0), ('drop',)]], max_entries=1)),
        ('clone', dict(tasks=[[('w', X, 0, A), ('clone', X, 0, Y, 0, A), ('w', X, 0, B)], [('flush',)]], max_entries=3)),
        ('clone-rm', dict(init={(X, 0): A}, keep='dirty', tasks=[[('clone', X, 0, Y, 0, A), ('rm', X, 0), ('w', Y, 0, C)], [('flush',)]], max_entries=3)),
    ]
    if tier == 'thorough':
        cs += [
            ('2workers', dict(tasks=[[('w', X, 0, A), ('w', X, 0, B), ('sflush', X)], [('w', Y, 0, A), ('drop',), ('w', Y, 0, B)]], max_entries=1, workers=(2, 1))),
            ('3clients', dict(init={(X, 0): A}, tasks=[[('w', X, 0, B), ('flush',)], [('w', Y, 0, B), ('rm', Y, 0)], [('drop',)]], max_entries=2)),
        ]
    return cs


def harness(cfg, ch):
    rec = []

    def setup(run):
        r = crash.Recorder(run)
        r.install()
        rec.append(r)

    run = bc.execute(cfg, ch, on_setup=setup, cleanup=False)
    try:
        r = rec[0]
        new = crash.verify(run, r.images, fsck_crash=True)
        return len(r.images), {'crash_points': r.n, 'images': len(r.images), 'images_recovered_by_fsck': new}
    finally:
        bc.close(run)


N1, N2 = b'a', b'b'


def alphabet(m, setup='', path=()):
    live = m.live()
    if setup == 'wide':
        yield ('copy', 2, 3)
        yield ('rmtree', 0, N1)
        yield ('lock', 2)
        return
    dirs = [n for n in m.nodes.values() if n.kind == DIR and not n.hidden and n.nid in live]
    for d in dirs[:2]:
        for nm in (N1, N2):
            if nm not in d.children:
                if len(m.nodes) < 7:
                    yield ('create', d.nid, nm)
                    if d.nid == 0:
                        yield ('mkdir', d.nid, nm)
                        yield ('symlink', d.nid, nm, b'tgt')
                for n in m.nodes.values():
                    if n.kind == REG and n.nid in live and n.lookups:
                        yield ('link', n.nid, d.nid, nm)
                        break
                continue
            c = m.nodes[d.children[nm]]
            if c.kind == DIR:
                yield ('rmdir', d.nid, nm)
            else:
                yield ('unlink', d.nid, nm)
            yield ('rmtree', d.nid, nm)
            for d2 in dirs[:2]:
                for nm2 in (N1, N2):
                    if (d.nid, nm) == (d2.nid, nm2) or (c.kind == DIR and m.is_ancestor(c.nid, d2.nid)):
                        continue
                    t = d2.children.get(nm2)
                    if t is not None:
                        t = m.nodes[t]
                        if t is c or (t.kind == DIR) != (c.kind == DIR) or m.is_ancestor(t.nid, d.nid):
                            continue
                    yield ('rename', d.nid, nm, d2.nid, nm2)
    for n in [n for n in m.nodes.values() if n.kind == REG]:
        if n.lookups:
            yield ('write', n.nid, 0, b'A' * 8)
            yield ('write', n.nid, 6, b'BBBB')
            yield ('truncate', n.nid, 3)
            yield ('truncate', n.nid, 9)
            yield ('fsync', n.nid)
            yield ('openw', n.nid, True)
            if not any(c[0] == 'setxattr' for c in path):
                yield ('setxattr', n.nid, b'user.x', b'1')
            else:
                yield ('removexattr', n.nid, b'user.x')
            yield ('forget', n.nid)
    for d in dirs[1:2]:
        t = [n for n in dirs if n is not d and n.nid and not n.children and n.lookups]
        if t and d.children:
            yield ('copy', d.nid, t[0].nid)
    yield ('flush',)
    yield ('drop',)


SETUPS = {
    'empty': (),
    'dirty': (('mkdir', 0, N1), ('create', 2, N1), ('write', 3, 0, b'AAAAAAAAAB')),
    'clean': (('mkdir', 0, N1), ('create', 2, N1), ('write', 3, 0, b'CCCCCCCCBBBBBBBBD'), ('drop',)),
    'two': (('create', 0, N1), ('write', 2, 0, b'A' * 8), ('create', 0, N2), ('write', 3, 0, b'A' * 8), ('flush',), ('write', 3, 0, b'Z')),
    'symlink': (('create', 0, N2), ('setxattr', 2, b'user.x', b'1'), ('symlink', 0, N1, b'tgt'), ('setxattr', 3, b'user.x', b'2'), ('flush',), ('forget', 2), ('forget', 3)),
    'copy': (('mkdir', 0, N1), ('create', 2, N1), ('write', 3, 0, b'AAAAAAAAAB'), ('mkdir', 0, N2)),
}


def wide_setup(n):
    res = [('mkdir', 0, N1), ('mkdir', 0, N2)]
    for i in range(n):
        res += [('create', 2, b'f%d' % i), ('write', 4 + i, 0, b'%03d' % (i % 3)), ('forget', 4 + i)]
    return tuple(res) + (('flush',),)


WIDE = {'wide': wide_setup(103)}


def fs_plans(tier):
    if tier == 'quick':
        return {'requests': fscrash.Plan(SETUPS, alphabet, 2), 'wide directories': fscrash.Plan(WIDE, alphabet, 1)}
    return {
        'requests': fscrash.Plan(SETUPS, alphabet, 3, entries=(100, 1)),
        'wide directories': fscrash.Plan(WIDE, alphabet, 2),
    }


def run(rep, tier):
    dev = 2 if tier == 'quick' else 3
    st = explore(harness, configs(tier), {'sched': dev}, wall=150 if tier == 'quick' else 7000)
    rep.add_stats('crashes', st)
    c = rep.coverage
    c['schedules'] = st.executions
    tot = [0, 0, 0]
    for name, plan in fs_plans(tier).items():
        t = fscrash.explore_crashes(rep, plan, 60 if tier == 'quick' else 5000, name)
        tot = [a + b for a, b in zip(tot, t)]
    c['evaluations'] = st.counters.get('crash_points', 0) + tot[0]
    c['distinct_nontrivial'] = st.counters.get('images_recovered_by_fsck', 0) + tot[2]
    c['rule'] = (
        f'a case is a crash at one scheduler step / SQL statement / backend request of one schedule (all schedules with at most {dev} '
        f'deviations), or after one statement / file operation / backend request of the last of up to {2 if tier == "quick" else 3} file system requests; '
        'distinct: crash images with different content or different allowed outcomes, per worker process'
    )


def replay(data):
    if 'fscrash' in data:
        return fscrash.replay(fs_plans('thorough'), data)
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation; {out}')
    return 1 if viol else 0
