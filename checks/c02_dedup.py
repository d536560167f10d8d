'''C02: dedup, reference counts and stored objects are exact under every interleaving.'''
from mc import bc, world
from mc.explore import Violation, explore, run_one

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real block cache (deviation-bounded schedules); independent metadata/backend invariant checker at quiescence and monitor on every backend request'
NOTE = (
    'All schedules within the deviation bound of client programs with colliding contents are executed on the real code; '
    'the invariant checker is independent of s3ql.fsck. In-memory backend.'
)
A, B, C = b'AAAAAAAA', b'BBBBBBBB', b'CCCC'
X, Y = 4, 5


def configs(tier):
    ab = {(X, 0): A, (Y, 0): A}
    cs = [
        ('same-content', dict(tasks=[[('w', X, 0, A), ('flush',)], [('w', Y, 0, A), ('flush',)]], max_entries=3, workers=(2, 1))),
        ('relink-vs-rm', dict(init=ab, tasks=[[('w', X, 0, B), ('sflush', X)], [('rm', Y, 0)]], max_entries=3)),
        ('swap', dict(init={(X, 0): A, (Y, 0): B}, keep=True, tasks=[[('w', X, 0, B), ('sflush', X)], [('w', Y, 0, A), ('sflush', Y)]], max_entries=3)),
        ('rewrite-back', dict(init={(X, 0): A}, keep=True, tasks=[[('w', X, 0, B), ('sflush', X), ('w', X, 0, A), ('sflush', X)], [('w', Y, 0, B), ('sflush', Y), ('rm', Y, 0)]], max_entries=3)),
        ('rm-recreate', dict(init={(X, 0): A}, tasks=[[('rm', X, 0), ('w', X, 0, A), ('sflush', X)], [('w', Y, 0, A), ('drop',)]], max_entries=3)),
        ('double-rm', dict(init=ab, keep='dirty', tasks=[[('rm', X, 0)], [('rm', Y, 0)], [('flush',)]], max_entries=3)),
        ('three-users', dict(init={(X, 0): A}, tasks=[[('w', X, 1, A), ('sflush', X)], [('rm', X, 0)], [('w', Y, 0, A), ('sflush', Y)]], max_entries=4)),
        ('evict-dedup', dict(tasks=[[('w', X, 0, A), ('w', X, 1, A), ('w', X, 0, B)], [('w', Y, 0, A), ('r', X, 0)]], max_entries=1)),
        ('trunc-same', dict(init={(X, 0): C}, tasks=[[('w', X, 0, C + C), ('t', X, 0, 4), ('sflush', X)], [('w', Y, 0, C), ('sflush', Y)]], max_entries=2)),
        ('concurrent-flush', dict(init={(X, 0): A, (Y, 0): B}, keep='dirty', tasks=[[('flush',)], [('flush',)], [('drop',)]], max_entries=2)),
        ('clone', dict(tasks=[[('w', X, 0, A), ('clone', X, 0, Y, 0, A), ('rm', X, 0)], [('flush',)]], max_entries=4)),
        ('clone-change', dict(init={(X, 0): A}, keep='dirty', tasks=[[('clone', X, 0, Y, 0, A), ('w', Y, 0, B), ('sflush', Y)], [('drop',)]], max_entries=4)),
        ('dedup-to-older', dict(init={(X, 0): A, (X, 1): B}, keep=True, tasks=[[('w', X, 1, A), ('sflush', X)], [('w', Y, 0, C), ('sflush', Y)]], max_entries=4)),
    ]
    if tier == 'thorough':
        cs += [
            ('3w-dedup', dict(tasks=[[('w', X, 0, A), ('sflush', X), ('rm', X, 0)], [('w', Y, 0, A), ('sflush', Y), ('rm', Y, 0)], [('w', X, 1, A), ('flush',)]], max_entries=3, workers=(2, 1))),
            ('end', dict(init=ab, tasks=[[('w', X, 0, B)], [('rm', Y, 0), ('w', Y, 0, B)]], max_entries=2, explore_end=True)),
            ('removal-batch', dict(init={(X, 0): A, (X, 1): B, (X, 2): C}, tasks=[[('rmr', X, 0, 3)], [('w', Y, 0, A), ('sflush', Y), ('w', Y, 0, B), ('sflush', Y)]], max_entries=3)),
        ]
    return cs


async def destroyed(run):
    pass


def harness(cfg, ch):
    run = bc.execute(cfg, ch, cleanup=False)
    try:
        bc.db_oracle(run)
        live = [v for k, v in run.backend.data.items() if k.startswith('s3ql_data_')]
        if len(live) != len(set(live)):
            raise Violation('equal contents stored more than once', f'{run.backend.data}\n{bc.describe(run)}')
        finals = bc.history_finals(run, cfg)
        for (i, b), vals in finals.items():
            v = world.read_block(run.db, run.backend, i, b)
            if v not in vals:
                raise Violation('stored content differs from last write', f'{i}/{b}: {v!r} not in {vals}\n{bc.describe(run)}')
        rows = world.dump(run.db)
        return (rows['objects'], rows['inode_blocks'], tuple(run.backend.deletes))
    finally:
        bc.close(run)


def run(rep, tier):
    dev = 3 if tier == 'quick' else 4
    cs = configs(tier)
    if tier == 'thorough':
        cs = [(n, c, {'sched': 3 if len(c['tasks']) > 2 else 4}) for n, c in cs]
    st = explore(harness, cs, {'sched': dev}, wall=150 if tier == 'quick' else 7000, check_determinism=True)
    rep.add_stats('interleavings', st, f'every schedule with at most {dev} deviations; states: choice-tree nodes, transitions: scheduler steps')
    rep.coverage['schedule_deviation_bound'] = dev


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation; {out}')
    return 1 if viol else 0
