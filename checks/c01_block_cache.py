'''C01: block cache operations are linearizable under every interleaving.'''
from mc import bc
from mc.explore import explore, run_one

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real block cache under a controlled Trio scheduler (deviation-bounded DFS), linearizability oracle'
NOTE = (
    'All schedules within the deviation bound of the listed client programs are executed on the real BlockCache '
    '(real SQLite, cache files, workers); backend replaced by an in-memory one; threads run synchronously at scheduling points.'
)
DEEP = ('evict-2w', 'rewrite-upload', 'dedup', 'drop-write', 'size-limit', 'remove-upload')
A, B, C = b'AAAAAAAA', b'BBBBBBBB', b'CCCC'
X, Y = 4, 5


def configs(tier):
    cs = [
        # two writers of different blocks with a cache of one entry: eviction races
        ('evict-2w', dict(tasks=[[('w', X, 0, A), ('r', X, 1)], [('w', X, 1, B), ('r', X, 0)]], max_entries=1)),
        # writer and reader of the same uploaded+dropped block
        ('download-race', dict(init={(X, 0): A}, tasks=[[('p', X, 0, 2, b'zz')], [('r', X, 0)], [('r', X, 0)]], max_entries=1)),
        # re-write while the old version is being uploaded
        ('rewrite-upload', dict(tasks=[[('w', X, 0, A), ('p', X, 0, 0, b'q')], [('flush',)], ], init={(X, 0): B}, keep='dirty', max_entries=2)),
        # removal racing with upload and re-creation
        ('remove-upload', dict(init={(X, 0): A}, keep='dirty', tasks=[[('rm', X, 0), ('w', X, 0, B)], [('flush',)], [('r', X, 0)]], max_entries=2)),
        # an entry is replaced by another one while an upload or eviction waits for its lock
        ('replace-flush', dict(init={(X, 0): A}, keep='dirty', tasks=[[('w', X, 0, A), ('rm', X, 0), ('w', X, 0, B)], [('flush',)]], max_entries=2)),
        ('replace-4', dict(init={(X, 0): A}, keep='dirty', tasks=[[('w', X, 0, C)], [('rm', X, 0)], [('w', X, 0, B)], [('flush',)]], max_entries=2)),
        ('replace-4e', dict(init={(X, 0): A}, keep='dirty', tasks=[[('w', X, 0, C)], [('rm', X, 0)], [('w', X, 0, B)], [('r', X, 1)]], max_entries=1)),
        ('replace-evict', dict(init={(X, 0): A}, keep=True, tasks=[[('r', X, 0), ('rm', X, 0), ('w', X, 0, B), ('r', X, 0)], [('r', X, 1)]], max_entries=1)),
        # a block is copied while its upload is in progress
        ('clone', dict(tasks=[[('w', X, 0, A), ('clone', X, 0, Y, 0, A), ('r', Y, 0)], [('flush',)]], max_entries=3)),
        ('clone-change', dict(tasks=[[('w', X, 0, A), ('clone', X, 0, Y, 0, A), ('w', X, 0, B), ('r', Y, 0)], [('r', Y, 1)]], max_entries=1)),
        ('clone-rm', dict(init={(X, 0): A}, keep='dirty', tasks=[[('clone', X, 0, Y, 0, A), ('rm', X, 0), ('p', Y, 0, 0, b'c')], [('flush',)]], max_entries=3)),
        # truncation racing with eviction
        ('trunc-evict', dict(init={(X, 0): A, (X, 1): B}, keep=True, tasks=[[('t', X, 0, 3), ('t', X, 0, 6)], [('r', X, 2), ('r', X, 0)]], max_entries=2)),
        # dedup: same content in two inodes, one re-written and removed
        ('dedup', dict(tasks=[[('w', X, 0, A), ('sflush', X), ('w', X, 0, B)], [('w', Y, 0, A), ('sflush', Y), ('rm', Y, 0)]], max_entries=3)),
        # reads of blocks whose object is shared with an upload in flight
        ('dedup-read', dict(init={(X, 0): B}, tasks=[[('w', X, 0, A), ('drop',)], [('w', Y, 0, A), ('drop',), ('r', Y, 0)]], max_entries=3)),
        # range removal versus writers and eviction
        ('range-rm', dict(init={(X, 0): A, (X, 1): B}, keep='dirty', tasks=[[('rmr', X, 0, 2)], [('w', X, 1, C)], [('flush',)]], max_entries=2)),
        # drop of the whole cache against writers
        ('drop-write', dict(init={(X, 0): A}, keep=True, tasks=[[('p', X, 0, 8, b'x'), ('p', X, 0, 1, b'y')], [('drop',), ('r', X, 0)]], max_entries=2)),
        # size-limited cache
        ('size-limit', dict(tasks=[[('w', X, 0, A), ('p', X, 0, 8, A)], [('w', X, 1, B), ('r', X, 0)]], max_entries=10, max_size=8)),
    ]
    if tier == 'thorough':
        cs += [
            ('3w-1e', dict(tasks=[[('w', X, 0, A), ('r', X, 1)], [('w', X, 1, B), ('r', X, 2)], [('w', X, 2, A), ('r', X, 0)]], max_entries=1)),
            ('3w-same', dict(tasks=[[('w', X, 0, A), ('flush',)], [('w', X, 0, B), ('drop',)], [('p', X, 0, 3, b'!'), ('rm', X, 0)]], max_entries=1)),
            ('2workers', dict(tasks=[[('w', X, 0, A), ('w', X, 0, B), ('r', X, 0)], [('w', Y, 0, A), ('drop',), ('w', Y, 0, B)]], max_entries=1, workers=(2, 1))),
            ('shutdown', dict(tasks=[[('w', X, 0, A), ('w', X, 1, A)], [('w', Y, 0, B), ('rm', Y, 0)]], max_entries=1, explore_end=True)),
        ]
    return cs


def harness(cfg, ch):
    run = bc.execute(cfg, ch)
    vals = tuple((e[0][0], e[3]) for e in run.history if e[0][0] == 'r')
    return vals, {'client_operations': len(run.history)}


def run(rep, tier):
    dev = 2 if tier == 'quick' else 3
    cs = configs(tier)
    if tier == 'quick':
        cs = [(n, c, {'sched': 3 if n in DEEP else 2}) for n, c in cs]
    st = explore(
        harness, cs, {'sched': dev}, wall=150 if tier == 'quick' else 6000, check_determinism=True
    )
    rep.add_stats(
        'interleavings',
        st,
        'every schedule with at most %d deviations from run-to-block scheduling, per client program; '
        'states: nodes of the choice tree; transitions: scheduler steps' % dev,
    )
    rep.coverage['schedule_deviation_bound'] = dev


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    if viol:
        print('VIOLATION reproduced:', viol.sig, viol.detail, sep='\n')
        return 1
    print('no violation; outcome', out)
    return 0
