'''C04: a permanently failing backend request never loses data.'''
from mc import bc, crash, world
from mc.explore import Violation, explore, run_one

LEVEL = 'fault_enumeration'
TECHNIQUE = 'stateless model checking of the real block cache: each backend request of each deviation-bounded schedule fails in turn; the resulting shutdown image and every crash image is recovered by the real Fsck and compared with the write history'
NOTE = (
    'One permanent backend failure per execution, combined with all schedules within the deviation bound. After the failure the '
    'process dies as the nursery is cancelled (as in mount.s3ql); recovery by the real Fsck with a working backend.'
)
A, B, C = b'AAAAAAAA', b'BBBBBBBB', b'CCCC'
X, Y = 4, 5
# known finding: only the copy (made by s3qlcp while the source's upload was in flight) of a block whose upload failed
CLONE_SIG = 'copy of a block whose upload then fails is lost'


def configs(tier):
    cs = [
        ('dedup-inflight', dict(tasks=[[('w', X, 0, A), ('flush',)], [('w', Y, 0, A), ('drop',), ('r', X, 1)]], max_entries=3, workers=(2, 1))),
        ('dedup-evict', dict(tasks=[[('w', X, 0, A), ('w', X, 1, A), ('w', X, 2, B)], [('w', Y, 0, B)]], max_entries=1, workers=(2, 1))),
        ('overwrite', dict(init={(X, 0): A, (Y, 0): A}, tasks=[[('w', X, 0, B), ('sflush', X), ('w', X, 0, C)], [('w', Y, 0, B), ('flush',)]], max_entries=3)),
        ('rewrite-same', dict(init={(X, 0): A}, tasks=[[('w', X, 0, B), ('sflush', X), ('w', Y, 0, B)], [('drop',)]], max_entries=2)),
        ('remove', dict(init={(X, 0): A, (X, 1): B}, tasks=[[('rmr', X, 0, 2), ('w', X, 0, A)], [('flush',)]], max_entries=2)),
        ('evict', dict(init={(X, 0): A}, tasks=[[('p', X, 0, 2, b'zz'), ('r', X, 1)], [('w', X, 1, B), ('r', X, 0)]], max_entries=1)),
        ('clone', dict(tasks=[[('w', X, 0, A), ('clone', X, 0, Y, 0, A), ('r', X, 1)], [('flush',)]], max_entries=1)),
    ]
    if tier == 'thorough':
        cs += [
            ('3clients', dict(init={(X, 0): A}, tasks=[[('w', X, 0, B), ('flush',)], [('w', Y, 0, B), ('drop',)], [('w', X, 1, B), ('r', Y, 1)]], max_entries=2, workers=(2, 1))),
        ]
    return cs


def harness(cfg, ch):
    rec = []
    state = {'failed': False, 'cur': None}

    def setup(run):
        r = crash.Recorder(run)
        r.install()
        rec.append(r)
        state['cur'] = run

    def hook(op, key):
        run = state['cur']
        if run is None or run.phase == 'setup' or state['failed']:
            return
        if ch.choose(2, f'fault:{op}', 'fault'):
            state['failed'] = True
            raise world.BackendFault(f'{op} {key}')

    run = bc.execute(cfg, ch, hook=hook, on_setup=setup, cleanup=False, final=False, tolerate=(world.BackendFault,))
    try:
        r = rec[0]
        r.snap()
        lost = clone_lost(run, r.images)
        new = crash.verify(run, r.images)
        return (len(r.images), run.failed, *lost[:1]), {
            'copies_lost': len(lost),
            'faults': int(run.failed),
            'crash_images': len(r.images),
            'images_recovered_by_fsck': new,
        }
    finally:
        bc.close(run)


def clone_lost(run, images):
    '''Remove the images that lose nothing but the copies of a block whose upload failed, return them'''
    targets = {bc.blocks_of(op)[0] for ops in run.cfg['tasks'] for op in ops if op[0] == 'clone'}
    lost = []
    for key, allowed in list(images):
        if not targets:
            break
        objs = {r[0]: r[1] for r in key[0][0]}
        hit = {(i, b) for (i, b, oid) in key[0][1] if (i, b) in targets and objs.get(oid, b'x') is None}
        if not hit:
            continue
        where = images[(key, allowed)]
        try:
            crash.verify(run, {(key, allowed): where})
        except Violation:
            wider = tuple((k, tuple(sorted({*v, b''})) if k in hit else v) for k, v in allowed)
            del images[(key, allowed)]
            images[(key, wider)] = where
            lost.append(f'crash at point {where}: block {sorted(hit)} is lost')
    return lost


def run(rep, tier):
    dev = 2 if tier == 'quick' else 3
    st = explore(harness, configs(tier), {'sched': dev, 'fault': 1}, wall=150 if tier == 'quick' else 7000)
    rep.add_stats('faults', st)
    if st.counters.get('copies_lost'):
        rep.violation(CLONE_SIG, 'configuration "clone": see clone_lost()', {'config': 'clone', 'trace': []})
    c = rep.coverage
    c['evaluations'] = st.executions
    c['distinct_nontrivial'] = st.counters.get('images_recovered_by_fsck', 0)
    c['rule'] = (
        f'a case is one execution: one schedule (at most {dev} deviations) with at most one failing backend request; distinct: crash '
        'images with different content or allowed outcomes that were recovered by the real fsck, per worker process'
    )


def replay(data):
    if not data['trace']:
        st = explore(harness, [c for c in configs('quick') if c[0] == data['config']], {'sched': 2, 'fault': 1}, wall=150)
        print(f'copies lost: {st.counters.get("copies_lost", 0)}')
        return 1 if st.counters.get('copies_lost') else 0
    cfg = dict((c[0], c[1]) for c in configs('thorough'))[data['config']]
    ch, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation; {out}')
    return 1 if viol else 0
