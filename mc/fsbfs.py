'''Breadth-first exploration of file system states: every operation of an alphabet from every distinct
(reference) state up to a depth, each edge executed on the real implementation.'''
import ast
import hashlib
import time

from mc import fsmc, fsmodel
from mc.explore import Violation, pmap

_PLAN = None


class Plan:
    '''What to explore. alphabet(model, setup name) -> operations; variants: (drop before op, fsck after)'''

    def __init__(self, setups, alphabet, depth, variants=((False, False), (True, True)), max_entries=100,
                 dedupe=True):
        self.setups = dict(setups)
        self.alphabet = alphabet
        self.depth = depth
        self.variants = variants
        self.max_entries = max_entries
        self.dedupe = dedupe

    def depth_of(self, setup):
        return self.depth[setup] if isinstance(self.depth, dict) else self.depth


def model_at(ops):
    m = fsmodel.Model()
    for o in ops:
        m.apply(o)
        m.purge()
    return m


def _expand(item):
    setup, path = item
    plan = _PLAN
    s = plan.setups[setup]
    base = model_at(s + path)
    res = []
    n = 0
    viols = []
    for op in plan.alphabet(base, setup, path):
        m = base.clone()
        x = m.apply(op)
        m.purge()
        key = m.canon() if plan.dedupe else (setup, path, op)
        h = hashlib.md5(repr(key).encode()).digest()
        for drop, fsck in plan.variants:
            n += 1
            try:
                fsmc.trio_run(fsmc.run_path, path, op, drop, fsck, s, plan.max_entries)
            except Violation as v:
                if len(viols) < 8:
                    viols.append((v.sig, f'{v.detail}\nsetup {s}\npath {path}\noperation {op} (cache dropped before: {drop})',
                                  repr((setup, path, op, drop, fsck))))
        res.append((op, h, bool(x.errnos)))
    return res, n, viols


def bfs(rep, plan, wall, name='states', stop_after=30):
    global _PLAN
    _PLAN = plan
    t0 = time.time()
    seen = set()
    edges = execs = 0
    errs = 0
    capped = False
    viols = 0
    levels = []
    frontier = []
    for s, ops in plan.setups.items():
        c = hashlib.md5(repr((model_at(ops).canon())).encode()).digest()
        if c not in seen:
            seen.add(c)
            frontier.append((s, ()))
    depth = 0
    samples = []
    opcount = {}
    while frontier and not viols:
        nxt = []
        levels.append(len(frontier))
        left = wall - (time.time() - t0)
        if left < 1:
            capped = True
            break
        try:
            for item, (res, n, vs) in pmap(_expand, frontier, wall=left):
                execs += n
                for sig, detail, data in vs:
                    viols += bool(rep.violation(sig, detail, {'bfs': data}))
                for op, h, err in res:
                    edges += 1
                    errs += err
                    opcount[op[0]] = opcount.get(op[0], 0) + 1
                    if h not in seen:
                        seen.add(h)
                        if len(samples) < 3 and depth >= 1:
                            samples.append({'setup': item[0], 'path': repr(item[1]), 'op': repr(op)})
                        if depth + 1 < plan.depth_of(item[0]):
                            nxt.append((item[0], item[1] + (op,)))
                if viols >= stop_after:
                    break
        except TimeoutError:
            capped = True
        # deterministic order regardless of completion order
        nxt.sort(key=repr)
        frontier = nxt
        depth += 1
        if capped:
            break
    c = rep.coverage
    c['states'] = c.get('states', 0) + len(seen)
    c['transitions'] = c.get('transitions', 0) + edges
    c['traces_validated_against_impl'] = c.get('traces_validated_against_impl', 0) + execs
    c.setdefault('samples', []).extend(samples)
    c.setdefault('parts', {})[name] = {
        'distinct_reference_states': len(seen),
        'edges': edges,
        'edges_refused_with_errno': errs,
        'executions_of_the_implementation': execs,
        'expanded_states_per_level': levels,
        'operations': opcount,
        'capped': capped,
    }
    c['exhaustive'] = c.get('exhaustive', True) and not capped and not viols
    return viols


def replay(plan, data):
    setup, path, op, drop, fsck = ast.literal_eval(data['bfs'])
    try:
        fsmc.trio_run(fsmc.run_path, path, op, drop, fsck, plan.setups[setup], plan.max_entries)
    except Violation as v:
        print('VIOLATION reproduced:', v.sig, v.detail, sep='\n')
        return 1
    print('no violation')
    return 0
