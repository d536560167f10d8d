'''Evidence, violations, known findings.'''
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, level):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []  # (sig, detail, replay-data)
        self.known = load_known(pid)
        self.known_hit = {}

    def violation(self, sig, detail, replay):
        for k in self.known:
            if k['sig'] == sig:
                self.known_hit.setdefault(sig, (k, detail))
                return False
        if any(v[0] == sig for v in self.violations):
            return True
        self.violations.append((sig, detail, replay))
        return True

    def add_stats(self, name, st, rule=None):
        '''Merge explorer Stats into the coverage'''
        c = self.coverage
        if self.level == 'model_checking':
            # every trace is an execution of the implementation itself
            c['states'] = c.get('states', 0) + st.nodes
            c['transitions'] = c.get('transitions', 0) + (st.counters.get('steps') or st.points)
            c['traces_validated_against_impl'] = c.get('traces_validated_against_impl', 0) + st.executions
            c['distinct_outcomes'] = c.get('distinct_outcomes', 0) + len(st.outcomes)
        else:
            c['evaluations'] = c.get('evaluations', 0) + st.executions
            c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + len(st.outcomes)
        c.setdefault('samples', [])
        c['samples'] = (c['samples'] + st.samples)[:8]
        part = {
            'executions': st.executions,
            'choice_points': st.points,
            'max_points_per_execution': st.max_points,
            'distinct_outcomes': len(st.outcomes),
            'configs': len(st.by_cfg),
            'capped': st.capped,
        }
        if st.divergent:
            part['divergent'] = st.divergent
        part.update(st.counters)
        c.setdefault('parts', {})[name] = part
        c['exhaustive'] = c.get('exhaustive', True) and not st.capped and not st.violations and not st.divergent
        if rule:
            c['rule'] = rule
        for sig, detail, cfgname, tr, used in st.violations:
            self.violation(sig, detail, {'part': name, 'config': cfgname, 'trace': tr, 'used': used})

    def finish(self):
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.level,
            'coverage': self.coverage,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
        with open(path + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1, default=repr)
            fh.write('\n')
        os.replace(path + '.tmp', path)
        for sig, (k, detail) in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        for n, (sig, detail, replay) in enumerate(self.violations):
            safe = re.sub(r'[^A-Za-z0-9_.-]+', '_', sig)[:60]
            rp = os.path.join('evidence', 'replays', f'{self.pid}-{n}-{safe}.json')
            with open(os.path.join(VERIF, rp), 'w') as fh:
                json.dump(
                    {'property': self.pid, 'sig': sig, 'detail': detail, 'replay': replay},
                    fh,
                    indent=1,
                    default=repr,
                )
            print(f'VIOLATION property={self.pid} replay={rp}')
            print(f'  {sig}')
            for line in str(detail).splitlines()[:40]:
                print('   ', line)
        c = {k: v for k, v in self.coverage.items() if k not in ('samples', 'parts')}
        print(f'{self.pid} {self.tier}: {json.dumps(c, default=repr)[:600]} wall={ev["wall_s"]}s')
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    res.append(d)
    return res
