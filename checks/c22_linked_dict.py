'''C22: LinkedDict against a reference ordered map, all operation sequences up to a depth.'''
from mc.explore import Violation, explore, run_one
from s3ql._linked_dict import LinkedDict

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation sequences on the real LinkedDict (incl. interleaved live iterators) against a reference ordered map'
NOTE = 'All sequences of the stated length over 3 keys and 2 concurrently live mutation-safe iterators; symmetric keys are introduced in a fixed order.'
KEYS = ('a', 'b', 'c', 'd')


class It:
    '''A live iterator and what it has to deliver'''

    def __init__(self, d, model):
        self.it = d.mutable_values()
        self.must = None  # elements present at the first step and never moved/removed since
        self.visited = []
        self.tainted = set()
        self.order = {}

    def step(self, model):
        '''Advance; returns False when exhausted'''
        if self.must is None:
            self.must = [inc for _, _, inc in model]
            self.order = {inc: n for n, inc in enumerate(self.must)}
        try:
            v = next(self.it)
        except StopIteration:
            for inc in self.must:
                if inc not in self.tainted and inc not in self.visited:
                    raise Violation('iteration skipped an element that was present throughout', f'{inc} not in {self.visited}')
            return False
        hit = [m for m in model if m[1] is v]
        if not hit:
            raise Violation('iteration yielded a value that is not in the mapping', repr(v))
        inc = hit[0][2]
        if inc in self.visited and inc not in self.tainted:
            raise Violation('iteration yielded an unmoved element twice', f'{inc} {self.visited}')
        if inc in self.order and inc not in self.tainted:
            for o in self.visited:
                if o in self.order and o not in self.tainted and self.order[o] > self.order[inc]:
                    raise Violation('iteration out of order', f'{o} before {inc}')
        self.visited.append(inc)
        return True


class Val:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'v{self.n}'

    # values may be anything

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


def value(n):
    return None if n == 2 else Val(n)


def check(d, model):
    if len(d) != len(model):
        raise Violation('wrong length', f'{len(d)} != {len(model)}')
    got = list(d.mutable_values())
    if len(got) != len(model) or any(g is not m[1] for g, m in zip(got, model)):
        raise Violation('order or contents differ from the reference map', f'{got} != {model}')
    exp = {m[0]: m[1] for m in model}
    if dict(d.items()) != exp or set(d.keys()) != set(exp) or set(d) != set(exp):
        raise Violation('items/keys differ', f'{dict(d.items())} != {exp}')
    if sorted(map(id, d.values())) != sorted(map(id, exp.values())):
        raise Violation('values differ', '')
    for k in KEYS:
        if (k in d) != (k in exp) or d.get(k, 7) is not exp.get(k, 7):
            raise Violation('membership or get() differs', k)
        try:
            x = d[k]
        except KeyError:
            x = None
        if x is not exp.get(k):
            raise Violation('lookup differs', k)


def harness(cfg, ch):
    d = LinkedDict()
    model = []  # [key, value, incarnation]
    its = []
    cnt = 0
    used = 0
    trail = []
    for k in KEYS[: cfg.get('prefill', 0)]:
        cnt += 1
        v = value(cnt)
        d[k] = v
        model.append((k, v, cnt))
        used += 1
    nkeys = cfg['keys']
    for _ in range(cfg['depth']):
        ops = []
        for i in range(min(used + 1, nkeys)):
            ops.append(('set', KEYS[i]))
        for i in range(used):
            ops += [('del', KEYS[i]), ('pop', KEYS[i]), ('move', KEYS[i])]
        if len(its) < cfg['iters']:
            ops.append(('iter', None))
        for n, it in enumerate(its):
            if it is not None:
                ops += [('next', n), ('close', n)]
        op, a = ops[ch.choose(len(ops), 'op')]
        trail.append((op, a))
        present = [m for m in model if m[0] == a] if isinstance(a, str) else []
        try:
            if op == 'set':
                cnt += 1
                v = value(cnt)
                d[a] = v
                if present:
                    i = model.index(present[0])
                    model[i] = (a, v, present[0][2])
                else:
                    used = max(used, KEYS.index(a) + 1)
                    model.append((a, v, cnt))
            elif op in ('del', 'pop', 'move'):
                try:
                    if op == 'del':
                        del d[a]
                    elif op == 'pop':
                        r = d.pop(a)
                        if present and r is not present[0][1]:
                            raise Violation('pop returned the wrong value', f'{r}')
                    else:
                        d.move_to_tail(a)
                    ok = True
                except KeyError:
                    ok = False
                if ok != bool(present):
                    raise Violation('KeyError behaviour differs', f'{op} {a}')
                if present:
                    for it in its:
                        if it:
                            it.tainted.add(present[0][2])
                    model.remove(present[0])
                    if op == 'move':
                        model.append(present[0])
            elif op == 'iter':
                its.append(It(d, model))
            elif op == 'next':
                if not its[a].step(model):
                    its[a] = None
            elif op == 'close':
                its[a].it.close()
                its[a] = None
            check(d, model)
        except Violation as exc:
            raise Violation(exc.sig, f'{exc.detail}\nsequence {trail}') from None
        except Exception as exc:
            raise Violation(f'unexpected {type(exc).__name__}', f'{exc}\nsequence {trail}') from exc
    try:
        # without further mutation every iterator ends
        for it in its:
            n = 0
            while it is not None and it.step(model):
                n += 1
                if n > len(model):
                    raise Violation('iteration does not terminate', '')
        check(d, model)
    except Violation as exc:
        raise Violation(exc.sig, f'{exc.detail}\nsequence {trail} then drain') from None
    ch.steps += cfg['depth']
    return tuple(m[0] for m in model), tuple(len(i.visited) if i else -1 for i in its)


def configs(tier):
    if tier == 'quick':
        return [
            ('from-empty', dict(keys=3, iters=2, depth=6)),
            ('prefilled', dict(keys=3, iters=2, depth=5, prefill=3)),
        ]
    return [
        ('from-empty', dict(keys=3, iters=2, depth=6)),
        ('prefilled', dict(keys=4, iters=2, depth=5, prefill=4)),
        ('prefilled-3it', dict(keys=3, iters=3, depth=6, prefill=3)),
    ]


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=150 if tier == 'quick' else 3000)
    rep.add_stats('sequences', st, 'every operation sequence of the stated depth, fully enumerated')


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough') + configs('quick'))[data['config']]
    _, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation: {out}')
    return 1 if viol else 0
