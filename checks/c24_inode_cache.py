'''C24: InodeCache under all operation sequences and cache pressures.'''
import gc

from mc import world
from mc.explore import Violation, explore, run_one
from s3ql import inode_cache as ic

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation sequences on the real InodeCache and SQLite table, for every small cache size, against a reference dictionary'
NOTE = (
    'All sequences of the stated length over 3-4 inodes with cache sizes 1..3 (the module constant is reduced so that eviction '
    'happens in every position); attribute values are unique per write so that a lost or misdirected update is visible.'
)
ATTRS = ('mode', 'refcount', 'uid', 'gid', 'size', 'locked', 'rdev', 'atime_ns', 'mtime_ns', 'ctime_ns')
_db = None


def get_db():
    global _db
    if _db is None:
        d = world.workdir()
        _db = world.new_db(d)
        _db.execute('DELETE FROM contents')
        _db.execute('DELETE FROM names')
    return _db


def table(db):
    return {r[0]: r[1:] for r in db.query(f'SELECT id,{",".join(ATTRS)} FROM inodes')}


def harness(cfg, ch):
    db = get_db()
    cur = db.conn.cursor()
    cur.execute('ROLLBACK') if not db.conn.get_autocommit() else None
    cur.execute('BEGIN')
    with world.quiet_excepthook() as hook:
        try:
            return _run(cfg, ch, db, hook)
        finally:
            cur.execute('ROLLBACK')


def _run(cfg, ch, db, hook):
    db.execute('DELETE FROM inodes')
    orig = ic.CACHE_SIZE
    ic.CACHE_SIZE = cfg['cache']
    trail = []
    try:
        cache = ic.InodeCache(db, 7)
        model = {}
        ids = []
        n = 0

        def fresh():
            nonlocal n
            n += 1
            return {a: (n % 2 if a == 'locked' else n * 16 + i) for i, a in enumerate(ATTRS)}

        def create():
            v = fresh()
            v['locked'] = 0
            kw = {a: x for a, x in v.items() if a != 'locked'}
            ino = cache.create_inode(**kw)
            if ino.id in ids:
                raise Violation('inode number reused', str(ino.id))
            ids.append(ino.id)
            model[ino.id] = v

        for _ in range(cfg['prefill']):
            create()
        last = None  # most recently returned inode object, valid until the next call

        def verify_one(id_, ino):
            exp = model[id_]
            got = {a: getattr(ino, a) for a in ATTRS}
            if {a: int(x) for a, x in got.items()} != exp or ino.id != id_:
                raise Violation('inode does not have its most recent attributes', f'{id_}: {got} expected {exp}')
            ea = ino.entry_attributes()
            if (ea.st_ino, ea.st_size, ea.st_nlink, ea.st_mtime_ns, ea.st_mode, ea.generation) != (
                id_, exp['size'], exp['refcount'], exp['mtime_ns'], exp['mode'], 7):
                raise Violation('entry attributes do not match the inode', f'{id_}')

        for _ in range(cfg['depth']):
            ops = []
            live = [i for i in ids if i in model]
            if len(ids) < cfg['inodes']:
                ops.append(('create', None))
            for i in ids:
                if i in model:
                    ops += [('read', i), ('modify', i), ('edge', i), ('delete', i), ('flush_id', i)]
                else:
                    ops.append(('readgone', i))
            if len(live) > 1:
                ops.append(('modify2', None))
            ops += [('flush', None), ('drop', None)]
            op, a = ops[ch.choose(len(ops), 'op')]
            trail.append((op, ids.index(a) if a in ids else a))
            if op == 'create':
                create()
            elif op == 'read':
                verify_one(a, cache[a])
            elif op == 'modify':
                v = fresh()
                ino = cache[a]
                verify_one(a, ino)
                which = ATTRS if n % 3 else ATTRS[n % len(ATTRS):][:1]
                if 'only' in cfg:
                    which = (cfg['only'],)
                    if n % 2 == 0 and v[cfg['only']]:
                        v[cfg['only']] = 0
                for k in which:
                    setattr(ino, k, v[k])
                    model[a][k] = v[k]
            elif op == 'edge':
                # open inode without links, extreme values
                v = dict(refcount=0, size=n % 2 * (2**62 + n), uid=2**32 - 1 - n, atime_ns=-n, locked=0)
                ino = cache[a]
                for k in v:
                    setattr(ino, k, v[k])
                    model[a][k] = v[k]
            elif op == 'modify2':
                # two inodes in one request, as in rename (get, set, get, set)
                for i in live[:2]:
                    v = fresh()
                    cache[i].mtime_ns = v['mtime_ns']
                    model[i]['mtime_ns'] = v['mtime_ns']
            elif op == 'delete':
                del cache[a]
                del model[a]
            elif op == 'readgone':
                for f in (lambda: cache[a], lambda: cache.__delitem__(a)):
                    try:
                        f()
                    except KeyError:
                        pass
                    else:
                        raise Violation('deleted inode still accessible', str(a))
            elif op == 'flush_id':
                cache.flush_id(a)
                r = table(db).get(a)
                if r is None or list(map(int, r)) != [model[a][k] for k in ATTRS]:
                    raise Violation('flushed inode differs from database', f'{a}: {r} {model[a]}')
            elif op == 'flush':
                cache.flush()
            elif op == 'drop':
                cache.drop()
            if op in ('flush', 'drop'):
                t = table(db)
                if {k: list(map(int, v)) for k, v in t.items()} != {
                    k: [v[x] for x in ATTRS] for k, v in model.items()
                }:
                    raise Violation('database differs from cache after flush', f'{t}\n{model}')
            if set(table(db)) != set(model):
                raise Violation('set of inodes differs', f'{set(table(db))} {set(model)}')
        for i in list(model):
            verify_one(i, cache[i])
        cache.destroy()
        t = table(db)
        if {k: list(map(int, v)) for k, v in t.items()} != {k: [v[x] for x in ATTRS] for k, v in model.items()}:
            raise Violation('database differs from cache after destroy', f'{t}\n{model}')
        del cache
        ino = None
        if hook.seen:
            raise Violation('dirty inode dropped', repr(hook.seen))
    except Violation as exc:
        raise Violation(exc.sig, f'{exc.detail}\ncache size {cfg["cache"]}, sequence {trail}') from None
    except Exception as exc:
        raise Violation(f'unexpected {type(exc).__name__}', f'{exc!r}\ncache size {cfg["cache"]}, sequence {trail}') from exc
    finally:
        ic.CACHE_SIZE = orig
        try:
            attrs = getattr(cache, 'attrs', None)
            for x in list(attrs.values()) if hasattr(attrs, 'values') else ():
                x.dirty = False
            if hasattr(attrs, 'clear'):
                attrs.clear()
        except UnboundLocalError:
            pass
    ch.steps += cfg['depth']
    return tuple(sorted((ids.index(k), v['size'], v['mtime_ns']) for k, v in model.items()))


def configs(tier):
    # changes of a single attribute
    one = [(f'only {a}', dict(cache=c, prefill=2, inodes=2, depth=3, only=a)) for a in ATTRS for c in ((1, 2) if tier != 'quick' else (2,))]
    one = [(f'{n} {c["cache"]}', c) for n, c in one]
    if tier == 'quick':
        return one + [
            (f'size{c}-pre{p}', dict(cache=c, prefill=p, inodes=3, depth=d))
            for c, p, d in ((1, 2, 4), (2, 3, 4), (2, 1, 4), (3, 3, 4))
        ]
    return one + [
        (f'size{c}-pre{p}', dict(cache=c, prefill=p, inodes=i, depth=d))
        for c, p, i, d in ((1, 2, 3, 5), (2, 3, 3, 5), (2, 2, 3, 5), (2, 4, 4, 4), (3, 3, 4, 5), (3, 4, 4, 4))
    ]


def run(rep, tier):
    st = explore(harness, configs(tier), {}, wall=150 if tier == 'quick' else 3000)
    rep.add_stats('sequences', st, 'every operation sequence of the stated depth for every listed cache size')


def replay(data):
    cfg = dict((c[0], c[1]) for c in configs('thorough') + configs('quick'))[data['config']]
    _, out, viol, _ = run_one(harness, cfg, [tuple(x) for x in data['trace']])
    print('VIOLATION reproduced: %s\n%s' % (viol.sig, viol.detail) if viol else f'no violation: {out}')
    return 1 if viol else 0
