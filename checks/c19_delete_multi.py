'''C19: bulk deletion on every backend; every fault at every request, every outcome for every key.'''
import errno
import io
import os
import shutil
import tempfile
import urllib.parse

import trio

from mc import cloud
from mc.explore import Chooser, Divergence, Violation, explore, run_one
from mc.sched import Deadlock, StepLimit, run_controlled

from checks import c20_remote as c20
from s3ql.backends import s3c4
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.authinfo import CompressSpec
from s3ql.backends.local import AsyncBackend as LocalBackend

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of per-key outcomes, transient and permanent faults at every request, cancellation points and schedules of the real bulk deletion code of every backend against simulated servers; key list compared with the objects that are left'
NOTE = (
    'delete_multi of the local, S3, S3-compatible (v2 and v4 signatures), B2, Swift (with and without bulk middleware), Keystone and Google backends, '
    'directly and through the encryption layer; 0 to 7 keys around the batch limit, missing and duplicate keys; every outcome of every key '
    '(temporary error, access denied, missing, middleware abort), every fault of C20 plus permanent errors and cancellation at every request; '
    'schedules of the parallel workers within a deviation bound; one run with the real limit of 1000 keys.'
)

OBJ = {f'k{i}': (b'x%d' % i, {}) for i in range(1, 8)} | {'other': (b'<&>"', {}), 'k': (b'short', {}), 'k11': (b'long', {})}

PERMANENT = {
    's3': ('403 AccessDenied', cloud.xml_error(403, 'Forbidden', 'AccessDenied')),
    'swift': ('403', cloud.plain_error(403, 'Forbidden')),
    'gs': ('403', cloud.json_error(403, 'Forbidden', 'Forbidden')),
}
# outcome -> permanent?
VERDICTS = {
    's3': {'InternalError': False, 'SlowDown': False, 'AccessDenied': True},
    'swift': {
        '503 Service Unavailable': False,
        '401 Unauthorized': False,
        '409 Conflict': True,
        'abort 500 Internal Error/': False,
        'abort 502 Bad Gateway/upstream': False,
        'abort 400 Bad Request/Invalid File Name': True,
    },
}


class _Cancel:
    '''Adds permanent errors and cancellation to the faults of a server'''

    def special(self, req):
        out = super().special(req)
        if self.cancel is not None:
            out = [*out, ('cancel',), ('cancel-after',)]
        return out

    def do_special(self, conn, req, f):
        if f[0] == 'cancel':
            self.cancel.cancel()
        elif f[0] == 'cancel-after':
            conn.reply(self.process(req))
            self.cancel.cancel()
        else:
            super().do_special(conn, req, f)


_classes = {}


def server(kind, opt):
    sv = c20.make_server(kind, opt, bulk=opt.get('bulk'))
    fam = c20.family(kind)
    base = type(sv)
    if base not in _classes:
        _classes[base] = type('C' + base.__name__, (_Cancel, base), {})
    sv.__class__ = _classes[base]
    sv.cancel = None
    sv.temp_errors = (*type(sv).temp_errors, PERMANENT[fam])
    return sv


def check_result(what, orig, keys, before, after, pre, error, must_succeed, confirmed, inj):
    """The oracle; *before* and *after* map full names to objects"""
    ctx = f'{what} after {inj}: error {error!r}, keys {orig} -> {keys}'
    left = list(orig)
    for k in keys:
        if k not in left:
            raise Violation('key list contains a key that was not requested', ctx)
        left.remove(k)
    for k, o in before.items():
        if k.startswith(pre) and k[len(pre) :] in orig:
            continue
        if after.get(k) is not o and after.get(k) != o:
            raise Violation('object that should not be deleted is gone or changed', f'{ctx}: {k}')
    if set(after) - set(before):
        raise Violation('bulk deletion creates objects', f'{ctx}: {set(after) - set(before)}')
    exist = [k for k in dict.fromkeys(orig) if pre + k in after]
    if error is None:
        if exist:
            raise Violation('bulk deletion succeeds but objects are left', f'{ctx}: {exist}')
        if keys:
            raise Violation('bulk deletion succeeds but the key list is not empty', ctx)
    for k in exist:
        if k not in keys:
            raise Violation('key removed from the list but object not deleted', f'{ctx}: {k}')
    for k in keys:
        if k in confirmed and k not in exist and orig.count(k) == 1:
            raise Violation('key still in the list although its deletion was confirmed', f'{ctx}: {k}')
    if error is not None and must_succeed:
        raise Violation('bulk deletion fails because of a transient failure', ctx)


def seeded(kind, opt):
    key = (kind, 'c19', opt.get('prefix', c20.PRE))
    if key not in c20._seeded:
        sv = c20.make_server(kind, opt)
        async def main(ctl):
            be = await c20.make_backend(kind, opt)
            await c20.seed(be, OBJ)
            await be.close()

        with sv.net.installed(), c20.environment():
            run_controlled(main, Chooser(), threads='none')
        c20._seeded[key] = sv.objs
    return c20._seeded[key]


def harness(cfg, ch):
    kind, opt, orig = cfg
    fam = c20.family(kind)
    pre = opt.get('prefix', c20.PRE)
    before = seeded(kind, opt)
    sv = server(kind, opt)
    conns = opt.get('conns', 1)
    permanent = []
    bulk = fam == 's3' and kind != 's3c' or fam == 'swift' and opt.get('bulk')
    saved = getattr(s3c4, 'MAX_KEYS', None)
    if 'real_limit' not in opt and saved is not None:
        s3c4.MAX_KEYS = sv.limit = opt.get('limit', 2)

    def per_key(k):
        if sv.ch is None:
            return None
        if k not in sv.objs:
            if fam == 's3' and sv.ch.choose(2, f'missing {k}', 'key'):
                return 'NoSuchKey'
            return None
        v = list(VERDICTS[fam])
        c = sv.ch.choose(len(v) + 1, f'outcome {k}', 'key')
        if not c:
            return None
        sv.injected.append(f'{k}: {v[c - 1]}')
        if VERDICTS[fam][v[c - 1]]:
            permanent.append(k)
        return v[c - 1]

    if bulk and 'key' not in opt.get('without', ()):
        sv.per_key = per_key
    if opt.get('faults') is not None:
        names = opt['faults']
        sv.faults = lambda f: f[0] in names

    keys = list(orig)
    what = f'{kind} {opt}'
    state = {}

    async def main(ctl):
        be = await c20.make_backend(kind, opt, conns)
        user = be
        if opt.get('comprenc'):
            user = await AsyncComprencBackend.create(b"secret", CompressSpec("zlib", 6), be)
        sv.objs = before
        sv.n = 0
        sv.log.clear()
        sv.seen.clear()
        state['error'] = None
        with trio.CancelScope() as scope:
            if opt.get('cancel'):
                sv.cancel = scope
            sv.ch = ch
            ctl.active = True
            try:
                await user.delete_multi(keys, log_progress=opt.get('progress', False))
            except (Divergence, Violation):
                raise
            except trio.Cancelled:
                state['error'] = 'cancelled'
                raise
            except BaseException as exc:
                rest = exc.split(trio.Cancelled)[1] if isinstance(exc, BaseExceptionGroup) else exc
                state['error'] = c20.describe(rest) if rest is not None else 'cancelled'
                if rest is None or not isinstance(rest, Exception):
                    raise
            finally:
                ctl.active = False
                sv.ch = None
                sv.cancel = None
                state['keys'] = list(keys)
        conf = set()
        for req, f in sv.seen:
            if f is None or f[0] == 'reply-hangup':
                if hasattr(req, 'done'):
                    conf |= {k[len(pre) :] for k in req.done}
        perm = permanent or any(PERMANENT[fam][0] in x and 'error' in x for x in sv.injected) or any('cancel' in x for x in sv.injected)
        # several faults of a request may use up the time limit only if they persist
        check_result(what, orig, state['keys'], before, sv.objs, pre, state['error'], not perm, conf if bulk else generic_confirmed(sv, pre, conns), sv.injected)
        await be.close()
        return repr((sv.log, state['keys'], type(state['error']).__name__))

    try:
        with sv.net.installed(), c20.environment():
            return run_controlled(main, ch, threads='none')
    except (Violation, Divergence):
        raise
    except (Deadlock, StepLimit) as exc:
        raise Violation('bulk deletion never finishes', f'{what} {orig} after {sv.injected}: {exc!r}') from None
    except BaseException as exc:
        e = c20.describe(exc)
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception):
            raise
        raise Violation('bulk deletion fails unexpectedly', f'{what} {orig} after {sv.injected}: {e!r} ({e})') from None
    finally:
        if saved is not None:
            s3c4.MAX_KEYS = saved


def generic_confirmed(sv, pre, conns):
    '''Keys whose single-object deletion was acknowledged (only with one worker, which reads the reply before going on)'''
    if conns > 1:
        return set()
    out = set()
    for i, (req, f) in enumerate(sv.seen):
        if f is None and req.method == 'DELETE':
            p = urllib.parse.unquote(req.target.partition('?')[0])
            j = p.find(pre)
            if j >= 0:
                out.add(p[j + len(pre) :])
    return out


# -- local backend

def local_harness(cfg, ch):
    orig, opt = cfg
    d = tempfile.mkdtemp(prefix='c19-')
    real = os.unlink
    inj = []
    perm = []

    async def main(ctl):
        be = await LocalBackend.create(storage_url='local://' + d, backend_options={}, max_connections=opt.get('conns', 1))
        user = await AsyncComprencBackend.create(b"secret", CompressSpec("zlib", 6), be) if opt.get('comprenc') else be
        for k, (b, m) in OBJ.items():
            await be.write_fh(k, io.BytesIO(b), dict(m))
        before = {k: OBJ[k] for k in OBJ}
        keys = list(orig)
        done = set()
        error = None
        scope = trio.CancelScope()

        def unlink(path, *a, **kw):
            if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(d):
                kinds = ['EIO', 'EACCES', 'cancel']
                c = ch.choose(4, f'unlink {os.path.basename(path)}', 'fault')
                if c:
                    inj.append(f'unlink {os.path.basename(path)}: {kinds[c - 1]}')
                if c == 3:
                    scope.cancel()
                elif c:
                    raise OSError(getattr(errno, kinds[c - 1]), 'injected', path)
            return real(path, *a, **kw)

        os.unlink = os.remove = unlink
        try:
            with scope:
                try:
                    await user.delete_multi(keys, log_progress=opt.get('progress', False))
                except trio.Cancelled:
                    error = 'cancelled'
                    raise
                except OSError as exc:
                    error = exc
                except BaseExceptionGroup as exc:
                    error = c20.describe(exc)
        finally:
            os.unlink = os.remove = real
        after = {}
        async for k in be.list():
            b = io.BytesIO()
            m = await be.readinto_fh(k, b)
            after[k] = (b.getvalue(), dict(m))
        gone = {k for k in orig if k not in after and k in before}
        check_result(f'local {opt}', orig, keys, before, after, '', error, not inj, gone if opt.get('conns', 1) == 1 else set(), inj)
        await be.close()
        return repr((inj, keys))

    try:
        return run_controlled(main, ch, threads='none')
    except (Deadlock, StepLimit) as exc:
        raise Violation('bulk deletion never finishes', f'local {orig} {opt}: {exc!r}') from None
    except (Violation, Divergence):
        raise
    except BaseException as exc:
        e = c20.describe(exc)
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception):
            raise
        raise Violation('bulk deletion fails unexpectedly', f'local {orig} {opt} after {inj}: {e!r}') from None
    finally:
        os.unlink = os.remove = real
        shutil.rmtree(d)


def configs(tier):
    q = tier == 'quick'
    sets = [['k1'], ['k1', 'k2'], ['k1', 'k2', 'k3'], ['k1', 'gone', 'k3', 'k4'], ['k5', 'k1', 'k4', 'k2', 'k3']]
    kinds = [(k, {}) for k in c20.KINDS] + [('swift', {'bulk': 2}), ('swiftks', {'bulk': 2}), ('swift', {'bulk': 3}), ('s3c4', {'limit': 3})]
    for kind, o in kinds:
        bulk = o.get('bulk') or kind in ('s3c4', 's3', 'b2')
        n = f'{kind} {o}'
        yield f'{n} empty', (kind, o, []), {}
        for s in sets:
            # every combination of outcomes of up to three keys; one fault at any request
            if bulk:
                yield f'{n} {s} outcomes', (kind, {**o, 'faults': ()}, s), {'key': (3 if len(s) < 4 else 2) if q else 4}
            yield f'{n} {s} faults', (kind, {**o, 'cancel': True}, s), {'fault': 1, 'key': 1 if bulk and len(s) < 4 else 0}
        yield f'{n} comprenc', (kind, {**o, 'comprenc': True, 'progress': True}, sets[2]), {'fault': 1, 'key': 1}
        yield f'{n} duplicates', (kind, {**o, 'faults': ('drop', 'lost', 'error')}, ['k1', 'k2', 'k1', 'k3']), {'fault': 1, 'key': 1}
        yield f'{n} prefix', (kind, {**o, 'prefix': "p e+r&c%41'~/\u00fc/<x>", 'faults': ('error',)}, ['k1', 'gone', 'k2']), {'fault': 1, 'key': 2}
        if not q or kind not in ('swiftks', 's3', 'b2'):
            yield f'{n} two faults', (kind, {**o, 'faults': ('lost', 'error') if q else None}, sets[2]), {'fault': 2, 'key': 1}
        if not bulk:
            for c in (2, 3) if q else (2, 3, 4):
                f = ('error', 'lost', 'cancel', 'cancel-after')
                b = {'fault': 1, 'sched': 1 if q else 2}
                yield f'{n} {c} workers', (kind, {**o, 'conns': c, 'faults': f, 'cancel': True}, sets[3]), b
                if not q:
                    yield f'{n} {c} workers, two faults', (kind, {**o, 'conns': c, 'faults': f, 'cancel': True}, sets[4]), {'fault': 2, 'sched': 1}
    for kind in ('s3', 's3c4'):
        many = [f'm{i}' for i in range(998)] + ['k1', 'k2', 'k3']
        yield f'{kind} real limit', (kind, {'real_limit': True, 'without': ('key',), 'faults': ('error', 'lost')}, many), {'fault': 1}


def local_configs(tier):
    sets = [[], ['k1'], ['k1', 'gone', 'k3', 'k4'], ['k5', 'k1', 'k4', 'k2', 'k3'], ['k1', 'k2', 'k1']]
    for s in sets:
        for o in ({}, {'comprenc': True, 'progress': True}, {'conns': 3}):
            yield f'local {s} {o}', (s, o), {'fault': 2}


def run(rep, tier):
    q = tier == 'quick'
    st = explore(local_harness, list(local_configs(tier)), {}, wall=60, check_determinism=True)
    rep.add_stats('local', st)
    st = explore(harness, list(configs(tier)), {}, wall=110 if q else 3000, check_determinism=True)
    rep.add_stats('remote', st)
    rep.coverage['rule'] = (
        'every combination of up to three (thorough: four) key outcomes; every fault at every request, combined with one key outcome; '
        'pairs of faults for three keys; schedules of 2-4 workers within the deviation bound'
    )


def replay(data):
    for h, cf in ((local_harness, local_configs), (harness, configs)):
        for tier in ('quick', 'thorough'):
            for n, c, *_ in cf(tier):
                if n == data['config']:
                    r = run_one(h, c, tuple(data['trace']))
                    print(r[2] and r[2].sig, r[2] and r[2].detail)
                    return 1 if r[2] else 0
    return 2
