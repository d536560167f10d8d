'''C20: remote backends against simulated servers; every transient fault at every request.'''
import contextlib
import io
import random

import trio

from mc import cloud, net
from mc.explore import Chooser, Divergence, Violation, explore, pmap, run_one
from mc.net import resp
from mc.sched import Deadlock, StepLimit, run_controlled

from s3ql.backends import b2ng, gs, s3, s3c, s3c4, swift, swiftks
from s3ql.backends import common
from s3ql.backends.common import AuthenticationError, AuthorizationError, CorruptedObjectError, DanglingStorageURLError, NoSuchObject

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of transient faults (and pairs of faults) at every connection, request body, request and response of every operation of the real S3, S3-compatible, B2, Swift, Keystone and Google Storage backends against simulated servers; result and object set compared with the fault-free run'
NOTE = (
    'Every operation of seven backends x (refused/lost connections, drop before or after processing, truncation of the response, 100-continue refusals, '
    'early errors, ten transient error responses, token expiry, damaged transfers) x all single faults and pairs of faults; permanent errors separately. '
    'Virtual time, no TLS; concurrent users with token expiry under a controlled scheduler.'
)

META = {'a': 1, 'data': b'\x00\xff~', 'x': "it's %41 & \u00fc", 'f': 0.5, 'n': None, 'long': 'z' * 300}
PRE = 'pre/'
SEED = {
    'k1': (b'first object', {'a': 'one'}),
    'k2': (b'', {}),
    's3ql_data_3': (bytes(range(256)) * 300, {'b': b'two', 'c': True}),
    'other': (b'<&>"', {}),
}


class _Tls:
    pass


@contextlib.contextmanager
def environment():
    '''No random delays; no TLS contexts (TLS itself is not simulated)'''
    saved = [(random, 'uniform', random.uniform)]
    random.uniform = lambda a, b: a
    for m in (s3c, swift, gs, common):
        if hasattr(m, 'get_ssl_context'):
            saved.append((m, 'get_ssl_context', m.get_ssl_context))
            ctx = None if m is gs else _Tls()
            m.get_ssl_context = lambda p, ctx=ctx: ctx
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


def make_server(kind, opt, bulk=None):
    cut, style = opt.get('cut', 'class'), opt.get('style', 'length')
    kw = {'cut': cut, 'page': opt.get('page', 2)}
    if kind == 's3c':
        sv = cloud.S3Server(secret='pass', sig=2, missing=opt.get('missing', 'xml'), check_md5=opt.get('check_md5', True), **kw)
    elif kind == 's3c4':
        sv = cloud.S3Server(secret='pass', sig=4, region='us-east-1', missing=opt.get('missing', 'xml'), check_md5=opt.get('check_md5', True), **kw)
    elif kind == 's3':
        sv = cloud.S3Server(secret='pass', sig=4, region='eu-west-1', **kw)
    elif kind == 'b2':
        sv = cloud.S3Server(bucket='bucket', secret='pass', sig=4, region='eu-central-003', **kw)
    elif kind in ('swift', 'swiftks'):
        sv = cloud.SwiftServer(bulk=bulk, **kw)
    else:
        sv = cloud.GSServer(**kw)
    sv.style = style
    return sv


async def make_backend(kind, opt, conns=1):
    mod = {'s3c': s3c, 's3c4': s3c4, 's3': s3, 'b2': b2ng, 'swift': swift, 'swiftks': swiftks, 'gs': gs}[kind]
    pre = opt.get('prefix', PRE)
    url = {
        's3c': 's3c://host.test:8000/bkt/' + pre,
        's3c4': 's3c4://host.test:8000/bkt/' + pre,
        's3': 's3://eu-west-1/bkt/' + pre,
        'b2': 'b2://bucket/' + pre,
        'swift': 'swift://auth.test:8000/cont/' + pre,
        'swiftks': 'swiftks://auth.test:8000/reg:cont/' + pre,
        'gs': 'gs://!unittest!gs.test:443/bkt/' + pre,
    }[kind]
    options = {} if kind == 'gs' else {'no-ssl': True}
    if opt.get('noexpect') and kind not in ('gs', 's3'):
        options['disable-expect100'] = True
    login, pw = ('oauth2', 'refresh') if kind == 'gs' else ('user', 'pass')
    if kind == 'gs':
        gs.AsyncBackend._tokens.clear()
        gs.AsyncBackend._refresh_lock = trio.Lock()
    be = await mod.AsyncBackend.create(
        storage_url=url, backend_options=options, backend_login=login, backend_password=pw, max_connections=conns
    )
    if opt.get('tls') and hasattr(be, 'ssl_context'):
        be.ssl_context = _Tls()
        if be.port == 80:
            be.port = 443
    return be


async def seed(be, objs=SEED):
    for k, (b, m) in objs.items():
        await be.write_fh(k, io.BytesIO(b), dict(m))


def seed_objects(kind, opt):
    key = (kind, opt.get('prefix', PRE))
    if key not in _seeded:
        sv = make_server(kind, opt)

        async def main(ctl):
            be = await make_backend(kind, opt)
            await seed(be)
            await be.close()

        with sv.net.installed(), environment():
            run_controlled(main, Chooser(), threads='none')
        _seeded[key] = sv.objs
    return _seeded[key]


# operation: (name, coroutine(be, model) -> result, expected(model) -> result)
class Op:
    def __init__(self, name, *args):
        self.name, self.args = name, args

    def __repr__(self):
        return f'{self.name}{self.args!r:.60}'

    async def run(self, be):
        a = self.args
        if self.name == 'write':
            return await be.write_fh(a[0], io.BytesIO(a[1]), dict(a[2]))
        if self.name == 'read':
            fh = io.BytesIO(b'##head##' + b'!' * a[1])
            fh.seek(8)
            fh.truncate()
            m = await be.readinto_fh(a[0], fh)
            return fh.getvalue(), dict(m)
        if self.name == 'lookup':
            return dict(await be.lookup(a[0]))
        if self.name == 'size':
            return await be.get_size(a[0])
        if self.name == 'contains':
            return await be.contains(a[0])
        if self.name == 'delete':
            return await be.delete(a[0])
        if self.name == 'list':
            return sorted([k async for k in be.list(*a)])
        raise AssertionError(self.name)

    def expect(self, model):
        a = self.args
        if self.name in ('read', 'lookup', 'size') and a[0] not in model:
            return NoSuchObject
        if self.name == 'write':
            model[a[0]] = (a[1], dict(a[2]))
            return len(a[1])
        if self.name == 'read':
            return b'##head##' + model[a[0]][0], model[a[0]][1]
        if self.name == 'lookup':
            return model[a[0]][1]
        if self.name == 'size':
            return len(model[a[0]][0])
        if self.name == 'contains':
            return a[0] in model
        if self.name == 'delete':
            model.pop(a[0], None)
            return None
        if self.name == 'list':
            return sorted(k for k in model if k.startswith(a[0] if a else ''))


BIG = bytes(range(256)) * 700

OPS = [
    Op('write', 'new', b'fresh data', META),
    Op('write', 'k1', BIG, {}),
    Op('write', 'k1', b'', {'e': ''}),
    Op('read', 'k1', 0),
    Op('read', 's3ql_data_3', 4),
    Op('read', 'missing', 0),
    Op('lookup', 's3ql_data_3'),
    Op('lookup', 'missing'),
    Op('size', 's3ql_data_3'),
    Op('size', 'missing'),
    Op('contains', 'k2'),
    Op('contains', 'missing'),
    Op('delete', 'k1'),
    Op('delete', 'missing'),
    Op('list'),
    Op('list', 's3ql_'),
]

_seeded = {}


def describe(exc):
    while isinstance(exc, BaseExceptionGroup):
        exc = exc.exceptions[0]
    return exc


def harness(cfg, ch):
    kind, opt, ops, create_faults = cfg
    seeded = seed_objects(kind, opt)
    sv = make_server(kind, opt)
    where = []
    base = None

    async def main(ctl):
        nonlocal base
        if create_faults:
            sv.ch = ch
            where.append('create')
            be = await make_backend(kind, opt)
            sv.ch = None
        else:
            be = await make_backend(kind, opt)
        base = sv.objs = seeded
        sv.n = 0
        sv.log.clear()
        model = {k: (b, dict(m)) for k, (b, m) in SEED.items()}
        for op in ops:
            where.append(repr(op))
            # a read appends to whatever the caller has at this position
            want = op.expect(model)
            sv.ch = ch
            try:
                got = await op.run(be)
            except NoSuchObject:
                got = NoSuchObject
            except (Divergence, Violation):
                raise
            except Exception as exc:
                exc = describe(exc)
                if tolerated(kind, sv, exc):
                    sv.ch = None
                    await check_store(be, sv, base, opt.get('prefix', PRE), model, op, where, failed=True)
                    await be.close()
                    return 'failed: ' + type(exc).__name__
                raise Violation('transient failure surfaces as an error', f'{kind}: {op} after {sv.injected}: {exc!r} ({exc})') from None
            finally:
                sv.ch = None
            if got != want:
                raise Violation('wrong result', f'{kind}: {op} after {sv.injected}: got {got!r:.200}, expected {want!r:.200}')
        await check_store(be, sv, base, opt.get('prefix', PRE), model, None, where)
        await be.close()
        return repr(sv.log)

    try:
        with sv.net.installed(), environment():
            return run_controlled(main, ch, threads='none')
    except (Violation, Divergence):
        raise
    except (Deadlock, StepLimit) as exc:
        raise Violation('operation never finishes', f'{kind}: {where[-1:]} after {sv.injected}: {exc!r}') from None
    except BaseException as exc:
        e = describe(exc)
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception) or isinstance(e, AssertionError) and not sv.injected:
            raise
        raise Violation('transient failure surfaces as an error', f'{kind}: {where[-1:]} after {sv.injected}: {e!r} ({e})') from None


def tolerated(kind, sv, exc):
    '''A damaged (rather than lost) transfer may be reported instead of being retried'''
    return any('corrupt' in x for x in sv.injected) and isinstance(exc, (s3c.BadDigestError, CorruptedObjectError))


async def check_store(be, sv, base, pre, model, op, where, failed=False):
    names = {k[len(pre) :]: o for k, o in sv.objs.items()}
    for k in set(names) | set(model):
        if failed and op is not None and op.args and op.args[0] == k:
            continue
        if k not in names:
            raise Violation('object is missing from the store', f'{where} {k} after {sv.injected}')
        if k not in model:
            raise Violation('object should not be in the store', f'{where} {k} after {sv.injected}')
        if names[k].body != model[k][0]:
            raise Violation('stored object differs', f'{where} {k} after {sv.injected}: {names[k].body!r:.80}')
        if names[k] is base.get(pre + k) and k in SEED and model[k] == SEED[k]:
            continue
        if dict(await be.lookup(k)) != model[k][1]:
            raise Violation('stored metadata differs', f'{where} {k} after {sv.injected}')


KINDS = ['s3c', 's3c4', 's3', 'b2', 'swift', 'swiftks', 'gs']

# -- permanent failures

PERM = {
    's3': [
        (cloud.xml_error(403, 'Forbidden', 'AccessDenied'), AuthorizationError),
        (cloud.xml_error(403, 'Forbidden', 'InvalidAccessKeyId'), AuthenticationError),
        (cloud.xml_error(403, 'Forbidden', 'SignatureDoesNotMatch'), AuthenticationError),
        (cloud.xml_error(403, 'Forbidden', 'InvalidSecurity'), AuthenticationError),
        (cloud.xml_error(404, 'Not Found', 'NoSuchBucket'), DanglingStorageURLError),
        (cloud.xml_error(400, 'Bad Request', 'InvalidArgument'), Exception),
        (cloud.xml_error(405, 'Method Not Allowed', 'MethodNotAllowed'), Exception),
        (cloud.xml_error(403, 'Forbidden', 'Whatever'), Exception),
        (cloud.plain_error(501, 'Not Implemented'), Exception),
        (cloud.plain_error(403, 'Forbidden'), Exception),
        (cloud.plain_error(511, 'Network Authentication Required'), Exception),
        (cloud.plain_error(302, 'Found', [('Location', 'http://captive.portal/')]), Exception),
    ],
    'swift': [
        (cloud.plain_error(403, 'Forbidden'), Exception),
        (cloud.plain_error(400, 'Bad Request'), Exception),
        (cloud.plain_error(501, 'Not Implemented'), Exception),
        (cloud.plain_error(413, 'Too Large', chunk=True), Exception),
        (cloud.plain_error(511, 'Network Authentication Required'), Exception),
        (cloud.plain_error(302, 'Found', [('Location', 'http://captive.portal/')]), Exception),
    ],
    'gs': [
        (cloud.json_error(403, 'Forbidden', 'Forbidden'), AuthorizationError),
        (cloud.json_error(403, 'Forbidden', 'Login Required'), AuthenticationError),
        (cloud.json_error(400, 'Bad Request', 'Invalid argument'), Exception),
        (cloud.plain_error(403, 'Forbidden'), Exception),
        (cloud.plain_error(302, 'Found', [('Location', 'http://captive.portal/')]), Exception),
    ],
}


def family(kind):
    return {'swift': 'swift', 'swiftks': 'swift', 'gs': 'gs'}.get(kind, 's3')


def attempt(kind, opt, op, prep):
    """Run *op* with the server prepared by prep(sv); returns (result or exception, server, objs before, n requests, virtual time)"""
    sv = make_server(kind, opt)
    out = {}

    async def main(ctl):
        be = None
        if op is not None:
            be = await make_backend(kind, opt)
            await seed(be)
        out['before'] = sv.objs
        n = sv.n
        t = trio.current_time()
        prep(sv)
        try:
            out['res'] = await (op.run(be) if op is not None else make_backend(kind, opt))
        except Exception as exc:
            out['res'] = describe(exc)
        out['n'] = sv.n - n
        out['t'] = trio.current_time() - t

    with sv.net.installed(), environment():
        run_controlled(main, Chooser(), threads='none')
    return out['res'], sv, out['before'], out['n'], out['t']


def perm_items():
    for kind in KINDS:
        for i in range(len(PERM[family(kind)])):
            for j in range(len(OPS)):
                yield 'permanent', kind, i, j
        yield 'auth', kind, 0, 0
        yield 'bucket', kind, 0, 0
        for j in (0, 3, 6, 12, 14):
            yield 'persistent', kind, 0, j


def perm(item):
    what, kind, i, j = item
    op = OPS[j]
    if what == 'permanent':
        mk, want = PERM[family(kind)][i]
        heads = op.name in ('lookup', 'size', 'contains') and family(kind) == 's3'
        if heads and want is DanglingStorageURLError:
            return None  # the reply to a HEAD request does not say what is missing
        r, sv, before, n, _ = attempt(kind, {}, op, lambda sv: setattr(sv, 'permanent', mk))
        if not isinstance(r, Exception) or isinstance(r, NoSuchObject):
            return ('permanent failure is not reported', f'{kind}: {op} with {mk(_REQ)[:60]}: {r!r:.200}')
        if not heads and not isinstance(r, want):
            return ('permanent failure is reported as the wrong error', f'{kind}: {op} with {mk(_REQ)[:60]}: {r!r}')
        if n > 3:
            return ('permanent failure is retried', f'{kind}: {op} with {mk(_REQ)[:60]}: {n} requests')
        if sv.objs != before:
            return ('failed operation changes the store', f'{kind}: {op}')
    elif what == 'auth':
        def prep(sv):
            if hasattr(sv, 'secret'):
                sv.secret = 'changed'
            sv.permanent = lambda req: (
                cloud.plain_error(401, 'Unauthorized')(req) if req.target.startswith('/v')
                else resp(b'{"error": "invalid_grant"}', 400, 'Bad Request', content_type='application/json') if req.target.startswith('/o/oauth2')
                else None
            )

        r, sv, before, n, _ = attempt(kind, {}, None, prep)
        heads = kind == 's3'  # HEAD requests do not say why
        if not isinstance(r, (AuthenticationError, AuthorizationError) if not heads else Exception) and kind != 'b2':
            return ('wrong credentials are reported as another error', f'{kind}: {r!r}')
    elif what == 'bucket':
        def prep(sv):
            sv.bucket = sv.container = 'another'

        r, sv, before, n, _ = attempt(kind, {}, None, prep)
        if not isinstance(r, DanglingStorageURLError if kind not in ('s3', 'b2') else Exception) and kind != 'b2':
            return ('missing bucket is reported as another error', f'{kind}: {r!r}')
    else:
        mk = cloud.plain_error(503, 'Service Unavailable')
        r, sv, before, n, t = attempt(kind, {}, op, lambda sv: setattr(sv, 'permanent', mk))
        if not isinstance(r, TimeoutError):
            return ('persistent failure is not reported as a timeout', f'{kind}: {op}: {r!r}')
        lim = common.RETRY_TIMEOUT
        if not lim <= t <= 2 * lim or n < 10:
            return ('wrong retry limit', f'{kind}: {op}: gave up after {t} s, {n} requests')
        if sv.objs != before:
            return ('failed operation changes the store', f'{kind}: {op}')
    return None


_REQ = net.Request('GET', '/', [])


# -- concurrent users

def conc_harness(cfg, ch):
    kind, progs, conns = cfg
    seeded = seed_objects(kind, {})
    sv = make_server(kind, {})
    sv.faults = lambda f: f in (('token expired',), ('drop', 'hangup'), ('reply-hangup',), ('error', sv.temp_errors[0][0]))

    async def main(ctl):
        be = await make_backend(kind, {}, conns)
        sv.objs = seeded
        sv.n = 0
        sv.log.clear()
        results = {}

        async def user(i, ops):
            for j, op in enumerate(ops):
                try:
                    results[i, j] = await op.run(be)
                except NoSuchObject:
                    results[i, j] = NoSuchObject

        model = {k: (b, dict(m)) for k, (b, m) in SEED.items()}
        want = {(i, j): op.expect(model) for i, ops in enumerate(progs) for j, op in enumerate(ops)}
        sv.ch = ch
        auths = sum('oauth' in x[1] or x[1].startswith(('/v1.0', '/v2.0')) for x in sv.log)
        ctl.active = True
        async with trio.open_nursery() as nursery:
            for i, ops in enumerate(progs):
                nursery.start_soon(user, i, ops, name=f'user{i}')
        ctl.active = False
        sv.ch = None
        if results != want:
            raise Violation('wrong result with concurrent users', f'{kind}: {progs} after {sv.injected}: {results!r:.300}')
        expired = sum('token' in x for x in sv.injected)
        auths = sum('oauth' in x[1] or x[1].startswith(('/v1.0', '/v2.0')) for x in sv.log) - auths
        if auths > expired:
            raise Violation('token is requested again although it is still valid', f'{kind}: {progs} after {sv.injected}: {auths} requests')
        n = {}
        for k in model:
            if PRE + k not in sv.objs or sv.objs[PRE + k].body != model[k][0]:
                raise Violation('object missing or different with concurrent users', f'{kind}: {progs} after {sv.injected}: {k}')
        if len(sv.objs) != len(model):
            raise Violation('additional objects with concurrent users', f'{kind}: {progs} after {sv.injected}')
        await be.close()
        return repr(sv.injected)

    try:
        with sv.net.installed(), environment():
            return run_controlled(main, ch, threads='none')
    except (Deadlock, StepLimit) as exc:
        raise Violation('concurrent users do not finish', f'{kind}: {progs} after {sv.injected}: {exc!r}') from None
    except (Violation, Divergence):
        raise
    except BaseException as exc:
        e = describe(exc)
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception):
            raise
        raise Violation('transient failure surfaces as an error', f'{kind}: {progs} after {sv.injected}: {e!r} ({e})') from None


def conc_configs(tier):
    q = tier == 'quick'
    progs = [
        [[Op('read', 'k1', 0)], [Op('lookup', 'k2')]],
        [[Op('write', 'new', b'fresh', {}), Op('size', 'new')], [Op('delete', 'k2'), Op('read', 'other', 0)]],
    ]
    if not q:
        progs.append([[Op('read', 'k1', 0)], [Op('lookup', 'k2')], [Op('write', 'new', b'fresh', {})]])
    for kind in ('swift', 'gs', 's3c'):
        for i, p in enumerate(progs):
            for conns in (1, 2):
                yield f'{kind} users {i} connections {conns}', (kind, p, conns), {'sched': 1 if q else 2, 'fault': 1 if q else 2}


def configs(tier):
    q = tier == 'quick'
    one, two = {'fault': 1}, {'fault': 2}
    for kind in KINDS:
        for op in OPS:
            yield f'{kind} {op}', (kind, {}, [op], False), one
        yield f'{kind} create', (kind, {}, [OPS[3]], True), one
        # two operations on the same connections
        for a, b in ((0, 3), (3, 8), (12, 14), (5, 0)):
            yield f'{kind} {OPS[a]} then {OPS[b]}', (kind, {}, [OPS[a], OPS[b]], False), one
    variants = [('chunked', {'style': 'chunked'}, (3, 4, 14)), ('tls', {'tls': True}, (0, 1, 3)), ('no expect', {'noexpect': True}, (0, 1))]
    for name, opt, ops in variants:
        for kind in KINDS:
            for o in ops if name != 'tls' or family(kind) == 's3' else ():
                yield f'{kind} {name} {OPS[o]}', (kind, opt, [OPS[o]], False), one
    for kind in ('s3c', 's3c4'):
        for name, opt, ops in (
            ('plain 404', {'missing': 'plain'}, (5, 7, 9, 11)),
            ('404 for delete', {'missing': 'xml404'}, (13,)),
            ('no MD5 check', {'check_md5': False}, (0, 1)),
            ('strange prefix', {'prefix': "p e+r&c%41'~/\u00fc/<x>"}, (0, 3, 12, 14)),
        ):
            for o in ops:
                if name == 'plain 404' and o == 5:
                    continue
                yield f'{kind} {name} {OPS[o]}', (kind, opt, [OPS[o]], False), one
    for kind in ('swift', 'gs'):
        for o in (0, 3, 12, 14):
            yield f'{kind} strange prefix {OPS[o]}', (kind, {'prefix': "p e+r&c%41'~/\u00fc/<x>"}, [OPS[o]], False), one
    for kind in KINDS if not q else ('s3c', 'swift', 'gs'):
        for o in range(len(OPS)) if not q else (0, 3, 12, 14):
            yield f'{kind} two faults {OPS[o]}', (kind, {}, [OPS[o]], False), two
    if not q:
        for kind in KINDS:
            for op in OPS[:1] + OPS[2:4] + OPS[5:]:
                yield f'{kind} every byte {op}', (kind, {'cut': 'all'}, [op], False), one
            yield f'{kind} two faults create', (kind, {}, [OPS[3]], True), two


def run(rep, tier):
    q = tier == 'quick'
    st = explore(harness, list(configs(tier)), {}, wall=90 if q else 3000, check_determinism=True)
    rep.add_stats('operations', st)
    st = explore(conc_harness, list(conc_configs(tier)), {}, wall=30 if q else 2000, check_determinism=True)
    rep.add_stats('concurrent users', st)
    n = 0
    for it, v in pmap(perm, list(perm_items()), wall=60 if q else 600):
        n += 1
        if v:
            rep.violation(v[0], v[1], {'item': it})
    rep.coverage['parts']['permanent and persistent failures'] = n
    rep.coverage['evaluations'] += n
    rep.coverage['rule'] = (
        'every operation x every fault kind at every connection, request body, request and response; all pairs of faults for selected '
        'operations; every permanent error response x operation; schedules of two users with token expiry within the deviation bound'
    )


def replay(data):
    if 'item' in data:
        r = perm(tuple(data['item']))
        print(r)
        return 1 if r else 0
    for h, cf in ((harness, configs), (conc_harness, conc_configs)):
        for n, c, *_ in cf('thorough'):
            if n == data['config']:
                r = run_one(h, c, tuple(data['trace']))
                print(r[2] and r[2].sig, r[2] and r[2].detail)
                return 1 if r[2] else 0
        for n, c, *_ in cf('quick'):
            if n == data['config']:
                r = run_one(h, c, tuple(data['trace']))
                print(r[2] and r[2].sig, r[2] and r[2].detail)
                return 1 if r[2] else 0
    return 2
