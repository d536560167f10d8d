'''C21: HTTP client framing and connection pool, over an in-memory network.'''
import contextlib
import io
import itertools

import trio
import trio.testing

from mc import net, sched
from mc.explore import Divergence, Violation, explore, pmap, run_one
from mc.sched import Deadlock, StepLimit, run_controlled
from s3ql.http import InvalidResponse, Pool, is_temp_network_error

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the real HTTP client and pool over an in-memory network: every split of the response byte stream into one, two or three segments, every truncation point and kind, every partial consumption, all schedules and cancellation points of concurrent pool users'
NOTE = (
    'Two- and three-request histories on one pool: framing x method x amount consumed x all split points (all pairs for short streams); '
    'hang-up, reset and silence after every byte; 100-continue variants; up to three pool users with one cancelled at any point. TLS and proxies not covered.'
)

BIG = bytes(range(256)) * 300


def framings():
    '''(name, method, bytes, expected status, body, server closes afterwards, reusable)'''
    r, c = net.resp, net.chunked
    cl = [('Connection', 'close')]
    yield 'length 5', 'GET', r(b'hello'), 200, b'hello', False
    yield 'length 0', 'GET', r(b''), 200, b'', False
    yield 'length 1', 'GET', r(b'\n'), 200, b'\n', False
    yield 'body looks like a response', 'GET', r(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nXX'), 200, b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nXX', False
    yield 'length, close', 'GET', r(b'bye', headers=cl), 200, b'bye', True
    yield 'chunked', 'GET', c([b'abc', b'', b'defgh'][::2]), 200, b'abcdefgh', False
    yield 'chunked, extensions and trailers', 'GET', c([b'x' * 17], ext=';a=b', trailers=[('X-T', 'v')]), 200, b'x' * 17, False
    yield 'chunked empty', 'GET', c([]), 200, b'', False
    yield 'chunked, close', 'GET', c([b'abc'], headers=cl), 200, b'abc', True
    yield 'until close', 'GET', r(b'all until eof', headers=cl, length=False), 200, b'all until eof', True
    yield 'until close, unannounced', 'GET', r(b'to the end', length=False), 200, b'to the end', True
    yield 'HTTP/1.0 until close', 'GET', r(b'old', length=False, version='1.0'), 200, b'old', True
    yield 'HTTP/1.0 length', 'GET', r(b'old', version='1.0'), 200, b'old', True
    yield 'no content', 'DELETE', r(status=204, reason='No Content', length=False), 204, b'', False
    yield 'no content, length 0', 'DELETE', r(status=204, reason='No Content'), 204, b'', False
    yield 'not modified', 'GET', r(status=304, reason='Not Modified', length=False, headers=[('Content-Length', '99')]), 304, b'', False
    yield 'head', 'HEAD', r(length=False, headers=[('Content-Length', '1234')]), 200, b'', False
    yield 'head chunked', 'HEAD', r(length=False, headers=[('Transfer-Encoding', 'chunked')]), 200, b'', False
    yield 'head of error', 'HEAD', r(status=404, reason='Not Found', length=False, headers=[('Content-Length', '77')]), 404, b'', False
    yield 'head, close', 'HEAD', r(length=False, headers=cl + [('Content-Length', '5')]), 200, b'', True
    yield 'error with body', 'GET', r(b'<e/>', status=503, reason='Slow Down'), 503, b'<e/>', False
    yield 'interim 102', 'GET', b'HTTP/1.1 102 Processing\r\n\r\n' + r(b'late'), 200, b'late', False
    yield 'interim 103 twice', 'GET', b'HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n' * 2 + r(b'late'), 200, b'late', False
    yield 'unrequested 100', 'GET', b'HTTP/1.1 100 Continue\r\n\r\n' + r(b'body'), 200, b'body', False
    yield 'empty reason', 'GET', b'HTTP/1.1 200 \r\nContent-Length: 2\r\n\r\nok', 200, b'ok', False
    yield 'duplicate headers', 'GET', r(b'dd', headers=[('Date', 'x'), ('Date', 'y')]), 200, b'dd', False
    yield 'post', 'POST', r(b'posted', status=201, reason='Created'), 201, b'posted', False


FR = {f[0]: f for f in framings()}
MODES = ['readall', 'read1', 'none', 'discard', 'into', 'exception', 'read-to-end']
SECOND = b'second body'


class Boom(Exception):
    pass


async def consume(conn, resp, mode):
    '''Returns (body or None if not read completely)'''
    if mode == 'readall':
        return await conn.readall()
    if mode == 'read1':
        await conn.read()
        return None
    if mode == 'none':
        return None
    if mode == 'exception':
        raise Boom
    if mode == 'discard':
        await conn.discard()
        return None
    if mode == 'into':
        fh = io.BytesIO(b'##')
        fh.seek(2)
        upd = []
        await conn.readinto_fh(fh, update=upd.append)
        if b''.join(upd) != fh.getvalue()[2:]:
            raise Violation('update callback gets other data than the file', repr(upd))
        return fh.getvalue()[2:]
    out = b''
    while True:
        b = await conn.read()
        if not b:
            break
        out += b
    if await conn.read() != b'' or await conn.readall() != b'':
        raise Violation('data after the end of the body', '')
    return out


def split_at(points):
    def seg(conn, n):
        if conn.n:
            return n
        for p in points:
            if conn.delivered < p < conn.delivered + n:
                return p - conn.delivered
        return n

    return seg


async def history(first, mode, splits=(), cut=None, one=False):
    '''Request 1 with the given framing, consumed per *mode*; then request 2 (and 3)'''
    name, method, data, status, body, closes = first
    what = f'{name}, {mode}, splits {splits}' + (f', {cut[0]} after {cut[1]} bytes' if cut else '')

    def handler(conn, req):
        if req.target == '/1':
            if cut:
                conn.reply(data[: cut[1]])
                {'hangup': conn.hangup, 'reset': conn.rst, 'silence': lambda: None}[cut[0]]()
                if cut[0] == 'silence':
                    conn.mute = True
                return
            conn.reply(data)
            if closes:
                conn.hangup()
        elif getattr(conn, 'mute', False):
            pass
        else:
            conn.reply(net.resp(SECOND + req.target.encode(), headers=[('X-Id', req.target)]))

    n = net.Net(handler)
    n.segment = (lambda conn, k: 1) if one else split_at(splits)
    with n.installed():
        pool = Pool('host', 80, max_connections=1, timeout=20)
        error = None
        got = None
        try:
            async with pool.get() as conn:
                resp = await conn.send_request(method, '/1')
                if resp.status != status or resp.method != method or resp.path != '/1':
                    raise Violation('wrong response', f'{what}: {resp}')
                got = await consume(conn, resp, mode)
        except Boom:
            pass
        except Violation:
            raise
        except Exception as exc:
            error = exc
        complete = not cut or cut[1] >= len(data)
        if error is not None:
            if complete and not (cut and (cut[0] == 'reset' or closes)):
                raise Violation('valid response is refused', f'{what}: {error!r}')
            if cut and not is_temp_network_error(error):
                raise Violation('interrupted response is not reported as a temporary network problem', f'{what}: {error!r}')
        elif got is not None:
            if got != body:
                until_close = 'until close' in name
                if not (until_close and cut and cut[0] == 'hangup' and body.startswith(got)):
                    raise Violation('incomplete response accepted as complete' if body.startswith(got) else 'wrong response body', f'{what}: {got!r}')
            elif not complete and cut[0] != 'hangup':
                # all of the body there but end of message missing
                if name.startswith('chunked') or 'until close' in name:
                    raise Violation('incomplete response accepted as complete', f'{what}: {got!r}')
        for i in (2, 3):
            try:
                async with pool.get() as conn:
                    resp = await conn.send_request('GET', f'/{i}')
                    b = await conn.readall()
            except Exception as exc:
                # A connection that the server dropped while idle may only be noticed now
                if cut and complete and cut[0] != 'silence' and i == 2 and is_temp_network_error(exc):
                    continue
                if cut and complete and cut[0] == 'silence' and is_temp_network_error(exc):
                    continue
                if closes and 'unannounced' in name and i == 2 and is_temp_network_error(exc):
                    continue
                raise Violation('request after another one fails', f'{what}: request {i}: {exc!r}') from None
            if resp.status != 200 or resp.headers['X-Id'] != f'/{i}' or b != SECOND + b'/%d' % i:
                raise Violation('response belongs to another request', f'{what}: request {i} got {resp} {b!r}')
        await pool.aclose()
        for c in n.conns:
            if not c.closed:
                raise Violation('connection is leaked', what)
        seen = [r.target for r in n.requests]
        if seen.count('/1') != 1:
            raise Violation('request repeated or lost', f'{what}: {seen}')
    return 1


# -- requests and 100-continue --------------------------------------------------------------------
class NotBytesIO(io.RawIOBase):
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


BODIES = {
    'empty': lambda: (),
    'bytes': lambda: [b'abc'],
    'several': lambda: [b'abc', b'', b'defg'],
    'file': lambda: [io.BytesIO(b'file content')],
    'empty file': lambda: [io.BytesIO(b'')],
    'mixed': lambda: [b'head', io.BytesIO(b'middle'), b'tail'],
    'raw file': lambda: [NotBytesIO(b'raw content')],
    'two files': lambda: [io.BytesIO(b'11'), NotBytesIO(b'222')],
    'big': lambda: [io.BytesIO(BIG * 8)],
}


def flat(body):
    out = b''
    for x in body:
        if isinstance(x, bytes):
            out += x
        else:
            x.seek(0)
            out += x.read()
    return out


async def request(bname, moved, expect, reaction, splits):
    '''Send a body; the server reacts to Expect (or to part of the body)'''
    what = f'body {bname}, file position {moved}, expect100={expect}, server: {reaction}, splits {splits}'
    body = BODIES[bname]()
    want = flat(body)
    for x in body:
        if not isinstance(x, bytes):
            x.seek(moved)
    rej = net.resp(b'no', status=403, reason='Forbidden')
    rejc = net.resp(b'no', status=403, reason='Forbidden', headers=[('Connection', 'close')])

    def handler(conn, req):
        if req.target == '/1':
            if reaction == '100 twice':
                conn.reply(b'HTTP/1.1 100 Continue\r\n\r\n')
            conn.reply(net.resp(b'done'))
        else:
            conn.reply(net.resp(SECOND + req.target.encode(), headers=[('X-Id', req.target)]))

    def on_expect(conn, req):
        if reaction == 'reject':
            conn.reply(rej)
            return False
        if reaction == 'reject and close':
            conn.reply(rejc)
            conn.hangup()
            return False
        if reaction == 'reject, announces close, stays':
            conn.reply(rejc)
            return False
        if reaction == 'reject empty':
            conn.reply(net.resp(b'', status=417, reason='Expectation Failed'))
            return False
        if reaction == '102 and 100':
            conn.reply(b'HTTP/1.1 102 Processing\r\n\r\n')
        conn.reply(b'HTTP/1.1 100 Continue\r\n\r\n')
        return True

    def on_head(conn, req):
        if reaction == 'answers and closes during the body' and req.target == '/1':
            conn.reply(rej)
            conn.hangup()

    n = net.Net(handler)
    n.on_expect = on_expect
    n.on_head = on_head
    n.segment = split_at(splits)
    err = None
    with n.installed():
        pool = Pool('host', 80, max_connections=1, timeout=20)
        try:
            async with pool.get() as conn:
                resp = await conn.send_request('PUT', '/1', body=body, expect100=expect, headers={'X-a': 'b'})
                got = await conn.readall()
        except Exception as exc:
            err = exc
        exp = expect if expect is not None else any(not isinstance(x, bytes) for x in body)
        if exp and not body:
            if not isinstance(err, ValueError):
                raise Violation('expect100 without body is accepted', what)
            return 1
        if reaction.startswith('answers and closes') and want:
            if err is not None:
                if not is_temp_network_error(err):
                    raise Violation('aborted upload is not reported as temporary network problem', f'{what}: {err!r}')
            elif resp.status != 403 or got != b'no':
                raise Violation('wrong response', f'{what}: {resp} {got!r}')
        elif reaction.startswith('reject') and exp:
            if err is not None or resp.status not in (403, 417) or got not in (b'no', b''):
                raise Violation('wrong response', f'{what}: {err!r}')
            if any(r.target == '/1' for r in n.requests):
                raise Violation('body sent although the server rejected it', what)
        else:
            if err is not None or resp.status != 200 or got != b'done':
                raise Violation('valid response is refused', f'{what}: {err!r}' if err else f'{what}: {resp} {got!r}')
            r = n.requests[0]
            if (r.method, r.target, r.body, r.get('X-a')) != ('PUT', '/1', want, 'b'):
                raise Violation('request arrives changed', f'{what}: {r.method} {r.target} {r.body[:50]!r} {r.headers}')
            if r.expect != bool(exp):
                raise Violation('Expect header wrong', what)
        for i in (2, 3):
            try:
                async with pool.get() as conn:
                    resp = await conn.send_request('GET', f'/{i}')
                    b = await conn.readall()
            except Exception as exc:
                raise Violation('request after another one fails', f'{what}: request {i}: {exc!r}') from None
            if resp.headers['X-Id'] != f'/{i}' or b != SECOND + b'/%d' % i:
                raise Violation('response belongs to another request', f'{what}: request {i} got {resp} {b!r}')
        await pool.aclose()
    return 1


async def stray(name, extra, mode):
    '''Bytes that belong to no request follow a response in the same segment'''
    _, method, data, status, body, closes = FR[name]
    what = f'{name} followed by {extra!r}, {mode}'

    def handler(conn, req):
        if req.target == '/1':
            conn.reply(data + extra)
        else:
            conn.reply(net.resp(SECOND + req.target.encode(), headers=[('X-Id', req.target)]))

    n = net.Net(handler)
    with n.installed():
        pool = Pool('host', 80, max_connections=1, timeout=20)
        with contextlib.suppress(Boom, InvalidResponse):
            async with pool.get() as conn:
                resp = await conn.send_request(method, '/1')
                got = await consume(conn, resp, mode)
                if resp.status != status or got not in (None, body):
                    raise Violation('wrong response body', f'{what}: {got!r}')
        for i in (2, 3):
            try:
                async with pool.get() as conn:
                    resp = await conn.send_request('GET', f'/{i}')
                    b = await conn.readall()
            except InvalidResponse:
                raise Violation('request fails because of bytes that belong to an earlier response', what) from None
            if resp.headers['X-Id'] != f'/{i}' or b != SECOND + b'/%d' % i:
                raise Violation('response belongs to another request', f'{what}: request {i} got {resp.status} {b!r}')
        await pool.aclose()
    return 1


def item(it):
    n = 0

    async def body():
        nonlocal n
        if it[0] == 'split':
            f = FR[it[1]]
            ln = len(f[2])
            sets = [(), *((i,) for i in range(1, ln))]
            if it[3]:
                sets += list(itertools.combinations(range(1, ln), 2))
            for s in sets:
                n += await history(f, it[2], s)
            n += await history(f, it[2], one=True)
        elif it[0] == 'cut':
            f = FR[it[1]]
            for k in range(len(f[2]) + 1):
                n += await history(f, it[2], (), (it[3], k))
                n += await history(f, it[2], (), (it[3], k), one=True)
        elif it[0] == 'request':
            for s in [(), (1,), (10,), (24,), (25,), (26,), (40,), (30, 60)]:
                n += await request(*it[1:], s)
        elif it[0] == 'stray':
            n += await stray(*it[1:])

    try:
        with sched.patched_threads():
            trio.run(body, clock=trio.testing.MockClock(autojump_threshold=0))
    except Violation as v:
        return n, (v.sig, v.detail)
    return n, None


def items(tier):
    for f in FR:
        for mode in MODES:
            pairs = mode in ('readall', 'read1') and (tier != 'quick' or mode == 'readall' and len(FR[f][2]) < 75)
            yield ('split', f, mode, pairs)
            for kind in ('hangup', 'reset', 'silence'):
                yield ('cut', f, mode, kind)
    for b in BODIES:
        for moved in (0, 3):
            for e in (None, True, False):
                for r in ('normal', 'reject', 'reject and close', 'reject, announces close, stays', 'reject empty', '102 and 100', '100 twice', 'answers and closes during the body'):
                    yield ('request', b, moved, e, r)
    for f in FR:
        if FR[f][5] or 'head' in f or 'no content' in f or 'modified' in f:
            continue
        for extra in (net.resp(b'stray'), b'\r\n\r\ngarbage\r\n\r\n', b'x'):
            for mode in ('readall', 'read-to-end', 'discard', 'into'):
                yield ('stray', f, extra, mode)


# -- concurrent pool users ------------------------------------------------------------------------
def harness(cfg, ch):
    progs, size, cancel = cfg
    log = []

    def handler(conn, req):
        f = FR[req.target.split('/')[1].replace('_', ' ')]
        conn.reply(f[2].replace(b'\r\n', b'\r\nX-Id: ' + req.target.encode() + b'\r\n', 1))
        if f[5]:
            conn.hangup()

    n = net.Net(handler)
    n.segment = lambda conn, k: max(1, k // 2)
    busy = set()

    async def main(ctl):
        pool = Pool('host', 80, max_connections=size, timeout=20)
        scopes = []

        async def client(i, prog):
            with trio.CancelScope() as scope:
                scopes.append(scope)
                for j, (f, mode) in enumerate(prog):
                    name, method, _, status, body, closes = FR[f]
                    t = f'/{f.replace(" ", "_")}/{i}.{j}'
                    try:
                        async with pool.get() as conn:
                            if id(conn) in busy:
                                raise Violation('connection used by two requests at once', t)
                            busy.add(id(conn))
                            if len(busy) > size:
                                raise Violation('more connections in use than allowed', t)
                            try:
                                resp = await conn.send_request(method, t)
                                if resp.headers['X-Id'] != t or resp.status != status:
                                    raise Violation('response belongs to another request', f'{t}: got {resp.headers["X-Id"]}')
                                got = await consume(conn, resp, mode)
                            finally:
                                busy.discard(id(conn))
                        if got is not None and got != body:
                            raise Violation('wrong response body', f'{t}: {got!r}')
                        log.append(t)
                    except Boom:
                        pass

        ctl.active = True
        if cancel is not None:
            async def canceller():
                for _ in range(cancel[1]):
                    await trio.lowlevel.checkpoint()
                if cancel[0] < len(scopes):
                    scopes[cancel[0]].cancel()

        async with trio.open_nursery() as nursery:
            for i, p in enumerate(progs):
                nursery.start_soon(client, i, p, name=f'user{i}')
            if cancel is not None:
                nursery.start_soon(canceller, name='cancel')
        ctl.active = False
        await pool.aclose()
        for c in n.conns:
            if not c.closed:
                raise Violation('connection is leaked', f'{progs}')
        return repr(sorted(log)) + str(len(n.conns))

    try:
        with n.installed():
            return run_controlled(main, ch)
    except (Deadlock, StepLimit) as exc:
        raise Violation('pool users do not finish', f'{progs}: {exc!r}') from None
    except (Violation, Divergence):
        raise
    except BaseException as exc:
        e = exc
        while isinstance(e, BaseExceptionGroup):
            e = e.exceptions[0]
        if isinstance(e, (Violation, Divergence)):
            raise e from None
        if not isinstance(e, Exception):
            raise
        raise Violation('request fails because of another one', f'{progs}: {e!r}') from None


def configs(tier):
    dev = 2 if tier == 'quick' else 4
    f1, f2, f3, f4 = 'length 5', 'chunked', 'length, close', 'head'
    progs = [
        [[(f1, 'readall')], [(f2, 'readall')]],
        [[(f1, 'read1'), (f4, 'readall')], [(f2, 'none'), (f1, 'readall')]],
        [[(f3, 'readall'), (f1, 'readall')], [(f2, 'exception'), (f1, 'readall')]],
        [[(f1, 'readall')], [(f2, 'into')], [(f3, 'readall')]],
    ]
    for i, p in enumerate(progs):
        for size in (1, 2):
            yield f'program {i}, pool {size}', (p, size, None), {'sched': dev}
            for who in range(len(p)):
                for step in range(0, 30 if tier != 'quick' else 24):
                    yield f'program {i}, pool {size}, cancel {who} at {step}', (p, size, (who, step)), {'sched': 0 if tier == 'quick' else 2}


def run(rep, tier):
    st = explore(harness, list(configs(tier)), {}, wall=60 if tier == 'quick' else 2000, check_determinism=True)
    rep.add_stats('pool', st)
    n = 0
    parts = {}
    for it, (k, v) in pmap(item, list(items(tier)), wall=120 if tier == 'quick' else 2000):
        n += k
        parts[it[0]] = parts.get(it[0], 0) + k
        if v:
            rep.violation(v[0], v[1], {'item': it})
    rep.coverage['parts']['histories'] = parts
    rep.coverage['traces_validated_against_impl'] += n
    rep.coverage['rule'] = 'every framing x consumption mode x (all single splits, all pairs of splits for short responses, byte by byte); hang-up, reset, silence after each byte; request bodies x Expect handling x server reactions; stray bytes; schedules of pool users within the deviation bound, cancellation at each step'


def replay(data):
    if 'item' in data:
        r = item(tuple(data['item']))
        print(r)
        return 1 if r[1] else 0
    for n, c, *_ in configs('thorough'):
        if n == data['config']:
            r = run_one(harness, c, tuple(data['trace']))
            print(r[2] and r[2].sig, r[2] and r[2].detail)
            return 1 if r[2] else 0
    return 2
