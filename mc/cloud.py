'''Simulated S3, Swift and Google Storage servers over `mc.net`, with fault injection.

A server answers every request from its object store. Before a connection is made, before a request
body is received, and for every complete request, it asks the chooser which fault (if any) happens.
'''
import base64
import dataclasses
import hashlib
import hmac
import json
import re
import urllib.parse
from xml.sax.saxutils import escape

from mc import net
from mc.net import resp

HOWS = ('hangup', 'reset', 'silence')


@dataclasses.dataclass
class Obj:
    body: bytes
    meta: dict

    @property
    def etag(self):
        return hashlib.md5(self.body).hexdigest()


def apply_end(conn, how):
    {'hangup': conn.hangup, 'reset': conn.rst, 'silence': lambda: setattr(conn, 'mute', True)}[how]()


class Server:
    '''Fault-injecting front end; subclasses implement process(req) -> bytes'''

    name = '?'
    temp_errors = ()
    integrity = True  # downloads carry a checksum

    def __init__(self, cut='class', page=2):
        self.objs = {}
        self.page = page
        self.cut = cut
        self.ch = None
        self.faults = None  # predicate(kind tuple) or None for all
        self.style = 'length'
        self.net = net.Net(self.handler)
        self.net.on_connect = self.on_connect
        self.net.on_head = self.on_head
        self.net.on_expect = self.on_expect
        self.net.on_send = self.on_send
        self.n = 0
        self.injected = []
        self.log = []
        self.permanent = None
        self.seen = []  # (request, fault)

    # -- fault injection
    def pick(self, label, kinds):
        if self.ch is None:
            return None
        if self.faults is not None:
            kinds = [k for k in kinds if self.faults(k)]
        if not kinds:
            return None
        c = self.ch.choose(len(kinds) + 1, label, 'fault')
        if c == 0:
            return None
        self.injected.append(f'{label}: {kinds[c - 1]}')
        return kinds[c - 1]

    def on_connect(self, conn, host, port):
        f = self.pick(f'connect {host}', [('connect', 'refused'), ('connect', 'timeout'), ('connect', 'unreachable'), ('connect', 'closed')])
        conn.host = host
        conn.midcut = None
        if f is None:
            return
        if f[1] == 'refused':
            raise ConnectionRefusedError(111, 'Connection refused')
        if f[1] == 'timeout':
            raise TimeoutError(110, 'Connection timed out')
        if f[1] == 'unreachable':
            raise OSError(113, 'No route to host')
        conn.hangup()

    def on_expect(self, conn, req):
        f = self.pick(f'expect {self.n}', [('expect', 'hangup'), ('expect', 'reset'), ('expect', 'silence'), ('expect', 'error')])
        if f is None:
            conn.reply(b'HTTP/1.1 100 Continue\r\n\r\n')
            return True
        self.n += 1
        if f[1] == 'error':
            conn.reply(self.temp_errors[0][1](req))
            return False
        apply_end(conn, f[1])
        return False

    def on_head(self, conn, req):
        kinds = [('body', 'hangup-early'), ('body', 'reset-early'), ('body', 'reset-half'), ('body', 'error-early')]
        f = self.pick(f'head {self.n} {req.method}', kinds)
        if f is None:
            return
        if f[1] == 'error-early':
            conn.reply(self.temp_errors[0][1](req, close=True))
            conn.hangup()
        elif f[1] == 'hangup-early':
            conn.hangup()
        elif f[1] == 'reset-early':
            conn.rst()
        else:
            conn.midcut = conn.need // 2

    def on_send(self, conn, data):
        if getattr(conn, 'midcut', None) is not None and conn.req is not None:
            have = len(conn.inbuf)
            if have + len(data) >= conn.midcut:
                conn.rst()
        return data

    def cuts(self, reply):
        n = len(reply)
        if self.cut == 'all':
            return list(range(0, n))
        e = reply.find(b'\r\n\r\n') + 4
        pts = {1, reply.find(b'\r\n'), reply.find(b'\r\n') + 2, e // 2, e - 2, e}
        pts |= {e + 1, (e + n) // 2, n - 1}
        return sorted(p for p in pts if 0 < p < n)

    def handler(self, conn, req):
        self.n += 1
        i = self.n
        saved = dict(self.objs)
        reply = self.process(req)
        after = self.objs
        if self.permanent is not None:
            p = self.permanent(req)
            if p is not None:
                self.objs = saved
                self.log.append((req.method, req.target[:80], 'permanent'))
                conn.reply(p)
                return
        kinds = [('drop', h) for h in HOWS]
        kinds += [('lost', h) for h in HOWS]
        kinds += [('cut', k, h) for k in self.cuts(reply) for h in (HOWS if self.cut == 'class' else ('hangup',))]
        errs = [j for j, (_, mk) in enumerate(self.temp_errors) if mk(req) is not None and self.usual(req, mk(req))]
        kinds += [('error', self.temp_errors[j][0]) for j in errs]
        if after != saved:
            kinds += [('error-after', self.temp_errors[j][0]) for j in errs[:2]]
        if errs:
            kinds += [('error-cut', self.temp_errors[errs[0]][0])]
        kinds += [('reply-hangup',), ('reply-reset',)]
        kinds += self.corruptions(req, reply)
        kinds += self.special(req)
        f = self.pick(f'req {i} {req.method} {req.target[:60]}', kinds)
        self.seen.append((req, f))
        self.log.append((req.method, req.target[:80], f))
        if f is None:
            conn.reply(reply)
            return
        kind = f[0]
        if kind == 'lost':
            apply_end(conn, f[1])
        elif kind == 'cut':
            conn.reply(reply[: f[1]])
            apply_end(conn, f[2])
        elif kind == 'error-after':
            conn.reply(dict(self.temp_errors)[f[1]](req))
        elif kind == 'reply-hangup':
            conn.reply(reply)
            conn.hangup()
        elif kind == 'reply-reset':
            # reset once the reply has been read
            conn.reply(reply)
            conn.rst_later = True
        elif kind == 'corrupt':
            conn.reply(f[2])
        else:
            self.objs = saved
            if kind == 'drop':
                apply_end(conn, f[1])
            elif kind == 'error':
                conn.reply(dict(self.temp_errors)[f[1]](req))
            elif kind == 'error-cut':
                e = dict(self.temp_errors)[f[1]](req)
                conn.reply(e[:-1])
                conn.hangup()
            else:
                self.do_special(conn, req, f)

    def usual(self, req, reply):
        return True

    def special(self, req):
        return []

    def do_special(self, conn, req, f):
        raise NotImplementedError

    def corruptions(self, req, reply):
        return []

    def fmt(self, req, body, status=200, reason='OK', headers=(), ctype='application/xml', nohead=False):
        if req.method == 'HEAD':
            return resp(b'', status, reason, [*headers, ('Content-Length', str(len(body)))], length=False, content_type=ctype)
        if self.style == 'chunked' and body:
            h = [*headers, ('Content-Type', ctype)] if ctype else list(headers)
            k = max(1, len(body) // 2)
            return net.chunked([x for x in (body[:k], body[k:]) if x], status, reason, h)
        return resp(body, status, reason, headers, content_type=ctype)


def xml_error(status, reason, code, headers=(), heads=True):
    def mk(req, close=False):
        if req.method == 'HEAD' and not heads:
            return None
        b = f'<?xml version="1.0" encoding="UTF-8"?>\n<Error><Code>{code}</Code><Message>try again</Message></Error>'.encode()
        h = list(headers) + ([('Connection', 'close')] if close else [])
        if req.method == 'HEAD':
            return resp(b'', status, reason, [*h, ('Content-Length', str(len(b)))], length=False, content_type='application/xml')
        return resp(b, status, reason, h, content_type='application/xml')

    return mk


def plain_error(status, reason, headers=(), body=b'<html>upstream failed</html>', ctype='text/html', chunk=False):
    def mk(req, close=False):
        h = list(headers) + ([('Connection', 'close')] if close else [])
        if req.method == 'HEAD':
            return resp(b'', status, reason, h, content_type=ctype)
        if chunk:
            return net.chunked([body], status, reason, h + [('Content-Type', ctype)])
        return resp(body, status, reason, h, content_type=ctype)

    return mk


def json_error(status, reason, message, headers=(), errors=None):
    def mk(req, close=False):
        h = list(headers) + ([('Connection', 'close')] if close else [])
        b = json.dumps({'error': {'code': status, 'message': message}}).encode()
        return resp(b, status, reason, h, content_type='application/json; charset=UTF-8')

    return mk


def flip_header(reply, name, pos):
    '''Change one character of the value of the header *name*'''
    m = re.search(rb'(?im)^' + re.escape(name) + rb': ([^\r]*)\r', reply)
    if not m or not m.group(1):
        return None
    v = m.group(1)
    p = pos if pos >= 0 else len(v) + pos
    if not 0 <= p < len(v):
        return None
    c = b'x' if v[p : p + 1] != b'x' else b'y'
    i = m.start(1) + p
    return reply[:i] + c + reply[i + 1 :]


def body_flips(reply):
    e = reply.find(b'\r\n\r\n') + 4
    n = len(reply)
    for p in sorted({e, (e + n) // 2, n - 1}):
        if e <= p < n:
            yield f'body byte {p - e}', reply[:p] + bytes([reply[p] ^ 0x40]) + reply[p + 1 :]


class S3Server(Server):
    name = 's3'
    ns = 'http://s3.amazonaws.com/doc/2006-03-01/'
    temp_errors = (
        ('503 SlowDown', xml_error(503, 'Slow Down', 'SlowDown', [('Retry-After', '2')])),
        ('500 InternalError', xml_error(500, 'Internal Server Error', 'InternalError')),
        ('503 ServiceUnavailable', xml_error(503, 'Service Unavailable', 'ServiceUnavailable')),
        ('400 RequestTimeout', xml_error(400, 'Bad Request', 'RequestTimeout', heads=False)),
        ('409 OperationAborted', xml_error(409, 'Conflict', 'OperationAborted', heads=False)),
        ('502 html', plain_error(502, 'Bad Gateway')),
        ('504 empty', plain_error(504, 'Gateway Timeout', body=b'', ctype=None)),
        ('500 chunked', plain_error(500, 'Oops', chunk=True)),
        ('429', plain_error(429, 'Too Many Requests', [('Retry-After', '1')], b'slow', 'text/plain')),
        ('408', plain_error(408, 'Request Timeout', [('Connection', 'close')], b'', None)),
        ('503 date', plain_error(503, 'Unavailable', [('Retry-After', 'Thu, 01 Jan 1970 00:00:10 GMT')])),
    )

    def __init__(self, bucket='bkt', secret=None, sig=None, region=None, missing='xml', check_md5=True, **kw):
        super().__init__(**kw)
        self.bucket = bucket
        self.secret, self.sig, self.region = secret, sig, region
        self.missing = missing
        self.check_md5 = check_md5
        self.limit = 1000
        self.per_key = None
        self.replies = []

    def err(self, req, status, reason, code):
        return xml_error(status, reason, code)(req)

    def process(self, req):
        path, _, qs = req.target.partition('?')
        q = dict(urllib.parse.parse_qsl(qs, keep_blank_values=True))
        host = req.get('host')
        if host and 'api.backblazeb2.com' in host:
            return self.b2_authorize(req)
        if self.secret is not None:
            bad = self.check_signature(req, path, qs)
            if bad:
                return self.err(req, 403, 'Forbidden', 'SignatureDoesNotMatch')
        p = urllib.parse.unquote(path)
        if not p.startswith('/' + self.bucket):
            return self.err(req, 404, 'Not Found', 'NoSuchBucket')
        key = p[len(self.bucket) + 2 :]
        if not key:
            if req.method == 'GET':
                return self.list(req, q)
            if req.method == 'HEAD':
                return self.fmt(req, b'', ctype=None)
            if req.method == 'POST' and 'delete' in q:
                return self.bulk_delete(req)
            raise AssertionError(req.target)
        if req.method in ('GET', 'HEAD'):
            o = self.objs.get(key)
            if o is None:
                if self.missing == 'plain':
                    return plain_error(404, 'Not Found')(req)
                return self.err(req, 404, 'Not Found', 'NoSuchKey')
            h = [('ETag', f'"{o.etag}"'), ('Last-Modified', 'Thu, 01 Jan 2026 00:00:00 GMT'), *o.meta.items()]
            return self.fmt(req, o.body, headers=h, ctype='application/octet-stream')
        if req.method == 'PUT':
            want = req.get('Content-MD5')
            if want and self.check_md5 and base64.b64decode(want) != hashlib.md5(req.body).digest():
                return self.err(req, 400, 'Bad Request', 'BadDigest')
            meta = {k: v for k, v in req.headers if k.lower().startswith('x-amz-meta')}
            self.objs = dict(self.objs)
            self.objs[key] = Obj(req.body, meta)
            return self.fmt(req, b'', headers=[('ETag', f'"{self.objs[key].etag}"')], ctype=None)
        if req.method == 'DELETE':
            if key not in self.objs and self.missing == 'xml404':
                return self.err(req, 404, 'Not Found', 'NoSuchKey')
            self.objs = {k: v for k, v in self.objs.items() if k != key}
            return resp(b'', 204, 'No Content', length=False)
        raise AssertionError(req.method)

    def list(self, req, q):
        prefix, marker = q.get('prefix', ''), q.get('marker', '')
        n = min(int(q.get('max-keys', 1000)), self.page)
        names = sorted(k for k in self.objs if k.startswith(prefix) and k > marker)
        page, rest = names[:n], names[n:]
        x = [f'<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult xmlns="{self.ns}"><Name>{self.bucket}</Name>']
        x += [f'<IsTruncated>{"true" if rest else "false"}</IsTruncated>']
        x += [f'<Contents><Key>{escape(k)}</Key><Size>{len(self.objs[k].body)}</Size></Contents>' for k in page]
        x += ['</ListBucketResult>']
        return self.fmt(req, ''.join(x).encode())

    def bulk_delete(self, req):
        from xml.etree import ElementTree as ET

        keys = [e.findtext('Key') for e in ET.fromstring(req.body).iter('Object')]
        if len(keys) > self.limit or not keys:
            return self.err(req, 400, 'Bad Request', 'MalformedXML')
        out = []
        self.objs = dict(self.objs)
        done = []
        for k in keys:
            verdict = self.per_key(k) if self.per_key else None
            if verdict is None:
                self.objs.pop(k, None)
                done.append(k)
                out.append(f'<Deleted><Key>{escape(k)}</Key></Deleted>')
            else:
                if verdict == 'NoSuchKey':
                    done.append(k)
                out.append(f'<Error><Key>{escape(k)}</Key><Code>{verdict}</Code><Message>no</Message></Error>')
        body = f'<?xml version="1.0" encoding="UTF-8"?>\n<DeleteResult xmlns="{self.ns}">{"".join(out)}</DeleteResult>'
        req.done = done
        return self.fmt(req, body.encode())

    def corruptions(self, req, reply):
        out = []
        if req.method == 'GET' and b'octet-stream' in reply[:400]:
            if self.style == 'length':
                out += [('corrupt', n, b) for n, b in body_flips(reply)]
            else:
                e = reply.find(b'\r\n\r\n') + 4
                m = reply.find(b'\r\n', e) + 2
                out.append(('corrupt', 'first chunk byte', reply[:m] + bytes([reply[m] ^ 0x40]) + reply[m + 1 :]))
            b = flip_header(reply, b'etag', 5)
            out += [('corrupt', 'etag', b)] if b else []
        if req.method in ('GET', 'HEAD') and b'meta-' in reply.lower():
            for h in (b'x-amz-meta-000', b'x-amz-meta-md5'):
                for pos in (0, 3, -1, -2) if h.endswith(b'000') else (2,):
                    b = flip_header(reply, h, pos)
                    out += [('corrupt', f'{h.decode()} char {pos}', b)] if b else []
        return out

    def special(self, req):
        # the request body is damaged on its way
        if req.method == 'PUT' and req.get('Content-MD5') and req.body:
            return [('upload-corrupt',)]
        return []

    def do_special(self, conn, req, f):
        b = bytearray(req.body)
        b[len(b) // 2] ^= 1
        req.body = bytes(b)
        conn.reply(self.process(req))

    def usual(self, req, reply):
        return not req.target.startswith('/b2api') or reply[9:12] not in (b'400', b'409')

    def b2_authorize(self, req):
        return resp(
            json.dumps({'apiInfo': {'storageApi': {'s3ApiUrl': 'https://s3.eu-central-003.backblazeb2.com'}}}).encode(),
            content_type='application/json',
        )

    # -- signatures, from the AWS documentation
    def check_signature(self, req, path, qs):
        h = {}
        for k, v in req.headers:
            h[k.lower()] = v.strip()
        auth = h.get('authorization', '')
        if self.sig == 2:
            # https://docs.aws.amazon.com/AmazonS3/latest/userguide/RESTAuthentication.html
            amz = ''.join(f'{k}:{v}\n' for k, v in sorted(h.items()) if k.startswith('x-amz-'))
            sub = '?delete' if 'delete' in qs.split('&') else ''
            s = '\n'.join([req.method, h.get('content-md5', ''), h.get('content-type', ''), h.get('date', '')]) + '\n' + amz + path + sub
            sig = base64.b64encode(hmac.new(self.secret.encode(), s.encode(), hashlib.sha1).digest()).decode()
            return auth.rpartition(':')[2] != sig
        m = re.match(r'AWS4-HMAC-SHA256 Credential=([^,]*),\s*SignedHeaders=([^,]*),\s*Signature=(\w+)$', auth)
        if not m:
            return True
        cred = m.group(1).split('/')
        signed = m.group(2).split(';')
        if signed != sorted(signed) or 'host' not in signed or any(k.startswith('x-amz-') and k not in signed for k in h):
            return True
        uq, q = urllib.parse.unquote, lambda x: urllib.parse.quote(x, safe='-_.~')
        cq = '&'.join(
            sorted(f'{q(uq(k.replace("+", " ")))}={q(uq(v.replace("+", " ")))}' for k, _, v in (x.partition('=') for x in qs.split('&') if x))
        )
        canon = '\n'.join(
            [req.method, urllib.parse.quote(uq(path), safe='/-_.~'), cq]
            + [f'{k}:{" ".join(h[k].split())}' for k in signed]
            + ['', ';'.join(signed), h['x-amz-content-sha256']]
        )
        scope = '/'.join(cred[1:])
        if self.region and cred[2] != self.region:
            return True
        if not h['x-amz-date'].startswith(cred[1]) or cred[3:] != ['s3', 'aws4_request']:
            return True
        sts = '\n'.join(['AWS4-HMAC-SHA256', h['x-amz-date'], scope, hashlib.sha256(canon.encode()).hexdigest()])
        k = ('AWS4' + self.secret).encode()
        for part in cred[1:]:
            k = hmac.new(k, part.encode(), hashlib.sha256).digest()
        return hmac.new(k, sts.encode(), hashlib.sha256).hexdigest() != m.group(3)


class SwiftServer(Server):
    name = 'swift'
    temp_errors = (
        ('503', plain_error(503, 'Service Unavailable', [('Retry-After', '2')])),
        ('500', plain_error(500, 'Internal Error', body=b'oops', ctype='text/plain')),
        ('502 empty', plain_error(502, 'Bad Gateway', body=b'', ctype=None)),
        ('504 chunked', plain_error(504, 'Gateway Timeout', chunk=True)),
        ('429', plain_error(429, 'Too Many Requests', [('Retry-After', '1')])),
        ('408', plain_error(408, 'Request Timeout', [('Connection', 'close')], b'', None)),
        ('498', plain_error(498, 'Rate Limited')),
        ('400 client disconnected', plain_error(400, 'Client Disconnected')),
    )
    temp_errors = tuple(x for x in temp_errors if x[0] != '498')

    def __init__(self, container='cont', bulk=None, keystone=False, **kw):
        super().__init__(**kw)
        self.container = container
        self.token = 0
        self.valid = set()
        self.bulk = bulk
        self.keystone = keystone
        self.per_key = None

    def process(self, req):
        path, _, qs = req.target.partition('?')
        q = dict(urllib.parse.parse_qsl(qs, keep_blank_values=True))
        if path == '/v1.0':
            if req.get('X-Auth-User') != 'user' or req.get('X-Auth-Key') != 'pass':
                return plain_error(401, 'Unauthorized')(req)
            self.token += 1
            self.valid.add(f'tok{self.token}')
            return resp(b'', 200, 'OK', [('X-Auth-Token', f'tok{self.token}'), ('X-Storage-Url', 'http://store.test:8080/v1/AUTH_x')])
        if path == '/v2.0/tokens':
            self.token += 1
            self.valid.add(f'tok{self.token}')
            cat = {'access': {'token': {'id': f'tok{self.token}'}, 'serviceCatalog': [
                {'type': 'compute', 'endpoints': []},
                {'type': 'object-store', 'endpoints': [
                    {'region': 'other', 'publicURL': 'http://other.test:1/'},
                    {'region': 'reg', 'publicURL': 'http://store.test:8080/v1/AUTH_x'}]}]}}
            return resp(json.dumps(cat).encode(), content_type='application/json')
        if path == '/info':
            info = {'swift': {'max_meta_value_length': 256}}
            if self.bulk:
                info['bulk_delete'] = {'max_failed_deletes': self.bulk, 'max_deletes_per_request': 10 * self.bulk}
            return resp(json.dumps(info).encode(), content_type='application/json; charset=utf-8')
        if req.get('X-Auth-Token') not in self.valid:
            return plain_error(401, 'Unauthorized')(req)
        p = urllib.parse.unquote(path)
        pre = f'/v1/AUTH_x/{self.container}/'
        if not p.startswith(pre):
            return plain_error(404, 'Not Found')(req)
        key = p[len(pre) :]
        if not key:
            if req.method == 'POST':
                return self.bulk_delete(req)
            names = sorted(k for k in self.objs if k.startswith(q.get('prefix', '')) and k > q.get('marker', ''))
            names = names[: min(int(q.get('limit', 10000)), 10000)]
            b = json.dumps([{'name': k, 'bytes': len(self.objs[k].body)} for k in names]).encode()
            return self.fmt(req, b, ctype='application/json; charset=utf-8')
        o = self.objs.get(key)
        if req.method in ('GET', 'HEAD'):
            if o is None:
                return plain_error(404, 'Not Found')(req)
            return self.fmt(req, o.body, headers=[('ETag', o.etag), *o.meta.items()], ctype='application/octet-stream')
        if req.method == 'PUT':
            want = req.get('ETag')
            if want and want.strip('"') != hashlib.md5(req.body).hexdigest():
                return plain_error(422, 'Unprocessable Entity')(req)
            meta = {k: v for k, v in req.headers if k.lower().startswith('x-object-')}
            self.objs = dict(self.objs)
            self.objs[key] = Obj(req.body, meta)
            return resp(b'', 201, 'Created', [('ETag', self.objs[key].etag)])
        if req.method == 'DELETE':
            if o is None:
                return plain_error(404, 'Not Found')(req)
            self.objs = {k: v for k, v in self.objs.items() if k != key}
            return resp(b'', 204, 'No Content')
        raise AssertionError(req.method)

    def bulk_delete(self, req):
        n = missing = 0
        errors = []
        aborted = None
        self.objs = dict(self.objs)
        done = []
        lines = [urllib.parse.unquote(x) for x in req.body.decode().split('\n') if x.strip()]
        for x in lines:
            pre = f'/{self.container}/'
            k = x[len(pre) :]
            assert x.startswith(pre)
            verdict = self.per_key(k) if self.per_key else None
            if verdict and verdict.startswith('abort'):
                # an exception in the middleware ends the processing
                aborted = verdict[6:]
                break
            if verdict:
                errors.append([urllib.parse.quote(x), verdict])
                if len(errors) >= (self.bulk or 1000):
                    aborted = '400 Bad Request/Max delete failures exceeded'
                    break
            elif k in self.objs:
                del self.objs[k]
                n += 1
                done.append(k)
            else:
                missing += 1
                done.append(k)
        status, text = '200 OK', ''
        if len(lines) > 10 * (self.bulk or 1000):
            raise AssertionError('too many keys in one request')
        if aborted:
            status, _, text = aborted.partition('/')
            if len(done) + len(errors) < len(lines):
                done = []  # the client cannot know
        elif errors:
            status = '400 Bad Request'
            if any(e[1].startswith('5') for e in errors):
                status = '502 Bad Gateway'
            if any(e[1].startswith('401') for e in errors):
                status = '401 Unauthorized'
        elif not n and not missing:
            status, text = '400 Bad Request', 'Invalid bulk delete.'
        elif self.per_key and missing and not n:
            status, text = '404 Not Found', ''
        b = json.dumps({'Number Not Found': missing, 'Response Status': status, 'Response Body': text, 'Errors': errors, 'Number Deleted': n})
        req.done = done
        return self.fmt(req, b'  \r\n' + b.encode(), ctype='application/json')

    def special(self, req):
        out = []
        if req.get('X-Auth-Token'):
            out.append(('token expired',))
        if req.method == 'PUT' and req.body:
            out.append(('upload-corrupt',))
        return out

    def do_special(self, conn, req, f):
        if f[0] == 'token expired':
            self.valid.clear()
            conn.reply(plain_error(401, 'Unauthorized')(req))
            return
        b = bytearray(req.body)
        b[len(b) // 2] ^= 1
        req.body = bytes(b)
        conn.reply(self.process(req))

    def corruptions(self, req, reply):
        out = []
        if req.method == 'GET' and b'octet-stream' in reply[:400] and self.style == 'length':
            out += [('corrupt', n, b) for n, b in body_flips(reply)]
        if req.method in ('GET', 'HEAD') and b'x-object-meta' in reply.lower():
            for h in (b'x-object-meta-000', b'x-object-meta-md5'):
                for pos in (0, 3, -1, -2) if h.endswith(b'000') else (2,):
                    b = flip_header(reply, h, pos)
                    out += [('corrupt', f'{h.decode()} char {pos}', b)] if b else []
        return out


class GSServer(Server):
    name = 'gs'
    integrity = False
    temp_errors = (
        ('503 json', json_error(503, 'Service Unavailable', 'Backend Error', [('Retry-After', '2')])),
        ('500 json', json_error(500, 'Internal Server Error', 'Internal Error')),
        ('502 html', plain_error(502, 'Bad Gateway')),
        ('504 empty', plain_error(504, 'Gateway Timeout', body=b'', ctype=None)),
        ('503 chunked', plain_error(503, 'Oops', chunk=True)),
        ('429 json', json_error(429, 'Too Many Requests', 'Rate Limit Exceeded')),
        ('408 json', json_error(408, 'Request Timeout', 'Timeout')),
    )

    def __init__(self, bucket='bkt', **kw):
        super().__init__(**kw)
        self.bucket = bucket
        self.valid = set()
        self.token = 0
        self.gen = 0

    def on_connect(self, conn, host, port):
        super().on_connect(conn, host, port)

    def process(self, req):
        path, _, qs = req.target.partition('?')
        q = dict(urllib.parse.parse_qsl(qs, keep_blank_values=True))
        J = 'application/json; charset=UTF-8'
        if path == '/o/oauth2/token':
            form = dict(urllib.parse.parse_qsl(req.body.decode()))
            if form.get('refresh_token') != 'refresh':
                return resp(b'{"error": "invalid_grant"}', 400, 'Bad Request', content_type=J)
            self.token += 1
            self.valid.add(f'Bearer at{self.token}')
            return resp(json.dumps({'access_token': f'at{self.token}', 'expires_in': 3600}).encode(), content_type=J)
        if req.get('Authorization') not in self.valid:
            return json_error(401, 'Unauthorized', 'Invalid Credentials')(req)
        b = f'/storage/v1/b/{self.bucket}'
        if not path.removeprefix('/upload').startswith((b + '/', b + '?')) and path != b:
            return json_error(404, 'Not Found', 'Not Found')(req)
        if path == f'/upload{b}/o':
            m = re.match(
                rb'--foo_bar_baz\r?\n[^\n]*json[^\n]*\n\r?\n(.*?)\r?\n--foo_bar_baz\r?\nContent-Type: application/octet-stream\r?\n\r?\n(.*)\r?\n--foo_bar_baz--\r?\n?$',
                req.body,
                re.S,
            )
            assert m, req.body[:300]
            d = json.loads(m.group(1))
            self.objs = dict(self.objs)
            self.objs[d['name']] = Obj(m.group(2), d['metadata'])
            return self.fmt(req, json.dumps(self.info(d['name'])).encode(), ctype=J)
        if path == b:
            return resp(b'{"kind": "storage#bucket"}', content_type=J)
        if path == b + '/o':
            pre, tok = q.get('prefix', ''), q.get('pageToken', '')
            names = sorted(k for k in self.objs if k.startswith(pre) and k > tok)
            n = min(int(q.get('maxResults', 1000)), self.page)
            d = {'kind': 'storage#objects'}
            if names:
                d['items'] = [{'name': k} for k in names[:n]]
            if names[n:]:
                d['nextPageToken'] = names[n - 1]
            return self.fmt(req, json.dumps(d).encode(), ctype=J)
        assert path.startswith(b + '/o/'), path
        key = urllib.parse.unquote(path[len(b) + 3 :])
        if key not in self.objs:
            return json_error(404, 'Not Found', 'Not Found')(req)
        if req.method == 'DELETE':
            self.objs = {k: v for k, v in self.objs.items() if k != key}
            return resp(b'', 204, 'No Content')
        if q.get('alt') == 'media':
            return self.fmt(req, self.objs[key].body, ctype='application/octet-stream', headers=[('X-Goog-Hash', 'md5=' + base64.b64encode(hashlib.md5(self.objs[key].body).digest()).decode())])
        return self.fmt(req, json.dumps(self.info(key)).encode(), ctype=J)

    def info(self, key):
        o = self.objs[key]
        return {'name': key, 'size': str(len(o.body)), 'metadata': dict(o.meta), 'md5Hash': base64.b64encode(hashlib.md5(o.body).digest()).decode()}

    def special(self, req):
        return [('token expired',)] if req.get('Authorization') else [('oauth internal_failure',)]

    def do_special(self, conn, req, f):
        if f[0] == 'token expired':
            self.valid.clear()
            conn.reply(json_error(401, 'Unauthorized', 'Invalid Credentials')(req))
        else:
            conn.reply(resp(b'{"error": "internal_failure"}', 500, 'Internal Server Error', content_type='application/json'))
