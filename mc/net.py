'''In-memory network: `trio.open_tcp_stream` connects to a simulated HTTP server.

`Net` hands out `Conn` streams. Everything the client writes is parsed by the server side; complete
requests go to `net.handler(conn, request)`, which answers with `conn.reply(bytes)`, `conn.hangup()`
(connection closed after the queued bytes) or nothing at all (the client will time out). The bytes
reach the client in segments determined by `net.segment(conn, available) -> n`.
'''
import contextlib
import dataclasses

import trio


@dataclasses.dataclass
class Request:
    method: str
    target: str
    headers: list
    body: bytes = b''
    expect: bool = False
    conn: object = None

    def get(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default


class Conn(trio.abc.HalfCloseableStream):
    def __init__(self, net, n):
        self.net = net
        self.n = n
        self.inbuf = b''
        self.out = b''
        self.delivered = 0
        self.received = 0
        self.eof = False  # server has closed its side
        self.reset = False
        self.rst_later = False  # reset once everything has been delivered
        self.mute = False  # ignore everything from now on
        self.closed = False  # closed by the client
        self.ev = trio.Event()
        self.req = None  # request whose body is being received
        self.need = 0
        self.requests = []
        self.log = []

    # -- server side
    def wake(self):
        self.ev.set()
        self.ev = trio.Event()

    def reply(self, data):
        self.out += data
        self.wake()

    def hangup(self):
        self.eof = True
        self.wake()

    def rst(self):
        self.reset = True
        self.wake()

    def feed(self, data):
        self.inbuf += data
        self.received += len(data)
        while not self.eof and not self.reset and not self.mute:
            if self.req is None:
                i = self.inbuf.find(b'\r\n\r\n')
                if i < 0:
                    return
                head, self.inbuf = self.inbuf[:i], self.inbuf[i + 4 :]
                lines = head.decode('latin1').split('\r\n')
                method, target, _ = lines[0].split(' ', 2)
                hdrs = [tuple(x.split(': ', 1)) if ': ' in x else (x.split(':', 1)[0], x.split(':', 1)[1].strip()) for x in lines[1:]]
                r = Request(method, target, hdrs, conn=self)
                te = r.get('Transfer-Encoding')
                if te is not None:
                    raise AssertionError('chunked requests are not expected')
                self.need = int(r.get('Content-Length', '0'))
                r.expect = (r.get('Expect') or '').lower() == '100-continue'
                self.req = r
                if r.expect and self.net.on_expect is not None:
                    if not self.net.on_expect(self, r):
                        self.req = None
                        continue
                elif r.expect:
                    self.reply(b'HTTP/1.1 100 Continue\r\n\r\n')
                if self.need and self.net.on_head is not None:
                    self.net.on_head(self, r)
                    if self.eof or self.reset:
                        return
            if len(self.inbuf) < self.need:
                return
            r = self.req
            r.body, self.inbuf = self.inbuf[: self.need], self.inbuf[self.need :]
            self.req = None
            self.requests.append(r)
            self.net.requests.append(r)
            self.net.handler(self, r)

    # -- client side
    async def send_all(self, data):
        await trio.lowlevel.checkpoint()
        if self.closed:
            raise trio.ClosedResourceError()
        if self.eof or self.reset or (self.rst_later and not self.out):
            raise trio.BrokenResourceError()
        data = bytes(data)
        if self.net.on_send is not None:
            data = self.net.on_send(self, data)
        self.feed(data)

    async def wait_send_all_might_not_block(self):
        await trio.lowlevel.checkpoint()

    async def send_eof(self):
        await trio.lowlevel.checkpoint()

    async def receive_some(self, max_bytes=65536):
        await trio.lowlevel.checkpoint()
        while True:
            if self.closed:
                raise trio.ClosedResourceError()
            if self.reset:
                raise trio.BrokenResourceError()
            if self.out:
                n = len(self.out) if max_bytes is None else min(max_bytes, len(self.out))
                if self.net.segment is not None:
                    n = min(n, max(1, self.net.segment(self, n)))
                d, self.out = self.out[:n], self.out[n:]
                self.delivered += n
                return d
            if self.rst_later:
                raise trio.BrokenResourceError()
            if self.eof:
                return b''
            await self.ev.wait()

    async def aclose(self):
        self.closed = True
        await trio.lowlevel.checkpoint()

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    @property
    def socket(self):
        return self


class Net:
    def __init__(self, handler):
        self.handler = handler
        self.conns = []
        self.requests = []
        self.on_expect = None
        self.on_head = None
        self.on_send = None
        self.on_connect = None
        self.segment = None

    async def open_tcp_stream(self, host, port, **kw):
        await trio.lowlevel.checkpoint()
        c = Conn(self, len(self.conns))
        if self.on_connect is not None:
            self.on_connect(c, host, port)
        self.conns.append(c)
        return c

    @contextlib.contextmanager
    def installed(self):
        orig = trio.open_tcp_stream
        trio.open_tcp_stream = self.open_tcp_stream
        try:
            yield self
        finally:
            trio.open_tcp_stream = orig


def resp(body=b'', status=200, reason='OK', headers=(), length=True, version='1.1', content_type=None):
    h = [f'HTTP/{version} {status} {reason}']
    h += [f'{k}: {v}' for k, v in headers]
    if content_type:
        h.append(f'Content-Type: {content_type}')
    if length:
        h.append(f'Content-Length: {len(body)}')
    return '\r\n'.join(h).encode('latin1') + b'\r\n\r\n' + body


def chunked(parts, status=200, reason='OK', headers=(), trailers=(), ext=''):
    h = [f'HTTP/1.1 {status} {reason}', 'Transfer-Encoding: chunked'] + [f'{k}: {v}' for k, v in headers]
    out = '\r\n'.join(h).encode('latin1') + b'\r\n\r\n'
    for p in parts:
        out += b'%x%s\r\n' % (len(p), ext.encode()) + p + b'\r\n'
    out += b'0\r\n' + b''.join(b'%s: %s\r\n' % (k.encode(), v.encode()) for k, v in trailers) + b'\r\n'
    return out
