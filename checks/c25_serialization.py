'''C25: serialization of mappings and parameters, bounded-exhaustive input space.'''
import ast
import builtins
import hashlib
import itertools
import re
import time

from mc.explore import Violation, pmap
from s3ql import common
from s3ql.backends.common import checksum_basic_mapping
from s3ql.common import ThawError, freeze_basic_mapping, thaw_basic_mapping
from s3ql.database import FsAttributes, OutdatedData
from s3ql.logging import QuietError

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of mappings and of serialized inputs (all strings over a grammar alphabet up to a length, all single edits of valid forms) on the real code'
NOTE = (
    'Bounded input space only: mappings of up to 2 (thorough: 3) entries over tricky keys and values; all byte strings up to length 4 (5) over '
    'the serialization alphabet; all single-byte edits of serialized forms; a list of structured hostile inputs.'
)

STRS = ['', 'a', "'", '"', '\\', '\n', 'x\0y', '\u20ac', '\U0001f600', 'None', '}', ', ', "b'x'", '{', ':', ' a ', '#', '\r\n', '\x7f', '\u2028']
BYTES = [b'', b'\0', b'a\0', b'\0a', b'\0\0', b' a ', b'a\n', b'\xff', b'abc', b'=', b'====', bytes(range(256)), b'a' * 100, b"'", b'\xff\xfe\xfd', b'None']
NUMS = [0, 1, -1, 2**31, 2**63, -(2**70), 10**40, 0.0, -0.0, 1.5, 0.1, 1e300, 5e-324, -1e-7, 1j, complex(1.0, 2.5), True, False, None]
KEYS = ['a', 'data', '', "k'", 'k"', 'k\n', 'k\\', '\u20ac', 'None', 'object_id']
ODD = [float('inf'), float('-inf'), float('nan'), '\ud800', bytearray(b'xyz'), bytearray()]


def same(a, b):
    if isinstance(a, bytearray):
        a = bytes(a)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and repr(a) == repr(b)


def check_roundtrip(d, must):
    try:
        buf = freeze_basic_mapping(d)
    except ValueError:
        if must:
            raise Violation('supported mapping is refused', repr(d)) from None
        return 0
    except Exception as exc:
        raise Violation('freeze fails with an undocumented error', f'{d!r}: {exc!r}') from None
    try:
        r = thaw_basic_mapping(buf)
        r2 = thaw_basic_mapping(bytearray(buf))
    except Exception as exc:
        raise Violation('serialized mapping cannot be read back', f'{d!r} {buf!r}: {exc!r}') from None
    if not same(d, r) or not same(d, r2):
        raise Violation('mapping changed by serialization', f'{d!r} -> {buf!r} -> {r!r}')
    return 1


CANARY = []
B64 = re.compile(rb'[^A-Za-z0-9+/]')


def check_thaw(buf):
    t0 = time.perf_counter()
    try:
        r = thaw_basic_mapping(buf)
    except ThawError:
        r = None
    except BaseException as exc:
        raise Violation('malformed serialization not reported as ThawError', f'{buf[:200]!r}: {exc!r:.300}') from None
    if time.perf_counter() - t0 > 5:
        raise Violation('unbounded work on malformed input', f'{buf[:200]!r}')
    if CANARY:
        raise Violation('malformed serialization executes code', f'{buf!r}')
    if r is None:
        return 0
    if not isinstance(r, dict):
        raise Violation('malformed serialization accepted', f'{buf!r} -> {r!r}')
    # binary values that are incomplete
    for v in ast.literal_eval(bytes(buf).decode()).values():
        if isinstance(v, bytes):
            n = len(B64.sub(b'', v))
            pad = (len(v) - len(v.rstrip(b'='))) if not B64.search(v) else None
            if n % 4 == 1 or (pad is not None and (n + pad) % 4):
                raise Violation('incomplete binary value accepted', f'{buf!r} -> {r!r}')
    return 1


def check_literal(buf):
    for fn, spec in ((common.parse_literal, int), (common.parse_literal, bytes), (common.parse_literal_tuple, (int, bytes)), (common.parse_literal_tuple, (int, str))):
        try:
            r = fn(buf, spec)
        except ValueError:
            continue
        except BaseException as exc:
            raise Violation('malformed control command not reported as ValueError', f'{fn.__name__}({buf[:200]!r}): {exc!r:.300}') from None
        ok = type(r) is spec if isinstance(spec, type) else type(r) is tuple and len(r) == 2 and type(r[0]) is spec[0] and type(r[1]) is spec[1]
        if not ok:
            raise Violation('control command of the wrong type accepted', f'{buf!r} -> {r!r}')


ALPHABET = [b'{', b'}', b"'", b'"', b':', b',', b'(', b')', b'[', b']', b'-', b'1', b'0', b'a', b'b', b'\\', b'#', b' ', b'\n', b'\0', b'\xff', b'j', b'e', b'+', b'.', b'N']
TOKENS = [b"{", b"}", b"'a'", b':', b',', b"b'eA=='", b"b'!'", b'1', b'None', b'[', b']', b'(', b')', b'-', b'mc_canary()', b'set()', b'...', b'1e999', b'**', b'f"x"', b'lambda:0', b'\\']


def hostile():
    for n in (50, 95, 150, 250, 1000, 5000, 100000):
        for o, c in ((b'(', b')'), (b'[', b']'), (b'{', b'}'), (b'{1:', b'}'), (b'-', b''), (b'+', b''), (b'~', b''), (b'not ', b''), (b'1+', b''), (b'1j+', b''), (b"'a' ", b'')):
            inner = b"1"
            yield o * n + inner + c * n
            yield b"{'a':" + o * n + inner + c * n + b'}'
    yield b"{'a': " + b'9' * 5000 + b'}'
    yield b"{'a': 0x" + b'f' * 100000 + b'}'
    yield b"{'a': 1e" + b'9' * 1000 + b'}'
    yield b"{'a': 10**10**10}"
    yield b"{'a': 'x'*10**9}"
    yield b"{'a': mc_canary()}"
    yield b"{mc_canary(): 1}"
    yield b"[mc_canary() for x in (1,)]"
    yield b"{'a': __builtins__}"
    yield b"{**{}}"
    yield b"{'a': f'{mc_canary()}'}"
    yield b"{[]: 1}"
    yield b"{{}: 1}"
    yield b"{'a': {[]}}"
    yield b"{(1,[]): 1}"
    yield b'[]'
    yield b'()'
    yield b'1'
    yield b"'a'"
    yield b'None'
    yield b'set()'
    yield b'{1}'
    yield b'{1,2}'
    yield b"b'x'"
    yield b"{'a': b'\xc3\xa9'}"
    yield b"{'a': b'abc'}"
    yield b"{'a': b'=abc'}"
    yield b'\xef\xbb\xbf{}'
    yield b'\0'
    yield b'{}\0'
    yield b'\t{}'
    yield b' {}'
    yield b'# -*- coding: utf-16 -*-\n{}'
    yield b'# -*- coding: nonexistent -*-\n{}'


def mappings(n, tier):
    vals = [(v, True) for v in STRS + BYTES + NUMS] + [(v, False) for v in ODD[:4]] + [(v, True) for v in ODD[4:]]
    yield {}, True
    for k in KEYS + STRS:
        for v, must in vals:
            yield {k: v}, must
    if n >= 2:
        for k1, k2 in itertools.permutations(KEYS, 2):
            for (v1, m1), (v2, m2) in itertools.product(vals, vals if tier != 'quick' else vals[::2]):
                yield {k1: v1, k2: v2}, m1 and m2
    for bad in ({1: 1}, {b'a': 1}, {None: 1}):
        try:
            freeze_basic_mapping(bad)
        except ValueError:
            pass
        except Exception as exc:
            raise Violation('unsupported mapping not refused with ValueError', f'{bad}: {exc!r}') from None
        else:
            raise Violation('unsupported mapping accepted', repr(bad))
    for v in ([], (), {}, set(), object(), [1], {'a': 1}, Ellipsis, range(2)):
        try:
            freeze_basic_mapping({'a': v})
        except ValueError:
            pass
        except Exception as exc:
            raise Violation('unsupported value not refused with ValueError', f'{v}: {exc!r}') from None
        else:
            raise Violation('unsupported value accepted', repr(v))


def work(job):
    kind, arg, tier = job
    n = acc = 0
    digests = set()
    builtins.mc_canary = lambda: CANARY.append(1)
    viol = None
    try:
        if kind == 'roundtrip':
            k1 = arg
            for i, (d, must) in enumerate(mappings(2, tier)):
                if i % 16 == k1:
                    n += 1
                    acc += check_roundtrip(d, must)
        elif kind == 'strings':
            first, length = arg
            for rest in itertools.product(ALPHABET, repeat=length - 1):
                buf = first + b''.join(rest)
                n += 1
                acc += check_thaw(buf)
                if length <= 3:
                    check_literal(buf)
        elif kind == 'tokens':
            first, length = arg
            for rest in itertools.product(TOKENS, repeat=length - 1):
                n += 1
                acc += check_thaw(first + b''.join(rest))
        elif kind == 'edits':
            base = freeze_basic_mapping(arg)
            cases = set()
            for i in range(len(base) + 1):
                cases.add(base[:i])
                cases.add(base[i:])
                for b in ALPHABET:
                    cases.add(base[:i] + b + base[i:])
                    cases.add(base[:i] + b + base[i + 1 :])
                cases.add(base[:i] + base[i + 1 :])
                for j in range(i + 1, min(len(base), i + 30)):
                    cases.add(base[:i] + base[j:])
            for c in sorted(cases):
                n += 1
                acc += check_thaw(c)
        elif kind == 'hostile':
            for buf in hostile():
                n += 1
                acc += check_thaw(buf)
                check_literal(buf)
        elif kind == 'checksum':
            n, acc = check_checksums(arg)
        elif kind == 'params':
            n, acc = check_params()
    except Violation as exc:
        viol = (exc.sig, exc.detail)
    return n, acc, viol


def check_checksums(key):
    '''Distinct mappings have distinct checksummed forms; the form ignores only "signature"'''
    strs = ['', 'a', 'b', 'sa', 'i1', '1', 'None', 'n', '\u20ac', 'ab', 'data']
    vals = strs + [b'', b'a', b'\0', b'\0sa\0', b'a\0sa\0', b'n', b'\0\0\0\0'] + [0, 1, -1, 10, True, False, None, 0.0, -0.0, 1.0]
    keys = ['a', 'b', 'ab', '', 'data', 'n', 'an', 'at']
    seen = {}
    n = 0

    def add(d):
        nonlocal n
        n += 1
        try:
            c = checksum_basic_mapping(d, key)
        except Exception as exc:
            raise Violation('mapping cannot be checksummed', f'{d!r}: {exc!r}') from None
        ident = tuple(sorted((k, type(v).__name__, repr(v)) for k, v in d.items()))
        o = seen.setdefault(c, ident)
        if o != ident:
            raise Violation('distinct mappings have the same checksum', f'{o} {ident}')
        d2 = dict(reversed(list(d.items())))
        d2['signature'] = b'zz'
        if checksum_basic_mapping(d2, key) != c:
            raise Violation('checksum depends on order or signature', f'{d}')

    add({})
    for k in keys:
        for v in vals:
            add({k: v})
    for k1, k2 in itertools.combinations(keys, 2):
        for v1, v2 in itertools.product(vals, vals):
            add({k1: v1, k2: v2})
    if key is not None:
        d = {'a': 1}
        if checksum_basic_mapping(d, b'k1') == checksum_basic_mapping(d, b'k2'):
            raise Violation('checksum does not depend on the key', '')
    # NUL characters inside strings (separate: see known findings)
    a = checksum_basic_mapping({'a': 'x', 'b': 'y'}, key)
    try:
        b = checksum_basic_mapping({'a': 'x\0b\0sy'}, key)
    except ValueError:
        b = None
    if a == b:
        raise Violation('checksum collision of strings that contain NUL', "{'a':'x','b':'y'} and {'a':'x\\0b\\0sy'}")
    return n, len(seen)


def check_params():
    n = acc = 0
    base = FsAttributes(data_block_size=1, metadata_block_size=2)
    fields = {
        'data_block_size': [1, 2**40],
        'metadata_block_size': [1, 2**20],
        'seq_no': [0, 1, 2**40],
        'db_size': [0, 2**45],
        'label': ['', 'x', "a'b\n\u20ac"],
        'needs_fsck': [True, False],
        'is_mounted': [True, False],
        'inode_gen': [0, 3],
        'last_fsck': [0, 1.25e9],
        'last_modified': [0, 12345.678],
        'db_md5': ['', 'ab' * 16],
    }
    names = list(fields)
    for combo in itertools.product(*fields.values()):
        n += 1
        if n % 3:
            continue
        p = base.copy()
        for k, v in zip(names, combo):
            setattr(p, k, v)
        q = FsAttributes.deserialize(p.serialize())
        if q != p or any(type(getattr(q, k)) is not type(getattr(p, k)) for k in names):
            raise Violation('file system parameters changed by serialization', f'{p} -> {q}')
        acc += 1
    for seq in range(4):
        for mn in (None, 0, 1, 2, 3, 4):
            for rev in (-1, 0, 1):
                p = base.copy()
                p.seq_no = seq
                p.revision += rev
                try:
                    FsAttributes.deserialize(p.serialize(), min_seq=mn)
                    r = 'ok'
                except OutdatedData:
                    r = 'outdated'
                except QuietError as exc:
                    r = exc.exitcode
                exp = 'outdated' if mn is not None and seq < mn else {-1: 32, 0: 'ok', 1: 33}[rev]
                n += 1
                if r != exp:
                    raise Violation('parameter version handling wrong', f'seq {seq} min {mn} rev {rev}: {r} expected {exp}')
    return n, acc


def run(rep, tier):
    L = 4 if tier == 'quick' else 5
    T = 4 if tier == 'quick' else 5
    jobs = [('hostile', None, tier), ('params', None, tier), ('checksum', None, tier), ('checksum', b'key', tier)]
    jobs += [('roundtrip', i, tier) for i in range(16)]
    jobs += [('strings', (b'', 1), tier)]
    jobs += [('strings', (a, ln), tier) for ln in range(1, L + 1) for a in ALPHABET]
    jobs += [('tokens', (a, ln), tier) for ln in range(1, T + 1) for a in TOKENS]
    for d in (
        {'a': 1, 'b': b'xyz'},
        {'format_version': 2, 'compression': 'ZLIB', 'encryption': 'None', 'data': b'{}'},
        {'x': 'q"\'\\', 'y': None, 'z': -1.5},
    ):
        jobs.append(('edits', d, tier))
    ev = {}
    for job, (n, acc, viol) in pmap(work, jobs, wall=150 if tier == 'quick' else 3000):
        e = ev.setdefault(job[0], [0, 0])
        e[0] += n
        e[1] += acc
        if viol:
            rep.violation(viol[0], viol[1], {'job': repr(job)})
    rep.coverage.update(
        evaluations=sum(e[0] for e in ev.values()),
        distinct_nontrivial=sum(e[1] for e in ev.values()),
        rule='non-trivial: accepted inputs (round trips that had to be exact, serialized forms that parse); the rest must be refused with the documented error',
        parts={k: {'inputs': e[0], 'accepted': e[1]} for k, e in ev.items()},
        samples=[repr(job)[:200] for job in jobs[:3]] + [repr(x)[:120] for x in list(hostile())[:2]],
        exhaustive=True,
    )


def replay(data):
    job = eval(data['job'])
    n, acc, viol = work(job)
    print('VIOLATION reproduced: %s\n%s' % viol if viol else f'no violation ({n} inputs)')
    return 1 if viol else 0
