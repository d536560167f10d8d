'''Reference model of a POSIX-like file system with s3ql's documented deviations.

Nodes are numbered in creation order along a history (`nid`); root is 0. `apply` executes an operation
and returns an `Expect`: the set of acceptable errno values (empty: must succeed), and which nodes must
have their mtime/ctime updated.
'''
import copy
import errno as E
import stat

DIR, REG, LNK, FIFO, CHR = 'd', 'f', 'l', 'p', 'c'
IFMT = {DIR: stat.S_IFDIR, REG: stat.S_IFREG, LNK: stat.S_IFLNK, FIFO: stat.S_IFIFO, CHR: stat.S_IFCHR}
CTRL = b'.__s3ql__ctrl__'


class Node:
    __slots__ = (
        'nid', 'kind', 'perm', 'uid', 'gid', 'content', 'target', 'rdev', 'xattrs', 'children',
        'nlink', 'lookups', 'locked', 'ino', 'hidden',
    )  # fmt: skip

    def __init__(self, nid, kind, perm=0o644, uid=0, gid=0):
        self.nid = nid
        self.kind = kind
        self.perm = perm
        self.uid = uid
        self.gid = gid
        self.content = b''
        self.target = None
        self.rdev = 0
        self.xattrs = {}
        self.children = {}
        self.nlink = 1
        self.lookups = 0
        self.locked = False
        self.ino = None
        self.hidden = False

    @property
    def mode(self):
        return IFMT[self.kind] | self.perm

    @property
    def size(self):
        return len(self.target) if self.kind == LNK else len(self.content)

    def clone(self):
        n = Node.__new__(Node)
        for a in Node.__slots__:
            setattr(n, a, getattr(self, a))
        n.xattrs = dict(self.xattrs)
        n.children = dict(self.children)
        return n


class Expect:
    def __init__(self):
        self.errnos = set()
        self.m = set()  # nids whose mtime must be bumped
        self.c = set()  # nids whose ctime must be bumped
        self.free_m = set()  # not checked
        self.free_c = set()
        self.new = None  # nid of a newly created node
        self.target = None  # nid that the call returns attributes of
        self.value = None

    def err(self, *e):
        self.errnos.update(e)
        return self


class Model:
    def __init__(self):
        self.nodes = {0: Node(0, DIR, 0o755)}
        self.nodes[0].ino = 1
        lf = Node(1, DIR, 0o700)
        lf.hidden = True  # lost+found, never touched
        lf.ino = 3
        self.nodes[1] = lf
        self.nodes[0].children[b'lost+found'] = 1
        self.next = 2

    def clone(self):
        m = Model.__new__(Model)
        m.nodes = {k: v.clone() for k, v in self.nodes.items()}
        m.next = self.next
        return m

    # -- helpers
    def add(self, kind, perm=0o644, uid=0, gid=0):
        n = Node(self.next, kind, perm, uid, gid)
        self.nodes[self.next] = n
        self.next += 1
        return n

    def parents(self, nid):
        return [(p.nid, name) for p in self.nodes.values() for name, c in p.children.items() if c == nid]

    def live(self):
        '''nids reachable from the root, with one path each'''
        res = {}
        todo = [(0, b'/')]
        while todo:
            nid, path = todo.pop(0)
            if nid in res:
                continue
            res[nid] = path
            n = self.nodes[nid]
            for name in sorted(n.children):
                todo.append((n.children[name], path + name + b'/'))
        return res

    def purge(self):
        for nid in [k for k, n in self.nodes.items() if n.nlink == 0 and n.lookups == 0]:
            del self.nodes[nid]

    def is_ancestor(self, a, b):
        '''a is b or an ancestor of b'''
        todo = [a]
        seen = set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo.extend(self.nodes[x].children.values())
        return False

    def canon(self, with_lookups=True):
        order = []
        ids = {}

        def visit(nid):
            if nid in ids:
                return
            ids[nid] = len(order)
            order.append(nid)
            n = self.nodes[nid]
            for name in sorted(n.children):
                visit(n.children[name])

        visit(0)
        rest = [n for k, n in self.nodes.items() if k not in ids]
        rest.sort(key=lambda n: (n.kind, n.perm, n.content, sorted(n.xattrs.items()), n.nid))
        for n in rest:
            visit(n.nid)
        return tuple(
            (
                n.kind, n.perm, n.uid, n.gid, n.content, n.target, n.rdev,
                tuple(sorted(n.xattrs.items())),
                tuple((name, ids[c]) for name, c in sorted(n.children.items())),
                n.nlink, n.locked,
                # the kernel either knows an inode or not; the count itself is checked at the end
                bool(n.lookups) if with_lookups else None,
            )
            for n in (self.nodes[x] for x in order)
        )  # fmt: skip

    # -- operations
    def apply(self, op):
        return getattr(self, 'op_' + op[0])(Expect(), *op[1:])

    def _new(self, x, d, name, kind, perm=0o644, check=True):
        p = self.nodes[d]
        if name == CTRL:
            return x.err(E.EACCES), None
        if p.nlink == 0 and d:
            x.err(E.EINVAL, E.ENOENT)
        if p.locked:
            x.err(E.EPERM)
        if x.errnos:
            return x, None
        n = self.add(kind, perm, 7, 8)
        if p.perm & stat.S_ISGID:
            n.gid = p.gid
            if kind == DIR:
                n.perm |= stat.S_ISGID
        p.children[name] = n.nid
        n.lookups = 1
        x.m |= {d, n.nid}
        x.c |= {d, n.nid}
        x.new = n.nid
        return x, n

    def op_create(self, x, d, name):
        return self._new(x, d, name, REG)[0]

    def op_creat2(self, x, d, name, trunc):
        '''create() on an existing name'''
        nid = self.nodes[d].children[name]
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        if trunc:
            n.content = b''
            x.m.add(nid)
            x.c.add(nid)
        n.lookups += 1
        x.target = nid
        return x

    def op_mkdir(self, x, d, name):
        return self._new(x, d, name, DIR, 0o755)[0]

    def op_mknod(self, x, d, name, kind):
        x, n = self._new(x, d, name, kind)
        if n is not None and kind == CHR:
            n.rdev = 0x103
        return x

    def op_symlink(self, x, d, name, target):
        x, n = self._new(x, d, name, LNK, 0o777)
        if n is not None:
            n.target = target
        return x

    def op_link(self, x, nid, d, name):
        if nid == 'ctrl' or name == CTRL:
            return x.err(E.EACCES)
        p, n = self.nodes[d], self.nodes[nid]
        if p.nlink == 0 and d:
            x.err(E.EINVAL, E.ENOENT)
        if p.locked:
            x.err(E.EPERM)
        if x.errnos:
            return x
        p.children[name] = nid
        n.nlink += 1
        n.lookups += 1
        x.m.add(d)
        x.c |= {d, nid}
        x.target = nid
        return x

    def _drop_entry(self, x, d, name):
        p = self.nodes[d]
        nid = p.children.pop(name)
        n = self.nodes[nid]
        n.nlink -= 1
        x.m.add(d)
        x.c |= {d, nid}

    def op_unlink(self, x, d, name):
        p = self.nodes[d]
        if name == CTRL:
            return x.err(E.EACCES, E.EPERM)
        if name not in p.children:
            return x.err(E.ENOENT)
        if self.nodes[p.children[name]].kind == DIR:
            x.err(E.EISDIR)
        if p.locked:
            x.err(E.EPERM)
        if x.errnos:
            return x
        self._drop_entry(x, d, name)
        return x

    def op_rmdir(self, x, d, name):
        p = self.nodes[d]
        if name not in p.children:
            return x.err(E.ENOENT)
        n = self.nodes[p.children[name]]
        if n.kind != DIR:
            x.err(E.ENOTDIR)
        elif n.children:
            x.err(E.ENOTEMPTY)
        if p.locked:
            x.err(E.EPERM)
        if x.errnos:
            return x
        self._drop_entry(x, d, name)
        return x

    def op_rename(self, x, d1, n1, d2, n2, flags=0):
        if flags:
            return x.err(E.ENOTSUP, E.EINVAL)
        p1, p2 = self.nodes[d1], self.nodes[d2]
        if CTRL in (n1, n2):
            return x.err(E.EACCES)
        if n1 not in p1.children:
            x.err(E.ENOENT)
        if p1.locked or p2.locked:
            x.err(E.EPERM)
        v = p2.children.get(n2)
        if v is not None and self.nodes[v].kind == DIR and self.nodes[v].children:
            x.err(E.ENOTEMPTY, E.EEXIST)
        if x.errnos:
            return x
        if v is not None:
            self._drop_entry(x, d2, n2)
        nid = p1.children.pop(n1)
        p2.children[n2] = nid
        x.m |= {d1, d2}
        x.c |= {d1, d2}
        x.free_c.add(nid)
        return x

    def op_lookup(self, x, d, name):
        if name == b'.':
            nid = d
        elif name == b'..':
            nid = 0 if d == 0 else self.parents(d)[0][0]
        elif name == CTRL:
            x.value = 'ctrl'
            return x
        elif name not in self.nodes[d].children:
            return x.err(E.ENOENT)
        else:
            nid = self.nodes[d].children[name]
        self.nodes[nid].lookups += 1
        x.target = nid
        return x

    def op_forget(self, x, nid):
        self.nodes[nid].lookups = 0
        return x

    def op_chmod(self, x, nid, perm):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        n.perm = perm
        x.c.add(nid)
        return x

    def op_chown(self, x, nid, uid, gid):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        n.uid, n.gid = uid, gid
        x.c.add(nid)
        return x

    def op_utimes(self, x, nid, a, m):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        if max(a, m) >= 1 << 63:
            return x.err(E.EINVAL)
        x.c.add(nid)
        x.free_m.add(nid)
        x.value = ('times', nid, a, m)
        return x

    def op_truncate(self, x, nid, size):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        n.content = n.content[:size].ljust(size, b'\0')
        x.free_m.add(nid)
        x.c.add(nid)
        return x

    def op_write(self, x, nid, off, data):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        c = n.content.ljust(off, b'\0')
        n.content = c[:off] + data + c[off + len(data) :]
        x.m.add(nid)
        x.c.add(nid)
        return x

    op_hwrite = op_write  # through a handle that was opened before

    def op_openw(self, x, nid, trunc, rw=False):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        if trunc:
            n.content = b''
            x.m.add(nid)
            x.c.add(nid)
        return x

    def op_openr(self, x, nid):
        return x

    def op_read(self, x, nid, off, n):
        x.value = self.nodes[nid].content[off : off + n]
        return x

    def op_setxattr(self, x, nid, name, val):
        n = self.nodes[nid]
        if n.locked:
            return x.err(E.EPERM)
        n.xattrs[name] = val
        x.c.add(nid)
        return x

    def op_removexattr(self, x, nid, name):
        n = self.nodes[nid]
        if n.locked:
            x.err(E.EPERM)
        if name not in n.xattrs:
            x.err(E.ENODATA)
        if x.errnos:
            return x
        del n.xattrs[name]
        x.c.add(nid)
        return x

    def op_fsync(self, x, nid):
        return x

    def op_drop(self, x):
        return x

    def op_flush(self, x):
        return x

    def op_lock(self, x, nid):
        todo = [nid]
        while todo:
            n = self.nodes[todo.pop()]
            n.locked = True
            todo.extend(n.children.values())
        return x

    def op_rmtree(self, x, d, name):
        p = self.nodes[d]
        if p.locked:
            x.err(E.EPERM)
        if name == CTRL:
            return x.err(E.EACCES, E.EPERM)
        if name not in p.children:
            x.err(E.ENOENT)
        if x.errnos:
            return x
        todo = [(d, name)]
        while todo:
            d1, nm = todo.pop()
            nid = self.nodes[d1].children[nm]
            n = self.nodes[nid]
            if n.children:
                todo.append((d1, nm))
                todo.extend((nid, k) for k in n.children)
            else:
                self._drop_entry(x, d1, nm)
        return x

    def op_copy(self, x, src, dst):
        s, t = self.nodes[src], self.nodes[dst]
        if t.locked:
            return x.err(E.EPERM)
        if src == dst:
            return x
        t.perm, t.uid, t.gid = s.perm, s.uid, s.gid
        t.xattrs = {**t.xattrs, **s.xattrs}
        x.free_m.add(dst)
        x.free_c.add(dst)
        ids = {}

        def dup(nid):
            if nid in ids:
                ids[nid].nlink += 1
                return ids[nid].nid
            o = self.nodes[nid]
            n = o.clone()
            n.nid = self.next
            self.next += 1
            self.nodes[n.nid] = n
            n.lookups = 0
            n.nlink = 1
            n.locked = False
            n.ino = None
            n.hidden = False
            ids[nid] = n
            x.free_m.add(n.nid)
            x.free_c.add(n.nid)
            n.children = {k: dup(c) for k, c in sorted(o.children.items())}
            return n.nid

        snap = {k: c for k, c in sorted(s.children.items())}
        new = {k: dup(c) for k, c in snap.items()}
        t.children.update(new)
        return x


def clone_state(m):
    return copy.deepcopy(m)
