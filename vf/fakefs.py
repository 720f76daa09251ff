"""An in-memory POSIX file system behind a stand-in ``os`` module.

Nothing here touches the real file system.  Every mutating operation calls
``fs.hook(op, path)`` first, where a harness injects crashes and I/O errors.
After a crash every further operation raises ``Crash`` again without effect,
so clean-up handlers of the crashed process cannot run.
"""
import errno
import io
import os as _os
import posixpath as _pp
import stat as _stat
import sys
import types

from . import sx


class Crash(sx.SxControl):
    """The process dies here.  Not an Exception; also not an engine failure."""


class Inode:
    n = 100

    def __init__(self, fs, kind, mode):
        fs.next_ino += 1
        self.ino = fs.next_ino
        self.kind = kind
        self.mode = mode
        self.entries = {}
        self.content = b""
        self.target = None
        self.mtime = 1.0
        self.synced = True
        self.durable = None  # content or entries at the last fsync
        self.fake_size = None

    def size(self):
        if self.fake_size is not None:
            return self.fake_size
        return len(self.content) if self.kind == "f" else 4096


class StatResult:

    def __init__(self, node):
        base = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK, "p": _stat.S_IFIFO}[node.kind]
        self.st_mode = base | node.mode
        self.st_ino = node.ino
        self.st_dev = 7
        self.st_size = node.size()
        self.st_mtime = node.mtime
        self.st_mtime_ns = node.mtime * 1000000000
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0


class DirEntry:

    def __init__(self, fs, parent, name, node):
        self.fs, self.name, self.node = fs, name, node
        self.path = _pp.join(parent, name)

    def stat(self, follow_symlinks=True):
        return StatResult(self.node) if not follow_symlinks else self.fs.stat(self.path)

    def is_symlink(self):
        return self.node.kind == "l"

    def is_dir(self, follow_symlinks=True):
        n = self.node
        if n.kind == "l" and follow_symlinks:
            try:
                n = self.fs.resolve(self.path)
            except OSError:
                return False
        return n.kind == "d"

    def is_file(self, follow_symlinks=True):
        n = self.node
        if n.kind == "l" and follow_symlinks:
            try:
                n = self.fs.resolve(self.path)
            except OSError:
                return False
        return n.kind == "f"

    def inode(self):
        return self.node.ino

    def __fspath__(self):
        return self.path


class ScandirIter:

    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def err(code, path=None):
    cls = {
        errno.ENOENT: FileNotFoundError,
        errno.EEXIST: FileExistsError,
        errno.ENOTDIR: NotADirectoryError,
        errno.EISDIR: IsADirectoryError,
        errno.EACCES: PermissionError,
        errno.EPERM: PermissionError,
    }.get(code, OSError)
    return cls(code, _os.strerror(code), path)


def plain(v):
    if isinstance(v, (sx.SymBytes, sx.SymStr)):
        return v.simp()
    return v


class FS:

    def __init__(self):
        self.next_ino = 100
        self.root = Inode(self, "d", 0o755)
        self.fds = {}
        self.next_fd = 10
        self.dead = False
        self.on_op = None
        self.on_any = None
        self.log = []
        self.clock = 1000.0
        self.tmp_n = 0
        self.read_hook = None
        self.lock_owner = {}  # inode -> fd holding the advisory lock

    # -- set-up helpers (never fault)
    def mkdirs(self, path):
        node = self.root
        for part in [p for p in path.split("/") if p]:
            node = node.entries.setdefault(part, Inode(self, "d", 0o755))
        return node

    def put(self, path, content, kind="f", target=None, mtime=None):
        d = self.mkdirs(_pp.dirname(path))
        n = Inode(self, kind, 0o644)
        n.content = content
        n.durable = content
        n.target = target
        if mtime is not None:
            n.mtime = mtime
        d.entries[_pp.basename(path)] = n
        return n

    def settle(self):
        """Everything written so far is durable."""

        def walk(n):
            if n.kind == "d":
                n.durable = dict(n.entries)
                for c in n.entries.values():
                    walk(c)
            else:
                n.durable = n.content

        walk(self.root)

    def power_loss(self):
        """Drops everything that was not fsynced."""

        def walk(n, seen):
            if n.ino in seen:
                return
            seen.add(n.ino)
            if n.kind == "d":
                n.entries = dict(n.durable) if n.durable is not None else {}
                for c in n.entries.values():
                    walk(c, seen)
            else:
                n.content = n.durable if n.durable is not None else b""

        walk(self.root, set())

    def reboot(self):
        self.dead = False
        self.on_op = None
        self.on_any = None
        self.fds = {}
        self.lock_owner = {}

    def tree(self, path="/"):
        """{path: (kind, content)} below path, links not followed."""
        out = {}
        try:
            node = self.resolve(path, follow=False)
        except OSError:
            return out

        def walk(p, n):
            out[p] = (n.kind, n.content if n.kind == "f" else n.target, n.ino)
            if n.kind == "d":
                for k in sorted(n.entries):
                    walk(_pp.join(p, k), n.entries[k])

        walk(path, node)
        return out

    # -- internals
    def hook(self, op, path):
        if self.dead:
            raise Crash()
        self.log.append((op, path))
        if self.on_any is not None:
            self.on_any()
        if self.on_op is not None:
            self.on_op(op, path)

    def alive(self):
        if self.dead:
            raise Crash()
        if self.on_any is not None:
            self.on_any()

    def fsp(self, p):
        if isinstance(p, (str, bytes)):
            return p
        if isinstance(p, sx.SymStr):
            p = p.concrete()
            return p
        if hasattr(p, "__fspath__"):
            return self.fsp(p.__fspath__())
        raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)

    def walk(self, path, follow=True, base=None, depth=0):
        """(parent inode, name, inode or None)"""
        if depth > 10:
            raise err(errno.ELOOP, path)
        node = self.root if path.startswith("/") or base is None else base
        parts = [p for p in path.split("/") if p and p != "."]
        if not parts:
            return None, "", node
        trail = [node]
        parent = node
        for i, part in enumerate(parts):
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            last = i == len(parts) - 1
            if part == "..":
                if len(trail) > 1:
                    trail.pop()
                parent = node = trail[-1]
                if last:
                    return parent, part, node
                continue
            nxt = node.entries.get(part)
            parent = node
            if nxt is None:
                if last:
                    return parent, part, None
                raise err(errno.ENOENT, path)
            if nxt.kind == "l" and (follow or not last):
                rest = "/".join([nxt.target] + parts[i + 1:])
                return self.walk(rest, follow, node, depth + 1)
            node = nxt
            trail.append(node)
        return parent, parts[-1], node

    def resolve(self, path, follow=True, base=None):
        _, _, n = self.walk(path, follow, base)
        if n is None:
            raise err(errno.ENOENT, path)
        return n

    def _base(self, dir_fd):
        return None if dir_fd is None else self.fds[dir_fd][0]

    # -- os functions
    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        self.alive()
        if isinstance(path, int):
            return self.fstat(path)
        return StatResult(self.resolve(self.fsp(path), follow_symlinks, self._base(dir_fd)))

    def lstat(self, path, *, dir_fd=None):
        return self.stat(path, dir_fd=dir_fd, follow_symlinks=False)

    def fstat(self, fd):
        self.alive()
        return StatResult(self._fd(fd)[0])

    def _fd(self, fd):
        if fd not in self.fds:
            raise err(errno.EBADF)
        return self.fds[fd]

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        path = self.fsp(path)
        self.hook("mkdir", path)
        parent, name, n = self.walk(path, False, self._base(dir_fd))
        if n is not None:
            raise err(errno.EEXIST, path)
        parent.entries[name] = Inode(self, "d", mode)

    def rmdir(self, path, *, dir_fd=None):
        path = self.fsp(path)
        self.hook("rmdir", path)
        parent, name, n = self.walk(path, False, self._base(dir_fd))
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        del parent.entries[name]

    def unlink(self, path, *, dir_fd=None):
        path = self.fsp(path)
        self.hook("unlink", path)
        parent, name, n = self.walk(path, False, self._base(dir_fd))
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "d":
            raise err(errno.EISDIR, path)
        del parent.entries[name]

    def replace(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        src, dst = self.fsp(src), self.fsp(dst)
        self.hook("replace", dst)
        sp, sn, s = self.walk(src, False, self._base(src_dir_fd))
        if s is None:
            raise err(errno.ENOENT, src)
        dp, dn, d = self.walk(dst, False, self._base(dst_dir_fd))
        if d is not None:
            if d.kind == "d" and s.kind != "d":
                raise err(errno.EISDIR, dst)
            if d.kind != "d" and s.kind == "d":
                raise err(errno.ENOTDIR, dst)
            if d.kind == "d" and d.entries:
                raise err(errno.ENOTEMPTY, dst)
        del sp.entries[sn]
        dp.entries[dn] = s

    def listdir(self, path="."):
        self.alive()
        n = self.fds[path][0] if isinstance(path, int) else self.resolve(self.fsp(path))
        if n.kind != "d":
            raise err(errno.ENOTDIR)
        return list(n.entries)

    def scandir(self, path="."):
        self.alive()
        if isinstance(path, int):
            n, p = self.fds[path][0], ""
        else:
            p = self.fsp(path)
            n = self.resolve(p)
        if n.kind != "d":
            raise err(errno.ENOTDIR, p)
        return ScandirIter([DirEntry(self, p, k, v) for k, v in n.entries.items()])

    def readlink(self, path, *, dir_fd=None):
        self.alive()
        n = self.resolve(self.fsp(path), False)
        if n.kind != "l":
            raise err(errno.EINVAL, path)
        return n.target

    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        self.alive()
        path = self.fsp(path)
        nofollow = bool(flags & _os.O_NOFOLLOW)
        parent, name, n = self.walk(path, not nofollow, self._base(dir_fd))
        if n is None:
            if not flags & _os.O_CREAT:
                raise err(errno.ENOENT, path)
            self.hook("create", path)
            n = Inode(self, "f", mode & 0o777)
            n.synced = False
            parent.entries[name] = n
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise err(errno.EEXIST, path)
            if n.kind == "l":
                raise err(errno.ELOOP, path)
            if flags & _os.O_DIRECTORY and n.kind != "d":
                raise err(errno.ENOTDIR, path)
            if n.kind == "d" and flags & (_os.O_WRONLY | _os.O_RDWR):
                raise err(errno.EISDIR, path)
            if flags & _os.O_TRUNC:
                self.hook("truncate", path)
                n.content = b""
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = [n, 0, flags, path]
        return fd

    def close(self, fd):
        self.alive()
        ent = self._fd(fd)
        if self.lock_owner.get(ent[0].ino) == fd:
            del self.lock_owner[ent[0].ino]
        del self.fds[fd]

    def read(self, fd, n):
        self.alive()
        ent = self._fd(fd)
        if ent[0].kind == "d":
            raise err(errno.EISDIR)
        if isinstance(n, sx.SymInt):
            n = int(n)
        if self.read_hook is not None:
            n = self.read_hook(ent, n)
        data = ent[0].content[ent[1]:ent[1] + n] if n >= 0 else ent[0].content[ent[1]:]
        ent[1] += len(data)
        return plain(data)

    def write(self, fd, data):
        ent = self._fd(fd)
        self.hook("write", ent[3])
        if isinstance(data, (memoryview, SxView)):
            data = data.tobytes()
        c = ent[0].content
        pos = ent[1]
        if ent[2] & _os.O_APPEND:
            pos = len(c)
        if pos > len(c):
            c = c + b"\0" * (pos - len(c))
        ent[0].content = plain(c[:pos] + data + c[pos + len(data):])
        ent[0].synced = False
        ent[1] = pos + len(data)
        self.clock += 1
        ent[0].mtime = self.clock
        return len(data)

    def lseek(self, fd, off, whence=0):
        self.alive()
        ent = self._fd(fd)
        ent[1] = off if whence == 0 else (ent[1] + off if whence == 1 else len(ent[0].content) + off)
        return ent[1]

    def ftruncate(self, fd, n):
        ent = self._fd(fd)
        self.hook("truncate", ent[3])
        c = ent[0].content
        ent[0].content = c[:n] if n <= len(c) else c + b"\0" * (n - len(c))
        ent[0].synced = False

    def truncate(self, path, n):
        fd = self.open(path, _os.O_RDWR)
        self.ftruncate(fd, n)
        self.close(fd)

    def fsync(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        ent = self._fd(fd)
        self.hook("fsync", ent[3])
        n = ent[0]
        n.durable = dict(n.entries) if n.kind == "d" else n.content
        n.synced = True

    def fdopen(self, fd, mode="r", *a, closefd=True, **k):
        return FakeFile(self, fd, mode, closefd, k.get("encoding"))

    def builtin_open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(path, int):
            return FakeFile(self, path, mode, closefd, encoding)
        flags = _os.O_RDONLY
        if "+" in mode:
            flags = _os.O_RDWR
        elif any(c in mode for c in "wax"):
            flags = _os.O_WRONLY
        if "w" in mode:
            flags |= _os.O_CREAT | _os.O_TRUNC
        if "a" in mode:
            flags |= _os.O_CREAT | _os.O_APPEND
        if "x" in mode:
            flags |= _os.O_CREAT | _os.O_EXCL
        return FakeFile(self, self.open(path, flags, 0o666), mode, True, encoding)

    def exists(self, path):
        self.alive()
        try:
            self.resolve(self.fsp(path))
            return True
        except OSError:
            return False

    def lexists(self, path):
        self.alive()
        try:
            self.resolve(self.fsp(path), False)
            return True
        except OSError:
            return False

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.tmp_n += 1
        path = _pp.join(self.fsp(dir) if dir is not None else "/tmp", "%s%04d%s" % (prefix or "tmp", self.tmp_n, suffix or ""))
        self.mkdir(path, 0o700)
        return path

    def flock(self, fd, op, LOCK_UN=8):
        self.alive()
        ent = self._fd(fd)
        ino = ent[0].ino
        if op & LOCK_UN:
            if self.lock_owner.get(ino) == fd:
                del self.lock_owner[ino]
            return
        if self.lock_owner.get(ino) not in (None, fd):
            raise BlockingIOError(errno.EAGAIN, "busy")
        self.lock_owner[ino] = fd


class FakeFile:

    def __init__(self, fs, fd, mode, closefd=True, encoding=None):
        self._fs, self._fd, self._closefd, self.mode = fs, fd, closefd, mode
        self._text = "b" not in mode
        self.closed = False

    def fileno(self):
        return self._fd

    def read(self, n=-1):
        d = self._fs.read(self._fd, -1 if n is None else n)
        return d.decode("utf-8") if self._text else d

    def readinto(self, buf):
        d = self._fs.read(self._fd, len(buf))
        buf[:len(d)] = d
        return len(d)

    def readline(self):
        raise sx.Unsupported("readline on the fake file system")

    def write(self, s):
        self._fs.write(self._fd, s.encode("utf-8") if self._text else s)
        return len(s)

    def flush(self):
        pass

    def truncate(self, n=None):
        self._fs.ftruncate(self._fd, n)

    def seek(self, *a):
        return self._fs.lseek(self._fd, *a)

    def close(self):
        if not self.closed:
            self.closed = True
            if self._closefd:
                self._fs.close(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        raise sx.Unsupported("line iteration on the fake file system")


# ---------------------------------------------------------------- buffers
class SxBuf:
    """bytearray that may hold symbolic bytes."""
    doc = None

    def __init__(self, x=0):
        if isinstance(x, JsonDoc):
            self.v, self.doc = [0] * len(x), x
        elif isinstance(x, int):
            self.v = [0] * x
        elif isinstance(x, sx.SymInt):
            self.v = [0] * int(x)
        elif isinstance(x, SxBuf):
            self.v = list(x.v)
        else:
            self.v = list(sx.SymBytes.lift(x).c)

    def __len__(self):
        return len(self.v)

    def sym(self):
        if self.doc is not None:
            return self.doc
        return plain(sx.SymBytes(self.v))

    def __getitem__(self, k):
        if isinstance(k, slice):
            b = SxBuf()
            b.v = self.v[k]
            return b
        return sx.mkint(self.v[k])

    def __setitem__(self, k, val):
        if isinstance(k, slice):
            self.v[k] = list(sx.SymBytes.lift(val).c)
        else:
            self.v[k] = val.e if isinstance(val, sx.SymInt) else val

    def extend(self, d):
        self.v.extend(sx.SymBytes.lift(d if not isinstance(d, SxBuf) else d.sym()).c)

    def __iadd__(self, d):
        self.extend(d)
        return self

    def decode(self, *a):
        return self.sym().decode(*a)

    def __iter__(self):
        return iter(self.sym())

    def __eq__(self, o):
        return self.sym() == (o.sym() if isinstance(o, SxBuf) else o)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


class SxView:

    def __init__(self, buf, lo=0, hi=None):
        self.buf, self.lo, self.hi = buf, lo, len(buf) if hi is None else hi

    def __len__(self):
        return self.hi - self.lo

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, _ = slice(sx._idx(k.start), sx._idx(k.stop)).indices(len(self))
            return SxView(self.buf, self.lo + a, self.lo + max(a, b))
        return self.buf[self.lo + k]

    def __setitem__(self, k, val):
        if isinstance(k, slice):
            a, b, _ = k.indices(len(self))
            if isinstance(val, JsonDoc):
                if b - a == len(self.buf):
                    self.buf.doc = val
                    return
                raise sx.Unsupported("part of an opaque JSON document")
            vals = list(sx.SymBytes.lift(val).c)
            if len(vals) != b - a:
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            if isinstance(self.buf, SxBuf):
                self.buf.v[self.lo + a:self.lo + b] = vals
            else:
                raise TypeError("cannot modify read-only memory")
        else:
            self.buf[self.lo + k] = val

    def tobytes(self):
        return self.buf[self.lo:self.hi].sym() if isinstance(self.buf, SxBuf) else self.buf[self.lo:self.hi]

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---------------------------------------------------------------- json, hashes
class JsonDoc:
    """File content that is a JSON text with a given (possibly symbolic) value."""

    def __init__(self, value, size=50, bad=None):
        self.value, self._n, self.bad = value, size, bad

    def __len__(self):
        return self._n

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, _ = k.indices(self._n)
            if a == 0 and b == self._n:
                return self
            if a >= b:
                return b""
            return JsonDoc(self.value, b - a, "torn")
        raise sx.Unsupported("byte of an opaque JSON document")

    def decode(self, *a):
        if self.bad == "utf8":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        return self


class JsonBuf(SxBuf):
    pass


def json_module():
    import json as real
    m = FakeModule("json")
    m.JSONDecodeError = real.JSONDecodeError
    m.JSONEncoder = real.JSONEncoder

    def loads(s, **k):
        if isinstance(s, JsonDoc):
            if s.bad:
                raise real.JSONDecodeError("bad", "", 0)
            return s.value
        if isinstance(s, sx.SymSeq):
            s = s.concrete()
        return wrap(real.loads(s, **k))

    def wrap(v):
        return v

    def dumps(v, ensure_ascii=True, sort_keys=False, separators=None, indent=None, **k):
        return sx.sx_concat(list(_dump(v, ensure_ascii, sort_keys, separators or (", ", ": "))))

    def dump(v, f, **k):
        f.write(dumps(v, **k))

    m.loads, m.dumps, m.dump = loads, dumps, dump
    m.load = lambda f, **k: loads(f.read(), **k)
    return m


def _dump(v, ascii_, sort, sep):
    import json as real
    if isinstance(v, sx.SymBool):
        yield "true" if v else "false"
    elif isinstance(v, sx.SymInt):
        yield str(int(v))
    elif isinstance(v, sx.SymReal):
        raise sx.Unsupported("json of a symbolic real")
    elif isinstance(v, sx.SymStr):
        out = ['"']
        for ch in v:
            if isinstance(ch, str):
                out.append(real.dumps(ch, ensure_ascii=ascii_)[1:-1])
            elif ch == '"':
                out.append('\\"')
            elif ch == "\\":
                out.append("\\\\")
            elif ch < " ":
                out.append(real.dumps(ch.concrete())[1:-1])
            elif ascii_ and ch > "~":
                out.append(real.dumps(ch.concrete())[1:-1])
            else:
                out.append(ch)
        out.append('"')
        for o in out:
            yield o
    elif isinstance(v, (dict, sx.SxDict)):
        items = list(v.items())
        if sort:
            items.sort(key=lambda kv: kv[0])
        yield "{"
        for i, (k, x) in enumerate(items):
            if i:
                yield sep[0]
            if isinstance(k, (str, sx.SymStr)):
                yield from _dump(k, ascii_, sort, sep)
            elif k is True or k is False or k is None or isinstance(k, (int, float)):
                yield '"' + real.dumps(k) + '"'
            else:
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            yield sep[1]
            yield from _dump(x, ascii_, sort, sep)
        yield "}"
    elif isinstance(v, (list, tuple)):
        yield "["
        for i, x in enumerate(v):
            if i:
                yield sep[0]
            yield from _dump(x, ascii_, sort, sep)
        yield "]"
    elif isinstance(v, (sx.SxSet, sx.SymBytes)) or not isinstance(v, (str, int, float, bool, type(None))):
        raise TypeError("Object of type {} is not JSON serializable".format(type(v).__name__))
    else:
        yield real.dumps(v, ensure_ascii=ascii_)


def hashlib_module():
    """sha256 of concrete data; symbolic data gets a collision-free digest."""
    import hashlib as real
    m = FakeModule("hashlib")
    table = []

    def token(data):
        d = plain(data.sym() if isinstance(data, SxBuf) else data)
        if isinstance(d, (bytes, bytearray)):
            d = bytes(d)
            tok = real.sha256(d).hexdigest()
        else:
            tok = None
        for other, t in table:
            if isinstance(d, bytes) and isinstance(other, bytes):
                continue
            if isinstance(other, JsonDoc) or isinstance(d, JsonDoc):
                same = other is d
            else:
                same = bool((d if not isinstance(d, bytes) else other) == (other if not isinstance(d, bytes) else d))
            if same:
                return t
        if tok is None:
            tok = real.sha256(b"symbolic %d" % len(table)).hexdigest()
        if not any(t == tok for _, t in table):
            table.append((d, tok))
        return tok

    class H:
        name = "sha256"
        digest_size = 32

        def __init__(self, data=b""):
            self.d = data.sym() if isinstance(data, SxBuf) else data

        def update(self, x):
            x = x.sym() if isinstance(x, SxBuf) else x
            if isinstance(self.d, bytes) and self.d == b"":
                self.d = x
            else:
                self.d = plain(sx.SymBytes.lift(self.d) + x) if not isinstance(x, bytes) or not isinstance(self.d, bytes) else self.d + x

        def hexdigest(self):
            return token(self.d)

        def digest(self):
            return bytes.fromhex(token(self.d))

        def copy(self):
            return H(self.d)

    m.sha256 = H
    m.new = lambda name, data=b"": H(data)
    for other in ("sha512", "sha384", "sha224", "sha1", "md5", "blake2b", "blake2s", "sha3_256"):
        setattr(m, other, lambda data=b"", **k: H(data))
    m.reset = table.clear
    return m


class FakeModule(types.ModuleType):
    """A name the real module has but the stand-in lacks gives no verdict."""

    def __getattr__(self, name):
        real = sys.modules.get(self.__name__)
        if not name.startswith("__") and hasattr(real, name):
            raise sx.Unsupported(self.__name__ + "." + name)
        raise AttributeError(name)


# ---------------------------------------------------------------- os module
def os_module(fs, environ):
    m = FakeModule("os")
    for k in dir(_os):
        if k.startswith(("O_", "SEEK_", "F_", "R_OK", "W_OK", "X_OK")):
            setattr(m, k, getattr(_os, k))
    m.name, m.sep, m.altsep, m.curdir, m.pardir, m.linesep, m.pathsep = "posix", "/", None, ".", "..", "\n", ":"
    m.extsep, m.devnull = ".", "/dev/null"
    m.environ = environ
    m.getenv = environ.get
    m.PathLike = _os.PathLike
    m.error = OSError
    for k in ("stat", "lstat", "fstat", "mkdir", "rmdir", "unlink", "replace", "listdir", "scandir", "readlink", "open", "close",
              "read", "write", "lseek", "ftruncate", "truncate", "fsync", "fdopen"):
        setattr(m, k, getattr(fs, k))
    m.remove, m.rename, m.fdatasync = fs.unlink, fs.replace, fs.fsync
    m.getcwd = lambda: "/"
    m.getpid = lambda: 4242
    m.getuid = m.geteuid = lambda: 0
    m.umask = lambda x: 0o022
    m.strerror = _os.strerror
    m.supports_dir_fd = {m.open, m.stat, m.unlink, m.rmdir}
    m.supports_fd = {m.listdir, m.scandir, m.stat}
    m.supports_follow_symlinks = {m.stat}
    m.stat_result = StatResult
    m.access = lambda *a, **k: True

    def fspath(p):
        if isinstance(p, (str, bytes, sx.SymStr)):
            return p
        if hasattr(p, "__fspath__"):
            return p.__fspath__()
        raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)

    m.fspath = fspath
    m.fsdecode = lambda p: fspath(p)
    m.fsencode = lambda p: fspath(p).encode("utf-8")

    def makedirs(name, mode=0o777, exist_ok=False):
        name = fs.fsp(name)
        parts = [p for p in name.split("/") if p]
        cur = ""
        for i, p in enumerate(parts):
            cur += "/" + p
            try:
                fs.mkdir(cur, mode)
            except FileExistsError:
                if i == len(parts) - 1 and not exist_ok:
                    raise

    m.makedirs = makedirs

    def unsupported(name):

        def f(*a, **k):
            raise sx.Unsupported("os." + name)

        return f

    for k in ("chmod", "symlink", "link", "utime", "walk", "kill", "fork", "system", "removedirs", "chown", "dup"):
        setattr(m, k, unsupported(k))

    def walk(top, topdown=True, onerror=None, followlinks=False):
        top = fs.fsp(top)
        dirs, files = [], []
        for e in fs.scandir(top):
            (dirs if e.is_dir(follow_symlinks=True) else files).append(e.name)
        if topdown:
            yield top, dirs, files
        for d in list(dirs):
            p = _pp.join(top, d)
            if followlinks or fs.resolve(p, False).kind != "l":
                yield from walk(p, topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files

    m.walk = walk
    return m


def stat_module():
    """stat predicates over ordinary integers (st_mode is always concrete)."""
    return _stat


def fcntl_module(fs):
    m = FakeModule("fcntl")
    m.LOCK_EX, m.LOCK_NB, m.LOCK_UN, m.LOCK_SH = 2, 4, 8, 1
    m.flock = fs.flock
    m.lockf = fs.flock
    return m


def tempfile_module(fs):
    m = FakeModule("tempfile")
    m.mkdtemp = fs.mkdtemp
    m.gettempdir = lambda: "/tmp"
    return m


def shutil_module(fs):
    m = FakeModule("shutil")

    def rmtree(path, ignore_errors=False, **k):
        path = fs.fsp(path)
        try:
            n = fs.resolve(path, False)
            if n.kind != "d":
                raise err(errno.ENOTDIR, path)
            for name in list(n.entries):
                p = _pp.join(path, name)
                if n.entries[name].kind == "d":
                    rmtree(p, ignore_errors)
                else:
                    fs.unlink(p)
            fs.rmdir(path)
        except OSError:
            if not ignore_errors:
                raise

    def move(a, b):
        fs.replace(a, b)
        return b

    m.rmtree, m.move = rmtree, move
    return m


def io_module(fs):
    m = FakeModule("io")
    for k in ("StringIO", "BytesIO", "IOBase", "SEEK_SET", "UnsupportedOperation", "TextIOWrapper"):
        setattr(m, k, getattr(io, k))
    m.open = fs.builtin_open
    m.text_encoding = lambda e, *a: e
    m.open_code = None
    return m
