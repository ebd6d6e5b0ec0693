"""Virtual file system used while a path is explored symbolically.

Files hold (possibly symbolic) text.  Every file-system call made by the code
under test is redirected here while a VFS is mounted; the real file system is
never touched.
"""
import builtins
import errno
import os
import posix
import shutil
import tempfile
from .core import ENG, PathAbort
from .values import SymStr, SymBytes, chars_of
from . import rt

CUR = None


class Node(object):
    def __init__(self, text=None):
        self.text = text


class VFS(object):
    def __init__(self, root="/sxvfs", cwd="cwd"):
        self.tree = {}
        self.root = root
        self.fds = {}
        self.ntmp = 0
        self.removed = []
        self.mkdirs("/tmp")
        self.mkdirs(root)
        self.cwd = root + "/" + cwd
        self.mkdirs(self.cwd)
        self.writes = []

    def mkdirs(self, p):
        d = self.tree
        for c in p.split("/"):
            if c:
                d = d.setdefault(c, {})
        return d

    def put(self, p, text):
        d, n = os.path.split(p)
        self.mkdirs(d)[n] = Node(text)

    # -- lookup ------------------------------------------------------------
    def _comps(self, p):
        if isinstance(p, SymBytes):
            p = p.t
        if not isinstance(p, (str, SymStr)):
            raise TypeError("path should be str")
        for c in chars_of(p):
            if c == 0 if isinstance(c, int) else bool(SymStr((c,)) == "\0"):
                raise ValueError("embedded null byte")
        if len(p) == 0:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if not p.startswith("/"):
            p = self.cwd + "/" + p
        return p.split("/")

    def lookup(self, p):
        """The node for p; raises OSError."""
        comps = self._comps(p)
        stack = [self.tree]
        cur = self.tree
        for i, c in enumerate(comps):
            if isinstance(cur, Node):
                # a component after a file (including a trailing slash)
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
            if c == "" or c == ".":
                continue
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                cur = stack[-1]
                continue
            for k in cur:
                if c == k:
                    cur = cur[k]
                    if not isinstance(cur, Node):
                        stack.append(cur)
                    break
            else:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return cur

    def parent(self, p):
        comps = self._comps(p)
        name = comps[-1]
        head = comps[0]
        for c in comps[1:-1]:
            head = head + "/" + c
        d = self.lookup(head + "/")
        return d, name

    def find(self, p):
        try:
            return self.lookup(p)
        except (OSError, ValueError):
            return None

    def files(self, under=None):
        out = []

        def walk(d, pre):
            for k, v in d.items():
                if isinstance(v, Node):
                    out.append(pre + "/" + k)
                else:
                    walk(v, pre + "/" + k)
        walk(self.tree, "")
        return sorted(out)


def _text(x):
    if isinstance(x, bytes):
        return x.decode("utf-8")
    if isinstance(x, SymBytes):
        return x.t
    return x


class VFile(object):
    def __init__(self, fs, node, mode, name):
        self.node, self.mode, self.name, self.fs = node, mode, name, fs
        self.closed = False
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def _all(self):
        t = self.node.text
        if "b" in self.mode:
            return t
        if isinstance(t, bytes):
            t = t.decode("utf-8")
        return t.replace("\r\n", "\n").replace("\r", "\n")

    def read(self, n=-1):
        t = self._all()[self.pos:]
        self.pos += len(t)
        if "b" in self.mode:
            return SymBytes(t) if isinstance(t, SymStr) else t if isinstance(t, bytes) else t.encode("utf-8")
        return t

    def readlines(self):
        t = self._all()
        out, cur = [], ""
        for part in t.split("\n"):
            out.append(part + "\n")
        last = out.pop()[:-1]
        if len(last):
            out.append(last)
        return out

    def __iter__(self):
        return iter(self.readlines())

    def write(self, x):
        self.node.text = self.node.text + _text(x)
        return len(x)

    def flush(self):
        pass


def _open(file, mode="r", *a, **k):
    fs = CUR
    if fs is None or isinstance(file, int):
        if rt.is_sym(file):
            raise PathAbort("open")
        return builtins.open(file, mode, *a, **k)
    if "r" in mode and "+" not in mode:
        n = fs.lookup(file)
        if not isinstance(n, Node):
            raise IsADirectoryError(errno.EISDIR, "Is a directory", file)
        return VFile(fs, n, mode, file)
    d, name = fs.parent(file)
    if rt.is_sym(name):
        raise PathAbort("write to symbolic path")
    old = d.get(name)
    if isinstance(old, dict):
        raise IsADirectoryError(errno.EISDIR, "Is a directory", file)
    if old is None or "w" in mode:
        d[name] = Node("")
    return VFile(fs, d[name], mode, file)


def _wrap(orig, fn):
    prev = rt.FUNC_OVERRIDES.get(orig)

    def f(*a, **k):
        if CUR is None:
            if prev is not None:
                return prev(*a, **k)
            if rt.any_sym(a, k):
                raise PathAbort("file system call with symbolic argument")
            return orig(*a, **k)
        return fn(*a, **k)
    rt.FUNC_OVERRIDES[orig] = f
    rt.BUILTIN_OVERRIDES[orig] = f
    return f


def _exists(p):
    return CUR.find(p) is not None


def _isfile(p):
    return isinstance(CUR.find(p), Node)


def _isdir(p):
    return isinstance(CUR.find(p), dict)


def _getcwd():
    return CUR.cwd


def _abspath(p):
    if not p.startswith("/"):
        p = CUR.cwd + "/" + p
    lead = "//" if p.startswith("//") and not p.startswith("///") else "/"
    out = []
    for c in p.split("/"):
        if c == "" or c == ".":
            continue
        if c == "..":
            if out:
                out.pop()
        else:
            out.append(c)
    res = lead
    for i, c in enumerate(out):
        res = res + ("/" if i else "") + c
    return res


def _mkdtemp(suffix=None, prefix=None, dir=None):
    CUR.ntmp += 1
    p = "/tmp/%s%d%s" % (prefix or "tmp", CUR.ntmp, suffix or "")
    CUR.mkdirs(p)
    return p


def _mkstemp(suffix=None, prefix=None, dir=None, text=False):
    CUR.ntmp += 1
    p = "%s/%s%d%s" % (dir or "/tmp", prefix or "tmp", CUR.ntmp, suffix or "")
    CUR.put(p, "")
    fd = 1000 + CUR.ntmp
    CUR.fds[fd] = CUR.lookup(p)
    return fd, p


class _Count(object):
    """The number of bytes of a symbolic text (using it is not supported)."""
    def __getattr__(self, n):
        raise PathAbort("number of bytes written")

    def _no(self, *a):
        raise PathAbort("number of bytes written")
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __bool__ = _no
    __int__ = __index__ = __hash__ = _no


def _write(fd, data):
    if not isinstance(data, (bytes, SymBytes)):
        raise TypeError("a bytes-like object is required")
    CUR.fds[fd].text = CUR.fds[fd].text + _text(data)
    return len(data) if isinstance(data, bytes) else _Count()


def _close(fd):
    CUR.fds.pop(fd)


def _unlink(p, *a, **k):
    n = CUR.lookup(p)
    if not isinstance(n, Node):
        raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
    d, name = CUR.parent(p)
    del d[name]


def _rmtree(p, *a, **k):
    CUR.lookup(p)
    d, name = CUR.parent(p)
    del d[name]


def _copyfile(src, dst, **k):
    n = CUR.lookup(src)
    if not isinstance(n, Node):
        raise IsADirectoryError(errno.EISDIR, "Is a directory", src)
    d, name = CUR.parent(dst)
    if isinstance(d.get(name), dict):
        raise IsADirectoryError(errno.EISDIR, "Is a directory", dst)
    if d.get(name) is n:
        raise shutil.SameFileError("same file")
    d[name] = Node(n.text)
    return dst


def _listdir(p="."):
    n = CUR.lookup(p)
    if isinstance(n, Node):
        raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
    return list(n)


def install():
    rt.BUILTIN_OVERRIDES[builtins.open] = _open
    rt.FUNC_OVERRIDES[builtins.open] = _open
    import io
    _wrap(os.path.exists, _exists)
    _wrap(os.path.lexists, _exists)
    _wrap(os.path.isfile, _isfile)
    _wrap(os.path.isdir, _isdir)
    _wrap(os.getcwd, _getcwd)
    _wrap(os.path.abspath, _abspath)
    _wrap(os.path.realpath, _abspath)
    _wrap(tempfile.mkdtemp, _mkdtemp)
    _wrap(tempfile.mkstemp, _mkstemp)
    _wrap(os.write, _write)
    _wrap(os.close, _close)
    _wrap(os.unlink, _unlink)
    _wrap(os.remove, _unlink)
    _wrap(shutil.rmtree, _rmtree)
    _wrap(shutil.copyfile, _copyfile)
    _wrap(shutil.copy, _copyfile)
    _wrap(os.listdir, _listdir)
