"""A small in-memory file system whose operations can be interrupted at any point.

Data written to a file becomes visible when the file is flushed or closed.  Every operation that
changes the file system counts; when the operation counter reaches the (symbolic) crash point the
process is 'killed': Crash is raised and nothing changes the file system any more."""
import io
import os
import shutil

from .core import eng, PathUnknown
from .seqs import SymFile, SymBytes, SymStr, elems_of, conc, mkstr, utf8_decode, chars_of
from .values import is_sym


class Crash(Exception):
    """The process was killed."""


class SymText:
    """Text file over a SymFile."""

    def __init__(self, f):
        self.f = f

    def read(self, n=-1):
        if n is not None and n >= 0:
            raise PathUnknown("partial text read")
        b = self.f.read()
        return mkstr(utf8_decode(elems_of(b)))

    def write(self, s):
        e = s.encode("utf-8")
        self.f.write(e)
        return len(s)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        self.f.flush()

    def close(self):
        self.f.close()

    @property
    def closed(self):
        return self.f.closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class FsFile(SymFile):
    def __init__(self, fs, path, *a, **k):
        super().__init__(*a, **k)
        self.fs = fs
        self.path = path
        self.name = path
        self.dirty = False
        self.node = fs.files[path]

    def write(self, data):
        n = super().write(data)
        self.dirty = True
        return n

    def truncate(self, n=None):
        self.dirty = True
        return super().truncate(n)

    def seek(self, off, whence=0):
        self.flush()
        return super().seek(off, whence)

    def flush(self):
        if self.dirty and self.writable_:
            self.fs.step()
            self.dirty = False
            if not self.fs.dead:
                self.node[:] = list(self.d)

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                super().close()


class SymFS:
    def __init__(self, files, crash=None):
        self.files = {k: list(elems_of(v)) for k, v in files.items()}
        self.crash = crash
        self.ops = 0
        self.dead = False
        self.opened = []

    # -- for harnesses
    def exit(self):
        """The end of the process writes out files still open."""
        for f in self.opened:
            f.close()

    def read(self, path):
        n = self.files.get(path)
        return None if n is None else SymBytes(list(n))

    def names(self):
        return sorted(self.files)

    # -- operations
    def step(self):
        if self.dead:
            return
        if self.crash is not None and bool(self.crash == self.ops):
            self.dead = True
            raise Crash("interrupted")
        self.ops += 1

    def open(self, path, mode="r", *a, **k):
        path = norm(path)
        text = "b" not in mode
        m = mode.replace("b", "").replace("t", "")
        if m[0] == "r":
            if path not in self.files:
                raise FileNotFoundError(2, "No such file or directory", path)
        elif m[0] == "x" and path in self.files:
            raise FileExistsError(17, "File exists", path)
        if m[0] in "wx":
            self.step()
            if not self.dead:
                if path in self.files:
                    self.files[path][:] = []
                else:
                    self.files[path] = []
        elif m[0] == "a" and path not in self.files:
            self.step()
            if not self.dead:
                self.files[path] = []
        if path not in self.files:
            raise PathUnknown("file operation after a crash")
        f = FsFile(self, path, list(self.files[path]), readable=m[0] == "r" or "+" in m,
                   writable=m[0] != "r" or "+" in m, append=m[0] == "a")
        self.opened.append(f)
        return SymText(f) if text else f

    def rename(self, a, b):
        a, b = norm(a), norm(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        self.step()
        if not self.dead:
            self.files[b] = self.files.pop(a)

    def remove(self, a):
        a = norm(a)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        self.step()
        if not self.dead:
            del self.files[a]

    def copy(self, a, b):
        src = self.open(a, "rb")
        with self.open(b, "wb") as dst:
            dst.write(src.read())

    def exists(self, a):
        return norm(a) in self.files

    def size(self, a):
        if norm(a) not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        return len(self.files[norm(a)])


def norm(p):
    p = conc(p) if is_sym(p) else p
    p = os.fspath(p)
    return os.path.normpath(p)


def fs_only(name):
    def f(*a, **k):
        fs = getattr(eng(), "fs", None)
        if fs is None:
            raise PathUnknown("file system operation outside a scratch file system")
        return getattr(fs, name)(*a, **k)
    return f


def passthrough(real, name):
    def f(p, *a, **k):
        fs = getattr(eng(), "fs", None)
        if fs is None:
            return real(p, *a, **k)
        return getattr(fs, name)(p)
    return f


def unknown(what):
    def f(*a, **k):
        raise PathUnknown(what)
    return f


def install(H, h_open):
    import argparse
    import pathlib
    import tempfile
    H[os.rename] = H[os.replace] = H[shutil.move] = fs_only("rename")
    H[os.remove] = H[os.unlink] = fs_only("remove")
    H[shutil.copyfile] = H[shutil.copy] = H[shutil.copy2] = fs_only("copy")
    H[os.path.exists] = passthrough(os.path.exists, "exists")
    H[os.path.isfile] = passthrough(os.path.isfile, "exists")
    H[os.path.getsize] = passthrough(os.path.getsize, "size")
    H[os.fsync] = lambda fd: None
    for g in (tempfile.NamedTemporaryFile, tempfile.mkstemp, tempfile.TemporaryFile,
              tempfile.mkdtemp, shutil.rmtree, os.makedirs, os.mkdir, os.open, pathlib.Path):
        H[g] = unknown("file system operation that is not modelled")
    argparse.__dict__["open"] = h_open
