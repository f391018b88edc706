"""The concrete counterpart of fsmodel: real files in a scratch directory, same crash points."""
import builtins
import io
import os
import shutil
import tempfile


class Crash(Exception):
    """The process was killed."""


class Proxy:
    def __init__(self, fs, f, path, writable):
        self.__dict__.update(fs=fs, f=f, path=path, w=writable, buf=[], name=path)

    def write(self, data):
        if not self.w:
            return self.f.write(data)
        if isinstance(self.f, io.TextIOBase) != isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.buf.append(data if isinstance(data, str) else bytes(data))
        return len(data)

    def flush(self):
        if self.w and self.buf:
            b, self.__dict__["buf"] = self.buf, []
            self.fs.step()
            if not self.fs.dead:
                for x in b:
                    self.f.write(x)
                self.f.flush()

    def close(self):
        if not self.f.closed:
            try:
                self.flush()
            finally:
                self.f.close()

    def seek(self, *a):
        self.flush()
        return self.f.seek(*a)

    def truncate(self, *a):
        self.flush()
        self.fs.step()
        if not self.fs.dead:
            return self.f.truncate(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, k):
        return getattr(self.f, k)


class RealFS:
    def __init__(self, files, crash=None):
        self.dir = tempfile.mkdtemp(prefix="simplemseed-check-")
        self.old = os.getcwd()
        self.crash = crash
        self.ops = 0
        self.dead = False
        self.opened = []
        os.chdir(self.dir)
        for k, v in files.items():
            with open(k, "wb") as f:
                f.write(bytes(v))
        self.real = dict(open=builtins.open, rename=os.rename, replace=os.replace,
                         remove=os.remove, unlink=os.unlink)
        builtins.open = self.open
        io.open = self.open
        os.rename = self.changing("rename")
        os.replace = self.changing("replace")
        os.remove = self.changing("remove")
        os.unlink = self.changing("unlink")

    def cleanup(self):
        builtins.open = io.open = self.real["open"]
        for k in ("rename", "replace", "remove", "unlink"):
            setattr(os, k, self.real[k])
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def step(self):
        if self.dead:
            return
        if self.crash is not None and self.crash == self.ops:
            self.dead = True
            raise Crash("interrupted")
        self.ops += 1

    def changing(self, name):
        real = self.real[name]

        def f(*a, **k):
            if not os.path.exists(a[0]):
                return real(*a, **k)
            self.step()
            if not self.dead:
                return real(*a, **k)
        return f

    def mine(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return os.path.dirname(os.path.realpath(p)) == os.path.realpath(self.dir)

    def open(self, path, mode="r", *a, **k):
        real = self.real["open"]
        if not self.mine(path):
            if any(c in mode for c in "wax+"):
                raise PermissionError("writing outside the scratch directory")
            return real(path, mode, *a, **k)
        writable = any(c in mode for c in "wax+")
        if "w" in mode or "x" in mode or ("a" in mode and not os.path.exists(path)):
            if "x" in mode and os.path.exists(path):
                raise FileExistsError(17, "File exists", path)
            self.step()
            if self.dead:
                raise Crash("interrupted")
        self.opened.append(Proxy(self, real(path, mode, *a, **k), path, writable))
        return self.opened[-1]

    def exit(self):
        """The end of the process writes out files still open."""
        for f in self.opened:
            f.close()

    def read(self, path):
        try:
            with self.real["open"](os.path.join(self.dir, path), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def names(self):
        return sorted(os.listdir(self.dir))
