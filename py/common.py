"""shared by the Python harnesses: loads the scripts of /repo/tools from their current source"""
import importlib.util
import os
import sys
sys.dont_write_bytecode = True  # nothing is written under /repo
REPO = os.environ.get("VERIF_REPO", "/repo")


SHARD, SHARDS = [int(x) for x in os.environ.get("VERIF_SHARD", "0/1").split("/")]


def mine(x):
    """splits a harness's inputs among parallel runs"""
    return SHARDS == 1 or x % SHARDS == SHARD


def load(name):
    spec = importlib.util.spec_from_file_location(name.replace("-", "_"), "%s/tools/%s.py" % (REPO, name))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Sink:
    """stands in for sys.stderr: the scripts' progress messages are not part of any claim"""
    def write(self, *_):
        return 0

    def flush(self):
        pass


class VFile:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.pos, self.closed = fs, name, mode, 0, False
        if "w" in mode or "x" in mode:
            fs[name] = b"" if "b" in mode else ""
        if "a" in mode:
            fs.setdefault(name, b"" if "b" in mode else "")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def write(self, d):
        if isinstance(d, (bytearray, memoryview)):
            d = bytes(d)
        self.fs[self.name] = self.fs[self.name] + d
        return len(d)

    def writelines(self, v):
        for d in v:
            self.write(d)

    def read(self, n=-1):
        d = self.fs[self.name]
        a = self.pos
        b = len(d) if n is None or n < 0 else min(len(d), a + n)
        self.pos = b
        return d if a == 0 and b == len(d) else d[a:b]

    def readline(self):
        d = self.fs[self.name]
        k = d.find(b"\n" if isinstance(d, bytes) else "\n", self.pos)
        return self.read(len(d) - self.pos if k < 0 else k + 1 - self.pos)

    def readlines(self):
        r = []
        while True:
            x = self.readline()
            if not x:
                return r
            r.append(x)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, o, w=0):
        self.pos = o if w == 0 else self.pos + o if w == 1 else len(self.fs[self.name]) + o
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True


class world:
    """the names in `files` exist, and sys.argv is argv; `swap` are (object, name, value) replaced while it lasts (a name the
    object does not have is left alone)"""
    def __init__(self, files, argv, swap):
        import pathlib

        def there(p, *_, **__):
            return str(p) in files
        self.sw = [(os.path, "isfile", there), (os.path, "exists", there), (os, "access", there), (pathlib.Path, "is_file", there), (pathlib.Path, "exists", there), (sys, "argv", argv)] + swap

    def __enter__(self):
        self.old = [(o, n, getattr(o, n)) for o, n, _ in self.sw if hasattr(o, n)]
        for o, n, v in self.sw:
            if hasattr(o, n):
                setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)
        return False


class VFS(dict):
    """a virtual directory; `open` in the script under test goes here, so nothing real is written"""
    def open(self, name, mode="r", *_, **__):
        name = name if isinstance(name, str) else str(name)
        if not set(mode) & set("wxa") and name not in self:
            raise FileNotFoundError(name)
        return VFile(self, name, mode)
