"""Symbolic byte strings: sequences of chunks (value, width), big-endian."""

from __future__ import annotations

from .core import Sym, SymInt


def _chunks(b):
    if isinstance(b, SymBytes):
        return list(b.chunks)
    b = bytes(b)
    return [(b, len(b))] if b else []


def _split(chunk, k):
    """Split a chunk after k bytes (0 < k < width)."""
    v, n = chunk
    if isinstance(v, bytes):
        return (v[:k], k), (v[k:], n - k)
    m = 256 ** (n - k)
    return (v // m, k), (v % m, n - k)


class SymBytes:
    """Immutable byte string with some symbolic content, concrete length."""

    def __init__(self, chunks):
        self.chunks = [c for c in chunks if c[1]]

    def __len__(self):
        return sum(n for _, n in self.chunks)

    def __bool__(self):
        return len(self) > 0

    def __add__(self, o):
        return SymBytes(self.chunks + _chunks(o))

    def __radd__(self, o):
        return SymBytes(_chunks(o) + self.chunks)

    def __getitem__(self, i):
        if not isinstance(i, slice):
            i = int(i)
            if i < 0:
                i += len(self)
            return as_int(self[i:i + 1])
        start, stop, step = i.indices(len(self))
        assert step == 1
        out, pos = [], 0
        for c in self.chunks:
            a, b = pos, pos + c[1]
            pos = b
            lo, hi = max(a, start), min(b, stop)
            if lo >= hi:
                continue
            if lo > a:
                _, c = _split(c, lo - a)
            if hi < b:
                c, _ = _split(c, hi - lo)
            out.append(c)
        return SymBytes(out)

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray, memoryview)):
            return False
        if len(self) != len(o):
            return False
        if isinstance(o, SymBytes) and [n for _, n in self.chunks] == [n for _, n in o.chunks]:
            r = True
            for (a, n), (b, _) in zip(self.chunks, o.chunks):
                e = chunk_int(a) == chunk_int(b)
                r = e if r is True else (r & e if isinstance(r, Sym) else (e & r if isinstance(e, Sym) else (r and e)))
            return r
        return as_int(self) == as_int(SymBytes(_chunks(o)))

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"<sym bytes {len(self)}>"


def chunk_int(v):
    return int.from_bytes(v) if isinstance(v, bytes) else v


def as_int(b):
    """Big-endian value."""
    if isinstance(b, (bytes, bytearray, memoryview)):
        return int.from_bytes(b)
    r = 0
    first = True
    for v, n in b.chunks:
        x = chunk_int(v)
        r = x if first else r * 256**n + x
        first = False
    return r


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        return int(*a, **k)


class IntShim(metaclass=_IntMeta):
    """Stand-in for the ``int`` global: keeps symbolic values symbolic."""

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, SymBytes) and byteorder == "big" and not signed:
            return as_int(b)
        return int.from_bytes(b, byteorder, signed=signed)


class SymFile:
    """A seekable binary file holding chunks; the byte count is concrete."""

    def __init__(self, data=b""):
        self.data = data if isinstance(data, SymBytes) else SymBytes(_chunks(data))
        self.pos = 0
        self.name = "<symfile>"

    def write(self, b):
        assert self.pos == len(self.data), "append-only model"
        self.data = self.data + b if isinstance(b, SymBytes) else SymBytes(self.data.chunks + _chunks(b))
        self.pos = len(self.data)
        return len(b)

    def seek(self, pos, whence=0):
        pos = int(pos)
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.data) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None:
            n = -1
        n = int(n)
        end = len(self.data) if n < 0 else min(self.pos + n, len(self.data))
        out = self.data[min(self.pos, len(self.data)):end]
        self.pos = max(self.pos, end)
        return out if out.chunks else b""

    read1 = read

    def getvalue(self):
        return self.data

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def bytes_io(data=b""):
    """Stand-in for BytesIO / BufferedReader."""
    if isinstance(data, SymFile):
        return data
    return SymFile(data)
