"""C02: blocks of a quantum graph file read back exactly as written."""

from __future__ import annotations

import io
import uuid

from lsst.pipe.base.quantum_graph import _multiblock as mb

from symx.bytesx import IntShim, SymBytes, SymFile, bytes_io
from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = [
    "file layer modelled as an append/seek/read byte sequence; zip container and zstd trusted",
    "block lengths from the listed values; block contents symbolic",
    "shims while symbolic: BytesIO, BufferedReader, int.from_bytes of the module under test",
]


class _Zip:
    """zipfile.ZipFile stand-in: one member."""

    def __init__(self, stream):
        self.stream = stream

    def open(self, name, mode="r", **kw):
        if mode == "r":
            self.stream.seek(0)
        return self.stream


class _Keep(io.BytesIO):
    def close(self):
        pass


def payload(eng, name, length):
    if length == 0:
        return b""
    v = eng.int(name, 0, 256**length - 1)
    return SymBytes([(v, length)]) if eng.symbolic else v.to_bytes(length)


def same(a, b):
    return a == b


def roundtrip(eng, lengths, n, int_size, order):
    with eng.shim(mb, BytesIO=bytes_io, BufferedReader=bytes_io, int=IntShim):
        stream = SymFile() if eng.symbolic else _Keep()
        zf = _Zip(stream)
        blocks, addresses, ids = [], [], []
        with mb.MultiblockWriter.open_in_zip(zf, "x", int_size) as w:
            for i in range(n):
                ln = eng.choice(f"len{i}", lengths)
                data = payload(eng, f"data{i}", ln)
                u = uuid.UUID(int=i + 1)
                kind, r = outcome(w.write_bytes, u, data)
                if ln >= 256**int_size:
                    eng.check(kind == "exc", "a block too long for the header was written silently")
                    eng.reach("overflow")
                    return
                eng.check(kind == "ok", "writing a block failed", repr(r))
                blocks.append(data)
                addresses.append(r)
                ids.append(u)
                # writing the same id again must not silently shadow the first block
                if i == 0 and bool(eng.bool("dup")):
                    kind, r = outcome(w.write_bytes, u, data)
                    eng.check(kind == "exc", "duplicate id accepted")
                    return
            for u, a in zip(ids, addresses):
                eng.check(w.addresses[u] == a, "address table differs from the returned address")
        total = sum(len(b) + int_size for b in blocks)
        stream.seek(0)
        eng.check(len(stream.read()) == total, "file size")
        with mb.MultiblockReader.open_in_zip(zf, "x", int_size=int_size) as reader:
            seq = [i for i in range(n)]
            if order == "any":
                k = eng.choice("first", range(max(n, 1)))
                seq = seq[k:] + seq[:k] + seq[k:k + 1]
            for i in seq[:n + 1]:
                kind, r = outcome(reader.read_bytes, addresses[i])
                eng.check(kind == "ok", "reading a written block failed", repr(r))
                eng.check(r is not None, "written block read back as absent")
                eng.check(same(r, blocks[i]), "block content differs")
            eng.check(reader.read_bytes(mb.Address()) is None, "the empty address is not read as absent")
            eng.reach("read")
            if n:
                # any wrong size is noticed instead of returning other data
                i = eng.choice("bad", range(n))
                delta = eng.choice("delta", (-1, 1, int_size))
                bad = mb.Address(addresses[i].offset, addresses[i].size + delta)
                eng.assume(bad.size > 0)  # a zero size means "absent" by convention
                kind, r = outcome(reader.read_bytes, bad)
                if kind == "ok":
                    # harmless only if the content is still right (end of file, empty block)
                    eng.check(same(r, blocks[i]), "a corrupt address was read silently")
                else:
                    eng.check(isinstance(r, mb.InvalidQuantumGraphFileError), "corrupt address: wrong error", repr(r))
                    eng.reach("corrupt")
        page_size = eng.int("page", 0, 10**6)
        got = list(mb.MultiblockReader.read_all_bytes_in_zip(zf, "x", int_size=int_size, page_size=page_size))
        eng.check(len(got) == n, "reading everything returns a different number of blocks")
        for a, b in zip(got, blocks):
            eng.check(same(a, b), "reading everything returns different content")
        eng.reach("all")


def cases(tier):
    out = []
    for n, int_size, lengths, order in [
        (0, 8, (0,), "in"), (1, 8, (0, 1, 5), "any"), (2, 1, (0, 3, 254, 255, 256), "any"),
        (3, 2, (0, 1, 2, 300), "any"), (2, 8, (0, 1, 7, 8, 9, 1000), "any"),
    ] + ([(4, 2, (0, 1, 2, 3), "any"), (3, 8, (0, 1, 8, 1500), "any")] if tier == "thorough" else []):
        req = ("all", "read") + (("corrupt",) if n else ())
        if max(lengths) >= 256**int_size:
            req += ("overflow",)
        out.append(Case(f"n{n}-i{int_size}", roundtrip, dict(lengths=lengths, n=n, int_size=int_size, order=order),
                        f"{n} blocks, lengths in {lengths}, any content, int size {int_size}", req, time_cap=600))
    return out
