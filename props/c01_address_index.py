"""C01: the UUID index of a quantum graph file finds exactly what was written."""

from __future__ import annotations

import io
import uuid

from lsst.pipe.base.quantum_graph import _multiblock as mb

from symx.bytesx import IntShim, SymFile, bytes_io
from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = [
    "file layer modelled as an append/seek/read byte sequence (zip container and compression outside the claim)",
    "shims while symbolic: BytesIO, int.from_bytes of the module under test (identity on plain values)",
]


def roundtrip(eng, n, n_addr, int_size, history, presorted):
    with eng.shim(mb, BytesIO=bytes_io, int=IntShim):
        top = 256**int_size - 1
        ids = [eng.uuid(f"id{i}") for i in range(n)]
        for i in range(n - 1):
            if presorted:
                eng.assume(ids[i].int < ids[i + 1].int)
            else:
                for j in range(i + 1, n):
                    eng.assume(ids[i].int != ids[j].int)
        writer = mb.AddressWriter()
        want = {i: [] for i in range(n)}
        for a in range(n_addr):
            m = {}
            for i in range(n):
                # row 0 address 0 may be missing: the id is then known only
                # through the other maps (or all_ids)
                present = True if (a == 0 and n_addr == 1) else bool(eng.bool(f"p{a}_{i}"))
                if present:
                    off = eng.int(f"o{a}_{i}", 0, top)
                    siz = eng.int(f"s{a}_{i}", 0, top)
                    m[ids[i]] = mb.Address(off, siz)
                    want[i].append((off, siz))
                else:
                    want[i].append((0, 0))
            writer.addresses.append(m)
        stream = SymFile() if eng.symbolic else io.BytesIO()
        writer.write(stream, int_size, all_ids=set(ids))
        stream.seek(0)
        page_size = eng.int("page_size", 0, 10**7)
        reader = mb.AddressReader.from_stream(
            stream, page_size=page_size, n_addresses=n_addr, int_size=int_size)
        for step, op in enumerate(history):
            if op == "all":
                rows = reader.read_all()
                eng.check(len(rows) == n, "read_all returns every row once")
                got = []
                for i in range(n):
                    row = rows.get(ids[i])
                    eng.check(row is not None, "read_all misses a written id")
                    same(eng, row, ids[i], want[i], "read_all row")
                    got.append(row.index)
                for i in range(n):
                    rank = sum_below(eng, ids, i)
                    eng.check(got[i] == rank, "row indices do not number the ids in order")
                eng.reach("all")
                continue
            if op == "present":
                i = eng.choice(f"which{step}", range(n))
                kind, r = outcome(reader.find, ids[i])
                eng.check(kind == "ok", "a written id is not found", repr(r))
                same(eng, r, ids[i], want[i], "find row")
                eng.check(r.index == sum_below(eng, ids, i), "row index differs from the rank of the id")
                eng.reach("present")
            else:
                key = eng.uuid(f"key{step}")
                kind, r = outcome(reader.find, key)
                known = [key.int == u.int for u in ids]
                if kind == "ok":
                    eng.check(eng.any_of(*known), "an absent id is found")
                    eng.check(r.key.int == key.int, "find returns the row of another id")
                    for i in range(n):
                        for a in range(n_addr):
                            eng.check(eng.implies(known[i], eng.both(
                                r.addresses[a].offset == want[i][a][0], r.addresses[a].size == want[i][a][1])),
                                "find returns wrong addresses")
                    eng.reach("found")
                else:
                    eng.check(isinstance(r, LookupError), "lookup failure is not a LookupError", repr(r))
                    for k in known:
                        eng.check(~k if eng.symbolic else not k, "a written id is not found", repr(r))
                    eng.reach("absent")


def sum_below(eng, ids, i):
    rank = 0
    for j, u in enumerate(ids):
        if j != i:
            rank = rank + eng.ite(u.int < ids[i].int, 1, 0)
    return rank


def header(eng, int_size, n_addr):
    """A header that disagrees with the caller, or is truncated, is refused."""
    with eng.shim(mb, BytesIO=bytes_io, int=IntShim):
        f_int = eng.int("f_int", 0, 255)
        f_addr = eng.int("f_addr", 0, 256**int_size - 1)
        stream = SymFile() if eng.symbolic else io.BytesIO()
        cut = eng.choice("cut", (None, 0, 1, int_size, 2 * int_size))
        stream.write(f_int.to_bytes(1))
        if cut is None:
            stream.write((0).to_bytes(int_size))
            stream.write(f_addr.to_bytes(int_size))
        else:
            stream.write(bytes(cut)[1:])
        stream.seek(0)
        kind, r = outcome(mb.AddressReader.from_stream, stream, page_size=100, n_addresses=n_addr, int_size=int_size)
        good = False if cut is not None else eng.both(f_int == int_size, f_addr == n_addr)
        if kind == "exc":
            eng.check(isinstance(r, mb.InvalidQuantumGraphFileError), "bad header: wrong error", repr(r))
            eng.check(~good if eng.symbolic and cut is None else not good, "a good header is refused")
            eng.reach("refused")
        else:
            eng.check(good, "a bad header is accepted")
            eng.reach("accepted")


def same(eng, row, key, want, what):
    eng.check(row.key.int == key.int, what + ": key")
    eng.check(len(row.addresses) == len(want), what + ": number of addresses")
    for a, (off, siz) in zip(row.addresses, want):
        eng.check(eng.both(a.offset == off, a.size == siz), what + ": address")


def cases(tier):
    out = []

    def add(n, n_addr, int_size, history, presorted, require=(), cap=240):
        out.append(Case(f"n{n}-a{n_addr}-i{int_size}-{'-'.join(history)}-{'s' if presorted else 'u'}", roundtrip,
                        dict(n=n, n_addr=n_addr, int_size=int_size, history=history, presorted=presorted),
                        f"{n} ids (any distinct 128-bit values), {n_addr} addresses per row (any values), page size "
                        f"0..10^7 (all), operations {history}", require, time_cap=cap))

    add(0, 1, 8, ("any", "all"), True, ("absent",))
    add(1, 1, 8, ("any", "any"), True, ("absent", "found"))
    add(2, 2, 2, ("any", "all", "any"), False, ("absent", "found", "all"))
    add(3, 1, 1, ("any", "any"), False, ("absent", "found"))
    add(3, 0, 4, ("any", "all"), True, ("absent", "found"))
    add(4, 1, 8, ("any", "all", "present"), True, ("absent", "found", "present"))
    add(5, 1, 8, ("any",), True, ("absent", "found"))
    add(4, 1, 8, ("present", "any"), True, ("absent", "found", "present"))
    for isz, na in ((1, 0), (4, 1), (8, 2)):
        out.append(Case(f"header-i{isz}-a{na}", header, dict(int_size=isz, n_addr=na),
                        "any header field values, any truncation of the header", ("refused", "accepted")))
    if tier == "thorough":
        add(6, 1, 8, ("any", "all"), True, ("absent", "found"), 1500)
        add(7, 1, 8, ("any",), True, ("absent", "found"), 1500)
        add(4, 1, 8, ("any", "any", "any"), True, ("absent", "found"), 1500)
        add(4, 1, 3, ("any", "all"), False, ("absent", "found"), 1500)
        add(3, 3, 2, ("any", "all"), True, ("absent", "found"), 1500)
    return out
