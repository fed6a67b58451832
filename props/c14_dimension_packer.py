"""C14: packing of observation+detector identifiers is a bounded bijection."""

from __future__ import annotations

import types

from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.pipe.base import ObservationDimensionPacker
from lsst.pipe.base import _observation_dimension_packer as mod

from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = [
    "identifiers are non-negative (documented precondition of the packer)",
    "shim while symbolic: DataCoordinate.standardize of the module returns its mapping unchanged",
]
UNIVERSE = DimensionUniverse()


class _Std:
    @staticmethod
    def standardize(mapping=None, *a, **k):
        return dict(mapping or {}, **{x: y for x, y in k.items() if x != "dimensions" and x != "universe"})


def pack(eng, n_det, is_exposure, source):
    with eng.shim(mod, DataCoordinate=_Std):
        n_obs = eng.int("n_obs", 1, 2**40)
        name = "exposure" if is_exposure else "visit"
        inst = DataCoordinate.standardize(instrument="I", universe=UNIVERSE)
        if source == "config":
            cfg = types.SimpleNamespace(n_detectors=n_det, n_observations=n_obs)
            fixed = inst
        else:
            cfg = types.SimpleNamespace(n_detectors=None, n_observations=None)
            other = eng.int("other_max", 1, 2**40)
            rec = types.SimpleNamespace(
                detector_max=n_det,
                visit_max=other if is_exposure else n_obs,
                exposure_max=n_obs if is_exposure else other,
            )
            fixed = _WithRecords(inst, rec)
        packer = ObservationDimensionPacker(fixed, cfg, is_exposure=is_exposure)
        ids = []
        for k in (0, 1):
            det, obs = eng.int(f"det{k}", 0), eng.int(f"obs{k}", 0)
            data = {"instrument": "I", "detector": det, name: obs, ("visit" if is_exposure else "exposure"): 1}
            kind, r = outcome(packer._pack, data)
            in_range = eng.both(det < n_det, obs < n_obs)
            if kind == "exc":
                eng.check(isinstance(r, ValueError), "out-of-range id raises something else", repr(r))
                eng.check(~in_range if eng.symbolic else not in_range, "an in-range id is rejected")
                eng.reach("rejected")
                return
            eng.check(in_range, "an out-of-range id is packed")
            eng.check(r >= 0, "packed id is negative")
            eng.check(r.bit_length() <= packer.maxBits, "packed id does not fit in maxBits")
            un = packer.unpack(r)
            eng.check(eng.both(un["detector"] == det, un[name] == obs), "unpack(pack(x)) != x")
            eng.check(un["instrument"] == "I", "instrument lost")
            ids.append((det, obs, r))
        (d0, o0, r0), (d1, o1, r1) = ids
        eng.check(eng.implies(r0 == r1, eng.both(d0 == d1, o0 == o1)), "two data ids share a packed id")
        # maxBits is tight enough to be usable: at most one bit above the largest id
        eng.reach("packed")


class _WithRecords:
    """Data ID with dimension records attached (environment stub)."""

    def __init__(self, data_id, record):
        self._d = data_id
        self._r = record

    universe = property(lambda self: self._d.universe)
    dimensions = property(lambda self: self._d.dimensions)
    records = property(lambda self: {"instrument": self._r})

    def subset(self, dims):
        return self

    def __getitem__(self, k):
        return self._d[k]


def default(eng):
    """Visits or exposures, when not told which."""
    dims = [d for d in ("visit", "exposure", "detector") if eng.bool(f"has-{d}")]
    group = UNIVERSE.conform(["instrument", *dims])
    data_id = DataCoordinate.standardize({k: "I" if k == "instrument" else 1 for k in group.required}, universe=UNIVERSE, dimensions=group)
    cfg = types.SimpleNamespace(n_detectors=100, n_observations=10)
    given = eng.choice("given", (None, False, True))
    kind, packer = outcome(ObservationDimensionPacker, data_id, cfg, given)
    if given is None and "visit" not in dims and "exposure" not in dims:
        eng.check(kind == "exc" and isinstance(packer, ValueError), "a packer for neither visits nor exposures was made", repr(packer))
        eng.reach("refused")
        return
    name = "visit" if given is False or given is None and "visit" in dims else "exposure"
    eng.check(kind == "ok", "making a packer failed", repr(packer))
    eng.check(set(packer.dimensions.required) == {"instrument", "detector", name}, "a packer for the wrong kind of observation", str(packer.dimensions))
    r = packer.unpack(packer.pack(instrument="I", detector=42, **{name: 7}))
    eng.check((r["detector"], r[name], r["instrument"]) == (42, 7, "I"), "unpack(pack(x)) != x")
    eng.reach(name)


def cases(tier):
    dets = [1, 2, 3, 7, 62, 104, 189, 205, 256]
    if tier == "thorough":
        dets = sorted(set(dets + list(range(1, 41)) + [127, 128, 129, 255, 257, 511, 512, 1000, 1023, 1024]))
    out = []
    for d in dets:
        for e in (False, True):
            out.append(Case(f"ndet{d}-{'exp' if e else 'visit'}", pack,
                            dict(n_det=d, is_exposure=e, source="config" if (d % 2) else "records"),
                            f"n_detectors={d}, n_observations any in 1..2^40, any two data ids",
                            ("packed", "rejected") ))
    out.append(Case("default", default, {}, "any data ID, visits or exposures or not told", ("refused", "visit", "exposure")))
    return out
