"""Run the check of one property: explore every case in parallel, write
evidence, print VIOLATION / KNOWN-FINDING lines, exit 0/1 (2 = no answer)."""

from __future__ import annotations

import atexit
import dataclasses
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


@dataclasses.dataclass
class Case:
    name: str
    fn: object
    kwargs: dict = dataclasses.field(default_factory=dict)
    bounds: str = ""
    require: tuple = ()  # reach labels that must be hit (vacuity twins)
    time_cap: float = 240.0
    max_paths: int = 10**9
    validate_every: int = 25
    max_decisions: int = 4000
    query_ms: int = 20000


def find_module(prop):
    for p in sorted((VERIF / "props").glob(f"{prop.lower()}_*.py")):
        return importlib.import_module(f"props.{p.stem}")
    raise SystemExit(f"no harness for {prop}")


def _quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def _run_case(args):
    prop, tier, index = args
    from symx.core import Engine

    _quiet()
    mod = find_module(prop)
    case = mod.cases(tier)[index]
    eng = Engine(time_cap=case.time_cap, max_paths=case.max_paths, validate_every=case.validate_every,
                 max_decisions=case.max_decisions, query_ms=case.query_ms)

    eng.known_labels = frozenset(k["label"] for k in load_known(prop) if matches(k, case.name, k.get("label")))

    def body(e):
        case.fn(e, **case.kwargs)

    try:
        eng.explore(body, body)
    except Exception:
        import traceback

        eng.notes.setdefault("harness_errors", []).append("engine: " + traceback.format_exc()[-3000:])
    return dict(
        name=case.name, bounds=case.bounds, stats=eng.stats, exhausted=eng.exhausted, reached=eng.reached,
        functions=sorted(eng.functions), samples=eng.samples, violations=eng.violations, notes=eng.notes,
        missing=[r for r in case.require if r not in eng.reached],
    )


def _child(conn, job):
    try:
        conn.send(_run_case(job))
    finally:
        conn.close()


def run_all(jobs, width, cases, stop=None):
    """One forked process per case, at most `width` at once; a case whose
    process dies is reported as unanswered."""
    ctx = mp.get_context("fork")
    todo, running, done = list(range(len(jobs))), {}, {}
    while todo or running:
        while todo and len(running) < width:
            k = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, jobs[k]))
            p.start()
            w.close()
            running[r] = (k, p)
        for r in mp.connection.wait(list(running)):
            k, p = running.pop(r)
            try:
                done[k] = r.recv()
            except EOFError:
                p.join()
                done[k] = dict(name=cases[k].name, bounds=cases[k].bounds, stats=dict(paths=0, inconclusive=1, aborted=0,
                               decisions=0, queries=0, solver_s=0.0, realisations=0), exhausted=False, reached={},
                               functions=[], samples=[], violations=[], missing=[],
                               notes=dict(harness_errors=[f"case process died with exit code {p.exitcode}"]))
            r.close()
            p.join()
            if stop is not None and stop(done[k]):
                for _, q in running.values():
                    q.kill()
                todo, running = [], {}
                break
    return [done[k] for k in sorted(done)]


def load_known(prop):
    out = []
    f = VERIF / "known_findings.jsonl"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(known, case_name, label):
    return known.get("case") in (None, case_name) and known.get("label") == label


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--noevidence", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first case with a violation")
    ap.add_argument("--first", action="store_true", help="(default)")
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    _quiet()
    scratch = tempfile.mkdtemp(prefix="verif-")
    tempfile.tempdir = scratch  # of the forked case processes too
    atexit.register(shutil.rmtree, scratch, True)
    mod = find_module(prop)
    cases = mod.cases(tier)
    if a.replay:
        return do_replay(mod, a.replay)
    idx = [i for i, c in enumerate(cases) if a.case is None or a.case in c.name]
    jobs = [(prop, tier, i) for i in idx]
    if a.jobs <= 1 or len(jobs) == 1:
        results = [_run_case(j) for j in jobs]
    else:
        stop = None
        if not a.all:
            known0 = load_known(prop)

            def stop(r):
                return any(not any(matches(k, r["name"], v["label"]) for k in known0) for v in r["violations"])

        results = run_all(jobs, a.jobs, [cases[i] for i in idx], stop)
    wall = time.monotonic() - t0
    known = load_known(prop)
    vio_lines, known_lines, bad = [], [], []
    rdir = VERIF / "evidence" / "replays"
    n_vio = 0
    for r in results:
        for v in r["violations"]:
            hit = [k for k in known if matches(k, r["name"], v["label"])]
            if hit:
                line = f"KNOWN-FINDING: property={prop} {hit[0]['what']}"
                if line not in known_lines:
                    known_lines.append(line)
                continue
            n_vio += 1
            rdir.mkdir(parents=True, exist_ok=True)
            path = rdir / f"{prop}-{n_vio}.json"
            path.write_text(json.dumps(dict(property=prop, case=r["name"], label=v["label"], values=v["values"],
                                            detail=v["detail"]), indent=1, default=str))
            print(f"case {r['name']}: {v['label']} {v['detail']}")
            vio_lines.append(f"VIOLATION property={prop} replay={path}")
        if r["notes"].get("harness_errors"):
            bad.append(f"{r['name']}: harness error\n" + r["notes"]["harness_errors"][0])
        if r["notes"].get("unreproduced"):
            bad.append(f"{r['name']}: counterexample did not reproduce: {r['notes']['unreproduced'][0]}")
        if r["missing"] and not r["violations"]:
            bad.append(f"{r['name']}: never reached {r['missing']} (vacuous)")
        if r["stats"]["paths"] == 0 and not r["violations"]:
            bad.append(f"{r['name']}: no path completed ({r['notes']})")
    tot = {}
    for r in results:
        for k, x in r["stats"].items():
            tot[k] = tot.get(k, 0) + x
    functions = sorted({f for r in results for f in r["functions"]})
    reached = {}
    for r in results:
        for k, x in r["reached"].items():
            reached[k] = reached.get(k, 0) + x
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("decisions", 0)),
            traces_validated_against_impl=int(tot.get("validated", 0)),
            samples=[dict(case=r["name"], values=_trim(s)) for r in results for s in r["samples"][:1]][:8],
            exhaustive=all(r["exhausted"] for r in results) and not tot.get("inconclusive", 0),
            explanation=(
                "bounded symbolic execution of the real code: states = feasible paths explored to their end, "
                "transitions = two-way symbolic branches decided by z3, traces_validated_against_impl = path models "
                "re-run with plain values on the unshimmed code"),
            functions_encoded=functions,
            cases=[dict(name=r["name"], bounds=r["bounds"], exhausted=r["exhausted"], paths=r["stats"]["paths"],
                        infeasible=r["stats"]["aborted"], undecided=r["stats"]["inconclusive"],
                        wall_s=round(r["stats"].get("wall_s", 0), 2), notes=_notes(r["notes"])) for r in results],
            solver_queries=int(tot.get("queries", 0)), solver_seconds=round(tot.get("solver_s", 0), 3),
            solver_unknown=int(tot.get("unknown", 0)),
            assertions_decided_by_solver=int(tot.get("checks", 0)),
            assertions_on_concrete_result=int(tot.get("checks_concrete", 0)),
            concretisations=int(tot.get("realisations", 0)), forced_branches=int(tot.get("forced", 0)),
            undecided_paths=int(tot.get("inconclusive", 0)), reachability_witnesses=reached,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=n_vio,
    )
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    if a.case is None and not a.noevidence:
        (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    for line in known_lines:
        print(line)
    if a.v or bad:
        for r in results:
            s = r["stats"]
            print(f"  {r['name']}: paths={s['paths']} abort={s['aborted']} inconc={s['inconclusive']} dec={s['decisions']} "
                  f"q={s['queries']} solver={s['solver_s']:.1f}s wall={s.get('wall_s', 0):.1f}s real={s['realisations']} "
                  f"exh={r['exhausted']} missing={r['missing']} {str(r['notes'])[:400]}")
    print(f"{prop} {tier}: {len(results)} cases, {tot.get('paths', 0)} paths, {tot.get('queries', 0)} queries, "
          f"solver {tot.get('solver_s', 0):.1f}s, wall {wall:.1f}s, exhaustive={evidence['coverage']['exhaustive']}")
    if vio_lines:
        for line in vio_lines:
            print(line)
        return 1
    if bad:
        for b in bad:
            print("NO ANSWER:", b)
        return 2
    return 0


def _trim(v):
    items = list(v.items())
    return {k: (x if len(str(x)) < 60 else str(x)[:60]) for k, x in items[:40]}


def _notes(n):
    return json.loads(json.dumps(n, default=str)[:1500]) if len(json.dumps(n, default=str)) <= 1500 else str(n)[:1500]


def do_replay(mod, path):
    from symx.core import Replay

    d = json.loads(Path(path).read_text())
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            if c.name == d["case"]:
                ok, label, detail = Replay(d["values"]).run(lambda e: c.fn(e, **c.kwargs))
                print(f"replayed {d['case']}: violated={ok} {label} {detail}")
                return 1 if ok else 0
    print("case not found")
    return 2
