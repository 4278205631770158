"""Property checks: scenario registry, parallel driver, evidence and verdicts."""
from __future__ import annotations

import ast
import gc
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import api
from . import engine as E
from . import terms as T
from .api import AnchorMissing, Bad

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, name, client, max_paths=3000, nd=(0,), rule=""):
        self.name, self.client, self.max_paths, self.nd, self.rule = name, client, max_paths, nd, rule


class Prop:
    def __init__(self, pid, title, rule, anchors, scenarios, assumptions=(), post=None, bounds="", static=None):
        """anchors: [(module, dotted name)] that must exist; scenarios(tier) -> [Scenario]"""
        self.pid, self.title, self.rule = pid, title, rule
        self.anchors, self.scenarios = anchors, scenarios
        self.assumptions = list(assumptions)
        self.post = post
        self.bounds = bounds
        self.static = static


def _run_one(i):
    sc = _SCEN[i]
    t = time.time()
    LOOP.clear()
    E.LOOPHOOK[0] = _loop_hook
    try:
        r = api.explore(sc.name, sc.client, sc.max_paths, sc.nd, LIMITS[0])
    except AnchorMissing as e:
        return i, None, str(e), {}, 0.0
    finally:
        E.LOOPHOOK[0] = None
    out = {
        "name": sc.name, "paths": r.paths, "infeasible": r.infeasible, "undecided": r.undecided, "violations": r.violations,
        "cover": sorted(r.cover), "notes": sorted(r.notes), "nd": sorted(map(str, r.nd_used)), "mat": {k: len(v) for k, v in r.materialised.items()},
    }
    return i, out, None, dict(LOOP), time.time() - t


def _run_some(ixs):
    return [_run_one(i) for i in ixs]


_SCEN = []
LIMITS = [60, 700]  # processor seconds of one scenario, wall seconds of the whole check
LOOP = {}  # (file, line, fn) -> {control state: smallest iteration index}


def _loop_hook(loc, fr):
    """control state of a loop head: the small local variables that steer it"""
    if loc is None or not str(loc[0]).startswith("htmltools"):
        return
    st = []
    for k, v in fr.vars.items():
        if v is None or isinstance(v, bool):
            st.append((k, v))
    st = tuple(sorted(st, key=lambda kv: kv[0]))
    d = LOOP.setdefault(loc, {})
    d[st] = d.get(st, 0) + 1


def int_thresholds(files):
    """integer constants >= 3 that the source compares with, slices by, or takes modulo:
    sizes at which behaviour may change, so collections just beyond them are analysed too"""
    out = {}
    for disp, (src, tree) in E.PARSED.items():
        if files and disp not in files:
            continue
        for n in ast.walk(tree):
            cs = []
            if isinstance(n, ast.Compare):
                cs = [n.left, *n.comparators]
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                cs = [n.right]
            elif isinstance(n, ast.Slice):
                cs = [n.lower, n.upper, n.step]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "islice", "min", "max"):
                cs = n.args
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                cs = [n.value]
            for c in cs:
                for x in ast.walk(c) if c is not None else ():
                    if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool) and 3 <= x.value <= 120:
                        out.setdefault(x.value, f"{disp}:{n.lineno if hasattr(n, 'lineno') else '?'}")
    return out


def functions_index():
    """(file, qualname) -> line of every function of the analysed package"""
    out = {}
    for disp, (src, tree) in E.PARSED.items():
        if not disp.startswith("htmltools"):
            continue

        def walk(node, q):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out[(disp, ".".join(q + [n.name]))] = n.lineno
                    walk(n, q + [n.name])
                elif isinstance(n, ast.ClassDef):
                    walk(n, q + [n.name])
                else:
                    walk(n, q)
        walk(tree, [])
    return out


def fmt_loc(loc):
    if not loc:
        return "(no source position)"
    return f"{loc[0]}:{loc[1]} in {loc[2]}"


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def finding_matches(k, sc_name, msg, loc):
    return k["scenario"] == sc_name and k["contains"] in msg and (not k.get("function") or (loc and loc[2] == k["function"]))


def run(prop, tier="quick", jobs=None):
    global _SCEN
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        api.load()
        for m, n in prop.anchors:
            api.g(n, m)
        scen = list(prop.scenarios(tier))
    except AnchorMissing as e:
        print(f"ANCHOR-MISSING property={prop.pid} {e}")
        return 2
    _SCEN = scen
    if tier == "thorough":
        LIMITS[:] = [400, 6000]
    late = 0
    names = [s.name for s in scen]
    dup = {n for n in names if names.count(n) > 1} if len(names) < 3000 else set()
    if dup:
        raise SystemExit(f"duplicate scenario names: {sorted(dup)[:3]}")
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    results = [None] * len(scen)
    loops = {}
    times = []
    anchor = None
    viol_budget = 40
    nviol = 0
    gc.collect()
    gc.freeze()
    gc.set_threshold(50000, 20, 100)
    if jobs > 1 and len(scen) > 8:
        with mp.get_context("fork").Pool(jobs) as pool:
            size = max(1, min(8, len(scen) // (jobs * 4)))
            it = pool.imap_unordered(_run_some, [range(i, min(i + size, len(scen))) for i in range(0, len(scen), size)])
            some = []
            while True:
                if not some:
                    try:
                        some = it.next(timeout=max(0.1, LIMITS[1] - (time.time() - t0)))
                    except StopIteration:
                        break
                    except mp.TimeoutError:
                        late = len(scen) - len(times)
                        pool.terminate()
                        break
                i, out, err, lp, dt = some.pop(0)
                results[i] = out
                anchor = anchor or err
                merge_loops(loops, lp)
                times.append((dt, scen[i].name))
                nviol += len(out["violations"]) if out else 0
                if nviol > viol_budget and os.environ.get("VERIF_ALL") != "1":
                    pool.terminate()
                    break
    else:
        for i in range(len(scen)):
            _, out, err, lp, dt = _run_one(i)
            results[i] = out
            anchor = anchor or err
            merge_loops(loops, lp)
            times.append((dt, scen[i].name))
    if anchor:
        print(f"ANCHOR-MISSING property={prop.pid} {anchor}")
        return 2
    if os.environ.get("VERIF_TIME"):
        for dt, n in sorted(times, reverse=True)[:12]:
            print(f"    {dt:7.2f} s  {n}")
        print(f"    total {sum(t for t, _ in times):.1f} s")
        by = {}
        for dt, n in times:
            by[n.split("/")[0]] = by.get(n.split("/")[0], 0) + dt
        print("    " + ", ".join(f"{k} {v:.1f}" for k, v in sorted(by.items(), key=lambda kv: -kv[1])[:12]))
    # ---- verdict
    done = [r for r in results if r]
    kf = known_findings(prop.pid)
    viol, known_hit = [], {}
    static_sites = 0
    static_notes = []
    if prop.static:
        sv, static_sites, static_notes = prop.static()
        for msg, loc in sv:
            viol.append(("static", msg, loc, "static-rule", ""))
    for r in done:
        for msg, loc, rule, path in r["violations"]:
            hit = next((k for k in kf if finding_matches(k, r["name"], msg, loc)), None)
            if hit:
                known_hit[hit["id"]] = hit
            else:
                viol.append((r["name"], msg, loc, rule, path))
    und = [(r["name"], u) for r in done for u in r["undecided"]]
    if late:
        und.append(("(all)", f"{late} scenarios not reached within {LIMITS[1]} s"))
    funcs = functions_index()
    cover = sorted({tuple(c) for r in done for c in r["cover"] if str(c[0]).startswith("htmltools")})
    paths = sum(r["paths"] for r in done)
    print(f"property {prop.pid}: {prop.title}")
    print(f"  rule: {prop.rule}")
    print(f"  analysed: {len(done)} scenarios, {paths} trace partitions ({sum(r['infeasible'] for r in done)} infeasible pruned), "
          f"{len(cover)} functions of {len(funcs)} reached, {static_sites} static sites")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    seen = set()
    nprint = 0
    for name, msg, loc, rule, path in viol:
        key = (msg[:160], fmt_loc(loc))
        if key in seen:
            continue
        seen.add(key)
        h = hashlib.sha1(repr((name, key)).encode()).hexdigest()[:10]
        rp = os.path.join("evidence", "replay", f"{prop.pid}-{h}.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump({"property": prop.pid, "scenario": name, "message": msg, "at": fmt_loc(loc), "rule": rule or prop.rule, "partition": path,
                       "replay": f"python3 check.py {prop.pid} --only '{name}'"}, f, indent=1)
        nprint += 1
        if nprint <= 15:
            print(f"  {fmt_loc(loc)}: {msg}\n      scenario: {name}" + (f"\n      partition: {path[:300]}" if path else ""))
            print(f"VIOLATION property={prop.pid} replay={rp}")
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop.pid} {k['what']}")
    if und:
        print(f"  undecided: {len(und)} (no transfer function on these; nothing is claimed for them)")
        for n, u in und[:8]:
            print(f"    {n}: {u}")
    if E.LOAD_NOTES:
        for n in E.LOAD_NOTES[:5]:
            print(f"    definition without transfer function: {n}")
    samples = [{"scenario": r["name"], "partitions": r["paths"]} for r in done[:: max(1, len(done) // 12)]][:14]
    ev = {
        "property": prop.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "abstract interpretation of /repo/htmltools/*.py (syntax trees, never imported or executed): " + prop.rule,
            "scenarios": len(done), "trace_partitions": paths, "infeasible_pruned": sum(r["infeasible"] for r in done),
            "undecided": len(und), "undecided_samples": [f"{n}: {u}" for n, u in und[:20]],
            "functions_reached": [f"{f}:{funcs.get((f, q), '?')} {q}" for f, q in cover],
            "functions_in_package": len(funcs), "static_sites": static_sites, "static_notes": static_notes[:40],
            "loop_heads": [{"at": fmt_loc(l), "control_states": len(s)} for l, s in sorted(loops.items(), key=lambda kv: str(kv[0]))],
            "materialised_atoms": sorted({k for r in done for k in r["mat"]}),
            "notes": sorted({n for r in done for n in r["notes"]})[:40], "bounds": prop.bounds,
            "source_digest": source_digest(), "samples": samples, "known_findings": sorted(known_hit),
            "nd_sources": sorted({n for r in done for n in r["nd"]}),
        },
        "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(seen),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"  {'FAILED' if seen else 'held'} in {ev['wall_s']} s")
    if seen:
        return 1
    if done and paths == 0 and und:
        print(f"NO-ANSWER property={prop.pid}: every partition is undecided")
        return 2
    return 0


def merge_loops(a, b):
    for loc, d in b.items():
        t = a.setdefault(loc, {})
        for st, n in d.items():
            t[st] = t.get(st, 0) + n


def source_digest():
    h = hashlib.sha256()
    for disp, (src, _) in sorted(E.PARSED.items()):
        if disp.startswith("htmltools"):
            h.update(disp.encode() + b"\0" + src.encode() + b"\0")
    return h.hexdigest()[:16]
