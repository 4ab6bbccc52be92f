"""Runs the drivers of one property over the sources in /repo and reports."""

from __future__ import annotations

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
PKGS = {
    "connectrpc": "src/connectrpc",
    "connectrpc_otel": "connectrpc-otel/connectrpc_otel",
    "protoc_gen_connectrpc": "protoc-gen-connectrpc/protoc_gen_connectrpc",
}
LIBS = {
    "pyqwest": "lib_pyqwest.py",
    "protobuf": "lib_protobuf.py",
    "protobuf.wkt": "lib_protobuf_wkt.py",
    "protobuf.plugin": "lib_plugin.py",
    "protobuf._sanitization": "lib_plugin.py",
    "connectrpc._gen.status_pb": "lib_status_pb.py",
    "wrapt": "lib_wrapt.py",
} | {f"opentelemetry.{x}": "lib_otel.py" for x in (
    "metrics", "propagate", "propagators.textmap", "trace", "util.types", "instrumentation.instrumentor")} | {
    "opentelemetry.instrumentation.utils": "lib_wrapt.py"}
# libraries that only some drivers look into
LIBS_FOR = {"d_comp": {"gzip": "lib_gzip.py", "zlib": "lib_zlib.py", "zstandard": "lib_zstandard.py", "brotli": "lib_brotli.py",
                       "google.protobuf.json_format": "lib_google_json.py"},
            "d_opts": {"gzip": "lib_gzip.py"}}


def modmap(repo, driver=None):
    mm = {"__prelude__": os.path.join(VERIF, "sa", "prelude.py")}
    for pkg, rel in PKGS.items():
        root = os.path.join(repo, rel)
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    n = pkg + p[len(root):-3].replace("/", ".")
                    if n.endswith(".__init__"):
                        n = n[:-9]
                    mm[n] = p
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".py") and not f.startswith("lib_"):
            mm[f[:-3]] = os.path.join(HARNESS, f)
    for k, f in (LIBS | LIBS_FOR.get(driver, {})).items():
        p = os.path.join(HARNESS, f)
        if os.path.exists(p):
            mm[k] = p
    return mm


class Task:
    """One driver run: module, function, constant arguments."""

    def __init__(self, mod, fn, *args, must=(), wall=200, k_loop=3, hooks=None, premods=()):
        self.mod, self.fn, self.args = mod, fn, args
        self.must = must
        self.wall = wall
        self.k_loop = k_loop
        self.hooks = hooks
        self.premods = premods

    @property
    def name(self):
        return f"{self.mod}.{self.fn}({', '.join(map(repr, self.args))})"


EMPTY = {"error": None, "violations": [], "covered": {}, "limits": {}, "ends": {}, "executed": [], "sites": 0,
         "states": 0, "steps": 0, "merged": 0, "dropped": 0, "incomplete": False, "unmodelled": {}, "wall": 0}


def run_task(a):
    repo, task, scale = a
    sys.setrecursionlimit(50000)
    from .explore import explore
    from .machine import Machine, S
    from .values import c, tup

    def lift(x):
        if isinstance(x, tuple):
            return tup(*map(lift, x))
        return c(x)

    t0 = time.time()
    out = dict(EMPTY, name=task.name)
    try:
        m = Machine(modmap(repo, task.mod), {"root": repo})
        m.import_module("__prelude__")
        for p in task.premods:
            m.import_module(p)
        m.import_module(task.mod)
        if task.hooks:
            import importlib

            hm, hf = task.hooks.split(":")
            getattr(importlib.import_module(hm), hf)(m)
        r = explore(m, m.getglobal(S(), task.mod, task.fn), [lift(x) for x in task.args], k_loop=task.k_loop,
                    max_wall=task.wall * scale, max_steps=40_000_000)
        out["violations"] = [(rule, where, msg, tr) for (rule, where, msg), tr in r.violations.items()]
        out["covered"] = m.covered
        out["limits"] = r.limits
        out["ends"] = r.ends
        out["states"], out["steps"], out["merged"], out["dropped"], out["incomplete"] = r.states, r.steps, r.merged, r.dropped, r.incomplete
        ex = set()
        for code in m.executed:
            if not code.path.startswith("/"):
                ex.add(f"{code.path}:{code.name}")
        out["executed"] = sorted(ex)
        out["sites"] = len([1 for x in m.sites if not str(x).startswith(("('__prelude", "('/"))])
        out["unmodelled"] = dict(m.unmodelled)
    except Exception as e:  # an engine failure is reported, never hidden
        out["error"] = f"{type(e).__name__}: {e}"
        out["tb"] = traceback.format_exc(limit=-8)
    out["wall"] = round(time.time() - t0, 2)
    return out


def _child(conn, a):
    try:
        conn.send(run_task(a))
    finally:
        conn.close()


def run_tasks(repo, tasks, jobs=8, scale=1.0, verbose=None):
    """One process per driver; a driver whose process ends without an answer is reported as failed."""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    if jobs == 1 or len(tasks) == 1:
        out = []
        for t in tasks:
            r = run_task((repo, t, scale))
            if verbose:
                verbose(r)
            out.append(r)
        return out
    ctx = mp.get_context("fork")
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop()
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(wr, (repo, tasks[i], scale)))
            p.start()
            wr.close()
            live[rd] = (i, p)
        for rd in wait(list(live)):
            i, p = live.pop(rd)
            try:
                res[i] = rd.recv()
            except EOFError:
                res[i] = dict(EMPTY, name=tasks[i].name, error="the analysis process ended without an answer", tb="")
            rd.close()
            p.join()
            if verbose:
                verbose(res[i])
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                kv = dict(x.split("=", 1) for x in line[len("finding: "):].split(" | ")[0].split(" ") if "=" in x)
                out[(kv["property"], kv["rule"], kv["at"])] = line.split(" | ", 1)[1] if " | " in line else ""
    return out


def at_of(where):
    """file:function without line numbers."""
    w = where.replace("after ", "")
    p, _, rest = w.partition(":")
    fn = rest.split(" in ")[-1] if " in " in rest else rest.partition(" ")[2]
    return f"{p}:{fn}".replace(" ", "_")


def main(argv=None):
    import argparse

    sys.path.insert(0, VERIF)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", default=None)
    a = ap.parse_args(argv)
    import specs

    prop = a.prop
    sp = specs.SPECS[prop]
    t0 = time.time()
    tasks = sp.tasks(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t.name]
    scale = 1.0 if a.tier == "quick" else 2.0

    def show(r):
        if a.v:
            print(f"# {r['name']}: {r['wall']}s states={r['states']} steps={r['steps']} merged={r['merged']} inc={r['incomplete']} ends={ {k[:70]: n for k, n in list(r['ends'].items())[:6]} } limits={r['limits']} cov={r['covered']}", flush=True)
            if r["error"]:
                print(r.get("tb"))

    rs = run_tasks(a.repo, tasks, a.jobs, scale, show)
    viols = {}
    cov = {}
    limits = {}
    errors = []
    missing = []
    executed = set()
    for t, r in zip(tasks, rs):
        if r["error"]:
            errors.append(f"{r['name']}: {r['error']}")
        for rule, where, msg, tr in r["violations"]:
            if rule.split(".")[0] != prop:
                continue
            k = (rule, at_of(where))
            if k not in viols:
                viols[k] = (where, msg, tr, r["name"])
        for k, n in r["covered"].items():
            cov[k] = cov.get(k, 0) + n
        for k, n in r["limits"].items():
            limits[k] = limits.get(k, 0) + n
        executed |= set(r["executed"])
        if not r["error"]:
            for k in t.must:
                if k not in r["covered"]:
                    missing.append((r["name"], k, bool(r["limits"]) or r["incomplete"]))
    for mod_check in sp.extra:
        for rule, where, msg in mod_check(a.repo, cov):
            viols.setdefault((rule, at_of(where)), (where, msg, [], "source query"))
    for name, k, limited in missing:
        if not limited:
            viols.setdefault((f"{prop}.unreachable", f"driver:{k.replace(' ', '_')}"), (name, f"no execution reaches: {k}", [], name))
    known = load_known()
    new = []
    lines = []
    for (rule, at), (where, msg, tr, tname) in sorted(viols.items()):
        if (prop, rule, at) in known:
            lines.append(f"KNOWN-FINDING: property={prop} {rule} at {at}: {known[(prop, rule, at)] or msg}")
        else:
            new.append((rule, at, where, msg, tr, tname))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for l in lines:
        print(l)
    incomplete = [r["name"] for r in rs if r["incomplete"]]
    limited_missing = [f"{n}: {k}" for n, k, l in missing if l]
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": sp.level,
        "coverage": {
            "explanation": sp.explanation,
            "rules": sp.rules,
            "drivers": len(rs),
            "abstract_states": sum(r["states"] for r in rs),
            "transfer_steps": sum(r["steps"] for r in rs),
            "joins": sum(r["merged"] for r in rs),
            "subsumed": sum(r["dropped"] for r in rs),
            "obligations_reached": dict(sorted(cov.items())[:150]),
            "functions_analysed": sorted(executed)[:400],
            "paths_cut_at_unmodelled_constructs": dict(sorted(limits.items())[:40]),
            "drivers_not_exhausted": incomplete,
            "obligations_not_reached_because_cut": limited_missing,
            "driver_errors": errors[:20],
            "per_driver": [{"driver": r["name"], "states": r["states"], "ends": dict(list(r["ends"].items())[:8]), "wall_s": r["wall"]} for r in rs][:120],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev["coverage"]["per_driver"]:
        ev["coverage"]["per_driver"] = ev["coverage"]["per_driver"][: len(ev["coverage"]["per_driver"]) // 2]
        ev["coverage"]["functions_analysed"] = ev["coverage"]["functions_analysed"][:150]
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        f.write(txt + "\n")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{prop}.violation.txt")
        with open(rp, "w") as f:
            for rule, at, where, msg, tr, tname in new:
                f.write(f"rule {rule}\nat {where}\n{msg}\ndriver {tname}\npath:\n  " + "\n  ".join(x[:400] for x in tr[-60:]) + "\n\n")
        for rule, at, where, msg, tr, tname in new:
            print(f"  {rule} at {where}: {msg} [{tname}]")
            if a.v:
                print("     " + "\n     ".join(x[:260] for x in tr[-40:]))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors and len(errors) == len(rs):
        print("analysis failed: " + errors[0], file=sys.stderr)
        return 2
    for e in errors:
        print("driver failed: " + e, file=sys.stderr)
    if limited_missing:
        print("obligations not reached because the analysis was cut: " + "; ".join(limited_missing[:5]), file=sys.stderr)
    print(f"{prop}: holds on {len(rs)} drivers, {ev['coverage']['abstract_states']} abstract states, {ev['wall_s']} s")
    return 0
