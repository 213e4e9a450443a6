#!/opt/venv/bin/python
"""check.py ID [--tier T] [--seed N] [--runs N] [--jobs N]: decide one property by simulation.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=ID replay=PATH": broken.
Exit 2: the check itself failed.
"""

import argparse
import collections
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
           PYTHONDONTWRITEBYTECODE="1")


def environment():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP")}
    e.update(ENV)
    e.setdefault("PYTHONHASHSEED", "0")
    e.setdefault("MPLCONFIGDIR", os.path.join(HERE, "build", "mpl"))
    return e


def known_findings(prop):
    """Entries of known_findings.json that are findings (not fixed) of this property."""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--events", help="write one line per run (determinism comparison)")
    a = ap.parse_args()
    t0 = time.monotonic()
    os.makedirs(os.path.join(HERE, "build", "mpl"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = environment()
    if subprocess.call([PY, "-m", "dst.alloc"], cwd=HERE, env=env, stdout=subprocess.DEVNULL):
        print("cannot build the allocator seam", file=sys.stderr)
        return 2
    meta = json.loads(subprocess.check_output(
        [PY, "-c", "import json;from dst.props import CHECKS;c=CHECKS[%r]();print(json.dumps(dict("
         "runs=c.runs,level=c.level,rule=c.rule,assumptions=c.assumptions,real=c.real,stub=c.stub)))"
         % a.prop], cwd=HERE, env=env).decode().strip().splitlines()[-1])
    runs = a.runs or meta["runs"][a.tier]
    cap = a.cap or (240 if a.tier == "quick" else 6 * 3600)
    procs = []
    for j in range(a.jobs):
        out = open(os.path.join(HERE, "out", f"{a.prop}.{j}.log"), "w+")
        err = open(os.path.join(HERE, "out", f"{a.prop}.{j}.err"), "w+")
        p = subprocess.Popen([PY, "-m", "dst.worker", a.prop, str(a.seed), str(j), str(a.jobs),
                              str(runs), str(cap)], cwd=HERE, env=env, stdout=out, stderr=err,
                             stdin=subprocess.DEVNULL)
        procs.append((p, out, err))
    hard = cap + 300
    errors = []
    msgs = []
    for j, (p, out, err) in enumerate(procs):
        try:
            rc = p.wait(max(1, hard - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "timeout"
        out.seek(0)
        lines = []
        for ln in out:
            try:
                lines.append(json.loads(ln))
            except ValueError:
                pass
        if rc != 0 or not lines or lines[-1]["k"] != "end":
            err.seek(0)
            errors.append(f"worker {j} ended with {rc}: " + err.read()[-2000:])
        msgs += lines
        out.close()
        err.close()
    res = sorted((m for m in msgs if m["k"] == "run"), key=lambda m: m["i"])
    if a.events:
        with open(a.events, "w") as f:
            for m in res:
                f.write(json.dumps([m["i"], m["sig"], m["steps"], m["fired"], m["status"],
                                    m["violations"]]) + "\n")
    lost = sum(m["status"] == "lost" for m in res)
    for m in res:
        if m["status"] == "lost" and lost <= len(res) / 100:
            continue
        if m["status"] != "ok":
            errors.append(f"run {m['i']}: {m['status']}: {m.get('error')}")
    stats, fired = collections.Counter(), collections.Counter()
    for m in res:
        stats.update(m["stats"])
        fired.update(m["fired"])
    viol = [m for m in res if m["violations"]]
    known = known_findings(a.prop)
    shown, fresh = {}, []
    for m in viol:
        rest = []
        for v in m["violations"]:
            hit = next((k for k in known if k["match"] in v["cls"] + " | " + v["msg"]), None)
            if hit:
                shown[hit["id"]] = hit
            else:
                rest.append(v)
        if rest:
            fresh.append(dict(m, violations=rest))
    for k in known:
        # a listed finding is reported on every run, whether or not this seed met it again
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    capped = [m["at"] for m in msgs if m["k"] == "cap"]
    wall = time.monotonic() - t0
    nsteps = sum(m["steps"] for m in res)
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len({m["sig"] for m in res if m["nontrivial"]}),
        "rule": meta["rule"],
        "samples": [m["sample"] for m in res if "sample" in m][:2],
        "simulated_runs": len(res),
        "runs_planned": runs,
        "stopped_by_wall_cap": capped,
        "runs_lost_to_library_crashes": lost,
        "seeds_per_hour": round(len(res) / max(wall, 1e-9) * 3600),
        "simulated_time": {"unit": "scheduler steps (package source lines executed under the "
                           "simulator); pyotf has no clock", "steps": nsteps},
        "faults_fired": dict(sorted(fired.items())),
        "faults_fired_total": sum(fired.values()),
        "distinct_interleavings": len({s for m in res for s in m.get("isig", [])}),
        "interleaving_measure": "distinct sequences of (task, local step, next task) decisions",
        "context_switches": sum(m["sw"] for m in res),
        "probes": dict(sorted(stats.items())),
        "pristine_processes": sum(m.get("pristine", 0) for m in msgs if m["k"] == "end"),
        "real_components": meta["real"],
        "stub_components": meta["stub"],
    }
    rc = 0
    if fresh:
        rc = 1
    elif errors or len(res) == 0:
        rc = 2
    json.dump({"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
               "seed": a.seed, "level": meta["level"], "coverage": cov,
               "assumptions": meta["assumptions"], "wall_s": round(wall, 2),
               "violations": len(fresh)},
              open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w"), indent=1, default=str)
    for e in errors[:5]:
        print("ERROR", e, file=sys.stderr)
    if fresh:
        report(a, fresh, env)
    print(f"{a.prop}: {len(res)} runs, {cov['distinct_nontrivial']} non-trivial, "
          f"{sum(fired.values())} faults fired, {len(fresh)} violating, {len(errors)} errors, "
          f"{wall:.1f} s")
    return rc


def report(a, fresh, env):
    """Minimise one failing run per violation class, write replay files, print VIOLATION."""
    seen = {}
    for m in fresh:
        for v in m["violations"]:
            seen.setdefault(v["cls"], (m, v))
    d = os.path.join(HERE, "out", "replays")
    os.makedirs(d, exist_ok=True)
    for n, (cls, (m, v)) in enumerate(sorted(seen.items(), key=lambda x: x[1][0]["i"])):
        path = os.path.join(d, f"{a.prop}-{a.seed}-{m['i']}-{n}.json")
        json.dump({"property": a.prop, "class": cls, "message": v["msg"], "seed": a.seed,
                   "run": m["i"], "scenario": m["scn"]}, open(path, "w"), indent=1)
        print(f"violation [{cls}] in run {m['i']} of seed {a.seed}: {v['msg'][:600]}")
        if n < 2:
            try:
                subprocess.run([PY, os.path.join(HERE, "replay.py"), "--minimise", path], env=env,
                               cwd=HERE, timeout=150)
            except subprocess.TimeoutExpired:
                pass
        print(f"VIOLATION property={a.prop} replay={path}", flush=True)
        if n >= 3:
            print(f"({len(seen) - n - 1} further violation classes not reported)")
            break


if __name__ == "__main__":
    sys.exit(main())
