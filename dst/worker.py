"""Worker process: boots once, then runs seeds in forked children; one JSON line per message."""

import json
import os
import sys
import time

from . import engine
from .props import CHECKS


def one(srv, chk, scn, timeout=150):
    """Run a scenario: {"status","violations","stats","scn","trace"}"""

    def fn(env):
        items, tr = chk.run(scn, env)
        return dict(violations=items, stats=env.stats, scn=scn, steps=tr.get("steps", 0),
                    fired=tr.get("fired", {}), switches=tr.get("switches", []),
                    order=tr.get("order", []), sig=tr.get("sig"), isigs=tr.get("isigs"))

    st, val = srv.run(fn, timeout)
    if st == "ok":
        val["status"] = "ok"
        return val
    return {"status": st, "error": val, "violations": [], "stats": {}, "scn": scn, "steps": 0,
            "fired": {}, "switches": [], "order": []}


def freeze(scn, res):
    """Replace the random schedule by the decisions actually taken."""
    c = json.loads(json.dumps(res["scn"]))
    p = c["plan"]
    if len(p.get("tasks", [])) > 1 and p.get("sched", {}).get("kind") != "explicit":
        p["sched"] = {"kind": "explicit", "order": list((res["order"] or [[]])[0]),
                      "switches": [list(s) for s in res["switches"]]}
    return c


def minimise(srv, chk, scn, cls, budget=60.0, log=None):
    """Greedy shrinking while the same class of violation persists."""
    t0 = time.monotonic()
    cur = scn
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in chk.shrink(cur):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r = one(srv, chk, json.loads(json.dumps(cand)), 60)
            if r["status"] == "ok" and any(v["cls"] == cls for v in r["violations"]):
                cur = cand
                progress = True
                break
    return cur, tried


def main():
    prop, seed, start, step, count, cap = sys.argv[1:7]
    chk = CHECKS[prop]()
    start, step, count, cap = int(start), int(step), int(count), float(cap)
    engine.boot()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    srv = engine.Server()
    t0 = time.monotonic()
    from .gen import rng_for, surroundings

    for i in range(start, count, step):
        if time.monotonic() - t0 > cap:
            out.write(json.dumps({"k": "cap", "at": i}) + "\n")
            break
        rng = rng_for(prop, seed, i)
        scn = chk.gen(rng)
        scn.setdefault("seed", f"{prop}/{seed}/{i}")
        surroundings(rng, scn)
        scn = json.loads(json.dumps(scn))
        res = one(srv, chk, scn)
        if res["status"] == "ok" and scn.get("plan", {}).get("clock"):
            res["stats"]["runs under a stalled or jumping clock"] = 1
        if res["status"] == "ok" and scn.get("plan", {}).get("dirt"):
            res["stats"]["runs with garbage in uninitialised memory"] = 1
        if res["status"] == "died" and res["error"] in ("status 11", "status 6") \
                and '"alloc"' in json.dumps(scn):
            # C code of a library that does not check an allocation; no Python code can do this
            res["status"] = "lost"
        msg = {"k": "run", "i": i, "status": res["status"], "steps": res["steps"],
               "fired": sorted(res["fired"].values()), "stats": res["stats"],
               "sw": len(res["switches"]), "violations": res["violations"],
               "nontrivial": bool(res["status"] == "ok" and chk.nontrivial(scn, res))}
        import hashlib

        msg["sig"] = hashlib.sha256(json.dumps(
            [res["sig"] if res.get("sig") else res["scn"]["plan"], res["switches"], sorted(res["fired"].items())], sort_keys=True,
            default=str).encode()).hexdigest()[:16]
        if res["switches"] or res.get("isigs"):
            msg["isig"] = [hashlib.sha256(s.encode()).hexdigest()[:16]
                           for s in res.get("isigs") or [json.dumps(res["switches"])]]
        if res["status"] != "ok":
            msg["error"] = str(res["error"])[-3000:]
        if res["violations"]:
            msg["scn"] = freeze(scn, res)
        if i == start:
            msg["sample"] = scn
        out.write(json.dumps(msg, default=str) + "\n")
    out.write(json.dumps({"k": "end", "pristine": srv.pristine_runs, "hits": srv.pristine_hits}) + "\n")


if __name__ == "__main__":
    main()
