"""Results under whatever process-wide settings other code has put in force, at any moment."""

import json

import numpy as np

from . import gen
from .base import Check, plan_fault, recorded, same
from .props_data import settings
from .props_diff import brief, label, perturb, rename, under_schedules


def disturb(rng, own):
    """What some other part of the program sets, now."""
    op = settings(rng)
    op.pop("figs", None)
    if not own:
        op.pop("err", None)
        op.pop("errcall", None)
    if rng.random() < 0.3:
        op["log"] = {"name": rng.choice(["pyotf." + m for m in (
            "otf", "phaseretrieval", "microscope", "utils", "zernike", "labview")]),
            "level": rng.choice([1, 10, 20, 50])}
    if rng.random() < 0.2:
        op["warn"] = op.get("warn", []) + [
            {"action": rng.choice(["error", "ignore", "always"]), "cat": rng.choice(
                ["Warning", "FutureWarning", "PendingDeprecationWarning"])}]
    if rng.random() < 0.5:
        # nothing that asks for exceptions
        op["err"] = {k: "ignore" if v == "raise" else v for k, v in op.get("err", {}).items()}
        op["warn"] = [f for f in op.get("warn", []) if f["action"] != "error"]
    if rng.random() < 0.25:
        op["print"] = rng.choice([
            {"precision": 1, "threshold": 3, "edgeitems": 1}, {"threshold": 2, "edgeitems": 1}, {"legacy": "1.13"}, {"precision": 0},
            {"suppress": True, "precision": 2}, {"threshold": 0}])
    more = {
        "cwd": lambda: "/", "tz": lambda: rng.choice(["UTC", "Asia/Tokyo", "EST5EDT"]),
        "gc": lambda: rng.choice([False, True, 1, 7]), "decimal": lambda: rng.choice([2, 60]),
        "streams": lambda: rng.choice(["broken", "none"]),
        "interactive": lambda: rng.random() < 0.7, "ps1": lambda: True,
        "argv": lambda: ["x", "--verbose"], "backend": lambda: rng.choice(["svg", "pdf", "agg"]),
        "affinity": lambda: [0], "trace": lambda: True, "nofile": lambda: True,
        "locale": lambda: rng.choice(["C", "C.UTF-8", "POSIX"]), "digits": lambda: 640,
        "recursion": lambda: rng.choice([900, 5000]),
        "anyenv": lambda: rng.choice(["0", "1", "2", "", "x", "true", "/", "float32"]),
        "switch": lambda: 1e-6,
        "wenv": lambda: {k: rng.choice(["0", "1", "", "x"]) for k in rng.sample(
            ["PYOTF", "DEBUG", "PYTHONWARNINGS", "OMP_NUM_THREADS", "HOME", "NUMEXPR_MAX_THREADS",
             "PYTHONOPTIMIZE", "MPLBACKEND", "LANG", "CI", "PYOTF_DEBUG", "PYTHONDEVMODE"], 3)},
    }
    op["more"] = {k: more[k]() for k in rng.sample(sorted(more), rng.randint(0, 4))}
    return op


def again(rng, op):
    """The same call with values that look the same at a glance (different in the middle only)."""
    op = json.loads(json.dumps(op))
    hit = []
    for where in (op, op.get("kw", {}), dict(enumerate(op.get("args", [])))):
        for k, v in where.items():
            if isinstance(v, dict) and ("$arr" in v or "$rand" in v):
                if "$rand" in v or np.size(v["$arr"]) > 2:
                    v["mid"] = True
                    hit.append(k)
    return op if hit and "$keep" not in json.dumps(op) else None


class C20(Check):
    id = "C20"
    runs = {"quick": 1200, "thorough": 24000}
    rule = ("a run computes with models, microscopes, results and functions in one or two threads "
            "while process-wide settings (floating-point error handling, warnings, print options, "
            "random state, rcParams, logging, streams, environment, working directory, locale, "
            "garbage collection ...) are changed between the operations and, by another thread, in "
            "the middle of them; non-trivial if a result was compared after a change")
    level = "exploration"

    def gen(self, rng):
        w = rng.choice([{"model": 6, "scope": 2, "result": 3, "fn": 4, "labview": 1}, {"model": 6},
                        {"result": 6, "labview": 2, "model": 1}, {"scope": 5, "model": 2},
                        {"fn": 4, "model": 3, "labview": 2}])
        tasks, faults = [], {}
        n = rng.choice([1, 1, 1, 2])
        for t in range(n):
            if t and rng.random() < 0.5:
                tasks.append(perturb(rng, rename([op for op in tasks[0] if op["op"] != "settings"],
                                                 "a", "b")))
            else:
                p = gen.Prog(rng, pre="ab"[t], weights=w, iters=(1, 5), nmax=12, long=False,
                             plots=rng.choice([0, 0, 3]), parts=True)
                p.build(rng.randint(3, 8))
                for x in rng.sample(list(p.objs), min(len(p.objs), 2)):
                    p.add({"op": "probe", "o": x})
                tasks.append(p.ops)
            ops = tasks[t]
            if rng.random() < 0.5:
                # calls that are easily taken for each other
                for i in range(len(ops) - 1, -1, -1):
                    q = again(rng, ops[i]) if ops[i]["op"] in ("gen", "genzd", "fn", "set", "pupil") \
                        else None
                    if q is not None:
                        ops.insert(i + 1, q)
                        if q["op"] in ("set", "pupil"):
                            a = rng.choice(["PSFi", "OTFi", "PSFa"])
                            get = {"op": "get", "o": q["o"], "a": a}
                            ops[i + 1:i + 2] = [dict(get), q, get]
                for x in [op for op in ops if op["op"] == "retrieve"]:
                    for _ in range(rng.randint(0, 2)):
                        z = {"$arr": [rng.uniform(-2, 2) * x["params"]["wl"]
                                      for _ in range(rng.randint(3, 9))]}
                        q = {"op": "gen", "o": x["to"], "kw": {"zrange": z}}
                        ops += [q, again(rng, q)]
            for i in sorted(rng.sample(range(len(ops) + 1), min(len(ops), rng.randint(1, 4))),
                            reverse=True):
                ops.insert(i, disturb(rng, True))
        gen.private_figures(tasks)
        if n > 1 or rng.random() < 0.6:
            tasks.append([disturb(rng, False) for _ in range(rng.randint(2, 8))])
        # pictures do depend on what matplotlib is told to do
        if any(op["op"] == "plot" or op.get("f", "").endswith("_plot") for ops in tasks
               for op in ops):
            for ops in tasks:
                for op in ops:
                    if op["op"] == "settings":
                        op.pop("rc", None)
                        # nor does matplotlib work without its fonts
                        op["more"].pop("nofile", None)
        for t in range(n):
            if rng.random() < 0.2:
                for i, op in enumerate(tasks[t]):
                    if op["op"] != "settings" and rng.random() < 0.3:
                        faults[f"{t}:{i}"] = plan_fault(rng)
        scn = {"plan": {"tasks": tasks, "faults": faults, "sched": {"kind": "seq"}}, "more": []}
        if len(tasks) > 1:
            scn["plan"]["sched"] = gen.schedule(rng, 600)
            scn["more"] = [gen.schedule(rng, 600)]
        return scn

    def run(self, scn, env):
        return under_schedules(self, scn, env)

    def judge(self, plan, tr, env, bad):
        loud = set()
        for ops in plan["tasks"]:
            for op in ops:
                if op["op"] == "settings":
                    if "raise" in op.get("err", {}).values():
                        loud.add("FloatingPointError")
                    for f in op.get("warn", []):
                        if f["action"] == "error":
                            loud.add(f["cat"])
        for t, ops in enumerate(plan["tasks"]):
            keep = [i for i, op in enumerate(ops) if op["op"] != "settings"]
            if not keep:
                continue
            faults = [i for i in keep if f"{t}:{i}" in plan["faults"]]
            alone = dict(plan, tasks=[[ops[i] for i in keep]])
            want = env.pristine(recorded(alone, 0))["outcomes"]
            for n, i in enumerate(keep):
                got = tr["outcomes"].get(f"{t}:{i}")
                if f"{t}:{i}" not in tr["outcomes"] or i in faults:
                    # what a failure leaves behind is another matter
                    break
                if getattr(got, "name", None) and loud & set(getattr(got, "mro", ())):
                    env.count("operations that raised what was asked for")
                    break
                if ops[i]["op"] == "repr":
                    continue  # shows numbers the way it was asked for
                env.count("results compared")
                d = same(got, want[f"0:{n}"])
                if d:
                    bad(f"differs:{label(ops[i])}", f"{t}:{i} {brief(ops[i])}: {d} (against the "
                        f"same calls under default settings)")
                    break

    def nontrivial(self, scn, res):
        return res["stats"].get("results compared", 0) > 1
