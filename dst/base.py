"""Shared parts of the checks: fault planning, shrinking, spec states."""

import copy
import json

import numpy as np

from . import gen, refmodel, world
from .engine import Executor, execute
from .world import Exc, same

TOL_REF = 1e-9


LINALG = {"lstsq", "solve", "inv", "pinv", "svd", "eig", "eigh", "qr", "cholesky", "det",
          "matrix_rank", "_lstsq"}


class Bad:
    """Collects violations of one run."""

    def __init__(self):
        self.items = []

    def __call__(self, cls, msg, **extra):
        if len(self.items) < 20:
            self.items.append(dict(cls=cls, msg=msg, **extra))

    def __bool__(self):
        return bool(self.items)


def plan_fault(rng, kinds=None):
    """A fault at a relative position u of the operation it strikes."""
    k = gen.pick(rng, kinds or {"alloc": 4, "call": 4, "alloc-big": 2, "alloc-all": 1})
    f = plan_fault_at(rng, k)
    if rng.random() < 0.65:
        f["site"] = rng.choice([0.0, 0.999999, rng.random()])
    return f


def plan_fault_at(rng, k):
    u = rng.random()
    if k == "alloc":
        return {"kind": "alloc", "u": u}
    if k == "alloc-big":
        return {"kind": "alloc", "u": u, "min": rng.choice([64, 512, 2048])}
    if k == "alloc-all":
        return {"kind": "alloc", "u": u, "sticky": True, "min": rng.choice([1, 512])}
    if k == "kill":
        return {"kind": "call", "u": u, "exc": "kill"}
    exc = gen.pick(rng, {"KeyboardInterrupt": 5, "MemoryError": 3, "LinAlgError": 1,
                         "RuntimeError": 1})
    f = {"kind": "call", "u": u, "exc": exc}
    if rng.random() < 0.4:
        f["linalg"] = True
    return f


def resolve_faults(plan, env):
    """Turn relative fault positions into counts, measured on a fault-free pristine run.

    The position is either uniform over all allocations (calls) of the operation, or (by site)
    uniform over the distinct places in the code that allocate (call), then over the visits to
    that place: loops would otherwise hide everything outside them.
    """
    todo = {k: f for k, f in plan.get("faults", {}).items() if "u" in f}
    if todo:
        cp = json.loads(json.dumps({k: v for k, v in plan.items() if k not in ("sched", "fine")}))
        cp["faults"] = {k: {"kind": "count", "min": f.get("min", 1)} for k, f in todo.items()}
        tr = env.pristine(cp)
        for k, f in todo.items():
            na, nc, sa, sc, names = tr["counts"].get(k, (0, 0, [], [], []))
            n, sites = (na, sa) if f["kind"] == "alloc" else (nc, sc)
            if n == 0 and f["kind"] == "alloc" and f.get("min", 1) > 1:
                f["min"] = 1
                n = 1
            if n == 0:
                del plan["faults"][k]
                continue
            u, v = f.pop("u"), f.pop("site", None)
            if f.pop("linalg", None):
                # a solver that does not converge, where there is one
                at = [s for s, name in zip(sc, names) if name in LINALG]
                if at:
                    sites, f["exc"], v = at, "LinAlgError", v or 0.0
            if v is None or not sites:
                f["n"] = 1 + int(u * n)
            else:
                at = sites[int(u * len(sites))]
                f["n"] = at[int(v * len(at))]
    resolve_sched(plan, env)


def resolve_sched(plan, env):
    """Preemption points chosen by place in the code, not by step count."""
    s = plan.get("sched", {})
    if s.get("kind") not in ("site", "meet"):
        return
    pre = []
    seen = {}

    def places(t):
        """{place in the code: steps at which task t passes it when it is alone}"""
        if t not in seen:
            where = {}
            for n, site in enumerate(env.pristine(recorded(plan, t))["sites"].get(0, []), 1):
                where.setdefault(site, []).append(n)
            seen[t] = where
        return seen[t]

    if s["kind"] == "meet":
        n = len(plan["tasks"])
        t = int(s["u"][0] * n)
        u = (t + 1 + int(s["u"][1] * (n - 1))) % n if n > 1 else t
        a, b = places(t), places(u)
        both = [x for x in a if x in b] or list(a)
        if both and b:
            x = both[int(s["u"][2] * len(both))]
            there = b.get(x) or next(iter(b.values()))
            v = a[x][int(s["visit"] * len(a[x]))]
            w = there[int(s["visit"] * len(there))] + s["off"]
            pre = [[t, v], [u, w]] if u != t else [[t, v]]
            if s["again"]:
                pre.append([t, v + 1 + s["off"]])
    else:
        for ut, us, uo in s["pts"]:
            t = int(ut * len(plan["tasks"]))
            lists = list(places(t).values())
            if lists:
                at = lists[int(us * len(lists))]
                pre.append([t, at[int(uo * len(at))]])
    plan["sched"] = {"kind": "pre", "pre": pre, "seed": s["seed"]}


def recorded(plan, t):
    """One task alone in a fresh process, with the places it passes."""
    p = {"inputs": plan.get("inputs", {}), "tasks": [plan["tasks"][t]],
         "entropy": plan.get("entropy", 0), "record": True}
    if plan.get("setup"):
        p["setup"] = plan["setup"]
    if plan.get("fine"):
        p["fine"] = True
    return p


class Check:
    id = None
    level = "exploration"
    technique = "seeded deterministic simulation with fault injection"
    rule = ""
    note = ""
    runs = {"quick": 200, "thorough": 4000}
    assumptions = []
    real = ["pyotf (all modules)", "numpy", "scipy", "scikit-image", "matplotlib (Agg)",
            "CPython threads, copy, pickle, logging"]
    stub = ["memory allocator (numpy data handler)", "thread scheduler",
            "entropy (numpy.random.default_rng without seed)", "clocks (time module)",
            "git/subprocess"]

    def gen(self, rng):
        raise NotImplementedError

    def run(self, scn, env):
        raise NotImplementedError

    def nontrivial(self, scn, res):
        return True

    # -- minimisation
    def shrink(self, scn):
        """Smaller scenarios, most aggressive first."""
        plan = scn["plan"]

        def rebuilt(f):
            c = json.loads(json.dumps(scn))
            f(c["plan"])
            return c

        tasks = plan.get("tasks", [])
        for t in range(len(tasks)):
            if len(tasks) > 1:
                yield rebuilt(lambda p, t=t: drop_task(p, t))
        for name, ops in [("s", plan.get("setup", []))] + [(str(i), o) for i, o in enumerate(tasks)]:
            n = len(ops)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield rebuilt(lambda p, i=i, size=size: drop_ops(p, name, i, min(i + size, n)))
                size //= 2
        for k in list(plan.get("faults", {})):
            yield rebuilt(lambda p, k=k: p["faults"].pop(k))
        for k, f in plan.get("faults", {}).items():
            if f.get("sticky"):
                yield rebuilt(lambda p, k=k: p["faults"][k].pop("sticky"))
        sw = plan.get("sched", {}).get("switches", [])
        if sw:
            n = len(sw)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    yield rebuilt(lambda p, i=i, size=size: p["sched"].__setitem__(
                        "switches", sw[:i] + sw[i + size:]))
                size //= 2
        for k in ("fine", "clock", "dirt"):
            if plan.get(k):
                yield rebuilt(lambda p, k=k: p.pop(k))


def drop_task(p, t):
    p["tasks"].pop(t)
    f = {}
    for k, v in p.get("faults", {}).items():
        n, i = k.split(":")
        if n == "s":
            f[k] = v
        elif int(n) != t:
            f[f"{int(n) - (int(n) > t)}:{i}"] = v
    p["faults"] = f
    s = p.get("sched", {})
    if "switches" in s:
        ren = lambda x: x - (x > t)  # noqa: E731
        s["switches"] = [[ren(a), b, ren(c)] for a, b, c in s["switches"] if t not in (a, c)]
        s["order"] = [ren(x) for x in s.get("order", []) if x != t]


def drop_ops(p, name, i, j):
    if name == "s":
        del p["setup"][i:j]
    else:
        del p["tasks"][int(name)][i:j]
    f = {}
    for k, v in p.get("faults", {}).items():
        n, q = k.split(":")
        q = int(q)
        if n != name:
            f[k] = v
        elif q < i:
            f[k] = v
        elif q >= j:
            f[f"{n}:{q - (j - i)}"] = v
    p["faults"] = f


# ----------------------------------------------------------------------- reference states
def ref_model(cls, rep, pupil=None):
    """Reference outputs for the parameters a model reports."""
    if cls == "hanser":
        return refmodel.hanser(rep, rep["zrange"], pupil)
    return refmodel.sheppard(rep, bool(rep["dual"]))


def same_num(a, b):
    """Reported value equals the assigned one."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        a, b = np.asarray(a), np.asarray(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
        return a.shape == b.shape and bool((a == b).all())
    return a == b


def default_z(rep):
    return refmodel.default_zrange(rep["zsize"], rep["zres"])


def close_z(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or float(abs(a - b).max()) <= 1e-12 * scale)


__all__ = [n for n in dir() if not n.startswith("__")]
