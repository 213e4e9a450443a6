"""Checks on data ownership, process-wide state, memory and plots (C09-C11, C17, C18)."""

import gc
import json

from . import engine, gen, world
from .base import Bad, Check, Exc, drop_ops, np, plan_fault, resolve_faults, resolve_sched, same
from .props_diff import brief, label, perturb, pristine, rename, run_checked


def hand_made(p, rng):
    """Operations building a decomposition or a result from the caller's own arrays."""
    n, m = rng.randint(6, 10), rng.choice([3, 5, 15])
    R = lambda *shape, **k: dict({"$rand": rng.randint(0, 10 ** 6), "shape": list(shape)}, **k)  # noqa: E731
    if rng.random() < 0.5:
        to = p.name("z")
        ops = [{"op": "mkzd", "to": to, "args": [R(m), R(m), R(m, n, n)]},
               {"op": "zdget", "o": to, "meth": "phase", "args": [gen.rand_slice(rng)]},
               {"op": "zdget", "o": to, "meth": "complex_pupil", "args": [],
                "kw": {"smag": gen.rand_slice(rng), "sphase": gen.rand_slice(rng)}}]
    else:
        g = gen.ModelGen(rng, "hanser")
        mod, to = p.name("m"), p.name("r")
        k = rng.randint(2, 5)
        s = g.p["size"]
        ops = [{"op": "mk", "to": mod, "cls": "hanser", "kw": g.kw()},
               {"op": "mkresult", "to": to, "args": [
                   R(s, s, kind="uniform"), R(s, s), R(k, kind="uniform"), R(k, kind="uniform"),
                   R(k, kind="uniform"), {"$obj": mod}]},
               {"op": "fit", "o": to, "n": rng.choice([4, 9])},
               {"op": "gen", "o": to, "kw": {}}, {"op": "genzd", "o": to, "kw": {}}]
    for op in ops:
        p.add(p.fix(op))


class Watch:
    """The caller's data, compared with what it was."""

    def __init__(self, inputs):
        self.items = []
        for k, v in inputs.items():
            self.items.append((k, v, world.digest(v)))

    def changed(self):
        for k, v, d in self.items:
            if isinstance(v, np.ndarray):
                if (v.shape, v.dtype.str, v.strides, v.flags.writeable) != d[1:5] \
                        or v.tobytes() != d[5]:
                    yield k
            elif world.digest(v) != d:
                yield k


class C09(Check):
    id = "C09"
    runs = {"quick": 2000, "thorough": 40000}
    rule = ("a run calls operations whose array, list and mapping arguments all belong to the "
            "caller (some read-only, some shared by two threads, some calls failing) and compares "
            "every argument with its original content at every executed line of the package; "
            "non-trivial if at least one argument was watched during at least one call")

    def gen(self, rng):
        inputs = {}
        tasks, faults, sched = [], {}, {"kind": "seq"}
        p = gen.Prog(rng, inputs=inputs, ro=rng.choice([0, 0.3, 1.0]), plots=rng.random() < 0.15,
                     weights={"model": 5, "scope": 2, "result": 3, "fn": 7, "labview": 1.5},
                     iters=(1, 4), nmax=12)
        if rng.random() < 0.25:
            hand_made(p, rng)
        p.build(rng.randint(1, 6))
        tasks.append(p.ops)
        if rng.random() < 0.3:
            # another thread works with the same arguments
            names = {op[k].split(".")[0] for op in p.ops for k in ("o", "to") if k in op}
            tasks = [rename_all(p.ops, names, "a"), rename_all(p.ops, names, "b")]
            sched = gen.schedule(rng, 400)
            gen.private_figures(tasks)
        if rng.random() < 0.5:
            t = rng.randrange(len(tasks))
            for i in range(len(tasks[t])):
                if rng.random() < 0.35:
                    faults[f"{t}:{i}"] = plan_fault(rng)
        return {"plan": {"inputs": inputs, "tasks": tasks, "faults": faults, "sched": sched,
                         "fine": rng.random() < 0.15}}

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        st = {"watch": None, "ops": {}, "seen": set()}

        def look(where):
            w = st["watch"]
            for k in w.changed():
                if k not in st["seen"]:
                    st["seen"].add(k)
                    ops = sorted({label(o) for o in st["ops"].values()})
                    bad(f"changed:{','.join(ops)}", f"input {k} ({json.dumps(plan['inputs'][k])[:120]}"
                        f") was changed {where} {[brief(o) for o in st['ops'].values()]}")
            env.count("looks at the caller's data")

        def before(key, op, ex):
            if st["watch"] is None:
                st["watch"] = Watch(ex.w.inputs)
            t, i = key.split(":")
            st["ops"][t] = plan["tasks"][int(t)][int(i)] if t != "s" else plan["setup"][int(i)]

        def on_step(task):
            if st["watch"] is not None and st["ops"]:
                look("during")

        def on_op(key, op, out, raw, ex):
            if st["watch"] is None:
                return
            look("by the end of")
            st["ops"].pop(key.split(":")[0], None)

        ex, tr = run_checked(plan, bad, on_op=on_op, on_step=on_step, before_op=before)
        free = {k: ({a: b for a, b in v.items() if a != "ro"} if isinstance(v, dict) else v)
                for k, v in plan["inputs"].items()}
        for t, ops in enumerate(plan["tasks"]):
            if any(k.startswith(f"{t}:") for k in plan["faults"]):
                continue
            want = engine_pristine(env, free, ops)
            for i, op in enumerate(ops):
                if f"{t}:{i}" not in tr["outcomes"]:
                    continue
                env.count("results compared with writable private inputs")
                d = same(tr["outcomes"][f"{t}:{i}"], want[f"0:{i}"])
                if d:
                    bad(f"result:{label(op)}", f"{t}:{i} {brief(op)}: {d} (against writable "
                        "inputs of its own)")
                    break
        return bad.items, tr

    def nontrivial(self, scn, res):
        return bool(scn["plan"]["inputs"]) and res["stats"].get("looks at the caller's data", 0) > 1


def engine_pristine(env, inputs, ops):
    return env.pristine({"inputs": inputs, "tasks": [ops], "entropy": 0})["outcomes"]


def rename_all(ops, names, pre):
    ops = json.loads(json.dumps(ops))

    def ren(path):
        head, _, rest = path.partition(".")
        return (pre + head if head in names else head) + ("." + rest if rest else "")

    for op in ops:
        for k in ("o", "to"):
            if k in op:
                op[k] = ren(op[k])
        for v in op.get("args", []):
            if isinstance(v, dict) and "$obj" in v:
                v["$obj"] = ren(v["$obj"])
    return ops


# ----------------------------------------------------------------------- snapshots
def uses(op):
    """Names of the inputs an operation takes."""
    found = []

    def walk(v):
        if isinstance(v, dict):
            if "$in" in v:
                found.append(v["$in"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)

    for k in world.VALUE_FIELDS:
        if k in op:
            walk(op[k])
    return found


def substitute(v, table):
    if isinstance(v, dict):
        if "$in" in v:
            return {"$in": table.get(v["$in"], v["$in"])}
        return {k: substitute(x, table) for k, x in v.items()}
    if isinstance(v, list):
        return [substitute(x, table) for x in v]
    return v


# calls whose result belongs to the caller alone
RETURNS = ("fn", "gen", "genzd", "zdget", "labview")


class C10(Check):
    id = "C10"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("a run keeps every array it is handed through a seeded history of further operations "
            "(some failing) and lets the caller overwrite the arrays and lists it has passed in; "
            "kept arrays are compared with their first contents after every operation, results "
            "with a process in which nothing was overwritten; non-trivial if an array was kept "
            "through a later operation or an input was overwritten before one")

    def gen(self, rng):
        inputs = {}
        p = gen.Prog(rng, inputs=inputs, ro=0.1, iters=(1, 4), nmax=12, drops=0.05,
                     weights=rng.choice([{"model": 7, "scope": 2, "result": 3, "fn": 2},
                                         {"fn": 1}, {"result": 3, "fn": 3, "labview": 2}]))
        p.build(rng.randint(3, 9))
        ops = []
        for op in p.ops:
            ops.append(op)
            if rng.random() < 0.12 and op.get("op") in ("set", "get", "mk"):
                n = op.get("to") or op["o"]
                if "." not in n and p.objs.get(n, {}).get("cls") == "hanser":
                    ops.append({"op": "get", "o": n, "a": "zrange"})
            n = op.get("o", op.get("to"))
            if p.objs.get(n, {}).get("kind") == "result" and rng.random() < 0.12:
                # a result container is given another phase or magnitude, and keeps that array
                size = p.objs[n]["s"]["size"]
                ops.append({"op": "set", "o": n, "a": rng.choice(["phase", "phase", "mag"]), "v": {
                    "$rand": rng.randint(0, 99999), "shape": [size, size], "kind": "uniform"}})
                ops.append({"op": "get", "o": n, "a": "complex_pupil"})
        for n in rng.sample(list(p.objs), len(p.objs)):
            ops.append({"op": "probe", "o": n})
        # the caller overwrites what it passed in earlier
        out = []
        for i, op in enumerate(ops):
            out.append(op)
            for name in uses(op):
                later = any(name in uses(q) for q in ops[i + 1:])
                v = inputs[name]
                flexible = isinstance(v, dict) and ("$rand" in v or "$arr" in v)
                if rng.random() < 0.6 and (not later or (flexible and rng.random() < 0.5)):
                    out.append({"op": "scribble", "in": name, "seed": rng.randint(0, 10 ** 6)})
        if rng.random() < 0.4:
            out = self.reuse_results(rng, out)
        faults = {}
        if rng.random() < 0.3:
            for i, op in enumerate(out):
                if op["op"] not in ("scribble", "scribout") and rng.random() < 0.15:
                    faults[f"0:{i}"] = plan_fault(rng)
        return {"plan": {"inputs": inputs, "tasks": [out], "faults": faults, "track": True}}

    @staticmethod
    def reuse_results(rng, ops):
        """The caller works in place on arrays that calls returned to it, then calls again."""
        out = []
        for i, op in enumerate(ops):
            if op["op"] not in RETURNS or rng.random() < 0.3:
                out.append(op)
                continue
            op = dict(op, tag=f"t{i}")
            out.append(op)
            again = {k: v for k, v in op.items() if k != "tag"}
            if rng.random() < 0.3:
                out.append(again)
            out.append({"op": "scribout", "tag": op["tag"], "seed": rng.randint(0, 10 ** 6)})
            if rng.random() < 0.8:
                out.append(again)
        return out

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        gone = set()

        def on_op(key, op, out, raw, ex):
            kept = ex.w.kept
            if "tag" in op and op["op"] in RETURNS and not isinstance(out, Exc):
                ex.w.returned[op["tag"]] = raw, [op.get("args"), op.get("kw")]
            elif op["op"] == "scribout" and op["tag"] in ex.w.returned:
                env.count("results overwritten")
                # the array that was overwritten, and nothing else, may have changed
                own = next(q for q in tags if tags[q] == op["tag"]) + " "
                gone.update(n for n, k in enumerate(kept) if k[0].startswith(own))
            env.count("arrays kept", len(kept))
            for n, (lab, ref, cp, shape, dt) in enumerate(kept):
                if n in gone:
                    continue
                if ref.shape != shape or ref.dtype.str != dt or not _same_bits(ref, cp):
                    gone.add(n)
                    bad(f"kept:{lab.split(' ', 1)[1].split('[')[0]}>{label(op)}",
                        f"the array obtained at {lab} was changed by {key} {brief(plan_op(plan, key))}")

        tags = {f"0:{i}": op["tag"] for i, op in enumerate(plan["tasks"][0])
                if op["op"] in RETURNS and "tag" in op}
        ex, tr = run_checked(plan, bad, on_op=on_op)
        # the same program by a caller who never overwrites anything
        ops, faults, inputs, table, seeds, index = [], {}, dict(plan["inputs"]), {}, {}, []
        for i, op in enumerate(plan["tasks"][0]):
            if op["op"] == "scribout":
                continue
            if op["op"] == "scribble":
                n = op["in"]
                seeds.setdefault(n, []).append(op["seed"])
                table[n] = f"{n}~{len(seeds[n])}"
                inputs[table[n]] = {"$scrib": plan["inputs"][n], "seeds": list(seeds[n])}
                env.count("inputs overwritten")
                continue
            if f"0:{i}" in plan["faults"]:
                faults[f"0:{len(ops)}"] = plan["faults"][f"0:{i}"]
            ops.append({k: substitute(v, table) if k in world.VALUE_FIELDS else v
                        for k, v in op.items()})
            index.append(i)
        want = pristine(env, dict(plan, inputs=inputs), ops, faults=faults)["outcomes"]
        for j, i in enumerate(index):
            if f"0:{i}" not in tr["outcomes"]:
                continue
            d = same(tr["outcomes"][f"0:{i}"], want[f"0:{j}"])
            if d:
                op = plan["tasks"][0][i]
                bad(f"overwritten:{label(op)}", f"0:{i} {brief(op)}: {d} (against a caller who "
                    "never overwrites its arrays)")
                break
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("arrays kept", 0) > 1


def plan_op(plan, key):
    t, i = key.split(":")
    return (plan["setup"] if t == "s" else plan["tasks"][int(t)])[int(i)]


def _same_bits(a, b):
    if a.dtype == object:
        return True
    return a.tobytes() == b.tobytes()


# ----------------------------------------------------------------------- process-wide settings
def settings(rng):
    """The user's own settings before anything is computed."""
    op = {"op": "settings"}
    if rng.random() < 0.6:
        op["err"] = {k: rng.choice(["ignore", "warn", "ignore", "warn", "raise", "print", "log"])
                     for k in rng.sample(["divide", "over", "under", "invalid"], rng.randint(1, 4))}
        op["err"] = {k: "ignore" if v in ("print", "log") else v for k, v in op["err"].items()}
    if rng.random() < 0.3:
        op["errcall"] = True
    if rng.random() < 0.4:
        op["print"] = rng.choice([{"precision": 3}, {"suppress": True, "threshold": 5},
                                  {"linewidth": 40}])
    if rng.random() < 0.5:
        op["warn"] = [{"action": rng.choice(["ignore", "error", "always", "once", "default"]),
                       "cat": rng.choice(["RuntimeWarning", "UserWarning", "DeprecationWarning"])}]
    if rng.random() < 0.6:
        op["seed"] = rng.randint(0, 10 ** 6)
    if rng.random() < 0.5:
        op["rc"] = rng.choice([{"image.cmap": "gray"}, {"font.size": 7.0}, {"figure.dpi": 50.0},
                               {"image.interpolation": "bilinear"}, {"axes.grid": True},
                               {"figure.figsize": [3.0, 2.0]}])
    if rng.random() < 0.4:
        op["log"] = {"name": rng.choice(["", "pyotf", "pyotf.otf", "matplotlib"]),
                     "level": rng.choice([10, 20, 40])}
    if rng.random() < 0.1:
        op["disable"] = 20
    if rng.random() < 0.4:
        op["figs"] = rng.sample([91, 92, 93], rng.randint(1, 3))
    if rng.random() < 0.2:
        op["env"] = {"PYOTF_DST_USER": "1"}
    return op


class C11(Check):
    id = "C11"
    runs = {"quick": 1800, "thorough": 36000}
    rule = ("a run gives the process seeded settings, then executes a seeded program with seeded "
            "failures and compares all process-wide settings before and after every operation "
            "(and, with several threads, before and after the whole); non-trivial if at least one "
            "operation was compared")
    THREAD = ("np.geterr", "np.geterrcall", "np.bufsize")

    def gen(self, rng):
        inputs = {}
        w = rng.choice([{"model": 6, "scope": 2, "result": 3, "fn": 4, "labview": 1},
                        {"result": 6, "labview": 1}, {"model": 6, "scope": 2}])
        tasks, faults, sched = [], {}, {"kind": "seq"}
        pre = settings(rng)
        n = 1 if rng.random() < 0.65 else rng.choice([2, 2, 3])
        twin = n > 1 and rng.random() < 0.6
        for t in range(n):
            if twin and t == 1:
                tasks.append(rename(tasks[0], "a", "b"))
                continue
            p = gen.Prog(rng, pre="abc"[t], weights=w, plots=True, iters=(1, 4), nmax=12)
            p.add(dict(pre))
            p.build(rng.randint(1, 6 if n == 1 else 3))
            if n > 1:
                for x in list(p.objs)[:2]:
                    p.add({"op": "probe", "o": x})
            extra = self.plots(rng, p)
            for op in extra:
                p.add(op)
            tasks.append(p.ops)
            for i, op in enumerate(p.ops):
                if i and rng.random() < 0.35:
                    faults[f"{t}:{i}"] = plan_fault(rng)
        if len(tasks) > 1:
            sched = gen.schedule(rng, 400)
            for ops in tasks:
                ops[:] = [op for op in ops if op["op"] != "plot"
                          and not op.get("f", "").endswith("_plot")]
            faults = {k: f for k, f in faults.items()
                      if int(k.split(":")[1]) < len(tasks[int(k.split(":")[0])])}
        scn = {"plan": {"inputs": inputs, "tasks": tasks, "faults": faults, "sched": sched}}
        if len(tasks) > 1:
            scn["more"] = [gen.schedule(rng, 400) for _ in range(5)]
        return scn

    def plots(self, rng, p):
        """Plots, mostly into figures the caller supplies."""
        out = []
        for n in rng.sample(list(p.objs), min(2, len(p.objs))):
            o = p.objs[n]
            if rng.random() < 0.4:
                continue
            if o["kind"] == "result":
                q = {"op": "plot", "o": n, "meth": "plot"}
                if o["fit"] and rng.random() < 0.4:
                    q["o"] += ".zd_result"
            else:
                q = {"op": "plot", "o": n, "meth": rng.choice(["plot_psf", "plot_otf"])}
                gen.plot_kw(rng, q)
            q["fig"] = "supplied" if rng.random() < 0.8 else None
            q["pyplot"] = rng.random() < 0.7
            q["other"] = rng.random() < 0.6
            out.append(q)
        return out

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        multi = len(plan["tasks"]) > 1
        st = {}
        figs = ("figures", "current figure")
        for d in engine.IMPORT_DIFF:
            if not d.startswith("logging: pyotf"):
                bad("import", f"importing the package changed {d}")

        def before(key, op, ex):
            if op["op"] != "settings":
                st[key] = world.ambient()

        def on_op(key, op, out, raw, ex):
            if key not in st:
                return
            a, b = st.pop(key), world.ambient()
            env.count("operations compared")
            ignore = set()
            if op["op"] == "plot" or op.get("f", "").endswith("_plot"):
                ignore |= set(figs)
                f0, f1 = ex.figures[key]
                if op.get("fig") == "supplied" and f0 != f1:
                    bad(f"figures:{label(op)}", f"{key} {brief(plan_op(plan, key))}: figures and "
                        f"current figure went from {f0} to {f1} ({out!r:.60})")
                env.count("plots into supplied figures" if op.get("fig") == "supplied"
                          else "plots into new figures")
            if multi:
                # other threads are in the middle of something: only this thread's settings
                ignore |= set(a) - set(self.THREAD)
            for d in world.diff_ambient(a, b, ignore):
                bad(f"{d.split(':')[0]}:{label(op)}", f"{key} {brief(plan_op(plan, key))} "
                    f"({ex.fired.get(key, 'no failure')}, {out!r:.60}): {d}")

        ex, tr = run_checked(dict(plan, ambient=multi), bad, on_op=on_op, before_op=before)
        for n in range(len(scn.get("more", [])) + 1 if multi else 0):
            if n:
                # the same threads under another schedule
                p = dict(plan, sched=scn["more"][n - 1], ambient=True)
                resolve_sched(p, env)
                tr = env.pristine(p)
                env.count("further schedules")
                if tr["failure"]:
                    bad(*tr["failure"])
                    continue
            for d in world.diff_ambient(*tr["ambient"], self.THREAD + figs):
                bad(f"{d.split(':')[0]}:threads", f"after all threads finished: {d}")
            if bad:
                if n:
                    plan["sched"] = p["sched"]
                scn["more"] = []
                break
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("operations compared", 0) > 0


# ----------------------------------------------------------------------- memory
class C17(Check):
    id = "C17"
    runs = {"quick": 700, "thorough": 14000}
    rule = ("a run repeats a seeded workload (with changing values and seeded failures) 24 times, "
            "partly on objects that live through all repetitions, and reads the exact number of "
            "array bytes held from the simulated allocator after each repetition and after "
            "everything was dropped; non-trivial if at least one repetition computed something")
    CYCLES = 24

    def gen(self, rng):
        p = gen.Prog(rng, iters=(1, 4), nmax=12, long=False, parts=True, weights=rng.choice([
            {"model": 6, "scope": 2, "result": 3, "fn": 4, "labview": 1}, {"model": 1},
            {"scope": 1}, {"result": 3, "labview": 1}, {"fn": 1}]))
        keep = []
        if rng.random() < 0.6:
            p.build(rng.randint(1, 3))
            keep = list(p.objs)
        setup, p.ops = p.ops, []
        p.build(rng.randint(1, 6))
        base = [op for op in p.ops if op["op"] != "set" or op["a"] not in ("size", "zsize")]
        new = [n for n in p.objs if n not in keep]
        if keep and rng.random() < 0.7:
            x = rng.choice(keep)
            base.append({"op": "probe", "o": x})
        u = {i: plan_fault(rng) for i in range(len(base)) if rng.random() < 0.25}
        return {"plan": {"setup": setup, "tasks": [], "discard": True, "faults": {}},
                "base": base, "new": new, "keep": keep, "u": sorted(u.items()),
                "threads": rng.random() < 0.3, "vary": rng.randint(0, 10 ** 6),
                "cycles": self.CYCLES}

    def build(self, scn):
        """The repetitions as one plan; marks are the 'gc' operations."""
        rng = gen.rng_for("vary", scn["vary"])
        mark = {"op": "gc"}
        tasks, faults = [], {}
        ops = []
        for c in range(scn["cycles"]):
            if scn["threads"] or not tasks:
                ops = []
                tasks.append(ops)
            body = self.change(rng, json.loads(json.dumps(scn["base"])))
            for i, f in scn["u"]:
                if i < len(body):
                    faults[f"{len(tasks) - 1}:{len(ops) + i}"] = dict(f)
            ops += body
            ops += [{"op": "del", "o": n} for n in scn["new"]] + [mark]
        tasks[-1] += [{"op": "del", "o": n} for n in scn["keep"]] + [mark]
        # the tasks run one after the other
        return dict(scn["plan"], tasks=tasks, faults=faults,
                    sched={"kind": "explicit", "order": list(range(len(tasks))), "switches": []})

    def change(self, rng, ops):
        perturb(rng, ops)
        for op in ops:
            kw = op.get("kw", {})
            if op["op"] == "mk" and "wl" in kw:
                kw["wl"] *= 1 + rng.choice([0, 1e-6, 1e-3, 1e-2]) * rng.random()
            if op["op"] == "retrieve" and "$psf" in op["data"]:
                op["data"]["$psf"]["seed"] = rng.randint(0, 10 ** 6)
            if op["op"] in ("gen", "genzd", "zdget", "set", "nameds", "fn"):
                f = 1 + rng.choice([0, 1e-6, 1e-3, 0.1]) * rng.random()
                for k in ("kw", "v", "args"):
                    if k in op and not (op["op"] == "set" and not isinstance(op[k], dict)):
                        op[k] = self.vary(rng, op[k], f)
        return ops

    def vary(self, rng, v, f):
        """Other numbers and other slices of the same kind."""
        if isinstance(v, dict):
            if "$s" in v:
                return gen.rand_slice(rng)
            if "$rand" in v:
                return v
            return {k: self.vary(rng, x, f) for k, x in v.items()}
        if isinstance(v, list):
            return [self.vary(rng, x, f) for x in v]
        return v * f if isinstance(v, float) else v

    def run(self, scn, env):
        plan, bad = self.build(scn), Bad()
        resolve_faults(plan, env)
        live = []
        first = []

        def before(key, op, ex):
            if not first:
                gc.collect()
                first.append(engine.ALLOC.live_bytes())

        def on_op(key, op, out, raw, ex):
            if op["op"] == "gc":
                gc.collect()
                live.append(engine.ALLOC.live_bytes() - first[0])

        ex, tr = run_checked(plan, bad, on_op=on_op, before_op=before)
        if len(live) != scn["cycles"] + 1:
            raise RuntimeError(f"{len(live)} marks")
        env.count("repetitions", scn["cycles"])
        cyc, end = live[:-1], live[-1]
        # a leak raises both the least and the most that is held, from part to part
        q = (len(cyc) - 3) // 3
        parts = [cyc[3 + i * q:3 + (i + 1) * q] for i in range(3)]
        if all(min(b) > min(a) + 16 and max(b) > max(a) + 16 for a, b in zip(parts, parts[1:])):
            bad("growth", f"array bytes held after each repetition: {cyc}")
        if end > 8192:
            bad("release", f"{end} array bytes still held after everything was dropped "
                f"(after the repetitions: {cyc[:3]} ... {cyc[-3:]})")
        return bad.items, tr

    def nontrivial(self, scn, res):
        return bool(scn["base"])

    def shrink(self, scn):
        def dup():
            return json.loads(json.dumps(scn))

        for i in range(len(scn["base"])):
            c = dup()
            del c["base"][i]
            c["u"] = [[j - (j > i), f] for j, f in c["u"] if j != i]
            yield c
        for i in range(len(scn["plan"]["setup"])):
            c = dup()
            drop_ops(c["plan"], "s", i, i + 1)
            yield c
        for i in range(len(scn["u"])):
            c = dup()
            del c["u"][i]
            yield c
        if scn["threads"]:
            yield dict(dup(), threads=False)


# ----------------------------------------------------------------------- plots
def uniform(z):
    """True / False / None (too close to call): are the positions evenly spaced?"""
    z = np.atleast_1d(np.asarray(z, float))
    if z.ndim != 1 or z.size < 3:
        return False
    d = np.diff(z)
    mean = d.mean()
    err = float(abs(d - mean).max())
    size = float(abs(d).max())
    if size == 0:
        return None
    if err <= 1e-7 * abs(mean):
        return True
    if err >= 1e-3 * abs(mean):
        return False
    return None


class C18(Check):
    id = "C18"
    runs = {"quick": 600, "thorough": 12000}
    rule = ("a run plots models, microscopes, results and decompositions at seeded points of a "
            "seeded history with failing reads and plots; refusals are compared with the reported "
            "z positions, pictures with the object's outputs and with a process in which only the "
            "completed changes were made; non-trivial if at least one plot was compared")

    def gen(self, rng):
        kind = gen.pick(rng, {"hanser": 6, "sheppard": 1, "scope": 2, "result": 3})
        p = gen.Prog(rng, iters=(1, 4), nmax=12, weights={"model": 1})
        x = p.create(kind)
        o = p.objs[x]
        if kind == "hanser" and rng.random() < 0.5:
            g = gen.ModelGen(rng, "hanser")
            scale = rng.choice([1.0, 1.0, 1e-6, 1e-9]) / g.units
            for k in ("wl", "res", "zres"):
                g.p[k] *= scale
            g.units *= scale
            o["g"] = g
            p.ops[0]["kw"] = g.kw()
            if rng.random() < 0.4:
                # so few axial pixels are of interest that the pictures are cropped
                g.zmax = 12
                g.p["zres"] = g.p["wl"] * rng.uniform(2, 12)
                g.p["zsize"] = rng.randint(3, 12)
                g.new_zres = lambda: g.p["wl"] * rng.uniform(2, 12)
                p.ops[0]["kw"] = g.kw()
        step = {"model": p.model_step, "scope": p.scope_step, "result": p.result_step}[o["kind"]]
        faults = {}
        for _ in range(rng.randint(2, 7)):
            k = rng.random()
            if k < 0.45:
                if kind == "hanser" and k < 0.25:
                    p.add({"op": "set", "o": x, "a": "zrange", "v": self.zrange(rng, o["g"])})
                else:
                    step(x)
                op = p.ops[-1]
                if op["op"] in ("get", "gen") and rng.random() < 0.3:
                    faults[f"0:{len(p.ops) - 1}"] = plan_fault(rng)
            else:
                q = self.plot(rng, x, o)
                p.add(q)
                if rng.random() < 0.3:
                    faults[f"0:{len(p.ops) - 1}"] = plan_fault(rng)
                    if rng.random() < 0.5:
                        p.add(q)
        p.add(self.plot(rng, x, o))
        p.add({"op": "probe", "o": x})
        return {"plan": {"tasks": [p.ops], "faults": faults}, "x": x}

    @staticmethod
    def zrange(rng, g):
        n = rng.choice([1, 2, 3, 3, 4, 5] + [g.p["zsize"]] * 3)
        step = g.p["wl"] * rng.choice([0.02, 0.3, 0.7]) * rng.choice([1, 1, -1])
        z0 = g.p["wl"] * rng.choice([0, -1, 1, 50])
        if rng.random() < 0.4:
            z0 = -step * rng.randrange(n)
        z = [z0 + i * step for i in range(n)]
        k = rng.random()
        if k < 0.4 and n >= 3:
            i = rng.randrange(n)
            z[i] += step * rng.choice([0.5, 0.1, 0.01, -0.1])
        elif k < 0.5:
            z = z[::-1]
        elif k < 0.6:
            rng.shuffle(z)
        return {"$arr": z}

    @staticmethod
    def plot(rng, x, o):
        if o["kind"] == "result":
            if o["fit"] and rng.random() < 0.5:
                q = {"op": "plot", "o": x + ".zd_result",
                     "meth": rng.choice(["plot", "plot_coefs"] + ["plot_named_coefs"]
                                        * (o["fit"] >= 15))}
                if q["meth"] == "plot" and rng.random() < 0.5:
                    q["kw"] = {"smag": gen.rand_slice(rng), "sphase": gen.rand_slice(rng)}
            else:
                q = {"op": "plot", "o": x, "meth": rng.choice(["plot", "plot_convergence"])}
        else:
            q = {"op": "plot", "o": x, "meth": rng.choice(["plot_psf", "plot_psf", "plot_otf"])}
            gen.plot_kw(rng, q)
        if rng.random() < 0.25 and q["meth"] in ("plot", "plot_psf", "plot_otf"):
            q["fig"] = "supplied"
        return q

    def run(self, scn, env):
        plan, bad, x = scn["plan"], Bad(), scn["x"]
        resolve_faults(plan, env)

        def on_op(key, op, out, raw, ex):
            if op["op"] != "plot":
                return
            hit = ex.fired.get(key)
            try:
                o = ex.w.resolve(op["o"])
            except (KeyError, AttributeError):
                return
            if op["meth"] in ("plot_psf", "plot_otf") and hasattr(o, "zrange"):
                u = uniform(o.zrange)
                if u is False:
                    env.count("plots that must be refused")
                    if not isinstance(out, Exc):
                        bad("not refused", f"{key}: {op['meth']} drawn although the z positions "
                            f"are {np.asarray(o.zrange).tolist()}")
                elif u and isinstance(out, Exc) and not hit:
                    bad("refused", f"{key}: {op['meth']} raised {out!r} although the z positions "
                        f"are {np.asarray(o.zrange).tolist()}")
            if isinstance(out, Exc):
                return
            env.count("pictures compared")
            self.picture(bad, key, op, out, o)

        ex, tr = run_checked(plan, bad, on_op=on_op)
        # only what was completed, and a plot or an examination
        ops = plan["tasks"][0]
        done = []
        for i, op in enumerate(ops):
            key = f"0:{i}"
            if key not in tr["outcomes"]:
                break
            got = tr["outcomes"][key]
            if op["op"] == "plot" or (op["op"] == "probe" and i == len(ops) - 1):
                if key in tr["fired"] and isinstance(got, Exc):
                    env.count("plots that failed by injection")
                    continue
                want = pristine(env, plan, [ops[j] for j in done] + [op])
                d = same(got, want["outcomes"][f"0:{len(done)}"])
                env.count("compared with a fresh history")
                if d:
                    bad(f"fresh:{label(op)}", f"{key} {brief(op)}: {d} (against a fresh object "
                        "with the completed changes only)")
            elif op["op"] in ("mk", "set", "pupil", "fit", "retrieve", "aberr", "named", "nameds",
                              "copy") and not isinstance(got, Exc):
                done.append(i)
        return bad.items, tr

    @staticmethod
    def picture(bad, key, op, out, o):
        """The drawn data against the object's own outputs."""
        kind = world.kind_of(o)
        m, kw = op["meth"], op.get("kw", {})

        def check(name, got, want):
            # matplotlib masks all that is not finite
            d = same(np.asarray(got), np.where(np.isfinite(want), want, np.nan), 1e-9)
            if d:
                bad(f"picture:{kind}:{m}", f"{key}: {name} drawn {d}")

        if kind in ("result", "zd") and m == "plot":
            if kind == "result":
                mag, phase = o.mag, o.phase
            else:
                mag = o.mag(kw.get("smag", slice(None)))
                phase = o.phase(kw.get("sphase", slice(None)))
            check("phase", out[0]["images"][0], np.where(mag == 0, np.nan, phase))
            check("magnitude", out[1]["images"][0], mag)
        elif m == "plot_convergence":
            for i, a in enumerate(("mse", "mse_diff", "pupil_diff")):
                check(a, out[i]["lines"][0], getattr(o, a))
        elif m == "plot_coefs":
            check("mcoefs", out[0]["bars"], o.mcoefs)
            check("pcoefs", out[1]["bars"], o.pcoefs)
        elif m == "plot_named_coefs":
            check("pcoefs", out[0]["bars"], o.pcoefs[4:15])
        elif m == "plot_psf":
            psf = np.array(o.PSFi if kind == "model" else o.PSF)
            nz, ny, nx = psf.shape
            want = [psf.max(2), psf.max(1).T, psf.max(0)] if kw.get("mip", True) else \
                [psf[:, :, nx // 2], psf[:, ny // 2].T, psf[nz // 2]]
            ims = [d["images"][0] for d in out if isinstance(d, dict) and d["images"]]
            # pictures cropped around the maximum are compared with a fresh object's only
            if [g.shape for g in ims] == [w.shape for w in want]:
                for got, w in zip(ims, want):
                    check("picture", got, w)
        elif m == "plot_otf":
            otf = np.array(o.OTFi if kind == "model" else o.OTF)
            if not 0 < abs(otf).max() < np.inf:
                return
            otf = abs(otf) / abs(otf).max()
            nz, ny, nx = otf.shape
            want = [otf[:, :, nx // 2], otf[:, ny // 2, :].T, otf[nz // 2]]
            ims = [d["images"][0] for d in out if isinstance(d, dict) and d["images"]]
            for got, w in zip(ims, want):
                if got.shape == w.shape:
                    # tiny values are replaced by a floor
                    check("section", np.where(w < 1e-12, 0, got), np.where(w < 1e-12, 0, w))

