"""Checks that compare an execution with pristine executions of parts of its history."""

import copy
import json
import random

from . import gen, refmodel, world
from .base import (Bad, Check, Exc, Executor, TOL_REF, np, plan_fault, recorded, resolve_faults,
                   resolve_sched, same, same_num)

DERIVE = ("aberr", "named", "nameds", "copy", "mk", "retrieve", "mkzd", "mkresult")


def run_checked(plan, bad, **kw):
    """Execute; scheduling failures become violations."""
    ex = Executor(plan, **kw)
    tr = ex.run()
    f = tr["failure"]
    if f:
        if f[0] == "harness":
            raise RuntimeError(f[1])
        bad(f[0], f[1])
    return ex, tr


def pristine(env, plan, ops, setup=None, **kw):
    p = {"inputs": plan.get("inputs", {}), "tasks": [ops], "entropy": plan.get("entropy", 0)}
    if setup:
        p["setup"] = setup
    p.update(kw)
    return env.pristine(p)


def flat(plan):
    """[(key, op)] in program order: setup, then each task."""
    out = [(f"s:{i}", op) for i, op in enumerate(plan.get("setup", []))]
    for t, ops in enumerate(plan.get("tasks", [])):
        out += [(f"{t}:{i}", op) for i, op in enumerate(ops)]
    return out


def owner(op):
    """The object an operation works on; parts of a result belong to the result."""
    o = op.get("o", "")
    return o[: -len(".zd_result")] if o.endswith(".zd_result") else o


def lineage(items, name):
    """Indices of the operations that may influence object `name`, given independence."""
    root = name.split(".")[0]
    born = next((i for i, (_, op) in enumerate(items) if op.get("to") == root), None)
    if born is None:
        return []
    keep = {born}
    src = owner(items[born][1])
    if src:
        keep |= set(lineage(items[:born], src))
    for i in range(born + 1, len(items)):
        op = items[i][1]
        if owner(op) == name and not ("to" in op and op["op"] in DERIVE):
            keep.add(i)
    return sorted(keep)


class C04(Check):
    id = "C04"
    runs = {"quick": 2400, "thorough": 48000}
    rule = ("a run derives objects (aberrations, copies, excitation models, generated PSFs) from "
            "models, microscopes and retrieval results and then works on both sides in any order, "
            "in one thread or several; non-trivial if an object was used after another one derived "
            "from it (or its source) had been changed")

    def gen(self, rng):
        if rng.random() < 0.15:
            return self.gen_confocal(rng)
        kind = gen.pick(rng, {"hanser": 6, "sheppard": 1, "scope": 2, "result": 3})
        p = gen.Prog(rng)
        p.create(kind)
        root = p.objs[next(iter(p.objs))]["kind"]
        step = {"model": p.model_step, "scope": p.scope_step, "result": p.result_step}[root]
        for _ in range(rng.randint(1, 5)):
            step(rng.choice(list(p.objs)))
        if kind == "result" and rng.random() < 0.6:
            return self.gen_result(rng, p)
        while len(p.objs) < 2:
            n = rng.choice(list(p.objs))
            o = p.objs[n]
            if kind == "hanser" and rng.random() < 0.7:
                to = p.name("m")
                p.add(o["g"].aberr(n, to))
            else:
                to = p.name("d")
                p.add({"op": "copy", "o": n, "to": to,
                       "how": rng.choice(["copy", "copy", "deepcopy", "pickle"])})
            p.objs[to] = dict(o, **({"g": o["g"].clone()} if "g" in o else {}))
        faults = {}
        if rng.random() < 0.35:
            setup, p.ops = p.ops, []
            tasks = []
            for n in list(p.objs)[-3:]:
                for _ in range(rng.randint(1, 4)):
                    step(n)
                ops, p.ops = p.ops, []
                tasks.append([op for op in ops if op.get("o") == n or op.get("to") != op.get("o")]
                             + [{"op": "probe", "o": n}])
            plan = {"setup": setup, "tasks": tasks, "sched": gen.schedule(rng)}
            for key, op in flat(plan):
                if "to" in op and op["op"] in DERIVE and "o" in op and key[0] != "s" \
                        and rng.random() < 0.3:
                    faults[key] = plan_fault(rng)
        else:
            for _ in range(rng.randint(2, 9)):
                step(rng.choice(list(p.objs)))
            ops = p.ops + [{"op": "probe", "o": n} for n in rng.sample(list(p.objs), len(p.objs))]
            plan = {"tasks": [ops]}
            for key, op in flat(plan):
                if "to" in op and op["op"] in DERIVE and "o" in op and rng.random() < 0.12:
                    faults[key] = plan_fault(rng)
        plan["faults"] = faults
        return {"plan": plan}

    def gen_result(self, rng, p):
        """PSFs generated from a result, and its model and decomposition, which are read only."""
        names = [n for n, o in p.objs.items() if o["kind"] == "result"]
        faults = {}
        for _ in range(rng.randint(2, 7)):
            n = rng.choice(names)
            k = rng.random()
            if k < 0.45:
                p.result_step(n)
                if p.ops[-1]["op"] in ("gen", "genzd", "fit") and rng.random() < 0.2:
                    faults[f"0:{len(p.ops) - 1}"] = plan_fault(rng)
            elif k < 0.85:
                p.add({"op": "get", "o": n + ".model", "a": rng.choice(gen.OUT + ["zrange"])})
            else:
                p.add({"op": "params", "o": n + ".model"})
        end = [{"op": "probe", "o": m} for n in names for m in (n, n + ".model")]
        return {"plan": {"tasks": [p.ops + rng.sample(end, len(end))], "faults": faults}}

    def gen_confocal(self, rng):
        g = gen.ScopeGen(rng, rng.choice(["confocal", "confocal", "sim2d", "widefield"]))
        ops = [g.op("s")]
        h = g.model == "hanser"
        models = ["s.model", "s.model_exc"] if g.kind == "confocal" else ["s.model"]
        for _ in range(rng.randint(2, 9)):
            n = rng.choice(models)
            k = rng.random()
            if k < 0.25:
                # not compared here: only what it does to the models
                q = gen.pick(rng, {"PSF": 4, "OTF": 4, "model_psf": 1, "repr": 1, "plot": 2})
                ops.append({"op": "repr", "o": "s", "noise": 1} if q == "repr" else
                           {"op": "plot", "o": "s", "meth": "plot_otf", "noise": 1} if q == "plot"
                           else {"op": "get", "o": "s", "a": q, "noise": 1})
            elif k < 0.5:
                ops.append({"op": "get", "o": n, "a": rng.choice(gen.OUT)})
            elif k < 0.65 and h:
                ops.append({"op": "pupil", "o": n, "v": {
                    "$rand": rng.randint(0, 99999), "kind": "complex",
                    "shape": [g.s["size"] * g.s["oversample_factor"]] * 2}})
            else:
                a = rng.choice(["vec_corr", "condition", "zsize", "wl", "ni"])
                v = {"vec_corr": rng.choice(gen.VEC), "condition": rng.choice(gen.COND),
                     "zsize": rng.randint(10, 13), "wl": g.s["wl"] * rng.uniform(0.95, 1.05),
                     "ni": g.s["ni"] * rng.uniform(1.0, 1.03)}[a]
                ops.append({"op": "set", "o": n, "a": a, "v": v})
        for n in rng.sample(models, len(models)):
            ops.append({"op": "probe", "o": n})
        return {"plan": {"tasks": [ops], "faults": {}}}

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)

        def on_op(key, op, out, raw, ex):
            if op["op"] not in ("aberr", "named", "nameds") or isinstance(out, Exc):
                return
            m, p = op.get("m"), op.get("p")
            if op["op"] == "aberr" and m is None and p is None:
                return
            if op["op"] != "aberr":
                p = [0.0] * len(refmodel.NAMES)
                for n, v in ([(op["name"], op["mag"])] if op["op"] == "named"
                             else op["v"].items()):
                    p[refmodel.NAMES.index(n)] = v
            rep = world.model_params(ex.w.objs[op["o"]])
            want = refmodel.hanser(rep, rep["zrange"], refmodel.aberrated_pupil(rep, m, p))
            # look at a private copy so that the object's own history is not touched
            got = copy.deepcopy(raw).PSFa
            d = same(got, want["PSFa"], TOL_REF)
            env.count("aberrations compared with the reference")
            if d:
                bad("aberration", f"{key}: aberrated PSFa {d}")
            for a, v in world.model_params(raw).items():
                if not same_num(v, rep[a]):
                    bad(f"derived:{a}", f"{key}: derived model has {a}={v!r}, source {rep[a]!r}")

        ex, tr = run_checked(plan, bad, on_op=on_op)
        # an operation that was made to fail did not happen; whether the same fault would be
        # met in the history of one object alone depends on what had been computed before it
        items = [(k, op) for k, op in flat(plan)
                 if not (k in tr["fired"] and isinstance(tr["outcomes"].get(k), Exc))]
        names = {op.get("to") for _, op in items if "to" in op}
        names |= {owner(op) for _, op in items if "o" in op}
        for name in sorted(names):
            keep = lineage(items, name)
            own = [i for i in keep if (owner(items[i][1]) == name or items[i][1].get("to") == name)
                   and not items[i][1].get("noise")]
            if not own:
                continue
            ops = [items[i][1] for i in keep]
            want = pristine(env, plan, ops)
            if len(keep) < len(items):
                env.count("objects compared with their own history alone")
            for j, i in enumerate(keep):
                key, op = items[i]
                if i not in own or key not in tr["outcomes"]:
                    continue
                d = same(tr["outcomes"][key], want["outcomes"][f"0:{j}"])
                if d:
                    bad(f"{op['op']}", f"{key} {brief(op)}: {d} (compared with the history of "
                        f"{name} alone)")
        return bad.items, tr

    def nontrivial(self, scn, res):
        items = flat(scn["plan"])
        changed = [i for i, (_, op) in enumerate(items) if op["op"] in ("set", "pupil", "fit")]
        return bool(changed) and res["stats"].get("objects compared with their own history alone",
                                                  0) > 1


def brief(op):
    s = json.dumps({k: v for k, v in op.items() if k not in ("kw",)}, default=str)
    return s if len(s) < 160 else s[:157] + "..."


# ----------------------------------------------------------------------- single failing operation
def victim(p, rng):
    """Append one operation of a kind in which a failure matters; returns its index."""
    n0 = len(p.ops)
    for _ in range(30):
        before = len(p.ops)
        p.step()
        op = p.ops[-1]
        if op["op"] in ("repr", "params"):
            del p.ops[before:]
            continue
        break
    return len(p.ops) - 1 if len(p.ops) > n0 else None


class C05(Check):
    id = "C05"
    runs = {"quick": 2200, "thorough": 44000}
    rule = ("a run is a seeded history ending in an operation that is made to fail at a seeded "
            "allocation or kernel call, after which all objects are examined, the operation is "
            "retried and all objects are examined again; non-trivial if the failure was delivered")
    level = "fault_enumeration"

    @staticmethod
    def rework(p, rng):
        """Something that exists already is made anew, and that fails."""
        kind = rng.choice(["result", "result", "hanser", "scope", "scope"])
        x = p.create(kind)
        o = p.objs[x]
        if kind == "result":
            a, b = rng.sample([1, 4, 9, 15, 21], 2)
            ops = [{"op": "fit", "o": x, "n": a}, {"op": "fit", "o": x, "n": rng.choice([a, b])}]
            if rng.random() < 0.3:
                ops[1] = {"op": "genzd", "o": x, "kw": gen.gen_kw(rng, o["s"])}
        elif kind == "hanser":
            ops = [{"op": "pupil", "o": x, "v": o["g"].pupil()}]
            ops += [{"op": "get", "o": x, "a": a} for a in rng.sample(gen.OUT, rng.randint(0, 3))]
            k = rng.random()
            if k < 0.5:
                ops.append({"op": "pupil", "o": x, "v": o["g"].pupil()})
            elif k < 0.8:
                ops.append({"op": "set", "o": x, "a": "zrange", "v": o["g"].new_zrange()})
            else:
                ops.append(o["g"].aberr(x, p.name("m")))
        else:
            ops = [{"op": "get", "o": x, "a": rng.choice(["PSF", "PSF", "OTF"])}]
            own = [a for a in o["g"].adjustable() if a != "oversample_factor"]
            a, v = o["g"].change(rng.choice(own) if own and rng.random() < 0.7 else None)
            ops.append({"op": "set", "o": x, "a": a, "v": v})
            if rng.random() < 0.5:
                ops.append({"op": "get", "o": x, "a": rng.choice(["PSF", "OTF"])})
        p.add(*ops)
        return len(p.ops) - 1

    def gen(self, rng):
        p = gen.Prog(rng, weights={"model": 7, "scope": 2, "result": 3})
        if rng.random() < 0.3:
            i = self.rework(p, rng)
        else:
            p.build(rng.randint(1, 6))
            i = victim(p, rng)
        op = p.ops[i]
        setup = p.ops[:i]
        objs = sorted({q["to"] for q in setup if "to" in q and q["op"] != "fit"} |
                      ({op["to"]} if "to" in op else set()))
        probes = [{"op": "probe", "o": n, "order": rng.sample(gen.OUT + ["PSF", "OTF"], 6)}
                  for n in objs]
        f = plan_fault(rng)
        plan = {"setup": setup, "tasks": [[op] + probes + [op] + probes], "faults": {"0:0": f}}
        if rng.random() < 0.25:
            # a second failure during the retry, then another retry
            plan["tasks"] = [[op] + [op] + probes + [op] + probes]
            plan["faults"]["0:1"] = plan_fault(rng)
        return {"plan": plan, "attempts": len(plan["faults"])}

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        ex, tr = run_checked(plan, bad)
        ops = plan["tasks"][0]
        if not ops:
            return bad.items, tr
        o, fired = tr["outcomes"], [k for k in plan["faults"] if k in tr["fired"]]
        op = ops[0]
        nf = scn["attempts"]
        # outcomes as recorded after the (one or two) faulted attempts
        rest = ops[nf:]
        if not fired:
            return bad.items, tr
        env.count("failures delivered", len(fired))
        clean = pristine(env, plan, [op], plan.get("setup"))["outcomes"]["0:0"]
        if isinstance(clean, Exc):
            env.count("operation fails anyway")
        alts = []
        for done in range(0, nf + 1):
            # `done` of the faulted attempts took full effect
            w = pristine(env, plan, [op] * done + rest, plan.get("setup"))["outcomes"]
            alts.append({f"0:{nf + i}": w[f"0:{done + i}"] for i in range(len(rest))})
        errs = []
        for done, w in enumerate(alts):
            d = None
            for i in range(len(rest)):
                key = f"0:{nf + i}"
                d = same(o[key], w[key])
                if d:
                    errs.append(f"not as with {done} completed: {key} {brief(ops[nf + i])}: {d}")
                    break
            if d is None:
                env.count(f"ended as {'after' if done else 'before'} the operation")
                break
        else:
            bad(f"mixture:{op['op']}:{op.get('a', op.get('meth', ''))}",
                f"{brief(op)} with {list(tr['fired'].values())} ({o['0:0']!r:.80}): "
                + "; ".join(errs))
        # a retry gives what the operation gives when nothing ever failed
        for i, q in enumerate(rest):
            if q is op or (q == op and q["op"] != "probe"):
                d = same(o[f"0:{nf + i}"], clean)
                if d:
                    bad(f"retry:{op['op']}", f"retrying {brief(op)} after "
                        f"{list(tr['fired'].values())}: {d}")
                break
        return bad.items, tr

    def nontrivial(self, scn, res):
        return bool(res["fired"])

    def shrink(self, scn):
        """Only the history may shrink; the failing operation and the examination stay."""
        n = len(scn["plan"]["setup"])
        for i in range(n):
            c = json.loads(json.dumps(scn))
            del c["plan"]["setup"][i]
            yield c
        t = scn["plan"]["tasks"][0]
        for i in range(len(t)):
            if t[i]["op"] == "probe":
                c = json.loads(json.dumps(scn))
                del c["plan"]["tasks"][0][i]
                yield c


AFRESH = {"fn", "gen", "genzd", "fit", "zdget", "labview", "aberr", "named", "nameds", "pupil",
          "plot"}


class C06(Check):
    id = "C06"
    runs = {"quick": 1800, "thorough": 36000}
    rule = ("a run executes a seeded history, then operations that are made to fail at a seeded "
            "allocation or kernel call, then the same operations and an examination of all objects "
            "without failures; non-trivial if at least one failure was delivered")
    level = "fault_enumeration"

    def gen(self, rng):
        if rng.random() < 0.3:
            return self.drill(rng)
        inputs = {}
        p = gen.Prog(rng, weights={"model": 4, "scope": 2, "result": 3, "fn": 4, "labview": 1},
                     plots=True, inputs=inputs, ro=0.2, parts=True)
        p.build(rng.randint(0, 3))
        n0 = len(p.ops)
        for _ in range(rng.randint(1, 3)):
            p.step()
        setup, ops = p.ops[:n0], p.ops[n0:]
        if ops[-1]["op"] in AFRESH:
            # computed anew every time, so it can fail in several places one after the other
            ops += [ops[-1]] * rng.choice([0, 1, 2, 3])
        faults = {}
        for i, op in enumerate(ops):
            if op is ops[-1] or rng.random() < 0.3:
                faults[f"0:{i}"] = plan_fault(rng, {"alloc": 5, "call": 4, "alloc-big": 2,
                                                    "alloc-all": 1})
        return {"plan": {"inputs": inputs, "setup": setup, "tasks": [ops], "faults": faults}}

    def drill(self, rng):
        """The same kind of call again and again with other values, often failing."""
        p = gen.Prog(rng, iters=(1, 3), nmax=12, long=False)
        kind = gen.pick(rng, {"fn": 5, "result": 2, "hanser": 3, "sheppard": 1, "scope": 2})
        ops = []
        if kind == "fn":
            f = gen.fn_op(rng)["f"]
            ops = [gen.fn_op(rng, f) for _ in range(rng.randint(3, 6))]
        else:
            x = p.create(kind)
            o = p.objs[x]
            if kind == "result":
                p.add({"op": "fit", "o": x, "n": rng.choice([4, 9, 15])})
                k = rng.choice(["gen", "genzd", "zdget", "zdget", "fit"])
                while len(ops) < 4:
                    op = {"op": "fit", "o": x, "n": rng.randint(3, 16)} if k == "fit" else \
                        gen.result_read(rng, x, o["s"])
                    if op["op"] == k:
                        ops.append(op)
            else:
                outs = gen.OUT if o["kind"] == "model" else ["PSF", "OTF"]
                a = rng.choice(outs)
                derive = kind == "hanser" and rng.random() < 0.4
                for i in range(rng.randint(2, 4)):
                    if derive:
                        ops += [o["g"].aberr(x, f"d{i}"), {"op": "get", "o": f"d{i}", "a": a}]
                        continue
                    c = o["g"].change()
                    if c:
                        ops.append({"op": "set", "o": x, "a": c[0], "v": c[1]})
                    ops.append({"op": "get", "o": x, "a": a if i else rng.choice(outs)})
        faults = {f"0:{i}": plan_fault(rng, {"alloc": 5, "call": 5, "alloc-big": 2, "alloc-all": 1})
                  for i, op in enumerate(ops) if i and rng.random() < 0.6}
        return {"plan": {"inputs": {}, "setup": p.ops, "tasks": [ops], "faults": faults}}

    def run(self, scn, env):
        """Every operation is executed with its failure, then again without."""
        plan, bad = scn["plan"], Bad()
        base = plan["tasks"][0] if plan["tasks"] else []
        resolve_faults(plan, env)
        # each op directly followed by its repetition, so that the state keeps up
        ops, faults, looks = [], {}, []
        for i, op in enumerate(base):
            if f"0:{i}" in plan["faults"]:
                faults[f"0:{len(ops)}"] = plan["faults"][f"0:{i}"]
                ops.append(op)
                if "to" in op and op["op"] in DERIVE:
                    # an object that was made in spite of the failure
                    looks.append(i)
                    ops.append({"op": "probe", "o": op["to"]})
            ops.append(op)
        objs = sorted({q["to"] for q in plan.get("setup", []) + base if "to" in q})
        probes = [{"op": "probe", "o": n} for n in objs]
        wide = dict(plan, tasks=[ops + probes], faults=faults)
        ex, tr = run_checked(wide, bad)
        want = pristine(env, plan, base + probes, plan.get("setup"))["outcomes"]
        fresh = {}
        for i in looks:
            # examined at once, before anything else is done to it
            fresh[i] = pristine(env, plan, base[:i + 1] + [{"op": "probe", "o": base[i]["to"]}],
                                plan.get("setup"))["outcomes"][f"0:{i + 1}"]
        j = 0
        for i, op in enumerate(base):
            clean = want[f"0:{i}"]
            if f"0:{i}" in plan["faults"]:
                key = f"0:{j}"
                got, how = tr["outcomes"][key], tr["fired"].get(key)
                if how:
                    env.count("failures delivered")
                    if isinstance(got, Exc):
                        env.count("failure reached the caller")
                        if "KeyboardInterrupt" in how and "KeyboardInterrupt" not in got.mro:
                            bad(f"interrupt:{label(op)}", f"{brief(op)}: interrupt at {how} became "
                                f"{got!r}")
                    else:
                        env.count("failure survived by the call")
                        if "KeyboardInterrupt" in how:
                            bad(f"interrupt:{label(op)}", f"{brief(op)}: interrupt at {how} was "
                                "swallowed")
                        d = same(got, clean)
                        if d:
                            bad(f"wrong:{label(op)}", f"{brief(op)} returned a wrong result after "
                                f"{how}: {d}")
                else:
                    d = same(got, clean)
                    if d:
                        bad(f"differs:{label(op)}", f"{brief(op)}: {d}")
                if i in looks:
                    j += 1
                    if not isinstance(got, Exc):
                        d = same(tr["outcomes"][f"0:{j}"], fresh[i])
                        if d:
                            bad(f"wrong:{label(op)}", f"{brief(op)} made a wrong object after "
                                f"{how}: {d}")
                j += 1
            d = same(tr["outcomes"][f"0:{j}"], clean)
            if d:
                bad(f"later:{label(op)}", f"{brief(op)} executed again after "
                    f"{sorted(tr['fired'].values())}: {d}")
            j += 1
        for i, op in enumerate(probes):
            d = same(tr["outcomes"][f"0:{j + i}"], want[f"0:{len(base) + i}"])
            if d:
                bad("later:probe", f"{op['o']} after {sorted(tr['fired'].values())}: {d}")
        return bad.items, tr

    def nontrivial(self, scn, res):
        return bool(res["fired"])


def label(op):
    return ":".join(str(op[k]) for k in ("op", "f", "a", "meth") if op.get(k))


# ----------------------------------------------------------------------- concurrency
def under_schedules(chk, scn, env):
    """The same program under several schedules, each in a fresh process; stops at a violation."""
    bad = Bad()
    resolve_faults(scn["plan"], env)
    isigs, total, fired = [], 0, {}
    for n, sched in enumerate([scn["plan"].get("sched")] + scn.get("more", [])):
        plan = dict(scn["plan"])
        if sched:
            plan["sched"] = sched
            resolve_sched(plan, env)
        if hasattr(chk, "prepare"):
            plan = chk.prepare(plan)
        tr = env.pristine(plan)
        env.count("schedules executed")
        isigs.append(json.dumps([tr["order"], tr["switches"]]))
        total += tr["steps"]
        fired.update(tr["fired"])
        if tr["failure"]:
            bad(*tr["failure"])
        else:
            chk.judge(plan, tr, env, bad)
        if bad:
            scn["plan"]["sched"] = plan.get("sched")
            scn["more"] = []
            return bad.items, tr
    tr.update(steps=total, isigs=isigs, fired=fired)
    return bad.items, tr


class C07(Check):
    id = "C07"
    runs = {"quick": 900, "thorough": 24000}
    rule = ("a run interleaves two to four threads, each with its own objects and calls, line by "
            "line, sometimes with failing neighbours; non-trivial if the scheduler took "
            "the processor from an unfinished thread at least once")

    def gen(self, rng):
        n = rng.choice([2, 2, 2, 3, 4])
        w = rng.choice([
            {"model": 6, "scope": 2, "result": 3, "fn": 4, "labview": 1},
            {"fn": 6, "model": 1}, {"result": 5, "model": 1, "labview": 2}, {"scope": 5, "model": 2},
            {"model": 6}])
        tasks, faults = [], {}
        twin = rng.random() < 0.4
        plots = rng.choice([0, 0, 0, 5])
        for t in range(n):
            r = rng
            if twin:
                r = random.Random(f"twin/{rng.random() if t == 0 else 0}/{t}") if t == 0 else r
            p = gen.Prog(rng, pre="abcd"[t], weights=w, iters=(2, 5), nmax=12, drops=0.1,
                         long=False, plots=plots, parts=True)
            p.build(rng.randint(2, 5))
            for name in rng.sample(list(p.objs), min(len(p.objs), 2)):
                p.add({"op": "probe", "o": name})
                if plots and p.objs[name]["kind"] != "result":
                    for meth in ("plot_psf", "plot_otf"):
                        p.add(gen.plot_kw(rng, {"op": "plot", "o": name, "meth": meth}))
            tasks.append(p.ops)
        if twin:
            # the same calls on other objects, with slightly different values
            tasks[1] = perturb(rng, rename(tasks[0], "a", "b"))
        gen.private_figures(tasks)
        noisy = rng.random() < 0.35
        if noisy:
            t = rng.randrange(n)
            for i in range(len(tasks[t])):
                if rng.random() < 0.5:
                    faults[f"{t}:{i}"] = plan_fault(rng)
        return {"plan": {"tasks": tasks, "faults": faults, "sched": gen.schedule(rng, 600),
                         "fine": rng.random() < 0.2},
                "more": [gen.schedule(rng, 600), gen.schedule(rng, 600),
                         gen.lockstep(rng) if twin else gen.schedule(rng, 600)]}

    def run(self, scn, env):
        return under_schedules(self, scn, env)

    def judge(self, plan, tr, env, bad):
        for t, ops in enumerate(plan["tasks"]):
            if any(k.startswith(f"{t}:") for k in plan["faults"]):
                continue
            want = env.pristine(recorded(plan, t))["outcomes"]
            for i, op in enumerate(ops):
                got = tr["outcomes"].get(f"{t}:{i}")
                if got is None and f"{t}:{i}" not in tr["outcomes"]:
                    continue
                env.count("results compared")
                d = same(got, want[f"0:{i}"])
                if d:
                    bad(f"differs:{label(op)}", f"{t}:{i} {brief(op)}: {d} (against the same "
                        "calls alone)")
                    break

    def nontrivial(self, scn, res):
        return len(res["switches"]) >= 1


def rename(ops, a, b):
    """The same program on objects with another prefix."""
    ops = json.loads(json.dumps(ops))
    for op in ops:
        for k in ("o", "to"):
            if k in op and op[k].startswith(a):
                op[k] = b + op[k][1:]
    return ops


def perturb(rng, ops):
    for op in ops:
        if op["op"] == "set" and isinstance(op.get("v"), float) and op["v"] > 0:
            op["v"] *= 1 - rng.choice([0, 1e-6, 1e-3, 1e-3 * rng.random()])
        for f in ("m", "p", "v"):
            if isinstance(op.get(f), dict) and "$rand" in op[f] and rng.random() < 0.7:
                op[f]["$rand"] += 1
        for v in op.get("args", []):
            if isinstance(v, dict) and "$rand" in v and rng.random() < 0.7:
                v["$rand"] += 1
        if isinstance(op.get("data"), dict) and "$psf" in op["data"] and rng.random() < 0.7:
            op["data"]["$psf"]["seed"] += 1
    return ops


class C08(Check):
    id = "C08"
    runs = {"quick": 900, "thorough": 18000}
    rule = ("a run sets objects up in one thread and then lets two to four threads read them, "
            "interleaved line by line or call by call; non-trivial if the scheduler took the "
            "processor from an unfinished reader at least once")

    def gen(self, rng):
        kind = gen.pick(rng, {"hanser": 4, "sheppard": 2, "scope": 5, "result": 4})
        p = gen.Prog(rng, iters=(2, 5), nmax=12)
        x = p.create(kind)
        o = p.objs[x]
        fit = None
        if kind == "result":
            fit = rng.choice([4, 9, 15])
            if rng.random() < 0.7:
                p.add({"op": "fit", "o": x, "n": fit})
        elif rng.random() < 0.6:
            for _ in range(rng.randint(1, 3)):
                (p.model_step if o["kind"] == "model" else p.scope_step)(x)
            if kind == "hanser" and rng.random() < 0.5:
                p.add({"op": "pupil", "o": x, "v": o["g"].pupil()})
            if rng.random() < 0.6:
                # nothing is calculated yet when the readers start
                c = o["g"].change()
                if c:
                    p.add({"op": "set", "o": x, "a": c[0], "v": c[1]})
        setup = p.ops
        haszd = any(op["op"] == "fit" for op in setup)
        # readers that fit different numbers of polynomials (which decomposition stays is a race,
        # so nobody reads it meanwhile, but each call returns the fit it was asked for)
        mixed = kind == "result" and rng.random() < 0.3
        tasks = []
        for t in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                if mixed:
                    op = gen.result_read(rng, x, o["s"], rng.choice([3, 4, 8, 9, 15]), zd=False)
                else:
                    op = self.read(rng, x, kind, o, fit if haszd or rng.random() < 0.5 else None,
                                   haszd, f"t{t}_{len(ops)}")
                ops.append(op)
            tasks.append(ops)
        more = [gen.schedule(rng, 200) for _ in range(5)]
        if rng.random() < 0.4:
            # everybody reads the same things
            for t in range(1, len(tasks)):
                tasks[t] = [dict(op, to=f"t{t}_{i}") if "to" in op else dict(op)
                            for i, op in enumerate(tasks[0])]
            more[0] = gen.lockstep(rng)
        return {"plan": {"setup": setup, "tasks": tasks, "faults": {},
                         "sched": gen.schedule(rng, 200), "fine": rng.random() < 0.4},
                "more": more}

    def read(self, rng, x, kind, o, fit, haszd, to):
        if kind == "result":
            return gen.result_read(rng, x, o["s"], fit, zd=haszd)
        if kind == "scope":
            k = rng.random()
            if k < 0.75:
                return {"op": "get", "o": x, "a": rng.choice(["PSF", "OTF", "PSF", "OTF",
                                                              "model_psf"])}
            if k < 0.85:
                return {"op": "repr", "o": x}
            if k < 0.92:
                return {"op": "get", "o": x + ".model", "a": rng.choice(gen.OUT)}
            return {"op": "params", "o": x}
        k = rng.random()
        if k < 0.75:
            return {"op": "get", "o": x, "a": rng.choice(gen.OUT)}
        if k < 0.85:
            return {"op": rng.choice(["repr", "params"]), "o": x}
        if kind == "hanser" and k < 0.95:
            if rng.random() < 0.3:
                return {"op": "get", "o": x, "a": "zrange"}
            return o["g"].aberr(x, to)
        return {"op": "probe", "o": x}

    def run(self, scn, env):
        return under_schedules(self, scn, env)

    def prepare(self, plan):
        """Afterwards the object still answers correctly (a completed fit is visible)."""
        roots = sorted({op["to"] for op in plan["setup"] if op["op"] in
                        ("mk", "retrieve", "aberr", "named", "nameds", "copy")})
        return dict(plan, after=[{"op": "probe", "o": n} for n in roots])

    def judge(self, plan, tr, env, bad):
        fits = {}
        for t, ops in enumerate(plan["tasks"]):
            for i, op in enumerate(ops):
                # what a single reader gets right after the set-up
                want = pristine(env, plan, [op], plan["setup"])["outcomes"]["0:0"]
                got = tr["outcomes"].get(f"{t}:{i}")
                env.count("reads compared")
                d = same(got, want)
                if d:
                    bad(f"read:{label(op)}", f"{t}:{i} {brief(op)}: {d}")
                if op["op"] == "fit":
                    fits[op["n"]] = op
        for i, op in enumerate(plan["after"]):
            # one of the fits was the last
            ds = []
            for post in [[f] for f in fits.values()] or [[]]:
                want = pristine(env, plan, post + [op], plan["setup"])
                ds.append(same(tr["outcomes"].get(f"e:{i}"), want["outcomes"][f"0:{len(post)}"]))
                if not ds[-1]:
                    break
            else:
                bad("afterwards", f"{op['o']} after the readers finished: {ds[0]}")

    def nontrivial(self, scn, res):
        return len(res["switches"]) >= 1


# ----------------------------------------------------------------------- reproducibility
class C13(Check):
    id = "C13"
    runs = {"quick": 1800, "thorough": 36000}
    rule = ("a run performs one retrieval and fit several times under different entropy, random "
            "state, log level, process history, aborted attempts and concurrent work and compares "
            "each with a fresh process; non-trivial if at least two of these were varied")

    def gen(self, rng):
        op, s = gen.retrieve(rng, "x", nmax=16, amp=rng.choice([0.3, 1.0, 2.0, 3.0]),
                             noise=rng.choice([0, 0.02, 0.2]))
        n = rng.choice([4, 9, 15] + [36, 55] * (s["size"] >= 32))
        core = [op, {"op": "fit", "o": "x", "n": n}, {"op": "probe", "o": "x"}]
        faults, tasks = {}, []
        varied = ["entropy"]
        ops = []
        if rng.random() < 0.5:
            varied.append("history")
            p = gen.Prog(rng, pre="h", iters=(2, 4), nmax=10, drops=0.2)
            ops += p.build(rng.randint(1, 4))
        if rng.random() < 0.5:
            varied.append("random state")
            ops.append({"op": "seed", "v": rng.randint(0, 10 ** 6)})
        if rng.random() < 0.3:
            varied.append("log level")
            ops.append({"op": "log", "level": rng.choice([10, 20, 40]),
                        "root": rng.random() < 0.5, "sink": rng.choice([None, "ok", "broken"])})
        if rng.random() < 0.5:
            varied.append("aborted attempt")
            faults[f"0:{len(ops)}"] = plan_fault(rng)
            ops.append(op)
            if rng.random() < 0.5:
                faults[f"0:{len(ops) + 1}"] = plan_fault(rng)
                ops += core[:2]
        if rng.random() < 0.3:
            varied.append("other data")
            o2, _ = gen.retrieve(rng, "y", nmax=16)
            if rng.random() < 0.7:
                # the same geometry, other data
                o2 = json.loads(json.dumps(op))
                o2["to"] = "y"
                o2["data"]["$psf"]["seed"] += 1
            ops.append(o2)
        ops += core
        if rng.random() < 0.5:
            ops += core
        tasks.append(ops)
        sched = {"kind": "seq"}
        if rng.random() < 0.45:
            varied.append("concurrent work")
            sched = gen.schedule(rng, 400)
            if rng.random() < 0.5:
                o2 = json.loads(json.dumps(op))
                o2["to"] = "z"
                if rng.random() < 0.7:
                    o2["data"]["$psf"]["seed"] += 1
                tasks.append([o2, {"op": "fit", "o": "z", "n": n}])
            else:
                p = gen.Prog(rng, pre="b", iters=(2, 4), nmax=10)
                tasks.append(p.build(rng.randint(1, 4)))
        plan = {"tasks": tasks, "faults": faults, "sched": sched,
                "entropy": rng.randint(1, 2 ** 31)}
        if rng.random() < 0.3:
            varied.append("hash randomisation")
            plan["hashseed"] = rng.choice([1, 2])
        return {"plan": plan, "core": core, "varied": varied}

    def run(self, scn, env):
        plan, bad, core = scn["plan"], Bad(), scn["core"]
        resolve_faults(plan, env)
        for v in scn["varied"]:
            env.count("varied: " + v)
        other = {"hashseed": plan["hashseed"]} if plan.get("hashseed") else {}
        want = pristine(env, dict(plan, entropy=0), core, **other)["outcomes"]
        ex, tr = run_checked(plan, bad)
        from . import engine
        env.count("entropy draws", engine.ENTROPY.draws)
        for key, op in flat(plan):
            if op not in core or key in plan["faults"] or key not in tr["outcomes"]:
                continue
            i = core.index(op)
            got = tr["outcomes"][key]
            if isinstance(got, Exc) and got.name == "Missing":
                continue
            env.count("repetitions compared")
            d = same(got, want[f"0:{i}"])
            if d:
                bad(f"differs:{op['op']}", f"{key} {brief(op)}: {d} (varied: {scn['varied']})")
        return bad.items, tr

    def nontrivial(self, scn, res):
        return len(scn["varied"]) >= 2


# ----------------------------------------------------------------------- LabVIEW sessions
class C14(Check):
    id = "C14"
    runs = {"quick": 2200, "thorough": 44000}
    rule = ("a run is a session of three to eight LabVIEW calls, some rejected or failing; each "
            "answer is compared with preparing and retrieving in a fresh process; non-trivial if "
            "at least one call followed a failed or different one")

    def gen(self, rng):
        inputs = {}
        p = gen.Prog(rng, inputs=None, iters=(1, 8))
        ops, faults = [], {}
        stacks = []
        for i in range(rng.randint(3, 8)):
            k = rng.random()
            if k < 0.68 or not stacks:
                op = p.labview()
                if stacks and rng.random() < 0.5:
                    # the same geometry or the very same stack again with other settings
                    name = rng.choice(stacks)
                    s = dict(inputs[name]["$psf"])
                    if rng.random() < 0.6:
                        s["seed"] = rng.randint(0, 10 ** 6)
                    else:
                        op["args"] = [{"$in": name}]
                    op["kw"].update(gen.params_of(s))
                    if "$in" not in op["args"][0]:
                        op["args"] = [{"$psf": s, "list": True}]
                        if rng.random() < 0.5:
                            # another camera: other range of values, an array of small integers
                            s["dtype"], s["peak"] = rng.choice(
                                [("uint8", 200), ("uint16", 3000), ("int16", 20000), ("int64", 60000),
                                 ("int32", 40), ("uint16", 60000), ("int8", 80)])
                            s["bg"] = rng.choice([0, 3, 20])
                            if rng.random() < 0.6:
                                op["args"][0].pop("list")
                    if rng.random() < 0.3:
                        op["kw"]["wl"] *= 1.01
                if "$in" not in op["args"][0]:
                    name = f"i{i}"
                    inputs[name] = op["args"][0]
                    stacks.append(name)
                    op["args"] = [{"$in": name}]
                if rng.random() < 0.3:
                    kw = op["kw"]
                    op["args"] += [kw.pop(a) for a in ("wl", "na", "ni", "res", "zres")]
                if rng.random() < 0.15:
                    op["kw"].pop("max_iters")
                    op["kw"].update(mse_tol=0.02, pupil_tol=0.02)
            elif k < 0.84:
                # an earlier call again, with exactly one thing different
                op = json.loads(json.dumps(rng.choice(
                    [q for q in ops if q["op"] == "labview" and "bad" not in q])))
                self.one_factor(rng, op, inputs, f"i{i}")
            else:
                op = json.loads(json.dumps(rng.choice(
                    [q for q in ops if q["op"] == "labview"])))
                how = rng.choice(["float", "ragged", "notsquare", "2d", "empty", "neg", "badparam",
                                  "abbe", "iters", "string"])
                op = {"op": "labview", "bad": 1, "args": op["args"][:1], "kw": dict(
                    wl=500.0, na=0.8, ni=1.0, res=150.0, zres=300.0, max_iters=2)}
                name = f"i{i}"
                v = {"float": {"$rand": 1, "shape": [3, 8, 8], "list": True},
                     "ragged": [[[1, 2], [3]], [[4, 5], [6, 7]]],
                     "notsquare": {"$rand": 1, "shape": [3, 8, 10], "kind": "poisson", "scale": 20,
                                   "list": True},
                     "2d": {"$rand": 1, "shape": [8, 8], "kind": "poisson", "scale": 20,
                            "list": True},
                     "empty": [], "neg": {"$arr": [[[-1, 2], [3, 4]]], "list": True},
                     "string": [["a", "b"], ["c", "d"]]}.get(how)
                if v is not None:
                    inputs[name] = v
                    op["args"] = [{"$in": name}]
                elif how == "badparam":
                    op["kw"]["wl"] = rng.choice(["x", -500.0, None])
                elif how == "abbe":
                    op["kw"]["res"] = 900.0
                else:
                    op["kw"]["max_iters"] = 0
            if rng.random() < 0.18:
                faults[f"0:{len(ops)}"] = plan_fault(rng)
            ops.append(op)
            if rng.random() < 0.2:
                ops.append({"op": "log", "level": rng.choice([10, 20, 40])})
        if rng.random() < 0.25:
            # the client fills one list with stack after stack
            for op in ops:
                v = inputs.get(op["args"][0]["$in"], {}) if op["op"] == "labview" else {}
                if "$psf" in v and rng.random() < 0.8:
                    op["args"][0] = {"$keep": "stack", "v": v}
        return {"plan": {"inputs": inputs, "tasks": [ops], "faults": faults},
                "reuse": rng.random() < 0.4}

    @staticmethod
    def one_factor(rng, op, inputs, name):
        kw = op["kw"]
        kw.update(zip(("wl", "na", "ni", "res", "zres"), op["args"][1:]))
        del op["args"][1:]
        a = rng.choice(["wl", "na", "ni", "res", "zres", "max_iters", "pupil_tol", "mse_tol",
                        "phase_only", "phase_only", "data", "shape", "nothing"])
        if a in ("wl", "ni"):
            kw[a] *= 1.01
        elif a in ("na", "res", "zres"):
            kw[a] *= 0.99
        elif a == "max_iters":
            kw[a] = kw.get(a, 3) + rng.choice([1, 2])
        elif a in ("pupil_tol", "mse_tol"):
            kw[a] = rng.choice([1e-2, 0.3]) if kw.get(a, 1e-8) < 1e-3 else 1e-8
        elif a == "phase_only":
            kw[a] = not kw.get(a, False)
        elif a in ("data", "shape"):
            s = dict(inputs[op["args"][0]["$in"]])
            s["$psf"] = dict(s["$psf"])
            if a == "data":
                s["$psf"]["seed"] += 1
            else:
                s["$psf"]["nz"] += 1
            inputs[name] = s
            op["args"] = [{"$in": name}]

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        digests, answers = {}, []

        def before(key, op, ex):
            digests[key] = world.digest(ex.w.inputs)

        def on_op(key, op, out, raw, ex):
            if op["op"] == "labview" and not isinstance(out, Exc):
                if not plain_lists(raw):
                    bad("type", f"{key}: returned {type(raw).__name__}, not nested lists of floats")
                elif scn.get("reuse"):
                    # the client works in place on the answer it was given
                    world.scribble(raw, 1)
                    env.count("answers overwritten by the client")
                else:
                    answers.append((key, raw, copy.deepcopy(raw)))
            for k, a, b in answers:
                if a != b and not (repr(a) == repr(b)):
                    bad("answer-changed", f"the answer of {k} was changed by {key} {brief(op)}")
                    answers.clear()
                    break
            if world.digest(ex.w.inputs) != digests.pop(key):
                bad("input-changed", f"{key}: a list passed in was changed")

        ex, tr = run_checked(plan, bad, on_op=on_op, before_op=before)
        for key, op in flat(plan):
            if op["op"] != "labview" or key not in tr["outcomes"]:
                continue
            got = tr["outcomes"][key]
            if key in tr["fired"] and isinstance(got, Exc):
                env.count("calls that failed by injection")
                continue
            kw = dict(op["kw"])
            names = ["wl", "na", "ni", "res", "zres"]
            kw.update(zip(names, op["args"][1:]))
            if isinstance(got, Exc):
                # a rejected call must be one a fresh session rejects too
                w = pristine(env, plan, [op])["outcomes"]["0:0"]
                env.count("rejected calls")
            else:
                w = pristine(env, plan, [{"op": "preplab", "data": op["args"][0], "kw": kw}])
                w = w["outcomes"]["0:0"]
                env.count("answers compared")
            d = same(got, w)
            if d:
                bad("answer", f"{key} {brief(op)}: {d}")
        return bad.items, tr

    def nontrivial(self, scn, res):
        return len(scn["plan"]["tasks"][0]) > 1


def plain_lists(v):
    return type(v) is list and all(type(r) is list and all(type(x) is float for x in r) for r in v)


# ----------------------------------------------------------------------- observation
class C15(Check):
    id = "C15"
    runs = {"quick": 1000, "thorough": 20000}
    rule = ("a run is a seeded program into which observations (representations, reads, plots, "
            "log settings, failing log sinks) are inserted at seeded places; it is compared with "
            "the program without them in a fresh process; non-trivial if something was observed "
            "and a later call computed something")

    def gen(self, rng):
        p = gen.Prog(rng, weights={"model": 6, "scope": 2, "result": 3}, iters=(2, 5), nmax=12,
                     parts=True)
        p.build(rng.randint(2, 7))
        base = p.ops + [{"op": "probe", "o": n} for n in p.objs]
        for n, o in p.objs.items():
            # what the objects consist of
            if o["kind"] != "model" and rng.random() < 0.5:
                base.append({"op": "probe", "o": n + ".model"})
            if o["kind"] == "scope" and o["g"].kind == "confocal" and rng.random() < 0.5:
                base.append({"op": "probe", "o": n + ".model_exc"})
        tail = base[len(p.ops):]
        rng.shuffle(tail)
        base[len(p.ops):] = tail
        ops, faults = [], {}
        for i, op in enumerate(base):
            for _ in range(gen.pick(rng, {0: 4, 1: 4, 2: 2, 3: 1})):
                q = self.look(rng, p, base[:i])
                if q:
                    ops.append(q)
                    if q["op"] in ("plot", "get") and rng.random() < 0.08:
                        faults[f"0:{len(ops) - 1}"] = plan_fault(rng)
            ops.append(dict(op, base=i))
        return {"plan": {"tasks": [ops], "faults": faults}}

    def look(self, rng, p, before):
        names = sorted({op["to"] for op in before if "to" in op} & set(p.objs))
        k = rng.random()
        if not names or k < 0.16:
            return rng.choice([
                {"op": "log", "level": rng.choice([5, 10, 20, 30, 50]), "root": rng.random() < 0.4},
                {"op": "log", "level": 10, "sink": rng.choice(["ok", "broken"]),
                 "root": rng.random() < 0.4}, {"op": "log", "unsink": True}])
        n = rng.choice(names)
        o = p.objs[n]
        if k < 0.32:
            return {"op": "repr", "o": n, "str": rng.random() < 0.3}
        if o["kind"] in ("model", "scope"):
            outs = gen.OUT if o["kind"] == "model" else ["PSF", "OTF", "model_psf"]
            if k < 0.6:
                if o["kind"] == "scope" and rng.random() < 0.2:
                    return {"op": "get", "o": n + ".model", "a": rng.choice(gen.OUT)}
                return {"op": "get", "o": n, "a": rng.choice(outs)}
            if k < 0.72:
                return {"op": "params", "o": n}
            q = {"op": "plot", "o": n, "meth": rng.choice(["plot_psf", "plot_otf"])}
            gen.plot_kw(rng, q)
            if rng.random() < 0.3:
                q["fig"] = "supplied"
            return q
        if k < 0.6:
            return gen.result_read(rng, n, o["s"], None, zd=False)
        q = {"op": "plot", "o": n, "meth": rng.choice(["plot", "plot_convergence"])}
        if any(op["op"] == "fit" and op["o"] == n for op in before) and rng.random() < 0.5:
            q = {"op": "plot", "o": n + ".zd_result", "meth": rng.choice(["plot", "plot_coefs"])}
        if q["meth"] == "plot" and rng.random() < 0.3:
            q["fig"] = "supplied"
        return q

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        ex, tr = run_checked(plan, bad)
        base = [(i, op) for i, op in enumerate(plan["tasks"][0]) if "base" in op]
        want = pristine(env, plan, [{k: v for k, v in op.items() if k != "base"}
                                    for _, op in base])["outcomes"]
        env.count("observations", len(plan["tasks"][0]) - len(base))
        for j, (i, op) in enumerate(base):
            d = same(tr["outcomes"][f"0:{i}"], want[f"0:{j}"])
            if d:
                bad(f"differs:{label(op)}", f"0:{i} {brief(op)}: {d} (against the history without "
                    "the observations)")
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("observations", 0) > 0


# ----------------------------------------------------------------------- save, crash, restore
class C16(Check):
    id = "C16"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("a run saves an object at a seeded point of a seeded history with failures, kills the "
            "process at a seeded kernel call of a later operation, restores the object elsewhere "
            "and continues; it is compared with a fresh process that never saved; non-trivial if "
            "the object had been used between creation and saving")

    def gen(self, rng):
        kind = gen.pick(rng, {"hanser": 4, "sheppard": 1, "scope": 3, "result": 4})
        p = gen.Prog(rng, iters=(2, 5), nmax=12, weights={"model": 1})
        x = p.create(kind)
        o = p.objs[x]
        step = {"model": p.model_step, "scope": p.scope_step, "result": p.result_step}[o["kind"]]
        for _ in range(rng.randint(0, 6)):
            step(x)
            if kind == "scope" and rng.random() < 0.4:
                self.inner(rng, p, x, o["g"])
        if kind == "hanser" and rng.random() < 0.3:
            p.add({"op": "pupil", "o": x, "v": o["g"].pupil()})
        hist, p.ops = p.ops, []
        faults = {}
        for i, op in enumerate(hist[1:], 1):
            if rng.random() < 0.2:
                faults[f"0:{i}"] = plan_fault(rng)
        for _ in range(rng.randint(1, 5)):
            step(x)
        tail = [op for op in p.ops if op.get("o", x).split(".")[0] == x]
        return {"plan": {"tasks": [hist], "faults": faults}, "x": x, "tail": tail,
                "how": gen.pick(rng, {"pickle": 6, "deepcopy": 2}), "proto": rng.choice([0, 1, 2, 3, 4, 5, 5]),
                "kill": rng.random() if rng.random() < 0.7 else None}

    @staticmethod
    def inner(rng, p, x, g):
        """The models inside a microscope are the user's to work with, too."""
        n = rng.choice([x + ".model"] + [x + ".model_exc"] * 2 * (g.kind == "confocal"))
        k = rng.random()
        if k < 0.35:
            p.add({"op": "get", "o": n, "a": rng.choice(gen.OUT)})
        elif k < 0.65 and g.model == "hanser":
            p.add({"op": "pupil", "o": n, "v": {
                "$rand": rng.randint(0, 99999), "kind": "complex",
                "shape": [g.s["size"] * g.settings["oversample_factor"]] * 2}})
        else:
            a = rng.choice(["vec_corr", "condition", "wl", "ni"])
            v = {"vec_corr": rng.choice(gen.VEC), "condition": rng.choice(gen.COND),
                 "wl": g.s["wl"] * rng.uniform(1.0, 1.05),
                 "ni": g.s["ni"] * rng.uniform(0.99, 1.0)}[a]
            p.add({"op": "set", "o": n, "a": a, "v": v})

    def run(self, scn, env):
        plan, bad, x = scn["plan"], Bad(), scn["x"]
        resolve_faults(plan, env)
        hist, tail = plan["tasks"][0], scn["tail"]
        end = [{"op": "probe", "o": x}]
        first = end if scn["kill"] is not None and scn["kill"] < 0.5 else []
        want = pristine(env, plan, hist + first + tail + end, faults=plan["faults"])["outcomes"]
        n = len(hist)
        if any(isinstance(want.get(f"0:{i}"), Exc) and want[f"0:{i}"].name == "Missing"
               for i in range(n, n + len(first + tail + end))):
            return bad.items, self.trace({})
        save = {"op": "pickleto", "o": x, "proto": scn["proto"]}
        if scn["how"] == "deepcopy":
            ops = hist + [{"op": "copy", "o": x, "to": "copy0", "how": "deepcopy"}]
            more = [dict(op, o="copy0" + op["o"][len(x):]) for op in first + tail + end]
            # the original goes on with its own life first
            ex, tr = run_checked(dict(plan, tasks=[ops + [t for t in tail if "to" not in t] + more]),
                                 bad)
            got = {i: tr["outcomes"][f"0:{len(ops) + len([t for t in tail if 'to' not in t]) + i}"]
                   for i in range(len(more))}
            env.count("deep copies resumed")
        else:
            blob, tr = self.crashed(scn, plan, hist + [save] + tail, env)
            if blob is None:
                bad("save", f"{x} could not be saved: {tr}")
                return bad.items, self.trace({})
            more = [{"op": "unpickle", "hex": blob.hex(), "to": x}] + first + tail + end
            # another process: other number, and for half of them another interpreter
            other = {"hashseed": 1 + len(hist) % 2} if len(blob) % 2 else {}
            r = pristine(env, plan, more, pid=1, **other)
            got = {i: r["outcomes"][f"0:{i + 1}"] for i in range(len(more) - 1)}
            env.count("restored in another process")
        for i, op in enumerate(first + tail + end):
            d = same(got[i], want[f"0:{n + i}"])
            if d:
                bad(f"resumed:{label(op)}", f"{brief(op)} after restoring ({scn['how']}): {d}")
        return bad.items, self.trace(tr.get("fired", {}) if isinstance(tr, dict) else {})

    @staticmethod
    def trace(fired):
        return {"fired": fired, "steps": 0, "switches": [], "order": []}

    def crashed(self, scn, plan, ops, env):
        """Run in a process that hands its saved state out and then dies."""
        import os
        import signal

        from . import engine

        idx = next(i for i, op in enumerate(ops) if op["op"] == "pickleto")
        faults = dict(plan["faults"])
        tail = [i for i in range(idx + 1, len(ops)) if ops[i]["op"] not in ("repr", "params")]
        if scn["kill"] is not None and tail:
            k = tail[int(scn["kill"] * len(tail))]
            faults[f"0:{k}"] = {"kind": "call", "n": 1 + int(scn["kill"] * 7) % 5, "exc": "kill"}
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)

                def on_op(key, op, out, raw, ex):
                    if op["op"] == "pickleto":
                        engine._send(w, ("saved", raw if isinstance(raw, bytes) else repr(out)))

                tr = engine.execute(dict(plan, tasks=[ops], faults=faults), on_op)
                engine._send(w, ("alive", tr["fired"]))
                signal.raise_signal(signal.SIGKILL)
            finally:
                os._exit(code)
        os.close(w)
        import time

        blob, fired = None, {"kill": "call:kill"}
        try:
            while True:
                kind, v = engine._recv(r, time.monotonic() + 60)
                if kind == "saved":
                    blob = v
                else:
                    fired = dict(v, kill="SIGKILL")
        except (EOFError, TimeoutError):
            pass
        os.close(r)
        _, st = os.waitpid(pid, 0)
        env.count("processes killed inside an operation" if st == 77 << 8
                  else "processes killed between operations")
        if not isinstance(blob, bytes):
            return None, blob
        return blob, {"fired": fired}

    def nontrivial(self, scn, res):
        return len(scn["plan"]["tasks"][0]) > 1

    def shrink(self, scn):
        for i in range(1, len(scn["plan"]["tasks"][0])):
            c = json.loads(json.dumps(scn))
            from .base import drop_ops

            drop_ops(c["plan"], "0", i, i + 1)
            yield c
        for i in range(len(scn["tail"])):
            c = json.loads(json.dumps(scn))
            del c["tail"][i]
            yield c
        if scn["kill"] is not None:
            yield json.loads(json.dumps(dict(scn, kill=None)))
