"""C01, C02, C03: answers follow the reported state (checked against the reference model)."""

import copy

from .base import (Bad, Check, Exc, Executor, TOL_REF, close_z, default_z, gen, np, plan_fault,
                   ref_model, refmodel, resolve_faults, same, same_num, world)


class C01(Check):
    id = "C01"
    runs = {"quick": 6000, "thorough": 120000}
    rule = ("a run is a seeded history of assignments (new, tiny, equal, invalid), reads in random "
            "order and injected failures on one or two models; it is non-trivial if at least one "
            "output was read after an accepted assignment that followed an earlier read")

    def gen(self, rng):
        ops, faults = [], {}
        gens = {}
        for name in ["m", "n"][: rng.choice([1, 1, 2])]:
            op, g = gen.mk(rng, name)
            ops.append(op)
            gens[name] = g
            g.bufs = {}
        faulty = rng.random() < 0.4
        for _ in range(gen.steps(rng, 3, 14)):
            name = rng.choice(list(gens))
            g = gens[name]
            k = rng.random()
            if k < 0.5:
                c = g.change()
                if c and k < 0.2:
                    # everything read, one change, everything read again
                    outs = rng.sample(gen.OUT, rng.randint(2, 4))
                    ops += [{"op": "get", "o": name, "a": a} for a in outs]
                    ops.append({"op": "set", "o": name, "a": c[0], "v": c[1]})
                    ops += [{"op": "get", "o": name, "a": a} for a in rng.sample(outs, len(outs))]
                elif c:
                    ops.append({"op": "set", "o": name, "a": c[0], "v": c[1]})
            elif k < 0.6:
                a, v = g.invalid()
                ops.append({"op": "set", "o": name, "a": a, "v": v})
            elif k < 0.64:
                ops.append({"op": "repr", "o": name})
            else:
                for a in rng.sample(gen.OUT, rng.randint(1, 3)):
                    ops.append({"op": "get", "o": name, "a": a})
            if faulty and rng.random() < 0.25 and ops[-1]["op"] in ("get", "set"):
                faults[f"0:{len(ops) - 1}"] = plan_fault(rng)
        for name in gens:
            for a in rng.sample(gen.OUT, rng.randint(2, 4)):
                ops.append({"op": "get", "o": name, "a": a})
        return {"plan": {"tasks": [ops], "faults": faults}}

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        st = {}

        def on_op(key, op, out, raw, ex):
            k = op["op"]
            failed = isinstance(out, Exc)
            if k == "mk":
                if failed:
                    bad("construct", f"valid model refused: {out!r}")
                    return
                rep = world.model_params(raw)
                st[op["to"]] = {"cls": op["cls"], "rep": rep, "reads": 0}
                want = dict(dict(vec_corr="none", condition="sine"), **op["kw"])
                want.setdefault("zres", want["res"])
                want.setdefault("zsize", want["size"])
                if op["cls"] == "sheppard":
                    want.setdefault("dual", False)
                for a, v in want.items():
                    if not same_num(rep[a], v):
                        bad(f"report:{a}", f"built with {a}={v!r} but reports {rep[a]!r}")
                return
            s = st.get(op.get("o"))
            if s is None:
                return
            o = ex.w.objs[op["o"]]
            if k == "set":
                a, v, old = op["a"], op["v"], s["rep"]
                rep = world.model_params(o)
                fired = key in ex.fired
                if failed and fired:
                    env.count("set aborted")
                    s["rep"] = rep
                    return
                if failed:
                    env.count("set rejected")
                    for b in rep:
                        if not same_num(rep[b], old[b]):
                            bad(f"rejected-changed:{b}",
                                f"{key}: {a}={v!r} was rejected ({out.name}) but {b} went from "
                                f"{old[b]!r} to {rep[b]!r}")
                else:
                    env.count("set accepted")
                    if s["reads"]:
                        env.count("set after read")
                        s["dirty"] = True
                    if not same_num(rep[a], v):
                        bad(f"report:{a}", f"{key}: {a}={v!r} accepted but {rep[a]!r} reported")
                    for b in rep:
                        if b == a:
                            continue
                        if b == "zrange" and a in ("zsize", "zres"):
                            if not close_z(rep[b], default_z(rep), rep["zres"]):
                                bad("zrange", f"{key}: after {a}={v!r} zrange is {rep[b]!r}, not "
                                    f"{default_z(rep)!r}")
                        elif not same_num(rep[b], old[b]):
                            bad(f"side-effect:{b}", f"{key}: assigning {a}={v!r} changed {b} from "
                                f"{old[b]!r} to {rep[b]!r}")
                s["rep"] = rep
            elif k == "get":
                rep = world.model_params(o)
                for b in rep:
                    if not same_num(rep[b], s["rep"][b]):
                        bad(f"read-changed:{b}", f"{key}: reading {op['a']} changed {b}")
                s["rep"] = rep
                s["reads"] += 1
                if failed:
                    if key not in ex.fired:
                        bad("read-failed", f"{key}: reading {op['a']} raised {out!r}")
                    return
                want = ref_model(s["cls"], rep)
                if want.get("margin", 1) < 1e-9:
                    env.count("skipped: discretisation tie")
                    return
                env.count("outputs compared")
                if s.get("dirty"):
                    env.count("stale candidates")
                d = same(out, want[op["a"]], TOL_REF)
                if d:
                    bad(f"output:{op['a']}", f"{key}: {op['a']} of {s['cls']} {d} for reported "
                        f"{ {k: v for k, v in rep.items()} }")

        ex = Executor(plan, on_op)
        tr = ex.run()
        if tr["failure"] and tr["failure"][0] == "harness":
            raise RuntimeError(tr["failure"][1])
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("stale candidates", 0) > 0


class C02(Check):
    id = "C02"
    runs = {"quick": 5000, "thorough": 100000}
    rule = ("a run is a seeded history of setting assignments, reads and injected failures on one "
            "or two microscopes; non-trivial if PSF or OTF was read after an accepted assignment "
            "that followed an earlier read")

    def gen(self, rng):
        ops, faults, gens = [], {}, {}
        for name in ["s", "t"][: rng.choice([1, 1, 1, 2])]:
            g = gen.ScopeGen(rng)
            ops.append(g.op(name))
            gens[name] = g
        faulty = rng.random() < 0.4
        for _ in range(gen.steps(rng, 2, 9)):
            name = rng.choice(list(gens))
            g = gens[name]
            k = rng.random()
            if k < 0.52:
                c = g.change()
                outs = rng.sample(["PSF", "OTF"], 2) if k < 0.25 else []
                ops += [{"op": "get", "o": name, "a": a} for a in outs]
                ops.append({"op": "set", "o": name, "a": c[0], "v": c[1]})
                ops += [{"op": "get", "o": name, "a": a} for a in outs]
            elif k < 0.6:
                a, v = g.invalid()
                ops.append({"op": "set", "o": name, "a": a, "v": v})
            elif k < 0.65:
                ops.append({"op": "repr", "o": name})
            else:
                for a in rng.sample(["PSF", "OTF"], rng.randint(1, 2)):
                    ops.append({"op": "get", "o": name, "a": a})
            if faulty and rng.random() < 0.25 and ops[-1]["op"] in ("get", "set"):
                faults[f"0:{len(ops) - 1}"] = plan_fault(rng)
        for name in gens:
            for a in rng.sample(["PSF", "OTF"], 2):
                ops.append({"op": "get", "o": name, "a": a})
        return {"plan": {"tasks": [ops], "faults": faults}}

    @staticmethod
    def settings(o):
        return world.scope_params(o)

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        st = {}

        def full(s, rep):
            """Reference settings: construction values overridden by what is reported now."""
            q = dict(s["kw"])
            for a, v in rep.items():
                q[a] = v
            return q

        def on_op(key, op, out, raw, ex):
            k = op["op"]
            failed = isinstance(out, Exc)
            if k == "mk":
                if failed:
                    bad("construct", f"valid {op['cls']} microscope refused: {out!r}")
                    return
                try:
                    rep = self.settings(raw)
                except Exception as e:
                    bad("report", f"{key}: settings cannot be read: {e!r}")
                    return
                s = st[op["to"]] = {"kind": op["cls"], "kw": dict(op["kw"]), "rep": rep,
                                    "reads": 0}
                if "zrange" in s["kw"]:
                    s["kw"]["zrange"] = np.array(s["kw"]["zrange"])
                for a in ("oversample_factor", "pixel_size", "pinhole_size", "wl_exc", "na_exc",
                          "wiener", "coherent", "dc", "dc_suppress"):
                    if a in op["kw"]:
                        v = op["kw"][a]
                        if v is None and a == "wl_exc":
                            v = op["kw"]["wl"]
                        if v is None and a == "na_exc":
                            v = op["kw"]["na"]
                        if a not in rep or not same_num(rep[a], v):
                            bad(f"report:{a}", f"built with {a}={v!r} but reports {rep.get(a)!r}")
                return
            s = st.get(op.get("o"))
            if s is None:
                return
            o = ex.w.objs[op["o"]]
            try:
                rep = self.settings(o)
            except Exception as e:
                bad("report", f"{key}: settings cannot be read: {e!r}")
                return
            if k == "set":
                a, v, old = op["a"], op["v"], s["rep"]
                if failed and key in ex.fired:
                    env.count("set aborted")
                elif failed:
                    env.count("set rejected")
                    for b in rep:
                        if not same_num(rep[b], old.get(b)):
                            bad(f"rejected-changed:{b}", f"{key}: {a}={v!r} was rejected but {b} "
                                f"went from {old.get(b)!r} to {rep[b]!r}")
                else:
                    env.count("set accepted")
                    if s["reads"]:
                        s["dirty"] = True
                    if a not in rep or not same_num(rep[a], v):
                        bad(f"report:{a}", f"{key}: {a}={v!r} accepted, {rep.get(a)!r} reported")
                    for b in rep:
                        if b != a and not same_num(rep[b], old.get(b)):
                            bad(f"side-effect:{b}", f"{key}: assigning {a} changed {b}")
                s["rep"] = rep
            elif k == "get":
                for b in rep:
                    if not same_num(rep[b], s["rep"].get(b)):
                        bad(f"read-changed:{b}", f"{key}: reading {op['a']} changed {b}")
                s["rep"] = rep
                s["reads"] += 1
                if failed:
                    if key not in ex.fired:
                        bad("read-failed", f"{key}: reading {op['a']} of {s['kind']} raised {out!r}")
                    return
                want = refmodel.scope(s["kind"], full(s, rep))
                if (want["margin"] < 1e-9 or want["amp"] > 1e5
                        or not np.isfinite(want["PSF"]).all()):
                    env.count("skipped: discretisation tie or undefined")
                    return
                env.count("outputs compared")
                if s.get("dirty"):
                    env.count("stale candidates")
                tol = TOL_REF * max(1.0, want.get("amp", 1.0))
                d = same(out, want[op["a"]], tol)
                if d:
                    bad(f"output:{op['a']}", f"{key}: {op['a']} of {s['kind']} microscope {d} for "
                        f"settings {full(s, rep)}")

        ex = Executor(plan, on_op)
        tr = ex.run()
        if tr["failure"] and tr["failure"][0] == "harness":
            raise RuntimeError(tr["failure"][1])
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("stale candidates", 0) > 0


class C03(Check):
    id = "C03"
    runs = {"quick": 4000, "thorough": 80000}
    rule = ("a run is a seeded history of applied pupils and aberrations, reads in random order, "
            "representations, plots, copies, accepted and rejected assignments and injected "
            "failures on a Hanser model; non-trivial if an output was read while a pupil was in "
            "force after something else had happened since it was applied")

    def gen(self, rng):
        op, g = gen.mk(rng, "m", "hanser")
        ops, faults = [op], {}
        g.bufs = {}
        names, gens = ["m"], {"m": g}
        faulty = rng.random() < 0.5
        for _ in range(gen.steps(rng, 4, 14)):
            name = rng.choice(names)
            g = gens[name]
            k = gen.pick(rng, {"get": 30, "pupil": 18, "aberr": 8, "set": 10, "bad": 8, "repr": 5,
                               "plot": 3, "copy": 8, "badpupil": 6, "ideal": 4})
            if k == "get":
                ops.append({"op": "get", "o": name, "a": rng.choice(gen.OUT)})
            elif k == "pupil":
                ops.append({"op": "pupil", "o": name, "v": g.pupil()})
            elif k == "badpupil":
                ops.append({"op": "pupil", "o": name, "v": g.bad_pupil()})
            elif k == "aberr" and len(names) < 4:
                to = f"a{len(ops)}"
                ops.append(g.aberr(name, to))
                names.append(to)
                gens[to] = copy.deepcopy(g)
                gens[to].rng = rng
            elif k == "set":
                c = g.change()
                if c:
                    ops.append({"op": "set", "o": name, "a": c[0], "v": c[1]})
            elif k == "bad":
                a, v = g.invalid()
                ops.append({"op": "set", "o": name, "a": a, "v": v})
            elif k == "repr":
                ops.append({"op": "repr", "o": name})
            elif k == "plot":
                ops.append({"op": "plot", "o": name, "meth": rng.choice(["plot_psf", "plot_otf"])})
            elif k == "copy" and len(names) < 4:
                to = f"c{len(ops)}"
                ops.append({"op": "copy", "o": name, "to": to,
                            "how": rng.choice(["copy", "deepcopy", "pickle"])})
                names.append(to)
                gens[to] = copy.deepcopy(g)
                gens[to].rng = rng
            elif k == "ideal":
                ops.append({"op": "pupil", "o": name, "v": {
                    "$rand": rng.randint(0, 10 ** 6), "shape": [g.p["size"]] * 2, "kind": "ideal",
                    "of": {q: g.p[q] for q in ("wl", "na", "res", "size")},
                    "scale": rng.choice([0, 10.0 ** rng.uniform(-7, -4)])}})
            else:
                continue
            if faulty and ops[-1]["op"] in ("get", "pupil", "set", "plot", "copy") \
                    and rng.random() < 0.3:
                faults[f"0:{len(ops) - 1}"] = plan_fault(rng)
                if ops[-1]["op"] in ("get", "pupil") and rng.random() < 0.5:
                    ops.append(copy.deepcopy(ops[-1]))
        for name in names:
            for a in rng.sample(gen.OUT, rng.randint(2, 4)):
                ops.append({"op": "get", "o": name, "a": a})
        return {"plan": {"tasks": [ops], "faults": faults}}

    def run(self, scn, env):
        plan, bad = scn["plan"], Bad()
        resolve_faults(plan, env)
        st = {}  # object -> {"cands": [pupil or None], "rep", "since"}

        def near(want, out):
            return same(out, want, TOL_REF)

        def on_op(key, op, out, raw, ex):
            k = op["op"]
            failed = isinstance(out, Exc)
            fired = key in ex.fired
            if k == "mk":
                if not failed:
                    st[op["to"]] = {"cands": [None], "rep": world.model_params(raw), "since": 0}
                return
            s = st.get(op.get("o"))
            if s is None:
                return
            o = ex.w.objs[op["o"]]
            rep = world.model_params(o)
            if k == "copy":
                if not failed:
                    st[op["to"]] = {"cands": s["cands"] and list(s["cands"]), "rep": world.model_params(raw),
                                    "since": s["since"] + 1}
            elif k in ("aberr", "named", "nameds"):
                if not failed:
                    if k == "aberr" and op["m"] is None and op["p"] is None:
                        # nothing applied: a plain copy
                        st[op["to"]] = {"cands": s["cands"] and list(s["cands"]), "rep": rep, "since": 1}
                        return
                    m, p = op.get("m"), op.get("p")
                    if k == "named":
                        p = [0.0] * len(refmodel.NAMES)
                        p[refmodel.NAMES.index(op["name"])] = op["mag"]
                    elif k == "nameds":
                        p = [0.0] * len(refmodel.NAMES)
                        for n, v in op["v"].items():
                            p[refmodel.NAMES.index(n)] = v
                    st[op["to"]] = {"cands": [refmodel.aberrated_pupil(rep, m, p)],
                                    "rep": world.model_params(raw), "since": 0}
                elif not fired:
                    bad("aberration-refused", f"{key}: {out!r}")
            elif k == "pupil":
                ok = isinstance(op["v"], np.ndarray) and op["v"].shape == (rep["size"],) * 2
                if failed and fired:
                    if ok and s["cands"] is not None:
                        s["cands"] = s["cands"] + [op["v"].copy()]
                elif failed:
                    if ok:
                        bad("pupil-refused", f"{key}: {out!r}")
                else:
                    if isinstance(op["v"], np.ndarray) and op["v"].ndim == 2 and ok:
                        s["cands"] = [op["v"].copy()]
                        s["since"] = -1
                    else:
                        # a pupil of another shape that broadcasts: not specified
                        s["cands"] = None
            elif k == "set":
                same_rep = all(same_num(rep[b], s["rep"][b]) for b in rep)
                if not failed and s["cands"] is not None:
                    s["cands"] = [None] if not same_rep else \
                        s["cands"] + [None] if any(c is not None for c in s["cands"]) else [None]
                elif failed and fired and s["cands"] is not None:
                    s["cands"] = [None] if not same_rep else s["cands"] + [None]
                elif not failed and not same_rep:
                    s["cands"] = [None]
            elif k == "get":
                if failed:
                    if not fired:
                        bad("read-failed", f"{key}: reading {op['a']} raised {out!r}")
                    return
                if s["cands"] is None:
                    return
                errs, left = [], []
                for c in s["cands"]:
                    d = near(refmodel.hanser(rep, rep["zrange"], c)[op["a"]], out)
                    if d is None:
                        left.append(c)
                    else:
                        errs.append(("the pupil" if c is not None else "no pupil") + ": " + d)
                env.count("outputs compared")
                if any(c is not None for c in s["cands"]) and s["since"] > 0:
                    env.count("reads under a pupil later in its life")
                if not left:
                    bad(f"output:{op['a']}", f"{key}: {op['a']} matches none of the states it may "
                        f"be in ({'; '.join(errs)})")
                else:
                    s["cands"] = left
            s["rep"] = rep
            s["since"] += 1

        ex = Executor(plan, on_op)
        tr = ex.run()
        if tr["failure"] and tr["failure"][0] == "harness":
            raise RuntimeError(tr["failure"][1])
        return bad.items, tr

    def nontrivial(self, scn, res):
        return res["stats"].get("reads under a pupil later in its life", 0) > 0
