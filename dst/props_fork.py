"""Processes forked while other threads are in the middle of something."""

from . import engine  # noqa: F401
from .base import Check, recorded, same
from .props_diff import C07, C08, brief, label, pristine, rename, under_schedules


class C19(Check):
    id = "C19"
    runs = {"quick": 700, "thorough": 14000}
    rule = ("a run lets two to four threads work (on a shared object or on their own ones, some of "
            "them failing) and forks processes from some of them while the others are stopped "
            "wherever the scheduler left them; the forked process goes on with the thread's own "
            "operations; non-trivial if another thread was in the middle of its work then")
    level = "exploration"

    def gen(self, rng):
        shared = rng.random() < 0.5
        base = C08() if shared else C07()
        scn = base.gen(rng)
        tasks = scn["plan"]["tasks"]
        if not shared and rng.random() < 0.6:
            # a thread that does little else, and children that do what some thread is doing just now
            t = rng.randrange(len(tasks))
            keep = [op for op in tasks[t] if op["op"] == "fn"][:2]
            tasks[t] = []
            for k in [k for k in scn["plan"]["faults"] if k.startswith(f"{t}:")]:
                del scn["plan"]["faults"][k]
            for n in range(rng.choice([1, 2, 2, 3])):
                u = rng.choice([u for u in range(len(tasks)) if u != t])
                tasks[t] += keep + [{"op": "fork", "ops": rename(tasks[u], "abcd"[u], "stuv"[n])}]
            scn["shared"] = False
            scn["more"] = scn["more"][:2]
            return scn
        for t in rng.sample(range(len(tasks)), rng.choice([1, 1, 2])):
            ops = tasks[t]
            at = rng.randint(0, len(ops))
            rest = [dict(op) for op in ops[at:]]
            if shared:
                # whatever the others are reading just now
                u = rng.randrange(len(tasks))
                rest += [dict(op, **({"to": op["to"] + "f"} if "to" in op else {}))
                         for op in tasks[u] if op["op"] != "fork"]
                rng.shuffle(rest)
            elif rng.random() < 0.5:
                u = rng.choice([u for u in range(len(tasks)) if u != t])
                rest += rename([op for op in tasks[u] if op["op"] != "fork"], "abcd"[u], "q")
            if not rest:
                rest = [{"op": "probe", "o": op["to"]} for op in ops if op["op"] == "mk"][:2]
            if rest:
                ops.insert(at, {"op": "fork", "ops": rest})
                for k in [k for k in scn["plan"]["faults"] if k.startswith(f"{t}:")]:
                    del scn["plan"]["faults"][k]
        scn["shared"] = shared
        scn["more"] = scn["more"][:2]
        return scn

    def run(self, scn, env):
        self.shared = scn["shared"]
        return under_schedules(self, scn, env)

    def prepare(self, plan):
        return C08().prepare(plan) if self.shared else plan

    def judge(self, plan, tr, env, bad):
        forks = []
        for t, ops in enumerate(plan["tasks"]):
            for i, op in enumerate(ops):
                if op["op"] == "fork":
                    forks.append((t, i, op, tr["outcomes"].get(f"{t}:{i}")))
        for t, i, op, got in forks:
            if got is None:
                continue
            env.count("processes forked")
            if got["failure"]:
                j = len(got["outcomes"])
                bad(f"forked-{got['failure'][0]}", f"process forked from thread {t}: {got['failure'][1]} "
                    f"in {brief(op['ops'][min(j, len(op['ops']) - 1)])}")
                continue
            alone = [q for q in plan["tasks"][t][:i] if q["op"] != "fork"]
            if not self.shared:
                if any(k.startswith(f"{t}:") for k in plan["faults"]):
                    continue
                w = env.pristine(recorded(dict(plan, tasks=[alone + op["ops"]]), 0))["outcomes"]
                want = [w[f"0:{len(alone) + j}"] for j in range(len(op["ops"]))]
            else:
                want = [pristine(env, plan, [q], plan["setup"])["outcomes"]["0:0"]
                        for q in op["ops"]]
            for q, g, w in zip(op["ops"], got["outcomes"], want):
                env.count("results compared in forked processes")
                d = same(g, w)
                if d:
                    bad(f"forked:{label(q)}", f"in a process forked from thread {t}: {brief(q)}: {d}")
                    break
        # nothing of that matters where they were forked from
        if bad:
            return
        tasks, out = [], {}
        for t, ops in enumerate(plan["tasks"]):
            keep = [i for i, op in enumerate(ops) if op["op"] != "fork"]
            tasks.append([ops[i] for i in keep])
            out.update({f"{t}:{n}": tr["outcomes"][f"{t}:{i}"] for n, i in enumerate(keep)
                        if f"{t}:{i}" in tr["outcomes"]})
        out.update({k: v for k, v in tr["outcomes"].items() if k.startswith("e:")})
        faults = {k: v for k, v in plan["faults"].items()}
        (C08() if self.shared else C07()).judge(
            dict(plan, tasks=tasks, faults=faults), dict(tr, outcomes=out), env, bad)

    def nontrivial(self, scn, res):
        return len(res["switches"]) >= 1 and res["stats"].get("processes forked", 0) > 0
