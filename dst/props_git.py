"""C12: version lookup against a simulated git with a failure at every command."""

import json
import os
import re
import sys
import types

from .base import Bad, Check
from .engine import REPO
from .simgit import SimGit, patched

KEYS = {"version", "full-revisionid", "dirty", "error", "date"}
# PEP 440, appendix B (public version, optional local part)
PEP440 = re.compile(
    r"^\s*v?(?:(?:[0-9]+!)?[0-9]+(?:\.[0-9]+)*(?:[-_.]?(?:a|b|c|rc|alpha|beta|pre|preview)[-_.]?"
    r"[0-9]*)?(?:-[0-9]+|[-_.]?(?:post|rev|r)[-_.]?[0-9]*)?(?:[-_.]?dev[-_.]?[0-9]*)?)"
    r"(?:\+[a-z0-9]+(?:[-_.][a-z0-9]+)*)?\s*$", re.I)
START = ["enoent", "eacces", "enomem", "eagain", "enotdir"]
DIE = ["exit1", "exit128-partial", "killed", "killed-partial", "eio"]
GARBLE = ["empty", "blank", "truncated", "undecodable", "garbage"]
STEPS = ["gitdir", "describe", "head", "count", "date"]


def expected(git):
    """The record for a repository all of whose questions are answered."""
    repo = git.repo
    if repo["absent"]:
        return None
    short = repo["head"][:repo["abbrev"]]
    tag, n = repo["tag"], repo["distance"]
    if tag:
        v = tag
        if n or repo["dirty"]:
            v += ("." if "+" in tag else "+") + f"{n}.g{short}"
            v += ".dirty" if repo["dirty"] else ""
    else:
        v = f"0+untagged.{repo['count']}.g{short}" + (".dirty" if repo["dirty"] else "")
    date = repo["date"].strip().replace(" ", "T", 1).replace(" ", "", 1)
    return {"version": v, "full-revisionid": repo["head"], "dirty": repo["dirty"], "error": None,
            "date": date}


def exported(keywords):
    """The version module as git archive writes it ($Format:...$ expanded)."""
    src = open(os.path.join(REPO, "pyotf", "_version.py")).read()
    src = re.sub(r"\$Format:%(d|H|ci)\$", lambda m: keywords[m.group(1)], src)
    m = types.ModuleType("_version")
    m.__file__ = "/nonexistent/export/pyotf/_version.py"
    exec(compile(src, m.__file__, "exec"), m.__dict__)
    return m


def archive_record(kw):
    """The record for an exported tree with these keywords."""
    refs = [r.strip() for r in kw["d"].strip().strip("()").split(",")]
    tags = [r[5:] for r in refs if r.startswith("tag: ")]
    tags = tags or [r for r in refs if re.search(r"\d", r)]
    date = kw["ci"].strip().replace(" ", "T", 1).replace(" ", "", 1)
    if tags:
        return {"version": min(tags), "full-revisionid": kw["H"], "dirty": False, "error": None,
                "date": date}
    return None


class C12(Check):
    id = "C12"
    level = "fault_enumeration"
    runs = {"quick": 8000, "thorough": 160000}
    rule = ("a run looks the version up (or imports the package) in a seeded simulated repository "
            "whose git fails in seeded ways at seeded commands; non-trivial if a failure was "
            "delivered or the repository answered every question")
    stub = ["git and the processes that run it (subprocess.Popen)"]
    real = ["pyotf._version", "pyotf import", "subprocess module above Popen"]

    def gen(self, rng):
        digits = "0123456789abcdef"
        repo = {
            "tag": rng.choice(["v1.2", "v0.0.3", "1.0", "v2.0rc1", "1.2+local", "v10.20.30", None,
                               None, "v1.0-rc1", "2.0-1", "1.0-dev"]),
            "distance": rng.choice([0, 0, 1, 7, 1234]), "dirty": rng.random() < 0.4,
            "count": rng.choice([0, 1, 40, 123456]),
            "head": "".join(rng.choice(digits) for _ in range(40)),
            "date": f"20{rng.randint(10, 29)}-0{rng.randint(1, 9)}-1{rng.randint(0, 9)} "
                    f"0{rng.randint(0, 9)}:17:5{rng.randint(0, 9)} {rng.choice('+-')}0130",
            "absent": rng.random() < 0.06}
        faults = {}
        k = rng.random()
        if k > 0.12:
            for s in rng.sample(STEPS, rng.choice([1, 1, 1, 2, 3])):
                faults[s] = rng.choice(START + DIE + GARBLE)
            if rng.random() < 0.1:
                faults = {s: rng.choice(["enoent", "eacces", "killed"]) for s in STEPS}
            if rng.random() < 0.2:
                # whatever command comes n-th
                faults = {str(rng.randint(0, 5)): rng.choice(START + DIE + GARBLE)}
        if repo["tag"] and rng.random() < 0.3:
            repo["abbrev"] = rng.choice([7, 8, 10, 40])
        scn = {"plan": {"tasks": [], "faults": {}}, "repo": repo, "git": faults,
               "calls": rng.choice([1, 1, 2, 3]),
               "how": rng.choice(["call", "call", "call", "import", "import", "archive"])}
        if scn["how"] == "archive":
            names = rng.choice([["HEAD -> master", "tag: v1.2"], ["HEAD", "tag: v0.3", "master"],
                                ["tag: 1.0rc1", "tag: 1.0"], ["HEAD -> master"], [], ["HEAD"],
                                ["HEAD", "v1.1", "master"], ["HEAD", "v1.1", "tag: v1.0", "dev2"],
                                ["HEAD -> rel-2", "origin/rel-2", "tag: v2.0-rc1"]])
            scn["keywords"] = {"d": f" ({', '.join(names)})" if names else "", "H": repo["head"],
                               "ci": repo["date"]}
        return scn

    def run(self, scn, env):
        bad = Bad()
        git = SimGit(scn["repo"], scn["git"])
        with patched(git):
            if scn["how"] == "archive":
                V = exported(scn["keywords"])
                for _ in range(scn["calls"]):
                    self.archive(bad, env, V, git, scn)
                return bad.items, self.trace(git)
            # the package is imported afresh, so that however it refers to the subprocess module
            # it is the simulated one; failures start with the operation looked at
            for m in [m for m in sys.modules if m.split(".")[0] == "pyotf"]:
                del sys.modules[m]
            faults, git.faults = git.faults, {}
            if scn["how"] == "import":
                git.faults = faults
            try:
                import pyotf
                import pyotf._version as V
            except BaseException as e:
                bad("import", f"importing failed with {type(e).__name__}: {e} after {git.fired}")
                return bad.items, self.trace(git)
            if scn["how"] == "import":
                v = pyotf.__version__
                if not isinstance(v, str):
                    bad("import-version", f"__version__ is {v!r}")
                elif not git.fired and not scn["repo"]["absent"] and v != expected(git)["version"]:
                    bad("import-version", f"__version__ is {v!r}, not {expected(git)['version']!r}")
                env.count("imports")
            git.faults = faults
            for _ in range(scn["calls"]):
                git.calls.clear()
                n = len(git.fired)
                try:
                    r = V.get_versions()
                except BaseException as e:
                    bad("raised", f"get_versions raised {type(e).__name__}: {e} after "
                        f"{git.fired[n:]} in {scn['repo']}")
                    continue
                self.judge(bad, env, r, git, git.fired[n:], scn)
        return bad.items, self.trace(git)

    def archive(self, bad, env, V, git, scn):
        git.calls.clear()
        try:
            r = V.get_versions()
        except BaseException as e:
            bad("raised", f"get_versions raised {type(e).__name__}: {e} in an exported tree with "
                f"{scn['keywords']}")
            return
        where = f"exported tree with {scn['keywords']}: {r}"
        env.count("lookups in an exported tree")
        if not isinstance(r, dict) or set(r) != KEYS:
            bad("incomplete", where)
            return
        want = archive_record(scn["keywords"])
        if want is not None:
            if r != want:
                bad("wrong", f"{where}, expected {want}")
        elif not r["error"] or r["version"] not in ("unknown", "0+unknown"):
            bad("fallback", where)
        elif r["full-revisionid"] != scn["keywords"]["H"]:
            bad("revision", where)

    def judge(self, bad, env, r, git, fired, scn):
        where = f"after {fired} in {scn['repo']}: {r}"
        if not isinstance(r, dict) or set(r) != KEYS:
            bad("incomplete", where)
            return
        v, err = r["version"], r["error"]
        if not isinstance(v, str) or not v:
            bad("version", where)
            return
        want = expected(git)
        if not fired:
            env.count("healthy lookups")
            if want is None:
                if not err or v not in ("unknown", "0+unknown"):
                    bad("absent", where)
            elif r != want:
                bad("wrong", f"{where}, expected {want}")
            return
        env.count("lookups with a failing git")
        if err:
            env.count("fell back to an unknown version")
            if v not in ("unknown", "0+unknown"):
                bad("fallback", where)
            return
        if not PEP440.match(v):
            bad("pep440", where)
        if want is None:
            bad("absent", where)
            return
        rev = r["full-revisionid"]
        if not isinstance(rev, str) or not re.match(r"^[0-9a-f]{4,64}$", rev):
            bad("revision", where)
        # what was answered properly must be reported properly
        kinds = {f.split(":")[0]: f.split(":")[1] for f in fired}
        garbled = {s for s, k in kinds.items() if k in GARBLE}
        dead = {s for s, k in kinds.items() if k not in GARBLE}
        if not garbled & {"describe", "head", "count"} and v != want["version"]:
            bad("wrong", f"{where}, expected version {want['version']}")
        if "head" not in garbled and rev != want["full-revisionid"]:
            bad("wrong", f"{where}, expected revision {want['full-revisionid']}")
        if dead & {"gitdir", "describe", "head"}:
            bad("no-error", where)
        if "describe" not in garbled and r["dirty"] != want["dirty"]:
            bad("wrong", f"{where}, expected dirty={want['dirty']}")
        if "date" in dead and r["date"] is not None:
            bad("date", where)
        if "date" not in kinds and r["date"] != want["date"]:
            bad("date", f"{where}, expected date {want['date']}")

    @staticmethod
    def trace(git):
        return {"fired": {str(i): f for i, f in enumerate(git.fired)}, "steps": len(git.calls),
                "sig": json.dumps([git.repo, git.faults], sort_keys=True)}

    def nontrivial(self, scn, res):
        return True

    def shrink(self, scn):
        def dup():
            return json.loads(json.dumps(scn))

        for k in scn["git"]:
            c = dup()
            del c["git"][k]
            yield c
        if scn["calls"] > 1:
            yield dict(dup(), calls=1)
        if scn["how"] == "import":
            yield dict(dup(), how="call")
        for k, v in (("dirty", False), ("tag", "v1.2"), ("distance", 3), ("count", 40)):
            if scn["repo"][k] != v:
                c = dup()
                c["repo"][k] = v
                yield c


