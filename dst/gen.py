"""Seeded generators of parameters, values and operation histories."""

import copy
import random

VEC = ["none", "x", "y", "z", "total"]
COND = ["none", "sine", "herschel"]
OUT = ["PSFa", "OTFa", "PSFi", "OTFi"]
NAMES = ["piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism",
         "vertical coma", "horizontal coma", "vertical trefoil", "oblique trefoil",
         "primary spherical", "vertical secondary astigmatism",
         "oblique secondary astigmatism", "vertical quadrafoil", "oblique quadrafoil"]


def rng_for(*key):
    return random.Random("/".join(map(str, key)))


def pick(rng, d):
    """Weighted choice from {value: weight}."""
    return rng.choices(list(d), list(d.values()))[0]


LARGE = 0.04  # share of objects, retrievals and programs of a much larger size


class ModelGen:
    """Random valid parameters for one model, and random changes that keep them physical."""

    def __init__(self, rng, cls, big=False, zmax=6):
        self.rng, self.cls = rng, cls
        self.bufs = self.last = None
        self.sheppard = cls == "sheppard"
        self.units = rng.choice([1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-9])
        self.ints = self.units == 1 and rng.random() < 0.25
        ni = rng.choice([1.0, 1.33, 1.515, rng.uniform(1.0, 1.6)])
        na = ni * rng.uniform(0.55, 0.93)
        self.p = dict(wl=self.num(rng.uniform(430, 700) * self.units), na=na, ni=ni)
        self.lo = 10 if self.sheppard else 4
        self.hi = (20 if self.sheppard else 14) if not big else 24
        self.zmax = zmax
        self.large = rng.random() < LARGE
        self.p["res"] = self.new_res()
        self.p["size"] = self.new_size()
        self.p["zres"] = self.new_zres()
        self.p["zsize"] = self.new_zsize()
        self.p["dual"] = False
        self.p["vec_corr"] = rng.choice(VEC)
        self.p["condition"] = rng.choice(COND)
        if self.sheppard and rng.random() < 0.25:
            self.p.update(dual=True, vec_corr="none", condition=rng.choice(["none", "herschel"]))
        self.focus = False
        if rng.random() < 0.15:
            self.coincide()

    def coincide(self):
        """Parameters that meet a special case of the formulae."""
        r, p = self.rng, self.p
        if self.sheppard:
            # k-space pixels of the same size in all directions
            z = p["res"] * p["size"] / p["zsize"]
            if z < 0.97 * p["wl"] / 2 / p["ni"]:
                p["zres"] = z
        elif r.random() < 0.5:
            # a single plane in focus
            self.focus = True
            p["zsize"] = 1
        else:
            p["zsize"] = p["size"] = r.randint(self.lo, self.zmax + 2)
            p["zres"] = p["res"]
        if r.random() < 0.6:
            p["vec_corr"] = "none"
            if not p["dual"]:
                p["condition"] = r.choice(["none", "none", p["condition"]])

    def clone(self):
        c = copy.copy(self)
        c.p = dict(self.p)
        return c

    def abbe(self, **k):
        q = dict(self.p, **k)
        return q["wl"] / 2 / q["na"]

    def num(self, x):
        return int(round(x)) if self.ints and self.rng.random() < 0.7 else x

    def new_size(self):
        r = self.rng
        if self.large and r.random() < 0.6:
            return r.choice([24, 32, 33] if self.sheppard else [24, 32, 33, 48, 64, 65, 100, 128])
        return r.randint(self.lo, self.hi)

    def new_res(self):
        return self.num(self.abbe() * self.rng.uniform(0.35, 0.95))

    def new_zres(self):
        p = self.p
        if self.sheppard:
            return self.num(p["wl"] / 2 / p["ni"] * self.rng.uniform(0.4, 0.97))
        return self.num(p["wl"] * self.rng.uniform(0.2, 1.2))

    def new_zsize(self):
        r = self.rng
        return r.randint(10, 18) if self.sheppard else r.randint(1, self.zmax)

    def kw(self):
        """Constructor keywords; sometimes relies on the defaults."""
        r, p = self.rng, self.p
        kw = {k: p[k] for k in ("wl", "na", "ni", "res", "size", "vec_corr", "condition")}
        if r.random() < 0.85:
            kw["zres"], kw["zsize"] = p["zres"], p["zsize"]
        else:
            p["zsize"] = p["size"]
            p["zres"] = p["res"]
            if self.sheppard and p["zres"] >= 0.97 * p["wl"] / 2 / p["ni"]:
                p["zres"] = kw["zres"] = self.new_zres()
        if p["condition"] == "sine" and r.random() < 0.5:
            del kw["condition"]
        if self.sheppard:
            if p["dual"] or r.random() < 0.3:
                kw["dual"] = p["dual"]
        elif self.focus and "zsize" in kw:
            kw["zrange"] = r.choice([[0], [0.0], 0, {"$arr": [0.0]}])
        elif r.random() < 0.2:
            kw["zrange"] = self.new_zrange()
        return kw

    def new_zrange(self):
        r = self.rng
        u = self.p["wl"]
        kind = r.random()
        if kind < 0.04:
            return r.choice([[0], 0, {"$arr": [0.0]}])
        if kind < 0.12:
            return round(r.uniform(-2, 2), 6) * u
        n = r.randint(1, self.zmax)
        if kind < 0.3:
            # nearly what the model would choose itself
            p = self.p
            z = [(i - (p["zsize"] + 1) // 2) * p["zres"] for i in range(p["zsize"])]
            how = r.choice(["one", "one", "reverse", "shift", "scale", "short", "same"])
            if how == "one":
                z[r.randrange(len(z))] += p["zres"] * r.choice([0.1, -0.3, 1e-6, 1.0])
            elif how == "reverse":
                z = z[::-1]
            elif how == "shift":
                z = [v + p["zres"] * r.choice([1, 0.5]) for v in z]
            elif how == "scale":
                z = [v * r.choice([0.5, 2, 1 + 1e-6]) for v in z]
            elif how == "short" and len(z) > 1:
                z = z[:-1]
        elif kind < 0.5:
            z = [r.uniform(-2, 2) * u for _ in range(n)]
        elif kind < 0.85:
            s = r.uniform(0.2, 1) * u
            z0 = r.uniform(-1, 1) * u
            z = [z0 + i * s for i in range(n)]
        else:
            z = [r.randint(-3, 3) * (u if self.units < 1e-6 else 1) for _ in range(n)]
        if r.random() < 0.6:
            v = {"$arr": z}
            if r.random() < 0.3:
                v["ro"] = True
            if r.random() < 0.2 and n > 1:
                v["layout"] = r.choice(["neg", "strided"])
            return v
        return z if r.random() < 0.6 else {"$t": z}

    def tiny(self, x):
        r = self.rng
        return x * (1 + r.choice([-1, 1]) * 10.0 ** r.uniform(-7.5, -3))

    def change(self, attr=None):
        """(attr, value) of a change that must be accepted; updates the tracked parameters."""
        r, p = self.rng, self.p
        attrs = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"]
        attrs.append("dual" if self.sheppard else "zrange")
        for _ in range(200):
            a = attr or r.choice(attrs)
            if a == "zrange":
                return a, self.keep("z", self.new_zrange())
            mode = pick(r, {"new": 70, "tiny": 14, "equal": 12, "npf": 4})
            cur = p[a]
            if a in ("wl", "na", "ni", "res", "zres"):
                if mode == "equal":
                    v = cur
                elif mode == "tiny":
                    v = self.tiny(cur)
                elif a == "wl":
                    v = self.num(r.uniform(430, 700) * self.units)
                elif a == "na":
                    v = p["ni"] * r.uniform(0.5, 0.95)
                elif a == "ni":
                    v = r.choice([1.0, 1.33, 1.515, r.uniform(1.0, 1.6)])
                elif a == "res":
                    v = self.new_res()
                else:
                    v = self.new_zres()
            elif a in ("size", "zsize"):
                v = cur if mode == "equal" else (
                    self.new_size() if a == "size" else self.new_zsize())
            elif a == "vec_corr":
                v = r.choice(VEC)
            elif a == "condition":
                v = r.choice(COND)
            else:
                v = r.random() < 0.5
            q = dict(p, **{a: v})
            if not self.ok(q):
                if attr and _ > 50:
                    return None
                continue
            self.p = q
            if mode == "npf" and isinstance(v, float):
                return a, {"$np": "float64", "v": v}
            return a, v
        return None

    def ok(self, q):
        if q["na"] >= 0.97 * q["ni"]:
            return False
        if q["res"] >= 0.98 * q["wl"] / 2 / q["na"]:
            return False
        if self.sheppard:
            if q["zres"] >= 0.98 * q["wl"] / 2 / q["ni"]:
                return False
            if q["dual"] and (q["vec_corr"] != "none" or q["condition"] == "sine"):
                return False
        return True

    def invalid(self):
        """(attr, value) the model must refuse."""
        r, p = self.rng, self.p
        c = [("wl", -p["wl"]), ("wl", "blue"), ("wl", None), ("na", -0.5), ("na", "1.2"),
             ("na", {"$t": [1.0]}), ("ni", -1.33), ("ni", None), ("size", -4), ("size", 12.0),
             ("size", "8"), ("zsize", -3), ("zsize", 4.5), ("zsize", None), ("zres", -1.0),
             ("zres", 0.0), ("zres", "1"), ("zres", {"$nan": 1}),
             ("res", p["wl"] / p["na"]), ("res", p["wl"] / 2 / p["na"] * 1.0001), ("res", "x"),
             ("vec_corr", "total "), ("vec_corr", None), ("vec_corr", "NONE"),
             ("condition", "abbe"), ("condition", None), ("wl", {"$np": "float32", "v": 500.0}),
             ("size", {"$np": "int64", "v": 9})]
        if self.sheppard:
            c += [("dual", 1), ("dual", None), ("zres", p["wl"] / 2 / p["ni"] * 1.001)]
        else:
            c += [("zrange", [[0.0], [1.0, 2.0]])] * 2
        return r.choice(c)

    def pupil(self):
        r = self.rng
        n = self.p["size"]
        kind = pick(r, {"complex": 60, "uniform": 14, "ideal": 9, "again": 9, "typed": 6, "zero": 2})
        if kind == "again" and self.last is not None and self.last["shape"] == [n, n]:
            # the one applied before, or nearly so
            v = dict(self.last)
            if r.random() < 0.6:
                v["scale"] = v["scale"] * (1 + 10.0 ** r.uniform(-7, -4))
            return v
        seed = r.randint(0, 10 ** 6)
        v = {"$rand": seed, "shape": [n, n], "kind": "complex", "scale": r.uniform(0.1, 1)}
        if kind == "ideal":
            v.update(kind="ideal", of={k: self.p[k] for k in ("wl", "na", "res", "size")},
                     scale=r.choice([0, 10.0 ** r.uniform(-7, -4), 10.0 ** r.uniform(-4, -1)]))
            return v
        if kind == "typed":
            v["dtype"] = r.choice(["complex64", "float32", "float64", "int64", "bool", "uint8"])
            v["layout"] = r.choice(["F", "strided", None])
            return v
        if kind == "zero":
            return dict(v, kind="uniform", scale=0.0)
        if kind == "uniform":
            v["kind"] = kind
        self.last = v
        return self.keep(f"p{n}", v)

    def keep(self, what, spec):
        """Sometimes one of the caller's buffers, used again and again."""
        r = self.rng
        if self.bufs is None or r.random() > 0.45 or not isinstance(spec, dict) \
                or "ro" in spec or "$t" in spec:
            return spec
        bufs = self.bufs.setdefault(what, {})
        if not bufs or (len(bufs) < 2 and r.random() < 0.4):
            name = f"{what}/{len(bufs)}/{r.randint(0, 10 ** 6)}"
            bufs[name] = spec
        name = r.choice(list(bufs))
        out = {"$keep": name, "v": bufs[name]}
        if r.random() < 0.4:
            out["scrib"] = r.randint(1, 10 ** 6)
        return out

    def bad_pupil(self):
        r = self.rng
        n = self.p["size"]
        return r.choice([
            {"$rand": 1, "shape": [n + 1, n + 2], "kind": "complex"},
            {"$rand": 1, "shape": [n], "kind": "complex"},
            {"$rand": 1, "shape": [1, n, n], "kind": "complex"},
            None, "pupil", {"$arr": 2.0},
        ])

    def coefs(self, n=None):
        r = self.rng
        n = n or r.choice([1, 2, 4, 6, 11, 15, 22, 37])
        return {"$rand": r.randint(0, 10 ** 6), "shape": [n], "kind": "normal", "scale": 0.3}

    def aberr(self, src, to):
        r = self.rng
        k = r.random()
        if k < 0.5:
            n = r.choice([1, 2, 4, 6, 11, 15, 22, 37])
            m = self.coefs(n) if r.random() < 0.5 else None
            p = self.coefs(n) if m is None or r.random() < 0.7 else None
            if r.random() < 0.05:
                m = p = None
            return {"op": "aberr", "o": src, "to": to, "m": m, "p": p}
        if k < 0.8:
            return {"op": "named", "o": src, "to": to, "name": r.choice(NAMES),
                    "mag": magnitude(r)}
        names = r.sample(NAMES, r.randint(1, 4))
        return {"op": "nameds", "o": src, "to": to,
                "v": {n: magnitude(r) for n in names}}


def mk(rng, to, cls=None, **k):
    """(op, generator) creating a model."""
    cls = cls or rng.choice(["hanser", "hanser", "sheppard"])
    g = ModelGen(rng, cls, **k)
    return {"op": "mk", "to": to, "cls": cls, "kw": g.kw()}, g


# ----------------------------------------------------------------------- retrieval
def data_spec(rng, nmax=16, counts=False, **over):
    ni = rng.choice([1.0, 1.33, 1.515])
    na = ni * rng.uniform(0.6, 0.9)
    wl = rng.uniform(450, 650)
    res = wl / 2 / na * rng.uniform(0.4, 0.9)
    zres = wl * rng.uniform(0.3, 0.9)
    u = rng.choice([1, 1, 1, 1e-3, 1e-9])
    wl, res, zres = wl * u, res * u, zres * u
    n = rng.randint(10, nmax) if rng.random() > LARGE else rng.choice([24, 32, 33, 48, 64])
    s = dict(wl=wl, na=na, ni=ni, res=res, zres=zres, size=n, nz=rng.randint(3, 6),
             seed=rng.randint(0, 10 ** 6), amp=rng.choice([0.1, 0.3, 0.8, 1.5]),
             mamp=rng.choice([0.0, 0.02]), noise=rng.choice([0, 1e-3, 0.02]))
    if counts:
        s.update(kind="counts", peak=rng.choice([100, 1000, 5000]), bg=rng.choice([3, 20]),
                 dtype=rng.choice(["int64", "uint16", "int32"]))
    s.update(over)
    return s


def params_of(s):
    return {k: s[k] for k in ("wl", "na", "ni", "res", "zres")}


def steps(rng, lo, hi):
    """Length of a history, now and then a very long one."""
    return rng.randint(lo, hi) * (5 if rng.random() < LARGE / 2 else 1)


def iterations(rng, s, lo, hi):
    """Number of iterations, now and then a long retrieval."""
    if s["size"] <= 16 and rng.random() < LARGE:
        return rng.choice([20, 30, 51, 64, 101, 200])
    return rng.randint(lo, hi)


def retr_kw(rng, s, lo=2, hi=12):
    kw = {"max_iters": iterations(rng, s, lo, hi)}
    if rng.random() < 0.4:
        kw["pupil_tol"] = 10 ** rng.uniform(-6, -1)
    if rng.random() < 0.4:
        kw["mse_tol"] = 10 ** rng.uniform(-6, -1)
    if rng.random() < 0.3:
        kw["phase_only"] = True
    return kw


def retrieve(rng, to, **k):
    s = data_spec(rng, **k)
    return {"op": "retrieve", "to": to, "data": {"$psf": s}, "params": params_of(s),
            "kw": retr_kw(rng, s)}, s


def gen_kw(rng, s):
    kw = {}
    if rng.random() < 0.5:
        kw["size"] = rng.choice([s["size"], s["size"] + rng.randint(1, 7),
                                 max(3, s["size"] - rng.randint(1, 5))])
    k = rng.random()
    if k < 0.3:
        kw["zsize"] = rng.randint(1, 6)
    elif k < 0.7:
        kw["zrange"] = {"$arr": [rng.uniform(-2, 2) * s["wl"] for _ in range(rng.randint(1, 5))]}
        if rng.random() < 0.2:
            kw["zrange"] = rng.uniform(-1, 1) * s["wl"]
    return kw


def result_read(rng, r, s, fit=None, zd=True):
    """One read-only operation on a retrieval result."""
    k = pick(rng, {"attr": 3, "gen": 4, "genzd": 3 if zd else 0, "zd": 3 if zd else 0,
                   "fit": 2 if fit else 0})
    if k == "attr":
        return {"op": "get", "o": r, "a": rng.choice(
            ["mag", "phase", "mse", "mse_diff", "pupil_diff", "complex_pupil", "na", "wl",
             "r", "theta"])}
    if k == "gen":
        return {"op": "gen", "o": r, "kw": gen_kw(rng, s)}
    if k == "genzd":
        kw = gen_kw(rng, s)
        if rng.random() < 0.5:
            kw["sphase"] = rand_slice(rng)
        return {"op": "genzd", "o": r, "kw": kw}
    if k == "fit":
        return {"op": "fit", "o": r, "n": fit}
    m = rng.choice(["phase", "mag", "complex_pupil"])
    if m == "complex_pupil":
        return {"op": "zdget", "o": r + ".zd_result", "meth": m, "args": [],
                "kw": {"smag": rand_slice(rng), "sphase": rand_slice(rng)}}
    return {"op": "zdget", "o": r + ".zd_result", "meth": m, "args": [rand_slice(rng)]}


def rand_slice(rng):
    return rng.choice([{"$s": [None]}, {"$s": [4, None, None]}, {"$s": [rng.randint(0, 3), rng.randint(4, 9)]},
                       {"$s": [None, None, 2]}, {"$s": [1, None]}])


# ----------------------------------------------------------------------- microscopes
class ScopeGen:
    KINDS = {"widefield": 2, "confocal": 4, "apotome": 1, "sim2d": 3, "sim3d": 2, "lattice": 2,
             "sim": 1}

    def __init__(self, rng, kind=None, model=None):
        self.rng = r = rng
        self.kind = kind or pick(rng, self.KINDS)
        self.model = model or r.choice(["hanser", "hanser", "sheppard"])
        self.sheppard = self.model == "sheppard"
        self.units = r.choice([1.0, 1.0, 1e-3, 1e-3, 1e-9])
        ni = r.choice([1.33, 1.515])
        na = ni * r.uniform(0.65, 0.92)
        wl = r.uniform(480, 650) * self.units
        # without oversampling the pixel must stay below the Abbe limit, and (because zres
        # defaults to the pixel size) below wl/2/ni for the Sheppard model, also for excitation
        lim = min(wl / 2 / na, wl / 2 / ni)
        self.s = dict(model=self.model, na=na, ni=ni, wl=wl, size=r.randint(8, 11),
                      pixel_size=lim * r.uniform(0.4, 0.7), oversample_factor=r.choice([1, 1, 3]))
        if self.sheppard:
            self.s["size"] = r.randint(9, 12)
        if r.random() < LARGE:
            self.s["size"] = r.choice([16, 17, 24] if self.sheppard else [16, 17, 32, 33, 43])
        s = self.s
        if self.sheppard:
            s["zsize"] = r.randint(10, 14)
        elif r.random() < 0.7:
            s["zsize"] = r.randint(2, 6)
        if r.random() < 0.3:
            s["zres"] = lim * r.uniform(0.4, 0.7)
        if r.random() < 0.4:
            s["vec_corr"] = r.choice(VEC)
        if r.random() < 0.4:
            s["condition"] = r.choice(COND)
        if not self.sheppard and self.kind in ("widefield", "confocal") and r.random() < 0.2:
            s["zrange"] = [r.uniform(-1, 1) * wl for _ in range(r.randint(1, 5))]
        if self.kind == "confocal":
            s["wl_exc"] = self.new_wl()
            s["pinhole_size"] = self.new_pinhole()
        elif self.kind in ("sim2d", "sim3d", "lattice", "sim"):
            s["na_exc"] = r.choice([None, na, na * r.uniform(0.4, 1.0), na * r.uniform(0.4, 1.0)])
            s["wl_exc"] = r.choice([None, self.new_wl()])
            s["wiener"] = self.new_wiener()
            s["dc_suppress"] = r.random() < 0.5
            if self.kind != "lattice":
                s["orientations"] = self.new_orient()
            if self.kind == "sim":
                s["coherent"], s["dc"] = r.random() < 0.5, r.random() < 0.5
        self.settings = dict(s)
        if self.kind == "sim2d":
            self.settings.update(coherent=False, dc=False)
        elif self.kind == "sim3d":
            self.settings.update(coherent=False, dc=True)
        elif self.kind == "lattice":
            self.settings.update(coherent=True, dc=True, orientations=[0.0, 1.5707963267948966])
        if self.kind.startswith("sim") or self.kind == "lattice":
            if self.settings["na_exc"] is None:
                self.settings["na_exc"] = na
            if self.settings["wl_exc"] is None:
                self.settings["wl_exc"] = wl

    def clone(self):
        c = copy.copy(self)
        c.settings = dict(self.settings)
        return c

    def new_wl(self):
        return self.s["wl"] * self.rng.choice([1.0] + 7 * [self.rng.uniform(0.85, 0.98)])

    def new_pinhole(self):
        return self.rng.choice([0.0, self.rng.uniform(0.2, 4), self.rng.uniform(0.5, 2), 1])

    def new_wiener(self):
        return self.rng.choice([None, None, 0.0, 10 ** self.rng.uniform(-3, 0), 0.1])

    def new_orient(self):
        n = self.rng.randint(1, 4)
        if self.rng.random() < 0.1:
            # around the circle, or the same direction again
            return [i * 3.141592653589793 / self.rng.choice([2, 3, n]) for i in range(n)]
        return [self.rng.uniform(0, 3.14) for _ in range(n)]

    def op(self, to):
        kw = dict(self.s)
        if "orientations" in kw and self.rng.random() < 0.5:
            kw["orientations"] = {"$t": kw["orientations"]}
        if "zrange" in kw:
            kw["zrange"] = {"$arr": kw["zrange"]}
        return {"op": "mk", "to": to, "cls": self.kind, "kw": kw}

    def adjustable(self):
        a = ["oversample_factor"]
        if self.kind == "confocal":
            a += ["pinhole_size", "wl_exc"]
        if self.kind in ("sim2d", "sim3d", "lattice", "sim"):
            a += ["na_exc", "wl_exc", "wiener", "coherent", "dc", "dc_suppress", "orientations"]
        return a

    def change(self, attr=None):
        r, t = self.rng, self.settings
        a = attr or r.choice(self.adjustable())
        mode = pick(r, {"new": 75, "tiny": 13, "equal": 12})
        cur = t.get(a)
        if a == "oversample_factor":
            v = r.choice([1, 3])
            if not self.sheppard and t["size"] < 10 and r.random() < 0.2:
                v = 5
        elif a == "orientations":
            v = self.new_orient()
            if r.random() < 0.3:
                v = list(cur)
                v[r.randrange(len(v))] += r.choice([1e-6, 0.3])
        elif a in ("coherent", "dc", "dc_suppress"):
            v = r.random() < 0.5
        elif mode == "equal":
            v = cur
        elif mode == "tiny" and isinstance(cur, float) and cur:
            v = cur * (1 - 10.0 ** r.uniform(-7, -3))
        elif a == "pinhole_size":
            v = self.new_pinhole()
        elif a == "wl_exc":
            v = self.new_wl()
        elif a == "na_exc":
            v = t["na"] * r.choice([1.0, 0.5] + 6 * [r.uniform(0.4, 1.0)])
        elif a == "wiener":
            v = self.new_wiener()
        else:
            raise ValueError(a)
        t[a] = v
        if a == "orientations":
            return a, r.choice([v, {"$t": v}, {"$arr": v}])
        return a, v

    def invalid(self):
        r = self.rng
        c = [("oversample_factor", -1), ("oversample_factor", 1.5), ("oversample_factor", "3")]
        if self.kind == "confocal":
            c += [("pinhole_size", -1.0), ("pinhole_size", None), ("wl_exc", -1.0), ("wl_exc", "x")]
        if self.kind in ("sim2d", "sim3d", "lattice", "sim"):
            c += [("na_exc", -1.0), ("na_exc", None), ("wl_exc", "x"), ("coherent", 1),
                  ("dc", None), ("dc_suppress", "yes")]
        return r.choice(c)


# ----------------------------------------------------------------------- schedules
def lockstep(rng):
    """Every thread in turn, a line or a few each."""
    return {"kind": "lock", "run": rng.choice([1, 1, 1, 2, 3]), "off": rng.choice([0, 0, 1, 2, 7]),
            "seed": rng.randint(0, 2 ** 31)}


def schedule(rng, steps_hint=400):
    k = rng.random()
    seed = rng.randint(0, 2 ** 31)
    if k < 0.1:
        return lockstep(rng)
    if k < 0.25:
        return {"kind": "walk", "p": rng.choice([0.02, 0.05, 0.15, 0.4, 0.8]), "seed": seed}
    if k < 0.37:
        d = rng.randint(1, 6)
        return {"kind": "pct", "seed": seed,
                "change": sorted(rng.randint(1, max(2, steps_hint)) for _ in range(d))}
    if k < 0.7:
        return {"kind": "site", "seed": seed,
                "pts": [[rng.random(), rng.random(), rng.choice([0.0, rng.random()])]
                        for _ in range(rng.choice([1, 1, 2, 3, 5]))]}
    if k < 0.93:
        # two threads stopped at (nearly) the same place, then continued one after the other
        return {"kind": "meet", "seed": seed, "u": [rng.random() for _ in range(3)],
                "visit": rng.choice([0.0, 0.0, rng.random()]),
                "off": rng.choice([0, 0, 1, 2, 5]), "again": rng.random() < 0.3}
    return {"kind": "ops", "p": rng.choice([0.3, 0.7]), "seed": seed}


def clock(rng):
    """A clock that runs fast or slow (a stalled machine) and jumps."""
    return {"start": rng.choice([1.7e9, 4.1e9, 1.65e9]), "tick": rng.choice([1e-7, 1e-3, 1.0, 600.0]),
            "step": rng.choice([0.0, 1e-6, 1e-3, 1.0]),
            "jumps": [[rng.randint(1, 20), rng.choice([-3600.0, -1.0, 3600.0, 1e7])]
                      for _ in range(rng.choice([0, 0, 1, 2]))]}


def surroundings(rng, scn):
    """What the machine is like: how its clock runs, what its memory holds before it is used."""
    if "plan" in scn and rng.random() < 0.3:
        scn["plan"]["clock"] = clock(rng)
    if "plan" in scn and rng.random() < 0.6:
        scn["plan"]["dirt"] = rng.choice([1.0, -0.37, 1e-3, 1e300])


def plot_kw(rng, op):
    """Options for a picture of a PSF or an OTF, every now and then."""
    if op["meth" if "meth" in op else "f"] not in ("plot_psf", "plot_otf", "psf_plot", "otf_plot"):
        return op
    psf = op.get("meth", op.get("f")) in ("plot_psf", "psf_plot")
    kw = dict(op.get("kw", {}))
    if psf and rng.random() < 0.3:
        kw["mip"] = False
    if rng.random() < 0.3:
        for k in rng.sample(["vmin", "vmax", "cmap", "interpolation"] + ["gamma"] * psf,
                            rng.randint(1, 3)):
            kw[k] = {"vmin": rng.choice([1e-3, 1e-2]), "vmax": rng.choice([0.5, 1.0]),
                     "cmap": rng.choice(["gray", "viridis"]), "interpolation": "bilinear",
                     "gamma": rng.choice([0.3, 1.0])}[k]
    if kw:
        op["kw"] = kw
    return op


def private_figures(tasks):
    """Figures of threads' own, not known to pyplot."""
    for ops in tasks:
        for op in ops:
            if op.get("fig") == "supplied":
                op["pyplot"] = False


def magnitude(rng):
    """Of an aberration: anything, nothing, or a whole number."""
    return rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), 1, 0, 0.0, -1])


def display_op(rng):
    """A picture of the caller's own data."""
    n, z = rng.randint(4, 12), rng.randint(3, 6)
    f = rng.choice(["psf_plot", "otf_plot"])
    a = {"$rand": rng.randint(0, 10 ** 6), "shape": [z, n, n], "kind": "uniform"}
    if f == "psf_plot" and rng.random() < 0.4:
        a = dict(a, shape=[z, n, n + 2], kind="poisson", scale=20)
    kw = {"zres": rng.uniform(0.1, 0.4), "res": rng.uniform(0.05, 0.2)}
    if f == "otf_plot":
        kw.update(na=rng.uniform(0.8, 1.2), ni=rng.choice([1.33, 1.515]), wl=rng.uniform(0.4, 0.7))
    op = {"op": "fn", "f": f, "args": [a], "kw": kw}
    if rng.random() < 0.5:
        op["fig"] = "supplied"
    return plot_kw(rng, op)


# ----------------------------------------------------------------------- plain functions
def fn_op(rng, f=None):
    """A call of one of the package's functions with valid arguments."""
    f = f or rng.choice(["zernike", "zernike", "noll2degrees", "degrees2noll", "cart2pol", "fft_pad",
                    "fft_pad", "slice_maker", "easy_fft", "easy_ifft", "center_data", "remove_bg",
                    "psqrt", "prep_data_for_PR", "prep_data_for_PR", "bin_ndarray",
                    "radial_profile", "named_aberration_to_pcoefs", "max_min", "z_squeeze",
                    "fft_max_min"])
    R = lambda shape, **k: dict({"$rand": rng.randint(0, 10 ** 6), "shape": list(shape)}, **k)  # noqa: E731
    n, m, z = rng.randint(4, 12), rng.randint(4, 12), rng.randint(2, 5)
    kw = {}
    if f == "zernike":
        sh = rng.choice([(n, n), (n, n), (n, m), (n,)])
        a = [R(sh, kind="uniform", scale=1.4), R(sh, kind="uniform", scale=6.28)]
        k = rng.random()
        if k < 0.3:
            a.append(rng.randint(1, 60))
        elif k < 0.7:
            nolls = [rng.randint(1, 60) for _ in range(rng.randint(1, 6))]
            a.append(rng.choice([{"$arr": nolls}, nolls, {"$t": nolls}]))
        else:
            ns = [rng.randint(0, 6) for _ in range(rng.randint(1, 4))]
            ms = [nn - 2 * rng.randint(0, nn) for nn in ns]
            a += rng.choice([[ns[0], ms[0]], [{"$arr": ns}, {"$arr": ms}], [ns, ms],
                             [{"$arr": [ns, ms]}] if len(ns) > 1 else [{"$t": [ns[0], ms[0]]}]])
            if len(a) == 3 and "$t" in a[2]:
                a = a[:2] + [ns[0], ms[0]]
        if rng.random() < 0.3:
            kw["norm"] = False
    elif f == "noll2degrees":
        js = [rng.randint(1, 100) for _ in range(rng.randint(1, 9))]
        a = [rng.choice([{"$arr": js}, js, {"$t": js}, js[0],
                         {"$arr": [js[:len(js) // 2], js[:len(js) // 2]]}])]
        if a[0] == {"$arr": [[], []]}:
            a = [js]
    elif f == "degrees2noll":
        ns = [rng.randint(0, 8) for _ in range(rng.randint(1, 6))]
        ms = [q - 2 * rng.randint(0, q) for q in ns]
        a = rng.choice([[{"$arr": ns}, {"$arr": ms}], [ns, ms], [ns[0], ms[0]]])
    elif f == "cart2pol":
        a = rng.choice([[R((n, m)), R((n, m))], [R((n,)), R((n,))], [R((n, 1)), R((1, m))]])
    elif f == "fft_pad":
        a = [R((z, n, m))]
        k = rng.random()
        if k < 0.5:
            new = [rng.choice([z, None]), rng.randint(3, 14), rng.randint(3, 14)]
            a.append(rng.choice([{"$t": new}, new,
                                 {"$arr": [z] + new[1:]}]))
        elif k < 0.7:
            a.append(rng.randint(3, 14))
        elif k < 0.85:
            # nothing to pad
            a.append({"$t": [z, n, m]})
        kw["mode"] = rng.choice(["constant", "median", "edge", "constant"])
    elif f == "slice_maker":
        xy = [rng.randint(0, 40), rng.randint(0, 40)]
        if rng.random() < 0.5:
            xy = [v + rng.random() for v in xy]
        ws = [rng.randint(0, 9), rng.randint(0, 30)]
        if rng.random() < 0.3:
            ws = [v + rng.random() for v in ws]
        a = [rng.choice([{"$t": xy}, xy, {"$arr": xy}, {"$arr": xy}]),
             rng.choice([ws[0], {"$t": ws}, ws, {"$arr": ws}])]
    elif f in ("easy_fft", "easy_ifft"):
        a = [R((z, n, m), kind=rng.choice(["normal", "complex"]))]
        if rng.random() < 0.6:
            kw["axes"] = rng.choice([{"$t": [1, 2]}, [0, 1], [1, 2], {"$t": [0]}])
        elif rng.random() < 0.3:
            a = [R((n, m), kind="complex")]
    elif f == "center_data":
        a = [rng.choice([R((z, n, m)), R((n, m)), R((n,)),
                         R((z, n, m), kind="poisson", scale=30)])]
        if rng.random() < 0.3:
            a[0]["peak"] = 1
    elif f == "remove_bg":
        a = [R((z, n, m), kind="poisson", scale=rng.choice([0.3, 3, 30]),
               dtype=rng.choice(["int64", "int64", "uint16", "int32", "uint8"]))]
        if rng.random() < 0.5:
            a.append(rng.choice([0, 1, rng.uniform(0.5, 2)]))
    elif f == "psqrt":
        a = [R((n, m))]
    elif f == "prep_data_for_PR":
        a = [R((z, n, m), kind="poisson", scale=rng.choice([0.3, 3, 30]),
               dtype=rng.choice(["int64", "int64", "uint16", "int32"]))]
        if rng.random() < 0.7:
            a.append(rng.choice([rng.randint(3, 16), n, m]))
        if rng.random() < 0.2:
            a[0]["peak"] = 1
        if rng.random() < 0.5:
            kw["multiplier"] = rng.uniform(0.5, 2)
    elif f == "bin_ndarray":
        k = rng.randint(1, 3)
        a = [R((z, k * n, k * m), kind=rng.choice(["normal", "complex", "poisson"]))]
        h = rng.random()
        if h < 0.35:
            new = [z, n, m]
            kw = {"new_shape": rng.choice([{"$t": new}, new, {"$arr": new}])}
        elif h < 0.5:
            a = [R((k * n + rng.randint(0, k - 1), k * m))]
            kw = {"bin_size": k}
        else:
            b = [1, k, k]
            kw = {"bin_size": rng.choice([{"$t": b}, b, {"$arr": b}])}
        kw["operation"] = rng.choice(["sum", "mean", "Mean"])
    elif f == "radial_profile":
        a = [R((n, m), kind=rng.choice(["normal", "complex"]))]
        if rng.random() < 0.3:
            c = [rng.randint(0, n - 1), rng.randint(0, m - 1)]
            kw["center"] = rng.choice([{"$t": c}, c, {"$arr": c}, {"$arr": [c[0] + 0.5, c[1]]}])
        if rng.random() < 0.3:
            kw["binsize"] = rng.choice([1.0, 2, 1.5])
    elif f == "named_aberration_to_pcoefs":
        a = [rng.choice(NAMES), magnitude(rng)]
    elif f in ("max_min", "fft_max_min"):
        a = [rng.randint(2, 40), rng.uniform(0.1, 3)]
    else:
        a = [rng.uniform(1, 1.6), rng.uniform(1, 1.6), rng.uniform(0.3, 1.4)]
    return {"op": "fn", "f": f, "args": a, "kw": kw}


# ----------------------------------------------------------------------- mixed programs
class Prog:
    """Builds one client's program: valid operations on its own objects and plain calls.

    With `inputs` (a dict), every array, list or mapping argument becomes a named caller-owned
    input ({"$in": name}), so that a check can watch or overwrite it.
    """

    WEIGHTS = {"model": 6, "scope": 2, "result": 2, "fn": 4, "labview": 0.5}

    def __init__(self, rng, pre="", inputs=None, plots=False, weights=None, ro=0.3, iters=(2, 7),
                 nmax=14, drops=0.0, long=True, parts=False):
        self.rng, self.pre, self.inputs, self.plots = rng, pre, inputs, plots
        self.weights = dict(weights or self.WEIGHTS)
        self.objs = {}
        self.ops = []
        self.n = 0
        self.ro = ro
        self.iters, self.nmax = iters, nmax
        self.drops = drops
        self.long = long
        self.parts = parts

    # -- values
    def val(self, v, key="v"):
        if self.inputs is None or not isinstance(v, (dict, list)):
            return v
        if isinstance(v, dict) and set(v) <= {"$np", "v", "$nan", "$s", "$in", "$obj"}:
            return v
        if isinstance(v, dict) and ("$arr" in v or "$rand" in v or "$psf" in v):
            v = dict(v)
            if not v.get("list") and self.rng.random() < self.ro:
                v["ro"] = True
            if not v.get("list") and "layout" not in v and self.rng.random() < 0.15 \
                    and v.get("$arr") is None:
                v["layout"] = self.rng.choice(["F", "strided", "neg"])
        name = f"{self.pre}{key}{len(self.inputs)}"
        self.inputs[name] = v
        return {"$in": name}

    def name(self, kind):
        self.n += 1
        return f"{self.pre}{kind}{self.n}"

    def add(self, *ops):
        self.ops += ops
        return ops[-1]

    def fix(self, op):
        """Route the arguments of an operation through the inputs."""
        op = dict(op)
        for f in ("v", "m", "p", "data", "params"):
            if f in op:
                op[f] = self.val(op[f], f)
        if "kw" in op:
            op["kw"] = {k: self.val(v, k) for k, v in op["kw"].items()}
        if "args" in op:
            op["args"] = [self.val(v, "a") for v in op["args"]]
        return op

    # -- creation
    def create(self, kind=None):
        rng = self.rng
        kind = kind or pick(rng, {k: self.weights.get(k, 0) for k in ("model", "scope", "result")})
        to = self.name(kind[0])
        if kind in ("model", "hanser", "sheppard"):
            op, g = mk(rng, to, None if kind == "model" else kind)
            self.objs[to] = {"kind": "model", "cls": op["cls"], "g": g}
        elif kind == "scope":
            g = ScopeGen(rng)
            op = g.op(to)
            self.objs[to] = {"kind": "scope", "g": g}
        else:
            op, s = retrieve(rng, to, nmax=self.nmax)
            op["kw"]["max_iters"] = iterations(rng, s, *self.iters) if self.long else \
                rng.randint(*self.iters)
            self.objs[to] = {"kind": "result", "s": s, "fit": None}
        self.add(self.fix(op))
        return to

    def touch(self, n):
        """Something that makes the object compute anew."""
        g = self.objs[n]["g"]
        if self.objs[n]["cls"] == "hanser" and self.rng.random() < 0.6:
            return self.add(self.fix({"op": "pupil", "o": n, "v": g.pupil()}))
        c = g.change() or ("vec_corr", "none")
        return self.add(self.fix({"op": "set", "o": n, "a": c[0], "v": c[1]}))

    def pickobj(self, kind):
        names = [n for n, o in self.objs.items() if o["kind"] == kind]
        if not names or (len(names) < 3 and self.rng.random() < 0.25):
            return self.create(kind)
        return self.rng.choice(names)

    # -- one step
    def step(self):
        rng = self.rng
        kind = pick(rng, self.weights)
        if self.drops and self.objs and rng.random() < self.drops:
            # an object is dropped; a new one of the kind may take its place in memory
            n = rng.choice(list(self.objs))
            o = self.objs.pop(n)
            self.add({"op": "del", "o": n})
            like = [m for m, q in self.objs.items() if (q["kind"], q.get("cls")) ==
                    (o["kind"], o.get("cls"))]
            if like and o["kind"] != "result" and rng.random() < 0.5:
                src = rng.choice(like)
                to = self.name(src[len(self.pre)])
                self.objs[to] = dict(self.objs[src], g=self.objs[src]["g"].clone())
                self.add({"op": "copy", "o": src, "to": to,
                          "how": rng.choice(["copy", "deepcopy", "pickle"])})
            else:
                to = self.create(o.get("cls") or o["kind"])
            if self.objs[to]["kind"] == "model" and rng.random() < 0.4:
                (self.model_step if rng.random() < 0.5 else self.touch)(to)
            return self.add({"op": "probe", "o": to})
        if kind == "fn":
            op = display_op(rng) if self.plots and rng.random() < 0.12 else fn_op(rng)
        elif kind == "labview":
            op = self.labview()
        elif kind == "model":
            return self.model_step(self.pickobj("model"))
        elif kind == "scope":
            return self.scope_step(self.pickobj("scope"))
        else:
            return self.result_step(self.pickobj("result"))
        return self.add(self.fix(op))

    def labview(self):
        rng = self.rng
        s = data_spec(rng, 12, counts=True, nz=rng.randint(3, 4))
        kw = dict(params_of(s), max_iters=iterations(rng, s, *self.iters) if self.long else
                  rng.randint(*self.iters))
        if rng.random() < 0.4:
            kw["phase_only"] = rng.random() < 0.5
        if rng.random() < 0.4:
            kw["mse_tol"] = kw["pupil_tol"] = 10 ** rng.uniform(-5, -1)
        return {"op": "labview", "args": [{"$psf": s, "list": True}], "kw": kw}

    def model_step(self, n):
        rng, o = self.rng, self.objs[n]
        g = o["g"]
        h = o["cls"] == "hanser"
        k = pick(rng, {"get": 10, "set": 7, "pupil": 3 if h else 0, "aberr": 3 if h else 0,
                       "copy": 1, "repr": 1, "probe": 1, "bad": 1, "plot": int(self.plots)})
        if k == "get":
            op = {"op": "get", "o": n, "a": rng.choice(OUT)}
        elif k == "set":
            c = g.change() or ("vec_corr", "none")
            op = {"op": "set", "o": n, "a": c[0], "v": c[1]}
        elif k == "bad":
            a, v = g.invalid()
            op = {"op": "set", "o": n, "a": a, "v": v}
        elif k == "pupil":
            op = {"op": "pupil", "o": n, "v": g.pupil()}
        elif k == "aberr":
            to = self.name("m")
            op = g.aberr(n, to)
            self.objs[to] = {"kind": "model", "cls": o["cls"], "g": g.clone()}
        elif k == "copy":
            to = self.name("m")
            op = {"op": "copy", "o": n, "to": to, "how": rng.choice(["copy", "deepcopy", "pickle"])}
            self.objs[to] = {"kind": "model", "cls": o["cls"], "g": g.clone()}
        elif k == "plot":
            op = plot_kw(rng, {"op": "plot", "o": n,
                               "meth": rng.choice(["plot_psf", "plot_otf"])})
        else:
            op = {"op": k, "o": n}
        return self.add(self.fix(op))

    def scope_step(self, n):
        rng, g = self.rng, self.objs[n]["g"]
        k = pick(rng, {"get": 10, "set": 8, "repr": 1, "probe": 1, "bad": 1, "copy": 1,
                       "plot": int(self.plots)})
        if k == "get":
            op = {"op": "get", "o": n, "a": rng.choice(["PSF", "OTF"])}
            if self.parts and rng.random() < 0.15:
                op = {"op": "get", "o": n + ".model", "a": rng.choice(OUT)}
        elif k == "set":
            a, v = g.change()
            op = {"op": "set", "o": n, "a": a, "v": v}
        elif k == "bad":
            a, v = g.invalid()
            op = {"op": "set", "o": n, "a": a, "v": v}
        elif k == "copy":
            to = self.name("s")
            op = {"op": "copy", "o": n, "to": to, "how": rng.choice(["copy", "deepcopy", "pickle"])}
            self.objs[to] = {"kind": "scope", "g": g.clone()}
        elif k == "plot":
            op = plot_kw(rng, {"op": "plot", "o": n,
                               "meth": rng.choice(["plot_psf", "plot_otf"])})
        else:
            op = {"op": k, "o": n}
        return self.add(self.fix(op))

    def result_step(self, n):
        rng, o = self.rng, self.objs[n]
        if self.plots and rng.random() < 0.15:
            k = rng.choice(["r", "c", "z", "n"]) if o["fit"] else rng.choice(["r", "c"])
            op = {"r": {"op": "plot", "o": n, "meth": "plot"},
                  "c": {"op": "plot", "o": n, "meth": "plot_convergence"},
                  "z": {"op": "plot", "o": n + ".zd_result", "meth": "plot"},
                  "n": {"op": "plot", "o": n + ".zd_result", "meth": "plot_coefs"}}[k]
            return self.add(op)
        if rng.random() < 0.08:
            to = self.name("r")
            self.objs[to] = dict(o)
            return self.add({"op": "copy", "o": n, "to": to,
                             "how": rng.choice(["copy", "deepcopy", "pickle"])})
        if o["fit"] is None or rng.random() < 0.15:
            if rng.random() < 0.6:
                o["fit"] = rng.choice([1, 4, 9, 15, 21] + [36, 55] * (o["s"]["size"] >= 32))
                return self.add({"op": "fit", "o": n, "n": o["fit"]})
        return self.add(self.fix(result_read(rng, n, o["s"], None, zd=bool(o["fit"]))))

    def build(self, n):
        if self.long and self.rng.random() < LARGE / 2:
            n *= 4
        for _ in range(n):
            self.step()
        return self.ops
