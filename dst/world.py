"""The simulated user: values, operations on the package's public API, and recorded outcomes.

An operation is a JSON object; executing it yields an *outcome*: plain data (arrays are copied at
the moment they are returned) or the type of the exception raised.
"""

import contextlib
import copy
import gc
import io
import logging
import pickle

import numpy as np

from . import refmodel

P = {}  # the package's modules, filled by load()


def load():
    """Import the package (nothing of it is executed beyond module level)."""
    import importlib

    for name in ("otf", "phaseretrieval", "microscope", "utils", "zernike", "display", "labview"):
        P[name] = importlib.import_module("pyotf." + name)
    return P


SCOPES = {
    "widefield": "WidefieldMicroscope", "confocal": "ConfocalMicroscope",
    "apotome": "ApotomeMicroscope", "sim2d": "SIM2DMicroscope", "sim3d": "SIM3DMicroscope",
    "lattice": "LatticeSIMMicroscope", "sim": "BaseSIMMicroscope",
}
MODEL_ATTRS = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"]
OUTPUTS = ["PSFa", "OTFa", "PSFi", "OTFi"]
SIM_ATTRS = ["na_exc", "wl_exc", "wiener", "coherent", "dc", "dc_suppress", "orientations"]


# ----------------------------------------------------------------------- values
def make_data(spec):
    """A synthetic bead stack from the reference model (never from the package)."""
    s = dict(spec)
    p = {k: s[k] for k in ("wl", "na", "ni", "res", "size", "zres")}
    p.update(vec_corr="none", condition=s.get("condition", "none"))
    nz = s["nz"]
    rng = np.random.RandomState(s["seed"])
    n = s.get("modes", 15)
    pc = rng.normal(0, s.get("amp", 0.3), n)
    pc[:4] = 0
    mc = rng.normal(0, s.get("mamp", 0.0), n)
    out = refmodel.hanser(p, refmodel.default_zrange(nz, s["zres"]),
                          refmodel.aberrated_pupil(p, mc, pc))["PSFi"]
    out = out / out.max()
    kind = s.get("kind", "float")
    if kind == "counts":
        out = rng.poisson(out * s.get("peak", 500) + s.get("bg", 5)).astype(s.get("dtype", "int64"))
    elif s.get("noise", 0):
        out = out + rng.normal(0, s["noise"], out.shape)
    return out


def make_array(spec):
    if "$psf" in spec:
        a = make_data(spec["$psf"])
    elif "$rand" in spec:
        rng = np.random.RandomState(spec["$rand"])
        shape = tuple(spec["shape"])
        kind = spec.get("kind", "normal")
        sc = spec.get("scale", 1.0)
        if kind == "normal":
            a = rng.normal(0, sc, shape)
        elif kind == "uniform":
            a = rng.uniform(0, sc, shape)
        elif kind == "poisson":
            a = rng.poisson(sc, shape)
        elif kind == "ideal":
            # the model's own pupil, or something very close to it
            a = refmodel.ideal_pupil(spec["of"])
            if sc:
                a = a * (1 + sc * rng.normal(0, 1, a.shape))
        elif kind == "complex":
            a = rng.uniform(0.5, 1.5, shape) * np.exp(1j * rng.normal(0, sc, shape))
        else:
            raise ValueError(kind)
        if "dtype" in spec:
            a = (a.real if np.dtype(spec["dtype"]).kind != "c" else a).astype(spec["dtype"])
        if spec.get("peak"):
            # the largest value is in the middle already
            a[tuple(n // 2 for n in a.shape)] = a.max() + 1
    else:
        a = np.array(spec["$arr"], dtype=spec.get("dtype"))
        if "shape" in spec:
            a = a.reshape(spec["shape"])
    if spec.get("mid") and a.dtype.kind in "fc" and a.size > 2:
        # different in the middle only
        a[tuple(n // 2 for n in a.shape)] *= 2
    lay = spec.get("layout")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        a = v
    elif lay == "neg":
        a = a[::-1].copy()[::-1]
    if spec.get("list"):
        return a.tolist()
    if spec.get("ro"):
        a.flags.writeable = False
    return a


def mkval(spec, w):
    if isinstance(spec, dict):
        if "$in" in spec:
            return w.inputs[spec["$in"]]
        if "$keep" in spec:
            # the same array object every time; the caller writes the values into it
            v = mkval(spec["v"], w)
            if "scrib" in spec:
                scribble(v, spec["scrib"])
            b = w.buffers.setdefault(spec["$keep"], v)
            if type(b) is not type(v) or isinstance(b, np.ndarray) and (
                    b.shape != v.shape or b.dtype != v.dtype):
                b = w.buffers[spec["$keep"]] = v
            if isinstance(b, list):
                b[:] = v
            else:
                b[...] = v
            return b
        if "$scrib" in spec:
            v = mkval(spec["$scrib"], w)
            for seed in spec["seeds"]:
                scribble(v, seed)
            return v
        if "$obj" in spec:
            return w.resolve(spec["$obj"])
        if "$t" in spec:
            return tuple(mkval(v, w) for v in spec["$t"])
        if "$s" in spec:
            return slice(*[mkval(v, w) for v in spec["$s"]])
        if "$np" in spec:
            return np.dtype(spec["$np"]).type(spec["v"])
        if "$nan" in spec:
            return float("nan")
        if "$arr" in spec or "$rand" in spec or "$psf" in spec:
            return make_array(spec)
        return {k: mkval(v, w) for k, v in spec.items()}
    if isinstance(spec, list):
        return [mkval(v, w) for v in spec]
    return spec


# ----------------------------------------------------------------------- outcomes
class Exc:
    """Canonical outcome of a call that raised."""

    __slots__ = ("name", "text", "mro")

    def __init__(self, e):
        self.name = type(e).__name__
        self.text = str(e)[:200]
        self.mro = [c.__name__ for c in type(e).__mro__]

    def __repr__(self):
        return f"<{self.name}: {self.text[:80]}>"

    def __getstate__(self):
        return (self.name, self.text, self.mro)

    def __setstate__(self, s):
        self.name, self.text, self.mro = s


class Obj:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<obj {self.name}>"

    def __getstate__(self):
        return self.name

    def __setstate__(self, s):
        self.name = s


def canon(v, w=None, label="", depth=0):
    """Copy of a returned value made of plain data; arrays are tracked in the world."""
    if isinstance(v, np.ndarray):
        if w is not None and w.track:
            w.kept.append((label, v, v.copy(), v.shape, v.dtype.str))
        if v.dtype == object:
            return ("objarr", v.shape)
        return v.copy()
    if isinstance(v, (np.generic,)):
        return v.item() if not isinstance(v, np.complexfloating) else complex(v)
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return v
    if isinstance(v, slice):
        return ("slice", v.start, v.stop, v.step)
    if depth < 6:
        if isinstance(v, tuple):
            return tuple(canon(x, w, f"{label}[{i}]", depth + 1) for i, x in enumerate(v))
        if isinstance(v, list):
            return [canon(x, w, label, depth + 1) for x in v]
        if isinstance(v, dict):
            return {str(k): canon(x, w, f"{label}.{k}", depth + 1) for k, x in v.items()}
    return Obj(type(v).__name__)


def same(a, b, tol=1e-11):
    """None if equal, otherwise a short description of the difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{_short(a)} vs {_short(b)}"
        if a.shape != b.shape:
            return f"shape {a.shape} vs {b.shape}"
        if a.dtype.kind != b.dtype.kind:
            return f"dtype {a.dtype} vs {b.dtype}"
        if a.size == 0:
            return None
        if a.dtype.kind in "fc":
            fa, fb = np.isfinite(a), np.isfinite(b)
            if not (fa == fb).all():
                return f"{int((fa != fb).sum())} values differ in being finite"
            if not fa.all():
                na, nb = np.isnan(a), np.isnan(b)
                if not (na == nb).all():
                    return "NaN in different places"
                a, b = np.where(fa, a, 0), np.where(fb, b, 0)
            scale = float(np.abs(b).max())
            err = float(np.abs(a - b).max())
            if err > tol * max(scale, 1e-290):
                return f"differs by {err:.3g} (largest value {scale:.3g})"
            return None
        if not (a == b).all():
            return "values differ"
        return None
    if isinstance(a, Exc) or isinstance(b, Exc):
        if isinstance(a, Exc) and isinstance(b, Exc):
            return None if a.name == b.name else f"{a!r} vs {b!r}"
        return f"{_short(a)} vs {_short(b)}"
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj) and isinstance(b, Obj) and a.name == b.name:
            return None
        return f"{_short(a)} vs {_short(b)}"
    num = (bool, int, float, complex)
    if isinstance(a, num) and isinstance(b, num):
        if a == b or (a != a and b != b):
            return None
        if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
            if abs(a - b) <= tol * max(abs(b), 1e-290):
                return None
        return f"{a!r} vs {b!r}"
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        if len(a) > 64 or (a and isinstance(a[0], list)):
            with contextlib.suppress(Exception):
                return same(np.array(a), np.array(b), tol)
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return f"[{i}] {d}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"keys {sorted(a)} vs {sorted(b)}"
        for k in a:
            d = same(a[k], b[k], tol)
            if d:
                return f"{k}: {d}"
        return None
    if a == b:
        return None
    return f"{_short(a)} vs {_short(b)}"


def _short(v):
    if isinstance(v, np.ndarray):
        return f"array{v.shape}"
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


# ----------------------------------------------------------------------- world
class BrokenSink(logging.Handler):
    """A log sink whose storage fails (disk full, broken pipe)."""

    def __init__(self, exc="OSError"):
        super().__init__(0)
        self.exc = exc
        self.hits = 0

    class _S(io.StringIO):
        pass

    def emit(self, record):
        self.hits += 1
        try:
            self.format(record)
            raise OSError(28, "No space left on device")
        except Exception:
            # what logging.StreamHandler does on a failing write, without the printout
            pass


class World:
    def __init__(self, inputs=None):
        self.objs = {}
        self.inputs = {}
        self.track = False
        self.kept = []
        self.given = []
        self.buffers = {}
        self.returned = {}
        self.figs = {}
        self.sinks = []
        for k, v in (inputs or {}).items():
            self.inputs[k] = mkval(v, self)

    def resolve(self, path):
        parts = path.split(".")
        o = self.objs[parts[0]]
        for p in parts[1:]:
            o = getattr(o, p)
        return o


class Missing(Exception):
    """The object an operation needs does not exist (an earlier operation failed)."""


def model_params(m):
    d = {a: getattr(m, a) for a in MODEL_ATTRS}
    if hasattr(m, "zrange"):
        d["zrange"] = np.array(m.zrange)
    if hasattr(m, "dual"):
        d["dual"] = m.dual
    return d


def scope_params(s):
    d = {"oversample_factor": s.oversample_factor, "pixel_size": s.pixel_size}
    for a in ("pinhole_size", "wl_exc", "na_exc", "wiener", "coherent", "dc", "dc_suppress"):
        if hasattr(type(s), a) or a in getattr(s, "__dict__", {}):
            d[a] = getattr(s, a)
    if hasattr(s, "orientations"):
        d["orientations"] = [float(x) for x in s.orientations]
    return d


def kind_of(o):
    otf, mic, pr = P["otf"], P["microscope"], P["phaseretrieval"]
    if isinstance(o, otf.BasePSF):
        return "model"
    if isinstance(o, mic.WidefieldMicroscope):
        return "scope"
    if isinstance(o, pr.PhaseRetrievalResult):
        return "result"
    if isinstance(o, pr.ZernikeDecomposition):
        return "zd"
    return "other"


def probe(o, order=None):
    """Everything an object reports, in the given order of outputs."""
    k = kind_of(o)
    out = {}
    if k == "model":
        out["params"] = model_params(o)
        for a in order or OUTPUTS:
            if a in OUTPUTS:
                out[a] = getattr(o, a)
    elif k == "scope":
        out["params"] = scope_params(o)
        for a in [x for x in (order or ["PSF", "OTF"]) if x in ("PSF", "OTF")] or ["PSF", "OTF"]:
            out[a] = getattr(o, a)
        out["model"] = model_params(o.model)
    elif k == "result":
        for a in ("mag", "phase", "mse", "pupil_diff", "mse_diff", "r", "theta"):
            out[a] = getattr(o, a)
        out["na"], out["wl"] = o.na, o.wl
        out["complex_pupil"] = o.complex_pupil
        out["psf"] = o.generate_psf()
        out["model"] = model_params(o.model)
        out["model_psfi"] = o.model.PSFi
        if hasattr(o, "zd_result"):
            out["zd"] = probe(o.zd_result)
    elif k == "zd":
        out.update(mcoefs=o.mcoefs, pcoefs=o.pcoefs, zerns=o.zerns,
                   pupil=o.complex_pupil(), phase=o.phase(slice(None)))
    return out


FUNCS = {
    "zernike": ("zernike", "zernike"), "noll2degrees": ("zernike", "noll2degrees"),
    "degrees2noll": ("zernike", "degrees2noll"), "cart2pol": ("utils", "cart2pol"),
    "fft_pad": ("utils", "fft_pad"), "slice_maker": ("utils", "slice_maker"),
    "easy_fft": ("utils", "easy_fft"), "easy_ifft": ("utils", "easy_ifft"),
    "center_data": ("utils", "center_data"), "remove_bg": ("utils", "remove_bg"),
    "psqrt": ("utils", "psqrt"), "prep_data_for_PR": ("utils", "prep_data_for_PR"),
    "bin_ndarray": ("utils", "bin_ndarray"), "radial_profile": ("utils", "radial_profile"),
    "named_aberration_to_pcoefs": ("otf", "named_aberration_to_pcoefs"),
    "max_min": ("display", "max_min"), "fft_max_min": ("display", "fft_max_min"),
    "z_squeeze": ("display", "z_squeeze"),
    "psf_plot": ("display", "psf_plot"), "otf_plot": ("display", "otf_plot"),
}


def images(fig, axs):
    """The data drawn in the axes: images, lines and bars."""
    out = []
    try:
        seq = list(np.ravel(axs)) if isinstance(axs, np.ndarray) else list(axs)
    except TypeError:
        seq = [axs]
    for ax in seq:
        d = {"images": [np.ma.filled(im.get_array(), np.nan) for im in ax.images],
             "extent": [tuple(float(x) for x in im.get_extent()) for im in ax.images],
             "clim": [tuple(float(x) for x in im.get_clim()) for im in ax.images],
             "lines": [np.asarray(ln.get_ydata(), float) for ln in ax.lines],
             "bars": [float(p.get_height()) for p in ax.patches if hasattr(p, "get_height")],
             "title": ax.get_title(),
             "style": [(im.get_cmap().name, im.get_interpolation(), type(im.norm).__name__,
                        getattr(im.norm, "gamma", None)) for im in ax.images]}
        out.append(d)
    return out


VALUE_FIELDS = ("v", "kw", "args", "data", "params", "m", "p", "mag", "n")


def prep_op(op, w):
    """Build the caller's arguments (and figures) before any fault is armed."""
    r = dict(op)
    try:
        for f in VALUE_FIELDS:
            if f in r:
                r[f] = mkval(r[f], w)
    except KeyError as e:
        raise Missing(str(e))
    if r["op"] == "plot" or r.get("f", "").endswith("_plot"):
        prep_plot(r)
    return r


def finish_op(op, raw, w):
    """Turn what the call returned into plain data (no fault is armed any more)."""
    if op["op"] == "plot" or op.get("f", "").endswith("_plot"):
        return plotted(raw, op)
    return raw


def run_op(op, w):
    """Execute one prepared operation; returns the raw value (exceptions propagate)."""
    k = op["op"]

    def obj(name=None):
        try:
            return w.resolve(name or op["o"])
        except KeyError:
            raise Missing(name or op["o"])

    kw = op.get("kw", {})
    args = op.get("args", [])
    if k == "mk":
        cls = op["cls"]
        if cls in ("hanser", "sheppard"):
            c = P["otf"].HanserPSF if cls == "hanser" else P["otf"].SheppardPSF
        else:
            c = getattr(P["microscope"], SCOPES[cls])
        w.objs[op["to"]] = o = c(**kw)
        return o
    if k == "set":
        setattr(obj(), op["a"], op["v"])
        return None
    if k == "get":
        return getattr(obj(), op["a"])
    if k == "repr":
        return str(obj()) if op.get("str") else repr(obj())
    if k == "params":
        o = obj()
        return model_params(o) if kind_of(o) == "model" else scope_params(o)
    if k == "pupil":
        return obj().apply_pupil(op["v"])
    if k == "aberr":
        w.objs[op["to"]] = o = P["otf"].apply_aberration(obj(), op["m"], op["p"])
        return o
    if k == "named":
        w.objs[op["to"]] = o = P["otf"].apply_named_aberration(obj(), op["name"], op["mag"])
        return o
    if k == "nameds":
        w.objs[op["to"]] = o = P["otf"].apply_named_aberrations(obj(), op["v"])
        return o
    if k == "copy":
        o = obj()
        how = op["how"]
        n = copy.copy(o) if how == "copy" else copy.deepcopy(o) if how == "deepcopy" else \
            pickle.loads(pickle.dumps(o, op.get("proto", 4)))
        w.objs[op["to"]] = n
        return n
    if k == "alias":
        w.objs[op["to"]] = o = obj()
        return o
    if k == "retrieve":
        w.objs[op["to"]] = o = P["phaseretrieval"].retrieve_phase(op["data"], op["params"], **kw)
        return o
    if k == "mkzd":
        w.objs[op["to"]] = o = P["phaseretrieval"].ZernikeDecomposition(*args)
        return o
    if k == "mkresult":
        w.objs[op["to"]] = o = P["phaseretrieval"].PhaseRetrievalResult(*args)
        return o
    if k == "fit":
        zd = obj().fit_to_zernikes(op["n"])
        if "to" in op:
            w.objs[op["to"]] = zd
        return {"mcoefs": zd.mcoefs, "pcoefs": zd.pcoefs, "zerns": zd.zerns}
    if k == "gen":
        return obj().generate_psf(**kw)
    if k == "genzd":
        return obj().generate_zd_psf(**kw)
    if k == "zdget":
        return getattr(obj(), op["meth"])(*args, **kw)
    if k == "probe":
        return probe(obj(), op.get("order"))
    if k == "fn":
        mod, name = FUNCS[op["f"]]
        return getattr(P[mod], name)(*args, **kw)
    if k == "labview":
        return P["labview"].labview(*args, **kw)
    if k == "preplab":
        # what a LabVIEW call must return, composed from the public pieces
        kw = dict(kw)
        data = P["utils"].prep_data_for_PR(np.asarray(op["data"]))
        prm = {a: kw.pop(a) for a in ("wl", "na", "ni", "res", "zres")}
        r = P["phaseretrieval"].retrieve_phase(data, prm, **kw)
        return r.phase.tolist()
    if k == "plot":
        return getattr(obj(), op["meth"])(**kw)
    if k == "scribble":
        scribble(w.inputs[op["in"]], op.get("seed", 0))
        return None
    if k == "scribout":
        if op["tag"] not in w.returned:
            raise Missing(op["tag"])
        v, args = w.returned[op["tag"]]
        overwrite(v, leaves([args, w.inputs, w.buffers]), op["seed"])
        return None
    if k == "log":
        set_log(op, w)
        return None
    if k == "del":
        w.objs.pop(op["o"], None)
        return None
    if k == "gc":
        gc.collect()
        return None
    if k == "pickleto":
        return pickle.dumps(obj(), op.get("proto", 4))
    if k == "unpickle":
        w.objs[op["to"]] = o = pickle.loads(bytes.fromhex(op["hex"]) if "hex" in op else op["v"])
        return o
    if k == "settings":
        apply_settings(op)
        return None
    if k == "seed":
        np.random.seed(op["v"])
        return None
    raise ValueError(f"unknown op {k}")


def prep_plot(r):
    """Figures the caller supplies, and another one that is current."""
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    r["_figs"] = plt.get_fignums()
    if r.get("fig") == "supplied":
        own = plt.figure(97) if r.get("pyplot", True) else Figure()
        r["_own"] = own
        kw = r["kw"] = dict(r.get("kw", {}))
        if r.get("meth") == "plot":
            kw["axs"] = own.subplots(1, 2)
        else:
            kw["fig"] = own
        if r.get("other"):
            plt.figure(96)
    r["_before"] = (sorted(plt.get_fignums()), plt.gcf().number if plt.get_fignums() else None)


def plotted(raw, op):
    fig, axs = raw
    out = images(fig, axs)
    if op.get("_own") is not None and fig is not op["_own"]:
        out.append("figure returned is not the one supplied")
    return out


def clean_plot(op):
    """Figure bookkeeping seen by the caller; then everything the op opened is closed."""
    from matplotlib import pyplot as plt

    after = (sorted(plt.get_fignums()), plt.gcf().number if plt.get_fignums() else None)
    for n in plt.get_fignums():
        if n not in op["_figs"]:
            plt.close(n)
    return op["_before"], after


def scribble(v, seed):
    """The caller reuses its own buffer."""
    rng = np.random.RandomState(seed)
    if isinstance(v, np.ndarray):
        v.flags.writeable = True
        v[...] = (rng.uniform(-3, 3, v.shape) * 100).astype(v.dtype)
    elif isinstance(v, list):
        for i in range(len(v)):
            if isinstance(v[i], list):
                scribble(v[i], seed + i)
            else:
                v[i] = type(v[i] or 0)(rng.randint(1, 9))
    elif isinstance(v, dict):
        v.clear()
        v["scribbled"] = True


def leaves(v):
    """All arrays and lists in a container."""
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [v] + [y for x in v for y in leaves(x)]
    return []


def overwrite(v, theirs, seed):
    """The caller works in place on a result it was given (unless that is a view of its data)."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object and not any(
                isinstance(a, np.ndarray) and np.may_share_memory(v, a) for a in theirs):
            scribble(v, seed)
    elif isinstance(v, list):
        if not any(v is a for a in theirs):
            scribble(v, seed)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            overwrite(x, theirs, seed + i)


def set_log(op, w):
    lg = logging.getLogger("pyotf" if not op.get("root") else None)
    if "level" in op:
        lg.setLevel(op["level"])
    if op.get("sink"):
        h = BrokenSink() if op["sink"] == "broken" else logging.StreamHandler(io.StringIO())
        lg.addHandler(h)
        w.sinks.append((lg, h))
    if op.get("unsink"):
        for g, h in w.sinks:
            g.removeHandler(h)
        w.sinks.clear()


# ----------------------------------------------------------------------- ambient state
def _errcall(*a):
    pass


def apply_settings(op):
    """The user's own process-wide settings, in force before the package is used."""
    import warnings

    import matplotlib as mpl
    from matplotlib import pyplot as plt

    if "err" in op:
        np.seterr(**op["err"])
    if op.get("errcall"):
        np.seterrcall(_errcall)
    if "print" in op:
        np.set_printoptions(**op["print"])
    for f in op.get("warn", []):
        import builtins

        warnings.filterwarnings(f["action"], category=getattr(builtins, f["cat"]))
    if "seed" in op:
        import random

        np.random.seed(op["seed"])
        random.seed(op["seed"])
    for k, v in op.get("rc", {}).items():
        mpl.rcParams[k] = v
    if "log" in op:
        logging.getLogger(op["log"].get("name") or None).setLevel(op["log"]["level"])
    if "disable" in op:
        logging.disable(op["disable"])
    if "figs" in op:
        for n in op["figs"]:
            plt.figure(n)
    if "env" in op:
        import os

        os.environ.update(op["env"])
    for k, v in op.get("more", {}).items():
        MORE[k](v)


def _streams(v):
    import io
    import sys

    class Broken(io.StringIO):
        def write(self, text):
            raise OSError(28, "No space left on device")

        def flush(self):
            raise OSError(28, "No space left on device")

    logging.root.manager.emittedNoHandlerWarning = True  # the simulator removed the last resort
    for name in ("stdout", "stderr"):
        s = None if v == "none" else Broken() if v == "broken" else io.StringIO()
        if v == "closed":
            s.close()
        setattr(sys, name, s)


def _tz(v):
    import os
    import time

    os.environ["TZ"] = v
    time.tzset()


def _gc(v):
    if isinstance(v, bool):
        gc.enable() if v else gc.disable()
    else:
        gc.enable()
        gc.set_threshold(v)


def _environ(v):
    import os

    os.environ.update(v)


def _any_environ(v):
    """Whatever variable the package asks for, it is set."""
    import os
    import sys

    import pyotf

    cls, root = type(os.environ), os.path.dirname(pyotf.__file__)
    real = cls.__getitem__

    def get(self, key):
        f = sys._getframe(1)
        while f is not None and f.f_globals.get("__name__") in ("os", "collections.abc",
                                                                "_collections_abc"):
            f = f.f_back
        if f is not None and f.f_code.co_filename.startswith(root):
            return v
        return real(self, key)

    cls.__getitem__ = get


def _recursion(v):
    import sys

    sys.setrecursionlimit(v)


def _decimal(v):
    import decimal

    decimal.getcontext().prec = v


def _module(name, attr):
    def call(v):
        import importlib

        m = importlib.import_module(name)
        f = m
        for a in attr.split("."):
            f = getattr(f, a)
        f(v)
    return call


def _attr(name, attr):
    def call(v):
        import importlib

        setattr(importlib.import_module(name), attr, v)
    return call


def _nofile(v):
    """No file can be opened any more."""
    import resource

    resource.setrlimit(resource.RLIMIT_NOFILE, (3, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))


def _locale(v):
    import locale

    locale.setlocale(locale.LC_ALL, v)


def _affinity(v):
    import os

    os.sched_setaffinity(0, v)


def _trace(v):
    """A tracer some debugger or coverage tool left on."""
    import sys
    import threading

    sys.settrace(lambda f, e, a: None)
    threading.settrace(lambda f, e, a: None)


MORE = {
    "cwd": _module("os", "chdir"), "tz": _tz, "gc": _gc, "decimal": _decimal,
    "buf": _module("numpy", "setbufsize"), "streams": _streams,
    "interactive": _module("matplotlib", "interactive"), "ps1": _attr("sys", "ps1"),
    "argv": _attr("sys", "argv"), "backend": _module("matplotlib.pyplot", "switch_backend"),
    "affinity": _affinity, "trace": _trace, "nofile": _nofile, "locale": _locale,
    "digits": _module("sys", "set_int_max_str_digits"), "recursion": _recursion, "wenv": _environ,
    "anyenv": _any_environ, "switch": _module("sys", "setswitchinterval"),
}


def ambient():
    """Process-wide settings the package must leave alone."""
    import os
    import random
    import warnings

    import matplotlib as mpl
    from matplotlib import pyplot as plt

    nrs = np.random.get_state()
    loggers = {"": logging.getLogger()}
    for n in list(logging.Logger.manager.loggerDict):
        if n.split(".")[0] in ("pyotf", "matplotlib", "numpy", "skimage", "scipy"):
            lg = logging.Logger.manager.loggerDict[n]
            if isinstance(lg, logging.Logger):
                loggers[n] = lg
    return {
        "np.geterr": dict(np.geterr()),
        "np.geterrcall": repr(np.geterrcall()),
        "np.bufsize": np.getbufsize(),
        "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
        "np.random": (nrs[0], hash(nrs[1].tobytes()), nrs[2], nrs[3], nrs[4]),
        "random": hash(random.getstate()),
        "warnings.filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": repr(warnings.showwarning),
        "rcParams": {k: repr(v) for k, v in dict.items(mpl.rcParams)},
        "logging": {n: (lg.level, lg.propagate, lg.disabled, len(lg.handlers), len(lg.filters))
                    for n, lg in loggers.items() if n == "" or lg.level or lg.handlers
                    or lg.disabled or lg.filters or not lg.propagate},
        "logging.disable": logging.root.manager.disable,
        "cwd": os.getcwd(),
        "environ": dict(os.environ),
        "umask": _umask(),
        "backend": mpl.get_backend(),
        "interactive": mpl.is_interactive(),
        "figures": sorted(plt.get_fignums()),
        "current figure": plt.gcf().number if plt.get_fignums() else None,
        "recursionlimit": __import__("sys").getrecursionlimit(),
        "switchinterval": __import__("sys").getswitchinterval(),
        "gc": __import__("gc").isenabled(),
        **_more_ambient(),
    }


def _more_ambient():
    import copyreg
    import decimal
    import faulthandler
    import locale
    import resource
    import signal
    import socket
    import sys
    import tempfile
    import threading

    import matplotlib as mpl
    import scipy.fft

    c = decimal.getcontext()
    own = threading.current_thread()
    return {
        "locale": [locale.setlocale(k) for k in (locale.LC_NUMERIC, locale.LC_CTYPE,
                                                 locale.LC_TIME, locale.LC_COLLATE)],
        "signals": {str(s): repr(signal.getsignal(s)) for s in
                    (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE,
                     signal.SIGUSR1, signal.SIGCHLD, signal.SIGHUP)},
        "itimer": signal.getitimer(signal.ITIMER_REAL) == (0.0, 0.0),
        "hooks": [id(x) for x in (sys.excepthook, threading.excepthook, sys.unraisablehook,
                                  sys.displayhook, sys.breakpointhook)],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "sys.path": list(sys.path),
        "dont_write_bytecode": sys.dont_write_bytecode,
        "int_max_str_digits": sys.get_int_max_str_digits(),
        "decimal": (c.prec, c.rounding),
        "scipy.fft.workers": scipy.fft.get_workers(),
        "np.legacy": np.geterrobj()[0],
        "replaced functions": {n: id(f) for n, f in (
            ("numpy.random.default_rng", np.random.default_rng), ("numpy.fft.fftn", np.fft.fftn),
            ("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy),
            ("numpy.linalg.lstsq", np.linalg.lstsq), ("open", open),
            ("logging.Logger", logging.getLoggerClass()),
            ("logging.Formatter", logging.Formatter),
            ("matplotlib.pyplot.subplots", mpl.pyplot.subplots),
            ("warnings.warn", __import__("warnings").warn))},
        "logging.raiseExceptions": logging.raiseExceptions,
        "logging factories": [id(logging.getLogRecordFactory()), id(logging.lastResort)],
        "copyreg": len(copyreg.dispatch_table),
        "colormaps": len(list(mpl.colormaps)),
        "rlimits": [resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_CPU,
                                                    resource.RLIMIT_NOFILE,
                                                    resource.RLIMIT_STACK)],
        "tempdir": tempfile.tempdir,
        "socket timeout": socket.getdefaulttimeout(),
        "faulthandler": faulthandler.is_enabled(),
        "thread name": (own.name, own.daemon),
        "thread stack": threading.stack_size(),
    }


def _umask():
    import os

    m = os.umask(0o22)
    os.umask(m)
    return m


def diff_ambient(a, b, ignore=()):
    out = []
    for k in a:
        if k in ignore or a[k] == b[k]:
            continue
        x, y = a[k], b[k]
        if isinstance(x, dict):
            ks = [i for i in set(x) | set(y) if x.get(i) != y.get(i)]
            out.append(f"{k}: " + ", ".join(
                f"{i}: {x.get(i)!r} -> {y.get(i)!r}" for i in sorted(map(str, ks))[:4]))
        else:
            out.append(f"{k}: {str(x)[:80]} -> {str(y)[:80]}")
    return out


# ----------------------------------------------------------------------- caller data digests
def digest(v):
    """Everything observable about a caller-owned container."""
    if isinstance(v, np.ndarray):
        return ("A", v.shape, v.dtype.str, v.strides, v.flags.writeable, v.tobytes())
    if isinstance(v, dict):
        return ("D", type(v).__name__, [(repr(k), digest(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        if len(v) and isinstance(v[0], (int, float)):
            return (type(v).__name__, repr(v))
        return (type(v).__name__, [digest(x) for x in v])
    return (type(v).__name__, repr(v))
