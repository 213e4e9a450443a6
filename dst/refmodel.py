"""Independent executable reference model of the optics in pyOTF (imports nothing from it).

Written from the published formulas and the documented conventions: same grids, same sign and
shift conventions, everything computed from scratch on each call, nothing cached, no objects.
"""

from math import factorial

import numpy as np

NAMES = [
    "piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism",
    "vertical coma", "horizontal coma", "vertical trefoil", "oblique trefoil",
    "primary spherical", "vertical secondary astigmatism", "oblique secondary astigmatism",
    "vertical quadrafoil", "oblique quadrafoil",
]


# ----------------------------------------------------------------- zernike
def noll_nm(j):
    """Noll index -> (n, m), by walking the rows of the published table."""
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    first = n * (n + 1) // 2 + 1
    # |m| in the order they appear in row n
    ms = sorted((abs(m) for m in range(-n, n + 1, 2)))
    m = ms[j - first]
    # even index -> cosine (m > 0), odd -> sine
    return n, (m if j % 2 == 0 else -m)


def zernike_nm(n, m, r, theta):
    """Normed Zernike polynomial, zero outside the disk.

    The package's sign convention carries an extra (-1)**m (see DESIGN.md, observations); the
    checks take it as given, because the sign of a mode is a pure-function matter (P01, P07).
    """
    ma = abs(m)
    out = np.zeros_like(r)
    for s in range((n - ma) // 2 + 1):
        c = (-1) ** s * factorial(n - s) / (
            factorial(s) * factorial((n + ma) // 2 - s) * factorial((n - ma) // 2 - s)
        )
        out = out + c * r ** (n - 2 * s)
    out = out * (np.sin(ma * theta) if m < 0 else np.cos(ma * theta))
    out = (-1) ** ma * out
    out = out * np.sqrt((n + 1) if m == 0 else 2 * (n + 1))
    return np.where(r <= 1, out, 0.0)


# ----------------------------------------------------------------- PSF models
def default_zrange(zsize, zres):
    return (np.arange(zsize) - (zsize + 1) // 2) * zres


def kgrid(p):
    k = np.fft.fftfreq(p["size"], p["res"])
    kx = k[None, :] + 0 * k[:, None]
    ky = k[:, None] + 0 * k[None, :]
    kr = np.hypot(ky, kx)
    return kx, ky, kr, np.arctan2(ky, kx)


def ideal_pupil(p):
    kr = kgrid(p)[2]
    return (kr < p["na"] / p["wl"]).astype(complex)


def aberrated_pupil(p, mcoefs, pcoefs):
    _, _, kr, phi = kgrid(p)
    r = kr * p["wl"] / p["na"]
    mag = abs(ideal_pupil(p))
    phase = np.zeros_like(r)
    n = len(mcoefs) if mcoefs is not None else len(pcoefs)
    for i in range(n):
        z = zernike_nm(*noll_nm(i + 1), r, phi)
        if mcoefs is not None:
            mag = mag + mcoefs[i] * z
        if pcoefs is not None:
            phase = phase + pcoefs[i] * z
    return mag * np.exp(1j * phase)


def _vec_terms(vec, sin_t, cos_t, cos_p, sin_p):
    x = [cos_t * cos_p ** 2 + sin_p ** 2, (cos_t - 1) * sin_p * cos_p]
    y = [(cos_t - 1) * sin_p * cos_p, cos_t * sin_p ** 2 + cos_p ** 2]
    z = [sin_t * cos_p, sin_t * sin_p]
    return {"none": None, "x": x, "y": y, "z": z, "total": z + y + x}[vec]


def hanser(p, zrange, pupil=None):
    """All four outputs for parameters p (dict) at z positions zrange."""
    zrange = np.atleast_1d(np.asarray(zrange))
    _, _, kr, phi = kgrid(p)
    kmag = p["ni"] / p["wl"]
    if pupil is None:
        pupil = ideal_pupil(p)
    kz = np.sqrt(np.maximum(0, kmag ** 2 - kr ** 2))
    sin_t = np.where(kr < kmag, kr / kmag, 0.0)
    theta = np.arcsin(sin_t)
    cos_t = np.cos(theta)
    base = pupil
    if p["condition"] == "sine":
        base = base / np.sqrt(cos_t)
    elif p["condition"] == "herschel":
        base = base / cos_t
    terms = _vec_terms(p["vec_corr"], np.sin(theta), cos_t, np.cos(phi), np.sin(phi))
    if terms is None:
        terms = [np.ones_like(kr)]
    psfa = np.array([
        [np.fft.fftshift(np.fft.ifft2(t * base * np.exp(2j * np.pi * kz * z))) for z in zrange]
        for t in terms
    ])
    return finish(psfa)


def finish(psfa, otfa=None):
    ax = (1, 2, 3)
    if otfa is None:
        otfa = np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psfa, axes=ax), axes=ax), axes=ax)
    psfi = (psfa.real ** 2 + psfa.imag ** 2).sum(0)
    otfi = np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psfi)))
    return {"PSFa": psfa, "OTFa": otfa, "PSFi": psfi, "OTFi": otfi}


def sheppard(p, dual):
    k = np.fft.fftfreq(p["size"], p["res"])
    kz = np.fft.fftfreq(p["zsize"], p["zres"])
    zz, yy, xx = np.meshgrid(kz, k, k, indexing="ij")
    kr = np.sqrt(zz ** 2 + yy ** 2 + xx ** 2)
    kmag = p["ni"] / p["wl"]
    dk, dkz = k[1] - k[0], kz[1] - kz[0]
    kz_min = np.sqrt(kmag ** 2 - (p["na"] / p["wl"]) ** 2)
    if dk != dkz:
        with np.errstate(all="ignore"):
            dkr = np.sqrt((zz * dkz) ** 2 + (yy * dk) ** 2 + (xx * dk) ** 2) / kr
        dkr[0, 0, 0] = 0.0
    else:
        dkr = np.full_like(kr, dk)
    up = abs(zz) if dual else zz
    on = (abs(kr - kmag) < dkr) & (up > kz_min + dkr)
    # distance of the closest voxel to one of the two selection thresholds: results are only
    # comparable between implementations when no voxel sits on a threshold
    margin = min(
        np.min(abs(abs(kr - kmag) - dkr)) / kmag, np.min(abs(up - kz_min - dkr)) / kmag
    )
    with np.errstate(all="ignore"):
        m, n, s = xx[on] / kr[on], yy[on] / kr[on], zz[on] / kr[on]
    with np.errstate(all="ignore"):
        a = {"none": 1.0, "sine": 1 / np.sqrt(s), "herschel": 1 / s}[p["condition"]]
        vec = p["vec_corr"]
        x = [1 - m ** 2 / (1 + s), -m * n / (1 + s)]
        y = [-n * m / (1 + s), 1 - n ** 2 / (1 + s)]
        z = [-m, -n]
        terms = {"none": None, "x": x, "y": y, "z": z, "total": z + y + x}[vec]
    if terms is None:
        vals = [np.ones(on.sum())]
    else:
        vals = [t * a for t in terms]
    otfa = np.zeros((len(vals),) + kr.shape, complex)
    for o, v in zip(otfa, vals):
        o[on] = v
    ax = (1, 2, 3)
    otfa = np.fft.fftshift(otfa, axes=ax)
    psfa = np.fft.ifftshift(np.fft.ifftn(np.fft.fftshift(otfa, axes=ax), axes=ax), axes=ax)
    out = finish(psfa, otfa)
    out["margin"] = margin
    return out


MODEL_DEFAULTS = dict(zres=None, zsize=None, vec_corr="none", condition="sine")


def model_outputs(cls, params, pupil=None):
    """params: the values an object reports (zrange present for hanser)."""
    if cls == "hanser":
        return hanser(params, params["zrange"], pupil)
    return sheppard(params, params["dual"])


# ----------------------------------------------------------------- microscopes
def _disk(radius):
    n = int(np.ceil(radius * 2))
    n += 1 - n % 2
    c = np.arange(n) - n // 2
    k = (np.sqrt(c[:, None] ** 2 + c[None, :] ** 2) < radius).astype(float)
    return k / k.sum()


def _conv_same(img, kernel):
    """Direct 2D 'same' convolution of every plane."""
    ny, nx = img.shape[1:]
    ky, kx = kernel.shape
    pad = np.zeros((img.shape[0], ny + 2 * (ky // 2), nx + 2 * (kx // 2)))
    pad[:, ky // 2: ky // 2 + ny, kx // 2: kx // 2 + nx] = img
    out = np.zeros_like(img)
    for i in range(ky):
        for j in range(kx):
            out += kernel[ky - 1 - i, kx - 1 - j] * pad[:, i:i + ny, j:j + nx]
    return out


def scope_model_params(s):
    """Inner model parameters for scope settings s (size/pixel_size as the user gave them)."""
    o = s["oversample_factor"]
    return dict(
        wl=s["wl"], na=s["na"], ni=s["ni"], size=s["size"] * o, res=s["pixel_size"] / o,
        zsize=s.get("zsize") or s["size"], zres=s.get("zres") or s["pixel_size"],
        vec_corr=s.get("vec_corr", "none"), condition=s.get("condition", "sine"),
    )


def _inner(s, p):
    if s["model"] == "hanser":
        zr = s.get("zrange")
        return hanser(p, default_zrange(p["zsize"], p["zres"]) if zr is None else zr)
    return sheppard(p, s.get("dual", False))


def scope(kind, s):
    """PSF and OTF of a microscope for settings s; also 'margin' for discretisation ties."""
    p = scope_model_params(s)
    em = _inner(s, p)
    margin = em.get("margin", 1.0)
    psfi = em["PSFi"]
    noise = 1.0
    if kind == "widefield":
        out = psfi
    elif kind == "confocal":
        q = dict(p, wl=s["wl_exc"])
        ex = _inner(s, q)
        margin = min(margin, ex.get("margin", 1.0))
        radius = s["pinhole_size"] * (1.22 * p["wl"] / p["na"] / p["res"]) / 2
        det = _conv_same(psfi, _disk(radius)) if radius > 1.5 else psfi
        out = det * ex["PSFi"]
    elif kind == "apotome":
        ax = (1, 2)
        hyb = np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psfi, axes=ax), axes=ax), axes=ax)
        n = p["size"]
        c = np.arange(n) - n // 2
        rad = np.rint(np.hypot(c[:, None], c[None, :])).astype(int)
        nbin = rad.max() + 1
        cnt = np.array([(rad == b).sum() for b in range(nbin)])
        rotf = np.array([[h[rad == b].sum() / cnt[b] for b in range(nbin)] for h in hyb])
        # numpy orders complex numbers lexicographically; max() of a complex array follows that
        rotf = abs(rotf / rotf.max())
        lim = n * p["res"] / (p["wl"] / p["na"] / 4) / 2
        limit = int(np.rint(lim))
        margin = min(margin, abs(abs(lim - np.floor(lim)) - 0.5))
        noise = float(rotf.max() / max(rotf[:, limit // 2].max(), 1e-300))
        out = rotf[:, limit // 2][:, None, None] * psfi
    else:
        na_exc = s["na_exc"] if s["na_exc"] is not None else s["na"]
        wl_exc = s["wl_exc"] if s["wl_exc"] is not None else s["wl"]
        x = (np.arange(p["size"]) - (p["size"] + 1) // 2) * p["res"]
        z = (np.arange(p["zsize"]) - (p["zsize"] + 1) // 2) * p["zres"]
        w = s["wiener"]
        if w is None:
            psf = psfi
        else:
            o2 = abs(em["OTFi"]) ** 2
            if w == 0:
                margin = min(margin, float(np.min(abs(np.log10(np.maximum(o2, 1e-300)) + 16))))
                filt = (o2 > 1e-16).astype(float)
            else:
                filt = o2 / (o2 + o2.max() * w ** 2)
            psf = np.fft.ifftshift(np.fft.ifftn(np.fft.fftshift(filt))).real
        f = 2 * np.pi * s["ni"] / wl_exc
        alpha = np.arcsin(na_exc / s["ni"])
        dc = np.exp(1j * z * f)[:, None, None] if s["dc"] else 0.0
        out = np.zeros_like(psf)
        total = np.zeros(psf.shape, complex) + dc
        for t in s["orientations"]:
            rr = (x[None, :] * np.cos(t) + x[:, None] * np.sin(t))[None]
            zz = z[:, None, None]
            beams = sum(np.exp(1j * f * (rr * np.sin(b) + zz * np.cos(b))) for b in (-alpha, alpha))
            total = total + beams
            out = out + psf * abs(dc + beams) ** 2
        if s["coherent"]:
            out = psf * abs(total) ** 2
        elif s["dc_suppress"]:
            out = out - (2 * len(s["orientations"]) - 1) * psf
    o = s["oversample_factor"]
    if o > 1:
        if p["size"] % 2 == 0:
            out = np.roll(np.roll(out, o // 2, 1), o // 2, 2)
        nz, n = out.shape[0], s["size"]
        out = out.reshape(nz, n, o, n, o).sum((2, 4))
    # how much rounding errors grow when a nearly cancelling sum normalises the PSF
    amp = max(noise, 1.0) * float(np.abs(out).sum() / max(abs(out.sum()), 1e-300))
    psf = out / out.sum()
    return {"amp": amp, "PSF": psf, "OTF": np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psf))), "margin": margin}
