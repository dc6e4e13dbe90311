"""Analytic functions on the sphere: generated parameters and reference coefficients."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

import pyssht as ssht

import gen
import oracle as o

import sleplet

F = sleplet.functions
MWSS = "MWSS"

WIDTH = st.one_of(st.integers(-2, 3).map(lambda e: {"e": e}), st.floats(0.05, 50).map(lambda v: {"v": v}))
NAMES = ["DiracDelta", "Gaussian", "HarmonicGaussian", "ElongatedGaussian", "SquashedGaussian", "Identity",
         "SphericalHarmonic", "AxisymmetricWavelets", "Ridgelets"]
ARGS = {  # command-line order of the parameters
    "Gaussian": ["sigma"], "HarmonicGaussian": ["l_sigma", "m_sigma"], "ElongatedGaussian": ["t_sigma", "p_sigma"],
    "SquashedGaussian": ["t_sigma", "freq"], "SphericalHarmonic": ["ell", "m"],
    "AxisymmetricWavelets": ["B", "j_min", "j"], "Ridgelets": ["B", "j_min", "spin", "j"],
}
WIDTHS = {"Gaussian", "HarmonicGaussian", "ElongatedGaussian", "SquashedGaussian"}
DEFAULTS = {
    "Gaussian": {"sigma": 10}, "HarmonicGaussian": {"l_sigma": 10, "m_sigma": 10},
    "ElongatedGaussian": {"t_sigma": 1, "p_sigma": 0.1}, "SquashedGaussian": {"t_sigma": 1, "freq": 0.1},
    "SphericalHarmonic": {"ell": 0, "m": 0}, "AxisymmetricWavelets": {"B": 3, "j_min": 2, "j": None},
    "Ridgelets": {"B": 3, "j_min": 2, "j": None, "spin": 2},
}


@st.composite
def wavelet_args(draw, n):
    """Parameters of wavelets over n degrees (or ranks)."""
    B = draw(st.integers(2, 5))
    top = o.j_max(n, B)
    j_min = draw(st.integers(0, top))
    return {"B": B, "j_min": j_min, "j": draw(st.one_of(st.none(), st.integers(0, top - j_min), st.just(top - j_min)))}


@st.composite
def harmonic(draw, lo=1, hi=16, names=NAMES, tail=None):
    """Kind, bandlimit, parameters and the way of passing them."""
    L = draw(gen.bandlimit(lo, hi, tail))
    name = draw(st.sampled_from(names))
    p = {}
    if name in WIDTHS:
        p = {k: draw(WIDTH) for k in ARGS[name]}
    elif name == "SphericalHarmonic":
        ell = draw(st.integers(0, L - 1))
        p = {"ell": ell, "m": draw(st.integers(-ell, ell))}
    elif name in ("AxisymmetricWavelets", "Ridgelets"):
        p = draw(wavelet_args(L))
        if name == "Ridgelets":
            p["spin"] = draw(st.integers(-3, 3))
    how = draw(st.sampled_from(["keyword", "keyword", "cli", "some"]))
    drop = draw(st.lists(st.sampled_from(ARGS[name]), max_size=2)) if how == "some" and name in WIDTHS else []
    if how == "some" and name == "SphericalHarmonic":
        drop = draw(st.sampled_from([["m"], ["ell", "m"]]))
        p.update({k: 0 for k in drop})
    if how == "some" and name in ("AxisymmetricWavelets", "Ridgelets") and o.j_max(L, 3) >= 2:
        drop = ["B", "j_min"] + (["spin"] if name == "Ridgelets" and draw(st.booleans()) else [])
        p.update({k: DEFAULTS[name][k] for k in drop})
        p["j"] = draw(st.one_of(st.none(), st.integers(0, o.j_max(L, 3) - 2)))
        if p["j"] is None:
            drop.append("j")
    return {"L": L, "name": name, "p": p, "how": how, "drop": drop}


def value(v):
    if isinstance(v, dict):
        return 10.0 ** v["e"] if "e" in v else v["v"]
    return v


def params(c):
    p = {k: value(v) for k, v in c["p"].items()}
    for k in c["drop"]:
        p[k] = DEFAULTS[c["name"]][k]
    return p


def cli_args(c):
    """Integer arguments equivalent to the parameters, if there are any."""
    a = []
    for k in ARGS.get(c["name"], []):
        v = c["p"][k]
        v = v.get("e") if isinstance(v, dict) else v
        if v is None:
            return None
        a.append(v)
    return a or None


def kwargs(c):
    if c["how"] == "cli" and cli_args(c):
        return {"extra_args": cli_args(c)}
    return {k: value(v) for k, v in c["p"].items() if k not in c["drop"]}


def build(c, **kw):
    return getattr(F, c["name"])(c["L"], **kwargs(c), **kw)


def describe(c):
    return f"{c['name']}(L={c['L']}, {kwargs(c)})"


# ------------------------------------------------------------------ references
def zonal(L, v):
    out = np.zeros(L * L, complex)
    for ell in range(L):
        out[ell * (ell + 1)] = v[ell]
    return out


def samples(L, fun):
    t, p = o.grid(L)
    return fun(*np.meshgrid(t, p, indexing="ij"))


def ring(L, s):
    """2 pi (-1)^s Y_ls(pi/2, 0) for each l."""
    out = np.zeros(L)
    for ell in range(abs(s), L):
        out[ell] = (2 * math.pi * (-1) ** s * math.sqrt((2 * ell + 1) / (4 * math.pi))
                    * o.d_column(ell, 0, np.array([math.pi / 2]))[s + ell, 0])
    return out


def reference(c):
    """(coefficients, tolerance, spin)"""
    L, name, p = c["L"], c["name"], params(c)
    e = np.arange(L)
    ell, emm = o.lm(L)
    if name == "DiracDelta":
        return zonal(L, np.sqrt((2 * e + 1) / (4 * np.pi))), 1e-13, 0
    if name == "Identity":
        return np.ones(L * L, complex), 0, 0
    if name == "SphericalHarmonic":
        v = np.zeros(L * L, complex)
        v[p["ell"] ** 2 + p["ell"] + p["m"]] = 1
        return v, 0, 0
    if name == "Gaussian":
        return zonal(L, np.exp(-e * (e + 1) / (2 * p["sigma"] ** 2))), 1e-13, 0
    if name == "HarmonicGaussian":
        return np.exp(-0.5 * (ell / p["l_sigma"]) ** 2 - 0.5 * (emm / p["m_sigma"]) ** 2) + 0j, 1e-13, 0
    if name == "ElongatedGaussian":
        f = samples(L, lambda t, q: np.exp(-0.5 * (t / p["t_sigma"]) ** 2 - 0.5 * ((q - np.pi) / p["p_sigma"]) ** 2))
        return ssht.forward(f.astype(complex), L, Method=MWSS), 1e-11, 0
    if name == "SquashedGaussian":
        f = samples(L, lambda t, q: np.exp(-0.5 * (t / p["t_sigma"]) ** 2) * np.sin(p["freq"] * q))
        return ssht.forward(f.astype(complex), L, Method=MWSS), 1e-11, 0
    row = 0 if p["j"] is None else p["j"] + 1
    k = np.sqrt(np.maximum(0, o.kappas(L, p["B"], p["j_min"])))[row]
    if name == "AxisymmetricWavelets":
        return zonal(L, k * np.sqrt((2 * e + 1) / (4 * np.pi))), None, 0
    return zonal(L, k * ring(L, p["spin"]) / (1 if row == 0 else math.sqrt(2 * math.pi))), None, p["spin"]


def judge(f, c, what=None):
    """Coefficients of the object against the definition."""
    what = what or describe(c)
    ref, tol, spin = reference(c)
    got = o.as_array(f.coefficients, ref.shape, what)
    if tol is None:  # generating functions are compared squared: their root is steep near zero
        size = zonal(c["L"], wavelet_scale(c)).real
        floor = 1e-10 * max(1, size.max())  # orders where the ring vanishes are rounding errors on both sides
        size = np.maximum(floor, size)
        o.check(np.isfinite(got).all(), f"{what} is not finite")
        o.close((got / size) * abs(got / size), (ref / size) * abs(ref / size), 2e-4, what)
        o.check(abs(got[size <= floor]).max(initial=0) <= floor / 50,
                f"{what} has coefficients where its definition vanishes")
    else:
        o.close(got, ref, tol, what)
    o.check(f.spin == spin, f"{what}: spin {f.spin}, expected {spin}")
    return ref


def wavelet_scale(c):
    L, p = c["L"], params(c)
    e = np.arange(L)
    if c["name"] == "AxisymmetricWavelets":
        return np.sqrt((2 * e + 1) / (4 * np.pi))
    return abs(ring(L, p["spin"])) / (1 if p["j"] is None else math.sqrt(2 * math.pi))


def conjugate_symmetric(v, L, tol, what):
    ell, emm = o.lm(L)
    mirror = ell * (ell + 1) - emm
    v = np.asarray(v)
    scale = max(1e-30, abs(v).max(initial=0))
    o.close(v, (-1.0) ** emm * v[mirror].conj(), tol, f"{what} is marked real: conjugate symmetry", scale=scale)
