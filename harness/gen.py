"""Shared Hypothesis strategies. Every random choice of a case is drawn here.

Long coefficient vectors are described by a drawn seed plus a drawn shape
(kind, scale, support), so that cases stay small and replay exactly.
"""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st


def bandlimit(lo, hi, tail=None):
    """Bandlimits of a range, with a tail one in about thirty times beyond it."""
    if tail is None:
        return st.integers(lo, hi)
    return st.tuples(st.integers(0, 29), st.integers(lo, hi), st.integers(hi + 1, tail)).map(lambda t: t[2] if t[0] == 13 else t[1])


def seeds():
    return st.integers(0, 2**20)


def degrees(lo, hi):
    return st.integers(lo, hi).map(lambda d: math.radians(d))


def colat(lo=0.02, hi=math.pi - 0.02):
    """Colatitudes: whole degrees, arbitrary reals, exact grid fractions of pi."""
    return st.one_of(
        st.integers(math.ceil(math.degrees(lo)), math.floor(math.degrees(hi))).map(math.radians),
        st.floats(lo, hi, allow_nan=False),
        st.integers(1, 23).map(lambda k: k * math.pi / 24).filter(lambda t: lo <= t <= hi),
    )


KINDS = ["dense", "dense", "sparse", "single", "real", "zero", "low", "high", "imag", "units", "ones", "decay"]


@st.composite
def signal(draw, kinds=None):
    return {
        "seed": draw(seeds()),
        "kind": draw(st.sampled_from(kinds or KINDS)),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0, 1e-11, 1e7, -1.0])),
        "at": draw(st.integers(0, 4095)),
    }


def vector(sig, n, complex_=True):
    """Build the length-n vector described by a drawn signal."""
    rng = np.random.default_rng(sig["seed"])
    x = rng.standard_normal(n)
    y = rng.standard_normal(n)
    k = sig["kind"]
    v = x + 1j * y if complex_ and k != "real" else x.astype(complex if complex_ else float)
    if n == 0:
        return v
    if k == "sparse":
        v = np.where(rng.random(n) < 0.3, v, 0)
    elif k == "single":
        w = np.zeros_like(v)
        w[sig["at"] % n] = v[sig["at"] % n]
        v = w
    elif k == "zero":
        v = np.zeros_like(v)
    elif k == "low":
        v = v.copy()
        v[1 + sig["at"] % n:] = 0
    elif k == "imag" and complex_:
        v = 1j * x
    elif k == "units":
        v = rng.choice(np.array([0, 0, 1, -1, 1j, -1j] if complex_ else [0, 1, -1], dtype=v.dtype), n)
    elif k == "ones":
        v = np.ones_like(v)
    elif k == "decay":
        v = v * 10.0 ** (-10 * rng.random(n))
    elif k == "high":
        v = v.copy()
        v[: sig["at"] % n] = 0
    return v * sig["scale"]


def hermitian(v, L):
    """Make coefficients those of a real field: f_{l,-m} = (-1)^m conj f_{lm}."""
    v = np.array(v, dtype=complex)
    for ell in range(L):
        i0 = ell * (ell + 1)
        v[i0] = v[i0].real
        for m in range(1, ell + 1):
            v[i0 - m] = (-1) ** m * np.conj(v[i0 + m])
    return v


@st.composite
def lat_lon(draw):
    """Valid latitude-longitude limits with at least one that makes it not a cap."""
    while_default = st.booleans()
    t0 = draw(st.one_of(st.just(0.0), colat(0.02, 2.9)))
    t1 = draw(st.one_of(st.just(math.pi), st.floats(0.05, 1).map(lambda x: x)))
    if t1 != math.pi:
        t1 = t0 + (math.pi - t0) * t1
        if draw(while_default):
            d = math.floor(math.degrees(t1))
            if math.radians(d) > t0 + 0.02:
                t1 = math.radians(d)
        if t1 > math.pi:
            t1 = math.pi
    p0 = draw(st.one_of(st.just(0.0), st.floats(0.01, 6.0), st.integers(1, 340).map(math.radians)))
    p1 = draw(st.one_of(st.just(2 * math.pi), st.floats(0.05, 0.99)))
    if p1 != 2 * math.pi:
        p1 = p0 + (2 * math.pi - p0) * p1
    if t0 == 0 and p0 == 0 and p1 == 2 * math.pi:
        p1 = draw(st.floats(0.1, 6.2))
    # limits which are, or nearly are, special: symmetric about the equator, at it, a quarter or half of the turn wide
    near = draw(st.sampled_from([None] * 6 + ["mirror", "equator", "quarter", "half", "half"]))
    off = draw(st.sampled_from([0.0, 1e-9, 1e-5, -1e-5, 1e-3, -1e-3, 8e-3, -8e-3]))
    if near == "mirror" and 0.05 < t0 < 1.5:
        t1 = math.pi - t0 + off
    elif near == "equator" and t0 < 1.5:
        t1 = math.pi / 2 + off
    elif near in ("quarter", "half"):
        w = math.pi / (2 if near == "quarter" else 1) + off
        p0 = min(p0, 2 * math.pi - w)
        p1 = min(p0 + w, 2 * math.pi)
    return [t0, t1, p0, p1]


@st.composite
def mask_spec(draw):
    kind = draw(st.sampled_from(["random", "band", "box", "pixel", "all", "nopole", "pole", "two", "steps"]))
    return {"kind": kind, "seed": draw(seeds()), "p": draw(st.sampled_from([0.15, 0.5, 0.85])),
            "a": draw(st.integers(0, 63)), "b": draw(st.integers(0, 63)),
            "c": draw(st.integers(0, 63)), "d": draw(st.integers(0, 63)),
            "sym": draw(st.sampled_from([None] * 4 + ["mirror", "opposite", "half", "east", "turn"]))}


def build_mask(spec, grid_L):
    """Half of the masks have a symmetry, or nearly one (as many samples, elsewhere)."""
    m = plain_mask(spec, grid_L)
    sym, n = spec.get("sym"), len(m) // 2
    if sym in ("mirror", "opposite"):  # about the equator, elsewhere in longitude for "opposite"
        south = m[:n][::-1]
        m[len(m) - n:] = np.roll(south, 1 + spec["d"] % (2 * grid_L), axis=1) if sym == "opposite" else south
    elif sym == "half":  # of half the period
        m[:, grid_L:] = m[:, :grid_L]
    elif sym == "east":  # even in longitude
        m |= np.roll(m[:, ::-1], 1, axis=1)
    elif sym == "turn":  # about a horizontal axis
        m |= np.roll(m[::-1, ::-1], 1, axis=1)
    return m


def plain_mask(spec, grid_L):
    nt, npz = grid_L + 1, 2 * grid_L
    m = np.zeros((nt, npz), dtype=bool)
    i = sorted((spec["a"] % nt, spec["b"] % nt))
    j = sorted((spec["c"] % npz, spec["d"] % npz))
    k = spec["kind"]
    if k == "random":
        m = np.random.default_rng(spec["seed"]).random((nt, npz)) < spec["p"]
    elif k == "band":
        m[i[0]: i[1] + 1] = True
    elif k == "box":
        m[i[0]: i[1] + 1, j[0]: j[1] + 1] = True
    elif k == "pixel":
        m[min(nt - 1, 1 + spec["a"] % max(1, nt - 2)), spec["c"] % npz] = True
    elif k == "all":
        m[:] = True
    elif k == "nopole":
        m[1:-1] = np.random.default_rng(spec["seed"]).random((nt - 2, npz)) < spec["p"]
    elif k == "pole":
        m[: 1 + spec["a"] % nt] = True
        m[spec["b"] % nt, spec["c"] % npz] ^= True
    elif k == "two":
        m[i[0], j[0]] = True
        m[i[1]:, : j[1] + 1] = True
    elif k == "steps":  # as many samples in every column, at different colatitudes
        n = 1 + spec["c"] % max(1, nt - 2)
        up = np.random.default_rng(spec["seed"]).integers(0, nt - n + 1, npz)
        m = (np.arange(nt)[:, None] >= up) & (np.arange(nt)[:, None] < up + n)
    return m


def region_spec(arbitrary=True, caps=True):
    opts = []
    if caps:
        opts.append(st.builds(lambda t, g: {"type": "polar", "theta": t if not g else min(t, math.pi / 2), "gap": g},
                              colat(0.3, 2.8), st.sampled_from([False, False, True])))
    opts.append(lat_lon().map(lambda a: {"type": "lim", "angles": a}))
    if arbitrary:
        opts.append(mask_spec().map(lambda m: {"type": "mask", "mask": m}))
    return st.one_of(*opts)
