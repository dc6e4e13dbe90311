"""Building sleplet objects from generated cases."""

from __future__ import annotations

import hashlib
import json

import numpy as np

import env
import gen
import oracle as o

import sleplet


def save_mask(mask, name, grid_L, data=None):
    import os
    import pathlib

    d = pathlib.Path(data or os.environ["XDG_DATA_HOME"])
    d.mkdir(parents=True, exist_ok=True)
    np.save(d / f"slepian_masks_{name}_L{grid_L}.npy", mask)


def mask_name(spec):
    return "m" + hashlib.md5(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]


def region_of(spec, L, masks_at=None):
    """Region object for a generated region; arbitrary masks are put into the data directory."""
    R = sleplet.slepian.Region
    if spec["type"] == "polar":
        return R(theta_max=spec["theta"], gap=spec["gap"])
    if spec["type"] == "lim":
        t0, t1, p0, p1 = spec["angles"]
        return R(theta_min=t0, theta_max=t1, phi_min=p0, phi_max=p1)
    name = mask_name(spec["mask"])
    for g in masks_at or (2 * L, L):
        save_mask(gen.build_mask(spec["mask"], g), name, g)
    return R(mask_name=name)


_memo = {}


def slepian_of(spec, L, fresh=True):
    """The Slepian functions of a region (memoised: caching is C17's subject)."""
    key = json.dumps([spec, L], sort_keys=True)
    if key not in _memo:
        if len(_memo) > 400:
            _memo.clear()
        if fresh:
            env.fresh_data()
        region = region_of(spec, L)
        _memo[key] = sleplet.slepian_methods.choose_slepian_method(L, region)
    return _memo[key]


def reference_matrix(spec, L):
    if spec["type"] == "polar":
        return o.cap_matrix(L, spec["theta"], spec["gap"])
    if spec["type"] == "lim":
        return o.concentration_matrix(L, *spec["angles"])
    return o.mask_matrix(L, gen.build_mask(spec["mask"], 2 * L), 2 * L)


def region_mask(spec, L):
    """Samples of the grid inside the closed region (reference)."""
    t, p = o.grid(L)
    T, P = np.meshgrid(t, p, indexing="ij")
    if spec["type"] == "polar":
        m = T <= spec["theta"]
        if spec["gap"]:
            m = m | (T >= np.pi - spec["theta"])
        return m
    if spec["type"] == "lim":
        t0, t1, p0, p1 = spec["angles"]
        return (T >= t0) & (T <= t1) & (P >= p0) & (P <= p1)
    return gen.build_mask(spec["mask"], L)


def shannon_ok(N, exact):
    """N is the exact value rounded, either way when it sits on a tie."""
    r = exact - np.floor(exact)
    if abs(r - 0.5) < 1e-7:
        return N in (int(np.floor(exact)), int(np.ceil(exact)))
    return N == int(np.floor(exact + 0.5))


def area_fraction(spec, L):
    if spec["type"] == "polar":
        f = (1 - np.cos(spec["theta"])) / 2
        return min(1.0, 2 * f) if spec["gap"] else f
    if spec["type"] == "lim":
        t0, t1, p0, p1 = spec["angles"]
        return (p1 - p0) * (np.cos(t0) - np.cos(t1)) / (4 * np.pi)
    m = gen.build_mask(spec["mask"], 2 * L)
    return (m * o.grid_weight(2 * L)).sum() / (4 * np.pi)


# ------------------------------------------------------------------ Earth and CMB sources
EARTH_FILE = "EGM2008_Topography_flms_L2190.mat"
WMAP_FILE = "wmap_lcdm_pl_model_wmap7baoh0.mat"


def earth_source(seed, L, slope=1.0, peak=None):
    """Source coefficients with only non-negative orders filled, as in the published file."""
    rng = np.random.default_rng(seed)
    ell, emm = o.lm(L)
    v = (rng.standard_normal(L * L) + 1j * rng.standard_normal(L * L)) * 1000.0 / (1.0 + ell) ** slope
    v[emm == 0] = v[emm == 0].real
    if peak is not None:  # low land and one mountain
        theta, phi, low, sea = peak
        v = low * v / 1000 + o.ylm_points(L, [theta], [phi])[:, 0].conj()
        v[0] += sea * low
    v[emm < 0] = 0
    return v


def forget_sources():
    """A memoised loader of the source data may be kept for one set of files, so it is reset with them."""
    import importlib

    for name in ("create_earth_flm", "create_wmap_flm"):
        module = importlib.import_module(f"sleplet._data.{name}")
        for f in list(vars(module).values()):
            if callable(getattr(f, "cache_clear", None)):
                f.cache_clear()


def write_earth(src, data=None):
    import os
    import pathlib

    import scipy.io as sio

    d = pathlib.Path(data or os.environ["XDG_DATA_HOME"])
    d.mkdir(parents=True, exist_ok=True)
    forget_sources()
    sio.savemat(d / EARTH_FILE, {"flm": np.asarray(src)[:, None]})


def write_wmap(cl, data=None):
    import os
    import pathlib

    import scipy.io as sio

    d = pathlib.Path(data or os.environ["XDG_DATA_HOME"])
    d.mkdir(parents=True, exist_ok=True)
    forget_sources()
    sio.savemat(d / WMAP_FILE, {"cl": np.asarray(cl)[:, None]})


def earth_reference(src, L, smoothing=None):
    """Mirrored, real-field coefficients below L."""
    v = np.conj(np.asarray(src, complex)[: L * L])
    v = gen.hermitian(v, L)
    if smoothing is not None:
        ell, _ = o.lm(L)
        v = v * np.exp(-(ell**2) * (np.pi / (smoothing * L)) ** 2)
    return v
