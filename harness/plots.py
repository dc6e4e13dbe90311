"""Figures handed to plotly, captured instead of shown."""

from __future__ import annotations

import numpy as np

import env
import oracle as o
from oracle import as_array, check, close

import plotly.io as pio
import sleplet._vars

UNSEEN = sleplet._vars.SPHERE_UNSEEN


def judge_unseen(value, cmin, what):
    """Blanked samples lie below the colours, whatever the values shown."""
    check(np.isfinite(value) and value < min(cmin, -1e12), f"{what}: samples outside the region are shown as {value}")


class Shown:
    """Records every figure shown and the file name offered for saving it."""

    def __enter__(self):
        self.figures = []
        self.patch = env.patched(pio, "show", self._show)
        self.patch.__enter__()
        return self

    def __exit__(self, *e):
        self.patch.__exit__(*e)

    def _show(self, fig, *a, **kw):
        cfg = kw.get("config") or {}
        self.figures.append((fig, cfg.get("toImageButtonOptions", {}).get("filename")))

    def only(self, what):
        check(len(self.figures) == 1, f"{what}: {len(self.figures)} figures were shown")
        return self.figures[0]


def part(f, kind):
    f = np.asarray(f)
    return {"real": f.real, "imag": f.imag, "abs": np.abs(f), "sum": f.real + f.imag}[kind]


def resolution(L):
    for lim, k in ((2, 64), (4, 32), (8, 16), (128, 8), (512, 4), (1024, 2)):
        if L < lim:
            return k * L
    return L


def judge_normalised(got, field, what, noise=0.0):
    """`got` is the affine rescaling of `field`; `noise` is the rounding of the field itself."""
    lo, hi = float(field.min()), float(field.max())
    spread, top = hi - lo, max(abs(lo), abs(hi))
    if top == 0 and noise == 0:
        close(got, np.full(field.shape, 0.5), 1e-12, f"{what}: a zero field")
        return "zero"
    if top <= 10 * noise:
        check(np.isfinite(got).all(), f"{what} is not finite")
        return "rounding"
    if spread <= 2e-6 * top and spread <= 2e-6 * abs(hi):
        close(got, np.ones(field.shape), 1e-4, f"{what}: a constant field")
        return "constant"
    if spread <= 5e-5 * abs(hi) or spread <= 1e3 * noise:
        check(np.isfinite(got).all(), f"{what} is not finite")
        return "nearly-constant"
    tol = 1e-9 + 10 * noise / spread
    close(got, (field - lo) / spread, tol, what)
    check(abs(got.min()) <= tol and abs(got.max() - 1) <= tol, f"{what}: range [{got.min()}, {got.max()}], expected [0, 1]")
    return "scaled"


def judge_colours(trace, normalise, tick, what, rel=1e-9):
    if normalise:
        got = [trace.cmin, trace.cmid, trace.cmax]
        check(got == [0, 0.5, 1], f"{what}: colour range {got}, expected [0, 0.5, 1]")
        return
    for g, e, n in ((trace.cmin, -tick, "cmin"), (trace.cmax, tick, "cmax"), (trace.cmid, 0, "cmid")):
        check(g is not None and abs(g - e) <= rel * max(abs(tick), 1e-300),
              f"{what}: {n} of the colour range is {g}, expected {e}")
    bar = trace.colorbar
    if bar.tick0 is not None:
        check(abs(bar.tick0 + tick) <= rel * max(abs(tick), 1e-300), f"{what}: first tick {bar.tick0}, expected {-tick}")
    if bar.dtick is not None:
        check(abs(bar.dtick - tick) <= rel * max(abs(tick), 1e-300), f"{what}: tick step {bar.dtick}, expected {tick}")


def judge_sphere(fig, name, field, R, *, normalise, amplitude, base, kind, upsampled, inside, unsure, what, noise=0.0):
    """The figure shows `field`, real samples on the grid of bandlimit R."""
    check(len(fig.data) == 1 and fig.data[0].type == "surface", f"{what}: not a single surface")
    s = fig.data[0]
    shape = (R + 1, 2 * R + 1)
    colour = as_array(s.surfacecolor, shape, f"{what}: colours")
    t, p = o.grid(R)
    T, P = np.meshgrid(t, np.append(p, p[0]), indexing="ij")
    for got, e, n in ((s.x, np.sin(T) * np.cos(P), "x"), (s.y, np.sin(T) * np.sin(P), "y"), (s.z, np.cos(T), "z")):
        close(as_array(got, shape, n), e, 1e-9, f"{what}: {n} coordinates")
    closed = np.concatenate([field, field[:, :1]], axis=1)
    keep = np.ones(shape, bool)
    if inside is not None:
        keep = np.concatenate([inside, inside[:, :1]], axis=1)
        maybe = np.concatenate([unsure, unsure[:, :1]], axis=1)
        blank = colour == UNSEEN
        bad = (blank == keep) & ~maybe
        if bad.any():
            i, j = np.argwhere(bad)[0]
            o.fail(f"{what}: sample {i}, {j} is {'blanked but inside' if blank[i, j] else 'shown but outside'} the region")
        keep = ~blank
        if blank.any():
            judge_unseen(UNSEEN, s.cmin, what)
    if keep.any():
        full = colour.copy()
        if normalise:
            lab = None
            if keep.all():
                lab = judge_normalised(full, closed, f"{what}: colours", noise)
            else:
                lo, hi = closed.min(), closed.max()
                if hi - lo > 5e-5 * abs(hi) and hi - lo > 1e3 * noise:
                    close(full[keep], ((closed - lo) / (hi - lo))[keep], 1e-9 + 10 * noise / (hi - lo), f"{what}: colours")
                    lab = "scaled"
        else:
            close(full[keep], closed[keep], 1e-9, f"{what}: colours", scale=max(np.abs(closed).max(), noise * 1e9, 1e-300))
            lab = "values"
    else:
        lab = "all-blanked"
    tick = amplitude if amplitude is not None else float(np.abs(closed).max())
    # the range is that of the part shown, as large as rounding allows
    judge_colours(s, normalise, tick, what, 1e-9 + (0 if amplitude is not None else 10 * noise / max(abs(tick), 1e-300)))
    want = base + (f"_res{R}" if upsampled else "") + f"_{kind}" + ("_norm" if normalise else "")
    check(name == want, f"{what}: file name {name!r}, expected {want!r}")
    return lab
