"""Independent reference computations.

Nothing here uses sleplet, pyssht or pys2let: spherical harmonics come from the
eigenbasis of the angular momentum operator, integrals from Gauss-Legendre
quadrature or closed forms, Laplacians from the cotangent formula.
"""

from __future__ import annotations

import functools
import math

import numpy as np

from core import Violation


# ------------------------------------------------------------------ assertions
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def as_array(x, shape=None, what="result"):
    try:
        a = np.asarray(x)
    except Exception:  # noqa: BLE001
        fail(f"{what} is not an array: {type(x)}")
    if a.dtype == object:
        fail(f"{what} is not numeric: {x!r:.200}")
    if shape is not None and tuple(a.shape) != tuple(shape):
        fail(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    return a


def as_real(x, what="value"):
    try:
        v = float(x)
    except Exception:  # noqa: BLE001
        fail(f"{what} is not a real number: {x!r:.100}")
    return v


def close(a, b, tol, what, scale=None):
    """max|a-b| <= tol * scale, where the scale defaults to max(1, |b|)."""
    b = np.asarray(b)
    a = as_array(a, b.shape, what)
    if a.size == 0:
        return 0.0
    if not np.isfinite(a).all():
        fail(f"{what} is not finite")
    if scale is None:
        scale = max(1.0, float(np.abs(b).max()))
    err = np.abs(a - b)
    worst = float(err.max())
    if not worst <= tol * scale:
        i = np.unravel_index(int(err.argmax()), err.shape) if err.ndim else ()
        fail(f"{what}: differs by {worst:.3e} (allowed {tol * scale:.1e}) at {tuple(map(int, i))}: "
             f"got {a[i]!r}, expected {b[i]!r}")
    return worst


# ------------------------------------------------------------------ indexing, grid
def lm(L):
    """Degrees and orders in storage order."""
    ell = np.concatenate([np.full(2 * e + 1, e) for e in range(L)])
    emm = np.concatenate([np.arange(-e, e + 1) for e in range(L)])
    return ell, emm


def ind(ell, m):
    return ell * (ell + 1) + m


def grid(L):
    """MWSS sampling: L+1 rings including both poles, 2L longitudes."""
    return np.pi * np.arange(L + 1) / L, np.pi * np.arange(2 * L) / L


def grid_weight(L):
    """Area weights the library uses for samples: sin(theta) dtheta dphi."""
    t, _ = grid(L)
    return np.repeat((np.sin(t) * (np.pi / L) ** 2)[:, None], 2 * L, axis=1)


# ------------------------------------------------------------------ Wigner d, harmonics
@functools.lru_cache(maxsize=None)
def _jy(ell):
    m = np.arange(-ell, ell + 1)
    n = 2 * ell + 1
    J = np.zeros((n, n), dtype=complex)
    for i in range(n - 1):
        a = math.sqrt(ell * (ell + 1) - m[i] * (m[i] + 1))  # J+ |m> = a |m+1>
        J[i + 1, i] += a / 2j
        J[i, i + 1] += -a / 2j
    lam, V = np.linalg.eigh(J)
    return np.round(lam), V


def wigner_d(ell, beta):
    """d^l_{m n}(beta), rows m and columns n from -l to l."""
    lam, V = _jy(ell)
    return ((V * np.exp(-1j * beta * lam)) @ V.conj().T).real


@functools.lru_cache(maxsize=4096)
def _col(ell, n):
    lam, V = _jy(ell)
    return lam, V * V[n + ell].conj()[None, :]


def d_column(ell, n, thetas):
    """d^l_{m n}(theta) for every m: shape (2l+1, len(thetas))."""
    lam, C = _col(ell, n)
    return (C @ np.exp(-1j * np.outer(lam, thetas))).real


def sylm_theta(ell, thetas, spin=0):
    """Theta part of spin spherical harmonics of degree l, every m."""
    n = -spin
    return (-1) ** spin * math.sqrt((2 * ell + 1) / (4 * math.pi)) * d_column(ell, n, thetas)


def theta_table(L, thetas, spin=0):
    """(L^2, ntheta) table of the theta part of sY_lm (zero where l < |s|)."""
    out = np.zeros((L * L, len(thetas)))
    for ell in range(abs(spin), L):
        out[ell * ell : (ell + 1) ** 2] = sylm_theta(ell, thetas, spin)
    return out


_tables = {}


def _table(L, thetas, spin):
    key = (L, spin, thetas.tobytes())
    if key not in _tables:
        if len(_tables) > 12:
            _tables.clear()
        _tables[key] = theta_table(L, thetas, spin)
    return _tables[key]


def synth(flm, L, thetas, phis, spin=0):
    """sum_lm f_lm sY_lm on the tensor grid thetas x phis."""
    thetas, phis = np.asarray(thetas, float), np.asarray(phis, float)
    T = _table(L, thetas, spin) * np.asarray(flm)[:, None]
    _, emm = lm(L)
    F = np.zeros((2 * L - 1, len(thetas)), dtype=complex)
    np.add.at(F, emm + L - 1, T)
    return F.T @ np.exp(1j * np.outer(np.arange(-(L - 1), L), phis))


def synth_grid(flm, L, res=None, spin=0):
    t, p = grid(res or L)
    return synth(flm, L, t, p, spin)


def ylm_points(L, thetas, phis, spin=0):
    """(L^2, n) values of the harmonics at scattered points."""
    _, emm = lm(L)
    return theta_table(L, np.asarray(thetas, float), spin) * np.exp(
        1j * np.outer(emm, np.asarray(phis, float)))


# ------------------------------------------------------------------ analysis on the sphere
@functools.lru_cache(maxsize=64)
def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w


def analyse(fun, L, spin=0, extra=0):
    """Coefficients below L of a function given as fun(thetas, phis) on a grid.

    Exact (to rounding) for functions bandlimited below L+extra.
    """
    n = L + extra + 2
    x, w = gauss(n)
    t = np.arccos(x)
    nphi = 2 * (L + extra) + 2
    p = 2 * np.pi * np.arange(nphi) / nphi
    f = fun(t, p)
    _, emm = lm(L)
    Fm = f @ np.exp(-1j * np.outer(p, np.arange(-(L - 1), L))) * (2 * np.pi / nphi)  # (t, m)
    T = theta_table(L, t, spin)
    return np.einsum("it,ti->i", T * w[None, :], Fm[:, emm + L - 1])


def mwss_exact_forward(f, L, spin=0):
    """Coefficients of samples on the MWSS grid of a function bandlimited at L.

    Least squares over the (overdetermined) sampling, which is exact for
    bandlimited samples.
    """
    t, p = grid(L)
    nphi = 2 * L
    Fm = f @ np.exp(-1j * np.outer(p, np.arange(-(L - 1), L))) / nphi
    T = theta_table(L, t, spin)
    ell, emm = lm(L)
    out = np.zeros(L * L, dtype=complex)
    for m in range(-(L - 1), L):
        idx = np.flatnonzero((emm == m) & (ell >= abs(spin)))
        if len(idx):
            out[idx] = np.linalg.lstsq(T[idx].T, Fm[:, m + L - 1], rcond=None)[0]
    return out


# ------------------------------------------------------------------ Slepian matrices
def theta_integrals(L, a, b, n=None):
    """Nodes, weights for integrals of degree <= 2L polynomials times sin over [a, b]."""
    n = n or (2 * L + 12)
    x, w = gauss(n)
    # in cos(theta) products of equal-parity harmonics are polynomials, others carry a sin
    # factor: theta nodes with enough points converge to rounding for both
    t = 0.5 * (b - a) * x + 0.5 * (b + a)
    return t, 0.5 * (b - a) * w * np.sin(t)


def phi_integral(k, a, b):
    """int_a^b exp(i k phi) dphi, for an array of integers k."""
    k = np.asarray(k, float)
    mid, half = 0.5 * (a + b), 0.5 * (b - a)
    return np.exp(1j * k * mid) * 2 * half * np.sinc(k * half / np.pi)


def concentration_matrix(L, t0, t1, p0, p1):
    """A[b, a] = int_R conj(Y_b) Y_a, so that A s = lambda s."""
    t, w = theta_integrals(L, t0, t1, n=3 * L + 24)
    T = theta_table(L, t)
    _, emm = lm(L)
    A = (T * w) @ T.T
    return A * phi_integral(emm[None, :] - emm[:, None], p0, p1)


def cap_matrix(L, theta_max, gap=False):
    A = concentration_matrix(L, 0.0, theta_max, 0.0, 2 * np.pi)
    if gap:
        A = A + concentration_matrix(L, np.pi - theta_max, np.pi, 0.0, 2 * np.pi)
    _, emm = lm(L)
    return np.where(emm[:, None] == emm[None, :], A, 0)


def mask_matrix(L, mask, grid_L):
    t, p = grid(grid_L)
    Y = (theta_table(L, t)[:, :, None]
         * np.exp(1j * np.outer(lm(L)[1], p))[:, None, :]).reshape(L * L, -1)
    w = (grid_weight(grid_L) * mask).ravel()
    return (Y.conj() * w) @ Y.T


def check_eigen(A, vals, vecs, what, tol=1e-9, n_vec=None):
    """vals descending, vecs orthonormal rows, A v = lambda v, and vals = all eigenvalues."""
    n = A.shape[0]
    vals = as_array(vals, (n,), f"{what} eigenvalues")
    check(np.isrealobj(vals) and np.isfinite(vals).all(), f"{what} eigenvalues are not real")
    vecs = as_array(vecs, None, f"{what} eigenvectors")
    k = n if n_vec is None else n_vec
    check(vecs.ndim == 2 and vecs.shape[1] == n and vecs.shape[0] >= k,
          f"{what} eigenvectors have shape {vecs.shape}, expected ({k}, {n})")
    check((np.diff(vals) <= 1e-12 * max(1, abs(vals).max())).all(),
          f"{what} eigenvalues are not in descending order: {vals[:12]}")
    ref = np.linalg.eigvalsh((A + A.conj().T) / 2)[::-1]
    close(vals, ref, tol, f"{what} eigenvalues against an independent eigenproblem")
    v = vecs[:k]
    close(v @ v.conj().T, np.eye(len(v)), 1e-8, f"{what} eigenvectors orthonormality")
    res = v @ A.T - vals[: len(v), None] * v
    close(res, np.zeros_like(res), max(tol, 1e-8), f"{what} eigen-equation residual")


# ------------------------------------------------------------------ scale-discretised wavelets
@functools.lru_cache(maxsize=None)
def _tiling(B):
    """k(t) = int_t^1 s^2(u)/u du / int_{1/B}^1, with s the smooth bump on [1/B, 1]."""
    x, wt = gauss(400)

    def integral(a, b):
        t = 0.5 * (b - a) * x + 0.5 * (b + a)
        u = 2 * B / (B - 1) * (t - 1 / B) - 1
        s2 = np.where(abs(u) < 1, np.exp(-2 / np.maximum(1 - u * u, 1e-300)), 0)
        return 0.5 * (b - a) * (wt * s2 / t).sum()

    tot = integral(1 / B, 1)
    return functools.lru_cache(maxsize=None)(
        lambda t: 1.0 if t <= 1 / B else 0.0 if t >= 1 else integral(t, 1) / tot)


def j_max(n, B):
    """Smallest j with B^j >= n."""
    j = 0
    while B**j < n:
        j += 1
    return j


@functools.lru_cache(maxsize=512)
def kappas(n, B, j_min):
    """Squared generating functions: the scaling function, then scales j_min..j_max."""
    k = _tiling(B)
    rows = [[k(e / B**j_min) for e in range(n)]]
    for j in range(j_min, j_max(n, B) + 1):
        rows.append([max(0.0, k(e / B ** (j + 1)) - k(e / B**j)) for e in range(n)])
    return np.array(rows)


def scribble(a):
    """Overwrite an array the code returned, as a caller may."""
    a = np.asarray(a)
    if a.size and a.flags.writeable:
        a[...] = 7
