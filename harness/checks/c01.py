import math

import numpy as np
from hypothesis import strategies as st

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C01"
RULE = ("cases draw the bandlimit, cap size (whole degrees, reals, fractions of pi), single/double cap, "
        "NCPU and (for single-order requests) the order; non-trivial when L >= 2, so that the eigenproblem "
        "couples degrees; distinct by the drawn case")
ASSUMPTIONS = [
    "the reference matrix is a Gauss-Legendre integral of normalised Legendre functions built from the "
    "angular momentum eigenbasis; eigenvalues are compared to 1e-8, residuals to 1e-8",
    "double caps are generated with theta_max <= pi/2 (beyond it the two caps overlap)",
]


def theta_gap(big=False):
    return st.tuples(gen.colat(0.01, math.pi - 0.01), st.sampled_from([False, False, True])).map(
        lambda x: [min(x[0], math.pi / 2) if x[1] else x[0], x[1]])


@st.composite
def all_orders(draw, lo, hi):
    t, g = draw(theta_gap())
    return {"L": draw(gen.bandlimit(lo, hi)), "theta": t, "gap": g,
            "ncpu": draw(st.sampled_from([None, None, 1, 2, 3, 8, 16]))}


def run_all(c):
    L = c["L"]
    env.fresh_data()
    with env.environ(NCPU=c["ncpu"]):
        s = sleplet.slepian.SlepianPolarCap(L, c["theta"], gap=c["gap"])
    A = o.cap_matrix(L, c["theta"], c["gap"])
    o.check_eigen(A, s.eigenvalues, s.eigenvectors, "polar cap", tol=1e-8)
    orders = as_array(s.order, (L * L,), "order")
    _, emm = o.lm(L)
    check((np.sort(orders) == np.sort(emm)).all(), f"orders {sorted(orders)} are not the {L * L} orders")
    off = np.abs(s.eigenvectors) * (emm[None, :] != orders[:, None])
    check(off.max() < 1e-12, "an eigenvector is not of the order it is reported with")
    f = subj.area_fraction({"type": "polar", "theta": c["theta"], "gap": c["gap"]}, L)
    check(subj.shannon_ok(s.N, f * L * L), f"Shannon number {s.N}, expected {f * L * L:.4f} rounded")
    return ok(L >= 2, "gap" if c["gap"] else "cap", "L>16" if L > 16 else "L<=16",
              "hemi+" if c["theta"] > math.pi / 2 else "hemi-")


@st.composite
def one_order(draw, lo, hi):
    t, g = draw(theta_gap())
    L = draw(gen.bandlimit(lo, hi))
    return {"L": L, "theta": t, "gap": g, "m": draw(st.integers(-(L - 1), L - 1)),
            "ncpu": draw(st.sampled_from([None, 1, 2, 5, 24])), "warm": draw(st.booleans()) if L <= 8 else False}


def run_order(c):
    L, m = c["L"], c["m"]
    env.fresh_data()
    with env.environ(NCPU=c["ncpu"]):
        if c["warm"]:
            sleplet.slepian.SlepianPolarCap(L, c["theta"], gap=c["gap"])
        s = sleplet.slepian.SlepianPolarCap(L, c["theta"], gap=c["gap"], order=m)
    _, emm = o.lm(L)
    idx = np.flatnonzero(emm == m)
    A = o.cap_matrix(L, c["theta"], c["gap"])[np.ix_(idx, idx)]
    n = L - abs(m)
    vecs = as_array(s.eigenvectors, (n, L * L), "eigenvectors of one order")
    off = vecs[:, emm != m]
    check(off.size == 0 or np.abs(off).max() < 1e-12, f"eigenvectors of order {m} have other orders")
    o.check_eigen(A, s.eigenvalues, vecs[:, idx], f"order {m}", tol=1e-8)
    f = subj.area_fraction({"type": "polar", "theta": c["theta"], "gap": c["gap"]}, L)
    check(subj.shannon_ok(s.N, f * L * L), f"Shannon number {s.N}, expected {f * L * L:.4f} rounded")
    return ok(L >= 2, "gap" if c["gap"] else "cap", "m<0" if m < 0 else "m>=0",
              "warm" if c["warm"] else "cold")


SUBS = [
    Sub("all_orders", all_orders(1, 10), run_all, 260, 4000, cost=0.16),
    Sub("all_orders_large", all_orders(11, 20), run_all, 32, 500, cost=0.9),
    Sub("one_order", one_order(1, 20), run_order, 500, 12000, cost=0.1),
    Sub("one_order_large", one_order(21, 40), run_order, 24, 800, cost=0.6),
]
