import numpy as np
from hypothesis import strategies as st

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import check

import sleplet

ID = "C02"
RULE = ("cases draw the bandlimit and the four limits (each possibly at its default, or a whole degree); "
        "non-trivial when L >= 2; distinct by the drawn case")
ASSUMPTIONS = ["reference matrix: Gauss-Legendre in theta times the closed-form longitude integral; tolerance 1e-8"]


@st.composite
def rect(draw, lo, hi):
    return {"L": draw(gen.bandlimit(lo, hi)), "a": draw(gen.lat_lon()),
            "via": draw(st.sampled_from(["class", "class", "region"]))}


def run(c):
    L = c["L"]
    t0, t1, p0, p1 = c["a"]
    env.fresh_data()
    if c["via"] == "class":
        s = sleplet.slepian.SlepianLimitLatLon(L, theta_min=t0, theta_max=t1, phi_min=p0, phi_max=p1)
    else:
        s = sleplet.slepian_methods.choose_slepian_method(
            L, sleplet.slepian.Region(theta_min=t0, theta_max=t1, phi_min=p0, phi_max=p1))
    A = o.concentration_matrix(L, t0, t1, p0, p1)
    o.check_eigen(A, s.eigenvalues, s.eigenvectors, "latitude-longitude", tol=1e-8)
    f = subj.area_fraction({"type": "lim", "angles": c["a"]}, L)
    check(subj.shannon_ok(s.N, f * L * L), f"Shannon number {s.N}, expected {f * L * L:.4f} rounded")
    return ok(L >= 2, "phi0" if p0 == 0 else "phi_min>0", "full" if p1 == 2 * np.pi else "phi_max<2pi",
              "theta0" if t0 == 0 else "theta_min>0", "pi" if t1 == np.pi else "theta_max<pi")


SUBS = [
    Sub("rectangles", rect(1, 7), run, 2400, 15000, cost=0.03),
    Sub("rectangles_large", rect(8, 16), run, 96, 1500, cost=0.4),
    Sub("rectangles_huge", rect(17, 24), run, 32, 400, cost=1.2),
]
