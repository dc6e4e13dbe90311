import numpy as np
from hypothesis import strategies as st

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import check

import sleplet

ID = "C03"
RULE = ("cases draw the bandlimit, a boolean mask on the 2L grid (random, bands, boxes, single pixel, "
        "disconnected, everywhere, with and without poles) and NCPU; non-trivial when L >= 2 and the mask is "
        "neither empty nor full; distinct by the drawn case")
ASSUMPTIONS = ["integration with the library's weights sin(theta) dtheta dphi on the 2L grid is part of the "
               "property (no exact upper bound of 1 on eigenvalues is claimed); tolerance 1e-8"]


@st.composite
def masks(draw, lo, hi):
    return {"L": draw(gen.bandlimit(lo, hi)), "mask": draw(gen.mask_spec()),
            "ncpu": draw(st.sampled_from([None, None, 1, 2, 3, 7]))}


def run(c):
    L = c["L"]
    env.fresh_data()
    m = gen.build_mask(c["mask"], 2 * L)
    name = subj.mask_name(c["mask"])
    subj.save_mask(m, name, 2 * L)
    with env.environ(NCPU=c["ncpu"]):
        s = sleplet.slepian.SlepianArbitrary(L, name)
    A = o.mask_matrix(L, m, 2 * L)
    o.check_eigen(A, s.eigenvalues, s.eigenvectors, "masked region", tol=1e-8)
    f = (m * o.grid_weight(2 * L)).sum() / (4 * np.pi)
    check(subj.shannon_ok(s.N, f * L * L), f"Shannon number {s.N}, expected {f * L * L:.4f} rounded")
    return ok(L >= 2 and 0 < m.mean() < 1, c["mask"]["kind"])


SUBS = [
    Sub("masks", masks(1, 5), run, 2000, 6000, cost=0.1),
    Sub("masks_large", masks(6, 9), run, 240, 600, cost=1.0),
    Sub("masks_huge", masks(10, 14), run, 24, 200, cost=1.5),
]
