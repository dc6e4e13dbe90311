import numpy as np
from hypothesis import strategies as st

import gen
import oracle as o
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C08"
RULE = ("cases draw the bandlimit (degrees), dilation parameter, minimum scale up to the maximum one, signals and "
        "scale; non-trivial when there is more than one scale; distinct by the drawn case")
ASSUMPTIONS = ["the minimum scale does not exceed the maximum one, ceil(log_B L)",
               "generating functions are compared with Gauss quadrature of their definition to 1e-3"]

F = sleplet.functions
W = sleplet.wavelet_methods


@st.composite
def params(draw, hi, tail=None):
    L = draw(st.one_of(gen.bandlimit(1, hi, tail), st.sampled_from([2, 4, 8, 9, 16, 25, 27]).map(lambda x: min(x, hi))))
    B = draw(st.integers(2, 6))
    jm = o.j_max(L, B)
    return {"L": L, "B": B, "j_min": draw(st.integers(0, jm))}


def judge_kappas(k, n, B, j_min):
    jm = o.j_max(n, B)
    k = as_array(k, (jm - j_min + 2, n), "generating functions")
    check(np.isrealobj(k) or abs(k.imag).max() == 0, "generating functions are not real")
    close((k**2).sum(axis=0), np.ones(n), 1e-12, "sum of the squared generating functions")
    deg = np.arange(n)
    for j in range(j_min, jm + 1):
        out = (deg < B ** (j - 1)) | (deg > B ** (j + 1))
        check((k[j - j_min + 1][out] == 0).all(), f"scale {j} is not zero outside {B}^{j - 1}..{B}^{j + 1}")
    check((k[0][deg > B**j_min] == 0).all(), "the scaling function is not zero beyond the minimum scale")
    ref = o.kappas(n, B, j_min)
    close(k**2, ref, 2e-4, "squared generating functions")
    close(k, np.sqrt(ref), 5e-3, "generating functions")


@st.composite
def tiling(draw):
    n = draw(st.one_of(st.integers(1, 80), st.sampled_from([100, 128, 144, 243, 256, 400])))
    B = draw(st.integers(2, 6))
    return {"n": n, "B": B, "j_min": draw(st.integers(0, o.j_max(n, B)))}


def run_tiling(c):
    k = W.create_kappas(c["n"], c["B"], c["j_min"])
    judge_kappas(k, c["n"], c["B"], c["j_min"])
    o.scribble(k)  # what a caller does with the result must not reach later requests
    judge_kappas(W.create_kappas(c["n"], c["B"], c["j_min"]), c["n"], c["B"], c["j_min"])
    return ok(c["n"] > 1, f"B={c['B']}")


@st.composite
def wave(draw):
    p = draw(params(24, 80))
    p["j"] = draw(st.one_of(st.none(), st.integers(0, o.j_max(p["L"], p["B"]) - p["j_min"])))
    p["cli"] = draw(st.booleans())
    p["sig"] = draw(gen.signal())
    p["real"] = draw(st.booleans())
    return p


def run_wave(c):
    L, B, j_min, j = c["L"], c["B"], c["j_min"], c["j"]
    if c["cli"] and j is not None:
        f = F.AxisymmetricWavelets(L, extra_args=[B, j_min, j])
    else:
        f = F.AxisymmetricWavelets(L, B=B, j_min=j_min, j=j)
    n = o.j_max(L, B) - j_min + 2
    wav = as_array(f.wavelets, (n, L * L), "wavelets")
    ell, emm = o.lm(L)
    z = np.flatnonzero(emm == 0)
    check((np.delete(wav, z, axis=1) == 0).all(), "a wavelet has a coefficient of non-zero order")
    kap = wav[:, z] / np.sqrt((2 * np.arange(L) + 1) / (4 * np.pi))
    check(abs(kap.imag).max() < 1e-14, "wavelets are not real at order zero")
    judge_kappas(kap.real, L, B, j_min)
    row = 0 if j is None else j + 1
    check((np.asarray(f.coefficients) == wav[row]).all(), f"j={j} does not select row {row} of the wavelets")
    # transform
    v = gen.vector(c["sig"], L * L)
    if c["real"]:
        v = gen.hermitian(v, L)
    v0, w0 = v.copy(), wav.copy()
    scale = max(1e-30, abs(v).max())
    w = as_array(W.axisymmetric_wavelet_forward(L, v, wav), (n, L * L), "wavelet coefficients")
    exp = kap.real[:, ell] * v0[None]
    close(w, exp, 1e-12, "wavelet coefficients", scale=scale)
    kept = w.copy()
    back = as_array(W.axisymmetric_wavelet_inverse(L, w, wav), (L * L,), "reconstruction")
    close(back, v0, 1e-11, "reconstructed signal", scale=scale)
    check((v == v0).all() and (wav == w0).all() and (w == kept).all(), "a transform changed its inputs")
    return ok(n > 2 and np.any(v0 != 0), "scaling" if j is None else "wavelet", c["sig"]["kind"])


@st.composite
def linear(draw):
    p = draw(params(16, 40))
    p["a"], p["b"] = draw(gen.signal()), draw(gen.signal())
    return p


def run_linear(c):
    """The inverse is linear in arbitrary wavelet coefficients, also ones no signal produces."""
    L, B, j_min = c["L"], c["B"], c["j_min"]
    wav = np.asarray(F.AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets)
    n = len(wav)
    w = gen.vector(c["a"], n * L * L).reshape(n, L * L)
    got = W.axisymmetric_wavelet_inverse(L, w, wav)
    ell, _ = o.lm(L)
    kap = (wav[:, [e * e + e for e in range(L)]] / np.sqrt((2 * np.arange(L) + 1) / (4 * np.pi))).real
    close(got, (kap[:, ell] * w).sum(axis=0), 1e-11, "inverse of arbitrary coefficients", scale=max(1e-30, abs(w).max()))
    return ok(n > 2 and np.any(w != 0), c["a"]["kind"])


SUBS = [
    Sub("tiling", tiling(), run_tiling, 2000, 20000, cost=0.004),
    Sub("wavelets", wave(), run_wave, 2000, 20000, cost=0.01),
    Sub("arbitrary_coefficients", linear(), run_linear, 500, 5000, cost=0.01),
]
