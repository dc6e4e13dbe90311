import numpy as np
from hypothesis import strategies as st

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C09"
RULE = ("cases draw bandlimits, Shannon numbers (also from regions), dilation parameters, minimum scales and Slepian "
        "signals, among them zero, sparse and band-confined ones; non-trivial when the signal is not zero and there is "
        "more than one scale; distinct by the drawn case")
ASSUMPTIONS = ["the minimum scale does not exceed the maximum one",
               "wavelet coefficients may be the weighted signal or its conjugate, as the sifting convolution defines "
               "them, but the same one throughout"]

F = sleplet.functions
W = sleplet.wavelet_methods


@st.composite
def params(draw, lo, hi, tail=None):
    L = draw(gen.bandlimit(lo, hi, tail))
    B = draw(st.integers(2, 5))
    jm = o.j_max(L * L, B)
    return {"L": L, "B": B, "j_min": draw(st.integers(0, jm))}


KINDS = ["dense", "sparse", "single", "real", "zero", "low", "high", "band", "gap"]


@st.composite
def transform(draw):
    p = draw(params(1, 12, 32))
    n = p["L"] ** 2
    p["N"] = draw(st.one_of(st.just(n), st.integers(1, n)))
    p["len"] = draw(st.sampled_from(["L2", "N"]))
    p["sig"] = draw(gen.signal(KINDS))
    p["lo"], p["hi"] = sorted((draw(st.integers(0, n)), draw(st.integers(0, n))))
    return p


def make(c, n):
    v = gen.vector(c["sig"], n)
    i = np.arange(n)
    if c["sig"]["kind"] == "band":
        v = np.where((i >= c["lo"]) & (i <= c["hi"]), v, 0)
    elif c["sig"]["kind"] == "gap":
        v = np.where((i >= c["lo"]) & (i <= c["hi"]), 0, v)
    return v


def judge(f_p, wav, N, w, scale):
    """w: forward coefficients of f_p with wavelets wav truncated at N."""
    full = wav[:, :N] * f_p[None, :N]
    rows = np.flatnonzero((abs(full) > 0).any(axis=1))
    n = rows.max() + 1 if len(rows) else 0
    w = as_array(w, None, "wavelet coefficients")
    check(w.ndim == 2 and w.shape == (n, N),
          f"wavelet coefficients have shape {w.shape}, expected {(n, N)}")
    a, b = abs(w - full[:n]).max(initial=0), abs(w - full[:n].conj()).max(initial=0)
    check(min(a, b) <= 1e-12 * scale, f"wavelet coefficients differ from the weighted signal by {min(a, b):.2e}")
    return n


def run_transform(c):
    L, N = c["L"], c["N"]
    n = L * L
    o.scribble(W.create_kappas(n, c["B"], c["j_min"]))
    wav = as_array(W.create_kappas(n, c["B"], c["j_min"]), None, "wavelets")
    close((wav**2).sum(axis=0), np.ones(n), 1e-12, "tiling of the Slepian spectrum")
    f = make(c, n if c["len"] == "L2" else N)
    f0, wav0 = f.copy(), wav.copy()
    scale = max(1e-30, abs(f).max(initial=0))
    w = W.slepian_wavelet_forward(f, wav, N)
    J = judge(f0, wav, N, w, scale)
    kept = np.array(w)
    back = as_array(W.slepian_wavelet_inverse(w, wav, N), (N,), "reconstruction")
    close(back, f0[:N], 1e-11, "reconstructed Slepian coefficients", scale=scale)
    check((f == f0).all() and (wav == wav0).all() and (np.asarray(w) == kept).all(), "a transform changed its inputs")
    lab = "all scales" if J == len(wav) else "no scale" if J == 0 else "trimmed"
    return ok(np.any(f0[:N] != 0) and len(wav) > 2, lab, c["sig"]["kind"])


# ------------------------------------------------------------------ through the objects
@st.composite
def objects(draw):
    p = draw(params(2, 6))
    p["region"] = draw(gen.region_spec())
    p["j"] = draw(st.one_of(st.none(), st.integers(0, o.j_max(p["L"] ** 2, p["B"]) - p["j_min"])))
    p["cli"] = draw(st.booleans())
    p["sig"] = draw(gen.signal())
    return p


def run_objects(c):
    L, B, j_min, j = c["L"], c["B"], c["j_min"], c["j"]
    n = L * L
    env.fresh_data()
    R = subj.region_of(c["region"], L)
    kw = {"extra_args": [B, j_min, j]} if c["cli"] and j is not None else {"B": B, "j_min": j_min, "j": j}
    f = F.SlepianWavelets(L, region=R, **kw)
    ref = o.kappas(n, B, j_min)
    wav = as_array(f.wavelets, ref.shape, "wavelets")
    close((wav**2).sum(axis=0), np.ones(n), 1e-12, "tiling of the Slepian spectrum")
    close(wav**2, ref, 2e-4, "squared generating functions")
    row = 0 if j is None else j + 1
    check((np.asarray(f.coefficients) == wav[row]).all(), f"j={j} does not select wavelet row {row}")
    N = int(f.slepian.N)
    v = gen.vector(c["sig"], n)
    f_p = np.asarray(sleplet.slepian_methods.slepian_forward(L, f.slepian, flm=v))
    w = W.slepian_wavelet_forward(f_p, wav, N)
    scale = max(1e-30, abs(f_p).max(initial=0))
    judge(f_p, wav, N, w, scale)
    if N:
        close(W.slepian_wavelet_inverse(w, wav, N), f_p[:N], 1e-11, "reconstructed Slepian coefficients", scale=scale)
    return ok(N > 0 and np.any(f_p != 0) and len(wav) > 2, c["region"]["type"], "scaling" if j is None else "wavelet")


# ------------------------------------------------------------------ wavelet coefficients of the Earth regions
@st.composite
def earth(draw):
    p = draw(params(2, 6))
    p["which"] = draw(st.sampled_from(["Africa", "SouthAmerica"]))
    p["seed"] = draw(gen.seeds())
    p["j"] = draw(st.one_of(st.none(), st.integers(0, o.j_max(p["L"] ** 2, p["B"]) - p["j_min"])))
    p["cli"] = draw(st.booleans())
    p["mask"] = draw(gen.mask_spec())
    p["smoothing"] = draw(st.sampled_from([None, None, 1, 2]))
    return p


def run_earth(c):
    L, B, j_min, j = c["L"], c["B"], c["j_min"], c["j"]
    env.fresh_data()
    subj.write_earth(subj.earth_source(c["seed"], 2 * L + 1))
    name = {"Africa": "africa", "SouthAmerica": "south_america"}[c["which"]]
    for g in (L, 2 * L):
        subj.save_mask(gen.build_mask(c["mask"], g), name, g)
    R = sleplet.slepian.Region(mask_name=name)
    sm = {} if c["smoothing"] is None else {"smoothing": c["smoothing"]}
    sig = getattr(F, f"Slepian{c['which']}")(L, region=R, **sm)
    N = int(sig.slepian.N)
    f_p = np.asarray(sig.coefficients)
    row = 0 if j is None else j + 1
    kw = {"extra_args": [B, j_min, j]} if c["cli"] and j is not None else {"B": B, "j_min": j_min, "j": j}
    cls = getattr(F, f"SlepianWaveletCoefficients{c['which']}")
    f = cls(L, region=R, **kw, **sm)
    ref = o.kappas(L * L, B, j_min)
    wav = as_array(f.wavelets, ref.shape, "wavelets")
    close(wav**2, ref, 2e-4, "squared generating functions")
    scale = max(1e-30, abs(f_p).max(initial=0))
    w = as_array(f.wavelet_coefficients, None, "wavelet coefficients")
    J = judge(f_p, wav, N, w, scale)
    got = as_array(f.coefficients, (N,), "coefficients of the scale")
    check(f.spin == 0 and not f.reality, f"Slepian wavelet coefficients: spin {f.spin}, reality {f.reality}")
    check((got == (w[row] if row < J else 0)).all(), f"j={j} does not select the coefficients of row {row}")
    if J == 0 and N:
        check((f_p[:N] == 0).all(), "all wavelet coefficients vanish for a signal that does not")
    close(W.slepian_wavelet_inverse(w, wav, N), f_p[:N], 1e-11, "reconstructed Slepian coefficients", scale=scale)
    return ok(J > 0, c["which"], "scaling" if j is None else "wavelet", "kept" if row < J else "zero scale")


SUBS = [
    Sub("transform", transform(), run_transform, 3000, 40000, cost=0.005),
    Sub("objects", objects(), run_objects, 600, 8000, cost=0.05),
    Sub("earth_regions", earth(), run_earth, 320, 4000, cost=0.1),
]
