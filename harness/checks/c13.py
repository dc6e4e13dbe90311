import numpy as np
from hypothesis import strategies as st

import pyssht as ssht

import env
import gen
import kinds
import meshgen as mg
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C13"
RULE = ("cases draw bandlimits, regions, meshes, stacks of coefficients, per-scale deviations (scalars or fields), "
        "thresholds relative to the samples' sizes, among them zero, unbounded and exactly at a sample's size; "
        "non-trivial when some samples are removed and some kept; distinct by the drawn case")
ASSUMPTIONS = ["a sample within rounding of the threshold may fall either way: such cases are counted, not compared",
               "samples are transformed back by pyssht's exact transform of the sampling scheme",
               "the Slepian functions of the object are taken as given (C01-C03, C11 decide them)"]

NZ = sleplet.noise
GAP = 1e-9


@st.composite
def levels(draw, rows):
    """Threshold level and deviations relative to the size of each scale's samples."""
    rel = st.sampled_from([0.0, 0.05, 0.3, 0.6, 0.9, 1.0, 1.5, 1e6])
    return {"n": draw(st.sampled_from([0, 1, 2, 3, 3, 1.5, 0.4, 2.9])), "rel": [draw(rel) for _ in range(rows)],
            "field": draw(st.booleans()), "fseed": draw(gen.seeds())}


def deviations(lv, mags, field):
    """sigma_j such that n * sigma_j is the drawn fraction of the largest sample."""
    out = []
    rng = np.random.default_rng(lv["fseed"])
    for r, m in zip(lv["rel"], mags):
        top = max(m.max(), 1e-30)
        s = r * top / (lv["n"] or 1)
        out.append(np.asarray(s * rng.uniform(0.2, 1.8, m.shape)) if field else s)
    return np.array(out)


def split(f, thr):
    """Thresholded samples, and how many are kept, removed and ambiguous."""
    a = abs(f)
    scale = max(a.max(initial=0), 1e-30)
    unclear = (abs(a - thr) <= GAP * scale) & (np.asarray(thr) > 0)
    rm = a < thr
    return np.where(rm, 0, f), int((~rm).sum()), int((rm & (a > GAP * scale)).sum()), bool(unclear.any())


# ------------------------------------------------------------------ harmonic
@st.composite
def harmonic(draw):
    L = draw(gen.bandlimit(1, 14, 48))
    rows = draw(st.integers(1, 5))
    return {"L": L, "rows": rows, "sig": draw(gen.signal()), "real": draw(st.booleans()), "lv": draw(levels(rows))}


def run_harmonic(c):
    L, J = c["L"], c["rows"]
    w = gen.vector(c["sig"], J * L * L).reshape(J, L * L)
    if c["real"]:
        w = np.stack([gen.hermitian(x, L) for x in w])
    f = [o.synth_grid(x, L) for x in w]
    sig = deviations(c["lv"], [abs(x) for x in f[1:]], False)
    n = c["lv"]["n"]
    out = as_array(NZ.harmonic_hard_thresholding(L, w.copy(), sig.copy(), n), w.shape, "thresholded coefficients")
    check((out[0] == w[0]).all(), "the scaling coefficients changed")
    some = False
    for j in range(1, J):
        g, kept, removed, unclear = split(f[j], n * sig[j - 1])
        if unclear:
            continue
        scale = max(abs(w[j]).max(), 1e-30) * L
        if removed == 0:
            close(out[j], w[j], 1e-10, f"scale {j} with every sample kept", scale=scale)
        elif kept == 0:
            check((abs(out[j]) <= 1e-12 * scale).all(), f"scale {j} with every sample removed is not zero")
        close(out[j], ssht.forward(g.astype(complex), L, Method="MWSS"), 1e-9, f"thresholded scale {j}", scale=scale)
        some |= bool(kept and removed)
    return ok(some, "real" if c["real"] else "complex", f"n={n}")


# ------------------------------------------------------------------ samples
@st.composite
def samples(draw):
    return {"sig": draw(gen.signal()), "shape": draw(st.sampled_from([[1], [5], [3, 4], [2, 3, 4]])),
            "n": draw(st.integers(0, 4)), "complex": draw(st.booleans()), "field": draw(st.booleans()),
            "levels": [draw(st.sampled_from(["tie", "tie", "above", "below", "zero", "inf"])) for _ in range(3)]}


def run_samples(c):
    """The thresholding of given samples is exact, also for samples exactly at the threshold."""
    fun = getattr(NZ, "_perform_hard_thresholding", None)
    if fun is None:
        return ok(False, "absent")
    size = int(np.prod(c["shape"]))
    f = gen.vector(c["sig"], size, complex_=c["complex"]).reshape(c["shape"])
    if not c["complex"]:
        f = f.real.copy()
    n = c["n"]
    flat = abs(f).ravel()
    at = {"tie": lambda x: x / n if n and n * (x / n) == x else x, "above": lambda x: x * 1.5, "below": lambda x: x * 0.1,
          "zero": lambda x: 0.0, "inf": lambda x: 1e300}
    sig = np.array([at[c["levels"][i % 3]](x) for i, x in enumerate(flat)]).reshape(f.shape)
    sig = sig if c["field"] else float(sig.flat[c["sig"]["seed"] % size])
    got = fun(f.copy(), sig, n)
    thr = n * np.asarray(sig)
    ref = np.where(abs(f) < thr, 0, f)
    check(np.shape(got) == f.shape, f"samples of shape {f.shape} come back with shape {np.shape(got)}")
    check((np.asarray(got) == ref).all(), f"thresholded samples {got!r}, expected {ref!r}")
    return ok(bool((ref != 0).any() and (ref != f).any()), "field" if c["field"] else "scalar",
              "tie" if bool((abs(f) == thr).any()) else "no tie")


# ------------------------------------------------------------------ Slepian
@st.composite
def slepian(draw, lo=2, hi=7, arbitrary=True):
    L = draw(st.integers(lo, hi))
    rows = draw(st.integers(1, 4))
    return {"L": L, "rows": rows, "region": draw(gen.region_spec(arbitrary=arbitrary)), "sig": draw(gen.signal()), "lv": draw(levels(rows)),
            "float": draw(st.booleans()), "what": draw(st.sampled_from(["wavelets", "wavelets", "function"]))}


def slepian_samples(sl, L):
    V = np.asarray(sl.eigenvectors)[: int(sl.N)]
    return np.stack([o.synth_grid(v, L) for v in V]) if len(V) else np.zeros((0, L + 1, 2 * L), complex)


def run_slepian(c):
    L = c["L"]
    sl = subj.slepian_of(c["region"], L)
    N = int(sl.N)
    if N == 0:
        return ok(False, "N=0")
    S = slepian_samples(sl, L)
    wt = o.grid_weight(L)
    J = 1 if c["what"] == "function" else c["rows"]
    w = gen.vector(c["sig"], J * N).reshape(J, N)
    if c["float"]:  # real coefficients are accepted too; those of the thresholded field need not be real
        w = np.ascontiguousarray(w.real)
    f = [np.tensordot(x, S, axes=1) for x in w]
    n = c["lv"]["n"]
    field = c["lv"]["field"] and c["what"] == "wavelets"
    sig = deviations(c["lv"], [abs(x) for x in f], field)
    if c["what"] == "function":
        out = np.asarray(NZ.slepian_function_hard_thresholding(L, w[0].copy(), float(sig[0]), n, sl))[None]
    else:
        out = NZ.slepian_wavelet_hard_thresholding(L, w.copy(), sig.copy(), n, sl)
    out = as_array(out, w.shape, "thresholded coefficients")
    some = False
    for j in range(J):
        g, kept, removed, unclear = split(f[j], n * sig[j])
        if unclear:
            continue
        ref = (S.conj() * (wt * g)).sum(axis=(1, 2))
        close(out[j], ref, 1e-9, f"thresholded scale {j} of {c['what']}", scale=max(abs(w[j]).max(), 1e-30) * L * L)
        some |= bool(kept and removed)
    return ok(some, c["what"], "field" if field else "scalar", c["region"]["type"], "float" if c["float"] else "complex")


# ------------------------------------------------------------------ meshes
@st.composite
def mesh(draw):
    rows = draw(st.integers(1, 4))
    return {"mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(2, 24)), "rows": rows, "sig": draw(gen.signal()),
            "lv": draw(levels(rows)), "snr": draw(st.floats(-20, 30)), "B": draw(st.integers(2, 4)), "complex": draw(st.integers(0, 2)) == 0}


def run_mesh(c):
    n_v = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
    m, g = mg.memo_mesh(c["mesh"], min(c["k"], n_v - 1))
    env.fresh_data()
    s = sleplet.meshes.MeshSlepian(m)
    N, k = int(s.N), len(m.mesh_eigenvalues)
    if N == 0:
        return ok(False, "N=0")
    S = np.asarray(s.slepian_functions)[:N] @ np.asarray(m.basis_functions)
    J = c["rows"]
    w = gen.vector(c["sig"], J * N, complex_=c["complex"]).reshape(J, N)
    f = [x @ S for x in w]
    n = c["lv"]["n"]
    sig = deviations(c["lv"], [abs(x) for x in f], c["lv"]["field"])
    out = as_array(NZ.slepian_mesh_hard_thresholding(s, w.copy(), sig.copy(), n), w.shape, "thresholded coefficients")
    some = False
    for j in range(J):
        h, kept, removed, unclear = split(f[j], n * sig[j])
        if unclear:
            continue
        scale = max(abs(w[j]).max(), 1e-30) * k
        close(out[j], S @ h, 1e-9, f"thresholded mesh scale {j}", scale=scale)
        if removed == 0:
            close(out[j], w[j], 1e-6, f"mesh scale {j} with every sample kept", scale=scale)
        some |= bool(kept and removed)
    # deviations of the wavelets
    wav = np.asarray(sleplet.meshes.MeshSlepianWavelets(m, B=c["B"], j_min=0).wavelets)
    clean = gen.vector({**c["sig"], "kind": "dense"}, N, complex_=c["complex"])
    dev = as_array(NZ.compute_slepian_mesh_sigma_j(s, clean, wav, c["snr"]), (len(wav), n_v), "deviations")
    sigma = np.sqrt(10 ** (-c["snr"] / 10) * (abs(clean) ** 2).sum() / k)
    ref = sigma * np.sqrt((wav[:, :N] ** 2) @ (S**2))
    close(dev, ref, 1e-9, "deviation of each mesh scale", scale=max(ref.max(), 1e-30))
    return ok(some, "field" if c["lv"]["field"] else "scalar", "complex" if c["complex"] else "real")


# ------------------------------------------------------------------ deviations, denoising
@st.composite
def dev(draw):
    L = draw(st.integers(2, 7))
    return {"L": L, "region": draw(gen.region_spec()), "sig": draw(gen.signal(["dense", "sparse", "real"])),
            "snr": draw(st.floats(-20, 30)), "B": draw(st.integers(2, 4)), "n": draw(st.integers(0, 3))}


def run_dev(c):
    L, B = c["L"], c["B"]
    n = L * L
    env.fresh_data()
    seen = []
    harm, slep = getattr(NZ, "_compute_sigma_j", None), getattr(NZ, "_compute_slepian_sigma_j", None)
    x = gen.vector(c["sig"], n)
    level = np.sqrt(10 ** (-c["snr"] / 10) / n)
    if harm is not None:
        psi = np.asarray(sleplet.functions.AxisymmetricWavelets(L, B=B, j_min=0).wavelets)[1:]
        got = as_array(harm(x.copy(), psi.copy(), c["snr"]), (len(psi),), "deviations")
        ref = level * np.linalg.norm(x) * np.sqrt((abs(psi) ** 2).sum(axis=1))
        close(got, ref, 1e-11, "deviation of each harmonic scale", scale=max(ref.max(), 1e-30))
        # the S2LET denoising demonstration: an unnoised signal with zero threshold returns
        W = sleplet.wavelet_methods
        aw = np.asarray(sleplet.functions.AxisymmetricWavelets(L, B=B, j_min=0).wavelets)
        w = W.axisymmetric_wavelet_forward(L, x, aw)
        w0 = np.array(w)
        th = NZ.harmonic_hard_thresholding(L, w, got, 0)
        close(th, w0, 1e-9, "zero threshold", scale=max(abs(x).max(), 1e-30) * L)
        close(W.axisymmetric_wavelet_inverse(L, th, aw), x, 1e-9, "denoised with a zero threshold",
              scale=max(abs(x).max(), 1e-30) * L)
        seen.append("harmonic")
    if slep is not None:
        sl = subj.slepian_of(c["region"], L)
        N = int(sl.N)
        S = slepian_samples(sl, L)
        wav = np.sqrt(o.kappas(n, B, 0))
        f_p = gen.vector(c["sig"], max(N, 1))[:N]
        got = as_array(slep(L, f_p.copy(), wav.copy(), c["snr"], sl), (len(wav), L + 1, 2 * L), "deviations")
        ref = level * np.linalg.norm(f_p) * np.sqrt(np.tensordot(wav[:, :N] ** 2, abs(S) ** 2, axes=1))
        close(got, ref, 1e-9, "deviation of each Slepian scale", scale=max(ref.max(initial=0), 1e-30))
        seen.append("slepian")
    return ok(bool(seen), *seen)


SUBS = [
    Sub("harmonic", harmonic(), run_harmonic, 1500, 20000, cost=0.008),
    Sub("samples", samples(), run_samples, 2000, 20000, cost=0.001),
    Sub("slepian", slepian(), run_slepian, 900, 10000, cost=0.03),
    Sub("slepian_large", slepian(8, 14, False), run_slepian, 40, 600, cost=0.5),
    Sub("mesh", mesh(), run_mesh, 500, 6000, cost=0.03),
    Sub("deviations", dev(), run_dev, 500, 5000, cost=0.03),
]
