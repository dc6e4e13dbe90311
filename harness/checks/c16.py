import os
import pathlib

import numpy as np
from hypothesis import strategies as st

import pyssht as ssht

import env
import gen
import kinds
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet
from checks import c12, c15
from checks.c12 import moments

ID = "C16"
RULE = ("cases draw source spectra (random coefficients and power laws served as the published files), bandlimits, "
        "smoothing factors, masks present or to be computed, regions; non-trivial when L > 1 and, for masks, when the "
        "mask holds some but not all samples; distinct by the drawn case")
ASSUMPTIONS = ["mask samples whose height is within rounding of sea level are not judged",
               "samples are transformed by pyssht's exact transform of the sampling scheme",
               "the CMB realisation is judged by its moments, not by the order in which numbers are drawn"]

F = sleplet.functions
VIEW = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}
RANGE = {"africa": 41, "south_america": 40}
CLASS = {"africa": "Africa", "south_america": "SouthAmerica"}


def rotated(v, L, view):
    a, b, g = np.deg2rad(VIEW[view])
    out = np.zeros(L * L, complex)
    for ell in range(L):
        m = np.arange(-ell, ell + 1)
        D = np.exp(-1j * m * a)[:, None] * o.wigner_d(ell, b) * np.exp(-1j * m * g)[None, :]
        out[ell * ell:(ell + 1) ** 2] = D @ v[ell * ell:(ell + 1) ** 2]
    return out


# ------------------------------------------------------------------ the Earth
@st.composite
def source(draw, lo, hi):
    L = draw(st.integers(lo, hi))
    return {"L": L, "seed": draw(gen.seeds()), "slope": draw(st.sampled_from([0.0, 1.0, 2.0])),
            "smoothing": draw(st.one_of(st.none(), st.integers(1, 6))), "extra": draw(st.integers(0, 6)),
            "peak": draw(st.one_of(st.none(), st.none(), st.tuples(st.floats(0, np.pi), st.floats(0, 6.28),
                                                                   st.sampled_from([1e-2, 1e-4]), st.integers(-2, 2))))}


def write(c, at_least):
    src = subj.earth_source(c["seed"], at_least + c["extra"], c["slope"], c["peak"])
    subj.write_earth(src)
    return src


def kw(c):
    return {} if c["smoothing"] is None else {"smoothing": c["smoothing"]}


def run_earth(c):
    L = c["L"]
    env.fresh_data()
    src = write(c, L)
    f = F.Earth(L, **kw(c))
    got = as_array(f.coefficients, (L * L,), "Earth coefficients")
    ref = subj.earth_reference(src, L, c["smoothing"])
    scale = abs(ref).max()
    close(got, ref, 1e-12, "Earth coefficients", scale=scale)
    check(bool(f.reality), "the Earth is not marked real")
    check(f.spin == 0, "the Earth has spin")
    if c["smoothing"] is None:
        low = 1 + c["seed"] % L
        p = np.asarray(F.Earth(low).coefficients)
        close(p, got[: low * low], 0, f"Earth coefficients at L={low} and the first of L={L}")
    again = F.Earth(L, **kw(c))
    check((np.asarray(again.coefficients) == got).all(), "the Earth differs when built again")
    return ok(L > 1, "plain" if c["smoothing"] is None else "smoothed")


# ------------------------------------------------------------------ the CMB
@st.composite
def cmb(draw):
    return {"L": draw(st.one_of(st.integers(1, 12), st.integers(13, 48))), "seed": draw(gen.seeds()),
            "extra": draw(st.integers(0, 5)), "zero": draw(st.booleans())}


def run_cmb(c):
    L = c["L"]
    env.fresh_data()
    rng = np.random.default_rng(c["seed"])
    cl = rng.uniform(0.1, 1000, max(0, L - 2) + c["extra"] + 1)
    if c["zero"] and L > 3:
        cl[rng.integers(0, L - 2)] = 0
    subj.write_wmap(cl)
    f = F.Wmap(L)
    v = as_array(f.coefficients, (L * L,), "CMB coefficients")
    check(bool(f.reality), "the CMB is not marked real")
    kinds.conjugate_symmetric(v, L, 1e-13, "the CMB")
    check((v[: min(4, L * L)] == 0).all(), "the CMB has a monopole or dipole")
    check(f.spin == 0, "the CMB has spin")
    check((np.asarray(F.Wmap(L).coefficients) == v).all(), "the CMB differs when built again")
    if L < 3:
        return ok(False, "no degrees")
    e = np.arange(2, L)
    sigma = np.concatenate([[0, 0], np.sqrt(2 * np.pi / (e * (e + 1.0)) * cl[: L - 2])])
    ell, emm = o.lm(L)
    s = sigma[ell]
    check((v[s == 0] == 0).all(), "a degree without power has coefficients")
    keep = s > 0
    z = v[keep] / s[keep]
    m = emm[keep]
    white = np.concatenate([z[m == 0].real, z[m > 0].real * np.sqrt(2), z[m > 0].imag * np.sqrt(2)])
    moments(white, f"CMB at L={L} over the source deviation")
    # another spectrum rescales the same realisation degree by degree
    cl2 = np.ones(len(cl))
    subj.write_wmap(cl2)
    u = np.asarray(F.Wmap(L).coefficients)
    s2 = np.concatenate([[0, 0], np.sqrt(2 * np.pi / (e * (e + 1.0)))])[ell]
    close(v[keep] / s[keep], u[keep] / s2[keep], 1e-11, "realisations of two spectra over their deviations", scale=10)
    return ok(True, "L<=12" if L <= 12 else "L>12")


# ------------------------------------------------------------------ maps and masks
@st.composite
def maps(draw):
    c = draw(source(2, 24))
    c["view"] = draw(st.sampled_from(["africa", "south_america"]))
    c["given"] = draw(st.booleans())
    c["mask"] = draw(gen.mask_spec())
    c["twice"] = draw(st.booleans())
    return c


def reference_mask(src, L, view):
    """Land samples (True, False, or unjudged where the height is within rounding of zero)."""
    f = o.synth_grid(rotated(subj.earth_reference(src, L), L, view), L).real
    t, _ = o.grid(L)
    near = (t <= np.deg2rad(RANGE[view]))[:, None] & np.ones(f.shape, bool)
    return near & (f >= 0), abs(f) < 1e-9 * max(1e-30, abs(f).max())


def judge_mask(m, src, L, view):
    ref, unclear = reference_mask(src, L, view)
    m = as_array(m, ref.shape, f"{view} mask").astype(bool)
    bad = (m != ref) & ~unclear
    check(not bad.any(), lambda: f"{view} mask at L={L}: {bad.sum()} samples differ, first {np.argwhere(bad)[0]}")
    return m


def run_map(c):
    L, view = c["L"], c["view"]
    env.fresh_data()
    src = write(c, L)
    data = pathlib.Path(os.environ["XDG_DATA_HOME"])
    path = data / f"slepian_masks_{view}_L{L}.npy"
    if c["given"]:
        mask = gen.build_mask(c["mask"], L)
        subj.save_mask(mask, view, L)
    else:
        R = sleplet.slepian.Region(mask_name=view)
        if c["twice"]:
            mask = judge_mask(sleplet._mask_methods.create_mask_region(L, R), src, L, view)
    f = getattr(F, CLASS[view])(L, **kw(c))
    got = as_array(f.coefficients, (L * L,), f"{view} coefficients")
    if not c["given"]:
        again = sleplet._mask_methods.create_mask_region(L, R)
        mask = judge_mask(again, src, L, view)
        check(path.exists(), "the computed mask was not saved")
        check((np.load(path).astype(bool) == mask).all(), "the saved mask is not the one used")
    g = o.synth_grid(rotated(subj.earth_reference(src, L, c["smoothing"]), L, view), L).real
    ref = ssht.forward(np.where(mask, g, 0).astype(complex), L, Method="MWSS")
    scale = max(1e-30, abs(g).max()) * 4
    close(got, ref, 1e-10, f"{view} coefficients", scale=scale)
    check(bool(f.reality), f"{view} is not marked real")
    check(f.spin == 0, f"{view} has spin {f.spin}")
    kinds.conjugate_symmetric(got, L, 1e-9, view) if mask.any() else check(abs(got).max() <= 1e-12 * scale, "empty map")
    other = getattr(F, CLASS[view])(L, **kw(c))
    close(other.coefficients, got, 1e-13, f"{view} built again", scale=scale)
    return ok(L > 1 and 0 < mask.sum() < mask.size, view, "given mask" if c["given"] else "computed mask",
              "plain" if c["smoothing"] is None else "smoothed")


# ------------------------------------------------------------------ variants of the regions
@st.composite
def variant(draw):
    c = draw(source(2, 7))
    c["view"] = draw(st.sampled_from(["africa", "south_america"]))
    c["given"] = draw(st.booleans())
    c["mask"] = draw(gen.mask_spec())
    c["w"] = draw(kinds.wavelet_args(c["L"]))
    c["sw"] = draw(kinds.wavelet_args(c["L"] ** 2))
    c["snr"] = draw(st.one_of(st.integers(-20, 20), st.floats(-20, 20)))
    return c


def run_variant(c):
    L, view = c["L"], c["view"]
    c12.unit_noise(L)
    env.fresh_data()
    src = write(c, 2 * L)
    if c["given"]:
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), view, g)
        big = gen.build_mask(c["mask"], 2 * L)
        unclear = False
    else:
        big, u = reference_mask(src, 2 * L, view)
        unclear = bool(u.any())
    R = sleplet.slepian.Region(mask_name=view)
    f = getattr(F, f"Slepian{CLASS[view]}")(L, region=R, **kw(c))
    sl = f.slepian
    N = int(sl.N)
    if not unclear:
        A = o.mask_matrix(L, big, 2 * L)
        o.check_eigen(A, sl.eigenvalues, sl.eigenvectors, f"Slepian functions of {view}", tol=1e-8, n_vec=min(N, L * L))
        check(subj.shannon_ok(N, (big * o.grid_weight(2 * L)).sum() / (4 * np.pi) * L * L), f"Shannon number {N}")
    m = getattr(F, CLASS[view])(L, **kw(c))
    v = np.asarray(m.coefficients)
    ref = np.asarray(sl.eigenvectors)[:N].conj() @ v
    close(as_array(f.coefficients, (N,), "Slepian coefficients"), ref, 1e-10, f"Slepian coefficients of {view}",
          scale=max(1e-30, abs(v).max()) * L)
    check(not f.reality, "Slepian coefficients marked real")
    check(f.spin == 0, f"Slepian coefficients have spin {f.spin}")
    # Slepian wavelet coefficients and noise of the map
    f_p = np.asarray(f.coefficients)
    size = max(1e-30, abs(f_p).max(initial=0))
    w = c["sw"]
    row = 0 if w["j"] is None else w["j"] + 1
    h = getattr(F, f"SlepianWaveletCoefficients{CLASS[view]}")(L, region=R, **w, **kw(c))
    kap = np.sqrt(np.maximum(0, o.kappas(L * L, w["B"], w["j_min"])))[:, :N]
    wc = as_array(h.wavelet_coefficients, None, "Slepian wavelet coefficients")
    J = len(wc)
    check(J <= len(kap), f"{J} scales of Slepian wavelet coefficients, expected at most {len(kap)}")
    conj = J and abs(wc - kap[:J] * f_p).max(initial=0) > abs(wc - kap[:J] * f_p.conj()).max(initial=0)  # either convention
    close(wc.conj() if conj else wc, kap[:J] * f_p, 3e-2, f"Slepian wavelet coefficients of {view}", scale=size)
    close(abs(wc) ** 2, kap[:J] ** 2 * abs(f_p) ** 2, 1e-3, f"power of the Slepian wavelet coefficients of {view}", scale=size**2)
    close(kap[J:] * f_p, np.zeros(kap[J:].shape), 3e-2, f"Slepian wavelet coefficients of {view} left out", scale=size)
    got = as_array(h.coefficients, (N,), "Slepian wavelet coefficients of the scale")
    check((got == (wc[row] if row < J else 0)).all(), f"scale {w['j']} does not select row {row} of the Slepian wavelets")
    P = (abs(f_p) ** 2).sum()
    if P > 0:
        sigma = np.sqrt(10 ** (-c["snr"] / 10) * P / L**2)
        h = getattr(F, f"SlepianNoise{CLASS[view]}")(L, region=R, SNR=c["snr"], **kw(c))
        close(as_array(h.coefficients, (N,), "Slepian noise") / sigma, c12.project(f, L), 1e-8,
              f"noise of {view} over the deviation prescribed by the map", scale=10)
    # axisymmetric wavelet coefficients of the map and of the Earth
    w = c["w"]
    row = 0 if w["j"] is None else w["j"] + 1
    ell, _ = o.lm(L)
    kap = np.sqrt(np.maximum(0, o.kappas(L, w["B"], w["j_min"])))
    for name, vec in ((CLASS[view], v), ("Earth", subj.earth_reference(src, L, c["smoothing"]))):
        h = getattr(F, f"AxisymmetricWaveletCoefficients{name}")(L, **w, **kw(c))
        wc = as_array(h.wavelet_coefficients, (len(kap), L * L), "wavelet coefficients")
        scale = max(1e-30, abs(vec).max())
        close(wc, kap[:, ell] * vec, 1e-2, f"wavelet coefficients of {name}", scale=scale)
        close(abs(wc) ** 2, kap[:, ell] ** 2 * abs(vec) ** 2, 1e-3, f"power of the wavelet coefficients of {name}",
              scale=scale**2)
        check(h.spin == 0, f"wavelet coefficients of {name} have spin {h.spin}")
        if h.reality:
            kinds.conjugate_symmetric(h.coefficients, L, 1e-9, f"wavelet coefficients of {name}")
        check((np.asarray(h.coefficients) == wc[row]).all(), f"scale {w['j']} does not select row {row}")
        back = sleplet.wavelet_methods.axisymmetric_wavelet_inverse(L, wc, h.wavelets)
        close(back, vec, 1e-10, f"reconstructed {name}", scale=scale)
    return ok(N > 0, view, "given mask" if c["given"] else "computed mask")


SUBS = [
    Sub("earth", source(1, 48), run_earth, 700, 8000, cost=0.008),
    Sub("cmb", cmb(), run_cmb, 700, 8000, cost=0.01),
    Sub("maps", maps(), run_map, 700, 8000, cost=0.03),
    Sub("variants", variant(), run_variant, 300, 3000, cost=0.15),
    Sub("refused", c15.region(), c15.run_region, 240, 2000, cost=0.04),
]
