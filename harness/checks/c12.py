import json

import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import meshgen as mg
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, as_real, check, close

import sleplet

ID = "C12"
RULE = ("cases draw signals (analytic functions, arbitrary real-field spectra served as Earth data, Slepian signals of "
        "every region type, mesh signals), SNRs from -20 to 40 dB and pairs of requests; non-trivial when the signal "
        "has power and more than one coefficient; distinct by the drawn case")
ASSUMPTIONS = ["white noise is judged by its moments per group of coefficients (orders zero and positive, real and "
               "imaginary parts), not by the order in which numbers are drawn",
               "the reported SNR of an all-zero signal is not judged"]

F = sleplet.functions
M = sleplet.meshes
NZ = sleplet.noise

SNR = st.one_of(st.integers(-20, 40), st.floats(-20, 40), st.integers(-60, 120))


def power(x):
    return float((abs(np.asarray(x)) ** 2).sum())


# ------------------------------------------------------------------ the formulas
@st.composite
def formula(draw):
    return {"sig": draw(gen.signal(["dense", "sparse", "single", "real", "low"])), "n": draw(st.integers(1, 300)),
            "noise": draw(gen.signal(["dense", "sparse", "real"])), "snr": draw(SNR),
            "den": draw(st.one_of(st.none(), st.integers(1, 500))), "factor": draw(st.sampled_from([1e-3, 0.5, 2, 70.0]))}


def run_formula(c):
    n = c["n"]
    x, z = gen.vector(c["sig"], n), gen.vector(c["noise"], n)
    if not (power(x) and power(z)):
        return ok(False)
    want = np.sqrt(10 ** (-c["snr"] / 10) * power(x) / (c["den"] or n))
    kw = {} if c["den"] is None else {"denominator": c["den"]}
    s = as_real(NZ.compute_sigma_noise(x, c["snr"], **kw), "noise deviation")
    close(s / want, 1.0, 1e-12, f"noise deviation {s}, expected {want}: ratio")
    r = as_real(NZ.compute_snr(x, z, "Harmonic"), "SNR")
    close(r, 10 * np.log10(power(x) / power(z)), 1e-9, "SNR")
    a = c["factor"]
    close(NZ.compute_sigma_noise(a * x, c["snr"], **kw) / (a * s), 1.0, 1e-12, "ratio of deviations of scaled signals")
    return ok(n > 1, "denominator" if c["den"] else "all")


# ------------------------------------------------------------------ harmonic signals
@st.composite
def harmonic(draw):
    src = draw(st.sampled_from(["earth", "earth", "kind"]))
    c = {"src": src, "snr": draw(SNR), "snr2": draw(SNR), "factor": draw(st.sampled_from([1e-2, 3.0, 1.0])),
         "smoothing": draw(st.sampled_from([None, None, 1, 3]))}
    if draw(st.integers(0, 4)) == 2:
        c["snr"], c["left_out"] = 10, True
    if src == "earth":
        c["L"] = draw(gen.bandlimit(1, 24, 64))
        c["seed"], c["slope"] = draw(gen.seeds()), draw(st.sampled_from([0.0, 1.0, 3.0]))
    else:
        c["kind"] = draw(kinds.harmonic(1, 16, tail=40))
        c["L"] = c["kind"]["L"]
    return c


_unit = {}


def unit_noise(L):
    """White noise of unit deviation that the library draws at a bandlimit."""
    if L not in _unit:
        env.fresh_data()
        f = F.DiracDelta(L)
        clean = np.asarray(f.coefficients)
        g = F.DiracDelta(L, noise=0)
        _unit[L] = (np.asarray(g.coefficients) - clean) / np.sqrt(power(clean) / L**2)
    return _unit[L]


def moments(x, what):
    """A sample of standard normal numbers: six deviations allowed for each moment."""
    x = np.asarray(x).ravel()
    n = len(x)
    if n < 12:
        return
    m, v = x.mean(), (x**2).mean()
    check(abs(m) < 6 / np.sqrt(n), f"{what}: mean {m:.3f} of {n} numbers")
    check(abs(v - 1) < 6 * np.sqrt(2 / n), f"{what}: variance {v:.3f} of {n} numbers")
    check(len(np.unique(x)) == n, f"{what}: repeated numbers")
    lag = (x[1:] * x[:-1]).mean()
    check(abs(lag) < 6 / np.sqrt(n - 1), f"{what}: correlation {lag:.3f} of neighbours")


def white(z, L, what):
    ell, emm = o.lm(L)
    z = np.asarray(z)
    kinds.conjugate_symmetric(z, L, 1e-12, what)
    zero, pos = z[emm == 0], z[emm > 0] * np.sqrt(2)
    moments(zero.real, f"{what} at order zero")
    moments(pos.real, f"{what}, real part")
    moments(pos.imag, f"{what}, imaginary part")
    allr = np.concatenate([zero.real, pos.real, pos.imag])
    moments(allr, what)
    if len(pos) > 12:
        r = (pos.real * pos.imag).mean()
        check(abs(r) < 6 / np.sqrt(len(pos)), f"{what}: correlation {r:.3f} of real and imaginary parts")


def build(c, factor=1.0, **kw):
    if c["src"] == "earth":
        subj.write_earth(factor * subj.earth_source(c["seed"], c["L"] + 1, c["slope"]))
        return F.Earth(c["L"], smoothing=c["smoothing"], **kw)
    return kinds.build(c["kind"], **kw)


def kept_clean(f, clean, what):
    held = getattr(f, "_unnoised_coefficients", None)
    if held is not None:
        close(held, clean, 0, f"clean coefficients kept by {what}")


def reported(f, clean, noise, what):
    if power(noise) > 0:
        close(as_real(f.snr, "SNR"), 10 * np.log10(power(clean) / power(noise)), 1e-6, f"SNR reported by {what}")


def run_harmonic(c):
    L = c["L"]
    env.fresh_data()
    f0 = build(c)
    clean = np.array(f0.coefficients)
    if power(clean) == 0 or not np.isfinite(clean).all():
        return ok(False, "no power")
    check(f0.snr is None, f"a function without noise reports an SNR of {f0.snr}")
    f = build(c, noise=c["snr"])
    noise = np.asarray(f.coefficients) - clean
    sigma = np.sqrt(10 ** (-c["snr"] / 10) * power(clean) / L**2)
    tol = 1e-9 + 1e-13 * abs(clean).max() / sigma
    close(noise / sigma, unit_noise(L), tol, f"noise of {c['src']} at L={L} over its deviation", scale=10)
    white(unit_noise(L), L, f"noise at L={L}")
    kept_clean(f, clean, "the noised function")
    reported(f, clean, sigma * unit_noise(L), "the noised function")
    again = build(c, noise=c["snr"])
    check((np.asarray(again.coefficients) == np.asarray(f.coefficients)).all(), "the same call gives other noise")
    if c["src"] == "earth":
        g = build(c, c["factor"], noise=c["snr2"])
        s2 = c["factor"] * np.sqrt(10 ** (-c["snr2"] / 10) * power(clean) / L**2)
        tol = 1e-9 + 1e-12 * c["factor"] * abs(clean).max() / s2
        close((np.asarray(g.coefficients) - c["factor"] * clean) / s2, unit_noise(L), tol,
              "noise of a scaled signal at another SNR, over its deviation", scale=10)
        env.fresh_data()
        subj.write_earth(subj.earth_source(c["seed"], L + 1, c["slope"]))
        kw = {} if c["smoothing"] is None else {"smoothing": c["smoothing"]}
        if c.get("left_out"):
            h = F.NoiseEarth(L, **kw)
        elif float(c["snr"]).is_integer():
            h = F.NoiseEarth(L, extra_args=[int(c["snr"])], **kw)
        else:
            h = F.NoiseEarth(L, SNR=c["snr"], **kw)
        close(np.asarray(h.coefficients) / sigma, unit_noise(L), 1e-9, "noise of the Earth over its deviation", scale=10)
        check(bool(h.reality), "the noise of the Earth is not marked real")
        check(h.spin == 0, f"the noise of the Earth has spin {h.spin}")
    return ok(L > 1, c["src"])


# ------------------------------------------------------------------ Slepian signals
@st.composite
def slepian(draw, lo=2, hi=7, arbitrary=True):
    L = draw(st.integers(lo, hi))
    what = draw(st.sampled_from(["Slepian", "SlepianWavelets", "SlepianIdentity", "SlepianDiracDelta", "Africa",
                                 "SouthAmerica"]))
    c = {"L": L, "what": what, "snr": draw(SNR), "rank": draw(st.integers(0, 60)), "w": draw(kinds.wavelet_args(L * L)),
         "region": draw(gen.region_spec(arbitrary=arbitrary)), "seed": draw(gen.seeds()), "mask": draw(gen.mask_spec()),
         "smoothing": draw(st.sampled_from([None, None, 2]))}
    if draw(st.integers(0, 4)) == 2:
        c["snr"], c["left_out"] = -10, True
    return c


def project(f, L):
    N = int(f.slepian.N)
    return np.asarray(f.slepian.eigenvectors)[:N].conj() @ unit_noise(L)


def run_slepian(c):
    L, what = c["L"], c["what"]
    unit_noise(L)
    env.fresh_data()
    if what in ("Africa", "SouthAmerica"):
        name = {"Africa": "africa", "SouthAmerica": "south_america"}[what]
        subj.write_earth(subj.earth_source(c["seed"], 2 * L + 1))
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), name, g)
        R = sleplet.slepian.Region(mask_name=name)
        cls, kw = getattr(F, f"Slepian{what}"), {} if c["smoothing"] is None else {"smoothing": c["smoothing"]}
    else:
        R = subj.region_of(c["region"], L)
        cls, kw = getattr(F, what), {}
        sl = subj.slepian_of(c["region"], L)
        env.fresh_data()
        R = subj.region_of(c["region"], L)
        if int(sl.N) == 0:
            return ok(False, "N=0")
        if what == "Slepian":
            kw = {"rank": c["rank"] % int(sl.N)}
        elif what == "SlepianWavelets":
            kw = dict(c["w"])
    f0 = cls(L, region=R, **kw)
    N = int(f0.slepian.N)
    clean = np.array(f0.coefficients)
    P = power(clean[:N])
    if P == 0:
        return ok(False, "no power within the Shannon number")
    sigma = np.sqrt(10 ** (-c["snr"] / 10) * P / L**2)
    f = cls(L, region=R, noise=c["snr"], **kw)
    got = as_array(f.coefficients, clean.shape, "noised coefficients") - clean
    want = np.zeros(len(clean), complex)
    want[:N] = project(f0, L)
    tol = 1e-8 + 1e-12 * abs(clean).max() / sigma
    close(got / sigma, want, tol, f"Slepian noise of {what} over its deviation", scale=10)
    kept_clean(f, clean, f"the noised {what}")
    reported(f, clean, sigma * want, f"the noised {what}")
    again = cls(L, region=R, noise=c["snr"], **kw)
    close(again.coefficients, f.coefficients, 1e-12, "the same call", scale=abs(clean).max() + sigma)
    if what in ("Africa", "SouthAmerica"):
        a = ({} if c.get("left_out") else
             {"extra_args": [int(c["snr"])]} if float(c["snr"]).is_integer() else {"SNR": c["snr"]})
        h = getattr(F, f"SlepianNoise{what}")(L, region=R, **a, **kw)
        close(as_array(h.coefficients, (N,), "noise") / sigma, want[:N], 1e-8, f"noise of {what} over its deviation",
              scale=10)
        check(h.spin == 0 and not h.reality, f"noise of {what}: spin {h.spin}, reality {h.reality}")
    return ok(N > 1, what, "region " + (c["region"]["type"] if what not in ("Africa", "SouthAmerica") else "earth"))


# ------------------------------------------------------------------ mesh signals
@st.composite
def mesh(draw):
    left_out = draw(st.integers(0, 4)) == 2
    what = draw(st.sampled_from(["field", "basis", "slepian_field", "slepian_function", "slepian_wavelets",
                                          "slepian_wavelet_coefficients"]))
    snr = {"field": 10, "slepian_field": -5}.get(what, 0) if left_out else draw(SNR)
    return {"mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(2, 24)), "snr": snr, "what": what,
            "left_out": left_out, "rank": draw(st.integers(0, 30)), "cli": draw(st.booleans()), "region": draw(st.booleans()),
            "B": draw(st.integers(2, 4))}


_mesh = {}


def mesh_unit(k):
    """Unit white noise of k mesh coefficients, from a mesh with as many functions."""
    if k not in _mesh:
        spec = {"base": "octa2", "a": 3, "b": 3, "seed": 1, "jitter": 0.05, "up": 0, "box": [None] * 6, "exact": False}
        m, _ = mg.memo_mesh(spec, k)
        clean = np.asarray(M.MeshField(m).coefficients)
        _mesh[k] = (np.asarray(M.MeshField(m, noise=0).coefficients) - clean) / np.sqrt(power(clean) / k)
    return _mesh[k]


_slep = {}


def run_mesh(c):
    n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
    m, g = mg.memo_mesh(c["mesh"], min(c["k"], n - 1))
    B = np.asarray(m.basis_functions)
    k = len(B)
    z = mesh_unit(k)
    what = c["what"]
    key = json.dumps([c["mesh"], k])
    env.fresh_data()
    N = k
    if what.startswith("slepian"):
        if key not in _slep:
            _slep[key] = M.MeshSlepian(m)
        s = _slep[key]
        N = int(s.N)
        env.fresh_data()
        if N == 0:
            return ok(False, "N=0")
    jm = o.j_max(k, c["B"])
    kw = {"field": {}, "slepian_field": {}, "basis": {"rank": c["rank"] % k}, "slepian_function": {"rank": c["rank"] % N},
          "slepian_wavelets": {"B": c["B"], "j_min": 0, "j": c["rank"] % (jm + 1)},
          "slepian_wavelet_coefficients": {"B": c["B"], "j_min": 0, "j": c["rank"] % (jm + 1)}}[what]
    cls = {"field": M.MeshField, "slepian_field": M.MeshSlepianField, "basis": M.MeshBasisFunctions,
           "slepian_function": M.MeshSlepianFunctions, "slepian_wavelets": M.MeshSlepianWavelets,
           "slepian_wavelet_coefficients": M.MeshSlepianWaveletCoefficients}[what]
    kw = {**kw, "region": c["region"]}
    f0 = cls(m, **kw)
    clean = np.array(f0.coefficients)
    P = power(clean[:N])
    if P == 0:
        return ok(False, "no power")
    f = cls(m, noise=c["snr"], **kw)
    got = as_array(f.coefficients, clean.shape, "noised coefficients") - clean
    sigma = np.sqrt(10 ** (-c["snr"] / 10) * P / k)
    want = np.zeros(len(clean))
    if what.startswith("slepian"):
        want[:N] = np.asarray(f.mesh_slepian.slepian_functions)[:N] @ z
    else:
        want[:] = z
    tol = 1e-6 + 1e-8 * abs(clean).max() / sigma
    close(got / sigma, want, tol, f"noise of {what} over its deviation", scale=10)
    kept_clean(f, clean, f"the noised {what}")
    reported(f, clean, sigma * want, f"the noised {what}")
    again = cls(m, noise=c["snr"], **kw)
    close(again.coefficients, f.coefficients, 1e-12, "the same call", scale=abs(clean).max() + sigma)
    if what in ("field", "slepian_field"):
        a = {} if c["left_out"] else {"extra_args": [int(c["snr"])]} if c["cli"] and float(c["snr"]).is_integer() else {"SNR": c["snr"]}
        h = (M.MeshNoiseField if what == "field" else M.MeshSlepianNoiseField)(m, **a)
        close(as_array(h.coefficients, clean.shape, "noise field") / sigma, want, 1e-6, f"noise {what} over its deviation",
              scale=10)
    return ok(k > 1, what)


# ------------------------------------------------------------------ whiteness over many coefficients
@st.composite
def large(draw):
    return {"L": draw(st.integers(24, 64)), "k": draw(st.integers(30, 60))}


def run_large(c):
    white(unit_noise(c["L"]), c["L"], f"noise at L={c['L']}")
    moments(mesh_unit(c["k"]), f"mesh noise of {c['k']} coefficients")
    return ok(True)


SUBS = [
    Sub("formula", formula(), run_formula, 1500, 20000, cost=0.001),
    Sub("harmonic", harmonic(), run_harmonic, 1600, 20000, cost=0.01),
    Sub("slepian", slepian(), run_slepian, 500, 5000, cost=0.08),
    Sub("slepian_large", slepian(8, 13, False), run_slepian, 40, 600, cost=0.5),
    Sub("mesh", mesh(), run_mesh, 700, 8000, cost=0.03),
    Sub("large", large(), run_large, 40, 200, cost=0.1),
]
