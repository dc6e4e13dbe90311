import math

import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import oracle as o
import plots
import subj
from core import Sub, ok
from oracle import as_real, check, close

import sleplet
import sleplet.plotting

ID = "C20"
RULE = ("plots draw the bandlimit, the coefficients (dense, sparse, single, zero, tiny) or the samples, spin, part, "
        "normalisation, upsampling, amplitude, region and annotations; amplitudes draw a function of every kind with "
        "replaced coefficients; non-trivial when the field is not identically zero; distinct by the drawn case")
ASSUMPTIONS = ["fields whose relative variation is below 5e-5 count as constant up to rounding and are only required to be "
               "finite between the two tolerances",
               "samples on the lower limit of a gap whose membership depends on rounding are not judged"]

F = sleplet.functions
PARTS = ["real", "imag", "abs", "sum"]


# ------------------------------------------------------------------ resolution
def run_res(c):
    L = c["L"]
    r = sleplet.plot_methods.calc_plot_resolution(L)
    check(r == plots.resolution(L), f"plot resolution of L={L} is {r}, expected {plots.resolution(L)}")
    return ok(True, str(r // L))


RES = st.fixed_dictionaries({"L": st.one_of(st.integers(1, 140), st.integers(1, 5000),
                                            st.sampled_from([2**k + d for k in range(1, 12) for d in (-1, 0, 1)]))})


# ------------------------------------------------------------------ plots
def region_for(c, R):
    spec = c["region"]
    if spec is None:
        return None, None, None
    if spec["type"] == "mask":
        env.fresh_data()
    region = subj.region_of(spec, R, masks_at=(R,))
    inside = subj.region_mask(spec, R)
    unsure = np.zeros_like(inside)
    t, p = o.grid(R)
    if spec["type"] == "polar":
        edges = [spec["theta"], np.pi - spec["theta"]] if spec["gap"] else [spec["theta"]]
        unsure |= np.isclose(t[:, None], edges, rtol=0, atol=1e-12).any(axis=1)[:, None]
    return region, inside, unsure


def show(c, f, R, expected, noise, what):
    region, inside, unsure = region_for(c, R)
    kw = {}
    for k, v in (("amplitude", c["amplitude"]), ("normalise", c["normalise"]), ("plot_type", c["part"]),
                 ("reality", c["reality"]), ("region", region), ("spin", c["spin"]), ("upsample", c["upsample"]),
                 ("annotations", c["annotations"])):
        default = {"amplitude": None, "normalise": True, "plot_type": "real", "reality": False, "region": None,
                   "spin": 0, "upsample": True, "annotations": []}[k]
        if v != default or c["explicit"]:
            kw[k] = v
    keep = f.copy()
    p = sleplet.plotting.PlotSphere(f, c["L"], c["name"], **kw)
    if c["again"] == "other":  # a plot of something else in between
        with plots.Shown():
            sleplet.plotting.PlotSphere(np.arange(12.0).reshape(3, 4), 2, "other", normalise=not c["normalise"], amplitude=3.0,
                                        annotations=[{"x": 0.5, "y": 0.0, "z": 0.0, "arrowhead": 1}], plot_type="abs").execute()
    for _ in range(1 + (c["again"] == "twice")):
        with plots.Shown() as shown:
            p.execute()
    fig, name = shown.only(what)
    check(np.array_equal(keep, f), f"{what}: the field given was changed")
    lab = plots.judge_sphere(fig, name, expected, R, normalise=c["normalise"], amplitude=c["amplitude"], base=c["name"],
                             kind=c["part"], upsampled=c["upsample"], inside=inside, unsure=unsure, what=what, noise=noise)
    got = [(a.x, a.y, a.z, a.arrowhead) for a in fig.layout.scene.annotations]
    want = [(a["x"], a["y"], a["z"], a["arrowhead"]) for a in c["annotations"]]
    check(got == want, f"{what}: annotations {got}, expected {want}")
    return lab


def run_plot(c):
    L = c["L"]
    R = plots.resolution(L) if c["upsample"] else L
    what = f"plot of {c}"
    s = c["signal"]
    flm = gen.vector(s, L * L)
    if c["const"]:
        flm[1:] = 0
    ell, _ = o.lm(L)
    flm[ell < abs(c["spin"])] = 0
    if c["reality"]:
        flm = gen.hermitian(flm, L)
    f = o.synth_grid(flm, L, None, c["spin"])
    big = o.synth_grid(flm, L, R, c["spin"])
    if c["reality"]:
        f, big = np.ascontiguousarray(f.real), big.real
    exact_zero = not flm.any() or (c["reality"] and c["part"] == "imag")
    noise = 0.0 if exact_zero else 2e-13 * float(np.abs(big).max()) * (1 + L)
    lab = show(c, f, R, plots.part(big, c["part"]), noise, what)
    return ok(not exact_zero, c["part"], f"{lab}", "upsampled" if c["upsample"] else "as-is",
              c["region"]["type"] if c["region"] else "whole")


def run_raw(c):
    """Not upsampled: any samples, shown as they are."""
    L = c["L"]
    rng = np.random.default_rng(c["seed"])
    f = rng.standard_normal((L + 1, 2 * L))
    how = c["how"]
    if how == "complex":
        f = f + 1j * rng.standard_normal(f.shape)
    elif how == "constant":
        f = np.full(f.shape, f.flat[0])
    elif how == "zero":
        f = np.zeros(f.shape)
    elif how == "negative":
        f = -np.abs(f) - 1
    elif how == "one":
        g = np.zeros(f.shape)
        g.flat[c["seed"] % g.size] = f.flat[0]
        f = g
    elif how == "offset":
        f = f * 1e-3 + 7
    elif how == "integer":
        f = np.round(f)
    f = f * c["scale"]
    lab = show(c, f, L, plots.part(f, c["part"]), 0.0, f"plot of {c}")
    return ok(bool(np.any(f)), c["how"], lab)


@st.composite
def options(draw, L, R, spin=0, upsample=None, region=True):
    ann = st.fixed_dictionaries({"x": st.floats(-1, 1), "y": st.floats(-1, 1), "z": st.floats(-1, 1), "arrowhead": st.integers(0, 8)})
    regions = st.one_of(st.none(), st.none(), gen.region_spec(arbitrary=R <= 64))
    return {"L": L, "spin": spin, "upsample": upsample, "part": draw(st.sampled_from(PARTS)),
            "normalise": draw(st.booleans()), "amplitude": draw(st.one_of(st.none(), st.none(), st.floats(1e-6, 1e3), st.just(0.0))),
            "region": draw(regions) if region else None, "name": draw(st.sampled_from(["f", "a_b_L3", "slepian_x"])),
            "annotations": draw(st.one_of(st.just([]), st.lists(ann, min_size=1, max_size=2))), "explicit": draw(st.booleans()),
            "again": draw(st.sampled_from(["", "", "", "twice", "other"])), "reality": False}


@st.composite
def plot_case(draw):
    upsample = draw(st.sampled_from([True, True, False]))
    L = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12]) if upsample else st.integers(1, 12))
    spin = draw(st.sampled_from([0, 0, 0, 1, -1, 2, -2]))
    if abs(spin) >= L:
        spin = 0
    c = draw(options(L, plots.resolution(L) if upsample else L, spin, upsample))
    c["reality"] = spin == 0 and draw(st.booleans())
    c["signal"] = draw(gen.signal())
    c["signal"]["scale"] = draw(st.sampled_from([1.0, 1e-12, 1e-5, 300.0, -1.0]))
    c["const"] = draw(st.sampled_from([False] * 5 + [True]))
    return c


@st.composite
def raw_case(draw):
    L = draw(st.integers(1, 16))
    c = draw(options(L, L, 0, False))
    c["how"] = draw(st.sampled_from(["real", "complex", "constant", "zero", "negative", "one", "offset", "integer"]))
    c["seed"], c["scale"] = draw(gen.seeds()), draw(st.sampled_from([1.0, -1.0, 1e-9, 1e-200, 1e6]))
    c["spin"] = draw(st.sampled_from([0, 0, 2]))
    return c


# ------------------------------------------------------------------ amplitudes
def clean_field(f, coeffs, R, L):
    """Field of a function with the given coefficients, on the grid of bandlimit R."""
    if hasattr(f, "slepian"):
        v = np.asarray(coeffs)[: f.slepian.N]  # only these are well concentrated in the region
        flm = np.asarray(f.slepian.eigenvectors)[: len(v)].T @ v
        return o.synth_grid(flm, L, R)
    return o.synth_grid(coeffs, L, R, f.spin)


def make(c):
    if c["family"] == "slepian":
        env.fresh_data()
        region = subj.region_of(c["region"], c["L"])
        if subj.slepian_of(c["region"], c["L"]).N < 1:
            return None
        env.fresh_data()
        region = subj.region_of(c["region"], c["L"])
        return F.SlepianDiracDelta(c["L"], region=region, noise=c["noise"])
    return kinds.build(c["fun"], noise=c["noise"])


def run_amplitude(c):
    L = c["L"]
    f = make({**c, "noise": None})
    if f is None:
        return ok(False, "empty-region")
    if c["replace"]:
        v = gen.vector(c["signal"], len(f.coefficients))
        if not hasattr(f, "slepian"):
            ell, _ = o.lm(L)
            v[ell < abs(f.spin)] = 0
            if f.reality:
                v = gen.hermitian(v, L)
        f.coefficients = v
    R = plots.resolution(L) if c["upsample"] else L
    field = clean_field(f, f.coefficients, R, L)
    if f.reality:
        field = field.real
    want = float(np.abs(plots.part(field, c["part"])).max())
    got = as_real(sleplet.plot_methods.find_max_amplitude(f, plot_type=c["part"], upsample=c["upsample"]))
    scale = max(float(np.abs(field).max()), 1e-300)
    what = f"maximum amplitude of {c}"
    close(got, want, 1e-9, what, scale=scale)
    # it is the range that an unnormalised plot of the field gets
    small = clean_field(f, f.coefficients, L, L)
    if f.reality:
        small = np.ascontiguousarray(small.real)
    with plots.Shown() as shown:
        sleplet.plotting.PlotSphere(small, L, "f", normalise=False, plot_type=c["part"], reality=f.reality, spin=f.spin,
                                    upsample=c["upsample"]).execute()
    fig, _ = shown.only(what)
    close(fig.data[0].cmax, got, 1e-9, what + " against the plot", scale=scale)
    return ok(scale > 1e-300, c["part"], c["family"], "spin" if f.spin else "scalar", "real" if f.reality else "complex")


def run_noisy(c):
    f = make(c)
    if f is None:
        return ok(False, "empty-region")
    got = sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots(f)
    if c["noise"] is None:
        check(got is None, f"amplitude {got} for a function without noise, {c}")
        return ok(True, "clean")
    clean = make({**c, "noise": None})
    field = clean_field(clean, clean.coefficients, c["L"], c["L"])
    if clean.reality:
        field = field.real
    want = float(np.abs(field).max())
    close(as_real(got), want, 1e-9, f"amplitude of the clean field of {c}", scale=max(want, 1e-12))
    return ok(want > 0, "noised", c["family"])


@st.composite
def function_case(draw):
    c = {"family": draw(st.sampled_from(["harmonic", "harmonic", "slepian"])), "part": draw(st.sampled_from(PARTS)),
         "upsample": draw(st.booleans()), "signal": draw(gen.signal()), "replace": draw(st.booleans()),
         "noise": draw(st.one_of(st.none(), st.integers(-10, 20), st.integers(-10, 20)))}
    if c["family"] == "slepian":
        c["L"] = draw(gen.bandlimit(2, 5))
        c["region"] = draw(gen.region_spec(arbitrary=c["L"] < 4))
    else:
        c["fun"] = draw(kinds.harmonic(2, 9))
        c["L"] = c["fun"]["L"]
    return c


SUBS = [
    Sub("resolution", RES, run_res, 2000, 20000, cost=0.005),
    Sub("plot", plot_case(), run_plot, 800, 12000, cost=1.0),
    Sub("raw", raw_case(), run_raw, 600, 20000, cost=0.3),
    Sub("amplitude", function_case(), run_amplitude, 400, 6000, cost=1.0),
    Sub("noisy", function_case(), run_noisy, 320, 6000, cost=0.3),
]
