import os
import signal

import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import meshgen as mg
import oracle as o
import subj
from core import Sub, ok
from oracle import check, close, fail

import sleplet

ID = "C15"
RULE = ("cases draw every exported function kind with integer arguments inside and outside the documented ranges, in "
        "both ways of passing them, wrong numbers of them, and regions of other names; non-trivial when arguments are "
        "given; distinct by the drawn case")
ASSUMPTIONS = ["any exception counts as a rejection",
               "wavelet parameters for which no scale exists (j_min above the maximum) are not judged"]

F = sleplet.functions
M = sleplet.meshes

HARMONIC = {"DiracDelta": [], "Identity": [], "Earth": [], "Wmap": [], "Africa": [], "SouthAmerica": [],
            "Gaussian": ["sigma"], "HarmonicGaussian": ["l_sigma", "m_sigma"], "ElongatedGaussian": ["t_sigma", "p_sigma"],
            "SquashedGaussian": ["t_sigma", "freq"], "SphericalHarmonic": ["ell", "m"],
            "AxisymmetricWavelets": ["B", "j_min", "j"], "Ridgelets": ["B", "j_min", "spin", "j"], "NoiseEarth": ["SNR"],
            "AxisymmetricWaveletCoefficientsEarth": ["B", "j_min", "j"],
            "AxisymmetricWaveletCoefficientsAfrica": ["B", "j_min", "j"],
            "AxisymmetricWaveletCoefficientsSouthAmerica": ["B", "j_min", "j"]}
SLEPIAN = {"Slepian": ["rank"], "SlepianWavelets": ["B", "j_min", "j"], "SlepianDiracDelta": [], "SlepianIdentity": [],
           "SlepianAfrica": [], "SlepianSouthAmerica": [], "SlepianNoiseAfrica": ["SNR"], "SlepianNoiseSouthAmerica": ["SNR"],
           "SlepianWaveletCoefficientsAfrica": ["B", "j_min", "j"],
           "SlepianWaveletCoefficientsSouthAmerica": ["B", "j_min", "j"]}
MESH = {"MeshField": [], "MeshSlepianField": [], "MeshBasisFunctions": ["rank"], "MeshNoiseField": ["SNR"],
        "MeshSlepianFunctions": ["rank"], "MeshSlepianNoiseField": ["SNR"], "MeshSlepianWavelets": ["B", "j_min", "j"],
        "MeshSlepianWaveletCoefficients": ["B", "j_min", "j"]}
WIDTH = {"sigma", "l_sigma", "m_sigma", "t_sigma", "p_sigma", "freq"}


def continent(name):
    return "africa" if "Africa" in name else "south_america" if "SouthAmerica" in name else None


@st.composite
def spec(draw):
    fam = draw(st.sampled_from(["harmonic", "harmonic", "slepian", "mesh"]))
    table = {"harmonic": HARMONIC, "slepian": SLEPIAN, "mesh": MESH}[fam]
    return {"fam": fam, "name": draw(st.sampled_from(sorted(table))), "L": draw(st.integers(2, 9 if fam == "harmonic" else 5)),
            "seed": draw(gen.seeds()), "mask": draw(gen.mask_spec()), "region": draw(gen.region_spec(arbitrary=False)),
            "mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(2, 16))}


def names_of(c):
    return {**HARMONIC, **SLEPIAN, **MESH}[c["name"]]


def size(c):
    """Number of ranks (or degrees) that bound the arguments."""
    if c["fam"] == "mesh":
        return c["k_eff"]
    return c["L"] ** 2 if c["fam"] == "slepian" else c["L"]


def prepare(c):
    """A function building the object from keyword arguments."""
    env.fresh_data()
    L = c["L"]
    if c["fam"] == "mesh":
        n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
        m, g = mg.memo_mesh(c["mesh"], min(c["k"], n - 1))
        c["k_eff"] = len(m.mesh_eigenvalues)
        return lambda **kw: getattr(M, c["name"])(m, **kw)
    subj.write_earth(subj.earth_source(c["seed"], 2 * L + 1))
    subj.write_wmap(np.abs(np.random.default_rng(c["seed"]).standard_normal(2 * L + 3)))
    land = continent(c["name"])
    if land:
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), land, g)
    kw0 = {}
    if c["fam"] == "slepian":
        kw0["region"] = sleplet.slepian.Region(mask_name=land) if land else subj.region_of(c["region"], L)
    return lambda **kw: getattr(F, c["name"])(L, **kw0, **kw)


@st.composite
def inside(draw):
    c = draw(spec())
    c["v"] = [draw(st.integers(0, 2**16)) for _ in range(4)]
    return c


def valid(c):
    """Valid integer arguments, in command-line order."""
    a, v = {}, c["v"]
    n = size(c)
    for i, k in enumerate(names_of(c)):
        if k in WIDTH:
            a[k] = v[i] % 6 - 2
        elif k == "ell":
            a[k] = v[i] % c["L"]
        elif k == "m":
            a[k] = v[i] % (2 * a["ell"] + 1) - a["ell"]
        elif k == "B":
            a[k] = 2 + v[i] % 4
        elif k == "j_min":
            a[k] = v[i] % (o.j_max(n, a["B"]) + 1)
        elif k == "j":
            a[k] = v[i] % (o.j_max(n, a["B"]) - a["j_min"] + 1)
            if v[3] % 3 == 0:
                a[k] = o.j_max(n, a["B"]) - a["j_min"]
        elif k == "spin":
            a[k] = v[i] % 7 - 3
        elif k == "SNR":
            a[k] = v[i] % 61 - 20
        elif k == "rank":
            a[k] = n - 1 if v[3] % 4 == 0 else v[i] % n
    return a


def keywords(a):
    return {k: 10.0**v if k in WIDTH else v for k, v in a.items()}


def same(f, g, what):
    close(f.coefficients, np.asarray(g.coefficients), 1e-12, f"coefficients of {what} by integers and by keywords",
          scale=max(1e-30, abs(np.asarray(g.coefficients)).max(initial=0)))
    check(f.name == g.name, f"{what} is named {f.name} by integers and {g.name} by keywords")
    for k in ("spin", "reality", "snr"):
        check(getattr(f, k, None) == getattr(g, k, None), f"{what}: {k} differs between integers and keywords")
    for k in ("wavelets", "wavelet_coefficients"):
        a, b = np.asarray(getattr(f, k)), np.asarray(getattr(g, k))
        close(a, b, 1e-12, f"{k} of {what} by integers and by keywords", scale=max(1e-30, abs(b).max(initial=0)))


def run_inside(c):
    make = prepare(c)
    a = valid(c)
    what = f"{c['name']}({list(a.values())})"
    g = make(**keywords(a))
    for k, v in keywords(a).items():
        close(getattr(g, k), v, 1e-14, f"{k} of {what}")
    if a:
        if c["name"] in ("Slepian", "MeshSlepianFunctions"):
            make = prepare(c)  # functions beyond the Shannon number are not saved (C17)
        f = make(extra_args=list(a.values()))
        for k, v in keywords(a).items():
            close(getattr(f, k), v, 1e-14, f"{k} of {what} by integers", scale=max(1, abs(v)))
        same(f, g, what)
    check(np.isfinite(np.asarray(g.coefficients)).all(), f"{what} is not finite")
    return ok(bool(a), c["name"])


# ------------------------------------------------------------------ outside
@st.composite
def outside(draw):
    c = draw(inside())
    c["which"] = draw(st.integers(0, 9))
    c["by"] = draw(st.integers(1, 4))
    c["low"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(["integers", "keyword"]))
    return c


def run_outside(c):
    make = prepare(c)
    a = valid(c)
    cand = [k for k in a if k in ("ell", "m", "j", "rank")]
    if not cand:
        return ok(False, "nothing bounded")
    k = cand[c["which"] % len(cand)]
    n = size(c)
    lo, hi = {"ell": (0, c["L"] - 1), "m": (-a.get("ell", 0), a.get("ell", 0)), "rank": (0, n - 1),
              "j": (0, o.j_max(n, a["B"]) - a["j_min"] if "B" in a else 0)}[k]
    a[k] = lo - c["by"] if c["low"] else hi + c["by"]
    kw = {"extra_args": list(a.values())} if c["how"] == "integers" else keywords(a)
    try:
        f = make(**kw)
    except Exception as e:  # noqa: BLE001
        return ok(True, f"{k} {'below' if c['low'] else 'above'}", type(e).__name__)
    fail(f"{c['name']} accepted {k}={a[k]} outside [{lo}, {hi}] and holds {len(f.coefficients)} coefficients")


def attempt(fun):
    """What a call gives, made in a process of its own since it may end the process."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(120)
            fun()
            code = 0
        except Exception:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    status = os.waitpid(pid, 0)[1]
    return f"ended the process by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else \
        {0: "accepted", 1: "rejected"}.get(os.WEXITSTATUS(status), "gave no answer")


@st.composite
def negative(draw):
    c = draw(inside())
    if "j_min" not in names_of(c):
        fams = [("harmonic", k) for k, v in HARMONIC.items() if "j_min" in v] + \
            [("mesh", k) for k, v in MESH.items() if "j_min" in v]
        c["fam"], c["name"] = draw(st.sampled_from(fams))
    if c["region"]["type"] == "lim":  # solved by threads which do not outlive a fork
        c["region"] = {"type": "polar", "theta": 1.0, "gap": False}
    c["by"] = draw(st.integers(1, 9))
    c["how"] = draw(st.sampled_from(["integers", "keyword", "kappas"]))
    return c


def run_negative(c):
    """Negative minimum scales."""
    make = prepare(c)
    a = valid(c)
    a["j_min"] = -c["by"]
    n = size(c)
    if c["how"] == "kappas":
        what, got = "create_kappas", attempt(lambda: sleplet.wavelet_methods.create_kappas(n, a["B"], a["j_min"]))
    else:
        kw = {"extra_args": list(a.values())} if c["how"] == "integers" else keywords(a)
        what, got = c["name"], attempt(lambda: make(**kw))
    check(got == "rejected", f"{what}: the minimum scale {a['j_min']} {got}")
    return ok(True, c["how"], c["name"])


# ------------------------------------------------------------------ number of arguments
@st.composite
def count(draw):
    c = draw(inside())
    c["n"] = draw(st.integers(0, 6))
    c["fill"] = draw(st.lists(st.integers(0, 1), min_size=6, max_size=6))
    return c


def run_count(c):
    make = prepare(c)
    a = list(valid(c).values())
    n = c["n"]
    if n == len(a) or (n == 0 and not a):
        n += 1
    args = (a + c["fill"])[:n]
    try:
        make(extra_args=args)
    except Exception as e:  # noqa: BLE001
        return ok(True, "none allowed" if not a else "too few" if n < len(a) else "too many", type(e).__name__)
    fail(f"{c['name']} takes {len(a)} extra arguments but accepted {args}")


# ------------------------------------------------------------------ regions
ALIKE = ["{}_coast", "{}2", "west_{}", "{}_", "_{}", "{}-{}", "no_{}_at_all", "{}_L3"]


@st.composite
def region(draw):
    c = draw(inside())
    c["fam"] = "slepian"
    c["name"] = draw(st.sampled_from(sorted(k for k in SLEPIAN if continent(k))))
    c["L"] = draw(st.integers(2, 4))
    c["other"] = draw(st.sampled_from(["polar", "lim", "mask", "continent", "default", "alike", "alike"]))
    c["alike"] = draw(st.sampled_from(ALIKE))
    c["cap"] = draw(gen.region_spec(arbitrary=False))
    return c


def run_region(c):
    prepare(c)
    L, land = c["L"], continent(c["name"])
    other = {"africa": "south_america", "south_america": "africa"}[land]
    if c["other"] == "continent":
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), other, g)
        R = sleplet.slepian.Region(mask_name=other)
    elif c["other"] == "alike":
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), c["alike"].format(land, land), g)
        R = sleplet.slepian.Region(mask_name=c["alike"].format(land, land))
    elif c["other"] == "mask":
        R = subj.region_of({"type": "mask", "mask": c["mask"]}, L)
    elif c["other"] == "default" and land != "south_america":  # which is the default region
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), other, g)
        R = None
    else:
        R = subj.region_of(c["cap"], L)
    a = keywords(valid(c))
    try:
        getattr(F, c["name"])(L, **({} if R is None else {"region": R}), **a)
    except Exception as e:  # noqa: BLE001
        return ok(True, c["other"], type(e).__name__)
    fail(f"{c['name']} accepted the region {R}")


# ------------------------------------------------------------------ arguments left out
DEFAULTS = {"sigma": 10.0, "l_sigma": 10.0, "m_sigma": 10.0, "p_sigma": 0.1, "freq": 0.1, "t_sigma": 1.0, "ell": 0, "m": 0,
            "B": 3, "j_min": 2, "j": None, "spin": 2, "rank": 0}
SNRS = {"NoiseEarth": 10, "MeshNoiseField": 10, "MeshSlepianNoiseField": -5, "SlepianNoiseAfrica": -10,
        "SlepianNoiseSouthAmerica": -10}


@st.composite
def left_out(draw):
    c = draw(inside())
    c["keep"] = draw(st.integers(0, 15))
    c["k"] = draw(st.integers(6, 16))
    if c["fam"] == "harmonic":
        c["L"] = draw(st.integers(4, 9))
    c["region_left"] = draw(st.booleans())
    return c


def run_left_out(c):
    make = prepare(c)
    name, L = c["name"], c["L"]
    names = names_of(c)
    full = {k: SNRS[name] if k == "SNR" else DEFAULTS[k] for k in names}
    given = {}
    v = keywords(valid(c))
    for i, k in enumerate(names):
        if c["keep"] >> i & 1:
            given[k] = full[k] = v[k]
    n = size(c)
    if "B" in full:
        if full["j_min"] > o.j_max(n, full["B"]):
            return ok(False, "no such scale")
        if full["j"] is not None and full["j"] > o.j_max(n, full["B"]) - full["j_min"]:
            return ok(False, "no such scale")
    if "ell" in full and abs(full["m"]) > full["ell"]:
        return ok(False, "no such order")
    what = f"{name}({given}) with the others left out"
    build = make
    lone = c["fam"] == "slepian" and c["region_left"] and continent(name) != "africa"

    def default_region():
        for g in (L, 2 * L):
            subj.save_mask(gen.build_mask(c["mask"], g), "south_america", g)

    if lone:  # the region is left out too, and is that of South America
        default_region()
        build = lambda **kw: getattr(F, name)(L, **kw)  # noqa: E731
    f = build(**given)
    if name in ("Slepian", "SlepianDiracDelta", "MeshSlepianFunctions"):
        make = prepare(c)  # functions beyond the Shannon number are not saved (C17)
    if lone:
        default_region()
        make = lambda **kw: getattr(F, name)(L, region=sleplet.slepian.Region(mask_name="south_america"), **kw)  # noqa: E731
    g = make(**full)
    for k, e in full.items():
        got = getattr(f, k)
        check(got is None if e is None else got is not None and abs(got - e) <= 1e-14 * max(1, abs(e)),
              f"{k} of {what} is {got}, expected {e}")
    if lone and getattr(f, "region", None) is not None:
        check(f.region.mask_name == "south_america", f"the region of {what} is {f.region}")
    same(f, g, what)
    return ok(len(given) < len(names) or lone, name, "region left out" if lone else "")


SUBS = [
    Sub("left_out", left_out(), run_left_out, 800, 10000, cost=0.03),
    Sub("inside", inside(), run_inside, 1500, 20000, cost=0.03),
    Sub("outside", outside(), run_outside, 1500, 15000, cost=0.01),
    Sub("negative_scale", negative(), run_negative, 250, 3000, cost=0.08),
    Sub("count", count(), run_count, 1500, 15000, cost=0.01),
    Sub("region", region(), run_region, 400, 3000, cost=0.03),
]
