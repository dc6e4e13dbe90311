import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen as mg
import oracle as o
import plots
from checks import c15, c22
from core import Sub, ok
from oracle import check

import sleplet
import sleplet._scripts.plotting_on_mesh as mesh_command
import sleplet._scripts.plotting_on_sphere as sphere_command

ID = "C23"
RULE = ("cases draw two requests, the second one equal to the first or differing from it in drawn options; non-trivial when "
        "they differ; helper cases draw rational fractions, powers of ten, degrees and integers; distinct by the drawn case")
ASSUMPTIONS = ["widths are powers of ten from 1e-6 to 1e8, as integer arguments give, or fractions with denominators up to 100",
               "angles are fractions of pi with denominators up to 1000, and regions are given in whole degrees",
               "a region does not change the map of South America or its coefficients, and is not part of their name"]
F, M, S = sleplet.functions, sleplet.meshes, sleplet._string_methods
WIDTH = c15.WIDTH


# ------------------------------------------------------------------ requests
def integers(c):
    """Valid integer arguments, in command-line order."""
    a = c15.valid(c)
    for i, k in enumerate(a):
        if k in WIDTH:
            a[k] = c["v"][i] % 15 - 6
    return a


@st.composite
def option(draw, c, key):
    """A value of one option."""
    L = c["L"]
    if key == "name":
        return draw(st.sampled_from(sorted({"harmonic": c15.HARMONIC, "slepian": c15.SLEPIAN, "mesh": c15.MESH}[c["fam"]])))
    if key == "v":
        return [draw(st.integers(0, 2**16)) for _ in range(4)]
    if key == "noise":
        return draw(st.one_of(st.none(), st.integers(-30, 60)))
    if key == "smoothing":
        return draw(st.one_of(st.none(), st.integers(1, 12)))
    if key == "place":
        return draw(c22.place())
    if key in ("region", "raw", "small", "zoom"):
        return draw(st.booleans())
    if key == "method":
        return draw(st.sampled_from(["north", "rotate", "translate"]))
    if key in ("alpha", "gamma", "beta"):
        top = {"alpha": Fraction(2 * L - 1, L), "gamma": 2, "beta": 1}[key]
        q = draw(st.one_of(st.integers(1, 12), st.integers(1, 1000)))
        return float(Fraction(draw(st.integers(0 if key != "gamma" else -q, int(top * q))), q))
    if key == "convolve":
        return draw(st.sampled_from([None, "Earth", "SouthAmerica", "Wmap"]))
    if key == "view":
        return draw(st.sampled_from(["africa", "south_america"]))
    if key == "part":
        return draw(st.sampled_from(c22.PARTS))
    raise KeyError(key)


@st.composite
def near(draw, place):
    """A region which differs from another in one respect."""
    e = dict(place["env"])
    kind = place["kind"]
    if kind == "mask":
        e["SLEPIAN_MASK"] = draw(st.sampled_from(["africa", "unearthed", None]))
    elif kind == "lim":
        k = draw(st.sampled_from(sorted(e)))
        e[k] = min(max(e[k] + draw(st.sampled_from([-1, 1, -10, 10])), {"THETA_MAX": 75, "PHI_MAX": 190}.get(k, 0)),
                   {"THETA_MIN": 74, "THETA_MAX": 180, "PHI_MIN": 189, "PHI_MAX": 360}[k])
        if (e["THETA_MIN"], e["PHI_MIN"], e["PHI_MAX"]) == (0, 0, 360):
            e["THETA_MIN"] = 1
    elif draw(st.booleans()) and e["THETA_MAX"] <= 90:
        kind = {"cap": "gap", "gap": "cap"}[kind]
        e = {"THETA_MAX": e["THETA_MAX"], **({"POLAR_GAP": "true"} if kind == "gap" else {})}
    else:
        e["THETA_MAX"] = min(e["THETA_MAX"] + 1, 90 if kind == "gap" else 160)
    return {"kind": kind, "env": e}


@st.composite
def pair(draw, fam, keys, lo=2, hi=5):
    c = {"fam": fam, "L": draw(st.integers(lo, hi)), "seed": draw(gen.seeds()),
         "mask": draw(gen.mask_spec()), "short": False, "outline": True, "order": 0}
    if fam == "mesh":
        c["mesh"] = draw(mg.mesh_spec(small=True))
    for k in keys:
        c[k] = draw(option(c, k))
    changes = {}
    for k in draw(st.lists(st.sampled_from(keys), min_size=draw(st.sampled_from([0, 1, 1, 1, 1])), max_size=2, unique=True)):
        changes[k] = draw(option(c, k))
        if isinstance(c[k], bool):
            changes[k] = not c[k]
        if k == "place" and draw(st.booleans()):  # change the region by a little
            changes[k] = draw(near(c[k]))
    if "v" in changes and draw(st.booleans()):  # change one argument by a little
        i = draw(st.integers(0, 3))
        changes["v"] = [x + (draw(st.integers(1, 3)) if j == i else 0) for j, x in enumerate(c["v"])]
    c["changes"] = changes
    return c


def place_of(c):
    land = c15.continent(c["name"])
    if c["fam"] == "slepian" and land:
        return {"SLEPIAN_MASK": land}
    e = dict(c["place"]["env"])
    if e.get("SLEPIAN_MASK") is None and c["place"]["kind"] == "mask":
        e["SLEPIAN_MASK"] = "south_america"
    return e


def meaning(c, figure):
    """What the request asks for: equal exactly when the requests are the same."""
    m = {"function": c["name"], "L": c["L"], "args": tuple(integers(c).items()), "noise": c["noise"]}
    if c["fam"] == "slepian" or (c["region"] and "SouthAmerica" not in c["name"]):
        m["place"] = tuple(sorted(place_of(c).items()))
    m["smoothing"] = c["smoothing"]
    if figure:
        m |= {k: c[k] for k in ("convolve", "part", "raw", "small")}
        at = {"north": (), "rotate": ("alpha", "beta", "gamma"), "translate": ("alpha", "beta")}[c["method"]]
        m |= {"method": c["method"], **{k: Fraction(c[k]).limit_denominator() for k in at}}
        if c["fam"] == "harmonic" and ("Earth" in c["name"] or c["convolve"] == "Earth"):
            m["view"] = c["view"]
    return m


def judge(c, first, second, a, b, what):
    if first == second:
        check(a == b, f"{what}: equal requests are named {a!r} and {b!r}")
    else:
        diff = [k for k in first.keys() | second.keys() if first.get(k) != second.get(k)]
        check(a != b, f"{what}: requests differing in {diff} share the name {a!r}")


# ------------------------------------------------------------------ names of functions
def name_of(c):
    env.fresh_data()
    c22.sources(c)
    kw = {"noise": c["noise"], "smoothing": c["smoothing"], "extra_args": list(integers(c).values()) or None}
    if c["fam"] == "slepian" or c["region"]:
        kw["region"] = c22.library_region({**c, "place": {"kind": c["place"]["kind"] if "THETA_MAX" in place_of(c) else "mask",
                                                         "env": place_of(c)}})
    return getattr(F, c["name"])(c["L"], **kw).name


def run_function(c):
    other = {**c, **c["changes"]}
    try:
        a = name_of(c)
        b = name_of(other)
    except IndexError:
        if c["fam"] == "slepian":
            return ok(False, "empty-region")
        raise
    first, second = meaning(c, False), meaning(other, False)
    judge(c, first, second, a, b, f"{c['name']} {c}")
    return ok(first != second, c["name"], *(f"differs:{k}" for k in c["changes"] if first != second))


# ------------------------------------------------------------------ fractional arguments
FRACTIONAL = {"Gaussian": ["sigma"], "HarmonicGaussian": ["l_sigma", "m_sigma"], "ElongatedGaussian": ["t_sigma", "p_sigma"],
              "SquashedGaussian": ["t_sigma", "freq"], "NoiseEarth": ["SNR"], "DiracDelta": [], "SlepianNoiseAfrica": ["SNR"],
              "SlepianDiracDelta": []}


@st.composite
def keyword(draw):
    name = draw(st.sampled_from(sorted(FRACTIONAL)))
    number = st.one_of(st.tuples(st.integers(1, 1000), st.integers(1, 100)), st.tuples(st.integers(1, 12), st.integers(1, 6)))
    keys = [*FRACTIONAL[name], "noise"]
    a = {k: draw(number) for k in keys}
    if "Noise" in name or draw(st.booleans()):
        a["noise"] = None
    b = dict(a)
    k = draw(st.sampled_from([None, *keys]))
    if k == "noise" or k == "SNR":  # decibels have both signs
        b[k] = draw(st.one_of(st.none() if k == "noise" else st.just((-3, 2)), number, number.map(lambda t: (-t[0], t[1]))))
    elif k is not None:
        b[k] = draw(st.one_of(number, st.just((a[k][0], 1)), st.just((a[k][0], a[k][1] + 1))))
    return {"name": name, "L": draw(st.integers(2, 3)), "seed": draw(gen.seeds()), "a": a, "b": b}


def run_keyword(c):
    env.fresh_data()
    c22.sources({**c, "mask": {"kind": "pixel", "seed": 1, "p": 0.8, "a": 1, "b": 1, "c": 1, "d": 1}})
    names, exact = [], []
    for x in (c["a"], c["b"]):
        exact.append({k: None if v is None else Fraction(*v) for k, v in x.items()})
        kw = {k: None if v is None else v[0] / v[1] for k, v in x.items()}
        if c["name"] == "SlepianDiracDelta":
            kw["region"] = sleplet.slepian.Region(theta_max=np.deg2rad(90))
        elif c["name"] == "SlepianNoiseAfrica":
            kw["region"] = sleplet.slepian.Region(mask_name="africa")
        try:
            names.append(getattr(F, c["name"])(c["L"], **kw).name)
        except IndexError:
            return ok(False, "empty-region")
    judge(c, *exact, *names, f"{c['name']} {c}")
    return ok(exact[0] != exact[1], c["name"], "whole" if all(v is None or v.denominator == 1 for v in exact[0].values()) else "fraction")


# ------------------------------------------------------------------ names of figures
def figure_of(c):
    env.fresh_data()
    c22.sources(c)
    extra = list(integers(c).values())
    with env.environ(**{k: place_of(c).get(k) for k in c22.KEYS}):
        shown, error = c22.run_command(sphere_command.main, c22.command_line(c, extra))
    if error is not None:
        return None
    return shown.only("command")[1]


def run_figure(c):
    other = {**c, **c["changes"]}
    a, b = figure_of(c), figure_of(other)
    if a is None or b is None:
        return ok(False, "refused")
    first, second = meaning(c, True), meaning(other, True)
    judge(c, first, second, a, b, f"figure of {c}")
    return ok(first != second, c["method"], *(f"differs:{k}" for k in c["changes"] if first != second))


# ------------------------------------------------------------------ meshes
def mesh_meaning(c):
    m = {"function": c["name"], "zoom": c["zoom"], "noise": c["noise"], "raw": c["raw"], "region": c["region"],
         "args": tuple(integers(c).items())}
    return m


def mesh_name(c):
    extra = list(integers(c).values())
    line = ["mesh", mg.HOST, "-m", c22.snake(c["name"].removeprefix("Mesh"))]
    for k, short in (("region", "-r"), ("raw", "-u"), ("zoom", "-z")):
        if c[k]:
            line.append(short)
    if c["noise"] is not None:
        line += ["-n", c["noise"]]
    if extra:
        line += ["-e", *extra]
    shown, error = c22.run_command(mesh_command.main, line)
    return None if error is not None else shown.only("command")[1]


def run_mesh(c):
    other = {**c, **c["changes"]}
    with mg.mesh_files(c["mesh"]):
        env.fresh_data()
        m = M.Mesh(mg.HOST)
        c["k_eff"] = other["k_eff"] = len(m.mesh_eigenvalues)
        if "Slepian" in c["name"] + other["name"]:
            n = M.MeshSlepian(m).N
            if n < 1:
                return ok(False, "empty-region")
            if "MeshSlepianFunctions" in (c["name"], other["name"]):
                c["k_eff"] = other["k_eff"] = n
        a, b = mesh_name(c), mesh_name(other)
    if a is None or b is None:
        return ok(False, "refused")
    first, second = mesh_meaning(c), mesh_meaning(other)
    judge(c, first, second, a, b, f"mesh figure of {c}")
    return ok(first != second, c["name"], *(f"differs:{k}" for k in c["changes"] if first != second))


# ------------------------------------------------------------------ helpers
def run_helpers(c):
    p, q, name = c["p"], c["q"], c["name"]
    x = Fraction(p, q)
    # arguments: integers and fractions
    got = S.filename_args(p, name)
    check(got == f"_{p}{name}", f"argument {name}={p} is rendered {got!r}")
    if x.denominator != 1:
        got = S.filename_args(p / q, name)
        check(got == f"_{x.numerator}{name}{x.denominator}", f"argument {name}={x} is rendered {got!r}")
    e = c["e"]
    got = S.filename_args(10.0**e, name)
    want = f"_{10 ** e}{name}" if e >= 0 else f"_1{name}{10 ** -e}"
    check(got == want, f"argument {name}=1e{e} is rendered {got!r}, expected {want!r}")
    # angles
    abc = [Fraction(u, v) for u, v in c["angles"]]
    floats = [u / v for u, v in c["angles"]]
    got = S.filename_angle(*floats) if c["three"] else S.filename_angle(*floats[:2])

    def one(y):
        return "0" if y == 0 else f"{y.numerator}pi" + (f"{y.denominator}" if y.denominator != 1 else "")

    want = f"alpha{one(abc[0])}_beta{one(abc[1])}" + (f"_gamma{one(abc[2])}" if c["three"] and abc[2] else "")
    check(got == want, f"angles {abc} are rendered {got!r}, expected {want!r}")
    # degrees
    d = c["degrees"]
    for y in (math.radians(d), np.deg2rad(d), np.float64(math.radians(d))):
        got = S.angle_as_degree(y)
        check(got == d and "." not in str(got), f"{d} degrees are rendered {got!r}")
    y = c["radian"]
    got = S.angle_as_degree(y)
    check(abs(got - math.degrees(y)) <= 0.5 + 1e-9 and got == int(got), f"{math.degrees(y)} degrees are rendered {got!r}")
    # multiples of pi
    k = c["k"]
    got = S.multiples_of_pi(k * np.pi)
    want = "\u03c0" if k == 1 else f"{k}\u03c0"
    check(got == want, f"{k} pi is rendered {got!r}")
    # wavelets
    j, j_min = c["j"], c["j_min"]
    got = S.wavelet_ending(j_min, j)
    want = "_scaling" if j is None else f"_{j + j_min}j"
    check(got == want, f"wavelet {j} from {j_min} is rendered {got!r}")
    return ok(True, "proper" if 0 < abs(x) < 1 else "other")


HELPERS = st.fixed_dictionaries({
    "p": st.integers(-1000, 1000), "q": st.integers(1, 1000), "name": st.sampled_from(["noise", "a", "jmin", "sig"]),
    "e": st.integers(-6, 8), "angles": st.lists(st.tuples(st.integers(-40, 40), st.integers(1, 1000)), min_size=3, max_size=3),
    "three": st.booleans(), "degrees": st.integers(0, 360), "radian": st.floats(0, 2 * math.pi), "k": st.integers(0, 10),
    "j": st.one_of(st.none(), st.integers(0, 9)), "j_min": st.integers(0, 9)})

NAME_KEYS = ["name", "noise", "place", "region", "smoothing", "v"]
FIGURE_KEYS = sorted({*NAME_KEYS, "raw", "small", "method", "alpha", "beta", "gamma", "convolve", "view", "part"})
MESH_KEYS = ["name", "v", "noise", "region", "raw", "zoom"]

SUBS = [
    Sub("harmonic", pair("harmonic", NAME_KEYS), run_function, 3000, 40000, cost=0.02),
    Sub("slepian", pair("slepian", NAME_KEYS, 2, 4), run_function, 800, 10000, cost=0.05),
    Sub("keyword", keyword(), run_keyword, 600, 8000, cost=0.01),
    Sub("figure", pair("harmonic", FIGURE_KEYS, 2, 3), run_figure, 900, 12000, cost=0.3),
    Sub("slepian_figure", pair("slepian", FIGURE_KEYS, 2, 3), run_figure, 300, 4000, cost=0.3),
    Sub("mesh", pair("mesh", MESH_KEYS), run_mesh, 300, 4000, cost=0.3),
    Sub("helpers", HELPERS, run_helpers, 4000, 80000, cost=0.003),
]
