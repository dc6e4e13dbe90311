import io
import contextlib
import math
import sys

import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen as mg
import oracle as o
import plots
import subj
from checks import c15, c21
from checks.c16 import rotated
from core import Sub, Violation, ok
from oracle import check, fail

import sleplet
import sleplet._scripts.plotting_on_mesh as mesh_command
import sleplet._scripts.plotting_on_sphere as sphere_command

ID = "C22"
RULE = ("cases draw the function of the command with integer arguments, bandlimit, region in the environment, rotation or "
        "translation, convolution, noise, smoothing and every display option; non-trivial when the figure shows a field "
        "that is not identically zero; distinct by the drawn case")
ASSUMPTIONS = ["the function itself is built through the library from the same options (C01-C16 decide it)",
               "angles whose nearest sample is ambiguous may go to either",
               "functions the library cannot build with the options have to be refused by the command as well"]
F, M = sleplet.functions, sleplet.meshes
EARTHS = {"Earth", "Wmap", "Africa", "SouthAmerica", "NoiseEarth", "AxisymmetricWaveletCoefficientsEarth",
          "AxisymmetricWaveletCoefficientsAfrica", "AxisymmetricWaveletCoefficientsSouthAmerica"}
PARTS = ["real", "imag", "abs", "sum"]
ARROW = {"arrowhead": 0, "arrowside": "start", "ax": 4, "ay": 4, "startarrowsize": 0.5, "startarrowhead": 6,
         "arrowcolor": "gold"}
KEYS = ("THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN", "POLAR_GAP", "SLEPIAN_MASK")


def snake(name):
    out = ""
    for i, ch in enumerate(name):
        out += ("_" if ch.isupper() and i else "") + ch.lower()
    return out


def run_command(main, args):
    """Figures shown by a command; the error if it refused."""
    old = sys.argv
    sys.argv = [str(a) for a in args]
    try:
        with plots.Shown() as shown, contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try:
                main()
            except SystemExit as e:
                return shown, Violation(f"{' '.join(sys.argv)} was refused") if e.code else None
            except Exception as e:  # noqa: BLE001
                return shown, e
        return shown, None
    finally:
        sys.argv = old


# ------------------------------------------------------------------ sphere
@st.composite
def place(draw):
    """Region by the environment, in degrees."""
    kind = draw(st.sampled_from(["cap", "gap", "lim", "mask", "mask"]))
    e = {}
    if kind in ("cap", "gap"):
        e["THETA_MAX"] = draw(st.one_of(st.integers(20, 90 if kind == "gap" else 160), st.just(90)))
        if kind == "gap":
            e["POLAR_GAP"] = "true"
    elif kind == "lim":
        e["THETA_MIN"], e["THETA_MAX"] = draw(st.integers(0, 70)), draw(st.integers(80, 179))
        e["PHI_MIN"], e["PHI_MAX"] = draw(st.integers(0, 180)), draw(st.integers(200, 359))
    else:
        e["SLEPIAN_MASK"] = draw(st.sampled_from(["africa", "unearthed", None]))
    return {"kind": kind, "env": e}


@st.composite
def sphere(draw):
    fam = draw(st.sampled_from(["harmonic", "harmonic", "slepian"]))
    table = c15.HARMONIC if fam == "harmonic" else c15.SLEPIAN
    L = draw(st.integers(2, 9 if fam == "harmonic" else 5))
    frac = st.one_of(st.floats(0, 2), st.floats(0, 2), st.floats(-1, 3), st.floats(2 - 1 / L, 2), st.integers(0, 15).map(lambda k: k / 8), st.integers(0, 2 * L - 1).map(lambda k: k / L))
    c = {"fam": fam, "name": draw(st.sampled_from(sorted(table))), "L": L, "seed": draw(gen.seeds()),
         "mask": draw(gen.mask_spec()), "v": [draw(st.integers(0, 2**16)) for _ in range(4)],
         "place": draw(place()), "region": draw(st.sampled_from([False, False, True])),
         "method": draw(st.sampled_from([None, "north", "rotate", "rotate", "translate", "translate"])),
         "alpha": draw(st.one_of(st.none(), frac)), "beta": draw(st.one_of(st.none(), st.floats(0, 1), st.integers(0, L).map(lambda k: k / L))),
         "gamma": draw(st.one_of(st.none(), st.floats(-1, 2), st.integers(0, 7).map(lambda k: k / 4))),
         "convolve": draw(st.sampled_from([None, None, None, "Earth", "SouthAmerica", "Wmap"])),
         "view": draw(st.sampled_from([None, "africa", "south_america"])),
         "noise": draw(st.one_of(st.none(), st.none(), st.integers(-10, 20), st.just(0))),
         "smoothing": draw(st.sampled_from([None, None, None, 1, 2, 5])),
         "part": draw(st.sampled_from([None] + PARTS)), "outline": draw(st.booleans()), "raw": draw(st.booleans()),
         "small": draw(st.booleans()), "args": draw(st.sampled_from([True, True, True, False])),
         "short": draw(st.booleans()), "order": draw(st.integers(0, 99)), "bare": draw(st.booleans()), "default_L": False}
    if fam == "harmonic" and draw(st.integers(0, 19)) == 7:
        c["L"], c["default_L"] = 16, True
    return c


def sources(c):
    L = c["L"]
    subj.write_earth(subj.earth_source(c["seed"], 2 * L + 1))
    subj.write_wmap(np.abs(np.random.default_rng(c["seed"]).standard_normal(2 * L + 3)) + 0.1)
    for i, land in enumerate(("africa", "south_america", "unearthed")):
        for g in {L, 2 * L, plots.resolution(L)}:
            subj.save_mask(gen.build_mask({**c["mask"], "seed": c["mask"]["seed"] + i}, g), land, g)


def library_region(c):
    e = c["place"]["env"]
    d = {k: float(np.deg2rad(e[K])) for k, K in (("theta_max", "THETA_MAX"), ("theta_min", "THETA_MIN"), ("phi_max", "PHI_MAX"),
                                                ("phi_min", "PHI_MIN")) if e.get(K) is not None}
    return sleplet.slepian.Region(gap=c["place"]["kind"] == "gap", mask_name=e.get("SLEPIAN_MASK") or "south_america", **d)


def nearest(c):
    """Samples at the least distance from the angles asked for."""
    L = c["L"]
    a = 0.75 if c["alpha"] is None else c["alpha"]
    b = 0.125 if c["beta"] is None else c["beta"]
    out = []
    t, p = o.grid(L)
    for th in t[abs(t - b * np.pi) <= abs(t - b * np.pi).min() + 1e-9]:
        away = abs(np.angle(np.exp(1j * (p - a * np.pi))))
        for ph in p[away <= away.min() + 1e-9]:
            out.append((ph, th))
    return a, b, out


def rotate(v, L, a, b, g):
    out = np.zeros(L * L, complex)
    for ell in range(L):
        m = np.arange(-ell, ell + 1)
        D = np.exp(-1j * m * a)[:, None] * o.wigner_d(ell, b) * np.exp(-1j * m * g)[None, :]
        out[ell * ell:(ell + 1) ** 2] = D @ v[ell * ell:(ell + 1) ** 2]
    return out


def command_line(c, extra):
    a = []

    def opt(long, short, *v):
        a.append([short if c["short"] else long, *v])

    L = c["L"]
    if not c.get("default_L"):
        opt("--bandlimit", "-L", L)
    for k, long, short in (("alpha", "--alpha", "-a"), ("beta", "--beta", "-b"), ("gamma", "--gamma", "-g"),
                           ("method", "--method", "-m"), ("noise", "--noise", "-n"), ("smoothing", "--smoothing", "-s"),
                           ("view", "--perspective", "-p"), ("part", "--type", "-t")):
        if c[k] is not None:
            if c.get("bare") and (k, c[k]) in (("method", "north"), ("view", "south_america"), ("part", "real")):
                opt(long, short)  # the value may be left out
            elif isinstance(c[k], float) and c[k] < 0:  # "-1e-05" would be taken for an option
                a.append([f"{long}={c[k]!r}"])
            else:
                opt(long, short, repr(c[k]) if isinstance(c[k], float) else c[k])
    if c["convolve"]:
        opt("--convolve", "-c", snake(c["convolve"]))
    if extra:
        opt("--extra_args", "-e", *extra)
    for k, long, short in (("outline", "--outline", "-o"), ("raw", "--unnormalise", "-u"), ("small", "--unzeropad", "-z"),
                           ("region", "--region", "-r")):
        if c[k]:
            opt(long, short)
    rng = np.random.default_rng(c["order"])
    a = [a[i] for i in rng.permutation(len(a))]
    return ["sphere", snake(c["name"]), *(x for y in a for x in y)]


def run_sphere(c):
    L, slepian = c["L"], c["fam"] == "slepian"
    c = {**c, "place": dict(c["place"])}
    land = c15.continent(c["name"])
    if slepian and land:
        c["place"] = {"kind": "mask", "env": {"SLEPIAN_MASK": land if c["seed"] % 3 or land == "africa" else None}}
    what = f"sphere command for {c}"
    extra = list(c15.valid(c).values()) if c["args"] else []
    env.fresh_data()
    sources(c)
    kw = {"noise": c["noise"], "smoothing": c["smoothing"], "extra_args": extra or None}
    region = library_region(c)
    err = None
    try:
        f = getattr(F, c["name"])(L, region=region if c["region"] or slepian else None, **kw)
        env.fresh_data()  # functions beyond the Shannon number are not saved (C17)
        sources(c)
        clean = getattr(F, c["name"])(L, region=region if c["region"] or slepian else None, **{**kw, "noise": None})
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        err = e
    a, b, at = nearest(c)
    g = 0.0 if c["gamma"] is None else c["gamma"]
    refuse = err is not None or (slepian and c["method"] == "rotate")
    line = command_line(c, extra)
    env.fresh_data()
    sources(c)
    with env.environ(**{k: c["place"]["env"].get(k) for k in KEYS}):
        shown, error = run_command(sphere_command.main, line)
    if refuse:
        check(error is not None and not shown.figures, f"{what}: {' '.join(map(str, line))} was accepted, expected {err or 'a refusal'}")
        return ok(False, "refused")
    if error is not None:
        raise error
    fig, name = shown.only(what)

    # ------------------------------------------------ what it has to show
    v = np.asarray(f.coefficients)
    N = int(f.slepian.N) if slepian else None
    base, real, labels = f.name, bool(f.reality), []
    choices = [(v, None)]
    size = float(abs(v).max(initial=0))
    if c["method"] == "rotate":
        base += "_rotate_" + angles(a, b, g)
        choices = [(rotate(v, L, ph, th, g * np.pi), None) for ph, th in at]
    elif c["method"] == "translate":
        base += "_translate_" + angles(a, b)
        choices = []
        for ph, th in at:
            if slepian:
                basis = np.asarray(f.slepian.eigenvectors)[:N] @ o.ylm_points(L, [th], [ph])[:, 0]
            else:
                basis = o.ylm_points(L, [th], [ph])[:, 0]
            w = basis.conj() if c["name"] in ("DiracDelta", "SlepianDiracDelta") else (v[: len(basis)] * basis[: len(v)])
            choices.append((w, (ph, th)))
        real &= c["name"] == "DiracDelta"
    if c["convolve"]:
        h = getattr(F, c["convolve"])(L)
        gv = np.asarray(h.coefficients)
        if slepian:
            gv = np.asarray(f.slepian.eigenvectors)[:N].conj() @ gv
        choices = [((gv[: len(w)] * w[: len(gv)].conj()), p) for w, p in choices]
        base += f"_convolved_{h.name}"
        real = False
        size *= float(abs(np.asarray(h.coefficients)).max())
    view = c["view"] or "south_america"
    if ("Earth" in c["name"] or c["convolve"] == "Earth") and not slepian:
        choices = [(rotated(w, L, view), p) for w, p in choices]
        base += "_africa" if view == "africa" else ""
        labels.append("earth")
    part, up = c["part"] or "real", not c["small"]
    R = plots.resolution(L) if up else L
    inside = unsure = None
    if slepian:
        inside = sample_mask(c, R)
        unsure = np.zeros_like(inside)
        if c["place"]["kind"] in ("cap", "gap"):
            t = o.grid(R)[0]
            edge = np.deg2rad(c["place"]["env"]["THETA_MAX"])
            unsure |= (np.isclose(t, edge, atol=1e-12, rtol=0) | np.isclose(t, np.pi - edge, atol=1e-12, rtol=0))[:, None]
    amplitude = None
    if c["noise"] is not None:
        amplitude = float(abs(to_field(f, np.asarray(clean.coefficients), L, L, N, bool(clean.reality))).max())
    problem = None
    for w, point in choices:
        try:
            field = to_field(f, w, L, R, N, real)
            # what the size of the coefficients lets rounding do to the field
            noise = 1e-11 * size if size else 0.0
            if real and part == "imag":
                noise = 0.0
            lab = judge(fig, name, field, R, c, amplitude, base, part, up, inside, unsure, what, noise)
            points = [] if point is None or c["outline"] else [point]
            notes(fig, points, what)
            break
        except Violation as e:
            problem = e
    else:
        raise problem
    return ok(bool(field.any()), c["name"], c["method"] or "default", f"{lab}", "convolved" if c["convolve"] else "plain", *labels)


def judge(fig, name, field, R, c, amplitude, base, part, up, inside, unsure, what, noise):
    return plots.judge_sphere(fig, name, plots.part(field, part), R, normalise=not c["raw"], amplitude=amplitude, base=base, kind=part,
                              upsampled=up, inside=inside, unsure=unsure, what=what, noise=noise)


def to_field(f, w, L, R, N, real):
    if N is not None:
        w = np.asarray(f.slepian.eigenvectors)[:N][: len(w)].T @ w[:N]
        return o.synth_grid(w, L, R)
    field = o.synth_grid(w, L, R, f.spin)
    return field.real if real else field


def sample_mask(c, R):
    e = c["place"]["env"]
    if c["place"]["kind"] == "mask":
        name = e.get("SLEPIAN_MASK") or "south_america"
        return gen.build_mask({**c["mask"], "seed": c["mask"]["seed"] + ["africa", "south_america", "unearthed"].index(name)}, R)
    t, p = o.grid(R)
    hi = np.deg2rad(e["THETA_MAX"])
    if c["place"]["kind"] == "cap":
        m = t <= hi
    elif c["place"]["kind"] == "gap":
        m = (t <= hi) | (t >= np.pi - hi)
    else:
        m = (t >= np.deg2rad(e["THETA_MIN"])) & (t <= hi)
        q = (p >= np.deg2rad(e["PHI_MIN"])) & (p <= np.deg2rad(e["PHI_MAX"]))
        return m[:, None] & q[None, :]
    return np.repeat(m[:, None], 2 * R, axis=1)


def notes(fig, points, what):
    got = list(fig.layout.scene.annotations)
    check(len(got) == len(points), f"{what}: {len(got)} annotations, expected {len(points)}")
    for n, (ph, th) in zip(got, points):
        xyz = (math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th))
        check(max(abs(a - b) for a, b in zip((n.x, n.y, n.z), xyz)) < 1e-9,
              f"{what}: the translation to {(ph, th)} is annotated at {(n.x, n.y, n.z)}, expected {xyz}")


def angles(a, b, g=0.0):
    def one(x):
        from fractions import Fraction

        q = Fraction(x).limit_denominator()
        return "0" if q == 0 else f"{q.numerator}pi" + (f"{q.denominator}" if q.denominator != 1 else "")

    s = f"alpha{one(a)}_beta{one(b)}"
    return s + (f"_gamma{one(g)}" if one(g) != "0" else "")


# ------------------------------------------------------------------ mesh
@st.composite
def mesh(draw):
    return {"fam": "mesh", "name": draw(st.sampled_from(sorted(c15.MESH))), "mesh": draw(mg.mesh_spec(small=True)),
            "v": [draw(st.integers(0, 2**16)) for _ in range(4)], "noise": draw(st.one_of(st.none(), st.none(), st.integers(-10, 20), st.just(0))),
            "region": draw(st.booleans()), "raw": draw(st.booleans()), "zoom": draw(st.booleans()),
            "args": draw(st.sampled_from([True, True, True, False])), "short": draw(st.booleans()),
            "default": draw(st.booleans()), "bare": draw(st.booleans()), "order": draw(st.integers(0, 99))}


def run_mesh(c):
    what = f"mesh command for {c}"
    with mg.mesh_files(c["mesh"]) as g:
        err = None
        env.fresh_data()
        try:
            m = M.Mesh(mg.HOST, zoom=c["zoom"])
            c = {**c, "k_eff": len(m.mesh_eigenvalues)}
            extra = list(c15.valid(c).values()) if c["args"] and c["k_eff"] else []
            kw = {"extra_args": extra or None, "region": c["region"]}
            if "Slepian" in c["name"] and M.MeshSlepian(m).N < 1:
                return ok(False, "empty-region")
            env.fresh_data()
            f = getattr(M, c["name"])(m, noise=c["noise"], **kw)
            env.fresh_data()
            clean = getattr(M, c["name"])(m, **kw)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
            if "k_eff" not in c:
                return ok(False, "no-mesh")
        p = []
        if not (c["name"] == "MeshBasisFunctions" and c["default"]):
            p.append(["-m" if c["short"] else "--method", snake(c["name"].removeprefix("Mesh"))])
        elif c.get("bare"):
            p.append(["-m" if c["short"] else "--method"])  # the value may be left out
        for k, long, short in (("region", "--region", "-r"), ("raw", "--unnormalise", "-u"), ("zoom", "--zoom", "-z")):
            if c[k]:
                p.append([short if c["short"] else long])
        if c["noise"] is not None:
            p.append(["-n" if c["short"] else "--noise", c["noise"]])
        if extra:
            p.append(["-e" if c["short"] else "--extra_args", *extra])
        p = [p[i] for i in np.random.default_rng(c["order"]).permutation(len(p))]
        line = ["mesh", mg.HOST, *(x for y in p for x in y)]
        env.fresh_data()
        shown, error = run_command(mesh_command.main, line)
        if err is not None:
            check(error is not None and not shown.figures, f"{what}: {line} was accepted, expected {err}")
            return ok(False, "refused")
        if error is not None:
            raise error
        fig, name = shown.only(what)
        field = c21.field_on_mesh(f)
        amplitude = None if c["noise"] is None else float(abs(c21.field_on_mesh(clean)).max())
        noise = 1e-9 * float(abs(np.asarray(f.coefficients)).max(initial=0))
        lab = c21.judge_mesh(fig, name, field, g, normalise=not c["raw"], amplitude=amplitude, region="Slepian" in c["name"],
                             zoom=c["zoom"], base=f.name, what=what, noise=noise)
    return ok(bool(field.any()), c["name"], f"{lab}", "zoom" if c["zoom"] else "default")


# ------------------------------------------------------------------ what does not exist
WORD = st.text("abcdefghijklmnopqrstuvwxyz_", min_size=1, max_size=12)


@st.composite
def unknown(draw):
    which = draw(st.sampled_from(["function", "map", "view", "type", "method", "mesh", "mesh-method"]))
    options = {"function": [snake(k) for k in (*c15.HARMONIC, *c15.SLEPIAN)], "map": ["earth", "south_america", "wmap", "africa"],
               "view": ["africa", "south_america"], "type": PARTS, "method": ["north", "rotate", "translate"],
               "mesh": ["bird", "cheetah", "cube", "dragon", "homer", "teapot"],
               "mesh-method": [snake(k.removeprefix("Mesh")) for k in c15.MESH]}[which]
    word = draw(st.one_of(WORD, st.sampled_from(options).flatmap(lambda w: st.sampled_from(
        [w.upper(), w[:-1], w + "s", w.replace("_", "-") + "-", w.title(), "mesh_" + w, "slepian_slepian_" + w])),
        st.sampled_from([snake(k) for k in ("Gaussian", "SlepianAfrica", "MeshField", "Identity")])))
    return {"which": which, "word": word, "options": options}


def run_unknown(c):
    w, k = c["word"], c["which"]
    if w in c["options"]:
        return ok(False, "known")
    env.fresh_data()
    line = {"function": ["sphere", w, "-L", "2"], "map": ["sphere", "gaussian", "-L", "2", "-c", w],
            "view": ["sphere", "gaussian", "-L", "2", "-p", w], "type": ["sphere", "gaussian", "-L", "2", "-t", w],
            "method": ["sphere", "gaussian", "-L", "2", "-m", w], "mesh": ["mesh", w], "mesh-method": ["mesh", "cube", "-m", w]}[k]
    shown, error = run_command(mesh_command.main if line[0] == "mesh" else sphere_command.main, line)
    check(error is not None and not shown.figures, f"{' '.join(line)} was accepted")
    return ok(True, k)


SUBS = [
    Sub("sphere", sphere(), run_sphere, 1200, 16000, cost=1.0),
    Sub("mesh", mesh(), run_mesh, 600, 10000, cost=0.5),
    Sub("unknown", unknown(), run_unknown, 400, 4000, cost=0.02),
]
