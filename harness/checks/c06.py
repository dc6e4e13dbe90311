import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close, fail

import sleplet

ID = "C06"
RULE = ("cases draw bandlimits, regions, signals (dense, sparse, single, zero, real, low, high), stacks, truncations, "
        "points (arbitrary, on the grid, poles) and histories of operations on one object; non-trivial when the "
        "product is not identically zero; distinct by the drawn case")
ASSUMPTIONS = ["Slepian translations are to exact sampling points, as the library's own nearest-point step produces",
               "the Slepian functions of the object are taken as given (C01-C03 decide them)"]

F = sleplet.functions
NEAREST = getattr(sleplet.plot_methods, "_calc_nearest_grid_point", None)


def apart(a, b):
    """Distance of longitudes on the circle."""
    return abs(np.angle(np.exp(1j * (np.asarray(a) - b))))


def real_flag(obj, got, L, what):
    """An object still marked real has produced coefficients of a real field."""
    if obj.reality and np.shape(got) == (L * L,):
        kinds.conjugate_symmetric(got, L, 1e-9, what)


# ------------------------------------------------------------------ plain convolution
@st.composite
def conv(draw):
    L = draw(gen.bandlimit(1, 16, 80))
    return {"L": L, "f": draw(gen.signal()), "g": draw(gen.signal()), "J": draw(st.sampled_from([0, 0, 1, 2, 5])),
            "both": draw(st.booleans()), "n": draw(st.one_of(st.none(), st.integers(0, L * L + 2))),
            "float": draw(st.sampled_from(["no", "f", "g"]))}


def run_conv(c):
    L, n = c["L"], c["L"] ** 2
    J = c["J"]
    f = gen.vector(c["f"], n * max(J, 1))
    if J:
        f = f.reshape(J, n)
    g = gen.vector(c["g"], n * (J if J and c["both"] else 1))
    if J and c["both"]:
        g = g.reshape(J, n)
    if c["float"] == "f":
        f = f.real.copy()
    elif c["float"] == "g":
        g = g.real.copy()
    f0, g0 = f.copy(), g.copy()
    obj = [F.Identity, F.Gaussian, F.DiracDelta][c["f"]["seed"] % 3](L)
    before = np.array(obj.coefficients)
    kw = {} if c["n"] is None else {"shannon": c["n"]}
    got = obj.convolve(f, g, **kw)
    exp = (f0 * g0.conj())[..., : c["n"]]
    close(got, exp, 1e-13, "sifting convolution", scale=max(abs(exp).max(initial=0), 1e-30))
    check((f == f0).all() and (g == g0).all(), "convolution changed its inputs")
    for row in np.atleast_2d(got):
        real_flag(obj, row, L, "the convolution")
    check((np.asarray(obj.coefficients) == before).all(), "convolution changed the stored coefficients")
    return ok(np.any(exp != 0), "stack" if J else "single", "truncated" if c["n"] is not None else "full")


# ------------------------------------------------------------------ operation histories
def point(draw, L):
    kind = draw(st.sampled_from(["any", "grid", "deg", "pole"]))
    if kind == "any":
        return [draw(st.floats(0, 2 * np.pi)), draw(st.floats(0, np.pi))]
    if kind == "grid":
        return [draw(st.integers(0, 2 * L - 1)) * np.pi / L, draw(st.integers(0, L)) * np.pi / L]
    if kind == "deg":
        return [np.deg2rad(draw(st.integers(0, 359))), np.deg2rad(draw(st.integers(0, 180)))]
    return [draw(st.floats(0, 2 * np.pi)), draw(st.sampled_from([0.0, np.pi]))]


@st.composite
def harm(draw):
    L = draw(gen.bandlimit(1, 12, 48))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["translate", "convolve", "self", "rotate", "read", "translate", "twice"]))
        op = {"op": k}
        if k == "translate":
            op["at"] = point(draw, L)
            op["n"] = draw(st.sampled_from([None, None, None, 1, 3]))
        elif k in ("convolve", "twice"):
            op["sig"] = draw(gen.signal())
        elif k == "rotate":
            op["angles"] = [draw(st.one_of(st.just(0.0), st.floats(0, 6))) for _ in range(3)]
        ops.append(op)
    return {"L": L, "fun": draw(st.sampled_from(["Gaussian", "SquashedGaussian", "SphericalHarmonic", "Ridgelets",
                                                 "AxisymmetricWavelets", "HarmonicGaussian", "assigned", "assigned"])),
            "sig": draw(gen.signal()), "seed": draw(gen.seeds()), "ops": ops, "extra": draw(extra())}


def extra():
    """Options which become part of the name alone."""
    return st.sampled_from([None, None, None, "cap", "gap", "rectangle", "mask", "named", "smoothed"])


def options(c):
    R = sleplet.slepian.Region
    return {None: lambda: {}, "cap": lambda: {"region": R(theta_max=0.7)}, "gap": lambda: {"region": R(theta_max=0.5, gap=True)},
            "rectangle": lambda: {"region": R(theta_min=0.3, theta_max=2, phi_min=1, phi_max=4)},
            "mask": lambda: {"region": R(mask_name="delta")}, "named": lambda: {"region": R(mask_name="near_a_dirac_delta")},
            "smoothed": lambda: {"smoothing": 2}}[c["extra"]]()


def harmonic_object(c):
    L, s = c["L"], c["seed"]
    k = c["fun"]
    kw = options(c)
    if k == "SphericalHarmonic":
        ell = s % L
        return F.SphericalHarmonic(L, ell=ell, m=(s // 7) % (2 * ell + 1) - ell, **kw)
    if k == "assigned":
        f = F.Identity(L, **kw)
        f.coefficients = gen.vector(c["sig"], L * L)
        return f
    if k in ("Ridgelets", "AxisymmetricWavelets"):
        j = [None, 0, 1][s % 3] if L > 4 else None
        return getattr(F, k)(L, B=2, j_min=0, j=j, **kw)
    return getattr(F, k)(L, **kw)


def run_harm(c):
    L = c["L"]
    f = harmonic_object(c)
    ref = np.array(f.coefficients)
    big = max(1e-30, abs(ref).max())
    for i, op in enumerate(c["ops"]):
        k, got = op["op"], None
        if k == "translate":
            a, b = op["at"]
            Y = o.ylm_points(L, [b], [a])[:, 0]
            kw = {} if op["n"] is None else {"shannon": op["n"]}
            got = f.translate(a, b, **kw)
            close(got, (ref * Y)[: op["n"]], 1e-10, f"operation {i}: translation by {op['at']}", scale=big)
        elif k == "convolve":
            g = gen.vector(op["sig"], L * L)
            got = f.convolve(f.coefficients, g)
            close(got, ref * g.conj(), 1e-12, f"operation {i}: convolution",
                  scale=max(1e-30, big * abs(g).max()))
        elif k == "self":
            got = f.convolve(f.coefficients, f.coefficients)
            close(got, abs(ref) ** 2, 1e-12, f"operation {i}: autoconvolution",
                  scale=big**2)
        elif k == "twice":
            g = gen.vector(op["sig"], L * L).real.copy()
            got = f.convolve(g, g)
            close(got, g * g, 1e-12, f"operation {i}: autoconvolution of a real array",
                  scale=max(1e-30, abs(g).max() ** 2))
        elif k == "rotate":
            f.rotate(op["angles"][0], op["angles"][1], gamma=op["angles"][2])
        if got is not None and np.any(got):
            real_flag(f, got, L, f"operation {i} ({k}): the result")
        now = as_array(f.coefficients, ref.shape, "coefficients")
        check((now == ref).all(), f"operation {i} ({k}) changed the stored coefficients")
    return ok(abs(ref).max() > 0, c["fun"], "history" if len(c["ops"]) > 1 else "one")


# ------------------------------------------------------------------ Dirac deltas
@st.composite
def delta(draw):
    L = draw(gen.bandlimit(1, 14, 64))
    return {"L": L, "at": point(draw, L), "seed": draw(gen.seeds()), "extra": draw(extra())}


def run_delta(c):
    L = c["L"]
    a, b = c["at"]
    d = F.DiracDelta(L, **options(c))
    ref = np.array(d.coefficients)
    t = as_array(d.translate(a, b), (L * L,), "translated delta")
    close(t, o.ylm_points(L, [b], [a])[:, 0].conj(), 1e-10, f"delta translated to {c['at']}")
    check((np.asarray(d.coefficients) == ref).all(), "translation changed the delta")
    # sifting: the inner product with a signal is the signal at the point
    v = gen.vector({"seed": c["seed"], "kind": "dense", "scale": 1.0, "at": 0}, L * L)
    val = o.synth(v, L, [b], [a])[0, 0]
    check(abs((v * t.conj()).sum() - val) <= 1e-9 * L, "the translated delta does not sift out the value at the point")
    return ok(b > 0, "north" if b == 0 else "moved")


# ------------------------------------------------------------------ Slepian objects
@st.composite
def slep(draw, lo, hi, arbitrary=True):
    L = draw(gen.bandlimit(lo, hi))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["translate", "translate", "convolve", "rotate"]))
        op = {"op": k}
        if k == "translate":
            op["p"] = draw(st.integers(0, 2 * L - 1))
            op["t"] = draw(st.integers(0, L))
            op["frac"] = draw(st.one_of(st.none(), st.tuples(st.one_of(st.floats(0, 2), st.floats(-1, 3)), st.floats(0, 1))))
            op["turn"] = draw(st.sampled_from([0, 0, 0, -1, 1]))
            op["n"] = draw(st.sampled_from(["N", "N", None, "some"]))
        elif k == "convolve":
            op["sig"] = draw(gen.signal())
            op["n"] = draw(st.sampled_from(["N", None]))
        else:
            op["angles"] = draw(st.sampled_from([None, [0.0, 0.0, 0.0], [0, 0, 0], [2 * np.pi] * 3])) or \
                [draw(st.sampled_from([0.0, 0.3, -1.0, np.pi, 5.0])) for _ in range(3)]
        ops.append(op)
    return {"L": L, "region": draw(gen.region_spec(arbitrary=arbitrary)), "sig": draw(gen.signal()), "ops": ops,
            "fun": draw(st.sampled_from(["SlepianIdentity", "Slepian", "SlepianDiracDelta", "assigned"] + (["SlepianWavelets"] if L > 1 else [])))}


def run_slep(c):
    L, n = c["L"], c["L"] ** 2
    env.fresh_data()
    R = subj.region_of(c["region"], L)
    k = c["fun"]
    fun = F.SlepianIdentity if k == "assigned" else getattr(F, k)
    f = fun(L, region=R, **({"B": 2, "j_min": 0} if k == "SlepianWavelets" else {}))
    s = f.slepian
    N = int(s.N)
    if k == "assigned":
        f.coefficients = gen.vector(c["sig"], n)
    if k == "Slepian" and N == 0:
        return ok(False, "no functions")
    ref = np.array(f.coefficients)
    thetas, phis = o.grid(L)
    S = np.array([o.synth_grid(s.eigenvectors[p], L) for p in range(N)]).reshape(N, L + 1, 2 * L)
    hit = False
    for i, op in enumerate(c["ops"]):
        if op["op"] == "translate":
            it, ip = op["t"], op["p"]
            if op["frac"] is not None and NEAREST is not None:
                a, b = NEAREST(L, *op["frac"])
                it, ip = int(np.argmin(abs(thetas - b))), int(np.argmin(apart(phis, a)))
                check(abs(thetas[it] - b) < 1e-9 and apart(phis[ip], a) < 1e-9,
                      f"the nearest grid point ({a}, {b}) is not a sampling point")
                pa, pb = op["frac"][0] * np.pi, op["frac"][1] * np.pi
                check(apart(a, pa) < apart(phis, pa).min() + 1e-9 and abs(b - pb) < abs(thetas - pb).min() + 1e-9,
                      f"({a}, {b}) is not the grid point nearest to ({pa}, {pb})")
            else:  # a sampling point, whichever turn its longitude is given in
                a, b = float(phis[ip]) + 2 * np.pi * op["turn"], float(thetas[it])
            m = {"N": N, None: N if len(ref) < n else None, "some": min(1, N)}[op["n"]]
            kw = {} if m is None else {"shannon": m}
            got = f.translate(a, b, **kw)
            Sp = np.zeros(n, complex)
            Sp[:N] = S[:, it, ip]
            if k == "SlepianDiracDelta":
                exp = Sp.conj()
            else:
                full = np.zeros(n, complex)
                full[: len(ref)] = ref
                exp = (full * Sp)[:m]
            close(got, exp, 1e-9, f"operation {i}: translation to sample ({it}, {ip})",
                  scale=max(1e-30, abs(ref).max(initial=0)) if k != "SlepianDiracDelta" else 1.0)
            hit |= bool(np.any(exp != 0))
        elif op["op"] == "convolve":
            g = gen.vector(op["sig"], len(ref))
            m = {"N": N, None: None}[op["n"]]
            exp = (ref * g.conj())[:m]
            close(f.convolve(f.coefficients, g, **({} if m is None else {"shannon": m})), exp, 1e-12,
                  f"operation {i}: convolution", scale=max(1e-30, abs(ref * g).max(initial=0)))
            hit |= bool(np.any(exp != 0))
        else:
            a, b, g = op["angles"]
            try:
                f.rotate(a, b, **({} if g == 0 and i % 2 else {"gamma": g}))
            except NotImplementedError:
                pass
            else:
                fail(f"rotating a Slepian signal by {op['angles']} was not refused")
        check((np.asarray(f.coefficients) == ref).all(), f"operation {i} ({op['op']}) changed the stored coefficients")
    return ok(hit, k, c["region"]["type"])


SUBS = [
    Sub("convolution", conv(), run_conv, 3000, 40000, cost=0.004),
    Sub("harmonic", harm(), run_harm, 1500, 20000, cost=0.02),
    Sub("delta", delta(), run_delta, 800, 10000, cost=0.01),
    Sub("slepian", slep(1, 6), run_slep, 900, 10000, cost=0.05),
    Sub("slepian_large", slep(7, 13), run_slep, 64, 1500, cost=0.4),
    Sub("slepian_huge", slep(14, 18, False), run_slep, 24, 300, cost=1.0),
]
