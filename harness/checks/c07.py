import math

import numpy as np
from hypothesis import strategies as st

import gen
import oracle as o
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C07"
RULE = ("cases draw bandlimits, Euler angles (any, degrees, multiples of pi/4, several turns), signals, spins, output "
        "resolutions, variances and seeds; non-trivial when the signal is not zero and the operation is not the "
        "identity; distinct by the drawn case")
ASSUMPTIONS = ["the rotation convention is the active z-y-z one: R = Rz(alpha) Ry(beta) Rz(gamma)",
               "moments of a random signal are judged to 12 standard errors from 300 coefficients up"]

F = sleplet.functions
H = sleplet.harmonic_methods


def euler(a, b, g):
    def rz(x):
        return np.array([[np.cos(x), -np.sin(x), 0], [np.sin(x), np.cos(x), 0], [0, 0, 1]])

    ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    return rz(a) @ ry @ rz(g)


def points(seed, n=12):
    rng = np.random.default_rng(seed)
    return np.arccos(rng.uniform(-0.999, 0.999, n)), rng.uniform(0, 2 * np.pi, n)


def vec(t, p):
    return np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])


def back(R, t, p):
    x = R.T @ vec(t, p)
    return np.arccos(np.clip(x[2], -1, 1)), np.arctan2(x[1], x[0])


def values(flm, L, t, p):
    return np.asarray(flm) @ o.ylm_points(L, t, p)


SMALL = st.integers(1, 12).map(lambda k: 10.0**-k)
ANGLE = st.one_of(st.floats(-7, 7), SMALL, SMALL.map(lambda x: -x), st.integers(0, 360).map(math.radians),
                  st.integers(-4, 8).map(lambda k: k * math.pi / 4))
BETA = st.one_of(st.floats(0, math.pi), SMALL, SMALL.map(lambda x: math.pi - x), st.integers(0, 180).map(math.radians),
                 st.integers(0, 4).map(lambda k: k * math.pi / 4))


HOSTS = {"Identity": {}, "Gaussian": {"sigma": 3.0}, "HarmonicGaussian": {}, "DiracDelta": {}, "ElongatedGaussian": {},
         "SquashedGaussian": {}, "SphericalHarmonic": {}, "Ridgelets": {}, "AxisymmetricWavelets": {}}


def host(c, L):
    """A function of some kind, with its own coefficients or given ones."""
    name = c["host"]
    f = getattr(F, name)(L, **({"B": 2, "j_min": 0} if name in ("Ridgelets", "AxisymmetricWavelets") else HOSTS[name]))
    v = np.asarray(f.coefficients).astype(complex)
    if not c["own"]:
        v = gen.vector(c["sig"], L * L)
        if f.reality or c["real"]:
            v = gen.hermitian(v, L)
    f.coefficients = v.copy()
    return f, v


@st.composite
def rot(draw):
    L = draw(gen.bandlimit(1, 20, 48))
    return {"L": L, "host": draw(st.sampled_from(sorted(HOSTS))), "own": draw(st.integers(0, 3)) == 0, "sig": draw(gen.signal()), "angles": [draw(ANGLE), draw(BETA), draw(ANGLE)],
            "gamma": draw(st.booleans()), "seed": draw(gen.seeds()), "real": draw(st.booleans())}


def judge_rotation(f, g, L, R, seed, what):
    scale = max(1e-30, float(np.abs(f).max()))
    t, p = points(seed)
    close(values(g, L, t, p), values(f, L, *back(R, t, p)), 1e-9 * L, what, scale=scale)
    ell, _ = o.lm(L)
    for e in range(L):
        a, b = (abs(f[ell == e]) ** 2).sum(), (abs(g[ell == e]) ** 2).sum()
        check(abs(a - b) <= 1e-9 * max(a, b, 1e-14 * scale**2), f"{what}: energy of degree {e} changed from {a} to {b}")


def run_rot(c):
    L = c["L"]
    f, v = host(c, L)
    a, b, g = c["angles"]
    got = as_array(f.rotate(a, b, gamma=g) if c["gamma"] else f.rotate(a, b), (L * L,), "rotated coefficients")
    check((np.asarray(f.coefficients) == v).all(), "rotation changed the stored coefficients")
    R = euler(a, b, g if c["gamma"] else 0)
    judge_rotation(v, got, L, R, c["seed"], f"rotation by {c['angles']}")
    # degree by degree against the Wigner matrices
    for ell in range(L):
        m = np.arange(-ell, ell + 1)
        D = np.exp(-1j * m * a)[:, None] * o.wigner_d(ell, b) * np.exp(-1j * m * (g if c["gamma"] else 0))[None, :]
        close(got[ell * ell:(ell + 1) ** 2], D @ v[ell * ell:(ell + 1) ** 2], 1e-10,
              f"rotated coefficients of degree {ell}", scale=max(1e-30, abs(v).max()))
    moved = np.abs(R - np.eye(3)).max() > 1e-6
    return ok(np.any(v != 0) and moved and L > 1, "gamma" if c["gamma"] else "no gamma", c["sig"]["kind"])


@st.composite
def history(draw):
    L = draw(gen.bandlimit(1, 10, 32))
    return {"L": L, "sig": draw(gen.signal()), "seed": draw(gen.seeds()),
            "turns": draw(st.lists(st.tuples(ANGLE, BETA, ANGLE), min_size=2, max_size=5))}


def run_history(c):
    L = c["L"]
    v = gen.vector(c["sig"], L * L)
    f = F.Identity(L)
    f.coefficients = v.copy()
    R = np.eye(3)
    for a, b, g in c["turns"]:
        f.coefficients = f.rotate(a, b, gamma=g)
        R = euler(a, b, g) @ R
    judge_rotation(v, np.asarray(f.coefficients), L, R, c["seed"], f"{len(c['turns'])} rotations in a row")
    return ok(np.any(v != 0) and L > 1, f"{len(c['turns'])} turns")


@st.composite
def views(draw):
    L = draw(gen.bandlimit(1, 24, 64))
    return {"L": L, "sig": draw(gen.signal()), "view": draw(st.sampled_from(["africa", "south_america"])),
            "seed": draw(gen.seeds())}


VIEW = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}


def run_view(c):
    L = c["L"]
    v = gen.hermitian(gen.vector(c["sig"], L * L), L)
    v0 = v.copy()
    got = as_array(getattr(H, f"rotate_earth_to_{c['view']}")(v, L), (L * L,), "rotated coefficients")
    check((v == v0).all(), "the view changed its input")
    judge_rotation(v0, got, L, euler(*np.deg2rad(VIEW[c["view"]])), c["seed"], f"{c['view']} view")
    return ok(np.any(v != 0) and L > 1, c["view"])


# ------------------------------------------------------------------ upsampling
@st.composite
def ups(draw):
    L = draw(gen.bandlimit(1, 16, 48))
    res = draw(st.one_of(st.just(L), st.integers(L, 2 * L + 5), st.sampled_from([2 * L, 4 * L])))
    spin = draw(st.sampled_from([0, 0, 0, 1, -1, 2, -2, 3, -3, 4]))
    spin = spin if abs(spin) < res else 0  # the transforms need degrees of at least the spin
    return {"L": L, "res": res, "spin": spin, "sig": draw(gen.signal()), "real": draw(st.booleans()),
            "default": draw(st.booleans()), "clear": draw(st.booleans())}


def run_ups(c):
    L, res, spin = c["L"], c["res"], c["spin"]
    real = c["real"] and spin == 0
    v = gen.vector(c["sig"], L * L)
    if c["clear"]:
        v[: spin * spin] = 0  # otherwise the degrees below the spin are there, but do not contribute
    if real:
        v = gen.hermitian(v, L)
    v0 = v.copy()
    kw = {} if c["default"] and spin == 0 and not real else {"reality": real, "spin": spin}
    got = as_array(H.invert_flm_boosted(v, L, res, **kw), (res + 1, 2 * res), "samples")
    check((v == v0).all(), "upsampling changed its input")
    exp = o.synth_grid(v0, L, res, spin)
    if spin:  # the azimuthal gauge of a spin function at the poles is not a sample of it
        got, exp = got[1:-1], exp[1:-1]
    close(got, exp, 1e-10 * L, f"samples at resolution {res}", scale=max(1e-30, abs(v).max(initial=0)))
    if real:
        check(np.isrealobj(got) or abs(got.imag).max() == 0, "a real signal was sampled with an imaginary part")
    return ok(np.any(v != 0), "real" if real else "complex", f"spin {spin}", "upsampled" if res > L else "same")


# ------------------------------------------------------------------ random signals
@st.composite
def rnd(draw):
    return {"L": draw(st.one_of(gen.bandlimit(1, 64), gen.bandlimit(30, 64))), "seed": draw(gen.seeds()),
            "var": draw(st.one_of(st.sampled_from([1.0, 2.0, 0.0, 1e-6, 1e6]), st.floats(0, 1e4))),
            "calls": draw(st.integers(1, 3))}


def run_rnd(c):
    L, n = c["L"], c["L"] ** 2
    r1, r2, r3 = (np.random.default_rng(c["seed"]) for _ in range(3))
    state = np.random.get_state()[1][:4].copy()
    prev = None
    for i in range(c["calls"]):
        x = as_array(H.compute_random_signal(L, r1, var_signal=c["var"]), (n,), "random signal")
        y = H.compute_random_signal(L, r2, var_signal=c["var"])
        check((x == y).all(), f"call {i}: two generators in the same state gave different signals")
        unit = H.compute_random_signal(L, r3, var_signal=1.0)
        close(x, math.sqrt(c["var"]) * unit, 1e-12, f"call {i}: random signal against one of unit variance",
              scale=max(1e-30, math.sqrt(c["var"]) * 10))
        check(prev is None or not (prev == unit).all(), f"call {i}: the generator did not advance")
        prev = unit
        # moments, 12 standard errors wide: no false alarm to 1e-30
        a, b = unit.real * math.sqrt(2), unit.imag * math.sqrt(2)
        if n >= 300:
            for what, v, m, sd in (("mean of the real part", a, 0, 1), ("mean of the imaginary part", b, 0, 1),
                                   ("variance of the real part", a * a, 1, math.sqrt(2)),
                                   ("variance of the imaginary part", b * b, 1, math.sqrt(2)),
                                   ("correlation of the parts", a * b, 0, 1)):
                check(abs(v.mean() - m) < 12 * sd / math.sqrt(n), f"call {i}: {what} is {v.mean()}, expected {m}")
    check((np.random.get_state()[1][:4] == state).all(), "the global random state was used")
    return ok(c["var"] > 0 and n >= 300, f"{c['calls']} calls")


SUBS = [
    Sub("rotate", rot(), run_rot, 3000, 20000, cost=0.01),
    Sub("rotate_history", history(), run_history, 1500, 8000, cost=0.01),
    Sub("views", views(), run_view, 800, 4000, cost=0.01),
    Sub("upsample", ups(), run_ups, 4000, 20000, cost=0.01),
    Sub("random", rnd(), run_rnd, 800, 10000, cost=0.002),
]
