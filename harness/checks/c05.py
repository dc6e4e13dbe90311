import math

import numpy as np
from hypothesis import strategies as st

import pyssht as ssht

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close, fail

import sleplet
import sleplet._mask_methods

ID = "C05"
RULE = ("cases draw each of the four limits from its default, the neighbouring floats, out-of-range values, whole "
        "degrees, exact grid angles and reals, plus a mask name and environment settings; non-trivial when at least "
        "one limit or the mask name is set; distinct by the drawn case")
ASSUMPTIONS = ["samples whose membership differs between the two exact ways of writing the lower cap's limit "
               "(theta >= pi - theta_max, pi - theta <= theta_max) are not judged"]

PI, TAU = math.pi, 2 * math.pi
S = sleplet.slepian


def limit(lo, hi, default):
    inside = st.one_of(st.floats(lo, hi), st.integers(0, round(math.degrees(hi))).map(math.radians).filter(lambda x: x <= hi),
                       st.integers(0, 16).map(lambda k: k * hi / 16))
    edge = st.sampled_from([lo, hi, math.nextafter(lo, 9), math.nextafter(hi, 0), 1e-9, hi - 1e-9, PI, PI / 2, 0.0])
    out = st.sampled_from([math.nextafter(lo, -9), math.nextafter(hi, 9), -1e-9, hi + 1e-9, -1.0, 7.0, 180.0, -360.0])
    return st.one_of(st.just(default), st.just(default), inside, edge, out)


@st.composite
def limits(draw):
    return {"theta_min": draw(limit(0.0, PI, 0.0)), "theta_max": draw(limit(0.0, PI, PI)),
            "phi_min": draw(limit(0.0, TAU, 0.0)), "phi_max": draw(limit(0.0, TAU, TAU)),
            "mask": draw(st.sampled_from(["", "", "blob", "africa", "south_america"])),
            "gap": draw(st.booleans()), "given": draw(st.lists(st.booleans(), min_size=6, max_size=6))}


def expected_type(tmin, tmax, pmin, pmax, mask):
    if tmin == 0 and pmin == 0 and pmax == TAU and tmax != PI:
        return "polar"
    if tmin != 0 or pmin != 0 or pmax != TAU:
        return "lim_lat_lon"
    return "arbitrary" if mask else None


def run_classify(c):
    kw = {}
    for i, (k, d) in enumerate((("theta_min", 0.0), ("theta_max", PI), ("phi_min", 0.0), ("phi_max", TAU))):
        if c[k] != d or c["given"][i]:
            kw[k] = c[k]
    if c["mask"] or c["given"][4]:
        kw["mask_name"] = c["mask"]
    if c["gap"] or c["given"][5]:
        kw["gap"] = c["gap"]
    valid = (0 <= c["theta_min"] <= PI and 0 <= c["theta_max"] <= PI
             and 0 <= c["phi_min"] <= TAU and 0 <= c["phi_max"] <= TAU)
    want = expected_type(c["theta_min"], c["theta_max"], c["phi_min"], c["phi_max"], c["mask"]) if valid else "rejected"
    try:
        r = S.Region(**kw)
    except ValueError as e:
        check(want == "rejected", f"Region({kw}) was rejected: {e}")
        return ok(True, "rejected")
    except AttributeError:
        check(want is None, f"Region({kw}) raised AttributeError, expected {want}")
        return ok(True, "unspecified")
    check(want not in ("rejected", None), f"Region({kw}) accepted as {r._region_type}, expected an error")
    check(r._region_type == want, f"Region({kw}) is {r._region_type}, expected {want}")
    for k, v in kw.items():
        check(getattr(r, k) == v, f"Region({kw}).{k} is {getattr(r, k)!r}")
    return ok(True, want)


# ------------------------------------------------------------------ the object built for a region
def run_choose(c):
    L = c["L"]
    env.fresh_data()
    spec = c["region"]
    R = subj.region_of(spec, L)
    s = sleplet.slepian_methods.choose_slepian_method(L, R)
    cls = {"polar": S.SlepianPolarCap, "lim": S.SlepianLimitLatLon, "mask": S.SlepianArbitrary}[spec["type"]]
    check(type(s) is cls, f"{spec['type']} region gives {type(s).__name__}")
    check(s.L == L, f"bandlimit {s.L}, expected {L}")
    if spec["type"] == "polar":
        check(s.theta_max == spec["theta"] and s.gap == spec["gap"], "cap size or gap of the region lost")
        check(s.region.theta_max == spec["theta"] and s.region.gap == spec["gap"], "region of the object differs")
    elif spec["type"] == "lim":
        got = [s.theta_min, s.theta_max, s.phi_min, s.phi_max]
        check(got == spec["angles"], f"limits {got}, expected {spec['angles']}")
        r = s.region
        check([r.theta_min, r.theta_max, r.phi_min, r.phi_max] == spec["angles"], "region of the object differs")
    else:
        check(s.mask_name == R.mask_name, "mask name lost")
    g = 2 * L if spec["type"] == "mask" else L
    judge_mask(spec, g, s.mask)
    return ok(True, spec["type"])


@st.composite
def choose(draw):
    return {"L": draw(gen.bandlimit(1, 5)), "region": draw(gen.region_spec())}


# ------------------------------------------------------------------ masks
def judge_mask(spec, L, got):
    got = as_array(got, (L + 1, 2 * L), "mask").astype(bool)
    exp = subj.region_mask(spec, L)
    unsure = np.zeros_like(exp)
    if spec["type"] == "polar" and spec["gap"]:
        t, _ = o.grid(L)
        a, b = t >= PI - spec["theta"], PI - t <= spec["theta"]
        unsure = np.repeat((a != b)[:, None] & ~(t <= spec["theta"])[:, None], 2 * L, axis=1)
    bad = (got != exp) & ~unsure
    if bad.any():
        i, j = np.argwhere(bad)[0]
        t, p = o.grid(L)
        fail(f"mask of {spec} at L={L}: sample theta={t[i]!r}, phi={p[j]!r} is "
             f"{'inside' if got[i, j] else 'outside'}, expected the opposite")


@st.composite
def mask_case(draw):
    L = draw(gen.bandlimit(1, 24))
    kind = draw(st.sampled_from(["polar", "gap", "lim", "mask"]))
    t_grid = st.integers(0, L).map(lambda k: float(np.pi * np.arange(L + 1)[k] / L))
    p_grid = st.integers(0, 2 * L - 1).map(lambda k: float(np.pi * np.arange(2 * L)[k] / L))
    nudge = st.sampled_from([0, 0, 0, 1, -1])

    def nud(x, n, hi):
        return min(max(math.nextafter(x, 99 if n > 0 else -99) if n else x, 0.0), hi)

    th = st.one_of(st.tuples(t_grid, nudge).map(lambda x: nud(x[0], x[1], PI)), st.floats(0.0, PI))
    ph = st.one_of(st.tuples(p_grid, nudge).map(lambda x: nud(x[0], x[1], TAU)), st.floats(0.0, TAU))
    if kind in ("polar", "gap"):
        t = draw(th)
        if t == PI or t == 0:
            t = 1.0
        return {"L": L, "region": {"type": "polar", "theta": t, "gap": kind == "gap"}}
    if kind == "mask":
        return {"L": L, "region": {"type": "mask", "mask": draw(gen.mask_spec())}}
    a = [draw(th), draw(st.one_of(st.just(PI), th)), draw(ph), draw(st.one_of(st.just(TAU), ph))]
    a = sorted(a[:2]) + sorted(a[2:])
    if a[0] == 0 and a[2] == 0 and a[3] == TAU:
        a[3] = 5.0
    return {"L": L, "region": {"type": "lim", "angles": a}}


def run_mask(c):
    L, spec = c["L"], c["region"]
    env.fresh_data()
    R = subj.region_of(spec, L, masks_at=(L,))
    got = sleplet._mask_methods.create_mask_region(L, R)
    judge_mask(spec, L, got)
    o.scribble(got)
    judge_mask(spec, L, sleplet._mask_methods.create_mask_region(L, R))
    return ok(True, spec["type"] + ("-gap" if spec.get("gap") else ""))


# ------------------------------------------------------------------ masked signals
@st.composite
def masked_case(draw):
    L = draw(gen.bandlimit(1, 10))
    return {"L": L, "region": draw(gen.region_spec()), "sig": draw(gen.signal()), "real": draw(st.booleans()),
            "spin": draw(st.one_of(st.just(0), st.integers(-3, 3)))}


def run_masked(c):
    L, spin = c["L"], c["spin"]
    spin = 0 if abs(spin) >= L else spin
    env.fresh_data()
    fun = getattr(sleplet._mask_methods, "ensure_masked_flm_bandlimited", None)
    if fun is None:
        return ok(False, "absent")
    R = subj.region_of(c["region"], L, masks_at=(L,))
    real = c["real"] and spin == 0
    v = gen.vector(c["sig"], L * L)
    v = gen.hermitian(v, L) if real else v
    v[: spin * spin] = 0
    v0 = v.copy()
    got = as_array(fun(v, L, R, reality=real, spin=spin), (L * L,), "masked coefficients")
    mask = np.asarray(sleplet._mask_methods.create_mask_region(L, R)).astype(bool)
    f = ssht.inverse(v0.copy(), L, Method="MWSS", Spin=spin)
    ref = ssht.forward(np.where(mask, f, 0), L, Method="MWSS", Spin=spin)
    close(got, ref, 1e-10, f"masked signal of spin {spin}", scale=max(1e-30, abs(v0).max()) * L)
    check((v == v0).all(), "masking changed its input")
    some = bool(mask.any() and not mask.all() and np.any(v0))
    return ok(some, "real" if real else f"spin{spin}", c["region"]["type"])


# ------------------------------------------------------------------ wrong shapes
@st.composite
def shape_case(draw):
    L = draw(gen.bandlimit(1, 5))
    return {"L": L, "dt": draw(st.integers(-2, 3)), "dp": draw(st.integers(-2, 3)),
            "T": draw(st.booleans()), "via": draw(st.sampled_from(["object", "mask"]))}


def run_shape(c):
    L = c["L"]
    env.fresh_data()
    g = 2 * L if c["via"] == "object" else L
    shape = (max(1, g + 1 + c["dt"]), max(1, 2 * g + c["dp"]))
    if c["T"]:
        shape = shape[::-1]
    good = shape == (g + 1, 2 * g)
    m = np.ones(shape, bool)
    m[0] = False
    subj.save_mask(m, "odd", g)
    try:
        if c["via"] == "object":
            got = S.SlepianArbitrary(L, "odd").mask
        else:
            got = sleplet._mask_methods.create_mask_region(L, S.Region(mask_name="odd"))
    except Exception as e:  # noqa: BLE001
        check(not good, f"a mask of the right shape {shape} at L={g} was rejected: {e!r}")
        return ok(True, "rejected")
    check(good, f"a mask of shape {shape} was accepted at L={g}")
    check((np.asarray(got).astype(bool) == m).all(), "the loaded mask differs from the file")
    return ok(True, "accepted")


# ------------------------------------------------------------------ environment defaults
ENV_KEYS = ("THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN", "POLAR_GAP", "SLEPIAN_MASK")


@st.composite
def env_case(draw):
    def deg(default, lo, hi):
        return st.one_of(st.none(), st.just(default), st.integers(lo, hi))

    return {"L": draw(gen.bandlimit(1, 4)),
            "THETA_MAX": draw(deg(180, 1, 180)), "THETA_MIN": draw(deg(0, 0, 80)),
            "PHI_MAX": draw(deg(360, 200, 360)), "PHI_MIN": draw(deg(0, 0, 190)),
            "POLAR_GAP": draw(st.sampled_from([None, None, "True", "true", "TRUE", "False", "false", "no", "", "0"])),
            "SLEPIAN_MASK": draw(st.sampled_from([None, "blob", "africa", "south_america"])),
            "bad": draw(st.one_of(st.none(), st.none(), st.tuples(
                st.sampled_from(["THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN"]),
                st.one_of(st.integers(-400, -1), st.integers(1, 400)), st.booleans()))),
            "mask": draw(gen.mask_spec())}


def run_env(c):
    if c.get("bad"):  # the environment is validated as the arguments are
        key, off, cli = c["bad"]
        value = off if off < 0 else off + (180 if key.startswith("THETA") else 360)
        with env.environ(**{**{k: None for k in ENV_KEYS}, "POLAR_GAP": c["POLAR_GAP"], key: value}):
            try:
                r = (sleplet.functions.SlepianIdentity(2).region if cli
                     else sleplet._mask_methods.create_default_region())
            except Exception:
                return ok(True, "refused")
        check(False, f"{key}={value} in the environment gives the region {r}")
    L = c["L"]
    env.fresh_data()
    tmax = c["THETA_MAX"] if c["THETA_MAX"] is not None else 180
    tmin = c["THETA_MIN"] if c["THETA_MIN"] is not None else 0
    pmax = c["PHI_MAX"] if c["PHI_MAX"] is not None else 360
    pmin = c["PHI_MIN"] if c["PHI_MIN"] is not None else 0
    if tmin >= tmax:
        tmax = tmin + 5
        c = {**c, "THETA_MAX": tmax}
    gap = (c["POLAR_GAP"] or "").lower() == "true"
    rad = [float(np.deg2rad(x)) for x in (tmin, tmax, pmin, pmax)]
    want = expected_type(*rad, "x")
    if want == "polar" and gap and tmax > 90:
        c = {**c, "THETA_MAX": 90}
        rad[1] = float(np.deg2rad(90))
    name = c["SLEPIAN_MASK"] if c["SLEPIAN_MASK"] is not None else "south_america"
    subj.save_mask(gen.build_mask(c["mask"], 2 * L), name, 2 * L)
    subj.save_mask(gen.build_mask(c["mask"], L), name, L)
    keys = ENV_KEYS
    with env.environ(**{k: c[k] for k in keys}):
        f = sleplet.functions.SlepianIdentity(L)
    r = f.region
    check(r._region_type == want, f"environment { {k: c[k] for k in keys} } gives {r._region_type}, expected {want}")
    got = [r.theta_min, r.theta_max, r.phi_min, r.phi_max]
    check(np.allclose(got, rad, rtol=0, atol=1e-14), f"limits from the environment {got}, expected {rad}")
    check(r.gap == gap, f"POLAR_GAP={c['POLAR_GAP']} gives gap={r.gap}")
    check(r.mask_name == name, f"mask {r.mask_name!r}, expected {name!r}")
    cls = {"polar": S.SlepianPolarCap, "lim_lat_lon": S.SlepianLimitLatLon, "arbitrary": S.SlepianArbitrary}[want]
    check(type(f.slepian) is cls, f"{want} region from the environment built {type(f.slepian).__name__}")
    if want == "polar":
        check(f.slepian.gap == gap and abs(f.slepian.theta_max - rad[1]) < 1e-14, "cap built with other limits")
    if want == "lim_lat_lon":
        s = f.slepian
        check(np.allclose([s.theta_min, s.theta_max, s.phi_min, s.phi_max], rad, rtol=0, atol=1e-14),
              "rectangle built with other limits")
    return ok(want != "arbitrary" or c["SLEPIAN_MASK"] is not None, want, "gap" if gap else "no gap")


# ------------------------------------------------------------------ object validators
@st.composite
def obj_case(draw):
    return {"L": draw(gen.bandlimit(1, 6)), "kind": draw(st.sampled_from(["theta", "order", "lim"])),
            "x": draw(st.one_of(st.floats(-1, 8), st.sampled_from([0.0, PI, TAU, math.nextafter(PI, 9), -0.5]))),
            "m": draw(st.integers(-9, 9)), "which": draw(st.integers(0, 3))}


def run_obj(c):
    L = c["L"]
    env.fresh_data()
    if c["kind"] == "theta":
        good = 0 < c["x"] < PI
        build = lambda: S.SlepianPolarCap(L, c["x"])  # noqa: E731
    elif c["kind"] == "order":
        good = abs(c["m"]) < L
        build = lambda: S.SlepianPolarCap(L, 1.0, order=c["m"])  # noqa: E731
    else:
        a = [0.4, 2.0, 0.3, 3.0]
        a[c["which"]] = c["x"]
        bound = PI if c["which"] < 2 else TAU
        good = 0 <= c["x"] <= bound and a[0] < a[1] and a[2] < a[3]
        if 0 <= c["x"] <= bound and not good:
            return ok(False, "inverted")
        build = lambda: S.SlepianLimitLatLon(L, theta_min=a[0], theta_max=a[1], phi_min=a[2], phi_max=a[3])  # noqa: E731
    try:
        build()
    except Exception as e:  # noqa: BLE001
        check(not good, f"a valid request {c} was rejected: {e!r}")
        return ok(True, c["kind"], "rejected")
    check(good, f"an invalid request {c} was accepted")
    return ok(True, c["kind"], "accepted")


SUBS = [
    Sub("classify", limits(), run_classify, 6000, 60000, cost=0.002),
    Sub("choose", choose(), run_choose, 600, 5000, cost=0.02),
    Sub("mask", mask_case(), run_mask, 5000, 50000, cost=0.004),
    Sub("masked", masked_case(), run_masked, 1200, 12000, cost=0.01),
    Sub("shape", shape_case(), run_shape, 400, 3000, cost=0.01),
    Sub("environment", env_case(), run_env, 600, 5000, cost=0.02),
    Sub("validators", obj_case(), run_obj, 500, 4000, cost=0.01),
]
