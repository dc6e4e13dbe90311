import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet

ID = "C14"
RULE = ("cases draw a function kind, a bandlimit, its parameters (as keywords, as command-line integers or partly left "
        "to their defaults), regions and noise; non-trivial when the coefficients are not all zero and L > 1; distinct "
        "by the drawn case")
ASSUMPTIONS = ["samples are transformed by pyssht's exact transform of the sampling scheme",
               "the Gaussian's exponent uses l(l+1)"]

F = sleplet.functions


# ------------------------------------------------------------------ harmonic kinds
@st.composite
def harmonic(draw):
    c = draw(kinds.harmonic(1, 20, tail=72))
    c["noise"] = draw(st.one_of(st.none(), st.none(), st.integers(-10, 30)))
    c["region"] = draw(st.one_of(st.none(), st.none(), gen.region_spec(arbitrary=False)))
    return c


def run_harmonic(c):
    L = c["L"]
    kw = {} if c["region"] is None else {"region": subj.region_of(c["region"], L)}
    f = kinds.build(c, **kw)
    ref = kinds.judge(f, c)
    what = kinds.describe(c)
    check(isinstance(f.reality, (bool, np.bool_)), f"reality of {what} is {f.reality!r}")
    if f.reality:
        kinds.conjugate_symmetric(f.coefficients, L, 1e-12, what)
        if c["noise"] is not None:
            g = kinds.build(c, noise=c["noise"], **kw)
            check(g.reality == f.reality, f"noise changes the reality of {what}")
            if np.isfinite(np.asarray(g.coefficients)).all():
                kinds.conjugate_symmetric(g.coefficients, L, 1e-12, f"noised {what}")
        # what the flag is for: synthesis as a real field loses nothing
        full = o.synth_grid(np.asarray(f.coefficients), L)
        real = sleplet.harmonic_methods.invert_flm_boosted(np.asarray(f.coefficients), L, L, reality=True)
        close(real, full.real, 1e-9, f"real synthesis of {what}", scale=max(1e-9, abs(full).max()))
        close(full.imag, np.zeros(full.shape), 1e-9, f"imaginary part of {what}", scale=max(1e-9, abs(full).max()))
    first = np.array(f.coefficients)
    if f.coefficients.flags.writeable:
        f.coefficients[:] = 7  # must not reach later objects
    again = kinds.build(c, **kw)
    check((np.asarray(again.coefficients) == first).all(), f"{what} differs when built again")
    return ok(L > 1 and bool(np.any(ref != 0)), c["name"], c["how"])


# ------------------------------------------------------------------ Slepian kinds
@st.composite
def slepian(draw):
    L = draw(st.integers(2, 7))
    name = draw(st.sampled_from(["Slepian", "Slepian", "SlepianDiracDelta", "SlepianIdentity", "SlepianWavelets"]))
    return {"L": L, "name": name, "region": draw(gen.region_spec()), "rank": draw(st.integers(0, 60)),
            "w": draw(kinds.wavelet_args(L * L)), "how": draw(st.sampled_from(["keyword", "cli"]))}


def run_slepian(c):
    L, name = c["L"], c["name"]
    sl = subj.slepian_of(c["region"], L)
    N = int(sl.N)
    env.fresh_data()  # with eigenvectors beyond the Shannon number left unsaved (C17)
    R = subj.region_of(c["region"], L)
    cli = c["how"] == "cli"
    if name == "Slepian":
        r = c["rank"] % (L * L)
        f = F.Slepian(L, region=R, **({"extra_args": [r]} if cli else {"rank": r}))
        V = np.asarray(f.slepian.eigenvectors)
        ref = V[:N].conj() @ V[r]
        close(f.coefficients, ref, 1e-10, f"Slepian function of rank {r}")
        if r < N:
            close(f.coefficients, np.eye(L * L)[r][:N], 1e-8, f"Slepian function of rank {r}")
        else:
            close(f.coefficients, np.zeros(N), 1e-8, f"Slepian function of rank {r} beyond the Shannon number")
    elif name == "SlepianIdentity":
        f = F.SlepianIdentity(L, region=R)
        check((as_array(f.coefficients, (L * L,), "Slepian identity") == 1).all(), "Slepian identity is not all ones")
    elif name == "SlepianWavelets":
        w = c["w"]
        kw = {"extra_args": [w["B"], w["j_min"], w["j"]]} if cli and w["j"] is not None else w
        f = F.SlepianWavelets(L, region=R, **kw)
        row = 0 if w["j"] is None else w["j"] + 1
        got = as_array(f.coefficients, (L * L,), "Slepian wavelet")
        close(got * abs(got), o.kappas(L * L, w["B"], w["j_min"])[row], 2e-4, "squared Slepian wavelet")
    else:
        f = F.SlepianDiracDelta(L, region=R)
        V = np.asarray(f.slepian.eigenvectors)
        S = np.stack([o.synth_grid(v, L) for v in V[:N]]) if N else np.zeros((0, L + 1, 2 * L))
        s0 = o.synth_grid(V[0], L)
        got = as_array(f.coefficients, (L * L,), "Slepian Dirac delta")
        # any of the samples that attain the maximum of the first function
        cand = np.argwhere(s0.real >= s0.real.max() - 1e-9 * max(1, abs(s0).max()))
        err = min(abs(got[:N] - S[:, a, b].conj()).max(initial=0) for a, b in cand)
        check(err <= 1e-8 * max(1, abs(S).max(initial=0)),
              f"Slepian Dirac delta differs by {err:.2e} from the functions at the maximum of the first")
        check((got[N:] == 0).all(), "Slepian Dirac delta has coefficients beyond the Shannon number")
    check(f.spin == 0, f"spin of {name} is {f.spin}")
    check(not f.reality, f"{name} is marked real")
    check(int(f.slepian.N) == N, f"{name} uses another Shannon number: {f.slepian.N}, expected {N}")
    first = np.array(f.coefficients)
    f.coefficients[...] = 5
    if name != "SlepianDiracDelta":
        kw = {k: getattr(f, k) for k in ("rank", "B", "j_min", "j") if hasattr(f, k) and name in ("Slepian", "SlepianWavelets")}
        if name == "Slepian" and kw["rank"] >= N:
            env.fresh_data()
            R = subj.region_of(c["region"], L)
        again = getattr(F, name)(L, region=R, **kw)
        close(again.coefficients, first, 1e-12, f"{name} built again")
    return ok(N > 0 and bool(np.any(first != 0)), name, c["region"]["type"])


# ------------------------------------------------------------------ several objects in one process
POOL = [0.1, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 5, 7.5, 10, 20]


@st.composite
def company(draw):
    """Objects alike in kind, bandlimit or the printed form of their parameters."""
    n = draw(st.integers(2, 4))
    name = draw(st.sampled_from(kinds.NAMES))
    first = draw(kinds.harmonic(2, 12, [name]))
    out = []
    for _ in range(n):
        c = draw(kinds.harmonic(first["L"], first["L"], [name])) if draw(st.booleans()) else \
            draw(kinds.harmonic(max(2, first["L"] - 1), first["L"] + 1))
        if c["name"] in kinds.WIDTHS:
            c["p"] = {k: {"v": draw(st.sampled_from(POOL))} for k in c["p"]}
        c["how"] = "keyword"
        c["drop"] = []
        c["noise"] = draw(st.sampled_from([None, None, 10]))
        out.append(c)
    order = draw(st.lists(st.integers(0, n - 1), max_size=3))
    return {"objects": out, "again": order}


def run_company(c):
    objects = c["objects"]
    built = []
    for i in list(range(len(objects))) + list(c["again"]):
        b = objects[i]
        if b["noise"] is not None and np.any(kinds.reference(b)[0]):
            kinds.build(b, noise=b["noise"])  # a noised twin must not reach the others
        f = kinds.build(b)
        kinds.judge(f, b)
        built.append((f, b))
        f.coefficients  # noqa: B018
    for f, b in built:
        kinds.judge(f, b, f"{kinds.describe(b)}, after others were made")
    for f, b in built:
        if isinstance(f.coefficients, np.ndarray) and f.coefficients.flags.writeable:
            f.coefficients[...] = 5
    for b in objects:
        kinds.judge(kinds.build(b), b, f"{kinds.describe(b)}, made after earlier coefficients were overwritten")
    same = len({(b["name"], b["L"]) for b in objects}) < len(objects)
    return ok(same, *{b["name"] for b in objects})


SUBS = [
    Sub("company", company(), run_company, 600, 10000, cost=0.03),
    Sub("harmonic", harmonic(), run_harmonic, 4000, 60000, cost=0.006),
    Sub("slepian", slepian(), run_slepian, 900, 9000, cost=0.06),
]
