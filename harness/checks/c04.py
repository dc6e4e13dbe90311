import numpy as np
from hypothesis import strategies as st

import env
import gen
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close, fail

import sleplet

ID = "C04"
RULE = ("cases draw a region of one of the three kinds, bandlimit, signal shape (dense, sparse, single, real, zero, "
        "low/high degrees), input form, masks and number of coefficients; non-trivial when the signal is not zero "
        "and at least one coefficient is requested; distinct by the drawn case")
ASSUMPTIONS = ["the Slepian functions of the object are taken as given (C01-C03 decide them)",
               "region samples are compared relative to the size of the integrand divided by the eigenvalue"]


@st.composite
def fwd(draw, lo, hi, arbitrary=True):
    L = draw(gen.bandlimit(lo, hi))
    return {"L": L, "region": draw(gen.region_spec(arbitrary=arbitrary)), "sig": draw(gen.signal()),
            "form": draw(st.sampled_from(["flm", "f", "f_real", "mask", "mask_other", "flm+f", "flm+f+mask"])),
            "n": draw(st.one_of(st.none(), st.integers(0, L * L))),
            "mseed": draw(gen.seeds()), "boolmask": draw(st.booleans())}


def run_fwd(c):
    L = c["L"]
    s = subj.slepian_of(c["region"], L)
    N, n = int(s.N), c["n"]
    k = N if n is None else n
    vecs = as_array(s.eigenvectors)[:k]
    lam = as_array(s.eigenvalues)[:k]
    if len(vecs) < k:
        fail(f"only {len(vecs)} Slepian functions for {k} ranks")
    v = gen.vector(c["sig"], L * L)
    w = o.grid_weight(L)
    form = c["form"]
    rng_f = gen.vector({**c["sig"], "seed": c["sig"]["seed"] + 1, "kind": "dense"}, (L + 1) * 2 * L).reshape(L + 1, 2 * L)
    field = rng_f if c["sig"]["at"] % 2 else o.synth_grid(v, L)
    if form == "f_real":
        field = field.real.copy()
    kw = {}
    if "flm" in form:
        kw["flm"] = v.copy()
    if "f" in form.replace("flm", "") or form.startswith("mask"):
        kw["f"] = field.copy()
    mask = None
    if "mask" in form:
        if form == "mask":
            mask = subj.region_mask(c["region"], L)
        else:
            mask = np.random.default_rng(c["mseed"]).random((L + 1, 2 * L)) < 0.5
        kw["mask"] = mask if c["boolmask"] else mask.astype(float)
    if n is not None:
        kw["n_coeffs"] = n
    got = sleplet.slepian_methods.slepian_forward(L, s, **kw)
    got = as_array(got, (k,), "Slepian coefficients")
    if "flm" in form:
        exp = vecs.conj() @ v
        size = np.abs(vecs) @ np.abs(v)
    else:
        S = np.array([o.synth_grid(e, L) for e in vecs]).reshape(k, L + 1, 2 * L)
        ww = w if mask is None else w * mask
        exp = (S.conj() * field * ww).sum(axis=(1, 2))
        size = (np.abs(S) * np.abs(field) * ww).sum(axis=(1, 2))
        if mask is not None:
            exp, size = exp / lam, size / np.abs(lam)
    for name, arr in kw.items():
        ref = {"flm": v, "f": field, "mask": mask}.get(name)
        if ref is not None:
            check((np.asarray(arr) == ref).all(), f"the input {name} was modified")
    if k:
        bad = np.abs(got - exp) > 1e-9 * (size + abs(c["sig"]["scale"]) * 1e-3) * (1 if mask is None else 1 / np.minimum(np.abs(lam), 1))
        check(not bad.any(), lambda: f"coefficient of rank {int(np.argmax(bad))} by {form}: "
              f"{got[np.argmax(bad)]}, expected {exp[np.argmax(bad)]} (N={N})")
    return ok(k > 0 and c["sig"]["kind"] != "zero", c["region"]["type"], form, "default n" if n is None else "n")


@st.composite
def inv(draw, lo, hi, arbitrary=True):
    L = draw(gen.bandlimit(lo, hi))
    return {"L": L, "region": draw(gen.region_spec(arbitrary=arbitrary)), "sig": draw(gen.signal()),
            "extra": draw(st.integers(0, L * L)), "real": draw(st.booleans())}


def run_inv(c):
    L = c["L"]
    s = subj.slepian_of(c["region"], L)
    N = int(s.N)
    n = min(L * L, N + c["extra"])
    f_p = gen.vector(c["sig"], n, complex_=not c["real"])
    scale = max(1e-30, np.abs(f_p).max()) * L if n else 1.0
    vecs = as_array(s.eigenvectors)
    coef = f_p[:N] @ vecs[:N] if N else np.zeros(L * L, complex)
    keep = f_p.copy()
    got = sleplet.slepian_methods.slepian_inverse(f_p, L, s)
    check((f_p == keep).all(), "the coefficients given to the inverse were modified")
    close(as_array(got, (L + 1, 2 * L), "inverse"), o.synth_grid(coef, L), 1e-10, "Slepian inverse", scale)
    # span round trip
    back = sleplet.slepian_methods.slepian_forward(L, s, flm=coef)
    close(as_array(back, (N,), "forward"), f_p[:N], 1e-9, "recovery of a signal in the span", scale)
    again = sleplet.slepian_methods.slepian_inverse(np.asarray(back), L, s)
    close(again, o.synth_grid(coef, L), 1e-9, "synthesis of the recovered coefficients", scale)
    sp = sleplet.slepian_methods.compute_s_p_omega(L, s)
    sp = as_array(sp, (N, L + 1, 2 * L), "Sp(omega)")
    if N:
        close(sp, np.array([o.synth_grid(e, L) for e in vecs[:N]]), 1e-10, "Sp(omega)", L)
    o.scribble(sp)
    o.scribble(got)
    again = sleplet.slepian_methods.slepian_inverse(np.asarray(back), L, s)
    close(again, o.synth_grid(coef, L), 1e-9, "synthesis after the results of an earlier one were overwritten", scale)
    return ok(N > 0 and c["sig"]["kind"] != "zero", c["region"]["type"], f"N{'=' if n == N else '<'}n")


def run_any(c):
    return (run_fwd if "form" in c else run_inv)(c)


@st.composite
def hist(draw):
    L = draw(gen.bandlimit(2, 5))
    return {"L": L, "region": draw(gen.region_spec()), "sig": draw(gen.signal(["dense", "real", "sparse"])),
            "form": draw(st.sampled_from(["flm", "f", "mask"])),
            "ranks": draw(st.lists(st.integers(-2, L * L + 2), min_size=1, max_size=8))}


def run_hist(c):
    from sleplet.slepian._slepian_decomposition import SlepianDecomposition

    L = c["L"]
    s = subj.slepian_of(c["region"], L)
    v = gen.vector(c["sig"], L * L)
    field = o.synth_grid(v, L)
    mask = subj.region_mask(c["region"], L)
    kw = {"flm": {"flm": v}, "f": {"f": field}, "mask": {"f": field, "mask": mask}}[c["form"]]
    d = SlepianDecomposition(L, s, **kw)
    w = o.grid_weight(L)
    seen = 0
    for r in c["ranks"]:
        if not 0 <= r < L * L:
            try:
                x = d.decompose(r)
            except ValueError:
                continue
            fail(f"rank {r} outside 0..{L * L - 1} gave {x}")
        e, lam = s.eigenvectors[r], s.eigenvalues[r]
        x = d.decompose(r)
        if c["form"] == "flm":
            exp, size = (v * e.conj()).sum(), (abs(v) * abs(e)).sum()
        else:
            S = o.synth_grid(e, L)
            ww = w * (mask if c["form"] == "mask" else 1)
            q = lam if c["form"] == "mask" else 1
            exp = (ww * field * S.conj()).sum() / q
            size = (ww * abs(field) * abs(S)).sum() / abs(q) + 1e-3 * abs(c["sig"]["scale"]) / min(1, abs(q))
        if not np.isfinite(size):  # divided by an eigenvalue of zero
            continue
        check(abs(x - exp) <= 1e-9 * (size + 1e-3 * abs(c["sig"]["scale"])), f"rank {r} by {c['form']}: {x}, expected {exp}")
        seen += 1
    return ok(seen > 0, c["form"], "bad rank" if seen < len(c["ranks"]) else "good ranks")


@st.composite
def company(draw):
    L = draw(gen.bandlimit(2, 6))
    thetas = [draw(st.floats(0.15, 1.5)) for _ in range(2)]
    region = draw(gen.region_spec())
    members = []
    for _ in range(draw(st.integers(2, 5))):
        if draw(st.integers(0, 3)):
            members.append({"theta": draw(st.sampled_from(thetas)), "gap": draw(st.booleans()),
                            "order": draw(st.one_of(st.none(), st.integers(1 - L, L - 1)))})
        else:
            members.append({"region": draw(st.sampled_from([region, draw(gen.region_spec())])), "L": draw(st.sampled_from([L, L + 1]))})
    k = len(members) - 1
    return {"L": L, "members": members, "sig": draw(gen.signal(["dense", "real", "sparse"])),
            "ops": draw(st.lists(st.tuples(st.integers(0, k), st.sampled_from(["s_p", "inverse", "flm", "f"])), min_size=2, max_size=10))}


def run_company(c):
    """Objects of the same and of different regions, orders and bandlimits used in turn, some of them short-lived."""
    alive, used = {}, set()
    for i, op in c["ops"]:
        m = c["members"][i]
        L = m.get("L", c["L"])
        if i not in alive:
            env.fresh_data()
            if "region" in m:
                alive[i] = sleplet.slepian_methods.choose_slepian_method(L, subj.region_of(m["region"], L))
            else:
                alive[i] = sleplet.slepian.SlepianPolarCap(L, m["theta"], gap=m["gap"], order=m["order"])
        s = alive[i] if i % 2 else alive.pop(i)
        vecs = as_array(s.eigenvectors)
        N = int(s.N)
        used.add(i)
        v = gen.vector(c["sig"], L * L)
        what = f"{op} of {m} after others"
        if op in ("s_p", "inverse"):
            if N > len(vecs):  # one order may have fewer functions than the Shannon number of the region
                continue
            S = np.array([o.synth_grid(e, L) for e in vecs[:N]]).reshape(N, L + 1, 2 * L)
            if op == "s_p":
                got = sleplet.slepian_methods.compute_s_p_omega(L, s)
                close(as_array(got, S.shape, "Sp(omega)"), S, 1e-10, what, L)
            else:
                got = sleplet.slepian_methods.slepian_inverse(v, L, s)
                close(as_array(got, (L + 1, 2 * L), "inverse"), np.tensordot(v[:N], S, axes=1), 1e-10, what, max(1e-30, abs(v).max()) * L)
            o.scribble(got)
            continue
        n = min(N, len(vecs))
        S = vecs[:n]
        got = sleplet.slepian_methods.slepian_forward(L, s, n_coeffs=n, **({"flm": v} if op == "flm" else {"f": o.synth_grid(v, L)}))
        if op == "flm":
            exp = S.conj() @ v
        else:
            G = np.array([o.synth_grid(e, L) for e in S]).reshape(n, L + 1, 2 * L)
            exp = (G.conj() * o.synth_grid(v, L) * o.grid_weight(L)).sum(axis=(1, 2))
        close(as_array(got, (n,), "coefficients"), exp, 1e-9, what, max(1e-30, abs(v).max()) * L * L)
        o.scribble(got)
    return ok(len(used) > 1, f"{len(used)} objects")


@st.composite
def errs(draw):
    L = draw(gen.bandlimit(1, 4))
    return {"L": L, "region": draw(gen.region_spec()), "what": draw(st.sampled_from(["none", "mask only", "too many"])),
            "by": draw(st.integers(1, 5))}


def run_err(c):
    L = c["L"]
    s = subj.slepian_of(c["region"], L)
    kw = {"none": {}, "mask only": {"mask": np.ones((L + 1, 2 * L))},
          "too many": {"flm": np.ones(L * L, complex), "n_coeffs": L * L + c["by"]}}[c["what"]]
    want = ValueError if c["what"] == "too many" else RuntimeError
    try:
        r = sleplet.slepian_methods.slepian_forward(L, s, **kw)
    except (want, ValueError, RuntimeError):
        return ok(True, c["what"])
    fail(f"forward transform with {c['what']} gave {r!r:.80} instead of an error")


SUBS = [
    Sub("forward", fwd(1, 7), run_fwd, 1000, 12000, cost=0.06),
    Sub("forward_large", fwd(8, 12), run_fwd, 80, 2000, cost=0.5),
    Sub("inverse", inv(1, 7), run_inv, 700, 9000, cost=0.06),
    Sub("inverse_large", inv(8, 12), run_inv, 48, 1500, cost=0.5),
    Sub("huge", st.one_of(fwd(13, 20, False), inv(13, 20, False)), run_any, 24, 300, cost=1.5),
    Sub("ranks", hist(), run_hist, 300, 4000, cost=0.05),
    Sub("company", company(), run_company, 250, 3000, cost=0.1),
    Sub("errors", errs(), run_err, 80, 600, shards=2, cost=0.04),
]
