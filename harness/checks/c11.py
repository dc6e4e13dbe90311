import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen as mg
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close

import sleplet
import sleplet._mask_methods

ID = "C11"
RULE = ("cases draw meshes with regions (empty, partial, whole, vertices exactly on the limits), basis sizes, signals "
        "given in each of the three forms, numbers of coefficients, ranks and wavelet parameters; non-trivial when the "
        "region holds some but not all vertices and the Shannon number is positive; distinct by the drawn case")
ASSUMPTIONS = ["mesh signals are real, as the mesh transforms return real numbers",
               "masked signals are divided by the eigenvalue, so only ranks with eigenvalue above 1e-6 are compared",
               "generated meshes stand in for the bundled files by replacing the file readers (igl, tomli)"]

S = sleplet.slepian_methods
M = sleplet.meshes
_memo = {}


@st.composite
def mesh_case(draw):
    return {"mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(1, 24))}


def setup(c):
    """Mesh, its Slepian functions, basis, reference region."""
    import json

    key = json.dumps([c["mesh"], c["k"]], sort_keys=True)
    if key not in _memo:
        if len(_memo) > 60:
            _memo.clear()
        n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
        m, g = mg.memo_mesh(c["mesh"], min(c["k"], n - 1))
        env.fresh_data()
        _memo[key] = (m, M.MeshSlepian(m), mg.region_of(np.asarray(m.vertices), g["cfg"]))
    m, s, reg = _memo[key]
    return m, s, np.asarray(m.basis_functions), reg


def interesting(reg, s):
    return bool(0 < reg.sum() < len(reg)) and s.N > 0


def label(reg):
    return "partial" if 0 < reg.sum() < len(reg) else "whole" if reg.any() else "empty"


# ------------------------------------------------------------------ eigenproblem
def run_eigen(c):
    m, s, B, reg = setup(c)
    k, n = B.shape
    check(subj.shannon_ok(s.N, reg.sum() / n * k), f"Shannon number {s.N} of {reg.sum()} of {n} vertices, {k} functions")
    D = (B * reg) @ B.T
    ev = as_array(s.slepian_eigenvalues, (k,), "eigenvalues")
    o.check_eigen(D, ev, s.slepian_functions, "mesh Slepian", tol=1e-8)
    check(ev.min() >= -1e-8 and ev.max() <= 1 + 1e-8, f"eigenvalues in [{ev.min()}, {ev.max()}]")
    check(s.mesh is m or (np.asarray(s.mesh.basis_functions) == B).all(), "the mesh is not the given one")
    return ok(interesting(reg, s), label(reg), c["mesh"]["base"], "N=0" if s.N == 0 else "N=k" if s.N == k else "N<k")


# ------------------------------------------------------------------ transforms
@st.composite
def trans(draw):
    c = draw(mesh_case())
    c["form"] = draw(st.sampled_from(["u_i", "u", "masked", "both"]))
    c["n"] = draw(st.one_of(st.none(), st.integers(0, 25)))
    c["sig"] = draw(gen.signal())
    c["complex"] = draw(st.integers(0, 2)) == 0
    c["len"] = draw(st.sampled_from(["N", "k"]))
    return c


def run_trans(c):
    m, s, B, reg = setup(c)
    k, n = B.shape
    V = np.asarray(s.slepian_functions)
    ev = np.asarray(s.slepian_eigenvalues)
    nc = None if c["n"] is None else min(c["n"], k)
    want = s.N if nc is None else nc
    a = {} if nc is None else {"n_coeffs": nc}
    x = gen.vector(c["sig"], k, complex_=c["complex"])
    u = gen.vector({**c["sig"], "seed": c["sig"]["seed"] + 3}, n, complex_=c["complex"])
    x0, u0 = x.copy(), u.copy()
    scale = max(1e-30, abs(x).max(), abs(u).max()) * n
    good = np.ones(want, bool)
    if c["form"] == "u_i":
        got = S.slepian_mesh_forward(s, u_i=x, **a)
        ref = V @ x0
    elif c["form"] == "u":
        got = S.slepian_mesh_forward(s, u=u, **a)
        ref = V @ (B @ u0)
    elif c["form"] == "masked":
        got = S.slepian_mesh_forward(s, u=u, mask=True, **a)
        with np.errstate(all="ignore"):
            ref = V @ (B @ (u0 * reg)) / ev
        good = ev[:want] > 1e-6
    else:  # the coefficients take precedence over the samples of the same function
        got = S.slepian_mesh_forward(s, u_i=x, u=x @ B, **a)
        ref = V @ x0
    got = as_array(got, (want,), "Slepian coefficients")
    lam = np.minimum(1, ev[:want])[good] if c["form"] == "masked" else 1
    close((got[good] * lam), (ref[:want][good] * lam), 1e-9, f"Slepian coefficients from {c['form']}", scale=scale)
    check((x == x0).all() and (u == u0).all(), "the transform changed its input")

    N = int(s.N)
    p = gen.vector({**c["sig"], "seed": c["sig"]["seed"] + 7}, N if c["len"] == "N" else k, complex_=c["complex"])
    p0 = p.copy()
    ps = max(1e-30, abs(p).max(initial=0)) * k
    f = as_array(S.slepian_mesh_inverse(s, p), (n,), "samples")
    close(f, p0[:N] @ (V[:N] @ B), 1e-9, "Slepian inverse transform", scale=ps)
    check((p == p0).all(), "the inverse transform changed its input")
    if N:
        close(S.slepian_mesh_forward(s, u=f), p0[:N], 1e-8, "signal in the span of the Slepian functions", scale=ps)
        if ev[N - 1] > 1e-3:
            close(S.slepian_mesh_forward(s, u=f * reg, mask=True), p0[:N], 1e-6,
                  "signal in the span, from its samples within the region", scale=ps)
    masked = getattr(sleplet._mask_methods, "ensure_masked_bandlimit_mesh_signal", None)
    if masked is not None:
        v = as_array(masked(m, x), (k,), "coefficients of the masked signal")
        close(v, B @ (reg * (x0 @ B)), 1e-10, "coefficients of the masked signal", scale=scale)
        check((x == x0).all(), "masking changed its input")
    return ok(interesting(reg, s) and np.any(x0 != 0), c["form"], label(reg), "complex" if c["complex"] else "real")


# ------------------------------------------------------------------ functions
@st.composite
def funs(draw):
    c = draw(mesh_case())
    c["what"] = draw(st.sampled_from(["function", "field", "wavelets", "wavelet_coefficients", "wavelet_coefficients"]))
    c["rank"] = draw(st.integers(0, 40))
    c["region"] = draw(st.booleans())
    c["cli"] = draw(st.booleans())
    c["B"] = draw(st.integers(2, 5))
    c["j_min"] = draw(st.integers(0, 5))
    c["j"] = draw(st.one_of(st.none(), st.integers(0, 10)))
    c["sig"] = draw(gen.signal())
    return c


def run_funs(c):
    m, s, B, reg = setup(c)
    k, n = B.shape
    env.fresh_data()
    kw = {"region": c["region"]}
    w = c["what"]
    V = np.asarray(s.slepian_functions)
    N = int(s.N)
    flat = as_array(B @ mg.normals(np.asarray(m.vertices), np.asarray(m.faces))[:, 1])
    lab = label(reg)

    def own(f):
        """Slepian functions held by the object: the solutions of the same problem."""
        t = f.mesh_slepian
        check(t.N == N, f"Shannon number {t.N}, expected {N}")
        o.check_eigen((B * reg) @ B.T, t.slepian_eigenvalues, t.slepian_functions, "Slepian", tol=1e-8, n_vec=N)
        return np.asarray(t.slepian_functions)

    if w == "function":
        r = c["rank"] % k
        f = M.MeshSlepianFunctions(m, **({"extra_args": [r]} if c["cli"] else {"rank": r}), **kw)
        own(f)
        close(f.coefficients, np.eye(k)[r][:N], 1e-8, f"coefficients of Slepian function {r}")
    elif w == "field":
        f = M.MeshSlepianField(m, **kw)
        close(f.coefficients, own(f)[:N] @ flat, 1e-8, "Slepian coefficients of the field", scale=n)
    else:
        jm = o.j_max(k, c["B"])
        j_min = c["j_min"] % (jm + 1)
        j = None if c["j"] is None else c["j"] % (jm - j_min + 1)
        a = {"extra_args": [c["B"], j_min, j]} if c["cli"] and j is not None else {"B": c["B"], "j_min": j_min, "j": j}
        cls = M.MeshSlepianWavelets if w == "wavelets" else M.MeshSlepianWaveletCoefficients
        f = cls(m, **a, **kw)
        row = 0 if j is None else j + 1
        ref = o.kappas(k, c["B"], j_min)
        wav = as_array(f.wavelets, ref.shape, "wavelets")
        close((wav**2).sum(axis=0), np.ones(k), 1e-12, "tiling of the spectrum")
        close(wav**2, ref, 2e-4, "squared generating functions")
        W = sleplet.wavelet_methods
        if w == "wavelets":
            check((np.asarray(f.coefficients) == wav[row]).all(), f"j={j} does not select wavelet row {row}")
            x = gen.vector(c["sig"], k, complex_=c["cli"])
            coefs = W.slepian_wavelet_forward(x, wav, N)
            if N:
                close(W.slepian_wavelet_inverse(coefs, wav, N), x[:N], 1e-11, "reconstructed signal",
                      scale=max(1e-30, abs(x).max()))
        else:
            f_p = own(f)[:N] @ flat
            coefs = as_array(f.wavelet_coefficients, None, "wavelet coefficients")
            # the mesh Slepian functions are rebuilt or loaded for each object: signs
            # of a coefficient may differ only if the eigenvectors do, so compare with own
            full = wav[:, :N] * f_p
            J = len(coefs)
            check(coefs.ndim == 2 and coefs.shape[1] == N and J <= len(full), f"coefficients have shape {coefs.shape}")
            close(coefs, full[:J], 1e-8, "wavelet coefficients", scale=n)
            close(full[J:], np.zeros_like(full[J:]), 1e-8, "scales left out", scale=n)
            got = as_array(f.coefficients, (N,), "coefficients of the scale")
            check((got == (coefs[row] if row < J else 0)).all(), f"j={j} does not select row {row}")
            if N:
                close(W.slepian_wavelet_inverse(coefs, wav, N), f_p, 1e-8, "reconstructed field", scale=n)
    return ok(interesting(reg, s), w, lab)


# ------------------------------------------------------------------ bundled meshes
@st.composite
def bundled(draw):
    return {"name": draw(st.sampled_from(["bird", "cheetah", "cube", "dragon", "homer", "teapot"])),
            "k": draw(st.integers(2, 30))}


def run_bundled(c):
    env.fresh_data()
    m = M.Mesh(c["name"], number_basis_functions=c["k"])
    cfg = sleplet_config(c["name"])
    reg = mg.region_of(np.asarray(m.vertices), cfg)
    s = M.MeshSlepian(m)
    B = np.asarray(m.basis_functions)
    k, n = B.shape
    check(subj.shannon_ok(s.N, reg.sum() / n * k), f"Shannon number {s.N} of {reg.sum()} of {n} vertices")
    o.check_eigen((B * reg) @ B.T, s.slepian_eigenvalues, s.slepian_functions, f"{c['name']} Slepian", tol=1e-8)
    return ok(interesting(reg, s), c["name"])


def sleplet_config(name):
    import pathlib

    import tomli

    return tomli.loads((pathlib.Path(sleplet.__file__).parent / "_data" / f"meshes_regions_{name}.toml").read_text())


SUBS = [
    Sub("eigen", mesh_case(), run_eigen, 900, 10000, cost=0.03),
    Sub("transform", trans(), run_trans, 1200, 12000, cost=0.03),
    Sub("functions", funs(), run_funs, 700, 8000, cost=0.05),
    Sub("bundled", bundled(), run_bundled, 24, 300, cost=1.0),
]
