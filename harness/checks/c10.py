import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen as mg
import oracle as o
from core import Sub, Violation, ok
from oracle import as_array, check, close, fail

import sleplet

ID = "C10"
RULE = ("cases draw closed and open triangle meshes (sphere-like, torus, tetrahedron, sheet) with jittered vertices, "
        "upsampling, boxes with vertices exactly on their limits, basis sizes, signals; the bundled meshes as well; "
        "non-trivial when the basis has more than one function; distinct by the drawn case")
ASSUMPTIONS = ["mesh signals are real, as the mesh transforms return real numbers",
               "generated meshes stand in for the bundled files by replacing the file readers (igl, tomli)"]

H = sleplet.harmonic_methods


def geometry(m, g):
    v, f = as_array(m.vertices), as_array(m.faces)
    check(v.shape == g["v"].shape and f.shape == g["f"].shape, f"mesh has {v.shape} vertices, {f.shape} faces")
    check(mg.canonical_faces(v, f) == mg.canonical_faces(g["v"], g["f"]), "the faces are not those of the mesh file")
    return v, f


def judge_basis(m, k, what):
    v, f = as_array(m.vertices), as_array(m.faces)
    A = mg.laplacian(v, f)
    ev = as_array(m.mesh_eigenvalues, (k,), f"{what} eigenvalues")
    B = as_array(m.basis_functions, (k, len(v)), f"{what} basis functions")
    check(m.number_basis_functions == k, f"{what}: {m.number_basis_functions} basis functions reported, expected {k}")
    top = 2 * abs(A.diagonal()).max()
    check((np.diff(ev) >= -1e-9 * top).all(), f"{what} eigenvalues are not ascending: {ev[:10]}")
    close(B @ B.T, np.eye(k), 1e-6, f"{what} orthonormality")
    res = (A @ B.T).T - ev[:, None] * B
    close(res, np.zeros_like(res), 1e-7, f"{what} eigen-equation of the cotangent Laplacian", scale=top)
    x = ev[-1] - 1e-7 * top
    below = mg.count_below(A, x)
    check(below <= (ev < x).sum(), f"{what}: the Laplacian has {below} eigenvalues below {x}, the basis {(ev < x).sum()}")
    return B


@st.composite
def basis(draw):
    return {"mesh": draw(mg.mesh_spec()), "k": draw(st.one_of(st.none(), st.integers(1, 40))), "zoom": draw(st.booleans())}


def run_basis(c):
    with mg.mesh_files(c["mesh"]) as g:
        n = len(g["v"])
        k = n // 4 if c["k"] is None else min(c["k"], n - 1)
        m = mg.build(c["mesh"], None if c["k"] is None else k, zoom=c["zoom"])
    v, f = geometry(m, g)
    reg = as_array(m.mesh_region, (n,), "region").astype(bool)
    want = mg.region_of(v, g["cfg"])
    if (reg != want).any():
        i = int(np.flatnonzero(reg != want)[0])
        fail(f"vertex {v[i]} is {'in' if reg[i] else 'outside'} the region, expected the opposite")
    judge_basis(m, k, "basis")
    return ok(k > 1, c["mesh"]["base"], "default size" if c["k"] is None else "given size",
              "part" if 0 < want.sum() < n else "whole or empty")


# ------------------------------------------------------------------ transforms
@st.composite
def trans(draw):
    return {"mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(1, 20)),
            "sig": draw(gen.signal()), "type": draw(st.sampled_from(["float", "float", "int", "complex"]))}


def run_trans(c):
    m, g = mg.memo_mesh(c["mesh"], min(c["k"], len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0]) - 1))
    B = np.asarray(m.basis_functions)
    k, n = B.shape
    z = c["type"] == "complex"
    u = gen.vector(c["sig"], n, complex_=z)
    scale = max(1e-30, abs(u).max())
    if c["type"] == "int":
        u = (np.sign(u) * (abs(u) > 0.5 * scale)).astype(int)
        scale = max(1e-30, float(abs(u).max()))
    u0 = u.copy()
    got = as_array(H.mesh_forward(m, u), (k,), "mesh coefficients")
    close(got, B @ u0, 1e-11, "mesh forward transform", scale=scale * n)
    x = gen.vector({**c["sig"], "seed": c["sig"]["seed"] + 5}, k, complex_=z)
    xs = max(1e-30, abs(x).max())
    x0 = x.copy()
    f = as_array(H.mesh_inverse(m, x), (n,), "mesh samples")
    close(f, x0 @ B, 1e-11, "mesh inverse transform", scale=xs * k)
    close(H.mesh_forward(m, f), x0, 1e-6, "signal in the span of the basis", scale=xs * k)
    check((u == u0).all() and (x == x0).all(), "a transform changed its input")
    check((np.asarray(m.basis_functions) == B).all(), "a transform changed the basis")
    return ok(k > 1 and np.any(x0 != 0), c["sig"]["kind"], c["mesh"]["base"], c["type"])


# ------------------------------------------------------------------ functions of the mesh
@st.composite
def funs(draw):
    return {"mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(1, 20)), "rank": draw(st.integers(0, 40)),
            "what": draw(st.sampled_from(["field", "basis", "basis"])), "cli": draw(st.booleans()),
            "region": draw(st.booleans())}


def run_funs(c):
    n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
    m, g = mg.memo_mesh(c["mesh"], min(c["k"], n - 1))
    B = np.asarray(m.basis_functions)
    k = len(B)
    if c["what"] == "field":
        f = sleplet.meshes.MeshField(m, region=c["region"])
        exp = B @ mg.normals(np.asarray(m.vertices), np.asarray(m.faces))[:, 1]
        close(f.coefficients, exp, 1e-9, "coefficients of the mesh field", scale=n)
        return ok(k > 1, "field")
    r = c["rank"] % k
    f = sleplet.meshes.MeshBasisFunctions(m, **({"extra_args": [r]} if c["cli"] else {"rank": r}))
    close(f.coefficients, np.eye(k)[r], 1e-6, f"coefficients of basis function {r}")
    return ok(k > 1, "basis")


# ------------------------------------------------------------------ bundled meshes
BUNDLED = ["bird", "cheetah", "cube", "dragon", "homer", "teapot"]


# ------------------------------------------------------------------ sizes
@st.composite
def sizes(draw):
    return {"mesh": draw(mg.mesh_spec(small=True)), "over": draw(st.integers(-3, 3)), "seed": draw(gen.seeds())}


def run_sizes(c):
    """Up to one function fewer than the vertices, and never more functions than asked for."""
    n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
    k = n - 1 + c["over"]
    with mg.mesh_files(c["mesh"]):
        try:
            m = mg.build(c["mesh"], k)
        except Exception as e:  # noqa: BLE001
            check(k >= n, f"{k} basis functions of {n} vertices were refused: {e!r}")
            return ok(True, "refused")
    check(k <= n, f"{k} basis functions of a mesh with {n} vertices were accepted")
    judge_basis(m, k, "basis")
    return ok(True, "accepted")


@st.composite
def bundled(draw):
    return {"name": draw(st.sampled_from(BUNDLED)), "k": draw(st.integers(1, 40))}


def run_bundled(c):
    # the eigensolver starts from a random vector: a copy of a repeated eigenvalue
    # missed once in thousands of runs is its own limit, not the library's
    for attempt in range(3):
        try:
            return run_bundled_once(c)
        except Violation:
            if attempt == 2:
                raise


def run_bundled_once(c):
    import pathlib

    import tomli

    env.fresh_data()
    m = sleplet.meshes.Mesh(c["name"], number_basis_functions=c["k"])
    data = pathlib.Path(sleplet.__file__).parent / "_data"
    cfg = tomli.loads((data / f"meshes_regions_{c['name']}.toml").read_text())
    v, f = read_off(data / f"meshes_polygons_{cfg['FILENAME']}")
    v, f = mg.upsample(v, f, cfg["UPSAMPLE"])
    check(mg.canonical_faces(np.asarray(m.vertices), np.asarray(m.faces)) == mg.canonical_faces(v, f),
          f"the faces are not those of {cfg['FILENAME']}")
    want = mg.region_of(np.asarray(m.vertices), cfg)
    check((np.asarray(m.mesh_region).astype(bool) == want).all(), "the region is not the box of the settings file")
    judge_basis(m, c["k"], c["name"])
    return ok(c["k"] > 1, c["name"])


def read_off(path):
    if path.suffix != ".off":
        import igl

        return igl.read_triangle_mesh(str(path))
    tok = [t for line in path.read_text().splitlines() if not line.startswith("#") for t in line.split()]
    assert tok[0] == "OFF"
    nv, nf = int(tok[1]), int(tok[2])
    v = np.array(tok[4:4 + 3 * nv], float).reshape(nv, 3)
    f = np.array(tok[4 + 3 * nv:4 + 3 * nv + 4 * nf], int).reshape(nf, 4)[:, 1:]
    return v, f


# ------------------------------------------------------------------ several meshes
@st.composite
def history(draw):
    first = draw(mg.mesh_spec(small=True))
    second = draw(st.one_of(mg.mesh_spec(small=True), st.builds(lambda s: {**first, "seed": s}, gen.seeds())))
    return {"meshes": [first, second], "names": list(draw(st.permutations(BUNDLED)))[:2],
            "k": [draw(st.integers(1, 15)) for _ in range(2)],
            "steps": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list), min_size=2, max_size=5))}


def run_history(c):
    """Every mesh of one process and data directory has its own basis."""
    env.fresh_data()
    seen = set()
    for i, j in c["steps"]:
        with mg.mesh_files(c["meshes"][i]) as g:
            k = min(c["k"][j], len(g["v"]) - 1)
            m = mg.build(c["meshes"][i], k, fresh=False, name=c["names"][i])
        seen.add((i, k))
        geometry(m, g)
        B = judge_basis(m, k, f"basis of mesh {i} after {sorted(seen)}")
        u = np.random.default_rng(k).standard_normal(B.shape[1])
        close(H.mesh_forward(m, u), B @ u, 1e-11, "mesh forward transform", scale=B.shape[1])
        for name in ("basis_functions", "mesh_eigenvalues", "mesh_region", "vertices", "faces"):
            o.scribble(getattr(m, name))
    return ok(len(seen) > 1, "same size" if len({m["base"] for m in c["meshes"]}) == 1 else "other size")


SUBS = [
    Sub("basis", basis(), run_basis, 1200, 15000, cost=0.03),
    Sub("transform", trans(), run_trans, 1500, 15000, cost=0.015),
    Sub("functions", funs(), run_funs, 700, 8000, cost=0.015),
    Sub("sizes", sizes(), run_sizes, 200, 2000, cost=0.05),
    Sub("history", history(), run_history, 300, 4000, cost=0.08),
    Sub("bundled", bundled(), run_bundled, 40, 400, cost=1.0),
]
