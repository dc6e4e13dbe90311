"""Generated triangle meshes and independent mesh references."""

from __future__ import annotations

import contextlib

import numpy as np
from hypothesis import strategies as st

import env
import gen

import igl
import sleplet
import tomli
import tomllib

HOST = "bird"  # settings file whose contents are replaced


# ------------------------------------------------------------------ shapes
def _octa():
    v = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], float)
    f = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
    return v, np.array(f)


def _tetra():
    v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float)
    return v, np.array([[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]])


def _patch(a, b):
    """Open sheet."""
    x, y = np.meshgrid(np.arange(a), np.arange(b), indexing="ij")
    v = np.stack([x.ravel(), y.ravel() * 0.8, 0.1 * (x * y % 3).ravel()], axis=1).astype(float)
    f = []
    for i in range(a - 1):
        for j in range(b - 1):
            p, q, r, s = i * b + j, (i + 1) * b + j, (i + 1) * b + j + 1, i * b + j + 1
            f += [[p, q, r], [p, r, s]]
    return v, np.array(f)


def _torus(a, b):
    v, f = [], []
    for i in range(a):
        for j in range(b):
            s, t = 2 * np.pi * i / a, 2 * np.pi * j / b
            v.append([(2 + np.cos(t)) * np.cos(s), (2 + np.cos(t)) * np.sin(s), np.sin(t)])
            p, q = i * b + j, ((i + 1) % a) * b + j
            r, u = ((i + 1) % a) * b + (j + 1) % b, i * b + (j + 1) % b
            f += [[p, q, r], [p, r, u]]
    return np.array(v), np.array(f)


def upsample(v, f, n=1):
    for _ in range(n):
        mid, nv, nf = {}, [tuple(x) for x in v], []
        for t in f:
            m = []
            for a, b in ((0, 1), (1, 2), (2, 0)):
                key = tuple(sorted((int(t[a]), int(t[b]))))
                if key not in mid:
                    mid[key] = len(nv)
                    nv.append(tuple((v[key[0]] + v[key[1]]) / 2))
                m.append(mid[key])
            nf += [[t[0], m[0], m[2]], [t[1], m[1], m[0]], [m[0], m[1], m[2]], [m[1], t[2], m[2]]]
        v, f = np.array(nv), np.array(nf)
    return v, f


@st.composite
def mesh_spec(draw, small=False):
    base = draw(st.sampled_from(["octa", "octa2", "tetra1", "tetra2", "patch", "torus", "parts", "tetra2"]))
    lim = [0.0, 0.2, 0.35, 0.5, 0.65, 0.8, 1.0]
    limit = st.one_of(st.sampled_from(lim), st.floats(0, 1))
    bounded = draw(st.sampled_from(["x", "y", "z", "x", "y", "z", "xy", "yz", "xyz", ""]))
    box = []
    for ax in "xyz":  # None is unbounded
        both = [draw(st.one_of(st.none(), limit)), draw(limit)]
        box += draw(st.permutations(both)) if ax in bounded else [None, None]
    return {"base": base, "a": draw(st.integers(3, 5 if small else 8)), "b": draw(st.integers(3, 5 if small else 8)),
            "seed": draw(gen.seeds()), "jitter": draw(st.sampled_from([0.05, 0.15])), "up": draw(st.sampled_from([0, 1, 2, 2] if base == "tetra2" else [0, 0, 1])),
            "box": box, "exact": draw(st.booleans())}


def shape(spec):
    b = spec["base"]
    if b.startswith("octa"):
        v, f = _octa()
        v, f = upsample(v, f, 2 if b.endswith("2") else 1)
        v = v / np.linalg.norm(v, axis=1)[:, None]
    elif b.startswith("tetra"):
        v, f = upsample(*_tetra(), 0 if spec["up"] == 2 else int(b[-1]))  # left to the library
    elif b == "patch":
        v, f = _patch(spec["a"], spec["b"])
    elif b == "parts":  # not connected
        v, f = upsample(*_tetra(), 1)
        for k in range(1, 2 + spec["a"] % 2):
            w, g = _octa()
            v, f = np.concatenate([v, w * (1 + 0.3 * k) + 3 * k]), np.concatenate([f, g + len(v)])
    else:
        v, f = _torus(spec["a"], spec["b"])
    rng = np.random.default_rng(spec["seed"])
    edge = np.linalg.norm(v[f[:, 0]] - v[f[:, 1]], axis=1).min()
    v = v + spec["jitter"] * edge * rng.uniform(-1, 1, v.shape)
    return v, f


def config(spec, v):
    """Settings of a generated mesh: `v` are the vertices after upsampling."""
    out = dict(tomli.loads((__import__("pathlib").Path(sleplet.__file__).parent / "_data"
                            / f"meshes_regions_{HOST}.toml").read_text()))
    for i, ax in enumerate("XYZ"):
        lo, hi = spec["box"][2 * i], spec["box"][2 * i + 1]
        s = np.sort(v[:, i])
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo

        def at(x):
            if spec["exact"]:  # a vertex exactly on the limit
                return float(s[round(x * (len(s) - 1))])
            return float(s[0] + x * (s[-1] - s[0]))

        out[f"{ax}MIN"] = -np.inf if lo is None else at(lo)
        out[f"{ax}MAX"] = np.inf if hi is None else at(hi)
    out["UPSAMPLE"] = spec["up"]
    rng = np.random.default_rng(spec["seed"] + 1)
    for k in ("CAMERA_X", "CAMERA_Y", "CAMERA_Z", "CENTRE_X", "CENTRE_Y", "CENTRE_Z"):
        out[k] = float(np.round(rng.uniform(-2, 2), 2))
    for k in ("DEFAULT_COLOURBAR_POS", "REGION_COLOURBAR_POS", "DEFAULT_ZOOM", "REGION_ZOOM"):
        out[k] = float(np.round(rng.uniform(0.3, 2), 2))
    return out


@contextlib.contextmanager
def mesh_files(spec):
    """Let the library read the generated mesh in place of a bundled one."""
    v, f = shape(spec)
    up_v, up_f = upsample(v, f, spec["up"])
    cfg = config(spec, up_v)
    with contextlib.ExitStack() as patches:
        patches.enter_context(env.patched(igl, "read_triangle_mesh", lambda *a, **k: (v.copy(), f.copy())))
        for module in (tomli, tomllib):
            for fun in ("load", "loads"):
                patches.enter_context(env.patched(module, fun, lambda *a, **k: dict(cfg)))
        yield {"v": up_v, "f": up_f, "cfg": cfg}


def region_of(v, cfg):
    m = np.ones(len(v), bool)
    for i, ax in enumerate("XYZ"):
        m &= (v[:, i] >= cfg[f"{ax}MIN"]) & (v[:, i] <= cfg[f"{ax}MAX"])
    return m


def build(spec, k=None, zoom=False, fresh=True, name=HOST):
    if fresh:
        env.fresh_data()
    return sleplet.meshes.Mesh(name, number_basis_functions=k, zoom=zoom)


# ------------------------------------------------------------------ references
def laplacian(v, f):
    """Cotangent stiffness matrix (dense for small meshes, sparse otherwise)."""
    import scipy.sparse as sp

    n = len(v)
    rows, cols, vals = [], [], []
    for a in range(3):
        i, j, k = f[:, a], f[:, (a + 1) % 3], f[:, (a + 2) % 3]
        e1, e2 = v[j] - v[i], v[k] - v[i]
        cot = (e1 * e2).sum(axis=1) / np.linalg.norm(np.cross(e1, e2), axis=1)
        rows += [j, k, j, k]
        cols += [k, j, j, k]
        vals += [-cot / 2, -cot / 2, cot / 2, cot / 2]
    A = sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, n)).tocsr()
    return A.toarray() if n <= 1500 else A


def count_below(A, x):
    """Number of eigenvalues below x, by Sylvester's law of inertia."""
    if isinstance(A, np.ndarray):
        return int((np.linalg.eigvalsh(A) < x).sum())
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl

    lu = sl.splu((A - x * sp.identity(A.shape[0])).tocsc(), permc_spec="MMD_AT_PLUS_A", diag_pivot_thresh=0.0,
                 options={"SymmetricMode": True})
    assert (lu.perm_r == lu.perm_c).all()
    return int((lu.U.diagonal() < 0).sum())


def normals(v, f):
    """Area-weighted vertex normals."""
    t = v[f]
    fn = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    out = np.zeros_like(v)
    for k in range(3):
        np.add.at(out, f[:, k], fn)
    return out / np.linalg.norm(out, axis=1)[:, None]


def canonical_faces(v, f):
    """Set of triangles by coordinates, up to cyclic order."""
    out = []
    for t in f:
        pts = [tuple(np.round(v[i], 9) + 0.0) for i in t]
        s = min(range(3), key=lambda i: pts[i])
        out.append(tuple(pts[s:] + pts[:s]))
    return sorted(out)


_memo = {}


def memo_mesh(spec, k):
    import json

    key = json.dumps([spec, k], sort_keys=True)
    if key not in _memo:
        if len(_memo) > 60:
            _memo.clear()
        with mesh_files(spec) as g:
            m = build(spec, k)
        _memo[key] = (m, g)
    return _memo[key]
