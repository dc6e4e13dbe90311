import errno
import io
import json
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen
import oracle as o
import subj
from core import Sub, ok
from oracle import as_array, check, close, fail

import sleplet

ID = "C17"
RULE = ("a case is a history over 2 to 4 near-identical problems in one data directory: constructions, deletions, "
        "truncations and overwrites of saved files, and write failures part way through saving; non-trivial when at "
        "least one construction could read a file saved by an earlier step or follows a fault; distinct by the history")
ASSUMPTIONS = ["one process uses a data directory at a time",
               "a damaged file is one that is missing, shortened, empty or not in the saved format"]

S = sleplet.slepian
HOSTS = ["bird", "cheetah"]
PKG = pathlib.Path(sleplet.__file__).parent


# ------------------------------------------------------------------ problems
def build_sphere(r):
    if r["type"] == "polar":
        return S.SlepianPolarCap(r["L"], r["theta"], gap=r["gap"], order=r["order"])
    if r["type"] == "lim":
        t0, t1, p0, p1 = r["angles"]
        return S.SlepianLimitLatLon(r["L"], theta_min=t0, theta_max=t1, phi_min=p0, phi_max=p1)
    return S.SlepianArbitrary(r["L"], land(r))


# names which agree in part, as those of lands do
LANDS = ["land_a", "land_b", "land", "a_land", "b_land", "land_a2", "land-a", "Land_a", "land.a", "land a"]


def land(r):
    return subj.mask_name([r["mask"], r["turn"]]) if r["name"] is None else LANDS[r["name"]]


def put_masks(reqs, data):
    for r in reqs:
        if r["type"] == "mask":
            for g in (2 * r["L"], r["L"]):
                m = gen.build_mask(r["mask"], g)
                m = np.roll(m, (r["turn"] % 2) * g, axis=1)  # half a turn
                subj.save_mask(m[::-1] if r["turn"] > 1 else m, land(r), g, data)


def solution_sphere(s, r):
    vals = as_array(s.eigenvalues, what="eigenvalues")
    vecs = as_array(s.eigenvectors, what="eigenvectors")
    order = None
    if r["type"] == "polar" and r["order"] is None:
        order = as_array(s.order, what="order")
    sol = {"N": int(s.N), "vals": vals.copy(), "vecs": vecs.copy(), "order": None if order is None else order.copy()}
    for a in (vals, vecs, order):  # a caller may change the arrays of its own object
        if a is not None:
            o.scribble(a)
    return sol


def saved(data):
    return sorted(str(p.relative_to(data)) for p in pathlib.Path(data).rglob("*")
                  if p.is_file() and not p.name.startswith("slepian_masks_"))


_ref = {}


def reference(r):
    """The solution computed in an empty directory, and the files of that problem."""
    key = json.dumps(r, sort_keys=True)
    if key not in _ref:
        if len(_ref) > 500:
            _ref.clear()
        d = env.fresh_data()
        put_masks([r], d)
        sol = solution_sphere(build_sphere(r), r)
        if r["type"] == "polar" and r["order"] is not None:
            d = env.fresh_data()
            build_sphere({**r, "order": None})
        _ref[key] = (sol, set(saved(d)))
    return _ref[key]


def same_solution(got, ref, what, equation=True):
    n = len(ref["vals"])
    check(got["N"] == ref["N"], f"{what}: Shannon number {got['N']}, expected {ref['N']}")
    close(got["vals"], ref["vals"], 1e-9, f"{what}: eigenvalues")
    want = min(ref["N"], n)
    have = got["vecs"]
    check(have.ndim == 2 and have.shape[1] == ref["vecs"].shape[1] and have.shape[0] >= want,
          f"{what}: eigenvectors have shape {have.shape}, expected at least {want} of length {ref['vecs'].shape[1]}")
    m = min(len(have), n)
    if m == 0:
        return
    V, W = ref["vecs"][:n], have[:m]
    A = (V.T * ref["vals"]) @ V.conj()  # the operator whose eigenvectors are the rows
    close(W @ W.conj().T, np.eye(m), 1e-8, f"{what}: Gram matrix of the eigenvectors")
    if equation:
        close(A @ W.T, W.T * ref["vals"][:m], 1e-8, f"{what}: eigenvector equation of the requested problem")
    if ref["order"] is not None:
        o_ = got["order"]
        check(o_ is not None and o_.shape[:1] == ref["order"].shape, f"{what}: orders {o_!r:.80}")
        L = int(round(np.sqrt(V.shape[1])))
        emm = np.concatenate([np.arange(-e, e + 1) for e in range(L)])
        off = np.abs(W) * (emm[None] != o_[:m, None])
        check(off.max(initial=0) < 1e-9, f"{what}: eigenvectors do not belong to the stated orders")


# ------------------------------------------------------------------ faults
class FailingSave:
    """np.save fails at the k-th call, leaving nothing or the first part of the file."""

    def __init__(self, k, mode):
        self.k, self.mode, self.n, self.hit = k, mode, 0, None
        self.real = np.save

    def __call__(self, file, arr, *a, **kw):
        self.n += 1
        if self.n - 1 != self.k:
            return self.real(file, arr, *a, **kw)
        self.hit = str(file.name if hasattr(file, "write") else file)
        if self.mode != "none":
            buf = io.BytesIO()
            self.real(buf, arr)
            b = buf.getvalue()
            cut = {"empty": 0, "half": len(b) // 2, "last": len(b) - 1, "header": 64}[self.mode]
            if hasattr(file, "write"):
                file.write(b[:cut])
                file.flush()
            else:
                pathlib.Path(file).write_bytes(b[:cut])
        raise OSError(errno.ENOSPC, "No space left on device")


def damage(path, mode):
    b = path.read_bytes()
    if mode == "delete":
        path.unlink()
    elif mode == "empty":
        path.write_bytes(b"")
    elif mode == "half":
        path.write_bytes(b[: len(b) // 2])
    elif mode == "last":
        path.write_bytes(b[:-1])
    elif mode == "garbage":
        path.write_bytes(b"not an array" * 20)


def readable(path):
    try:
        np.load(path)
    except Exception:  # noqa: BLE001
        return False
    return True


def stray(base, data):
    out = set()
    for root in (base, PKG):
        for p in pathlib.Path(root).rglob("*.npy"):
            if data not in p.parents:
                out.add(str(p))
    return out


def run_history(c, reqs, refs, builder, solver, judge):
    """Replay the history; `refs[i]` are the solution and the files of problem i."""
    data = env.fresh_data()
    put_masks([r for r in reqs if r.get("type") == "mask"], data)
    base = pathlib.Path(os.environ["VP_SCRATCH"])
    before = stray(base, data)
    broken, labels, interesting, built, faulted = set(), set(), False, False, False
    for k, op in enumerate(c["ops"]):
        if op["op"] == "damage":
            files = saved(data)
            if not files:
                continue
            targets = [files[op["at"] % len(files)]] if op["at"] is not None else files
            for f in targets:
                damage(data / f, op["mode"])
                broken.discard(f)
                if op["mode"] != "delete":
                    broken.add(f)
            labels.add("damage-" + op["mode"])
            faulted = True
            continue
        i = op["req"] % len(reqs)
        (sol, files), r = refs[i], reqs[i]
        what = f"step {k}, {r}"
        excused = bool(broken & files)
        interesting |= built or faulted
        if op["op"] == "build":
            try:
                got = solver(builder(r), r)
            except Exception:
                if excused:
                    labels.add("damage-reported")
                    continue
                raise
            built = True
        else:
            hook = FailingSave(op["at"], op["mode"])
            try:
                with env.patched(np, "save", hook):
                    got = solver(builder(r), r)
            except Exception as e:
                if not (hook.hit or excused):
                    raise
                got = None
            faulted = True
            labels.add("write-failure" if hook.hit else "no-write")
            if hook.hit:
                try:
                    f = str(pathlib.Path(hook.hit).relative_to(data))
                except ValueError:
                    fail(f"{what}: saves to {hook.hit}, outside the user data directory")
                if op["mode"] != "none" or ((data / f).exists() and not readable(data / f)):
                    broken.add(f)  # an opened file is left empty when nothing reaches it
        if got is not None:
            judge(got, sol, what, r)
            # a readable answer was given: files it rewrote are whole again
            for f in list(broken & files):
                if readable(data / f):
                    broken.discard(f)
    now = stray(base, data) - before
    check(not now, f"files written outside the user data directory: {sorted(now)[:3]}")
    return ok(interesting, *sorted(labels))


OPS = st.one_of(
    st.builds(lambda r: {"op": "build", "req": r}, st.integers(0, 3)),
    st.builds(lambda r: {"op": "build", "req": r}, st.integers(0, 3)),
    st.builds(lambda a, m: {"op": "damage", "at": a, "mode": m}, st.one_of(st.none(), st.integers(0, 11), st.integers(0, 11)),
              st.sampled_from(["delete", "delete", "delete", "empty", "half", "last", "garbage"])),
    st.builds(lambda r, a, m: {"op": "crash", "req": r, "at": a, "mode": m}, st.integers(0, 3), st.integers(0, 3),
              st.sampled_from(["none", "none", "empty", "half", "last", "header"])),
)
NUDGE = [1e-3, -1e-3, 1e-5, 1e-7, 4e-3, -4e-3]


# ------------------------------------------------------------------ sphere
@st.composite
def sphere(draw):
    L = draw(gen.bandlimit(2, 5))
    kind = draw(st.sampled_from(["polar", "polar", "lim", "mask"]))
    if kind == "polar":
        base = {"type": "polar", "L": L, "theta": draw(gen.colat(0.5, 1.5)), "gap": draw(st.booleans()), "order": None}
    elif kind == "lim":
        L = min(L, 4)
        base = {"type": "lim", "L": L, "angles": draw(gen.lat_lon())}
    else:
        L = min(L, 3)
        base = {"type": "mask", "L": L, "mask": draw(gen.mask_spec().filter(lambda m: gen.build_mask(m, 2 * L).any())), "turn": 0,
                "name": draw(st.one_of(st.none(), st.integers(0, len(LANDS) - 1)))}
    reqs = [base]
    for _ in range(draw(st.integers(1, 3))):
        r = json.loads(json.dumps(base))
        how = draw(st.sampled_from(["L", "shape", "shape", "other"]))
        if how == "L":
            r["L"] = L + 1 if L < 5 else L - 1
        elif kind == "polar":
            if how == "shape":
                r["theta"] = min(base["theta"] + draw(st.sampled_from(NUDGE)), np.pi / 2)
            elif draw(st.booleans()):
                r["gap"] = not base["gap"]
            else:
                r["order"] = draw(st.integers(-(L - 1), L - 1))
        elif kind == "lim":
            i = draw(st.integers(0, 3))
            lo, hi = (0, np.pi) if i < 2 else (0, 2 * np.pi)
            r["angles"][i] = float(min(max(base["angles"][i] + draw(st.sampled_from(NUDGE)), lo), hi))
            if r["angles"] == [0, r["angles"][1], 0, 2 * np.pi]:
                r["angles"][3] = 6.0
            if not (r["angles"][0] < r["angles"][1] and r["angles"][2] < r["angles"][3]):
                r = json.loads(json.dumps(base))
        else:
            if how == "shape":  # as large a region elsewhere
                r["turn"] = 1
            else:
                r["mask"] = draw(gen.mask_spec().filter(lambda m: gen.build_mask(m, 2 * L).any()))
            if r["name"] is not None:  # a name of its own, unless it is the same land
                r["name"] = (max(x["name"] for x in reqs) + 1) % len(LANDS)
                if any(x["name"] == r["name"] for x in reqs):
                    r = json.loads(json.dumps(base))
        reqs.append(r)
    if kind == "polar":  # one order of a problem whose files may be there
        for r in reqs:
            r["order"] = draw(st.sampled_from([None, None, None, 0, 1, -1])) if r["order"] is None else r["order"]
            if r["order"] is not None and abs(r["order"]) >= r["L"]:
                r["order"] = 0
    return {"reqs": reqs, "ops": draw(st.lists(OPS, min_size=2, max_size=9))}


def run_sphere(c):
    refs = [reference(r) for r in c["reqs"]]
    return run_history(c, c["reqs"], refs, build_sphere, solution_sphere,
                       lambda got, sol, what, r: same_solution(got, sol, what))


# ------------------------------------------------------------------ the limit above which fewer vectors are saved
@st.composite
def large(draw):
    theta = draw(st.sampled_from([0.25, 0.4, 0.7]))
    gap = draw(st.booleans())
    L = draw(st.sampled_from([17, 17, 16]))
    reqs = [{"type": "polar", "L": L, "theta": theta, "gap": gap, "order": o}
            for o in (None, draw(st.integers(-3, 3)), draw(st.integers(-15, 15)))]
    ops = [{"op": "build", "req": i} for i in (0, 1, 2, 0)] + draw(st.lists(OPS, max_size=3))
    # one of the saved files is lost, then one order is asked for before or after all of them
    ops += [{"op": "build", "req": 0}, {"op": "damage", "at": draw(st.sampled_from([0, 1, 2, 2])), "mode": "delete"}]
    ops += [{"op": "build", "req": i} for i in draw(st.permutations(range(3)))]
    return {"reqs": reqs, "ops": ops + [{"op": "build", "req": i} for i in (1, 2, 0)]}


# ------------------------------------------------------------------ lands of similar names and similar sizes
@st.composite
def named(draw):
    L = draw(st.sampled_from([2, 2, 3]))
    mask = draw(gen.mask_spec().filter(lambda m: gen.build_mask(m, 2 * L).any()))
    names = draw(st.lists(st.integers(0, len(LANDS) - 1), min_size=2, max_size=3, unique=True))
    reqs = [{"type": "mask", "L": L, "mask": mask, "name": n, "turn": draw(st.integers(0, 3)) if i else 0}
            for i, n in enumerate(names)]
    n = len(reqs)
    return {"reqs": reqs, "ops": [{"op": "build", "req": i} for i in draw(st.permutations(range(n)))]
            + draw(st.lists(OPS, max_size=3))}


# ------------------------------------------------------------------ meshes
@st.composite
def mesh(draw):
    specs = [draw(meshgen.mesh_spec(small=True)) for _ in range(draw(st.integers(1, 2)))]
    for s in specs:
        s["up"] = 0
        s["base"] = "octa" if s["base"] == "octa2" else "tetra1" if s["base"] == "tetra2" else s["base"]
    k = draw(st.integers(2, 6))
    reqs = []
    for _ in range(draw(st.integers(2, 4))):
        reqs.append({"host": draw(st.integers(0, len(specs) - 1)), "k": draw(st.sampled_from([k, k, k + 1, None])),
                     "slepian": draw(st.booleans()), "zoom": draw(st.booleans())})
    return {"specs": specs, "reqs": reqs, "ops": draw(st.lists(OPS, min_size=2, max_size=9))}


def run_mesh(c):
    def builder(r):
        spec = c["specs"][r["host"]]
        with meshgen.mesh_files(spec):
            m = sleplet.meshes.Mesh(HOSTS[r["host"]], number_basis_functions=r["k"], zoom=r["zoom"])
            return sleplet.meshes.MeshSlepian(m) if r["slepian"] else m

    def solver(x, r):
        m = x.mesh if r["slepian"] else x
        sol = {"mvals": as_array(m.mesh_eigenvalues, what="mesh eigenvalues").copy(),
               "mvecs": as_array(m.basis_functions, what="basis functions").copy(), "N": 0}
        if r["slepian"]:
            sol.update(N=int(x.N), vals=as_array(x.slepian_eigenvalues, what="Slepian eigenvalues").copy(),
                       vecs=as_array(x.slepian_functions, what="Slepian functions").copy(), order=None)
        return sol

    refs = []
    for r in c["reqs"]:
        key = json.dumps([c["specs"][r["host"]], r], sort_keys=True)
        if key not in _ref:
            d = env.fresh_data()
            sol = solver(builder(r), r)
            _ref[key] = (sol, set(saved(d)))
        refs.append(_ref[key])

    def judge(got, ref, what, r):
        A = meshgen.laplacian(*meshgen.shape(c["specs"][r["host"]]))
        close(got["mvals"], ref["mvals"], 1e-7, f"{what}: mesh eigenvalues")
        B = got["mvecs"]
        check(B.shape == ref["mvecs"].shape, f"{what}: basis functions {B.shape}, expected {ref['mvecs'].shape}")
        scale = np.abs(B).max(initial=1.0)
        close(A @ B.T / scale, B.T * ref["mvals"] / scale, 1e-6, f"{what}: Laplacian equation of the basis functions")
        if r["slepian"]:
            # the Slepian functions are expressed in the basis that is now in use
            same_solution(got, ref, what, equation=False)
            Q = np.linalg.lstsq(ref["mvecs"].T, B.T, rcond=None)[0]  # new basis in terms of the reference one
            n = min(len(got["vecs"]), ref["N"])
            V = ref["vecs"]
            D = (V.T * ref["vals"]) @ V
            W = (Q @ got["vecs"][:n].T)
            close(D @ W, W * ref["vals"][:n], 1e-6, f"{what}: Slepian functions in the basis in use")

    return run_history(c, c["reqs"], refs, builder, solver, judge)


SUBS = [
    Sub("sphere", sphere(), run_sphere, 480, 12000, cost=1.0),
    Sub("mesh", mesh(), run_mesh, 800, 16000, cost=0.3),
    Sub("named", named(), run_sphere, 160, 3200, cost=0.6),
    Sub("large", large(), run_sphere, 16, 240, shards=8, cost=8.0),
]
