import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen as mg
import oracle as o
import plots
from core import Sub, ok
from oracle import as_array, as_real, check, close

import sleplet
import sleplet.plotting

ID = "C21"
RULE = ("plots draw a mesh with its settings, a vertex field, normalisation, amplitude, region, zoom and colour map; "
        "amplitudes draw a mesh function with or without noise; non-trivial when the field is not identically zero; "
        "distinct by the drawn case")
ASSUMPTIONS = ["fields whose relative variation over the faces is below 5e-5 count as constant up to rounding",
               "vertex fields are real"]
M = sleplet.meshes
BLANK = -1e5
KINDS = ["MeshBasisFunctions", "MeshNoiseField", "MeshField", "MeshSlepianFunctions", "MeshSlepianField",
         "MeshSlepianNoiseField", "MeshSlepianWavelets", "MeshSlepianWaveletCoefficients"]


def judge_mesh(fig, name, field, g, *, normalise, amplitude, region, zoom, base, what, noise=0.0):
    v, f, cfg = g["v"], g["f"], g["cfg"]
    check(len(fig.data) == 1 and fig.data[0].type == "mesh3d", f"{what}: not a single mesh")
    m = fig.data[0]
    # geometry: y and z exchanged, compared as a set of triangles with their colours
    pts = np.stack([as_array(m.x), as_array(m.z), as_array(m.y)], axis=1)
    faces = np.stack([as_array(m.i), as_array(m.j), as_array(m.k)], axis=1)
    check(pts.shape == v.shape and faces.shape == f.shape, f"{what}: mesh of {pts.shape[0]} vertices and {faces.shape[0]} "
          f"faces, expected {v.shape[0]} and {f.shape[0]}")
    colour = as_array(m.intensity, (len(f),), f"{what}: colours")
    check(m.intensitymode == "cell", f"{what}: colours are per {m.intensitymode}")
    inside = mg.region_of(v, cfg)
    keep = np.asarray(faces)  # faces of the figure, whose vertices are looked up by place
    where = {tuple(np.round(p, 9) + 0.0): i for i, p in enumerate(v)}
    try:
        idx = np.array([[where[tuple(np.round(pts[a], 9) + 0.0)] for a in t] for t in keep])
    except KeyError:
        o.fail(f"{what}: the vertices plotted are not those of the mesh with y and z exchanged")
    check(sorted(map(tuple, np.sort(idx, axis=1))) == sorted(map(tuple, np.sort(f, axis=1))), f"{what}: faces differ")
    mean = field[idx].mean(axis=1)
    shown = np.ones(len(f), bool)
    if region:
        shown = inside[idx].all(axis=1)
        blank = colour == BLANK
        bad = blank == shown
        check(not bad.any(), lambda: f"{what}: face {int(np.argmax(bad))} is "
              f"{'blanked but inside' if shown[np.argmax(bad)] else 'shown but outside'} the region")
    lo, hi = mean.min(), mean.max()
    lab = "values"
    noise = max(noise, 4e-16 * np.abs(field).max())
    if not shown.any():
        lab = "all-blanked"
    elif not normalise:
        close(colour[shown], mean[shown], 1e-12, f"{what}: colours", scale=max(np.abs(field).max(), noise * 1e12, 1e-300))
    elif shown.all():
        lab = plots.judge_normalised(colour, mean, f"{what}: colours", 0.0 if not field.any() else noise)
    elif hi - lo > max(5e-5 * abs(hi), 1e3 * noise):
        close(colour[shown], ((mean - lo) / (hi - lo))[shown], 1e-9 + 10 * noise / (hi - lo), f"{what}: colours")
        lab = "scaled"
    tick = amplitude if amplitude is not None else float(np.abs(field).max())
    plots.judge_colours(m, normalise, tick, what, 1e-9 + (0 if amplitude is not None else 10 * noise / max(tick, 1e-300)))
    z = cfg["REGION_ZOOM"] if zoom else cfg["DEFAULT_ZOOM"]
    cam = fig.layout.scene.camera
    for a in "xyz":
        A = a.upper()
        e, c = getattr(cam.eye, a), getattr(cam.center, a)
        check(abs(e - cfg[f"CAMERA_{A}"] / z) < 1e-9, f"{what}: camera {a} {e}, expected {cfg[f'CAMERA_{A}'] / z}")
        want = cfg[f"CENTRE_{A}"] if zoom else 0
        check(abs((c or 0) - want) < 1e-12, f"{what}: camera centre {a} {c}, expected {want}")
    want = cfg["REGION_COLOURBAR_POS"] if zoom else cfg["DEFAULT_COLOURBAR_POS"]
    check(abs(m.colorbar.x - want) < 1e-12, f"{what}: colour bar at {m.colorbar.x}, expected {want}")
    check(name == base + ("_norm" if normalise else ""), f"{what}: file name {name!r}")
    return lab


def field_of(c, n):
    rng = np.random.default_rng(c["seed"])
    u = rng.standard_normal(n)
    h = c["field"]
    if h == "constant":
        u[:] = u[0]
    elif h == "zero":
        u[:] = 0
    elif h == "one":
        w = np.zeros(n)
        w[c["seed"] % n] = u[0]
        u = w
    elif h == "negative":
        u = -np.abs(u) - 1
    elif h == "offset":
        u = u * 1e-3 + 7
    return u * c["scale"]


def run_plot(c):
    what = f"mesh plot of {c}"
    with mg.mesh_files(c["mesh"]) as g:
        m = mg.build(c["mesh"], c["k"], zoom=c["zoom"])
        u = field_of(c, len(g["v"]))
        keep = u.copy()
        kw = {k: c[k] for k, d in (("normalise", True), ("amplitude", None), ("region", False)) if c[k] != d or c["explicit"]}
        p = sleplet.plotting.PlotMesh(m, c["name"], u, **kw)
        if c["again"] == "other":  # a plot of something else in between
            with plots.Shown():
                sleplet.plotting.PlotMesh(m, "other", np.arange(len(u)) - 1.5, normalise=not c["normalise"], amplitude=3.0,
                                          region=not c["region"]).execute("jet")
        for _ in range(1 + (c["again"] == "twice")):
            with plots.Shown() as shown:
                p.execute(c["colour"]) if c["colour"] else p.execute()
        fig, name = shown.only(what)
        check(np.array_equal(keep, u), f"{what}: the field given was changed")
        lab = judge_mesh(fig, name, keep, g, normalise=c["normalise"], amplitude=c["amplitude"], region=c["region"],
                         zoom=c["zoom"], base=c["name"], what=what)
    return ok(bool(u.any()), c["field"], f"{lab}", "region" if c["region"] else "whole", "zoom" if c["zoom"] else "default")


PLOT = st.fixed_dictionaries({
    "mesh": mg.mesh_spec(small=True), "k": st.integers(1, 4), "zoom": st.booleans(), "seed": gen.seeds(),
    "field": st.sampled_from(["random", "random", "random", "constant", "zero", "one", "negative", "offset"]),
    "scale": st.sampled_from([1.0, -1.0, 1e-9, 1e-200, 1e6]), "normalise": st.booleans(), "region": st.booleans(),
    "amplitude": st.one_of(st.none(), st.none(), st.floats(1e-6, 1e3), st.just(0.0)), "explicit": st.booleans(),
    "colour": st.sampled_from([None, "ice", "viridis"]), "again": st.sampled_from(["", "", "", "twice", "other"]), "name": st.sampled_from(["bird_x", "a_zoom"])})


# ------------------------------------------------------------------ amplitude of noised functions
def field_on_mesh(f):
    """Field of a mesh function from its coefficients."""
    v = np.asarray(f.coefficients)
    if hasattr(f, "mesh_slepian"):
        s = f.mesh_slepian
        N = s.N
        return v[:N] @ np.asarray(s.slepian_functions)[:N] @ np.asarray(s.mesh.basis_functions)
    return v @ np.asarray(f.mesh.basis_functions)


def run_noisy(c):
    what = f"amplitude of {c}"
    with mg.mesh_files(c["mesh"]) as g:
        m = mg.build(c["mesh"], c["k"])
        if "Slepian" in c["kind"] and M.MeshSlepian(m).N < 1:
            return ok(False, "empty-region")
        cls = getattr(M, c["kind"])
        kw = {"region": True} if "Slepian" in c["kind"] else {}
        f = cls(m, noise=c["noise"], **kw)
        got = sleplet.plot_methods.compute_amplitude_for_noisy_mesh_plots(f)
        if c["noise"] is None:
            check(got is None, f"{what}: {got} for a function without noise")
            return ok(True, c["kind"], "clean")
        clean = field_on_mesh(cls(m, **kw))
    want = float(np.abs(clean).max())
    close(as_real(got), want, 1e-9, what, scale=max(want, 1e-12))
    return ok(want > 0, c["kind"], "noised")


NOISY = st.fixed_dictionaries({
    "mesh": mg.mesh_spec(small=True), "k": st.integers(3, 8), "kind": st.sampled_from(KINDS),
    "noise": st.one_of(st.none(), st.integers(-10, 20), st.integers(-10, 20))})


# ------------------------------------------------------------------ bundled meshes
def run_bundled(c):
    """The meshes shipped with the package, with their own settings."""
    import pathlib
    import tomli

    name = c["host"]
    cfg = tomli.loads((pathlib.Path(sleplet.__file__).parent / "_data" / f"meshes_regions_{name}.toml").read_text())
    env.fresh_data()
    m = M.Mesh(name, number_basis_functions=c["k"], zoom=c["zoom"])
    v, f = np.asarray(m.vertices), np.asarray(m.faces)
    if len({tuple(np.round(p, 9) + 0.0) for p in v}) != len(v):
        return ok(False, "coincident-vertices")
    u = field_of(c, len(v))
    with plots.Shown() as shown:
        sleplet.plotting.PlotMesh(m, name, u, normalise=c["normalise"], region=c["region"]).execute()
    fig, fname = shown.only(name)
    judge_mesh(fig, fname, u, {"v": v, "f": f, "cfg": cfg}, normalise=c["normalise"], amplitude=None, region=c["region"],
               zoom=c["zoom"], base=name, what=f"plot of the {name} mesh")
    return ok(bool(u.any()), name)


BUNDLED = st.fixed_dictionaries({
    "host": st.sampled_from(["cube", "bird", "cheetah", "homer", "teapot", "dragon"]), "k": st.integers(2, 4), "zoom": st.booleans(),
    "seed": gen.seeds(), "field": st.just("random"), "scale": st.just(1.0), "normalise": st.booleans(), "region": st.booleans()})

SUBS = [
    Sub("plot", PLOT, run_plot, 1200, 40000, cost=0.3),
    Sub("noisy", NOISY, run_noisy, 600, 16000, cost=0.4),
    Sub("bundled", BUNDLED, run_bundled, 12, 200, shards=4, cost=8),
]
