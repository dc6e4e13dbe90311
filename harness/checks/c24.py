import dataclasses
import json
import logging
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

import env
import gen
import kinds
import meshgen as mg
import oracle as o
import plots
import subj
from core import HarnessError, Sub, ok
from oracle import check, fail

import sleplet
import sleplet.plotting

ID = "C24"
RULE = ("calls draw a public function or constructor and its arguments; a case makes the call twice and overwrites what "
        "the first returned; processes draw a list of requests made in two new processes; non-trivial when the call was "
        "given at least one array or object; distinct by the drawn case")
ASSUMPTIONS = ["private attributes of the objects given may change (a memo may fill), public ones may not",
               "a function that is translated or convolved loses its real mark, as documented",
               "arrays that share memory with the arguments are not overwritten"]

F, M = sleplet.functions, sleplet.meshes
H, N, S, W, P = (sleplet.harmonic_methods, sleplet.noise, sleplet.slepian_methods, sleplet.wavelet_methods,
                 sleplet.plot_methods)


VARIABLES = ("NCPU", "POLAR_GAP", "SLEPIAN_MASK", "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN")


# ------------------------------------------------------------------ what must not change
def state(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return [state(v, depth + 1) for v in x]
    if isinstance(x, dict):
        return {repr(k): state(v, depth + 1) for k, v in x.items()}
    if dataclasses.is_dataclass(x) and depth < 5:
        return {k: state(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_")}
    if isinstance(x, (int, float, complex, str, bool, np.generic, type(None))):
        return repr(x)
    return None  # generators, cameras: not compared


def difference(a, b, where):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{where}.{k} disappeared"
            d = difference(a[k], b[k], f"{where}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if a == b or a is None:
        return None
    if isinstance(a, tuple) and a[0] == "array":
        return f"{where} was changed"
    return f"{where} was changed from {str(a)[:80]} to {str(b)[:80]}"


def distinctive():
    """Put the process into a state that an earlier call cannot have left behind."""
    np.seterr(divide="warn", over="ignore", under="warn", invalid="warn")
    np.random.seed(20240229)
    random.seed(20240229)
    for k in VARIABLES:
        os.environ.pop(k, None)


def process_state():
    s = np.random.get_state()
    return {"numpy's global generator": (s[0], s[1].tobytes(), s[2:]), "the random module": random.getstate(),
            "the environment": dict(os.environ), "the working directory": os.getcwd(), "numpy's error handling": np.geterr(),
            "numpy's printing": str(np.get_printoptions()), "the recursion limit": sys.getrecursionlimit(),
            "the logging level": (logging.root.level, logging.root.manager.disable),
            "the filters of warnings": [f for f in warnings.filters if f[1] is None and f[2] is Warning and f[3] is None]}


# ------------------------------------------------------------------ results
def result_arrays(x):
    """The arrays and numbers of a result, by name."""
    if x is None:
        return {}
    if isinstance(x, np.ndarray):
        return {"result": x}
    if isinstance(x, (int, float, complex, np.generic)):
        return {"result": np.asarray(x)}
    if isinstance(x, (list, tuple)):
        return {f"{i}.{k}": v for i, y in enumerate(x) for k, v in result_arrays(y).items()}
    out = {}
    for k in ("coefficients", "wavelets", "wavelet_coefficients", "eigenvalues", "slepian_eigenvalues", "N", "snr",
              "reality", "spin", "name"):
        v = getattr(x, k, None)
        if isinstance(v, (np.ndarray, int, float, np.generic)):
            out[k] = np.asarray(v)
        elif isinstance(v, str):
            out[k] = np.asarray([ord(ch) for ch in v])
    for k in ("eigenvectors", "slepian_functions"):
        if hasattr(x, k):
            out[k] = np.asarray(getattr(x, k))[: int(x.N)]  # the others are not saved (C17)
    return out


def same_results(a, b, what):
    check(set(a) == set(b), f"{what}: results {sorted(a)} and {sorted(b)}")
    for k in a:
        check(a[k].shape == b[k].shape, f"{what}: {k} has shape {a[k].shape} and then {b[k].shape}")
        x, y = a[k], b[k]
        if x.dtype.kind in "fc":
            m = np.isfinite(x)
            check((m == np.isfinite(y)).all() and (m.all() or (np.isnan(x) == np.isnan(y)).all()),
                  f"{what}: {k} differs in the values that are not finite")
            size = max(1e-30, abs(x[m]).max(initial=0))
            bad = abs(x[m] - y[m]).max(initial=0)
            check(bad <= 1e-12 * size, f"{what}: {k} differs by {bad:.2e} (size {size:.2e})")
        else:
            check((x == y).all(), f"{what}: {k} differs")


# ------------------------------------------------------------------ the calls
SPHERE = ["boost", "africa", "south_america", "random", "axi_forward", "axi_inverse", "kappas", "nonzero", "snr", "sigma",
          "threshold", "amplitude", "noisy_amplitude", "rotate", "translate", "convolve", "plot", "construct"]
SLEPIAN = ["choose", "choose_wide", "construct_wide", "forward_flm", "forward_f", "forward_mask", "inverse", "functions", "wavelet_forward",
           "wavelet_inverse", "threshold_wavelets", "threshold_function", "construct_slepian", "translate_slepian",
           "amplitude_slepian"]
MESH = ["mesh_forward", "mesh_inverse", "slepian_u", "slepian_u_i", "slepian_mask", "slepian_inverse", "mesh_sigma",
        "mesh_threshold", "construct_mesh", "mesh_amplitude", "plot_mesh", "mesh_slepian"]


@st.composite
def case(draw):
    fam = draw(st.sampled_from(["sphere", "sphere", "slepian", "mesh"]))
    op = draw(st.sampled_from({"sphere": SPHERE, "slepian": SLEPIAN, "mesh": MESH}[fam]))
    L = draw(st.integers(2, 8 if fam == "sphere" else 5))
    c = {"fam": fam, "op": op, "L": L, "sig": draw(gen.signal()), "rows": draw(st.integers(1, 4)),
         "n": draw(st.integers(0, 3)), "t": [draw(st.integers(0, 7)) for _ in range(4)],
         "f": draw(kinds.harmonic(L, L)), "noise": draw(st.one_of(st.none(), st.integers(-5, 15))),
         "real_dtype": draw(st.booleans()), "region": draw(gen.region_spec()),
         "mesh": draw(mg.mesh_spec(small=True)), "k": draw(st.integers(2, 8)),
         "seed": draw(gen.seeds())}
    return c


def sphere_call(c):
    L, op, t = c["L"], c["op"], c["t"]
    n = L * L
    v = gen.vector(c["sig"], n)
    w = gen.vector({**c["sig"], "seed": c["sig"]["seed"] + 1}, c["rows"] * n).reshape(c["rows"], n)
    real = (lambda x: np.ascontiguousarray(x.real)) if c["real_dtype"] else (lambda x: x)
    if op == "boost":
        a = {"flm": v}
        s = t[1] - 3 if t[2] < 3 and abs(t[1] - 3) < L else 0
        return a, lambda: H.invert_flm_boosted(v, L, L + t[0], spin=s)
    if op in ("africa", "south_america"):
        return {"flm": v}, lambda: getattr(H, f"rotate_earth_to_{op}")(v, L)
    if op == "random":
        return {}, lambda: H.compute_random_signal(L, np.random.default_rng(c["seed"]), var_signal=1.0 + t[0])
    B, top = 2 + t[0] % 3, o.j_max(L, 2 + t[0] % 3)
    j_min = t[1] % (top + 1)
    if op in ("axi_forward", "axi_inverse"):
        wav = F.AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets.copy()
        if op == "axi_forward":
            v = real(v)
            return {"flm": v, "wavelets": wav}, lambda: W.axisymmetric_wavelet_forward(L, v, wav)
        w = gen.vector(c["sig"], wav.size).reshape(wav.shape)
        return {"coefficients": w, "wavelets": wav}, lambda: W.axisymmetric_wavelet_inverse(L, w, wav)
    if op == "kappas":
        return {}, lambda: W.create_kappas(L, B, j_min)
    if op == "nonzero":
        w = real(w)
        w[-1] *= t[2] % 2
        return {"coefficients": w}, lambda: W.find_non_zero_wavelet_coefficients(w, axis=1)
    if op == "snr":
        v, u = real(v), real(w[0])
        u[0] += 1
        v[0] += 1
        return {"signal": v, "noise": u}, lambda: N.compute_snr(v, u, "x")
    if op == "sigma":
        v = real(v)
        return {"signal": v}, lambda: N.compute_sigma_noise(v, t[0] - 3, denominator=None if t[1] % 2 else t[2] + 1)
    if op == "threshold":
        sig = np.linspace(0, 1, c["rows"]) * abs(w).max()
        return {"coefficients": w, "deviations": sig}, lambda: N.harmonic_hard_thresholding(L, w, sig[1:], c["n"])
    if op == "plot":
        s = t[0] - 3 if t[1] < 4 else 0
        s = s if abs(s) < L else 0
        f = o.synth_grid(v, L, spin=s)
        notes = [{"x": 0.0, "y": 0.5, "z": 1.0, "text": "a", "arrowcolor": "black"}]
        R = subj.region_of(c["region"], L, (L, P.calc_plot_resolution(L))) if t[2] < 3 else None
        kw = {"spin": s, "normalise": bool(t[3] % 2), "plot_type": ["real", "imag", "abs", "sum"][t[3] % 4],
              "upsample": bool(t[2] % 2), "annotations": notes, "region": R}

        def go():
            with plots.Shown() as shown:
                sleplet.plotting.PlotSphere(f, L, "x", **kw).execute()
            return np.asarray(shown.only("the plot")[0].data[0].surfacecolor)

        return {"field": f, "options": kw}, go
    R = sleplet.slepian.Region(theta_max=1.0)
    if op == "construct":
        kw = {"region": R, "noise": c["noise"]}
        if not np.any(kinds.reference(c["f"])[0]):
            kw["noise"] = None
        args = kinds.kwargs(c["f"])
        return {"arguments": args, "region": R}, lambda: getattr(F, c["f"]["name"])(L, **args, **kw)
    f = kinds.build(c["f"], noise=c["noise"] if np.any(kinds.reference(c["f"])[0]) else None)
    a, b = t[0] * 0.8, t[1] * 0.4
    if op == "rotate":
        return {"function": f}, lambda: f.rotate(a, b, gamma=t[2] * 0.5)
    if op == "translate":
        return {"function": f}, lambda: f.translate(a, b)
    if op == "convolve":
        return {"function": f, "first": v, "second": w[0]}, lambda: f.convolve(v, w[0], shannon=None if t[0] % 2 else t[1])
    if op == "amplitude":
        return {"function": f}, lambda: P.find_max_amplitude(f, plot_type=["real", "imag", "abs", "sum"][t[0] % 4],
                                                            upsample=bool(t[1] % 2))
    return {"function": f}, lambda: P.compute_amplitude_for_noisy_sphere_plots(f)


def slepian_call(c):
    L, op, t = c["L"], c["op"], c["t"]
    if op.endswith("_wide"):  # a double cap beyond the equator is accepted
        R = sleplet.slepian.Region(theta_max=[1.6, 1.9, 2.5, 3.0][t[0] % 4], gap=True)
        if op == "choose_wide":
            return {"region": R}, lambda: S.choose_slepian_method(L, R)
        return {"region": R}, lambda: F.SlepianDiracDelta(L, region=R, noise=c["noise"])
    sl = subj.slepian_of(c["region"], L)
    n, K = L * L, int(sl.N)
    if op != "choose" and K == 0:
        return None
    real = (lambda x: np.ascontiguousarray(x.real)) if c["real_dtype"] else (lambda x: x)
    v = gen.vector(c["sig"], n)
    env.fresh_data()
    R = subj.region_of(c["region"], L)
    if op == "choose":
        return {"region": R}, lambda: S.choose_slepian_method(L, R)
    if op.startswith("forward"):
        kw = {"flm": real(v)} if op == "forward_flm" else {"f": real(o.synth_grid(v, L))}
        if op == "forward_mask":
            kw["mask"] = np.asarray(subj.region_mask(c["region"], L)).astype(float)
        kw["n_coeffs"] = None if t[0] < 5 else min(K, t[1])
        return {"slepian": sl, **kw}, lambda: S.slepian_forward(L, sl, **kw)
    if op == "inverse":
        v = real(v)[: K + t[0]]
        return {"slepian": sl, "coefficients": v}, lambda: S.slepian_inverse(v, L, sl)
    if op == "functions":
        return {"slepian": sl}, lambda: S.compute_s_p_omega(L, sl)
    if op.startswith("wavelet"):
        B = 2 + t[0] % 3
        wav = np.asarray(W.create_kappas(n, B, t[1] % (o.j_max(n, B) + 1))).copy()
        if op == "wavelet_forward":
            v = real(v)
            return {"coefficients": v, "wavelets": wav}, lambda: W.slepian_wavelet_forward(v, wav, K)
        w = real(gen.vector(c["sig"], len(wav) * K).reshape(len(wav), K))
        return {"coefficients": w, "wavelets": wav}, lambda: W.slepian_wavelet_inverse(w, wav, K)
    if op == "threshold_wavelets":
        w = real(gen.vector(c["sig"], c["rows"] * K).reshape(c["rows"], K))
        sig = np.linspace(0, 1, c["rows"]) * abs(w).max()
        return {"slepian": sl, "coefficients": w, "deviations": sig}, \
            lambda: N.slepian_wavelet_hard_thresholding(L, w, sig, c["n"], sl)
    if op == "threshold_function":
        w = real(gen.vector(c["sig"], K))
        return {"slepian": sl, "coefficients": w}, \
            lambda: N.slepian_function_hard_thresholding(L, w, 0.3 * abs(w).max(), c["n"], sl)
    kw = [{"cls": "Slepian", "rank": t[0] % K}, {"cls": "SlepianIdentity"}, {"cls": "SlepianDiracDelta"},
          {"cls": "SlepianWavelets", "B": 2 + t[1] % 3, "j_min": 1}][t[2] % 4]
    cls = getattr(F, kw.pop("cls"))
    if op == "construct_slepian":
        return {"region": R}, lambda: cls(L, region=R, noise=c["noise"], **kw)
    f = cls(L, region=R, noise=c["noise"], **kw)
    if op == "translate_slepian":
        return {"function": f}, lambda: f.translate(t[0] * 0.8, t[1] * 0.4, shannon=K)
    if op == "amplitude_slepian":
        return {"function": f}, lambda: (P.find_max_amplitude(f), P.compute_amplitude_for_noisy_sphere_plots(f))
    raise HarnessError(op)


def mesh_call(c):
    op, t = c["op"], c["t"]
    n = len(mg.upsample(*mg.shape(c["mesh"]), c["mesh"]["up"])[0])
    m, g = mg.memo_mesh(c["mesh"], min(c["k"], n - 1))
    k = len(m.mesh_eigenvalues)
    u = gen.vector(c["sig"], len(g["v"]), complex_=False)
    u_i = gen.vector(c["sig"], k, complex_=False)
    env.fresh_data()
    if op == "mesh_forward":
        return {"mesh": m, "u": u}, lambda: H.mesh_forward(m, u)
    if op == "mesh_inverse":
        return {"mesh": m, "u_i": u_i}, lambda: H.mesh_inverse(m, u_i)
    if op == "mesh_slepian":
        return {"mesh": m}, lambda: M.MeshSlepian(m)
    if op == "plot_mesh":
        def go():
            with plots.Shown() as shown:
                sleplet.plotting.PlotMesh(m, "x", u, normalise=bool(t[0] % 2), region=bool(t[1] % 2)).execute()
            return np.asarray(shown.only("the plot")[0].data[0].intensity)

        return {"mesh": m, "field": u}, go
    names = ["MeshField", "MeshBasisFunctions", "MeshNoiseField"]
    ms = M.MeshSlepian(m)
    K = int(ms.N)
    if K:
        names += ["MeshSlepianField", "MeshSlepianFunctions", "MeshSlepianNoiseField", "MeshSlepianWavelets"]
    cls = names[t[0] % len(names)]
    if op == "construct_mesh":
        kw = {"B": 2, "j_min": 0} if "Wavelets" in cls else {}
        return {"mesh": m}, lambda: getattr(M, cls)(m, noise=c["noise"], **kw)
    if op == "mesh_amplitude":
        f = getattr(M, cls)(m, noise=c["noise"], **({"B": 2, "j_min": 0} if "Wavelets" in cls else {}))
        return {"function": f}, lambda: P.compute_amplitude_for_noisy_mesh_plots(f)
    if K == 0:
        return None
    if op in ("slepian_u", "slepian_mask"):
        return {"mesh": ms, "u": u}, lambda: S.slepian_mesh_forward(ms, u=u, mask=op == "slepian_mask")
    if op == "slepian_u_i":
        return {"mesh": ms, "u_i": u_i}, lambda: S.slepian_mesh_forward(ms, u_i=u_i)
    if op == "slepian_inverse":
        return {"mesh": ms, "coefficients": u_i}, lambda: S.slepian_mesh_inverse(ms, u_i)
    w = gen.vector(c["sig"], c["rows"] * K, complex_=False).reshape(c["rows"], K)
    if op == "mesh_sigma":
        wav = np.asarray(W.create_kappas(k, 2, 0)).copy()
        return {"mesh": ms, "signal": u_i, "wavelets": wav}, lambda: N.compute_slepian_mesh_sigma_j(ms, u_i, wav, t[0] - 3)
    sig = np.linspace(0, 1, c["rows"]) * abs(w).max()
    return {"mesh": ms, "coefficients": w, "deviations": sig}, \
        lambda: N.slepian_mesh_hard_thresholding(ms, w, sig, c["n"])


def arrays_of(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays_of(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays_of(v, depth + 1)
    elif dataclasses.is_dataclass(x) and depth < 5:
        for v in vars(x).values():
            yield from arrays_of(v, depth + 1)


def run_call(c):
    with env.environ(**{k: None for k in VARIABLES}), np.errstate():
        return call_twice(c)


def call_twice(c):
    env.fresh_data()
    distinctive()
    first_state = process_state()
    made = {"sphere": sphere_call, "slepian": slepian_call, "mesh": mesh_call}[c["fam"]](c)
    if made is None:
        return ok(False, "empty region")
    args, call = made
    what = c["op"]
    before, around = state(args), process_state()
    for k in set(around) - {"the environment"}:
        check(first_state[k] == around[k], f"{what}: {k} was changed while its arguments were made")
    for k in VARIABLES:
        check(k not in os.environ, f"{what}: {k} was put into the environment while its arguments were made")

    def unchanged(when, around):
        after, now = state(args), process_state()
        if what in ("translate", "convolve", "translate_slepian"):
            for s in (before, after):
                s["'function'"].pop("reality", None)
        d = difference(before, after, "argument ")
        check(d is None, f"{what}: {d} by {when}")
        for k in around:
            check(around[k] == now[k], f"{what}: {k} was changed by {when}")

    r = call()
    unchanged("the call", around)
    first = result_arrays(r)
    kept = {k: np.array(v) for k, v in first.items()}
    given = list(arrays_of(args))
    for v in arrays_of(r):  # later results must not depend on what happens to earlier ones
        if v.flags.writeable and v.dtype.kind in "fc" and not any(np.shares_memory(v, g) for g in given):
            v[...] = 7
    if dataclasses.is_dataclass(r):
        env.fresh_data()  # nothing to be read back
        if c["fam"] == "slepian":
            subj.region_of(c["region"], c["L"])
    around = process_state()
    again = call()
    unchanged("the second call", around)
    same_results(kept, result_arrays(again), f"{what} called again")
    return ok(bool(given) or bool(args), what, c["fam"])


# ------------------------------------------------------------------ other processes
SCRIPT = """
import json, logging, os, sys
import pooch
pooch.Pooch.load_registry_from_doi = lambda self: None
import numpy as np
import sleplet
out = {}
for i, (name, L, kw, region, noise) in enumerate(json.loads(sys.argv[1])):
    k = dict(kw)
    if region is not None:
        k["region"] = sleplet.slepian.Region(**region)
    if noise is not None:
        k["noise"] = noise
    f = getattr(sleplet.functions, name)(L, **k)
    out[f"c{i}"] = f.coefficients
    out[f"n{i}"] = np.array([ord(x) for x in f.name])
    if hasattr(f, "slepian"):
        out[f"e{i}"] = f.slepian.eigenvalues
np.savez(sys.argv[2], **out)
"""


@st.composite
def requests(draw):
    out = []
    for _ in range(draw(st.integers(3, 8))):
        if draw(st.integers(0, 2)):
            c = draw(kinds.harmonic(2, 10))
            kw = {k: kinds.value(v) for k, v in c["p"].items() if k not in c["drop"]}
            noise = draw(st.sampled_from([None, -7, -0.5, 5, 20])) if np.any(kinds.reference(c)[0]) else None
            out.append([c["name"], c["L"], kw, None, noise])
        else:
            L = draw(st.integers(3, 5))
            r = {"theta_max": draw(st.floats(1.0, 2.5)), "gap": False}
            out.append([draw(st.sampled_from(["SlepianDiracDelta", "SlepianIdentity", "Slepian"])), L, {}, r,
                        draw(st.sampled_from([None, -7, 5]))])
    return {"requests": out, "hash": [draw(st.integers(0, 1000)), draw(st.integers(1001, 4000))]}


def run_process(c):
    got = []
    for h in c["hash"]:
        data = env.fresh_data()
        path = os.path.join(str(data), "out.npz")
        p = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(c["requests"]), path], capture_output=True, text=True,
                           env={**os.environ, "PYTHONHASHSEED": str(h)}, timeout=300)
        if p.returncode:
            if "/repo/src/sleplet" in p.stderr:
                fail(f"{c['requests']} fails in a new process:\n{p.stderr[-1500:]}")
            raise HarnessError(p.stderr[-1500:])
        with np.load(path) as z:
            got.append({k: z[k] for k in z.files})
    same_results(got[0], got[1], f"{c['requests']} in two processes")
    return ok(True, f"{len(c['requests'])} requests")


SUBS = [
    Sub("call", case(), run_call, 8000, 80000, cost=0.02),
    Sub("process", requests(), run_process, 16, 100, shards=4, cost=20),
]
