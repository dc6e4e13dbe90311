import gc
import json
import os
import sys
import threading
import time

import multiprocess.shared_memory as shm_a
import multiprocessing.shared_memory as shm_b
import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen
import subj
from core import Sub, ok
from oracle import as_array, check, close, fail

import sleplet
import sleplet._parallel_methods as pm

ID = "C19"
RULE = ("a case is a problem (cap, arbitrary region or mesh), a number of CPUs from 1 to beyond its size, and a thread "
        "schedule or an error raised in a drawn call made by a worker; non-trivial when more than one worker has work "
        "or an error was raised; distinct by the drawn case")
ASSUMPTIONS = ["workers are threads, as in the code; schedules are perturbed by delays at calls inside sleplet and by the "
               "interpreter's switch interval, not enumerated"]
SRC = str(__import__("pathlib").Path(sleplet.__file__).parent)


# ------------------------------------------------------------------ chunks
def run_chunks(c):
    n, k = c["n"], c["ncpu"]
    chunks = pm.split_arr_into_chunks(n, k)
    parts = [as_array(x, what="chunk").ravel() for x in chunks]
    every = np.concatenate(parts) if parts else np.empty(0)
    check(len(parts) <= max(k, 1), f"{len(parts)} chunks for {k} workers")
    check(sorted(every.tolist()) == list(range(n)),
          f"split of {n} elements over {k} workers assigns {sorted(every.tolist())[:20]}...")
    return ok(n > 1 and k > 1, "more-workers" if k > n else "fewer-workers")


CHUNKS = st.fixed_dictionaries({"n": st.one_of(st.integers(0, 40), st.integers(0, 5000)),
                                "ncpu": st.one_of(st.integers(1, 12), st.integers(1, 200))})


# ------------------------------------------------------------------ problems
class Recorder:
    """Names of the shared memory blocks created, of both implementations of the class."""

    def __enter__(self):
        self.names, self.old = [], []
        for mod in (shm_a, shm_b):
            cls = mod.SharedMemory
            init = cls.__init__
            self.old.append((cls, init))

            def rec(obj, *a, _init=init, **k):
                _init(obj, *a, **k)
                if k.get("create") or (len(a) > 1 and a[1]):
                    self.names.append(obj.name)

            cls.__init__ = rec
        return self

    def __exit__(self, *e):
        for cls, init in self.old:
            cls.__init__ = init

    def leaks(self):
        gc.collect()
        left = [n for n in self.names if os.path.exists("/dev/shm/" + n.lstrip("/"))]
        with open("/proc/self/maps") as f:
            maps = f.read()
        return left, [n for n in self.names if n.lstrip("/") in maps]


def construct(p):
    S = sleplet.slepian
    if p["kind"] == "mesh":
        with meshgen.mesh_files(p["mesh"]):
            m = sleplet.meshes.Mesh("bird", number_basis_functions=p["k"])
        x = sleplet.meshes.MeshSlepian(m)
        return np.asarray(x.slepian_eigenvalues).copy(), np.asarray(x.slepian_functions).copy()
    if p["kind"] == "polar":
        x = S.SlepianPolarCap(p["L"], p["theta"], gap=p["gap"], order=p["order"])
    else:
        x = S.SlepianArbitrary(p["L"], subj.mask_name(p["mask"]))
    return np.asarray(x.eigenvalues).copy(), np.asarray(x.eigenvectors).copy()


def prepare(p):
    """Empty data directory holding the inputs, for a mesh also its basis functions."""
    data = env.fresh_data()
    if p["kind"] == "mask":
        for g in (p["L"], 2 * p["L"]):
            subj.save_mask(gen.build_mask(p["mask"], g), subj.mask_name(p["mask"]), g, data)
    if p["kind"] == "mesh":
        with meshgen.mesh_files(p["mesh"]):
            sleplet.meshes.Mesh("bird", number_basis_functions=p["k"])
    return data


_ref = {}


def reference(p):
    key = json.dumps(p, sort_keys=True)
    if key not in _ref:
        if len(_ref) > 300:
            _ref.clear()
        prepare(p)
        with env.environ(NCPU="1"):
            _ref[key] = construct(p)
    return _ref[key]


def same(got, ref, what):
    close(got[0], ref[0], 1e-12, f"{what}: eigenvalues")
    a, b = got[1], ref[1]
    check(a.shape == b.shape, f"{what}: eigenvectors {a.shape}, one worker gives {b.shape}")
    close(a, b, 1e-9, f"{what}: eigenvectors")


@st.composite
def problem(draw, small=False):
    kind = draw(st.sampled_from(["polar", "mask", "mesh"]))
    if kind == "polar":
        L = draw(gen.bandlimit(1, 4 if small else 7))
        return {"kind": kind, "L": L, "theta": draw(gen.colat(0.3, 1.5)), "gap": draw(st.booleans()),
                "order": draw(st.one_of(st.none(), st.integers(-(L - 1), L - 1)))}
    if kind == "mask":
        L = draw(gen.bandlimit(1, 3 if small else 4))
        return {"kind": kind, "L": L, "mask": draw(gen.mask_spec().filter(lambda m: gen.build_mask(m, 2 * L).any()))}
    spec = draw(meshgen.mesh_spec(small=True))
    spec["up"] = 0
    n = len(meshgen.shape(spec)[0])  # fewer functions than vertices
    return {"kind": kind, "mesh": spec, "k": draw(st.integers(1, 5 if small else min(9, n - 1)))}


def size(p):
    return {"polar": lambda: p["L"], "mask": lambda: p["L"] ** 2, "mesh": lambda: p["k"]}[p["kind"]]()


@st.composite
def ncpus(draw, n):  # None leaves the variable unset
    return draw(st.one_of(st.integers(1, n + 1), st.integers(2, 8), st.sampled_from([None, n, n + 1, 2 * n + 3, 33])))


# ------------------------------------------------------------------ number of CPUs and schedules
class Tracer:
    """Delay or fail drawn calls made inside sleplet by threads other than the main one."""

    def __init__(self, delays=None, fail_at=None, exc=None):
        self.delays, self.fail_at, self.exc = delays or {}, fail_at, exc
        self.count, self.lock, self.fired = 0, threading.Lock(), False

    def __call__(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(SRC):
            return None
        with self.lock:
            n = self.count
            self.count += 1
        if self.fail_at is not None and n == self.fail_at:
            self.fired = True
            raise self.exc
        d = self.delays.get(n % 64)
        if d:
            time.sleep(d)
        return None

    def __enter__(self):
        threading.settrace(self)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *e):
        threading.settrace(None)
        sys.setswitchinterval(self.old)


def run_ncpu(c):
    p = c["problem"]
    ref = reference(p)
    prepare(p)
    what = f"NCPU={c['ncpu']}, {p}"
    delays = {int(k): v / 2000 for k, v in c["delays"].items()}
    with Recorder() as rec, env.environ(NCPU=c["ncpu"]), Tracer(delays) as t:
        got = construct(p)
    same(got, ref, what)
    left, mapped = rec.leaks()
    check(not left, f"{what}: shared memory {left[:3]} not released")
    check(not mapped, f"{what}: shared memory {mapped[:3]} still mapped")
    k = c["ncpu"] or 4
    return ok(k > 1 and size(p) > 1, p["kind"], "delayed" if delays else "undisturbed",
              "more-workers" if k > size(p) else "fewer-workers", "traced" if t.count else "no-thread")


@st.composite
def ncpu_case(draw):
    p = draw(problem())
    return {"problem": p, "ncpu": draw(ncpus(size(p))),
            "delays": draw(st.one_of(st.just({}), st.dictionaries(st.integers(0, 63).map(str), st.integers(1, 4), max_size=6)))}


# ------------------------------------------------------------------ faults
ERRORS = {"runtime": RuntimeError, "memory": MemoryError, "value": ValueError, "type": TypeError, "key": KeyError,
          "os": OSError, "attribute": AttributeError, "index": IndexError, "assertion": AssertionError,
          "zero": ZeroDivisionError, "stop": StopIteration}
_count = {}


def run_fault(c):
    p = c["problem"]
    ref = reference(p)
    what = f"NCPU={c['ncpu']}, {p}"
    key = json.dumps([p, c["ncpu"]], sort_keys=True)
    if key not in _count:
        prepare(p)
        with env.environ(NCPU=c["ncpu"]), Tracer() as t:
            construct(p)
        _count[key] = t.count
    if not _count[key]:
        return ok(False, "no-thread")
    data = prepare(p)
    before = {f.name for f in data.iterdir()} if data.exists() else set()
    mark = f"injected {c['error']} fault"
    hook = Tracer(fail_at=c["at"] % _count[key], exc=ERRORS[c["error"]](mark))
    got = None
    rec = Recorder()
    with rec, env.environ(NCPU=c["ncpu"]), hook:
        try:
            got = construct(p)
        except BaseException as e:  # noqa: BLE001
            if not hook.fired:
                raise
            seen, x = [], e
            while x is not None and x not in seen:
                seen.append(x)
                x = x.__cause__ or x.__context__
            if not any(mark in str(x) for x in seen) and isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
    for n in set(rec.names):  # release what the failed construction holds
        if os.path.exists("/dev/shm/" + n.lstrip("/")):
            os.unlink("/dev/shm/" + n.lstrip("/"))
    after = {f.name for f in data.iterdir()} if data.exists() else set()
    if got is not None:
        if hook.fired:
            fail(f"{what}: a worker raised {c['error']} in its call {hook.fail_at} but a solution was returned")
        same(got, ref, what)
        return ok(False, "not-reached")
    check(after <= before, f"{what}: files {sorted(after - before)} were saved although a worker raised {c['error']}")
    # the failure leaves nothing behind: asking again gives the solution
    with env.environ(NCPU=c["ncpu"]):
        same(construct(p), ref, what + " after an error")
    return ok(True, p["kind"], c["error"])


@st.composite
def fault_case(draw):
    p = draw(problem(small=True))
    return {"problem": p, "ncpu": draw(ncpus(size(p))), "at": draw(st.integers(0, 10**6)),
            "error": draw(st.sampled_from(sorted(ERRORS)))}


SUBS = [
    Sub("chunks", CHUNKS, run_chunks, 4000, 200000, cost=0.01),
    Sub("ncpu", ncpu_case(), run_ncpu, 320, 10000, cost=1.0),
    Sub("fault", fault_case(), run_fault, 320, 10000, cost=1.0),
]
