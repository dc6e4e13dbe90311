import hashlib
import io
import json
import os
import pathlib
import subprocess
import sys
import time
import traceback

import numpy as np
from hypothesis import strategies as st

import env
import gen
import meshgen
import subj
from core import HarnessError, Sub, Violation, ok
from oracle import check, close, fail

import pooch
import requests
import sleplet
import sleplet._data.setup_pooch as lookup

ID = "C18"
RULE = ("a case is a remote archive, a local directory, the network's behaviour at every request and a sequence of "
        "lookups or constructions, run in a process that has looked nothing up before; non-trivial when a file is on "
        "at least one side or the network misbehaves; distinct by the drawn case")
ASSUMPTIONS = ["the network is replaced below pooch, at requests.Session.request",
               "an error, or the local copy, is accepted when a listed remote file cannot be downloaded intact"]

NAMES = ["slepian_masks_a_L4.npy", "slepian_masks_a_L8.npy", "b.npy", "c_eigenvalues.npy", "d.mat", "deep.name.v2.npy",
         "bb.npy", "b.npy.npy", "B.npy", "d"]
BAD = ["refused", "timeout", "dropped", "ssl", "404", "429", "503", "portal", "empty", "html"]


# ------------------------------------------------------------------ a process of its own
def isolated(fun, *args):
    """Run in a forked process, which has not looked anything up."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = {"ok": fun(*args)}
            except Violation as v:
                out = {"violation": str(v)}
            except BaseException as e:  # noqa: BLE001
                frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
                out = {"violation" if any("/repo/src/sleplet" in f for f in frames) else "error": text}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    out = json.loads(text) if text else {"error": "the forked process died"}
    if "violation" in out:
        raise Violation(out["violation"])
    if "error" in out:
        raise HarnessError(out["error"])
    return out["ok"]


# ------------------------------------------------------------------ a pretend Zenodo
class Zenodo:
    DOI = "https://doi.org/10.5281/zenodo.7767698"

    def __init__(self, files, behaviour, api):
        self.files, self.behaviour, self.api = files, behaviour, api
        self.log, self.loads = [], 0
        self.online = True
        self.corrupt = False

    def respond(self, url, body=b"", status=200):
        r = requests.models.Response()
        r.status_code, r.url, r.raw = status, url, io.BytesIO(body)
        r.headers["content-length"] = str(len(body))
        return r

    def fault(self, how, url):
        E = requests.exceptions
        if how == "refused":
            raise E.ConnectionError("connection refused")
        if how == "timeout":
            raise E.ConnectTimeout("timed out")
        if how == "dropped":
            raise E.ChunkedEncodingError("connection broken")
        if how == "ssl":
            raise E.SSLError("certificate verify failed")
        if how == "portal":
            return self.respond("https://login.hotel.example/?to=" + url, b"<html>log in</html>")
        if how == "empty":
            return self.respond(url, b"")
        if how == "html":
            return self.respond(url, b"<html>maintenance</html>")
        status = int(how)
        return self.respond(url, json.dumps({"status": status, "message": "no"}).encode(), status)

    def request(self, method, url, **kw):
        if url == self.DOI:
            self.log.append("doi")
            how = self.behaviour["doi"] if self.online else "refused"
            if how in BAD:
                return self.fault(how, url)
            return self.respond("https://zenodo.org/records/7767698", b"<html/>")
        if url.endswith("/api/records/7767698"):
            self.log.append("api")
            how = self.behaviour["api"] if self.online else "refused"
            if how in BAD:
                return self.fault(how, url)
            out = []
            for n, b in self.files.items():
                md5 = hashlib.md5(b).hexdigest()
                if self.api == "legacy":
                    out.append({"key": n, "checksum": "md5:" + md5,
                                "links": {"self": f"https://zenodo.org/api/records/7767698/files/{n}/content"}})
                else:
                    out.append({"filename": n, "checksum": md5, "id": n})
            return self.respond(url, json.dumps({"id": 7767698, "files": out}).encode())
        for n, b in self.files.items():
            if url.split("?")[0].endswith((f"/files/{n}", f"/files/{n}/content")):
                self.log.append("file:" + n)
                if not self.online:
                    return self.fault("timeout", url)
                return self.respond(url, b[:-1] + bytes([b[-1] ^ 1]) if self.corrupt else b)
        self.log.append("other:" + url)
        return self.respond(url, b"", 404)


def connect(z):
    def load(self, *a, **k):
        z.loads += 1
        return env.REAL_LOAD(self, *a, **k)

    pooch.Pooch.load_registry_from_doi = load
    requests.sessions.Session.request = lambda self, method, url, **kw: z.request(method, url, **kw)
    time.sleep = lambda s: None
    sys.stderr = io.StringIO()
    return z


def content(name, where):
    return f"{where}:{name}:".encode() + bytes(range(64))


# ------------------------------------------------------------------ lookups
def lookups(c, data, cache):
    os.environ["XDG_DATA_HOME"], os.environ["XDG_CACHE_HOME"] = str(data), str(cache)
    data = pathlib.Path(data)
    remote = {n: content(n, "remote") for n in c["remote"]}
    z = connect(Zenodo(remote, {"doi": c["doi"], "api": c["api_fault"]}, c["api"]))
    local = {}

    def put(n):
        data.mkdir(parents=True, exist_ok=True)
        (data / n).write_bytes(content(n, "local"))
        local[n] = data / n

    for n in c["local"]:
        put(n)
    for n in c["stale"]:  # left by an earlier version of the archive, or by a download that broke off
        (pathlib.Path(cache) / "sleplet").mkdir(parents=True, exist_ok=True)
        (pathlib.Path(cache) / "sleplet" / n).write_bytes(content(n, c["older"])[: 9 if c["older"] == "remote" else None])
    looked, loaded, labels, cached = 0, False, set(), set()
    for k, op in enumerate(c["ops"]):
        n = NAMES[op["at"] % len(NAMES)]
        if op["op"] == "add":
            put(n)
            continue
        if op["op"] == "remove":
            if n in local:
                local.pop(n).unlink()
            continue
        z.online, z.corrupt = not op["offline"], op["corrupt"]
        if not looked:
            check(not z.log, f"network used before the first lookup: {z.log[:3]}")
            loaded = z.online and c["doi"] == c["api_fault"] == "ok"
        looked += 1
        listed = loaded and n in remote
        what = f"step {k}, lookup of {n} ({'listed' if listed else 'not listed'}, {'local' if n in local else 'not local'})"
        start = len(z.log)
        try:
            got = lookup.find_on_pooch_then_local(n)
        except Exception as e:
            if listed and n not in cached and not (z.online and not z.corrupt):
                labels.add("download-failed")
                continue
            raise
        new = z.log[start:]
        if listed:
            check(got is not None, f"{what}: nothing found")
            b = pathlib.Path(got).read_bytes()
            if b != remote[n]:
                check(not (z.online and not z.corrupt) and n not in cached and n in local and b == content(n, "local"),
                      f"{what}: {got} is not the remote copy")
                labels.add("download-failed-local")
            else:
                cached.add(n)
                labels.add("remote")
        elif n in local:
            check(got is not None and pathlib.Path(got).resolve() == local[n].resolve(), f"{what}: got {got!r}")
            check(pathlib.Path(got).read_bytes() == content(n, "local"), f"{what}: the local copy was changed")
            labels.add("local")
        else:
            check(got is None, f"{what}: got {got!r}, expected nothing")
            labels.add("none")
        check(looked == 1 or listed or not new, f"{what}: network used again for a file that is not listed: {new[:3]}")
        bad = [x for x in new if x == "file:" + n and not listed or x.startswith("file:") and x != "file:" + n]
        check(not bad, f"{what}: unrelated downloads {bad[:3]}")
        for m, p in local.items():
            check(p.read_bytes() == content(m, "local"), f"{what}: the local copy of {m} was changed")
    check(z.loads <= 1, f"the registry was loaded {z.loads} times")
    if looked:
        labels.add("registry-loaded" if loaded else "registry-unreachable")
    return [bool(looked and (c["remote"] or c["local"] or not loaded)), sorted(labels)]


def run_lookup(c):
    data = env.fresh_data()
    cache = data.parent / (data.name + "-cache")
    try:
        nt, labels = isolated(lookups, c, str(data / c["sub"]), str(cache))
    finally:
        __import__("shutil").rmtree(cache, ignore_errors=True)
    return ok(nt, *labels)


OK = st.just("ok")
NET = st.one_of(OK, OK, OK, st.sampled_from(BAD))


@st.composite
def lookup_case(draw):
    names = st.lists(st.sampled_from(NAMES), unique=True)
    idx = st.integers(0, len(NAMES) - 1)
    find = st.builds(lambda a, o, x: {"op": "find", "at": a, "offline": o, "corrupt": x},
                     idx, st.sampled_from([False, False, False, True]), st.sampled_from([False] * 5 + [True]))
    change = st.builds(lambda o, a: {"op": o, "at": a}, st.sampled_from(["add", "remove"]), idx)
    doi = draw(NET)
    return {"remote": draw(names), "local": draw(names), "stale": draw(names),
            "older": draw(st.sampled_from(["older", "remote", "local"])), "doi": doi,
            "api_fault": draw(NET.filter(lambda x: x != "portal")) if doi == "ok" else "ok",
            "api": draw(st.sampled_from(["legacy", "new"])), "sub": draw(st.sampled_from(["", "not/yet/there"])),
            "ops": draw(st.lists(st.one_of(find, find, find, change), min_size=1, max_size=10))}


# ------------------------------------------------------------------ products
def products(c, made, data, cache):
    """`made` are the files of the product; each is placed on the drawn side with a value that tells them apart."""
    data = pathlib.Path(data)
    os.environ["XDG_DATA_HOME"], os.environ["XDG_CACHE_HOME"] = str(data), str(cache)
    files = {p: np.load(io.BytesIO(bytes.fromhex(b))) for p, b in made.items()}

    def dump(a, factor):
        buf = io.BytesIO()
        np.save(buf, a * factor if a.dtype.kind == "f" and a.ndim == 1 else a)
        return buf.getvalue()

    for f in data.glob("*.npy"):
        if not f.name.startswith("slepian_masks_"):
            f.unlink()
    remote = {n: dump(a, 0.5) for n, a in files.items()} if c["where"] in ("remote", "both") else {}
    if c["where"] in ("local", "both"):
        for n, a in files.items():
            (data / n).write_bytes(dump(a, 0.25))
    connect(Zenodo(remote, {"doi": c["doi"], "api": "ok"}, "legacy"))
    x = make(c)
    got = np.concatenate([np.ravel(v) for v in eigenvalues(x, c)])
    want = np.concatenate([np.ravel(v) for v in c["expected"]])
    factor = 1.0
    if c["where"] in ("remote", "both") and c["doi"] == "ok":
        factor = 0.5
    elif c["where"] in ("local", "both"):
        factor = 0.25
    close(got, want * factor, 1e-9, f"eigenvalues of {c['kind']} found {c['where']} (registry {c['doi']})")
    return True


def make(c):
    S = sleplet.slepian
    if c["kind"] == "mesh":
        with meshgen.mesh_files(c["mesh"]):
            return sleplet.meshes.Mesh("bird", number_basis_functions=4)
    r = c["region"]
    return sleplet.slepian_methods.choose_slepian_method(c["L"], subj.region_of(r, c["L"]))


def eigenvalues(x, c):
    return [np.asarray(x.mesh_eigenvalues)] if c["kind"] == "mesh" else [np.asarray(x.eigenvalues)]


def build_product(c, data):
    os.environ["XDG_DATA_HOME"] = str(data)
    pooch.Pooch.load_registry_from_doi = lambda self: None
    x = make(c)
    made = {p.name: p.read_bytes().hex() for p in pathlib.Path(data).glob("*.npy")}
    return [v.tolist() for v in eigenvalues(x, c)], made


def run_product(c):
    data = env.fresh_data()
    expected, made = isolated(build_product, c, str(data))
    c = {**c, "expected": expected}
    made = {k: v for k, v in made.items() if not k.startswith("slepian_masks_")}
    check(made, "nothing was saved by the construction")
    cache = data.parent / (data.name + "-cache")
    try:
        isolated(products, c, made, str(data), str(cache))
    finally:
        __import__("shutil").rmtree(cache, ignore_errors=True)
    return ok(c["where"] != "nowhere", c["kind"], c["where"], "doi-" + c["doi"])


@st.composite
def product_case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "where": draw(st.sampled_from(["both", "remote", "local", "nowhere"])),
         "doi": draw(st.sampled_from(["ok", "ok", "ok", "refused"])), "L": draw(st.integers(2, 3))}
    if kind == "mesh":
        c["mesh"] = draw(meshgen.mesh_spec(small=True))
        c["mesh"]["up"] = 0
    else:
        c["region"] = draw(gen.region_spec().filter(
            lambda r: r["type"] == kind and (kind != "mask" or gen.build_mask(r["mask"], 2 * c["L"]).any())))
    return c


# ------------------------------------------------------------------ masks
def masks(c, data, cache):
    os.environ["XDG_DATA_HOME"], os.environ["XDG_CACHE_HOME"] = str(data), str(cache)
    L = c["L"]
    name = f"slepian_masks_{c['name']}_L{L}.npy"
    a, b = gen.build_mask(c["a"], L), gen.build_mask(c["b"], L)

    def dump(m):
        buf = io.BytesIO()
        np.save(buf, m)
        return buf.getvalue()

    connect(Zenodo({name: dump(a)} if c["remote"] else {}, {"doi": c["doi"], "api": "ok"}, "legacy"))
    if c["local"]:
        pathlib.Path(data).mkdir(parents=True, exist_ok=True)
        (pathlib.Path(data) / name).write_bytes(dump(b))
    want = a if c["remote"] and c["doi"] == "ok" else b if c["local"] else None
    R = sleplet.slepian.Region(mask_name=c["name"])
    try:
        got = sleplet._mask_methods.create_mask_region(L, R)
    except Exception as e:
        check(want is None, f"the mask {name} was not found: {type(e).__name__} {e}")
        return "nowhere"
    check(want is not None, f"a mask was produced for the unknown name {c['name']}")
    check(np.array_equal(np.asarray(got).astype(bool), want), f"mask {name} is not the one found first")
    return "remote" if want is a else "local"


def run_mask(c):
    data = env.fresh_data()
    cache = data.parent / (data.name + "-cache")
    try:
        lab = isolated(masks, c, str(data), str(cache))
    finally:
        __import__("shutil").rmtree(cache, ignore_errors=True)
    return ok(lab != "nowhere", lab)


MASK = st.fixed_dictionaries({
    "L": st.integers(1, 6), "name": st.sampled_from(["blob", "africa2", "x_L4"]), "a": gen.mask_spec(), "b": gen.mask_spec(),
    "remote": st.booleans(), "local": st.booleans(), "doi": st.sampled_from(["ok", "ok", "timeout", "429"])})

# ------------------------------------------------------------------ laziness
SCRIPT = r"""
import importlib, json, os, sys, socket
order = json.loads(sys.argv[1])
import requests, pooch
log = []
def request(self, method, url, **kw):
    log.append(url)
    raise requests.exceptions.ConnectionError("offline")
requests.sessions.Session.request = request
real = socket.socket.connect
def conn(self, addr, *a):
    log.append(repr(addr))
    raise OSError("offline")
socket.socket.connect = conn
load = pooch.Pooch.load_registry_from_doi
def loading(self, *a, **k):
    log.append("load")
    return load(self, *a, **k)
pooch.Pooch.load_registry_from_doi = loading
for m in order:
    importlib.import_module(m)
import sleplet
sleplet.functions.HarmonicGaussian(4)
sleplet.slepian.Region(theta_max=1)
sleplet.slepian_methods
early = list(log)
find = importlib.import_module("sleplet._data.setup_pooch").find_on_pooch_then_local
answers = [find("nothing.npy"), find("nothing.npy"), find("other.npy")]
print("RESULT" + json.dumps({"early": early, "loads": log.count("load"), "urls": [x for x in log if x != "load"],
                             "answers": [repr(a) for a in answers]}))
"""


def modules():
    root = pathlib.Path(sleplet.__file__).parent
    out = []
    for p in sorted(root.rglob("*.py")):
        rel = p.relative_to(root.parent).with_suffix("")
        out.append(".".join(rel.parts[:-1] if rel.name == "__init__" else rel.parts))
    return out


def run_lazy(c):
    data = env.fresh_data()
    mods = modules()
    order = [mods[i % len(mods)] for i in c["order"]] + (mods if c["all"] else [])
    e = {**os.environ, "XDG_CACHE_HOME": str(data / "cache")}
    p = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(order)], capture_output=True, text=True, env=e, timeout=200)
    line = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    if not line:
        if "/repo/src/sleplet" in p.stderr:
            fail(f"importing {order[:3]}... fails offline:\n{p.stderr[-1500:]}")
        raise HarnessError(p.stderr[-1500:])
    r = json.loads(line[0][6:])
    check(not r["early"], f"the network or the registry is used on import of {order[:3]}...: {r['early'][:3]}")
    check(r["loads"] <= 1, f"the registry is loaded {r['loads']} times in one process")
    check(r["answers"] == ["None"] * 3, f"offline lookups of unknown files give {r['answers']}")
    return ok(True, "all" if c["all"] else "some")


LAZY = st.fixed_dictionaries({"order": st.lists(st.integers(0, 200), max_size=6), "all": st.booleans()})

SUBS = [
    Sub("lookup", lookup_case(), run_lookup, 1200, 40000, cost=0.1),
    Sub("mask", MASK, run_mask, 240, 8000, cost=0.1),
    Sub("product", product_case(["polar", "mask", "mesh"]), run_product, 160, 4000, cost=0.4),
    Sub("product_lim", product_case(["lim"]), run_product, 8, 200, shards=4, cost=20),
    Sub("lazy", LAZY, run_lazy, 8, 80, shards=4, cost=20),
]
