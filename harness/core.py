"""Runner shared by the checks.

A check module (checks/cNN.py) defines

    ID, RULE, ASSUMPTIONS, SUBS = [Sub(...), ...]

and each `Sub` couples a Hypothesis strategy of JSON-able cases with `run(case)`,
which drives the code in /repo and compares it with an oracle. `run` raises
`Violation` when the property is broken and returns `ok(nontrivial, *labels)`.
"""

from __future__ import annotations

import argparse
import collections
import dataclasses
import hashlib
import importlib
import json
import os
import pathlib
import resource
import shutil
import subprocess
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO_SRC = "/repo/src/sleplet"
WORKERS = 8
CASE_LIMIT = {"quick": 240, "thorough": 900}  # a single case never takes this long
BUDGET = {"quick": 150, "thorough": 3000}  # seconds of generation; safety net only
SHRINK = {"quick": 45, "thorough": 300}


class Violation(Exception):
    """The property is broken by the case being run."""


class HarnessError(Exception):
    """The check itself failed."""


class _Stop(Exception):
    pass


@dataclasses.dataclass
class Sub:
    name: str
    strategy: object
    run: object
    quick: int
    thorough: int
    shards: int = 8  # at most this many independent generator seeds
    cost: float = 1.0  # relative cost of a case, for balancing the workers
    rule: str = ""
    crash_ok: bool = False  # exceptions out of sleplet are judged by `run` itself


def ok(nontrivial=True, *labels):
    return {"nt": bool(nontrivial), "labels": list(labels)}


def seed_base():
    try:
        return int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        return 1


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def derive(*parts):
    return int(hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()[:12], 16)


# --------------------------------------------------------------------------- cases
MALFORMED = (ValueError, IndexError, ZeroDivisionError)  # LinAlgError is a ValueError


def classify(exc):
    """Turn an exception raised by `run` into a Violation or a HarnessError."""
    if isinstance(exc, Violation):
        return exc
    if isinstance(exc, HarnessError):
        return exc
    last = None
    for fs in traceback.extract_tb(exc.__traceback__):
        if fs.filename.startswith(REPO_SRC):
            last = ("sleplet", fs)
        elif fs.filename.startswith(str(HERE)):
            last = ("harness", fs)
    text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])
    if type(exc).__name__ == "ValidationError" and type(exc).__module__.startswith("pydantic"):
        # raised inside the constructors of sleplet, whose frames pydantic drops
        return Violation(f"a valid request was refused: {exc}\n{text}")
    if last and last[0] == "sleplet" and not isinstance(exc, MemoryError):
        where = last[1]
        return Violation(
            f"unexpected {type(exc).__name__}: {exc} at "
            f"{os.path.relpath(where.filename, '/repo')}:{where.name} for a valid request\n{text}"
        )
    if isinstance(exc, MALFORMED) and not isinstance(
        exc, (json.JSONDecodeError, UnicodeError)
    ) and "unpack" not in str(exc):
        # sleplet returned, but what it returned cannot be compared at all: arrays of
        # the wrong shape or length (the same code judges every request, so that this
        # never happens while results are well formed)
        return Violation(
            f"the result is malformed ({type(exc).__name__}: {exc})\n{text}"
        )
    return HarnessError(f"{type(exc).__name__}: {exc}\n{text}")


def run_case(sub, case):
    try:
        return sub.run(case)
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        raise classify(e) from e


def worker_main(module, tasks_file, out_file, tier, t_end):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    import env

    env.prepare()
    mod = importlib.import_module(f"checks.{module}")
    subs = {s.name: s for s in mod.SUBS}
    tasks = json.loads(pathlib.Path(tasks_file).read_text())
    out = {"tasks": [], "done": False}
    last_path = pathlib.Path(out_file + ".last")

    for name, shard, count in tasks:
        sub = subs[name]
        st = {
            "evals": 0, "nt": set(), "seen": set(), "labels": collections.Counter(),
            "samples": [], "fail": None, "fail_t": None, "failing": {}, "cut": 0,
            "by_label": set(),
        }
        t0 = time.time()

        def one(case, st, sub):
            d = digest(case)
            if d in st["failing"]:
                st["fail"] = (case, st["failing"][d])
                raise Violation(st["failing"][d])
            now = time.time()
            if st["fail_t"] is not None:
                if now - st["fail_t"] > SHRINK[tier]:
                    return
            elif now > t_end:
                st["cut"] += 1
                return
            last_path.write_text(json.dumps({"sub": sub.name, "case": case, "t": now}))
            try:
                res = run_case(sub, case)
            except Violation as v:
                st["evals"] += 1
                if st["fail_t"] is None:
                    st["fail_t"] = time.time()
                st["failing"][d] = str(v)
                st["fail"] = (case, str(v))
                raise
            st["evals"] += 1
            if res["nt"]:
                st["nt"].add(d)
            st["seen"].add(d)
            for lab in res["labels"]:
                st["labels"][lab] += 1
            key = tuple(res["labels"])
            if res["nt"] and key not in st["by_label"] and len(st["samples"]) < 3:
                st["by_label"].add(key)
                st["samples"].append(case)

        def bind(st, sub):
            def body(case):
                one(case, st, sub)

            return body

        test = given(sub.strategy)(bind(st, sub))
        test = hypothesis.seed(derive(seed_base(), module, name, shard))(test)
        test = settings(
            max_examples=count, database=None, deadline=None,
            report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck), print_blob=False,
        )(test)
        err = None
        try:
            import io
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except Violation:
            pass
        except HarnessError as e:
            err = str(e)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if st["fail"] is None:
                err = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        rec = {
            "sub": name, "shard": shard, "evals": st["evals"], "distinct": sorted(st["seen"]),
            "nt": sorted(st["nt"]), "labels": dict(st["labels"]), "samples": st["samples"],
            "fail": st["fail"], "err": err, "cut": st["cut"], "wall": round(time.time() - t0, 2),
        }
        out["tasks"].append(rec)
        pathlib.Path(out_file).write_text(json.dumps(out))
        if st["fail"] or err:
            break
    out["done"] = True
    pathlib.Path(out_file).write_text(json.dumps(out))
    env.finish()
    return 0


# --------------------------------------------------------------------------- parent
def plan(mod, tier):
    tasks = []
    for s in mod.SUBS:
        n = s.quick if tier == "quick" else s.thorough
        if n <= 0:
            continue
        k = max(1, min(s.shards, n))
        for i in range(k):
            c = n // k + (1 if i < n % k else 0)
            tasks.append((c * s.cost, [s.name, i, c]))
    tasks.sort(key=lambda t: (-t[0], t[1][0], t[1][1]))
    loads = [0.0] * WORKERS
    bins = [[] for _ in range(WORKERS)]
    for cost, t in tasks:
        w = loads.index(min(loads))
        bins[w].append(t)
        loads[w] += cost + 0.05
    # cheap tasks first: running out of time only cuts the costly ones
    return [b[::-1] for b in bins if b]


def write_replay(pid, name, case, msg):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    p = d / f"{pid}-{name}-{digest(case)}.json"
    p.write_text(json.dumps({"property": pid, "sub": name, "case": case, "message": msg}, indent=1))
    return p


def load_findings(pid):
    """Committed known findings: see /verif/known_findings.json."""
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [f for f in json.loads(p.read_text())["findings"]
            if f["property"] == pid and f["status"] == "known"]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="run only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    module = a.id.lower()
    if a.worker:
        return worker_main(module, a.worker[0], a.worker[1], tier, float(a.worker[2]))

    if a.replay:
        import env

        env.prepare()
        mod = importlib.import_module(f"checks.{module}")
        rep = json.loads(pathlib.Path(a.replay).read_text())
        sub = {s.name: s for s in mod.SUBS}[rep["sub"]]
        try:
            run_case(sub, rep["case"])
        except Violation as v:
            print(v)
            print(f"VIOLATION property={a.id} replay={a.replay}")
            return 1
        print("replay passes")
        return 0

    t0 = time.time()
    scratch = pathlib.Path(os.environ["VP_SCRATCH"])
    import env

    env.prepare()
    mod = importlib.import_module(f"checks.{module}")
    if a.sub:
        mod.SUBS = [s for s in mod.SUBS if s.name in a.sub.split(",")]
    if a.scale != 1.0:
        for s in mod.SUBS:
            s.quick = max(1, int(s.quick * a.scale))
            s.thorough = max(1, int(s.thorough * a.scale))
    bins = plan(mod, tier)
    t_end = t0 + BUDGET[tier]
    procs = []
    for i, tasks in enumerate(bins):
        tf, of = scratch / f"tasks{i}.json", scratch / f"out{i}.json"
        tf.write_text(json.dumps(tasks))
        wenv = dict(os.environ)
        wd = scratch / f"w{i}"
        for k in ("data", "tmp", "cache", "config", "home"):
            (wd / k).mkdir(parents=True, exist_ok=True)
        wenv.update(VP_SCRATCH=str(wd), TMPDIR=str(wd / "tmp"), HOME=str(wd / "home"),
                    XDG_DATA_HOME=str(wd / "data"), XDG_CACHE_HOME=str(wd / "cache"),
                    XDG_CONFIG_HOME=str(wd / "config"))
        log = open(scratch / f"log{i}", "wb")
        p = subprocess.Popen(
            [sys.executable, str(HERE / "run_check.py"), a.id, "--tier", tier,
             "--worker", str(tf), str(of), str(t_end)],
            env=wenv, cwd=wd, stdout=log, stderr=subprocess.STDOUT,
        )
        procs.append((p, of, scratch / f"log{i}"))

    hung = {}
    pending = set(range(len(procs)))
    while pending:
        time.sleep(0.05)
        now = time.time()
        for i in list(pending):
            p, of, _ = procs[i]
            if p.poll() is not None:
                pending.discard(i)
                continue
            last = pathlib.Path(str(of) + ".last")
            try:
                rec = json.loads(last.read_text())
                if now - rec["t"] > CASE_LIMIT[tier]:
                    hung[i] = rec
                    p.kill()
            except (OSError, ValueError):
                if now - t0 > CASE_LIMIT[tier] + 120:
                    hung[i] = None
                    p.kill()

    total = {"evals": 0, "nt": set(), "distinct": set(), "labels": collections.Counter(),
             "samples": [], "cut": 0}
    per_sub = collections.defaultdict(
        lambda: {"evaluations": 0, "distinct": set(), "nt": set(), "wall": 0.0, "cut": 0})
    fails, errors = [], []
    for i, (p, of, log) in enumerate(procs):
        out = json.loads(of.read_text()) if of.exists() else {"tasks": [], "done": False}
        for rec in out["tasks"]:
            s = per_sub[rec["sub"]]
            s["evaluations"] += rec["evals"]
            s["distinct"] |= set(rec["distinct"])
            s["nt"] |= set(rec["nt"])
            s["wall"] = max(s["wall"], rec["wall"])
            s["cut"] += rec["cut"]
            total["labels"].update({f"{rec['sub']}:{k}": v for k, v in rec["labels"].items()})
            if rec["shard"] == 0:
                total["samples"] += [{"sub": rec["sub"], "case": c} for c in rec["samples"][:2]]
            if rec["fail"]:
                fails.append((rec["sub"], rec["fail"][0], rec["fail"][1]))
            if rec["err"]:
                errors.append(f"{rec['sub']}: {rec['err']}")
        if not out["done"]:
            last = pathlib.Path(str(of) + ".last")
            if i in hung:
                if hung[i] is None:
                    errors.append(f"worker {i} never started a case")
                else:
                    fails.append((hung[i]["sub"], hung[i]["case"],
                                  f"the request did not finish within {CASE_LIMIT[tier]} s"))
            elif p.returncode is not None and p.returncode < 0 and p.returncode != -9 and last.exists():
                rec = json.loads(last.read_text())
                fails.append((rec["sub"], rec["case"], f"process died with signal {-p.returncode}"))
            else:
                tail = log.read_bytes()[-3000:].decode(errors="replace")
                errors.append(f"worker {i} ended with {p.returncode}\n{tail}")

    for name, s in per_sub.items():
        total["evals"] += s["evaluations"]
        total["nt"] |= {f"{name}:{d}" for d in s["nt"]}
        total["cut"] += s["cut"]

    pre, pre_viol = [], None
    if hasattr(mod, "known_findings") and not fails:
        for f in load_findings(a.id):
            try:
                still = mod.known_findings(f)
            except Violation as v:
                pre_viol = (f, str(v))
                continue
            if still:
                pre.append(f"KNOWN-FINDING: property={a.id} {f['summary']}")

    wall = round(time.time() - t0, 2)
    ev = {
        "property": a.id, "tier": tier, "seed": seed_base(), "level": "exploration",
        "coverage": {
            "evaluations": total["evals"],
            "distinct_nontrivial": len(total["nt"]),
            "rule": mod.RULE,
            "samples": total["samples"][:12],
            "sub_checks": {
                n: {"evaluations": s["evaluations"], "distinct": len(s["distinct"]),
                    "distinct_nontrivial": len(s["nt"]), "wall_s": s["wall"],
                    "skipped_by_time_budget": s["cut"]}
                for n, s in sorted(per_sub.items())
            },
            "classes": dict(sorted(total["labels"].items())),
            "known_findings_confirmed": len(pre),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(fails),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{a.id}.json").write_text(json.dumps(ev, indent=1))
    shutil.rmtree(scratch / "data", ignore_errors=True)

    for line in pre:
        print(line)
    if a.stats:
        print(json.dumps(ev["coverage"]["sub_checks"], indent=1))
        print(json.dumps(ev["coverage"]["classes"], indent=1))
    if fails:
        # smallest reproduction first
        fails.sort(key=lambda f: (len(json.dumps(f[1])), f[0]))
        for name, case, msg in fails[:3]:
            rp = write_replay(a.id, name, case, msg)
            print(f"[{a.id}/{name}] {msg}\n  case: {json.dumps(case)[:2000]}")
            print(f"VIOLATION property={a.id} replay={rp}")
        return 1
    if errors:
        for e in errors[:4]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    if total["evals"] == 0:
        print("HARNESS ERROR: nothing was explored", file=sys.stderr)
        return 2
    rss = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024
    print(f"{a.id}: held on {total['evals']} cases ({len(total['nt'])} distinct non-trivial) "
          f"in {wall} s, {rss} MB per worker" + (f", {total['cut']} cut by time" if total["cut"] else ""))
    return 0
