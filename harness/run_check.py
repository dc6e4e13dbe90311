#!/usr/bin/env python3
"""Entry point of every check: python run_check.py C01 [--tier quick|thorough] [--replay FILE]."""
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
PYTHON = "/opt/venv/bin/python"


def _env(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("PYTEST", "COVERAGE", "HYPOTHESIS")) or k in (
            "POLAR_GAP", "THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN",
            "SLEPIAN_MASK", "NCPU", "PYTHONPATH", "PYTHONSTARTUP",
        ):
            env.pop(k)
    env.update(
        VP_SCRATCH=scratch,
        HOME=f"{scratch}/home",
        TMPDIR=f"{scratch}/tmp",
        XDG_DATA_HOME=f"{scratch}/data",
        XDG_CACHE_HOME=f"{scratch}/cache",
        XDG_CONFIG_HOME=f"{scratch}/config",
        HYPOTHESIS_STORAGE_DIRECTORY=f"{scratch}/hypothesis",
        NUMBA_CACHE_DIR=f"{scratch}/numba",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="4",
        http_proxy="http://127.0.0.1:9",
        https_proxy="http://127.0.0.1:9",
        HTTP_PROXY="http://127.0.0.1:9",
        HTTPS_PROXY="http://127.0.0.1:9",
        no_proxy="",
        VP_READY="1",
    )
    for k in ("home", "tmp", "data", "cache", "config", "hypothesis", "numba"):
        os.makedirs(f"{scratch}/{k}", exist_ok=True)
    return env


def main():
    import shutil
    import signal
    import subprocess
    import tempfile

    if os.environ.get("VP_READY") == "1":
        sys.path.insert(0, str(HERE))
        import core

        sys.exit(core.main(sys.argv[1:]))
    scratch = tempfile.mkdtemp(prefix="vp-check-")
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    proc = None

    def stop(signum, frame):
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        proc = subprocess.Popen(
            [py, str(HERE / "run_check.py"), *sys.argv[1:]],
            env=_env(scratch),
            start_new_session=True,
        )
        rc = proc.wait()
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


if __name__ == "__main__":
    main()
