#!/usr/bin/env python3
"""Launcher of the checks: run.py C01 [--tier quick|thorough] [--replay FILE]

Starts the check in a clean environment: every cache, home and temporary directory the
code under test can write to is inside a scratch directory, removed at the end.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
# another tree is only used while developing the checks
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    seed = os.environ.get("VERIF_SEED", "1")

    base = "/dev/shm"
    if not os.access(base, os.W_OK):
        base = tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
    for d in ("home", "tmp", "work"):
        os.makedirs(os.path.join(scratch, d))

    home = os.path.join(scratch, "home")
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "HOME": home,
        "TMPDIR": os.path.join(scratch, "tmp"),
        "XDG_CACHE_HOME": os.path.join(home, ".cache"),
        "XDG_CONFIG_HOME": os.path.join(home, ".config"),
        "MIR_CACHE_PATH": os.path.join(home, "mir"),
        "ECKIT_GEO_CACHE_PATH": os.path.join(home, "eckit-geo"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONWARNINGS": "ignore",
        "PYTHONPATH": HERE if REPO == "/repo" else HERE + ":" + os.path.join(REPO, "src"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "TZ": "UTC",
        "VERIF_TIER": tier,
        "VERIF_SEED": seed,
        "VERIF_HOME": HERE,
        "VERIF_REPO": REPO,
        "VERIF_SCRATCH": scratch,
    }
    for k in ("VERIF_BUDGET", "VERIF_DEBUG", "VERIF_PROCS", "VERIF_ONLY"):
        if k in os.environ:
            env[k] = os.environ[k]

    if any(a.upper() in ("C06", "C09", "C12", "C13") for a in args[:1]):
        lib = os.path.join(scratch, "killsys.so")
        src = os.path.join(HERE, "mc", "killsys.c")
        if subprocess.run(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", lib, src, "-ldl"]).returncode == 0:
            env["LD_PRELOAD"] = lib

    p = None
    try:
        p = subprocess.Popen([PYTHON, "-m", "mc.main", *args], env=env, cwd=HERE, start_new_session=True)

        def stop(signum, frame):
            raise SystemExit(128 + signum)

        signal.signal(signal.SIGTERM, stop)
        signal.signal(signal.SIGINT, stop)
        rc = p.wait()
    finally:
        if p is not None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
