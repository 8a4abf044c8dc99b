import gc
import importlib
import json
import os
import sys

from . import core, sysv
from .known import load_known


def main():
    args = sys.argv[1:]
    pid = args[0].upper()
    replay = None
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]

    core.die_with_parent()
    core.no_stale_bytecode()
    sysv.watch()

    # third party modules only: the package under test is imported in each forked process
    import filelock  # noqa
    import multiurl  # noqa
    import numpy  # noqa
    import requests  # noqa
    import scipy.sparse  # noqa
    import sqlite3  # noqa
    import tqdm  # noqa
    import yaml  # noqa
    import deprecation  # noqa

    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    for m in getattr(mod, "PRELOAD", []):
        importlib.import_module(m)
    assert not any(m.startswith("earthkit.regrid") for m in sys.modules)

    # forked processes: no collection, hence no copies of pages
    gc.collect()
    gc.freeze()
    gc.disable()

    ctx = core.Ctx(pid, mod.LEVEL, replay_fn=mod.replay, known=load_known(pid))
    ctx.rule = getattr(mod, "RULE", "")
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))

    if replay:
        with open(replay) as f:
            v = json.load(f)
        kind, val = core.run_isolated(mod.replay, (v["case"],), 300)
        print(kind, json.dumps(val, indent=1, default=str)[:8000] if kind == "ok" else val)
        bad = kind != "ok" or bool(val.get("problems"))
        if bad:
            print(f"VIOLATION property={pid} replay={replay}")
        return 1 if bad else 0

    mod.explore(ctx)
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
