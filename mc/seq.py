"""Exhaustive exploration of operation histories of the real code in lockstep with a model.

A harness has apply(op) -> list of problems, and state() -> JSON value of the model state.
dfs(): the process is forked at every node, so that each operation of each history is executed once
per node on the real state reached by its prefix.
replay-from-scratch (threads, several processes): histories() enumerates complete histories and
run_history() executes each in its own process.
"""

import os
import signal
import traceback

from .core import die_with_parent
from .core import digest
from .core import recv_msg
from .core import send_msg


def _fork_light(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException:
                res = ("exc", traceback.format_exc())
            send_msg(w, res)
        finally:
            os._exit(0)
    os.close(w)
    try:
        res = recv_msg(r)
    except EOFError:
        res = ("died", "")
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return res


class Acc:
    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.failures = []

    def merge(self, o):
        self.transitions += o.transitions
        self.traces += o.traces
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.failures += o.failures


def _explore(h, ops, depth, history, acc):
    if depth == 0 or acc.failures:
        acc.traces += 1
        return
    enabled = [o for o in ops if getattr(h, "enabled", lambda o: True)(o)]
    if not enabled:
        acc.traces += 1
        return
    files = h.snapshot() if hasattr(h, "snapshot") else None
    for op in enabled:
        if files is not None:
            h.restore(files)

        def child(op=op):
            a = Acc()
            problems = h.apply(op)
            a.transitions += 1
            a.states.add(digest(h.state()))
            a.outcomes |= set(getattr(h, "outcomes", ()))
            if problems:
                a.failures.append((history + [op], problems))
                a.traces += 1
                return a
            _explore(h, ops, depth - 1, history + [op], a)
            return a

        kind, val = _fork_light(child)
        if kind == "ok":
            acc.merge(val)
        elif kind == "died":
            acc.failures.append((history + [op], ["process died"]))
        else:
            raise RuntimeError(val)
        if len(acc.failures) >= 2:
            return


def dfs_task(make, cfg, ops, prefix, depth):
    """Run prefix, then all the continuations of length depth. To be run in an isolated process."""
    acc = Acc()
    h = make(cfg)
    acc.states.add(digest(h.state()))
    hist = []
    ok = True
    for op in prefix:
        if not getattr(h, "enabled", lambda o: True)(op):
            ok = False
            break
        problems = h.apply(op)
        hist.append(op)
        acc.outcomes |= set(getattr(h, "outcomes", ()))
        acc.states.add(digest(h.state()))
        if problems:
            acc.failures.append((hist, problems))
            ok = False
            break
    if ok:
        if prefix:
            acc.transitions += 1  # the last operation of the prefix
        _explore(h, ops, depth, hist, acc)
    return acc


def run_history(make, cfg, history):
    """-> result for Ctx.absorb"""
    h = make(cfg)
    problems = []
    states = [digest(h.state())]
    n = 0
    for i, op in enumerate(history):
        p = h.apply(op)
        n += 1
        states.append(digest(h.state()))
        if p:
            problems += [f"step {i + 1} of {history}: {x}" for x in p]
            break
    if not problems and hasattr(h, "finish"):
        problems += [f"after {history}: {x}" for x in h.finish()]
    return {
        "problems": problems,
        "counts": {"transitions": n, "traces": 1},
        "states": states,
        "distinct": sorted(getattr(h, "outcomes", ())),
    }


def explore_dfs(ctx, make, families, split=2, timeout=400):
    """families: list of (name, cfg, ops, depth)."""
    from .core import Pool

    class Task:
        def __call__(self, fam, prefix):
            name, cfg, ops, depth = families[fam]
            return dfs_task(make, cfg, ops, prefix, depth - len(prefix))

    tasks = []
    for f, (name, cfg, ops, depth) in enumerate(families):
        prefixes = [[]]
        for _ in range(min(split, depth)):
            prefixes = [p + [o] for p in prefixes for o in ops]
        for p in prefixes:
            tasks.append((f, p))
    pool = Pool(Task(), timeout=timeout)
    try:
        for i, (f, p) in enumerate(tasks):
            pool.submit((f, p), f, p)
        done = 0
        for (f, p), (kind, val) in pool.results():
            done += 1
            name, cfg, ops, depth = families[f]
            fam = ctx.families.setdefault(name, {"depth": depth, "alphabet": len(ops), "histories": 0, "transitions": 0})
            case = {"cfg": cfg, "history": p}
            if kind == "ok":
                ctx.counts["transitions"] += val.transitions
                ctx.counts["traces"] += val.traces
                fam["histories"] += val.traces
                fam["transitions"] += val.transitions
                ctx.states |= val.states
                ctx.distinct |= val.outcomes
                ctx.sample({"cfg": cfg, "prefix": p, "histories": val.traces}, per_family=1, family=name)
                for hist, problems in sorted(val.failures, key=lambda x: len(x[0]))[:1]:
                    ctx.problem(name, {"cfg": cfg, "history": hist}, problems)
            elif kind == "exc":
                ctx.absorb(name, case, (kind, val))
            else:
                ctx.problem(name, case, [f"{kind}: {val}"])
            if ctx.left() < 0 and pool.pending:
                ctx.capped.append(f"time budget reached: {done} of {len(tasks)} subtrees")
                pool.cancel()
            if len(ctx.violations) >= ctx.max_violations and pool.pending:
                ctx.capped.append("stopped after the first violations")
                pool.cancel()
    finally:
        pool.close()
