"""Writes MANIFEST.json; the checks which do not exist yet are listed as not applicable for now."""
import json
import os

ENUM = "exhaustive enumeration of a bounded space of inputs on the real code against an independent oracle"
HIST = "exhaustive exploration of operation histories of the real code in lockstep with a reference model"
CHECKS = {
    "C01": ("exploration", ENUM, "every combination in the stated product of inventories, requests and array variants; trusts scipy's npz writer"),
    "C02": ("model_checking", HIST + " (fork at every node)", "all histories up to the stated depth over the stated alphabets; reference: the same call made first"),
    "C03": ("model_checking", HIST + " (fork at every node)", "all histories up to the stated depth over the stated alphabets"),
    "C04": ("model_checking", "stateless exploration of all thread schedules of the real code up to a preemption bound, under a controlled scheduler", "preemption bound 1 (quick) or 2 (thorough); reference: all the sequential orders"),
    "C05": ("model_checking", HIST + " (replayed from scratch)", "all histories up to the stated depth over the stated alphabets; one process"),
    "C06": ("fault_enumeration", "exhaustive enumeration of the points at which the process is killed (one representative per distinct disk state), recovery in a new process of the real code", "all points of one operation in 20 scenarios, and all pairs of points of two successive kills; process kill, not power loss"),
    "C07": ("model_checking", "stateless exploration of all schedules of threads and processes of the real code up to a preemption bound, under a controlled scheduler", "small programs, preemption bound"),
    "C08": ("model_checking", HIST, "all histories up to the stated depth over the stated alphabets"),
    "C09": ("fault_enumeration", "exhaustive enumeration of restart histories and of the points at which the process is killed, recovery in a new process of the real code", "all kill points of single changes; process kill with torn writes"),
    "C10": ("exploration", ENUM, "every stated spelling of every stated grid against every entry"),
    "C11": ("model_checking", HIST + " of client and server", "all histories up to the stated depth; the HTTP server is simulated below requests"),
    "C12": ("fault_enumeration", "exhaustive enumeration of server faults and kill points during downloads on the real code", "all combinations of at most two deviating answers; all kill points of a fault-free download"),
    "C13": ("exploration", "exhaustive enumeration of encodings, of truncations at every byte and of header damages on the real code", "small matrices, every stated encoding"),
    "C14": ("exploration", ENUM, "every combination in the stated products of layouts, types and chunkings; MIR itself is trusted"),
    "C15": ("exploration", ENUM, "every combination in the stated products; ecCodes and MIR are trusted"),
    "C16": ("exploration", ENUM, "every combination in the stated products; reference: MIR driven directly"),
    "C17": ("exploration", "exhaustive enumeration of sequences of computations, kill points and process schedules on the real code against an independent oracle", "all sequences of two over the stated requests, all kill points outside the library, preemption bound 1 (quick) or 2; reference: MIR alone in a fresh directory"),
}  # fmt: skip
checks, na = [], []
here = "/verif/mc/checks"
for pid, (level, tech, note) in CHECKS.items():
    if os.path.exists(f"{here}/{pid.lower()}.py"):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3 run.py {pid} --tier quick",
                "thorough_cmd": f"python3 run.py {pid} --tier thorough",
                "technique": tech,
                "level": level,
                "level_note": note,
            }
        )
    else:
        na.append({"property": pid, "reason": "not claimed yet: its check is being built"})
with open("/verif/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
