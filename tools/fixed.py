"""Writes known_findings.json: the repairs (fix: commits of /repo) and the findings that are not repaired."""
import json
import subprocess

# commit -> properties
MAP = {
    "8afc1d2": ["C02"], "52ea681": ["C04"], "74e34a9": ["C03", "C08"], "6708336": ["C08"], "2730af9": ["C08"],
    "eed38ae": ["C09"], "f33ecc2": ["C09"], "06a8d36": ["C08"], "249ef7d": ["C08"], "a9563f1": ["C05"],
    "ff8c3aa": ["C05"], "64de6e1": ["C07"], "8bb0f44": ["C05"], "07b589d": ["C06", "C11"], "7090f72": ["C07"],
    "be7f837": ["C10"], "97b1491": ["C13"], "04662c8": ["C03"], "0dac9b6": ["C16"], "49f9fd2": ["C12"],
    "9d50256": ["C14"], "cdf6de4": ["C14"], "5a0d33f": ["C01"],
}  # fmt: skip
SUBJECTS = {
    "do not register files removed during the housekeeping": ["C05"],
    "do not evict a cache file just created again": ["C05"],
    "do not evict the newest cache file when an orphan": ["C05"],
    "drop the cache entries of files whose creation was interrupted": ["C06"],
    "count the files found by the housekeeping": ["C06"],
    "a cache file purged right after its creation": ["C07"],
    "do not remove the lock of a cache file": ["C07"],
    "keep the entry of a cache file created again": ["C07"],
    "keep the cache policy in use when a config change is rejected": ["C08"],
    "remove the lock of the config file": ["C09"],
    "the config directory can be created": ["C09"],
    "do not overwrite the config file created": ["C09"],
    "a latitude band of a reduced Gaussian": ["C10"],
    "inventory entries with an invalid gridspec": ["C01"],
    "do not cache an index file": ["C12"],
    "do not cache a matrix file": ["C12"],
    "a page served instead of weights": ["C12"],
    "accept the path of an npz file": ["C13"],
    "a stream shorter than its contents": ["C13"],
    "the inventory entries built for any target": ["C13"],
    "replace the index of the inventory being built": ["C13"],
    "keep the attributes of a regridded xarray": ["C14"],
    "regrid xarray data of any memory layout": ["C14"],
    "regrid chunked xarray data": ["C14"],
    "find the geography of an xarray dataset": ["C14"],
    "regrid the values and metadata of cloned": ["C15"],
    "reject data that are not one complete GRIB": ["C15"],
    "the result for an empty list of fields": ["C15"],
    "reject an empty grid specification": ["C16"],
    "reject target grids unknown to MIR": ["C15", "C16"],
    "identify the points of a grid by all their coordinates": ["C17"],
    "create the cache directory of MIR": ["C17"],
    "write the points of a grid atomically": ["C17"],
    "compute a weight matrix afresh": ["C17"],
    "regrid labelled arrays that share some": ["C14"],
    "create one temporary directory for the threads": ["C07"],
    "do not leave a directory partly removed": ["C06"],
}
FINDINGS = []

log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "baa3e0b..HEAD"], capture_output=True, text=True, check=True
).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    assert s.startswith("fix: "), line
    props = MAP.get(h[:7]) or [p for k, v in SUBJECTS.items() if k in s for p in v]
    assert props, line
    for p in props:
        fixed.append(f"fixed: property={p} {h[:7]} {s[5:]}")
with open("/verif/known_findings.json", "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
