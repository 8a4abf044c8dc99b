"""Synthetic weight inventories and an independent oracle for them."""

import gzip
import hashlib
import json
import os

import numpy as np

METHODS = ("linear", "nearest-neighbour", "grid-box-average")
ENGINE = {"engine": "mir", "version": "1.27"}


def int_matrix(rows, cols, salt, dense=False, dtype="f8"):
    """A deterministic matrix of small integers: products with small integers are exact."""
    from scipy.sparse import csr_array

    m = np.zeros((rows, cols), dtype=dtype)
    for i in range(rows):
        for j in range(3):
            m[i, (i * 7 + j * 11 + salt) % cols] = 1 + (i * 5 + j * 3 + salt * 13) % 17
    if dense:
        return m
    return csr_array(m)


def entry(inp, out, method="linear", matrix=None, name=None, interpolation=None, **extra):
    return {
        "input": inp,
        "output": out,
        "interpolation": interpolation or {"method": method, **ENGINE},
        "matrix": matrix,
        "name": name,
        "extra": extra,
    }


def method_name(e):
    m = e["interpolation"]["method"]
    return m["type"] if isinstance(m, dict) else m


def matrix_dir(e):
    i = e["interpolation"]
    return f"{i['engine']}_{i['version']}_{method_name(e)}"


def entry_name(e):
    if e["name"]:
        return e["name"]
    d = json.dumps([e["input"], e["output"], e["interpolation"]], sort_keys=True)
    return hashlib.sha256(d.encode()).hexdigest()


def memory(m):
    m = m.tocsr() if not hasattr(m, "indptr") else m
    return int(m.data.nbytes + m.indptr.nbytes + m.indices.nbytes)


def index_dict(entries, raw=None, with_memory=True):
    d = {}
    for e in entries:
        if "raw" in e:
            d[e["name"]] = e["raw"]
            continue
        v = {"input": e["input"], "output": e["output"], "interpolation": e["interpolation"]}
        if e["matrix"] is not None:
            v["nnz"] = int(e["matrix"].nnz)
            if with_memory:
                v["memory"] = memory(e["matrix"])
        v.update(e["extra"])
        d[entry_name(e)] = v
    return {"version": 1, "matrix": d}


def write(path, entries, with_memory=True, version=1):
    """Write a local inventory."""
    from scipy.sparse import save_npz

    os.makedirs(path, exist_ok=True)
    idx = index_dict(entries, with_memory=with_memory)
    idx["version"] = version
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump(idx, f)
    for e in entries:
        if "raw" in e or e["matrix"] is None:
            continue
        p = os.path.join(path, matrix_dir(e))
        os.makedirs(p, exist_ok=True)
        save_npz(os.path.join(p, entry_name(e) + ".npz"), e["matrix"])
    return path


def site(entries, files=None):
    """The files of a remote inventory: {relative name: bytes}."""
    import io

    from scipy.sparse import save_npz

    files = {} if files is None else files
    text = json.dumps(index_dict(entries)).encode()
    files["index.json.gz"] = gzip.compress(text, mtime=0)
    files["index.json.sha256"] = hashlib.sha256(text).hexdigest().encode()
    for e in entries:
        if e["matrix"] is None:
            continue
        b = io.BytesIO()
        save_npz(b, e["matrix"])
        files[os.path.join(matrix_dir(e), entry_name(e) + ".npz")] = b.getvalue()
    return files


def product(matrix, values):
    """Independent oracle: sum over the stored elements only (so NaN only spreads where used)."""
    c = matrix.tocoo()
    x = np.ravel(np.asarray(values), order="C")
    kind = complex if x.dtype.kind == "c" else float
    r = [kind(0)] * c.shape[0]
    row, col, data = np.asarray(c.row), np.asarray(c.col), np.asarray(c.data)
    for k in range(len(data)):
        r[int(row[k])] += float(data[k]) * kind(x[int(col[k])])
    return np.array(r)


def shared(name, build):
    """build(path) is called once per run; -> path (read only)"""
    import shutil
    import tempfile

    root = os.path.join(os.environ["VERIF_SCRATCH"], "shared")
    path = os.path.join(root, name)
    if not os.path.isdir(path):
        os.makedirs(root, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=root)
        build(tmp)
        try:
            os.rename(tmp, path)
        except OSError:
            shutil.rmtree(tmp)
    return path
