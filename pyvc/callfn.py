"""Call one function of the repository on JSON arguments (run by the real interpreter)."""
import importlib
import json
import sys

job = json.load(sys.stdin)
sys.dont_write_bytecode = True
sys.path.insert(0, job["repo"])
import numpy as np


def arr(v):
    if isinstance(v, dict):
        dt = bool if v["dtype"] == "b" else (np.uint8 if len(v["shape"]) > 1 and all(x >= 0 for x in np.ravel(v["array"])) else np.intc)
        return np.array(v["array"], dtype=dt).reshape(v["shape"])
    return v


def out(r):
    if isinstance(r, np.ndarray):
        return dict(array=r.tolist(), shape=list(r.shape), dtype="b" if r.dtype == bool else "i")
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, (int, np.integer)):
        return int(r)
    return repr(r)


mod = importlib.import_module(job["module"][:-3].replace("/", "."))
f = getattr(mod, job["name"])
args = [arr(a) for a in job["args"]]
keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
try:
    r = f(*args)
    mod_ = any(isinstance(a, np.ndarray) and not np.array_equal(a, k) for a, k in zip(args, keep))
    print(json.dumps(dict(result=out(r), modified=mod_)))
except Exception as e:
    print(json.dumps(dict(error=f"{type(e).__name__}: {e}"[:300])))
