"""Concrete runner: executes a case's scenario on the real, unpatched package
(numba enabled) for concrete inputs, one JSON request per line."""
import importlib
import json
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))


def dump(x):
    """Structure of the outputs, for claims evaluated outside."""
    import numpy as np
    if isinstance(x, dict):
        return {"d": [[k, dump(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {"l": [dump(v) for v in x]}
    if isinstance(x, np.ndarray):
        return {"a": [dump(v) for v in x.ravel()], "s": list(x.shape)}
    if type(x).__name__ == "Quantity":
        return dump(x.value)
    if isinstance(x, (np.bool_, np.floating, np.integer)):
        x = x.item()
    if isinstance(x, float) and not math.isfinite(x):
        return {"f": repr(x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return {"f": type(x).__name__}


def main():
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = importlib.import_module(sys.argv[1])
    from symx.harness import Mk, flatten
    import numpy as np
    cases = {c.name: c for c in mod.CASES}
    for line in sys.stdin:
        req = json.loads(line)
        c = cases[req["case"]]
        try:
            import signal
            signal.alarm(300)
            try:
                if req.get("prior"):
                    try:
                        c.scenario(Mk(False), dict(req["prior"]))
                    except Exception:
                        pass
                f = c.confirm if req.get("confirm") else c.scenario
                out = f(Mk(False), req["vals"])
            finally:
                signal.alarm(0)
            fl = {}
            for k, v in flatten(out).items():
                if isinstance(v, (np.floating, np.integer)):
                    v = v.item()
                if isinstance(v, complex):
                    v = v.real if v.imag == 0 else repr(v)
                if not (isinstance(v, (int, float, str, bool)) or v is None):
                    try:
                        v = float(v)
                    except Exception:
                        v = repr(v)
                if isinstance(v, float) and not math.isfinite(v):
                    v = "nan" if v != v else "inf"
                fl[k] = v
            r = {"out": fl}
            if req.get("raw"):
                r["raw"] = dump(out)
        except Exception as ex:
            import traceback
            r = {"error": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-1500:]}
        real_out.write(json.dumps(r) + "\n")
        real_out.flush()


if __name__ == "__main__":
    main()
