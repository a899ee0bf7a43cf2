"""Replay process: stock numpy/pandas/scipy and the unmodified /repo code."""
import importlib
import json
import os
import sys
import traceback
import warnings


def _plain(o):
    return o.item() if hasattr(o, "item") else str(o)


def main():
    warnings.filterwarnings("ignore")
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import numpy as np
    np.seterr(all="ignore")
    from symx.harness import NumEnv, Skip
    import diff_diff
    assert os.path.realpath(diff_diff.__file__).startswith(os.path.realpath(os.environ.get("SYMX_REPO", "/repo")))
    cache = {}
    for line in sys.stdin:
        req = json.loads(line)
        key = (req["prop"], req["tier"])
        if key not in cache:
            m = importlib.import_module("props." + req["prop"].lower())
            cache[key] = {c.name: c for c in m.cases(req["tier"])}
        case = cache[key][req["case"]]
        env = NumEnv(req["values"])
        exc = tb = None
        skipped = False
        try:
            case.fn(env)
        except Skip:
            skipped = True
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, str(e)[:300])
            tb = traceback.format_exc()[-1500:]
        finally:
            env.close()
        real_out.write(json.dumps({"checks": env.checks, "exc": exc, "tb": tb, "skipped": skipped}, default=_plain) + "\n")
        real_out.flush()


if __name__ == "__main__":
    main()
