"""Batch replay of solver models on the real code.  Run with the interpreter the
product runs under:  python -m sx.replay < batch.json > result.json

batch: {"repo": dir, "module": "harness.x", "items": [{"case": name, "tier": t, "inputs": {...}}]}
"""
import json
import os
import sys
import traceback


def main():
    batch = json.load(sys.stdin)
    out_fd = os.dup(1)
    os.dup2(2, 1)       # the code under test may print
    sys.dont_write_bytecode = True
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, batch["repo"])
    from sx import concrete
    import importlib
    mod = importlib.import_module(batch["module"])
    cases = {c["name"]: c for c in mod.cases(batch["tier"])}
    res = []
    for it in batch["items"]:
        c = cases[it["case"]]
        ctx = concrete.ConcreteCtx(it["inputs"])
        r = {"exception": None, "stopped": None}
        try:
            c["fn"](ctx, **c.get("params", {}))
        except concrete.Stop as e:
            r["stopped"] = str(e)
        except Exception as e:
            fr = [f for f in traceback.extract_tb(sys.exc_info()[2])
                  if f[0].startswith(batch["repo"])]
            r["exception"] = "%s: %s" % (type(e).__name__, e)
            r["where"] = "%s:%s" % (os.path.basename(fr[-1][0]), fr[-1][2]) if fr else None
            r["tb"] = traceback.format_exc()[-2000:]
        r["failed"] = ctx.failed
        r["log"] = ctx.logs
        r["missing"] = ctx.missing
        res.append(r)
    with os.fdopen(out_fd, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
