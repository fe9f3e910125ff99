"""Explores one share of the cases of a check; run by mc.main, or alone:
   python -m mc.child C01 quick SHARD NSHARDS OUTDIR"""
import json
import os
import sys
import time
import traceback

import numpy as np


def run_case(mod, ctx, kind, params):
    """None, or (message, kind, params) of a violation."""
    from .core import Deadline, Violation

    try:
        mod.KINDS[kind](ctx, params)
    except Violation as v:
        if v.kind is not None:
            return (str(v), v.kind, v.params)
        return (str(v), kind, params)
    except Deadline:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # anything raised on a legal input
        tb = traceback.format_exc(limit=-8)
        return (f"unexpected {type(e).__name__}: {e}\n{tb}", kind, params)
    return None


def main():
    prop, tier, k, n, outdir = sys.argv[1:6]
    k, n = int(k), int(n)
    start = time.time()
    limit = float(os.environ.get("MC_LIMIT", "600"))
    cur = os.open(os.path.join(outdir, f"cur.{k}"), os.O_RDWR | os.O_CREAT)
    out = dict(violations=[], done=False, truncated=False, cases=0, samples=[])
    beats = [0, -1, "import", {}]
    lastw = [0.0]

    def beat(force=False):
        now = time.time()
        if force or now - lastw[0] > 1.0:
            beats[0] += 1
            lastw[0] = now
            data = json.dumps(beats).encode()[:60000]
            os.pwrite(cur, data + b"\n" + b" " * 16, 0)

    beat(True)
    from .core import Ctx, Deadline
    import importlib

    ctx = Ctx(prop, tier, beat=beat, deadline=start + limit)
    ctx.scratch = os.path.join(outdir, f"scratch.{k}")
    os.makedirs(ctx.scratch, exist_ok=True)

    def finish():
        out.update(
            transitions=ctx.transitions,
            traces=ctx.traces,
            outcomes=ctx.outcomes,
            samples=ctx.samples,
            caps=ctx.caps,
            depth=ctx.depth,
            wall=time.time() - start,
        )
        np.array(sorted(ctx.states), dtype=np.uint64).tofile(
            os.path.join(outdir, f"states.{k}.bin")
        )
        tmp = os.path.join(outdir, f"res.{k}.tmp")
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, os.path.join(outdir, f"res.{k}.json"))

    try:
        import sigmaepsilon.math as pkg

        repo = os.environ.get("MC_REPO", "/repo")
        assert os.path.abspath(pkg.__file__).startswith(repo + "/"), pkg.__file__
        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    except BaseException as e:
        out["violations"].append(
            (f"the package cannot be imported: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", "import", {}, -1)
        )
        finish()
        return
    maxv = int(os.environ.get("MC_MAXV", "3"))
    upto = int(os.environ.get("MC_UPTO", "-1"))
    trace = os.environ.get("MC_TIMES")
    try:
        for i, (kind, params) in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            if upto >= 0 and i > upto:
                break
            beats[1:] = [i, kind, params]
            beat()
            ctx.beat()
            out["cases"] += 1
            t0 = time.time()
            v = run_case(mod, ctx, kind, params)
            if trace and time.time() - t0 > float(trace):
                print(f"{time.time()-t0:.2f}s {kind} {json.dumps(params)[:150]}", flush=True)
            if len(ctx.samples) < 4 and (out["cases"] in (1, 7, 50, 400)):
                ctx.samples.append([kind, params])
            if v is not None:
                out["violations"].append(v + (i,))
                if len(out["violations"]) >= maxv:
                    break
        else:
            out["done"] = True
    except Deadline:
        out["truncated"] = True
    except BaseException as e:
        out["violations"].append(
            (f"explorer stopped by {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", beats[2], beats[3], beats[1])
        )
    finish()


if __name__ == "__main__":
    main()
