"""Decides one property: spawns the exploring children, watches them, confirms
violations by replaying them, writes the evidence file.  Exit 0 or 1 only."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVID = os.environ.get("MC_EVIDENCE", os.path.join(HERE, "evidence"))
HANG = float(os.environ.get("MC_HANG", "240"))
MAXRSS_GB = 7.0

from . import config


def child_env(scratch, prop):
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    env.pop("PYTHONHASHSEED", None)
    cache = os.path.join(scratch, "nb")
    os.makedirs(cache, exist_ok=True)
    env.update(
        NUMBA_CACHE_DIR=cache,
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="agg",
        MPLCONFIGDIR=scratch,
        PYTHONHASHSEED="0",
        PYTHONPATH=os.pathsep.join([HERE, os.path.join(REPO, "src")]),
        NUMBA_NUM_THREADS="2",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TMPDIR=scratch,
        PYTHONWARNINGS="ignore",
    )
    env.update(config.ENV.get(prop, {}))
    return env


def rss_gb(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * 4096 / 2**30
    except Exception:
        return 0.0


def read_cur(path):
    try:
        with open(path, "rb") as f:
            return json.loads(f.read().split(b"\n")[0].decode())
    except Exception:
        return [0, -1, "start", {}]


def explore(prop, tier, scratch, n, limit, only=None, upto=None):
    """Runs the children; returns the list of their results."""
    env = child_env(scratch, prop)
    env["MC_LIMIT"] = str(limit)
    if upto is not None:
        env["MC_UPTO"] = str(upto)
    procs = {}
    results = {}
    for k in range(n) if only is None else [only]:
        for suffix in (f"cur.{k}", f"res.{k}.json", f"states.{k}.bin"):
            p = os.path.join(scratch, suffix)
            if os.path.exists(p):
                os.unlink(p)
        log = open(os.path.join(scratch, f"log.{k}"), "wb")
        # a compilation cache of its own: numba's cache is not safe when several
        # processes store different signatures of one function at the same time
        cache = os.path.join(scratch, f"nb.{k}")
        shutil.rmtree(cache, ignore_errors=True)
        os.makedirs(cache)
        env["NUMBA_CACHE_DIR"] = cache
        procs[k] = subprocess.Popen(
            [sys.executable, "-m", "mc.child", prop, tier, str(k), str(n), scratch],
            env=env, cwd=HERE, stdout=log if not os.environ.get("MC_TIMES") else None,
            stderr=subprocess.STDOUT if not os.environ.get("MC_TIMES") else None, start_new_session=True,
        )
    last = {k: (None, time.time()) for k in procs}
    t_end = time.time() + limit + HANG
    while procs:
        time.sleep(0.1)
        for k in list(procs):
            p = procs[k]
            cur = read_cur(os.path.join(scratch, f"cur.{k}"))
            if cur[0] != last[k][0]:
                last[k] = (cur[0], time.time())
            rc = p.poll()
            why = None
            if rc is None:
                if time.time() - last[k][1] > HANG or time.time() > t_end:
                    why = f"no progress for {HANG:.0f} s"
                elif rss_gb(p.pid) > MAXRSS_GB:
                    why = f"memory beyond {MAXRSS_GB} GB"
                if why is None:
                    continue
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            res = None
            path = os.path.join(scratch, f"res.{k}.json")
            if why is None and os.path.exists(path):
                with open(path) as f:
                    res = json.load(f)
            if res is None:
                if why is None:
                    tail = ""
                    try:
                        with open(os.path.join(scratch, f"log.{k}"), "rb") as f:
                            tail = f.read()[-1500:].decode(errors="replace")
                    except Exception:
                        pass
                    why = f"the process died (exit {rc})\n{tail}"
                res = dict(violations=[[why, cur[2], cur[3], cur[1]]], done=False, truncated=False,
                           cases=0, transitions=0, traces=0, outcomes={}, samples=[], caps=[], depth=0, dead=True)
            results[k] = res
            del procs[k]
            if res["violations"] and os.environ.get("MC_FAST"):  # development: the first one is enough
                for j, q in procs.items():
                    os.killpg(q.pid, signal.SIGKILL)
                    q.wait()
                    results[j] = dict(violations=[], done=False, truncated=False, cases=0, transitions=0, traces=0, outcomes={}, samples=[], caps=[], depth=0, dead=True)
                procs.clear()
                break
    return results


def known_findings(prop):
    res = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                sig = [w for w in line.split() if w.startswith("sig=")]
                if sig:
                    res[sig[0][4:]] = line.split(sig[0], 1)[1].strip()
    return res


def signature(kind, params):
    return hashlib.sha1(json.dumps([kind, params], sort_keys=True).encode()).hexdigest()[:12]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    n = config.SHARDS.get(prop, 8)
    limit = float(os.environ.get("MC_LIMIT", config.LIMIT[tier]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage={}, wall_s=0.0)
    rc = 0
    try:
        results = explore(prop, tier, scratch, n, limit)
        import numpy as np

        sets = []
        for k in range(n):
            p = os.path.join(scratch, f"states.{k}.bin")
            if os.path.exists(p):
                sets.append(np.fromfile(p, dtype=np.uint64))
        nstates = int(len(np.unique(np.concatenate(sets)))) if sets else 0
        outcomes = {}
        for r in results.values():
            for a, b in r["outcomes"].items():
                outcomes[a] = outcomes.get(a, 0) + b
        caps = sorted({c for r in results.values() for c in r["caps"]})
        truncated = any(r["truncated"] for r in results.values())
        if truncated:
            caps.append(f"time limit of {limit:.0f} s reached: cases after it were not explored")
        known = known_findings(prop)
        reported, seen_known, unrepro = [], [], []
        for k, r in sorted(results.items()):
            for msg, kind, params, idx in r["violations"]:
                if len(reported) >= 3:
                    break
                sig = signature(kind, params)
                if sig in known:
                    seen_known.append(known[sig])
                    continue
                path = os.path.join(EVID, f"replay_{prop}_{sig}.json")
                rec = dict(property=prop, kind=kind, params=params, message=msg, tier=tier,
                           how=f"cd {HERE} && {sys.executable} -m mc.replay {path}")
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                ok = False
                if len(reported) > 0:
                    ok = True  # one confirmed violation is enough
                elif kind == "import":
                    ok = True
                else:
                    try:
                        p = subprocess.run([sys.executable, "-m", "mc.replay", path], cwd=HERE,
                                           env=dict(os.environ, MC_REPO=REPO), timeout=320,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                        ok = p.returncode != 0
                    except subprocess.TimeoutExpired:
                        ok = True
                    if not ok:  # may depend on the earlier cases of the share: rerun those
                        res2 = explore(prop, tier, scratch, n, limit, only=k, upto=idx)
                        ok = any(True for v in res2[k]["violations"])
                        if ok:
                            rec["history"] = f"depends on earlier cases: share {k} of {n} up to case {idx} (MC_UPTO={idx} python -m mc.child {prop} {tier} {k} {n} DIR)"
                            with open(path, "w") as f:
                                json.dump(rec, f, indent=1)
                if ok:
                    reported.append((path, msg))
                else:
                    unrepro.append(msg[:300])
        ev["coverage"] = dict(
            states=nstates,
            transitions=int(sum(r["transitions"] for r in results.values())),
            traces_validated_against_impl=int(sum(r["traces"] for r in results.values())),
            cases=int(sum(r["cases"] for r in results.values())),
            max_depth=int(max(r["depth"] for r in results.values())),
            distinct_outcomes=outcomes,
            samples=[s for r in results.values() for s in r["samples"]][:12],
            exhaustive=bool(all(r["done"] for r in results.values()) and not caps),
            caps=caps,
            rule=config.RULE.get(prop, ""),
        )
        if unrepro:
            ev["coverage"]["unreproducible"] = unrepro
        ev["assumptions"] = config.ASSUME.get(prop, []) + config.ASSUME["*"]
        ev["violations"] = len(reported)
        for w in seen_known:
            print(f"KNOWN-FINDING: property={prop} {w}")
        for path, msg in reported:
            print("\n".join("  " + l for l in msg.splitlines()[:25]))
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            rc = 1
    finally:
        ev["wall_s"] = round(time.time() - t0, 2)
        if not ev["coverage"]:
            ev["coverage"] = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        shutil.rmtree(scratch, ignore_errors=True)
    c = ev["coverage"]
    print(f"{prop} {tier}: cases={c.get('cases')} states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} depth={c.get('max_depth')} exhaustive={c.get('exhaustive')} "
          f"violations={ev.get('violations')} wall={ev['wall_s']}s")
    if c.get("caps"):
        print("  caps:", c["caps"][:3])
    sys.exit(rc)


if __name__ == "__main__":
    main()
