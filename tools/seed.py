"""Development helper: builds and verifies the planted bugs in /verif/seeded.

    python tools/seed.py ID [notest] [nocheck]     (specs: tools/seeds.py)

Works in a scratch copy of /repo under /tmp/w/seed; no check reads this."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it does not
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
export NUMBA_CACHE_DIR="$D" PYTHONDONTWRITEBYTECODE=1
%s/opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(sid, flags):
    from seeds import SEEDS

    spec = SEEDS[sid]
    top = f"/tmp/w/seed_{sid}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs("/tmp/w", exist_ok=True)
    run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), top])
    for f, old, new in spec["edits"]:
        path = os.path.join(top, "src/sigmaepsilon/math", f)
        s = open(path).read()
        assert s.count(old) >= 1, (f, old)
        n = spec.get("which", 0)
        parts = s.split(old)
        s = old.join(parts[: n + 1]) + new + old.join(parts[n + 1 :])
        open(path, "w").write(s)
    diff = run(["git", "-C", top, "diff"]).stdout
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(spec["demo"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % spec.get("env", ""))
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    demo = ["bash", os.path.join(out, "demo.sh")]
    a = run(demo, cwd=os.environ.get("SEED_REPO", "/repo"), env=dict(os.environ, PYTHONPATH=os.environ.get("SEED_REPO", "/repo") + "/src"))
    env = dict(os.environ, PYTHONPATH=top + "/src")
    b = run(demo, cwd=top, env=env)
    print(sid, "demo unchanged", a.returncode, "patched", b.returncode, "|", b.stdout.strip()[-200:])
    ok = a.returncode == 0 and b.returncode != 0
    if a.returncode:
        print(a.stdout[-800:])
    if "notest" not in flags:
        with tempfile.TemporaryDirectory() as d:
            t = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "tests"], cwd=top,
                    env=dict(os.environ, PYTHONPATH=top + "/src:/opt/vp/env", NUMBA_CACHE_DIR=d, PYTHONHASHSEED="0", MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1"))
            print(sid, "tests", t.returncode, t.stdout.strip().splitlines()[-1])
            if t.returncode:
                print(t.stdout[-1500:])
            ok = ok and t.returncode == 0
    if "nocheck" not in flags:
        c = run(["bash", os.path.join(HERE, "run.sh"), spec["property"], "quick"], env=dict(os.environ, MC_REPO=top, MC_EVIDENCE=f"/tmp/w/ev_{sid}"))
        print(sid, "check", c.returncode, [l[:200] for l in c.stdout.splitlines() if "VIOLATION" in l][:1], c.stdout.strip().splitlines()[-1][:200])
    shutil.rmtree(top, ignore_errors=True)
    print(sid, "OK" if ok else "NOT A VALID SEED")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
