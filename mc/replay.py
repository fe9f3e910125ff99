"""python -m mc.replay FILE: replays one violation without the explorer.
Exit 1 and the message if it is still there, 0 if not."""
import json
import os
import shutil
import sys
import tempfile


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    from .main import child_env

    if "MC_CHILD" not in os.environ:
        scratch = tempfile.mkdtemp(prefix="mcreplay")
        env = child_env(scratch, rec["property"])
        env["MC_CHILD"] = "1"
        import subprocess

        try:
            rc = subprocess.run([sys.executable, "-m", "mc.replay", sys.argv[1]], env=env, timeout=300).returncode
        except subprocess.TimeoutExpired:
            print("no end within 300 s")
            rc = 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(0 if rc == 0 else 1)
    import importlib
    from .core import Ctx
    from .child import run_case

    try:
        mod = importlib.import_module(f"mc.checks.{rec['property'].lower()}")
    except BaseException as e:
        print("import failed:", e)
        sys.exit(1)
    if rec["kind"] == "import":
        sys.exit(0)
    ctx = Ctx(rec["property"], rec.get("tier", "quick"))
    ctx.scratch = tempfile.mkdtemp(prefix="mcscratch")
    try:
        v = run_case(mod, ctx, rec["kind"], rec["params"])
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if v is None:
        print("not reproduced")
        sys.exit(0)
    print(v[0])
    sys.exit(1)


if __name__ == "__main__":
    main()
