"""runs the check of each seeded change on a patched scratch copy (VC_REPO): python3 tools/seedcheck.py [--tests] [id...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
stable = json.load(open("/opt/vp/BASELINE.json"))
for i in ids:
    d = f"{V}/seeded/{i}"
    s = "/tmp/sc_" + i
    shutil.rmtree(s, ignore_errors=True)
    shutil.copytree("/repo", s, symlinks=True)
    try:
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=s, check=True)
        p = json.load(open(d + "/meta.json"))["property"]
        t0 = time.time()
        if "--tests" in sys.argv:
            r = subprocess.run("ls tests/test_*.py | xargs -P 4 -I{} /opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize {} 2>&1 | grep -E 'passed|failed|FAILED|ERROR'",
                               shell=True, cwd=s, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu"))
            print(i, "tests", r.stdout.replace("\n", " ; ")[-600:], flush=True)
        for prop in (p,):
            r = subprocess.run([V + "/check", prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, VC_REPO=s))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(i, prop, "exit", r.returncode, v[:3], f"{time.time() - t0:.0f}s", flush=True)
    finally:
        shutil.rmtree(s, ignore_errors=True)
