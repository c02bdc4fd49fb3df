"""plants the bugs of tools/seeds*.py: python3 tools/seedtool.py [id ...]   (scratch copies under /tmp)

For each: patch.diff, demo.sh, demo.py, meta.json under /verif/seeded/<id>; checks that the demo passes on the
unchanged tree and fails with the patch.  --tests also runs the stable tests on the patched copy.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$D/demo.py"
"""
PRE = "import os, sys, tempfile, warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n"


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out.update(m.SEEDS)
    return out


def run(cmd, cwd, t=300):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "", "timeout")


def main():
    seeds = load()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(seeds)
    for i in ids:
        s = seeds[i]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        scratch = "/tmp/seed_" + i
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        shutil.copytree("/repo", scratch, symlinks=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(scratch, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise ValueError((i, f, t.count(old), old))
                open(p, "w").write(t.replace(old, new))
            diff = run(["git", "diff"], scratch).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = run(["bash", os.path.join(d, "demo.sh")], "/repo")
            b = run(["bash", os.path.join(d, "demo.sh")], scratch)
            ok = a.returncode == 0 and b.returncode != 0
            print(i, "demo ok" if ok else "DEMO BAD", a.returncode, b.returncode, "" if ok else (a.stderr[-600:], b.stdout[-300:]), flush=True)
            if b.returncode:
                print("    with patch:", (b.stderr.strip().splitlines() or [""])[-1][:200])
            if "--tests" in sys.argv:
                stable = json.load(open("/opt/vp/BASELINE.json"))
                files = sorted(glob.glob(os.path.join(scratch, "tests", "test_*.py")))
                ps = [(f, subprocess.Popen(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--randomly-seed=0",
                                            "--randomly-dont-reorganize", "-x", "--deselect", "none", f],
                                           cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu"))) for f in files]
                for f, p in ps:
                    o, _ = p.communicate()
                    print("   ", os.path.basename(f), o.strip().splitlines()[-1][:150])
        except ValueError as e:
            print(i, "BAD EDIT", e, flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


main()
