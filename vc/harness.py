"""Runs one property check:  python -m vc.harness <ID> [--replay FILE]

Two worker processes run side by side on /repo's current working tree:
  * the deductive worker extracts the functions under contract, generates the obligations and
    discharges them (this is what decides the property);
  * the concrete worker executes the same contracts on the real code: it searches for a failing
    input (used to replay refuted obligations) and cross-checks the extraction.
The parent combines both into the verdict, the evidence file and the replay file.
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LEVELS = {}


def worker_env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONHASHSEED=str(SEED), OMP_NUM_THREADS="1",
             JAX_ENABLE_COMPILATION_CACHE="0", TF_CPP_MIN_LOG_LEVEL="3")
    e.setdefault("VERIF_TIER", TIER)
    e.setdefault("VERIF_SEED", str(SEED))
    for k in ("APPLETREE_USE_HYBRID", "DO_NOT_USE_APPROX_IN_BINOM", "JAX_ENABLE_X64", "ENABLE_X64"):
        e.pop(k, None)
    return e


def load(pid):
    return importlib.import_module("checks." + pid.lower())


# ---------------------------------------------------------------- deductive worker
def deductive(pid, out, claims=None):
    """verify the units; several workers share them through the folder claims (a unit belongs to the first who claims it)"""
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    res = dict(units=[], trusted=[], error=None)

    def flush():
        res["seconds"] = round(time.time() - t0, 2)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, out)
    try:
        from vc.smt import Env
        from vc import jx
        mod = load(pid)
        units = mod.units()
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
        flush()
        return
    unsup = (jx.Unsupported,)
    try:
        from vc import pysym
        unsup = unsup + (pysym.Unsupported,)
    except ImportError:
        pass
    for index, u in enumerate(units):
        if claims:
            try:
                os.close(os.open(os.path.join(claims, str(index)), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            except FileExistsError:
                continue
        env = Env(u.name)
        t = time.time()
        rec = dict(index=index, name=u.name, functions=list(u.functions), status="ok", reason=None, bound=u.bound)
        alts = [u.run] + list(u.fallbacks)
        for k, run in enumerate(alts):
            env = Env(u.name)
            try:
                run(env)
                for nm, g in env.open_pre:
                    env.prove("pre: " + nm, g, kind="callee-pre")
                rec["status"] = "ok"
                if k:
                    rec["bound"] = u.fallback_bounds[k - 1]
                break
            except unsup as e:
                rec["status"], rec["reason"] = "unsupported", "%s: %s" % (type(e).__name__, str(e)[:500])
                rec.setdefault("attempts", []).append(rec["reason"])
            except ContractBroken as e:
                env.fail(e.name, e.reason, "structural")
                rec["status"] = "ok"
                break
            except RecursionError as e:
                rec["status"], rec["reason"] = "unsupported", "recursion: %s" % str(e)[:200]
            except Exception as e:
                rec["status"], rec["reason"] = "error", traceback.format_exc()[-1500:]
                rec.setdefault("attempts", []).append(str(e)[:300])
        rec["outcomes"] = [o.as_dict() for o in env.outcomes] if rec["status"] == "ok" else []
        if rec["status"] == "ok":
            for o, d in zip(env.outcomes, rec["outcomes"]):
                if o.rawmodel is not None and o.kind != "cover" and o.status != "proved" and u.model_case is not None and o.rawmodel is not None:
                    try:
                        d["case"] = u.model_case(env, o)
                    except Exception as e:
                        d["case_error"] = str(e)[:200]
                if o.status != "proved":
                    d["goal"] = o.goal
        rec["seconds"] = round(time.time() - t, 2)
        res["units"].append(rec)
        res["trusted"] = sorted(set(res["trusted"]) | set(env.trusted))
        flush()
    flush()


class ContractBroken(Exception):
    def __init__(self, name, reason):
        super().__init__("%s: %s" % (name, reason))
        self.name, self.reason = name, reason


class Unit:
    """a function (or group of functions) under contract"""

    def __init__(self, name, functions, run, fallbacks=(), fallback_bounds=(), bound=None, model_case=None):
        self.name, self.functions, self.run = name, functions, run
        self.fallbacks, self.fallback_bounds, self.bound = fallbacks, fallback_bounds, bound
        self.model_case = model_case


# ---------------------------------------------------------------- concrete worker
def concrete(pid, out, budget, seed, casefile=None):
    import warnings
    warnings.simplefilter("ignore")
    import contextlib
    import io
    import random
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, nontrivial=0, violation=None, current=None, samples=[], error=None,
               done=False, kinds={})
    last = [0.0]

    def flush(force=False):
        if not force and time.time() - last[0] < 0.5:
            return
        last[0] = time.time()
        res["seconds"] = round(time.time() - t0, 2)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=_js)
        os.replace(tmp, out)
    flush(True)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod = load(pid)
            extra = []
            if casefile:
                extra = json.load(open(casefile))
            if casefile and os.environ.get("VC_ONLY_CASES"):
                it = iter(extra)
            else:
                it = _chain(extra, mod.cases(random.Random(seed), TIER))
            seen = set()
            for case in it:
                res["current"] = case
                flush()
                key = json.dumps(case, sort_keys=True, default=_js)
                try:
                    r = mod.run_case(case)
                except SkipCase:
                    continue
                res["evaluations"] += 1
                k = str(case.get("kind", "")) if isinstance(case, dict) else ""
                res["kinds"][k] = res["kinds"].get(k, 0) + 1
                if hash(key) not in seen:
                    seen.add(hash(key))
                    res["distinct"] += 1
                    if not (isinstance(case, dict) and case.get("trivial")):
                        res["nontrivial"] += 1
                if len(res["samples"]) < 3:
                    res["samples"].append(case)
                if r:
                    sig = r[1] if isinstance(r, tuple) else None
                    txt = r[0] if isinstance(r, tuple) else r
                    if sig is not None and sig in known_signatures(pid):
                        res.setdefault("known", {})[sig] = dict(case=case, what=txt)
                        continue
                    res["violation"] = dict(case=case, what=txt)
                    break
                if time.time() - t0 > budget:
                    break
            else:
                res["exhausted"] = True
    except Exception:
        res["error"] = traceback.format_exc()[-4000:]
    res["done"] = True
    flush(True)


class SkipCase(Exception):
    pass


def _chain(a, b):
    yield from a
    yield from b


def _js(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (set, frozenset, tuple)):
        return list(x)
    return str(x)


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> signature=<sig> <what>
                parts = line.split(None, 3)
                out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3] if len(parts) > 3 else ""))
    return out


def known_signatures(pid):
    return {s for p, s, _ in known_findings() if p == pid}


# ---------------------------------------------------------------- parent
def spawn(args, env, err=subprocess.PIPE):
    return subprocess.Popen([PY, "-m", "vc.harness"] + args, cwd=VERIF, env=env,
                            stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)


class Deductive:
    """the deductive workers of a check"""

    def __init__(self, pid, tmp, env, limit):
        self.limit = limit
        claims = os.path.join(tmp, "claims")
        os.mkdir(claims)
        self.procs = []
        for k in range(max(1, min(4, (os.cpu_count() or 2) - 2))):
            out, err = os.path.join(tmp, "d%d.json" % k), open(os.path.join(tmp, "d%d.err" % k), "wb")
            self.procs.append((spawn(["--deductive", pid, out, claims], env, err), out, err.name))
            err.close()

    def result(self):
        res, errors, hang = dict(units=[], trusted=[], error=None), [], False
        for p, out, err in self.procs:
            try:
                p.wait(timeout=max(1, self.limit - time.time()))
            except subprocess.TimeoutExpired:
                hang = True
                kill(p)
            r = readjson(out)
            if r is None:
                # killed, or ended before it had any unit to report
                if p.returncode != 0 and not hang:
                    with open(err, "rb") as f:
                        errors.append("worker ended with %s: %s" % (p.returncode, f.read().decode(errors="replace")[-1500:]))
                continue
            if p.returncode != 0 and not hang:
                errors.append("worker ended with %s" % p.returncode)
            res["units"] += r["units"]
            res["trusted"] = sorted(set(res["trusted"]) | set(r["trusted"]))
            if r["error"]:
                errors.append(r["error"])
        res["units"].sort(key=lambda u: u["index"])
        if hang:
            errors.append("deductive worker exceeded its time limit")
        elif not errors and not res["units"]:
            errors.append("no output")
        res["error"] = errors[0] if errors else None
        return res


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def readjson(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def run_concrete(pid, tmp, budget, hard, seed, cases=None, only=False, tag="c", focus=None):
    env = worker_env()
    if focus:
        env["VC_FOCUS"] = json.dumps(focus)
    out = os.path.join(tmp, "%s.json" % tag)
    args = ["--concrete", pid, out, str(budget), str(seed)]
    if cases is not None:
        cf = os.path.join(tmp, "%s-cases.json" % tag)
        json.dump(cases, open(cf, "w"), default=_js)
        args.append(cf)
        if only:
            env["VC_ONLY_CASES"] = "1"
    return spawn(args, env), out, time.time() + hard


def finish_concrete(p, out, deadline):
    hang = False
    err = b""
    try:
        _, err = p.communicate(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        hang = True
        kill(p)
    r = readjson(out) or {}
    if hang:
        r["hang"] = True
    if p.returncode not in (0, None) and not r.get("done"):
        r["crash"] = "worker ended with %s: %s" % (p.returncode, err.decode(errors="replace")[-800:])
    return r


def main(argv):
    if argv[0] == "--deductive":
        return deductive(argv[1], argv[2], argv[3] if len(argv) > 3 else None)
    if argv[0] == "--concrete":
        return concrete(argv[1], argv[2], float(argv[3]), int(argv[4]), argv[5] if len(argv) > 5 else None)
    pid = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(pid, argv[2])
    return check(pid)


def replay(pid, path):
    import tempfile
    rp = readjson(path)
    case = rp.get("case")
    if case is None:
        print("replay file carries no input; failed obligations:")
        for o in rp.get("failed_obligations", []):
            print("  ", o.get("unit"), o.get("name"), o.get("status"), o.get("reason") or "")
        return 2
    with tempfile.TemporaryDirectory() as tmp:
        p, out, dl = run_concrete(pid, tmp, 120, 240, SEED, [case], only=True)
        r = finish_concrete(p, out, dl)
    print(json.dumps(r, indent=1, default=_js))
    return 1 if (r.get("violation") or r.get("hang") or r.get("error")) else 0


def check(pid):
    import tempfile
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    thorough = TIER == "thorough"
    cb = float(os.environ.get("VC_BUDGET", "240" if thorough else "40" if pid <= "C13" else "25"))
    with tempfile.TemporaryDirectory() as tmp:
        env = worker_env()
        ded = Deductive(pid, tmp, env, time.time() + (3000 if thorough else 420))
        cp, cout, cdl = run_concrete(pid, tmp, cb, cb + 150, SEED)
        cres = finish_concrete(cp, cout, cdl)
        if cres.get("violation") and not thorough:
            # the verdict is settled by an input on the real code; the obligations get another minute for the evidence
            ded.limit = min(ded.limit, time.time() + 60)
        dres = ded.result()
        failed, opened, unsup, discharged, total, backends, solver_s = [], [], [], 0, 0, {}, 0.0
        covers = 0
        for u in dres["units"]:
            if u["status"] != "ok":
                unsup.append(dict(unit=u["name"], reason=u["reason"], attempts=u.get("attempts")))
                continue
            if not u["outcomes"]:
                unsup.append(dict(unit=u["name"], reason="no obligations generated (vacuous)"))
            for o in u["outcomes"]:
                solver_s += o["seconds"]
                if o["kind"] == "cover":
                    covers += 1
                    if o["status"] == "refuted":
                        unsup.append(dict(unit=u["name"], reason="vacuous precondition: %s" % o["name"]))
                    continue
                total += 1
                d = dict(o, unit=u["name"])
                if o["status"] == "proved":
                    discharged += 1
                    backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                elif o["status"] == "refuted":
                    failed.append(d)
                else:
                    opened.append(d)
        # ---- failing input for refuted obligations
        viol = cres.get("violation")
        hangcase = None
        if not viol and (cres.get("hang") or cres.get("crash")):
            hangcase = cres.get("current")
        searched = None
        suspicious = [o for o in opened if str(o.get("reason") or "").startswith("counter-model")]
        focus = sorted({o["unit"] for o in failed + opened})
        if not viol and (failed or opened):
            mc = [o["case"] for o in failed + suspicious if o.get("case") is not None]
            if mc:
                p, out, dl = run_concrete(pid, tmp, 60, 120, SEED, mc, only=True, tag="m")
                r = finish_concrete(p, out, dl)
                viol = r.get("violation")
            if not viol:
                sb = (200 if failed or suspicious else 90) if not thorough else 400
                p, out, dl = run_concrete(pid, tmp, sb, sb + 60, SEED + 1000, tag="s", focus=focus)
                searched = finish_concrete(p, out, dl)
                viol = searched.get("violation")
                if not viol and searched.get("hang"):
                    hangcase = searched.get("current")
        verdict, lines = 0, []
        rpath = os.path.join(evdir, "replay", "%s.json" % pid)
        if os.path.exists(rpath):
            os.remove(rpath)
        rp = dict(property=pid, failed_obligations=failed, open_obligations=opened, unsupported=unsup,
                  repo_head=_head(), seed=SEED, tier=TIER)
        if viol:
            rp.update(case=viol["case"], what=viol["what"])
            verdict = 1
            lines.append("VIOLATION property=%s replay=%s" % (pid, rpath))
            lines.append("  " + str(viol["what"])[:600])
        elif cres.get("error"):
            # the contract harness itself fell over on the real code: the API broke
            rp.update(case=cres.get("current"), what=cres["error"])
            verdict = 1
            lines.append("VIOLATION property=%s replay=%s" % (pid, rpath))
            lines.append("  harness could not exercise the code: " + cres["error"].strip().splitlines()[-1][:400])
        elif hangcase is not None:
            rp.update(case=hangcase, what="no result within the time limit")
            verdict = 1
            lines.append("VIOLATION property=%s replay=%s" % (pid, rpath))
            lines.append("  the code gave no result on this input")
        elif failed:
            verdict = 1
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
            for o in failed[:4]:
                lines.insert(0, "  failed obligation %s / %s (%s)" % (o["unit"], o["name"], (o.get("reason") or "")[:200]))
        if verdict:
            json.dump(rp, open(rpath, "w"), indent=1, default=_js)
        for p_, s_, what in known_findings():
            if p_ == pid and s_ in (cres.get("known") or {}):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
        bounded = [u["name"] for u in dres["units"] if u.get("bound")]
        fns = sorted({f for u in dres["units"] if u["status"] == "ok" for f in u["functions"]})
        try:
            level = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
            level = [c["level"] for c in level["checks"] if c["property"] == pid][0]
        except Exception:
            level = "proof"
        cov = dict(obligations=total, discharged=discharged,
                   checker_cmd="VERIF_TIER=%s /verif/check %s" % (TIER, pid),
                   trusted_base=sorted(set(dres.get("trusted", []))) + TRUSTED,
                   functions_under_contract=fns, backends=backends, solver_seconds=round(solver_s, 2),
                   reachability_checks=covers,
                   failed_obligations=failed, open_obligations=opened,
                   units=[dict(unit=u["name"], status=u["status"], bound=u.get("bound"), seconds=u.get("seconds"),
                               obligations=len(u.get("outcomes", []))) for u in dres["units"]],
                   bounded_units=bounded, not_extracted=unsup, deductive_error=dres.get("error"),
                   evaluations=cres.get("evaluations", 0), distinct_nontrivial=cres.get("nontrivial", 0),
                   rule="concrete cross-check: the same contract executed on the real code; a case is non-trivial when it is distinct and reaches the postcondition",
                   samples=cres.get("samples", []), case_kinds=cres.get("kinds", {}),
                   concrete_seconds=cres.get("seconds"), extended_search=bool(searched))
        ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                  assumptions=ASSUMPTIONS + list(getattr_safe(pid, "ASSUMPTIONS")), wall_s=round(time.time() - t0, 2),
                  violations=1 if verdict else 0)
        with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
    print("%s: %d/%d obligations discharged (%s), %d units, %d not extracted, %d concrete evaluations, %.0f s" % (
        pid, discharged, total, ", ".join("%s %d" % kv for kv in sorted(backends.items())), len(dres["units"]), len(unsup),
        cres.get("evaluations", 0), time.time() - t0))
    for u in unsup:
        print("  bounded stand-in only for %s: %s" % (u["unit"], str(u["reason"]).strip().splitlines()[-1][:200]))
    if dres.get("error"):
        print("  deductive worker: " + dres["error"].strip().splitlines()[-1][:300])
    for o in opened:
        print("  undecided obligation %s / %s" % (o["unit"], o["name"]))
    for line in lines:
        print(line)
    return verdict


def getattr_safe(pid, name):
    """module-level list in the check's source, read without importing jax"""
    import ast
    try:
        tree = ast.parse(open(os.path.join(VERIF, "checks", pid.lower() + ".py")).read())
        for n in tree.body:
            if isinstance(n, ast.Assign) and any(getattr(t, "id", None) == name for t in n.targets):
                return ast.literal_eval(n.value)
    except Exception:
        pass
    return []


def _head():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return None


TRUSTED = [
    "z3 5.x / cvc5 1.x as decision procedures",
    "the front ends in /verif/vc (jaxpr evaluator, Python evaluator), cross-checked against CPython/XLA on every run",
]
ASSUMPTIONS = [
    "floating point numbers are treated as reals (no rounding, overflow or underflow); integers as mathematical integers",
    "the semantics of jax primitives and of the dependency functions listed in trusted_base",
]

if __name__ == "__main__":
    # the checks import vc.harness: run that instance, so that its exception classes are the ones raised
    from vc.harness import main as _main
    sys.exit(_main(sys.argv[1:]) or 0)
