"""C29: files are found in the documented order or refused."""
import os
import os.path
import random
import shutil
import tempfile

import pandas as pd
import z3

from vc import pysym as P
from vc.harness import Unit
from vc.util import repo_fn
from checks import context_common as X

N, B = X.N, X.B
ASSUMPTIONS = ["os.path.isfile / exists / join: functions of their arguments (the file system does not change during a call)",
               "importlib.resources: the folder of a package is a function of its name", "the download from a remote database is switched off (the default)",
               "pandas reads the file it is given"]
ISFILE, EXISTS, ABS = z3.Function("is_file", N, B), z3.Function("exists", N, B), z3.Function("begins_with_slash", N, B)
JOIN, SUFFIX, DOT = z3.Function("joined", N, N, N), z3.Function("after_last_dot", N, N), z3.Function("has_dot", N, B)
PKG, AUX, LISTED = z3.Function("package_folder", N, N), z3.Function("aux_path", N, N), z3.Function("listed_in_aux", N, B)
CONF, RES = z3.Function("configured", N, B), z3.Function("resolved", N, N)
F, UB = z3.Const("file_name", N), z3.Const("url_base", N)
SUBS = ("maps", "data", "parameters", "instructs")


class PStr:
    """a path"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is str

    def eq(self, it, o, x):
        z = _z(it, x)
        return o.z == z if z is not None else False

    def getattr(self, it, o, name):
        if name == "startswith":
            def f(it, a, k):
                if a != ["/"] and a != ("/",):
                    raise P.Unsupported("startswith")
                return P.SBool(ABS(o.z))
            return P.Contract(f, name)
        if name == "endswith":
            def g(it, a, k):
                if not isinstance(a[0], str) or not a[0].startswith("."):
                    raise P.Unsupported("endswith")
                return P.SBool(z3.And(DOT(o.z), SUFFIX(o.z) == it.run.name(a[0][1:])))
            return P.Contract(g, name)
        if name in ("split", "rsplit"):
            def h(it, a, k):
                if a[0] != ".":
                    raise P.Unsupported("split")
                return P.SObj(Parts(), o.z)
            return P.Contract(h, name)
        return P._MISSING


class Parts:
    def is_none(self, it, o):
        return False

    def getitem(self, it, o, k):
        if k != -1:
            raise P.Unsupported("part of a file name")
        return P.SStr(SUFFIX(o.z))


PSTR = PStr()


def _z(it, x):
    if isinstance(x, P.SObj):
        return x.z
    if isinstance(x, (str, P.SStr)):
        return it.run.name(x)
    return None


def path(z):
    return P.SObj(PSTR, z)


class Aux:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "list_private_files":
            return P.Contract(lambda it, a, k: P.SObj(AuxList(), o.z), name)
        if name == "get_abspath":
            def f(it, a, k):
                it.state["obl"].append(("the auxiliary package is asked for a file it has", LISTED(_z(it, a[0])), list(it.run.pc)))
                return path(AUX(_z(it, a[0])))
            return P.Contract(f, name)
        return P._MISSING


class AuxList:
    def contains(self, it, o, k):
        return LISTED(_z(it, k))


def contracts():
    con = dict(X.contracts())
    con[os.path.isfile] = lambda it, a, k: P.SBool(ISFILE(_z(it, a[0])))
    con[os.path.exists] = lambda it, a, k: P.SBool(EXISTS(_z(it, a[0])))

    def isabs(it, a, k):
        return P.SBool(ABS(_z(it, a[0])))

    def join(it, a, k):
        z = _z(it, a[0])
        for x in a[1:]:
            z = JOIN(z, _z(it, x))
        return path(z)
    con[os.path.join], con[os.path.isabs] = join, isabs
    ut = __import__("appletree.utils", fromlist=["x"])
    if hasattr(ut, "_package_path"):
        con[ut._package_path] = lambda it, a, k: path(PKG(_z(it, a[0])))
    return con


def _utils():
    return __import__("appletree.utils", fromlist=["x"])


def _find(aux):
    def run(env):
        def body(it):
            run = it.run
            ub = run.name("url_base")
            cfg = run.cell(P.MDict(base=P.SymBase(lambda k: CONF(k), lambda k: path(UB)), cls=__import__("appletree.share", fromlist=["x"]).RecordingDict))
            it.setattr(cfg, "accessed_keys", run.cell(P.MSet()))
            it.state = dict(obl=[], ub=ub, cfg=cfg, pk=[PKG(run.name(s)) for s in SUBS])
            run.contracts[("global", "_cached_configs")] = cfg
            run.contracts[("global", "NT_AUX_INSTALLED")] = aux
            run.contracts[("global", "SKIP_MONGO_DB")] = True
            run.contracts[("global", "ntauxfiles")] = P.SObj(Aux(), run.name("aux"))
            it.state["r"] = it.call(_utils().get_file_path, [path(F)])
        ret = False
        for n, p in enumerate(P.explore(env, body, contracts())):
            tag = " [%s, path %d]" % ("auxiliary package" if aux else "no auxiliary package", n)
            s = p.state
            for m, g, pc in s["obl"]:
                env.prove(m + tag, g, pc)
            base = z3.And(CONF(s["ub"]), ABS(UB), EXISTS(JOIN(UB, F)))
            bundled = z3.Or(*[EXISTS(JOIN(x, F)) for x in s["pk"]])
            auxc = z3.And(z3.BoolVal(aux), LISTED(F))
            if p.kind == "raise":
                env.prove("refused only if no place has the file" + tag, z3.Not(z3.Or(ISFILE(F), base, bundled, auxc)), p.hyps)
                continue
            r = s["r"]
            if not isinstance(r, P.SObj):
                env.check("the result is a path" + tag, False, repr(r))
                continue
            ret = True
            env.prove("an existing file is used as it is" + tag, z3.Implies(ISFILE(F), r.z == F), p.hyps)
            env.prove("then the base folder" + tag, z3.Implies(z3.And(z3.Not(ISFILE(F)), base), r.z == JOIN(UB, F)), p.hyps)
            env.prove("then the bundled file" + tag, z3.Implies(z3.And(z3.Not(ISFILE(F)), z3.Not(base), bundled),
                                                                z3.Or(*[z3.And(r.z == JOIN(x, F), EXISTS(JOIN(x, F))) for x in s["pk"]])), p.hyps)
            env.prove("then the auxiliary package" + tag, z3.Implies(z3.And(z3.Not(ISFILE(F)), z3.Not(base), z3.Not(bundled)), z3.And(auxc, r.z == AUX(F))), p.hyps)
        env.check("files are found", ret, "never")
    return run


def _abspath(env):
    def body(it):
        it.state = dict(pk=[PKG(it.run.name(s)) for s in SUBS])
        it.state["r"] = it.call(_utils()._get_abspath, [path(F)])
    for n, p in enumerate(P.explore(env, body, contracts())):
        tag = " [path %d]" % n
        have = [EXISTS(JOIN(x, F)) for x in p.state["pk"]]
        if p.kind == "raise":
            env.prove("refused only if no folder of the package has the file" + tag, z3.Not(z3.Or(*have)), p.hyps)
            env.check("refused as a missing file" + tag, isinstance(p.value, P.Exc) and issubclass(p.value.cls, FileNotFoundError), repr(p.value))
        else:
            r = p.state["r"]
            env.prove("an existing file of the package" + tag, z3.Or(*[z3.And(r.z == JOIN(x, F), EXISTS(JOIN(x, F))) for x in p.state["pk"]])
                      if isinstance(r, P.SObj) else z3.BoolVal(False), p.hyps)


class Read:
    def is_none(self, it, o):
        return False


def _load(env):
    con = contracts()
    ut = _utils()
    con[ut.get_file_path] = lambda it, a, k: path(RES(_z(it, a[0])))
    for nm, f in (("csv", pd.read_csv), ("pkl", pd.read_pickle)):
        con[f] = lambda it, a, k, nm=nm: P.SObj(Read(), _z(it, a[0]), how=nm, kw=dict(k), n=len(a))

    def body(it):
        it.state = dict(csv=it.run.name("csv"), pkl=it.run.name("pkl"))
        it.run.fact(z3.Distinct(it.run.name("csv"), it.run.name("pkl")))
        it.state["r"] = it.call(ut.load_data, [path(F)])
    kinds = set()
    for n, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % n
        s = p.state
        suf = SUFFIX(RES(F))
        if p.kind == "raise":
            env.prove("refused only for another suffix" + tag, z3.And(suf != s["csv"], suf != s["pkl"]), p.hyps)
            continue
        r = s["r"]
        ok = isinstance(r, P.SObj) and isinstance(r.model, Read)
        env.check("the content of a file is returned" + tag, ok and not r.info["kw"] and r.info["n"] == 1, repr(r))
        if ok:
            kinds.add(r.info["how"])
            env.prove("of the resolved file" + tag, r.z == RES(F), p.hyps)
            env.prove("read according to its suffix" + tag, suf == s[r.info["how"]], p.hyps)
    env.check("both formats can be read", kinds == {"csv", "pkl"}, repr(kinds))


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    u = "appletree/utils.py:"
    return [Unit("get_file_path", [u + "get_file_path", u + "_get_abspath"], _many(_find(False), _find(True))),
            Unit("_get_abspath", [u + "_get_abspath"], _abspath),
            Unit("load_data", [u + "load_data"], _load)]


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        yield dict(kind="find", seed=rng.randrange(1 << 30))
        yield dict(kind="load", seed=rng.randrange(1 << 30))


class FakeAux:
    def __init__(self, d, names):
        self.d, self.names = d, names

    def list_private_files(self):
        return list(self.names)

    def get_abspath(self, n):
        return os.path.join(self.d, n)


def run_case(c):
    rng = random.Random(c["seed"])
    tmp = tempfile.mkdtemp(prefix="vc_c29_")
    cwd = os.getcwd()
    import appletree as apt
    apt.clear_cache()
    try:
        with X.Quiet():
            return (_c_find if c["kind"] == "find" else _c_load)(rng, tmp)
    finally:
        os.chdir(cwd)
        apt.clear_cache()
        shutil.rmtree(tmp, True)


def _c_find(rng, tmp):
    ut = _utils()
    sh = __import__("appletree.share", fromlist=["x"])
    pkg = os.path.dirname(os.path.abspath(ut.__file__))
    sub = rng.choice(["parameters", "instructs", "data", "maps", None])
    files = sorted(f for f in os.listdir(os.path.join(pkg, sub)) if os.path.isfile(os.path.join(pkg, sub, f)) and not f.endswith(".py")) if sub else []
    name = rng.choice(files) if files else "vc_no_such_file_%d.csv" % rng.randrange(9)
    work, base, aux = (os.path.join(tmp, x) for x in ("work", "base", "aux"))
    for d in (work, base, aux):
        os.makedirs(d)
    os.chdir(work)
    here = rng.random() < 0.25
    if here:
        open(os.path.join(work, name), "w").write("x")
    elif rng.random() < 0.2:
        os.makedirs(os.path.join(work, name))
    inbase, conf = rng.random() < 0.5, rng.choice([None, "abs", "rel"])
    if inbase:
        open(os.path.join(base, name), "w").write("y")
    if conf:
        dict.__setitem__(sh._cached_configs, "url_base", base if conf == "abs" else os.path.relpath(base))
    saved = {k: getattr(ut, k) for k in ("NT_AUX_INSTALLED", "ntauxfiles") if hasattr(ut, k)}
    has = "NT_AUX_INSTALLED" in saved
    inaux = has and rng.random() < 0.5
    names = [name] if rng.random() < 0.5 else ["other"]
    try:
        if has:
            ut.NT_AUX_INSTALLED = inaux
            ut.ntauxfiles = FakeAux(aux, names)
        if here:
            want = name
        elif conf == "abs" and inbase:
            want = os.path.join(base, name)
        elif files:
            want = [os.path.join(pkg, s, name) for s in SUBS if os.path.exists(os.path.join(pkg, s, name))]
        elif inaux and name in names:
            want = os.path.join(aux, name)
        else:
            want = None
        try:
            got = ut.get_file_path(name)
        except (RuntimeError, FileNotFoundError):
            got = None
        if isinstance(want, list):
            if got is None or not any(os.path.realpath(got) == os.path.realpath(w) for w in want):
                return "%s resolves to %s instead of the bundled file" % (name, got)
        elif got != want:
            return "%s resolves to %s instead of %s" % (name, got, want)
    finally:
        for k in ("NT_AUX_INSTALLED", "ntauxfiles"):
            if k in saved:
                setattr(ut, k, saved[k])
            elif hasattr(ut, k):
                delattr(ut, k)
    return None


def _c_load(rng, tmp):
    ut = _utils()
    df = pd.DataFrame(dict(a=[rng.randrange(9) for _ in range(rng.randrange(1, 5))]))
    suf = rng.choice(["csv", "pkl", "txt", "json", "CSV", "csv.bak", "pkl.csv", "csv.pkl"])
    f = os.path.join(tmp, "d." + suf)
    last = suf.split(".")[-1]
    if last == "pkl":
        df.to_pickle(f)
    else:
        df.to_csv(f, index=False)
    try:
        r = ut.load_data(f)
    except ValueError:
        return "a file with suffix %s was refused" % suf if last in ("csv", "pkl") else None
    if last not in ("csv", "pkl"):
        return "a file with suffix %s was accepted" % suf
    if list(r.columns) != ["a"] or list(r["a"]) != list(df["a"]):
        return "other data were read from a file with suffix %s" % suf
    return None
