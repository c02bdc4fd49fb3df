"""C31: a fit can be restored from its backend file."""
import json
import os
import shutil
import tempfile

import emcee
import h5py
import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from vc.util import repo_fn
from checks import context_common as X
from checks.c25 import par

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["json: loads(dumps(x, sort_keys, indent, separators)) == x for a JSON value x (objects with string keys)",
               "h5py: an attribute of a group reads as the value last stored; renaming the file keeps its contents",
               "emcee: HDFBackend.reset(nwalkers, ndim) stores nwalkers as an attribute of the group 'mcmc' and erases the chain; nothing else of emcee changes "
               "the attributes written by appletree",
               "get_file_path returns a path of the given file (C29)"]
W, BS, BS2, BS3 = z3.Int("nwalkers"), z3.Int("batch_size"), z3.Int("batch_size_continued"), z3.Int("default_batch")
PATH = z3.Function("resolved_path", N, N)
FILE, RENAMED = z3.Const("file_of_the_fit", N), z3.Const("given_file", N)


class Any_:
    """a value about which nothing is known"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        if name in ("get_chain", "get_autocorr_time", "get_all_parameter"):
            return P.Contract(lambda it, a, k: P.SObj(ANY, z3.Const(name, OPQ)), name)
        return P.SObj(ANY, z3.Const(name, OPQ))

    def getitem(self, it, o, k):
        return P.SObj(ANY, z3.Const("item", OPQ))

    def length(self, it, o):
        return P.SNum(z3.Int("length_of_%s" % o.z))

    def deepcopy(self, it, o):
        return o


ANY = Any_()


class Json(Any_):
    """a JSON value; it must not be modified"""

    def setitem(self, it, o, k, v):
        it.state["obl"].append("%s is modified" % o.z)

    def getattr(self, it, o, name):
        if name in ("update", "pop", "clear", "setdefault", "popitem"):
            it.state["obl"].append("%s is modified" % o.z)
        return P._MISSING


JSON = Json()
INSTRUCT = P.SObj(JSON, z3.Const("instructions", OPQ))


class JText:
    def __init__(self, v):
        self.v = v

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is str

    def getattr(self, it, o, name):
        if name in ("strip", "encode", "decode"):
            return P.Contract(lambda it, a, k: o, name)
        return P._MISSING


def _dumps(it, a, k):
    b = dict(k)
    for x in b:
        if x not in ("sort_keys", "indent", "separators", "ensure_ascii"):
            raise P.Unsupported("json.dumps(%s)" % x)
    if len(a) != 1:
        raise P.Unsupported("json.dumps")
    return P.SObj(JText(a[0]), it.run.fresh("json_text", OPQ))


def _loads(it, a, k):
    if len(a) != 1 or k:
        raise P.Unsupported("json.loads")
    t = a[0]
    if isinstance(t, P.SObj) and isinstance(t.model, JText):
        return t.model.v
    raise P.Unsupported("json.loads(%r)" % (t,))


class File:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "__enter__":
            return P.Contract(lambda it, a, k: o, name)
        if name in ("__exit__", "close"):
            return P.Contract(lambda it, a, k: None, name)
        if name == "require_group":
            return P.Contract(lambda it, a, k: self.getitem(it, o, a[0]), name)
        return P._MISSING

    def getitem(self, it, o, k):
        if k != "mcmc":
            raise P.Unsupported("group %r" % (k,))
        return P.SObj(Group(), z3.Const("group", OPQ))


class Group:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "attrs":
            return it.state["attrs"]
        return P._MISSING


def _h5(it, a, k):
    b = bind(["name", ("mode", "r")], a, k)
    s = it.state
    n = b["name"]
    s["opened"].append((n.z if isinstance(n, P.SStr) else n, b["mode"]))
    if b["mode"] not in ("r", "r+", "a"):
        s["obl"].append("the file is overwritten (mode %r)" % (b["mode"],))
    return P.SObj(File(), z3.Const("file", OPQ))


class Backend:
    def __init__(self, info):
        self.info = info

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "name":
            return "mcmc"
        if name == "reset":
            def f(it, a, k):
                b = bind(["nwalkers", "ndim"], a, k)
                s = it.state
                it.setitem(s["attrs"], "nwalkers", b["nwalkers"])
                s["resets"].append(self.info)
            return P.Contract(f, name)
        return P.SObj(ANY, z3.Const("backend_" + name, OPQ))


def _backend(it, a, k):
    b = bind(["filename", ("name", "mcmc"), ("read_only", False), ("dtype", None), ("compression", None), ("compression_opts", None)], a, k)
    if b["name"] != "mcmc":
        raise P.Unsupported("backend name")
    it.state["backends"].append(b)
    return P.SObj(Backend(b), it.run.fresh("backend", OPQ))


class Sampler(Any_):
    def __init__(self, info):
        self.info = info

    def getattr(self, it, o, name):
        if name == "backend":
            return self.info["backend"]
        if name == "run_mcmc":
            def f(it, a, k):
                b = bind(["initial_state", "nsteps", ("store", True), ("progress", False), ("skip_initial_state_check", False)], a, {x: y for x, y in k.items()})
                it.state["runs"].append((self.info, b["initial_state"]))
                return P.SObj(ANY, z3.Const("state", OPQ))
            return P.Contract(f, name)
        return Any_.getattr(self, it, o, name)


class Chain3(Any_):
    """a chain of shape (steps, walkers, parameters)"""

    def getattr(self, it, o, name):
        if name == "shape":
            return (P.SNum(z3.Int("steps")), P.SNum(it.state["walkers"]), P.SNum(z3.Int("ndim")))
        return P._MISSING

    def getitem(self, it, o, k):
        ks = k if isinstance(k, tuple) else (k,)
        if not all(x is Ellipsis or (isinstance(x, slice) and x == slice(None, None, None)) for x in ks[1:]):
            raise P.Unsupported("part of a step")
        if ks[0] == -1 and isinstance(ks[0], int):
            return P.SObj(Step(last=True), o.z)
        return P.SObj(Step(last=False), o.z)


class Step(Any_):
    """the positions of all walkers at one step"""

    def __init__(self, last):
        self.last = last

    def getattr(self, it, o, name):
        if name in ("tolist", "copy"):
            return P.Contract(lambda it, a, k: o, name)
        return P._MISSING


def _sampler(it, a, k):
    b = bind(["nwalkers", "ndim", "log_prob_fn", ("pool", None), ("moves", None), ("args", None), ("kwargs", None), ("backend", None), ("vectorize", False),
              ("blobs_dtype", None), ("parameter_names", None), ("a", None), ("postargs", None), ("threads", None), ("live_dangerously", None),
              ("runtime_sortingfn", None)], a, k)
    it.state["samplers"].append(b)
    return P.SObj(Sampler(b), it.run.fresh("sampler", OPQ))


class Store(Any_):
    def getattr(self, it, o, name):
        if name == "sample_init":
            return P.Contract(lambda it, a, k: None, name)
        if name == "parameter_fit_array":
            return P.SArr(z3.Int("ndim"), lambda j: P.SNum(z3.Real("fit_value")))
        return Any_.getattr(self, it, o, name)


def _con():
    C = X.cls()
    con = dict(X.contracts())
    con[json.dumps], con[json.loads] = _dumps, _loads
    con[h5py.File] = _h5
    con[emcee.backends.HDFBackend] = _backend
    con[emcee.EnsembleSampler] = _sampler
    con[C.get_post_parameters] = lambda it, a, k: P.SObj(JSON, z3.Const("post_parameters", OPQ))
    con[C._sanity_check] = lambda it, a, k: None
    con[repo_fn("appletree.utils", "get_file_path")] = lambda it, a, k: P.SStr(PATH(a[0].z))

    def make(it, a, k):
        b = bind(["instruct", ("par_config", None)], a, k)
        it.state["made"].append(b)
        t = X.instance(it, it.run.cell(P.MDict()), P.SObj(Store(), z3.Const("store2", OPQ)),
                       dict(instruct=b["instruct"], backend_h5=P.SStr(FILE), par_config=P.SObj(JSON, z3.Const("par_config", OPQ)), config=P.SObj(JSON, z3.Const("config", OPQ))))
        it.state["tree"] = t
        return t
    con[C] = make
    return con


def _start(it, backend=True):
    run = it.run
    s = dict(obl=[], opened=[], resets=[], backends=[], samplers=[], made=[], runs=[], attrs=run.cell(P.MDict()), walkers=W)
    it.state = s
    run.fact(z3.And(W > 0, BS > 0, BS2 > 0))
    s["inst"] = X.instance(it, run.cell(P.MDict()), P.SObj(Store(), z3.Const("store", OPQ)),
                           dict(instruct=INSTRUCT, backend_h5=P.SStr(FILE) if backend else None, par_config=P.SObj(JSON, z3.Const("par_config", OPQ)),
                                config=P.SObj(JSON, z3.Const("config", OPQ))))
    return s


def _restore(it, s, moves):
    s["before"] = dict(opened=len(s["opened"]), resets=len(s["resets"]), backends=len(s["backends"]), samplers=len(s["samplers"]))
    s["writes"] = s["attrs"].content
    f = it.getattr(X.cls(), "from_backend")
    return it.call(f, [P.SStr(RENAMED)], {"moves": moves} if moves is not None else {})


def _num(x):
    return P.zreal(P.anum(x).z)


def _same(x, y):
    return isinstance(x, P.SObj) and z3.eq(x.z, y.z)


def _judge(env, p, tag, walkers, batch, moves):
    s = p.state
    if p.kind == "raise":
        env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
        return
    b0 = s["before"]
    env.check("instructions are not modified, the file is not overwritten" + tag, not s["obl"], "; ".join(s["obl"]))
    env.check("one context is made" + tag, len(s["made"]) == 1, "%d" % len(s["made"]))
    env.check("from the dumped instructions" + tag, len(s["made"]) == 1 and _same(s["made"][0]["instruct"], INSTRUCT) and s["made"][0]["par_config"] is None, repr(s["made"]))
    env.check("and it is returned" + tag, p.value is s.get("tree"), repr(p.value))
    op = s["opened"][b0["opened"]:]
    env.check("one file is read" + tag, len(op) >= 1 and all(z3.is_expr(n) for n, _ in op), repr(op))
    for n, m in op:
        if z3.is_expr(n):
            env.prove("the given file is read" + tag, z3.Or(n == PATH(RENAMED), n == RENAMED), p.hyps)
            env.check("for reading" + tag, m == "r", repr(m))
    env.check("the file is not changed" + tag, s["attrs"].content == s["writes"] and len(s["resets"]) == b0["resets"], "reset or written")
    bk, sm = s["backends"][b0["backends"]:], s["samplers"][b0["samplers"]:]
    env.check("a backend and a sampler are attached" + tag, len(bk) >= 1 and len(sm) >= 1, "%d, %d" % (len(bk), len(sm)))
    if not bk or not sm:
        return
    last = sm[-1]
    fn = last["backend"].model.info["filename"] if isinstance(last["backend"], P.SObj) and isinstance(last["backend"].model, Backend) else None
    env.prove("the given file is attached as backend" + tag, z3.Or(fn.z == RENAMED, fn.z == PATH(RENAMED)) if isinstance(fn, P.SStr) else z3.BoolVal(False), p.hyps)
    att = s["tree"].content.get("backend_h5")
    env.prove("and recorded in the context" + tag, z3.Or(att.z == RENAMED, att.z == PATH(RENAMED)) if isinstance(att, P.SStr) else z3.BoolVal(False), p.hyps)
    env.prove("with the number of walkers of the fit" + tag, _num(last["nwalkers"]) == z3.ToReal(walkers), p.hyps)
    bs = None
    if isinstance(last["kwargs"], P.MDict):
        bs = {k: v for _, k, v in last["kwargs"].content[1]}.get("batch_size")
    env.prove("and its batch size" + tag, _num(bs) == z3.ToReal(batch) if bs is not None else z3.BoolVal(False), p.hyps)
    env.check("and the given moves" + tag, last["moves"] is moves, repr(last["moves"]))


def _history(steps, moves):
    def run(env):
        mv = P.SObj(ANY, z3.Const("moves", OPQ)) if moves else None

        def body(it):
            s = _start(it)
            for st in steps:
                m = it.getattr(s["inst"], st)
                if st == "fitting":
                    it.call(m, [P.SNum(W), P.SNum(z3.Int("iterations")), P.SNum(BS)])
                elif st == "continue_fitting":
                    it.setattr(s["inst"], "sampler", P.SObj(_Done("own_chain"), z3.Const("sampler1", OPQ)))
                    s["mark"] = (len(s["runs"]), len(s["resets"]))
                    it.call(m, [], dict(iteration=P.SNum(z3.Int("iterations2")), batch_size=P.SNum(BS2)))
                elif st == "_dump_meta":
                    it.setitem(s["attrs"], "nwalkers", P.SNum(W))
                    it.setattr(s["inst"], "sampler", P.SObj(Sampler(dict(backend=P.SObj(Backend(dict(filename=P.SStr(FILE))), z3.Const("b0", OPQ)))), z3.Const("sampler0", OPQ)))
                    it.call(m, [P.SNum(BS)])
            return _restore(it, s, mv)
        n = 0
        for a, p in enumerate(P.explore(env, body, _con())):
            n += 1
            if "continue_fitting" in steps and p.kind != "raise":
                _continued(env, p.state, " [path %d]" % a, True)
            _judge(env, p, " [path %d]" % a, W, BS2 if "continue_fitting" in steps else BS, mv)
        env.check("a path exists", n > 0, "none")
    return run


class _Done(Sampler):
    """the sampler after the first fit"""

    def __init__(self, chain):
        self.chain = chain

    def getattr(self, it, o, name):
        if name == "get_chain":
            def f(it, a, k):
                if a or k:
                    raise P.Unsupported("get_chain with arguments")
                return P.SObj(Chain3(), z3.Const(self.chain, OPQ))
            return P.Contract(f, name)
        return Any_.getattr(self, it, o, name)


def _continued(env, s, tag, own):
    """the walkers of the continued fit start at the last step of the chain that is continued"""
    runs, resets = s["runs"][s["mark"][0]:], s["resets"][s["mark"][1]:]
    env.check("continuing runs the sampler once" + tag, len(runs) == 1, "%d runs" % len(runs))
    env.check("the steps already in the backend are kept" + tag, not resets, "reset")
    if len(runs) != 1:
        return
    info, p0 = runs[0]
    chain = z3.Const("own_chain" if own else "other_chain", OPQ)
    ok = isinstance(p0, P.SObj) and isinstance(p0.model, Step) and p0.model.last and z3.eq(p0.z, chain)
    fn = info["backend"].model.info.get("filename") if isinstance(info["backend"], P.SObj) and isinstance(info["backend"].model, Backend) else None
    if own and p0 is None:      # emcee resumes from the last step in the backend of the sampler
        ok = isinstance(fn, P.SStr) and z3.eq(fn.z, FILE)
    env.check("the walkers start at the last step of the continued chain" + tag, ok, repr(p0))
    env.check("the new steps go to the own backend" + tag, isinstance(fn, P.SStr) and z3.eq(fn.z, FILE)
              and info["backend"].model.info["read_only"] is False, repr(fn))
    env.prove("with as many walkers" + tag, _num(info["nwalkers"]) == z3.ToReal(W), [])


def _other(env):
    """a fit that continues the fit of another context"""
    def body(it):
        s = _start(it)
        o = X.instance(it, it.run.cell(P.MDict()), P.SObj(Store(), z3.Const("other_store", OPQ)),
                       dict(instruct=P.SObj(JSON, z3.Const("other_instructions", OPQ)), backend_h5=P.SStr(z3.Const("other_file", N)),
                            par_config=P.SObj(JSON, z3.Const("other_par_config", OPQ)), config=P.SObj(JSON, z3.Const("other_config", OPQ))))
        it.setattr(o, "sampler", P.SObj(_Done("other_chain"), z3.Const("sampler_other", OPQ)))
        s["mark"] = (0, 0)
        it.call(it.getattr(s["inst"], "continue_fitting"), [o], dict(iteration=P.SNum(z3.Int("iterations2")), batch_size=P.SNum(BS2)))
    n = 0
    for a, p in enumerate(P.explore(env, body, _con())):
        tag = " [path %d]" % a
        n += 1
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        _continued(env, p.state, tag, False)
    env.check("a path exists", n > 0, "none")


def _init(env):
    """the context made from instructions keeps them, and their backend file"""
    C = X.cls()
    G = z3.Const("backend_in_instructions", N)

    class Ins(Json):
        def contains(self, it, o, k):
            return False if k == "url_base" else True

        def getattr(self, it, o, name):
            if name == "get":
                def f(it, a, k):
                    if a[0] == "backend_h5":
                        return P.SStr(G)
                    return P.SObj(JSON, z3.Const("instructions[%s]" % a[0], OPQ))
                return P.Contract(f, name)
            if name == "keys":
                return P.Contract(lambda it, a, k: o, name)
            return Json.getattr(self, it, o, name)

        def getitem(self, it, o, k):
            return P.SStr(G) if k == "backend_h5" else P.SObj(JSON, z3.Const("instructions[%s]" % k, OPQ))
    ins = P.SObj(Ins(), z3.Const("instructions", OPQ))
    con = dict(X.contracts())
    for f in ("get_parameter_config", "update_parameter_config", "register_all_likelihood", "update_url_base"):
        if f in vars(C):
            con[getattr(C, f)] = lambda it, a, k: P.SObj(ANY, z3.Const("x", OPQ))
    con[repo_fn("appletree.share", "set_global_config")] = lambda it, a, k: None
    con[X.par_cls()] = lambda it, a, k: P.SObj(ANY, z3.Const("store", OPQ))

    def body(it):
        it.state = dict(obl=[])
        o = it.run.cell(P.Inst(C))
        it.call(it.class_lookup(C, "__init__"), [o, ins])
        it.state["o"] = o
    for a, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % a
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        o = p.state["o"].content
        env.check("the context keeps its instructions" + tag, _same(o.get("instruct"), ins) and not p.state["obl"], repr(o.get("instruct")))
        b = o.get("backend_h5")
        env.check("and their backend file" + tag, isinstance(b, P.SStr) and z3.eq(b.z, G), repr(b))


def _nobackend(env):
    """without a backend nothing is dumped"""
    def body(it):
        s = _start(it, backend=False)
        it.call(it.getattr(s["inst"], "_dump_meta"), [P.SNum(BS)])
    for a, p in enumerate(P.explore(env, body, _con())):
        env.check("no file is touched [path %d]" % a, p.kind != "raise" and not p.state["opened"], repr(p.value))


def units():
    f = "appletree/context.py:Context."
    base = [f + "from_backend", f + "pre_fitting", f + "_set_backend", f + "_dump_meta"]
    return [Unit("dump, rename, from_backend", base, _history(["_dump_meta"], True)),
            Unit("fitting, rename, from_backend", base + [f + "fitting"], _history(["fitting"], False)),
            Unit("fitting, continue_fitting, rename, from_backend", base + [f + "fitting", f + "continue_fitting"], _history(["fitting", "continue_fitting"], True)),
            Unit("continue_fitting of another context", [f + "continue_fitting", f + "pre_fitting", f + "_set_backend"], _other),
            Unit("Context.__init__", [f + "__init__"], _init),
            Unit("Context._dump_meta without backend", [f + "_dump_meta"], _nobackend)]


# ---------------------------------------------------------------- concrete side
def _jsonv(rng, depth=0):
    k = rng.randint(0, 9 if depth < 3 else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, -1, 7, 10 ** 12, 2 ** 40])
    if k in (3, 4):
        return rng.choice([0.1, -1e-9, 1e300, 3.0, 2.5])
    if k in (5, 6):
        return rng.choice(["", "true", "None", "a'b", 'q"uote', "line\nbreak", "\u03b1\u00df", "[1]", "x\\y", "nan"])
    if k in (7, 8):
        return [_jsonv(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["a", "b", "true", "k'", "1", "\u00e9", ""]): _jsonv(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(extra={"note%d" % i: _jsonv(rng) for i in range(rng.randint(0, 3))}, walkers=2 * rng.randint(2, 6), batch=rng.choice([1, 10, 123456]),
                   rename=rng.choice(["no", "move", "copy"]), relative=rng.random() < 0.2, how=rng.choice(["fit", "dump"]) if k > 2 else "fit",
                   cont=rng.choice([0, 0, 7, 55]), moves=rng.random() < 0.3, other=rng.choice(["", "", "", "fresh", "stored"]), pars=rng.randint(1, 2))


def run_case(c):
    d = tempfile.mkdtemp(prefix="vc_h5_")
    cwd = os.getcwd()
    try:
        return _case(c, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


class _Quad:
    name = "q"

    def get_log_likelihood(self, key, batch_size, parameters):
        return key, -sum((float(v) - 0.7) ** 2 for v in parameters.values())


class _Spy:
    """records where the walkers of a sampler start"""

    def __enter__(self):
        self.starts, self.real = [], emcee.EnsembleSampler.run_mcmc
        spy = self

        def run_mcmc(sampler, initial_state, *a, **k):
            st = initial_state if initial_state is not None else sampler.get_last_sample() if sampler._previous_state is None else sampler._previous_state
            spy.starts.append(np.array(st.coords if hasattr(st, "coords") else st, dtype=float))
            return spy.real(sampler, initial_state, *a, **k)
        emcee.EnsembleSampler.run_mcmc = run_mcmc
        return self

    def __exit__(self, *a):
        emcee.EnsembleSampler.run_mcmc = self.real


def _case(c, d):
    import contextlib
    import io
    cfg = {"p%d" % i: par(0.5 + i) for i in range(c["pars"])}
    cfg["f"] = par(3.0, fixed=True)
    pf = os.path.join(d, "par.json")
    with open(pf, "w") as g:
        json.dump(cfg, g)
    f = os.path.join(d, "fit.h5")
    inst = dict(likelihoods={}, configs={}, par_config=pf, backend_h5=f, **c["extra"])
    text = json.dumps(inst)
    share = __import__("appletree.share", fromlist=["x"])
    with X.Quiet(), contextlib.redirect_stderr(io.StringIO()):
        share.clear_cache()
        t = X.cls()(json.loads(text))
        t.needed_parameters = set(cfg)
        t.likelihoods["q"] = _Quad()
        batch = c["batch"]
        if c["how"] == "fit":
            t.fitting(nwalkers=c["walkers"], iteration=2, batch_size=batch)
        else:
            t.pre_fitting(nwalkers=c["walkers"], read_only=False, reset=True, batch_size=3)
            p0 = [[0.4 + 0.01 * i + j for j in range(c["pars"])] for i in range(c["walkers"])]
            t.sampler.run_mcmc(np.array(p0), 2, skip_initial_state_check=True)
            t._dump_meta(batch_size=batch)
        if c["cont"]:
            batch = c["cont"]
            old = np.array(t.sampler.get_chain())
            with _Spy() as spy:
                t.continue_fitting(iteration=1, batch_size=batch)
            if len(spy.starts) != 1 or not np.allclose(spy.starts[0], old[-1], rtol=1e-12):
                return "the continued fit starts at %s, the chain ended at %s" % (spy.starts, old[-1].tolist())
            if not np.array_equal(np.array(t.sampler.get_chain())[:len(old)], old):
                return "continuing changed the steps already in the backend"
        if c.get("other"):
            f2 = os.path.join(d, "other.h5")
            t2 = X.cls()(dict(inst, backend_h5=f2))
            t2.needed_parameters = set(cfg)
            t2.likelihoods["q"] = _Quad()
            end = np.array(t.sampler.get_chain())[-1]
            with _Spy() as spy:
                t2.pre_fitting(nwalkers=c["walkers"], read_only=False, reset=True)
                kept = np.zeros((0, c["walkers"], c["pars"]))
                if c["other"] == "stored":     # a fit whose backend file has steps already
                    t2.sampler.run_mcmc(np.array([[0.3 + 0.02 * i + j for j in range(c["pars"])] for i in range(c["walkers"])]), 2, skip_initial_state_check=True)
                    kept = np.array(t2.sampler.get_chain())
                    spy.starts.clear()
                t2.continue_fitting(context=t, iteration=1, batch_size=9)
            now = emcee.backends.HDFBackend(f2, read_only=True).get_chain()
            if not np.array_equal(now[:len(kept)], kept) or len(now) != len(kept) + 1:
                return "the backend held %d steps before another fit was continued into it, afterwards %d%s" % (len(kept), len(now), "" if len(now) <= len(kept) else ", changed")
            if len(spy.starts) != 1 or not np.allclose(spy.starts[0], end, rtol=1e-12):
                return "the fit continuing another one starts at %s, the other chain ended at %s" % (spy.starts, end.tolist())
        chain = np.array(t.sampler.get_chain())
        new = f
        if c["rename"] != "no":
            new = os.path.join(d, "renamed.h5")
            (os.rename if c["rename"] == "move" else shutil.copy)(f, new)
        if c["rename"] == "copy":      # the original belongs to another fit meanwhile
            emcee.backends.HDFBackend(f).reset(3, 5)
        if c["relative"]:
            os.chdir(d)
            new = os.path.basename(new)
        mv = emcee.moves.DEMove() if c["moves"] else None
        with open(new, "rb") as g:
            raw = g.read()
        u = X.cls().from_backend(new, **({"moves": mv} if mv else {}))
        got = u.instruct
        if json.dumps(got, sort_keys=True) != json.dumps(json.loads(text), sort_keys=True):
            return "instructions %s instead of %s" % (json.dumps(got), text)
        if os.path.realpath(str(u.backend_h5)) != os.path.realpath(new):
            return "backend file %s instead of %s" % (u.backend_h5, new)
        s = u.sampler
        if s.nwalkers != c["walkers"]:
            return "%s walkers instead of %s" % (s.nwalkers, c["walkers"])
        if s.log_prob_fn.kwargs.get("batch_size") != batch:
            return "batch size %s instead of %s" % (s.log_prob_fn.kwargs.get("batch_size"), batch)
        if os.path.realpath(s.backend.filename) != os.path.realpath(new):
            return "sampler attached to %s" % s.backend.filename
        if not np.array_equal(np.array(s.get_chain()), chain):
            return "the chain differs"
        if mv is not None and s._moves != [mv]:
            return "moves %s" % (s._moves,)
        with open(new, "rb") as g:
            if g.read() != raw:
                return "the backend file was changed"
        a, b = t.get_post_parameters(), u.get_post_parameters()
        if a != b:
            return "post parameters %s instead of %s" % (b, a)
    return None
