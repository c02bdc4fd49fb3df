"""C28: names are never silently overwritten."""
import contextlib
import random
import types
import warnings

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from vc.util import repo_fn
from checks import context_common as X
from checks import like_common as L
from checks.like_common import Obl

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["dict: item assignment, clear, update of the base class as documented", "options of steps compare by their default values (names of files, numbers)",
               "the name of a module or class is a string; dir() lists the names of all attributes"]
D0, V0 = z3.Function("stored", N, B), z3.Function("stored_value", N, OPQ)
ACC = z3.Function("accessed_before", N, B)
K, V, Q = z3.Const("key", N), z3.Const("value", OPQ), z3.Const("q", N)


def share():
    return __import__("appletree.share", fromlist=["x"])


def _dict(it, cls, accessed=False):
    d = it.run.cell(P.MDict(base=P.SymBase(lambda k: D0(k), lambda k: P.SOpq(V0(k.z), "stored")), cls=cls))
    if accessed:
        it.setattr(d, "accessed_keys", it.run.cell(P.MSet(base=P.SymBase(lambda k: ACC(k)))))
    return d


def _look(it, d, q=Q):
    """(whether q is stored, its value on the paths where it is): splits the path"""
    h, v = it.zb(it.has(d, P.SStr(q))), None
    if it.run.truth(h):
        v = it.lookup(d, P.SStr(q))
    return h, v


def _is(v, z):
    return v.z == z if isinstance(v, P.SOpq) else z3.BoolVal(False)


def _static(env):
    cls = share().StaticValueDict

    def body(it):
        d = _dict(it, cls)
        it.state = dict(d=d, c0=d.content)
        it.setitem(d, P.SStr(K), P.SOpq(V, "new"))
        it.state["after"] = _look(it, d)
    for a, p in enumerate(P.explore(env, body)):
        tag = " [path %d]" % a
        if p.kind == "raise":
            env.prove("refused only if the name exists" + tag, D0(K), p.hyps)
            env.check("nothing is changed when refused" + tag, p.state["d"].content == p.state["c0"], "written")
            env.check("refused with an error" + tag, isinstance(p.value, P.Exc) and issubclass(p.value.cls, RuntimeError), repr(p.value))
            continue
        env.prove("an existing name is refused" + tag, z3.Not(D0(K)), p.hyps)
        h, v = p.state["after"]
        env.prove("exactly the new name is added" + tag, h == z3.Or(D0(Q), Q == K), p.hyps)
        env.prove("with the given value" + tag, _is(v, V), p.hyps + [Q == K])
        env.prove("other values stay" + tag, _is(v, V0(Q)), p.hyps + [Q != K, D0(Q)])
    env.check("the function cache refuses to overwrite", isinstance(share()._cached_functions, cls), type(share()._cached_functions).__name__)


def _recording(env):
    cls = share().RecordingDict
    env.check("the configuration cache records its use", isinstance(share()._cached_configs, cls), type(share()._cached_configs).__name__)

    def acc(it, d):
        return it.zb(it.contains(P.SStr(Q), it.getattr(d, "accessed_keys")))

    def run(op):
        def body(it):
            d = _dict(it, cls, True)
            it.state = dict(d=d)
            if op == "get":
                it.run.fact(D0(K))
                it.state["got"] = it.getitem(d, P.SStr(K))
            elif op == "set":
                it.setitem(d, P.SStr(K), P.SOpq(V, "new"))
            elif op == "clear":
                it.call(it.getattr(d, "clear"), [])
            elif op == "init":
                d = it.run.cell(P.MDict(cls=cls))
                it.call(it.class_lookup(cls, "__init__"), [d])
            it.state.update(after=_look(it, d), acc=acc(it, d))
        for a, p in enumerate(P.explore(env, body)):
            tag = " [%s, path %d]" % (op, a)
            s = p.state
            if p.kind == "raise":
                env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
                continue
            h, v = s["after"]
            new = {"get": z3.Or(ACC(Q), Q == K), "set": z3.Or(ACC(Q), Q == K), "clear": z3.BoolVal(False), "init": z3.BoolVal(False)}[op]
            env.prove("the record of used options" + tag, s["acc"] == new, p.hyps)
            dom = {"get": D0(Q), "set": z3.Or(D0(Q), Q == K), "clear": z3.BoolVal(False), "init": z3.BoolVal(False)}[op]
            env.prove("the stored options" + tag, h == dom, p.hyps)
            if op == "get":
                env.prove("the stored value is returned" + tag, _is(s["got"], V0(K)), p.hyps)
            if op == "set":
                env.prove("the value is stored" + tag, _is(v, z3.If(Q == K, V, V0(Q))), p.hyps + [dom])
    for op in ("get", "set", "clear", "init"):
        run(op)


def _clear_cache(env):
    def body(it):
        cfg, fn = _dict(it, share().RecordingDict, True), _dict(it, share().StaticValueDict)
        it.run.contracts[("global", "_cached_configs")] = cfg
        it.run.contracts[("global", "_cached_functions")] = fn
        it.call(share().clear_cache, [])
        it.state = dict(c=_look(it, cfg)[0], f=_look(it, fn)[0], a=it.zb(it.contains(P.SStr(Q), it.getattr(cfg, "accessed_keys"))))
    for a, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [path %d]" % a
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        env.prove("no configuration is left" + tag, z3.Not(p.state["c"]), p.hyps)
        env.prove("no function is left" + tag, z3.Not(p.state["f"]), p.hyps)
        env.prove("no record of used options is left" + tag, z3.Not(p.state["a"]), p.hyps)


def _unused(env):
    ut = __import__("appletree.utils", fromlist=["x"])
    con = dict(X.contracts())

    def warn(it, a, k):
        it.state["warned"] = True
    con[warnings.warn] = warn

    def body(it):
        it.state = dict(warned=False)
        it.run.contracts[("global", "_cached_configs")] = _dict(it, share().RecordingDict, True)
        it.call(ut.check_unused_configs, [])
    k = z3.Const("k", N)
    allused = z3.ForAll([k], z3.Implies(D0(k), ACC(k)), patterns=[D0(k)])
    seen = set()
    for a, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % a
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
        elif p.state["warned"]:
            env.prove("no warning if every option was used" + tag, z3.BoolVal(False), p.hyps + [allused])
        else:
            env.prove("a warning if an option was never used" + tag, ACC(Q), p.hyps + [D0(Q)])
        seen.add(p.kind == "raise" or p.state["warned"])
    env.check("unused options are detected", True in seen, "never warns")


# ---------------------------------------------------------------- context and likelihood
TYP = z3.Const("likelihood_type", N)


def _register_likelihood(env):
    C = X.cls()
    apt = __import__("appletree")

    class Conf:
        def is_none(self, it, o):
            return False

        def isinstance(self, it, o, c):
            return c is dict

        def getattr(self, it, o, name):
            if name == "get":
                return P.Contract(lambda it, a, k: P.SStr(TYP), name)
            return P._MISSING

        def getitem(self, it, o, k):
            return P.SStr(TYP)

        def deepcopy(self, it, o):
            return o

    class LikCls:
        def is_none(self, it, o):
            return False

        def getattr(self, it, o, name):
            return P._MISSING

        def call(self, it, o, a, k):
            it.state["made"].append((o, a, k))
            return P.SOpq(V, "new likelihood")
    conf = P.SObj(Conf(), z3.Const("config", OPQ))
    con = dict(X.contracts())
    con[("getattr", "appletree")] = lambda it, name: P.SObj(LikCls(), it.run.name(name))

    def body(it):
        run = it.run
        d = run.cell(P.MDict(base=P.SymBase(lambda k: D0(k), lambda k: P.SOpq(V0(k.z), "stored"))))
        it.state = dict(d=d, c0=d.content, made=[])
        inst = X.instance(it, d, P.SObj(_Plain(), z3.Const("store", OPQ)))
        it.call(it.getattr(inst, "register_likelihood"), [P.SStr(K), conf])
        it.state["after"] = _look(it, d)
    for a, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % a
        s = p.state
        if p.kind == "raise":
            env.prove("refused only if the name exists" + tag, D0(K), p.hyps)
            env.check("nothing is changed when refused" + tag, s["d"].content == s["c0"], "written")
            continue
        env.prove("an existing name is refused" + tag, z3.Not(D0(K)), p.hyps)
        h, v = s["after"]
        env.prove("exactly the new name is added" + tag, h == z3.Or(D0(Q), Q == K), p.hyps)
        env.prove("with the new likelihood, others stay" + tag, _is(v, z3.If(Q == K, V, V0(Q))), p.hyps + [z3.Or(D0(Q), Q == K)])
        ok = len(s["made"]) == 1
        env.check("one likelihood is made" + tag, ok, "%d" % len(s["made"]))
        if ok:
            o, ar, kw = s["made"][0]
            env.prove("of the configured type" + tag, o.z == TYP, p.hyps)
            nm = kw.get("name", ar[0] if ar else None)
            env.prove("with its name" + tag, nm.z == K if isinstance(nm, P.SStr) else z3.BoolVal(False), p.hyps)
            env.check("and its configuration" + tag, kw.get("**") is conf, repr(kw))


class _Plain:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


class _CompClass(_Plain):
    def call(self, it, o, a, k):
        it.state["made"].append(k)
        return P.SObj(it.state["model"], o.z)


def _register_component(lit):
    def run(env):
        NEW = z3.Const("new_component", N)

        def body(it):
            s = dict(need0=lambda k: z3.Function("needed0", N, B)(k), made=[])
            it.state = s
            if lit:
                L.lit_instance(it, s, logpdf=None)
            else:
                L.instance(it, s)
            s["c0"] = s["components"].content
            it.call(it.getattr(s["inst"], "register_component"), [P.SObj(_CompClass(), NEW), P.SStr(K)])
            s["after"] = _look(it, s["components"])
        for a, p in enumerate(P.explore(env, body, L.contracts())):
            tag = " [path %d]" % a
            s = p.state
            if p.kind == "raise":
                if not lit:
                    env.prove("refused only for an existing name" + tag, L.CD(K), p.hyps)
                env.check("nothing is changed when refused" + tag, s["components"].content == s["c0"] and not s["made"], "written")
                continue
            if lit:
                env.prove("a second component of a literature likelihood is refused" + tag, z3.BoolVal(False), p.hyps)
                continue
            env.prove("an existing name is refused" + tag, z3.Not(L.CD(K)), p.hyps)
            h, v = s["after"]
            env.prove("exactly the new name is added" + tag, h == z3.Or(L.CD(Q), Q == K), p.hyps)
            ok = isinstance(v, P.SObj)
            env.prove("with the new component, others stay" + tag, v.z == z3.If(Q == K, NEW, Q) if ok else z3.BoolVal(False), p.hyps + [z3.Or(L.CD(Q), Q == K)])
            env.check("one component is made" + tag, len(s["made"]) == 1, "%d" % len(s["made"]))
            if s["made"]:
                k = s["made"][0]
                nm = k.get("name")
                env.prove("with its name" + tag, nm.z == K if isinstance(nm, P.SStr) else z3.BoolVal(False), p.hyps)
    return run


def _code(env):
    """the functions of a likelihood are cached once"""
    cm = __import__("appletree.component", fromlist=["x"])

    def body(it):
        d = _dict(it, share().StaticValueDict)
        it.run.contracts[("global", "_cached_functions")] = d
        inst = it.run.cell(P.Inst(cm.ComponentSim, dict(llh_name=P.SStr(K), name=P.SStr(z3.Const("component", N)))))
        it.state = dict(d=d, c0=d.content)
        it.setattr(inst, "code", P.SStr(z3.Const("code", N)))
        h, v = _look(it, d)
        it.state.update(h=h, v=v, fresh=it.run.truth(it.zb(it.length(v) if False else True)))
    con = dict(X.contracts())
    for a, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % a
        s = p.state
        if p.kind == "raise":
            env.prove("refused only if the likelihood has functions already" + tag, D0(K), p.hyps)
            env.check("nothing is changed when refused" + tag, s["d"].content == s["c0"], "written")
            continue
        env.prove("functions of an existing likelihood are not replaced" + tag, z3.Not(D0(K)), p.hyps)
        env.prove("only this likelihood is added" + tag, s["h"] == z3.Or(D0(Q), Q == K), p.hyps)


# ---------------------------------------------------------------- options of steps
CN = z3.Function("option_name", OPQ, N)
TD, TV = z3.Function("options_before", N, B), z3.Function("option_before", N, OPQ)
CFGI = z3.Function("given_option", I, OPQ)
NC = z3.Int("n_given")


class Opt(_Plain):
    def isinstance(self, it, o, c):
        return c is repo_fn("appletree.config", "Config")

    def getattr(self, it, o, name):
        if name == "name":
            return P.SStr(CN(o.z))
        return P._MISSING

    def setattr(self, it, o, name, v):
        if name != "taken_by":
            it.run.log.append(("set", (o, name), {}, v))
        return None


class StepCls(_Plain):
    def getattr(self, it, o, name):
        if name == "takes_config":
            return it.state["takes"]
        if name == "__name__":
            return P.SStr(z3.Const("step_name", N))
        return P._MISSING

    def hasattr(self, it, o, name):
        return name in ("takes_config", "__name__")

    def setattr(self, it, o, name, v):
        if name != "takes_config":
            raise P.Unsupported("attribute %s of a step" % name)
        if it.run.idx:
            raise P.Unsupported("options set in a loop")
        it.state["takes"] = v


def _takes_config(n, before=True):
    from immutabledict import immutabledict
    opt = Opt()

    def run(env):
        con = dict(X.contracts())
        con[immutabledict] = lambda it, a, k: it.models[dict](it, *a, **k)
        fn = repo_fn("appletree.config", "takes_config")

        def body(it):
            r = it.run
            old = r.cell(P.MDict(base=P.SymBase(lambda k: TD(k), lambda k: P.SObj(opt, TV(k.z))))) if before else r.cell(P.MDict())
            it.state = dict(takes=old, old=old, c0=old.content)
            if n is None:
                r.fact(NC >= 0)
                args = [P.Star(P.SSeq(NC, lambda j: P.SObj(opt, CFGI(smt.num(j)))))]
            else:
                args = [P.SObj(opt, CFGI(z3.IntVal(j))) for j in range(n)]
            dec = it.call(fn, args)
            it.call(dec, [P.SObj(StepCls(), z3.Const("step", OPQ))])
            it.state["after"] = _look(it, it.state["takes"])
        i, j = z3.Ints("i j")
        m = NC if n is None else z3.IntVal(n)
        td = TD if before else (lambda q: z3.BoolVal(False))
        nm = lambda x: CN(CFGI(x))
        for a, p in enumerate(P.explore(env, body, con)):
            tag = " [%s given, %s, path %d]" % ("any number" if n is None else n, "any options before" if before else "none before", a)
            s = p.state
            rng = [i >= 0, i < m, j >= 0, j < m, i != j]
            if p.kind == "raise":
                if n is not None:
                    good = [z3.Not(td(nm(z3.IntVal(x)))) for x in range(n)] + ([z3.Distinct(*[nm(z3.IntVal(x)) for x in range(n)])] if n > 1 else [])
                else:
                    good = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.Not(td(nm(i)))), patterns=[CFGI(i)]),
                            z3.ForAll([i, j], z3.Implies(z3.And(*rng), nm(i) != nm(j)), patterns=[z3.MultiPattern(CFGI(i), CFGI(j))])]
                env.prove("refused only if an option is specified twice" + tag, z3.BoolVal(False), p.hyps + good)
                env.check("refused with an error" + tag, isinstance(p.value, P.Exc) and issubclass(p.value.cls, RuntimeError), repr(p.value))
                env.check("the options stay as they were" + tag, s["takes"] is s["old"] and s["old"].content == s["c0"], "written")
                continue
            env.prove("no option was specified before" + tag, z3.Not(td(nm(i))), p.hyps + rng[:2])
            env.prove("no option is given twice" + tag, nm(i) != nm(j), p.hyps + rng)
            h, v = s["after"]
            ok = isinstance(v, P.SObj)
            if n is None:       # proved just above
                p.run.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(*rng), nm(i) != nm(j)), patterns=[z3.MultiPattern(nm(i), nm(j))]))
            more = list(p.run.facts) if n is None else []
            env.prove("given options are taken" + tag, h, p.hyps + rng[:2] + [Q == nm(i)])
            env.prove("under their names" + tag, v.z == CFGI(i) if ok else z3.BoolVal(not (n or n is None)), p.hyps + more + rng[:2] + [Q == nm(i)])
            if before:
                env.prove("earlier options stay" + tag, z3.And(h, v.z == TV(Q)) if ok else z3.BoolVal(False), p.hyps + [TD(Q)])
            x = env.int("x")
            env.prove("nothing else is taken" + tag, z3.Not(h), p.hyps + [z3.Not(td(Q)), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), nm(x) != Q), patterns=[CFGI(x)])]
                      if n is None else p.hyps + [z3.Not(td(Q))] + [nm(z3.IntVal(x)) != Q for x in range(n)])
            env.check("the options of the parent are not modified" + tag, s["old"].content == s["c0"], "written")
    return run


# ---------------------------------------------------------------- extensions
DIRTEST = "tested"


class Module(_Plain):
    """a module: which names exist is unknown at every test; a name may only be written if it was found absent"""

    def __init__(self, label):
        self.label = label

    def getattr(self, it, o, name):
        if name == "__name__":
            return P.SStr(z3.Const(self.label + "_name", N))
        if self.label == "module2":
            return P.SObj(Member(), z3.Function("member", N, N)(it.run.name(name)))
        return P._MISSING

    def setattr(self, it, o, name, v):
        run = it.run
        nm = run.name(name)
        s = it.state
        t = s["tests"][-1] if s["tests"] else None
        if s["force"] is True:
            ok = True
        elif t is None or self.label != "module1":
            ok = False
        else:
            ok = z3.And(t[0] == nm, z3.Not(t[1]))
        s["obl"].add(it, "an attribute is only set if no attribute of its name exists", ok)
        s["writes"].append((nm, v, list(run.pc)))
        s["tests"].append((nm, z3.BoolVal(True)))
        return None

    def dir(self, it, o):
        return P.SObj(Dir(), o.z)


class Dir(_Plain):
    """names of the attributes of a module"""

    def contains(self, it, o, k):
        run = it.run
        e = run.fresh("exists", B)
        z = run.name(k)
        if it.state["pre"] is not None:
            run.fact(e == it.state["pre"](z))
        it.state["tests"].append((z, e))
        return e

    def iterate(self, it, o):
        n = z3.Int("n_members")
        it.run.fact(n >= 0)
        return "s", P.SSeq(n, lambda j: P.SStr(z3.Function("member_name", I, N)(smt.num(j))))


class Member(_Plain):
    """an attribute of module2: possibly a class"""

    def isinstance(self, it, o, c):
        return z3.Function("is_class", N, B)(o.z)

    def getattr(self, it, o, name):
        if name == "__name__":
            return P.SStr(CLSNAME(o.z))
        if isinstance(name, (P.SStr, P.Text)):
            return P.SBool(BASEFLAG(o.z))
        return P._MISSING

    def issubclass(self, it, a, b):
        return SUB(a.z)

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) else False


CLSNAME, BASEFLAG, SUB = z3.Function("class_name", N, N), z3.Function("is_base_marked", N, B), z3.Function("is_subclass", N, B)


def _ext_con():
    con = dict(X.contracts())
    con[dir] = lambda it, a, k: a[0].model.dir(it, a[0])
    return con


BASE = z3.Const("base_class", N)


def _one_extension(force):
    fn = repo_fn("appletree.utils", "_add_extension")
    PRE = z3.Function("existed", N, B)
    C = z3.Const("the_class", N)

    def run(env):
        def body(it):
            it.state = dict(tests=[], obl=Obl(), writes=[], force=force, pre=PRE)
            m = P.SObj(Module("module1"), z3.Const("module1", OPQ))
            a = [m, P.SObj(Member(), C), P.SObj(Member(), BASE)]
            it.call(fn, a, dict(force=True) if force else {})
        want = z3.And(z3.Not(BASEFLAG(C)), SUB(C), C != BASE)
        for a, p in enumerate(P.explore(env, body, _ext_con())):
            tag = " [%s, path %d]" % ("forced" if force else "not forced", a)
            s = p.state
            s["obl"].prove(env, p, tag)
            if p.kind == "raise":
                env.prove("refused only if the name exists" + tag, z3.And(want, PRE(CLSNAME(C))) if not force else z3.BoolVal(False), p.hyps)
                env.check("nothing is set when refused" + tag, not s["writes"], "%d" % len(s["writes"]))
            elif s["writes"]:
                nm, v, _ = s["writes"][-1]
                env.check("one attribute is set" + tag, len(s["writes"]) == 1, "%d" % len(s["writes"]))
                env.prove("the class itself is set under its name" + tag, z3.And(nm == CLSNAME(C), v.z == C) if isinstance(v, P.SObj) else z3.BoolVal(False), p.hyps)
                env.prove("only for a subclass that is not a base" + tag, want, p.hyps)
            else:
                env.prove("a subclass that is not a base is added or refused" + tag, z3.Not(want), p.hyps)
    return run


def _extensions(force):
    fn = repo_fn("appletree.utils", "add_extensions")

    def run(env):
        def body(it):
            it.state = dict(tests=[], obl=Obl(), writes=[], force=force, pre=None)
            m1 = P.SObj(Module("module1"), z3.Const("module1", OPQ))
            m2 = P.SObj(Module("module2"), z3.Const("module2", OPQ))
            it.call(fn, [m1, m2, P.SObj(Member(), BASE)], dict(force=True) if force else {})
        n = 0
        for a, p in enumerate(P.explore(env, body, _ext_con())):
            tag = " [%s, path %d]" % ("forced" if force else "not forced", a)
            p.state["obl"].prove(env, p, tag)
            n += len(p.state["writes"])
            if force and p.kind == "raise":
                env.prove("a forced extension is not refused" + tag, z3.BoolVal(False), p.hyps)
        env.check("extensions are added", n > 0, "never")
    return run


# ---------------------------------------------------------------- simulation steps
PSD, PSC = z3.Function("provided", N, B), z3.Function("provider", N, OPQ)
OD = z3.Function("step_option", OPQ, N, B)
DEF = z3.Function("default_of", OPQ, N, OPQ)


class Step(_Plain):
    def __init__(self, provides=None):
        self.provides = provides

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        if name == "takes_config":
            key = o.z.get_id()
            c = it.state["opts"].get(key)
            if c is None:
                if it.state.get("nopt") is not None:
                    c = it.run.cell(P.MDict([(P.SStr(z3.Function("option%d" % j, OPQ, N)(o.z)), P.SObj(OptD(o.z), z3.Function("option%d" % j, OPQ, N)(o.z)))
                                             for j in range(it.state["nopt"])]))
                else:
                    c = it.run.cell(P.MDict(base=P.SymBase(lambda k: OD(o.z, k), lambda k: P.SObj(OptD(o.z), k.z))))
                it.state["opts"][key] = c
            return c
        if name == "provides":
            if self.provides is not None and o.z.eq(NEWSTEP):
                return self.provides
            return P._MISSING
        if name == "__name__":
            return P.SStr(z3.Function("step_name", OPQ, N)(o.z))
        return P._MISSING

    def setattr(self, it, o, name, v):
        if name == "provides":
            self.provides = v
            return None
        return P._MISSING

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) else False


class OptD(_Plain):
    """one option of a step"""

    def __init__(self, step):
        self.step = step

    def getattr(self, it, o, name):
        if name == "default":
            return P.SOpq(DEF(self.step, o.z), "default")
        if name == "name":
            return P.SStr(o.z)
        return P._MISSING


NEWSTEP = z3.Const("new_step", OPQ)


def _register_step(nreg, nopt, nprov):
    cm = __import__("appletree.component", fromlist=["x"])

    def run(env):
        def body(it):
            r = it.run
            it.state = s = dict(opts={}, nopt=nopt)
            P1 = [z3.Const("provides%d" % j, N) for j in range(nprov)]
            if nprov > 1:
                r.fact(z3.Distinct(*P1))
            st = Step(tuple(P.SStr(x) for x in P1) if nprov != 1 else P.SStr(P1[0]))
            if nreg is None:
                reg = r.cell(P.MDict(base=P.SymBase(lambda k: PSD(k), lambda k: P.SObj(st, PSC(k.z)))))
            else:
                ks = [z3.Const("observable%d" % j, N) for j in range(nreg)]
                if nreg > 1:
                    r.fact(z3.Distinct(*ks))
                reg = r.cell(P.MDict([(P.SStr(x), P.SObj(st, PSC(x))) for x in ks]))
                s["ks"] = ks
            if nopt is not None and nopt > 1:
                z = z3.Const("st!z", OPQ)
                r.fact(z3.ForAll([z], z3.Distinct(*[z3.Function("option%d" % j, OPQ, N)(z) for j in range(nopt)])))
            s["reg"], s["p"] = reg, P1
            inst = r.cell(P.Inst(cm.ComponentSim, dict(_plugin_class_registry=reg, name="c", llh_name="l")))
            it.call(it.getattr(inst, "register"), [P.SObj(st, NEWSTEP)])
            s["after"] = _look(it, s["reg"])
        for a, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [%s registered, %s options each, %d provided, path %d]" % (nreg, nopt, nprov, a)
            s = p.state
            prov = lambda k: z3.Or(*[k == x for x in s["p"]])
            dom = PSD if nreg is None else (lambda k: z3.Or(*[k == x for x in s["ks"]]) if s["ks"] else z3.BoolVal(False))
            k, o = z3.Const("k", N), z3.Const("o", N)
            if nopt is None:
                has = OD
            else:
                has = lambda st, x: z3.Or(*[x == z3.Function("option%d" % j, OPQ, N)(st) for j in range(nopt)])
            clash = lambda kk, oo: z3.And(dom(kk), z3.Not(prov(kk)), has(PSC(kk), oo), has(NEWSTEP, oo), DEF(PSC(kk), oo) != DEF(NEWSTEP, oo))
            if p.kind == "raise":
                if nreg is None:
                    none = [z3.ForAll([k, o], z3.Not(clash(k, o)))]
                else:
                    none = [z3.Not(clash(kk, z3.Function("option%d" % j, OPQ, N)(NEWSTEP))) for kk in s["ks"] for j in range(nopt)]
                env.prove("refused only if defaults differ" + tag, z3.BoolVal(False), p.hyps + none)
                continue
            env.prove("different defaults of the same option are refused" + tag, z3.Not(clash(k, o)), p.hyps)
            h, v = s["after"]
            env.prove("the step is registered for what it provides, others stay" + tag, h == z3.Or(dom(Q), prov(Q)), p.hyps)
            env.prove("the provider of each observable" + tag, v.z == z3.If(prov(Q), NEWSTEP, PSC(Q)) if isinstance(v, P.SObj) else z3.BoolVal(False),
                      p.hyps + [z3.Or(dom(Q), prov(Q))])
    return run


NOPTS, OPTN, OPTI = z3.Function("number_of_options", OPQ, I), z3.Function("option_name", OPQ, I, N), z3.Function("option_index", OPQ, N, I)
NPRV, PRV, PRVI, ONEPRV = z3.Int("number_provided"), z3.Function("newly_provided", I, N), z3.Function("newly_provided_at", N, I), z3.Const("newly_provided_one", N)


class Options(_Plain):
    """takes_config of a step: any number of options"""

    def getattr(self, it, o, name):
        z = o.z
        key = lambda j: P.SStr(OPTN(z, smt.num(j)))     # noqa: E731
        opt = lambda j: P.SObj(OptD(z), OPTN(z, smt.num(j)))        # noqa: E731
        idx = lambda v: OPTI(z, it.run.name(v[0] if isinstance(v, tuple) else v))     # noqa: E731
        sq = lambda f: P.Contract(lambda it, a, k: P.SSeq(NOPTS(z), f, idx), name)       # noqa: E731
        if name == "get":
            return P.Contract(lambda it, a, k: self.getitem(it, o, a[0]) if it.run.truth(self.contains(it, o, a[0])) else (a[1] if len(a) > 1 else None), name)
        return {"items": sq(lambda j: (key(j), opt(j))), "keys": sq(key), "values": sq(opt)}.get(name, P._MISSING)

    def iterate(self, it, o):
        return "s", P.SSeq(NOPTS(o.z), lambda j: P.SStr(OPTN(o.z, smt.num(j))), lambda v: OPTI(o.z, it.run.name(v)))

    def contains(self, it, o, k):
        x = it.run.name(k)
        return z3.And(OPTI(o.z, x) >= 0, OPTI(o.z, x) < NOPTS(o.z), OPTN(o.z, OPTI(o.z, x)) == x)

    def getitem(self, it, o, k):
        return P.SObj(OptD(o.z), it.run.name(k))


class AnyStep(Step):
    def getattr(self, it, o, name):
        if name == "takes_config":
            return P.SObj(Options(), o.z)
        return Step.getattr(self, it, o, name)

    def subst(self, o, pairs):
        return P.SObj(self, z3.substitute(o.z, *pairs))


def _register_any(single):
    cm = __import__("appletree.component", fromlist=["x"])

    def run(env):
        def body(it):
            r = it.run
            it.state = s = dict(opts={}, nopt=None)
            z, j = z3.Const("f!z", OPQ), z3.Int("f!j")
            r.fact(NPRV >= 0)
            r.fact(z3.ForAll([z], NOPTS(z) >= 0, patterns=[NOPTS(z)]))
            r.fact(z3.ForAll([z, j], z3.Implies(z3.And(j >= 0, j < NOPTS(z)), OPTI(z, OPTN(z, j)) == j), patterns=[OPTN(z, j)]))
            r.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NPRV), PRVI(PRV(j)) == j), patterns=[PRV(j)]))
            r.inverse["newly_provided"] = PRVI
            st = AnyStep(P.SStr(ONEPRV) if single else P.SSeq(NPRV, lambda j: P.SStr(PRV(smt.num(j))), lambda v: PRVI(it.run.name(v))))
            reg = r.cell(P.MDict(base=P.SymBase(lambda k: PSD(k), lambda k: P.SObj(st, PSC(k.z)))))
            inst = r.cell(P.Inst(cm.ComponentSim, dict(_plugin_class_registry=reg, name="c", llh_name="l")))
            it.call(it.getattr(inst, "register"), [P.SObj(st, NEWSTEP)])
            s["after"] = _look(it, reg)
        for a, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [any registry, any options, %s, path %d]" % ("one observable provided" if single else "any number provided", a)
            s = p.state
            hy = p.hyps + list(p.run.facts)
            prov = (lambda k: k == ONEPRV) if single else lambda k: z3.And(PRVI(k) >= 0, PRVI(k) < NPRV, PRV(PRVI(k)) == k)
            k, o = z3.Const("k", N), z3.Const("o", N)
            has = lambda st, x: z3.And(OPTI(st, x) >= 0, OPTI(st, x) < NOPTS(st), OPTN(st, OPTI(st, x)) == x)       # noqa: E731
            clash = lambda kk, oo: z3.And(PSD(kk), z3.Not(prov(kk)), has(PSC(kk), oo), has(NEWSTEP, oo), DEF(PSC(kk), oo) != DEF(NEWSTEP, oo))      # noqa: E731
            if p.kind == "raise":
                env.check("refused as ValueError" + tag, p.value.cls is ValueError, repr(p.value))
                env.prove("refused only if defaults differ" + tag, z3.BoolVal(False), hy + [z3.ForAll([k, o], z3.Not(clash(k, o)))])
                continue
            env.prove("different defaults of the same option are refused" + tag, z3.Not(clash(k, o)), hy)
            h, v = s["after"]
            env.prove("the step is registered for what it provides, others stay" + tag, h == z3.Or(PSD(Q), prov(Q)), hy)
            env.prove("the provider of each observable" + tag, v.z == z3.If(prov(Q), NEWSTEP, PSC(Q)) if isinstance(v, P.SObj) else z3.BoolVal(False),
                      hy + [z3.Or(PSD(Q), prov(Q))])
    return run


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    u, s, c = "appletree/utils.py:", "appletree/share.py:", "appletree/component.py:"
    return [Unit("StaticValueDict.__setitem__", [s + "StaticValueDict.__setitem__"], _static),
            Unit("RecordingDict", [s + "RecordingDict.%s" % m for m in ("__init__", "__getitem__", "__setitem__", "clear")], _recording),
            Unit("clear_cache", [s + "clear_cache"], _clear_cache),
            Unit("check_unused_configs", [u + "check_unused_configs"], _unused),
            Unit("Context.register_likelihood", ["appletree/context.py:Context.register_likelihood"], _register_likelihood),
            Unit("Likelihood.register_component", ["appletree/likelihood.py:Likelihood.register_component"], _register_component(False)),
            Unit("LikelihoodLit.register_component", ["appletree/likelihood.py:LikelihoodLit.register_component"], _register_component(True)),
            Unit("ComponentSim.code", [c + "ComponentSim.code"], _code),
            Unit("takes_config", ["appletree/config.py:takes_config"], _many(_takes_config(None, True), _takes_config(None, False)),
                 fallbacks=[_many(*[_takes_config(n, b) for n in (0, 1, 2, 3) for b in (True, False)])], fallback_bounds=["at most 3 options in one call"]),
            Unit("_add_extension", [u + "_add_extension"], _many(_one_extension(False), _one_extension(True))),
            Unit("add_extensions", [u + "add_extensions", u + "_add_extension"], _many(_extensions(False), _extensions(True))),
            Unit("ComponentSim.register, one observable", [c + "ComponentSim.register"], _register_any(True),
                 fallbacks=[_many(*[_register_step(r, o, 1) for r, o in ((0, 1), (1, 1), (1, 2), (2, 1))])], fallback_bounds=["at most 2 registered observables and 2 options per step, not both"]),
            Unit("ComponentSim.register, several observables", [c + "ComponentSim.register"], _register_any(False),
                 fallbacks=[_register_step(1, 1, 2)], fallback_bounds=["one registered observable, one option per step, 2 provided observables"])]


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    kinds = ["store", "cache", "takes", "ext", "ext", "steps", "steps", "likelihood", "component", "code"]
    while True:
        for k in kinds:
            yield dict(kind=k, seed=rng.randrange(1 << 30))


def _raises(f, types=(RuntimeError, ValueError)):
    try:
        f()
    except types:
        return True
    return False


def run_case(c):
    rng = random.Random(c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with X.Quiet() if hasattr(X, "Quiet") else contextlib.nullcontext():
            return globals()["_c_" + c["kind"]](rng)


def _c_store(rng):
    sh = share()
    for cls in (sh.StaticValueDict, sh.RecordingDict):
        d, want, used = cls(), {}, set()
        for _ in range(rng.randrange(1, 14)):
            k, v = rng.choice("abcd"), rng.random()
            op = rng.random()
            if op < 0.6:
                if cls is sh.StaticValueDict and k in want:
                    if not _raises(lambda: d.__setitem__(k, v)):
                        return "%s: %r was overwritten" % (cls.__name__, k)
                else:
                    d[k] = v
                    want[k] = v
                    used.add(k)
            elif op < 0.9:
                if k in want:
                    if d[k] != want[k]:
                        return "%s: another value of %r" % (cls.__name__, k)
                    used.add(k)
            else:
                d.clear()
                want, used = {}, set()
            if dict(d) != want:
                return "%s holds %r, expected %r" % (cls.__name__, dict(d), want)
            if cls is sh.RecordingDict and set(d.accessed_keys) != used:
                return "record of used options %r, expected %r" % (set(d.accessed_keys), used)
    return None


def _c_cache(rng):
    import appletree as apt
    sh = share()
    apt.clear_cache()
    keys = rng.sample("abcdef", rng.randrange(1, 6))
    dict.update(sh._cached_configs, {k: 1 for k in keys})
    used = [k for k in keys if rng.random() < 0.7]
    for k in used:
        sh._cached_configs[k]
    sh._cached_functions["llh%d" % rng.randrange(9)] = {}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        apt.utils.check_unused_configs()
    warned = any("unused" in str(x.message) for x in w)
    apt.clear_cache()
    if warned != (len(used) < len(keys)):
        return "unused options %r: warning %r" % (sorted(set(keys) - set(used)), warned)
    if sh._cached_configs or sh._cached_functions or sh._cached_configs.accessed_keys:
        return "the cache is not empty after clearing"
    return None


def _c_takes(rng):
    from appletree.config import Constant, takes_config
    names = "abcd"
    base = type("Base", (), {})
    have = {}
    for step in range(rng.randrange(1, 4)):
        opts = [Constant(name=rng.choice(names), default=rng.randrange(3)) for _ in range(rng.randrange(1, 4))]
        ns = [o.name for o in opts]
        cls = type("Step%d" % step, (base,), {})
        before = dict(base.takes_config) if hasattr(base, "takes_config") else {}
        bad = len(set(ns)) < len(ns) or any(n in have for n in ns)
        if bad:
            if not _raises(lambda: takes_config(*opts)(cls)):
                return "options %r specified on top of %r" % (ns, sorted(have))
            if (dict(cls.takes_config) if hasattr(cls, "takes_config") else {}) != before:
                return "the options changed although they were refused"
            continue
        cls = takes_config(*opts)(cls)
        have.update({o.name: o for o in opts})
        if dict(cls.takes_config) != have or any(cls.takes_config[n] is not have[n] for n in have):
            return "options of the class are %r, expected %r" % (sorted(cls.takes_config), sorted(have))
        base = cls
    return None


def _c_ext(rng):
    ut = __import__("appletree.utils", fromlist=["x"])
    Base = type("Base", (), {})
    names = "ABCD"
    m1 = types.ModuleType("pkg.m1" if rng.random() < 0.5 else "m1")
    m2 = types.ModuleType(rng.choice(["other.mod", "mod", "m1", "other.A"]))
    for n in names:
        if rng.random() < 0.3:
            setattr(m1, n, object())
        if rng.random() < 0.6:
            setattr(m2, n, type(n, (Base if rng.random() < 0.7 else object,), {}))
    short = m2.__name__.split(".")[-1]
    if rng.random() < 0.3:
        setattr(m1, short, object())
    setattr(m2, "Base", Base)
    force = rng.random() < 0.3
    before = dict(vars(m1))
    new = {n: v for n, v in vars(m2).items() if isinstance(v, type) and issubclass(v, Base) and v is not Base}
    clash = [n for n in list(new) + [short] if n in before] + [short] * (short in new)
    kw = dict(force=True) if force else {}
    err = _raises(lambda: ut.add_extensions(m1, m2, Base, **kw))
    for n, v in before.items():
        if not force and getattr(m1, n, None) is not v:
            return "%r of the module was overwritten" % n
    if err != (bool(clash) and not force):
        return "names %r exist, force %r: refused %r" % (clash, force, err)
    if not err:
        for n, v in new.items():
            if getattr(m1, n, None) is not v and not (n == short):
                return "%r was not added" % n
        for n in vars(m1):
            if n not in before and n not in new and n != short:
                return "%r was added" % n
    return None


_N = [0]


def _c_steps(rng):
    import appletree as apt
    from appletree.config import Constant, takes_config
    from appletree.plugin import Plugin
    from appletree.component import ComponentSim

    comp = ComponentSim(name="c", llh_name="vc_steps")
    reg, opts = {}, {}
    obs, on = ["x", "y", "z"], ["o1", "o2", "o3"]
    for _ in range(rng.randrange(2, 6)):
        _N[0] += 1
        prov = rng.sample(obs, rng.randrange(1, 3))
        mine = {o: rng.randrange(2) for o in rng.sample(on, rng.randrange(0, 3))}
        cls = type("Step%d" % _N[0], (Plugin,), dict(depends_on=["batch_size"], provides=prov[0] if len(prov) == 1 and rng.random() < 0.5 else prov,
                                                     takes_config=types.MappingProxyType({})))
        if mine:
            from immutabledict import immutabledict
            cls.takes_config = immutabledict({o: Constant(name=o, default=d) for o, d in mine.items()})
        new = dict(reg)
        for p_ in prov:
            new[p_] = (cls, mine)
        clash = any(o in m and m[o] != d for _, m in new.values() for o, d in mine.items())
        err = _raises(lambda: comp.register(cls))
        if err != clash:
            return "defaults %r next to %r: refused %r" % (mine, [m for _, m in new.values()], err)
        if err:
            return None
        reg = new
        if {k: v for k, v in comp._plugin_class_registry.items()} != {k: v[0] for k, v in reg.items()}:
            return "registered steps are %r" % comp._plugin_class_registry
    return None


def _c_likelihood(rng):
    import appletree as apt
    with X.Quiet():
        ctx = X.cls()(dict(likelihoods={}, configs={}, par_config={}), par_config={})
    made = []

    class Fake:
        def __init__(self, name=None, **config):
            self.name, self.config = name, config
            made.append(self)
    old = apt.Likelihood
    apt.Likelihood = Fake
    try:
        want = {}
        for _ in range(rng.randrange(2, 7)):
            n = rng.choice("abc")
            conf = dict(type="Likelihood", value=rng.random())
            if n in want:
                if not _raises(lambda: ctx.register_likelihood(n, conf)):
                    return "likelihood %r was overwritten" % n
            else:
                ctx.register_likelihood(n, conf)
                want[n] = made[-1]
                if want[n].name != n or want[n].config.get("value") != conf["value"]:
                    return "likelihood %r made from other arguments" % n
            if dict(ctx.likelihoods) != want:
                return "likelihoods %r, expected %r" % (sorted(ctx.likelihoods), sorted(want))
    finally:
        apt.Likelihood = old
    return None


def _c_component(rng):
    import appletree as apt
    from checks import c25
    apt.clear_cache()
    conf = c25.llh_config({}, {})
    llh = apt.Likelihood(name="vc_llh", **conf)
    Fake = c25.stub_class(["par"])
    want = {}
    for _ in range(rng.randrange(2, 7)):
        n = rng.choice("abc")
        if n in want:
            if not _raises(lambda: llh.register_component(Fake, n)):
                return "component %r was overwritten" % n
        else:
            llh.register_component(Fake, n)
            want[n] = llh.components[n]
        if dict(llh.components) != want:
            return "components %r, expected %r" % (sorted(llh.components), sorted(want))
    return None


def _c_code(rng):
    import appletree as apt
    from appletree.component import ComponentSim
    sh = share()
    apt.clear_cache()
    try:
        made = {}
        for _ in range(rng.randrange(2, 6)):
            n = rng.choice(["l0", "l1", "l2"])
            comp = ComponentSim(name="c", llh_name=n)
            comp.func_name = "f"
            val = rng.randrange(100)
            code = "def f():\n    return %d\n" % val
            if n in made:
                if not _raises(lambda: setattr(comp, "code", code)):
                    return "functions of %r were overwritten" % n
            else:
                comp.code = code
                comp.compile()
                made[n] = val
                if comp.simulate() != val:
                    return "another function of %r" % n
            if set(sh._cached_functions) != set(made):
                return "cached functions %r, expected %r" % (sorted(sh._cached_functions), sorted(made))
            for k, v in made.items():
                if sh._cached_functions[k]["f"]() != v:
                    return "another function of %r" % k
    finally:
        apt.clear_cache()
    return None
