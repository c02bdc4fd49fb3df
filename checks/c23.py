"""C23: configured values override defaults and are resolved per likelihood."""
import json
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.util import repo_fn
from checks import context_common as X

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["get_file_path returns a path of the given file or raises (C29)", "dict: item assignment, update and get of the base class as documented"]
CD, CV = z3.Function("configured", N, B), z3.Function("configured_value", N, OPQ)
LD, LV = z3.Function("given_for_likelihood", N, B), z3.Function("value_for_likelihood", N, OPQ)
NAME, LLH, Q = z3.Const("option", N), z3.Const("likelihood", N), z3.Const("q", N)
DEF = z3.Const("default", OPQ)
TR = z3.Function("transformed", OPQ, OPQ)


def cfg():
    return __import__("appletree.config", fromlist=["x"])


def share():
    return __import__("appletree.share", fromlist=["x"])


class Val_:
    """a configured value that is neither a dictionary nor a list nor a string"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        return P._MISSING

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) else False

    def deepcopy(self, it, o):
        return o


VAL = Val_()


def val(z):
    return P.SObj(VAL, z)


def cache(it, kind):
    """the configuration cache; the value of the option is a dictionary or anything else"""
    run = it.run
    per = run.cell(P.MDict(base=P.SymBase(lambda k: LD(k), lambda k: val(LV(k.z)))))
    it.state["per"], it.state["per0"] = per, per.content

    def value(k):
        if kind == "dict" and z3.eq(run.name(k), NAME):
            return per
        return val(CV(k.z))
    c = run.cell(P.MDict(base=P.SymBase(lambda k: CD(k), value), cls=share().RecordingDict))
    it.setattr(c, "accessed_keys", run.cell(P.MSet()))
    it.state["cache"] = c
    run.contracts[("global", "_cached_configs")] = c
    return c


def look(it, c, q=Q):
    h, v = it.zb(it._has(c.content, P.SStr(q))), None
    if it.run.truth(h):
        v = it.lookup(c, P.SStr(q))
    return h, v


def _is(v, z):
    return v.z == z if isinstance(v, P.SObj) and v.model is VAL else z3.BoolVal(False)


def instance(it, cls, omitted, over=None):
    real = cls(name="vc_option")
    attrs = dict(vars(real))
    attrs.update(name=P.SStr(NAME), default=cfg().OMITTED if omitted else val(DEF), taken_by="step", **(over or {}))
    return it.run.cell(P.Inst(cls, attrs))


def _resolve(kind, omitted, transform):
    def run(env):
        def body(it):
            it.state = dict(transform=0)
            cache(it, kind)
            inst = instance(it, cfg().Config, omitted)
            tr = P.Contract(lambda it, a, k: val(TR(a[0].z)), "transform") if transform else None
            it.state["r"] = it.call(it.getattr(inst, "_resolve_cached_config"), [P.SStr(LLH)], dict(transform=tr) if transform else {})
            it.state["after"] = look(it, it.state["cache"])
        d = TR(DEF) if transform else DEF
        tag0 = " [%s configured, %s default, %s" % ("dictionary" if kind == "dict" else "value", "no" if omitted else "a", "transformed" if transform else "plain")
        for n, p in enumerate(P.explore(env, body, X.contracts())):
            tag = tag0 + ", path %d]" % n
            s = p.state
            if p.kind == "raise":
                bad = z3.And(z3.Not(CD(NAME)), z3.BoolVal(omitted))
                if kind == "dict":
                    bad = z3.Or(bad, z3.And(CD(NAME), z3.Not(LD(LLH))))
                env.prove("refused only without a value" + tag, bad, p.hyps)
                env.check("refused with an error" + tag, isinstance(p.value, P.Exc) and issubclass(p.value.cls, (ValueError, RuntimeError)) and not issubclass(p.value.cls, KeyError), repr(p.value))
                continue
            r = s["r"]
            if kind == "dict":
                env.prove("a likelihood missing in the dictionary is refused" + tag, z3.Implies(CD(NAME), LD(LLH)), p.hyps)
                env.prove("the configured value of the likelihood is used" + tag, _is(r, LV(LLH)), p.hyps + [CD(NAME)])
            else:
                env.prove("the configured value is used" + tag, _is(r, CV(NAME)), p.hyps + [CD(NAME)])
            env.prove("an option without value is refused" + tag, z3.Or(CD(NAME), z3.BoolVal(not omitted)), p.hyps)
            env.prove("otherwise its default" + tag, _is(r, d), p.hyps + [z3.Not(CD(NAME))])
            h, v = s["after"]
            env.prove("what was used is what later users see" + tag, h == z3.Or(CD(Q), Q == NAME), p.hyps)
            env.prove("the used default is kept" + tag, _is(v, d), p.hyps + [Q == NAME, z3.Not(CD(NAME))])
            env.prove("other options stay" + tag, _is(v, CV(Q)), p.hyps + [Q != NAME, CD(Q)])
            if kind != "dict":
                env.prove("the configured value stays" + tag, _is(v, CV(Q)), p.hyps + [Q == NAME, CD(NAME)])
            env.check("the dictionary of the user is not modified" + tag, s["per"].content == s["per0"], "written")
    return run


def _get_default(omitted):
    def run(env):
        def body(it):
            it.state = {}
            it.state["r"] = it.call(it.getattr(instance(it, cfg().Config, omitted), "get_default"), [])
        for n, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [%s, path %d]" % ("omitted" if omitted else "given", n)
            if p.kind == "raise":
                env.check("refused only without default" + tag, omitted, repr(p.value))
            else:
                env.check("no default is an error" + tag, not omitted, "accepted")
                env.prove("the default" + tag, _is(p.state["r"], DEF), p.hyps)
    return run


def _constant(kind, omitted):
    def run(env):
        def body(it):
            it.state = {}
            cache(it, kind)
            inst = instance(it, cfg().Constant, omitted)
            it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(LLH)))
            it.state["r"] = it.getattr(inst, "value")
        for n, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [%s configured, %s default, path %d]" % ("dictionary" if kind == "dict" else "value", "no" if omitted else "a", n)
            have = z3.If(CD(NAME), LD(LLH) if kind == "dict" else z3.BoolVal(True), z3.BoolVal(not omitted))
            if p.kind == "raise":
                env.prove("refused only without a value" + tag, z3.Not(have), p.hyps)
            else:
                env.prove("no value is refused" + tag, have, p.hyps)
                env.prove("the value of the constant" + tag, _is(p.state["r"], z3.If(CD(NAME), LV(LLH) if kind == "dict" else CV(NAME), DEF)), p.hyps)
    return run


LEN = z3.Int("number_of_parameters")
SETN, ROWLEN = z3.Function("set_name", OPQ, I, N), z3.Function("row_length", OPQ, I, I)
SETV = z3.Function("set_value", OPQ, I, I, R)
IX = z3.Function("position_of", OPQ, N, I)


def set_value(it, z, n):
    names = P.SSeq(n, lambda j: P.SStr(SETN(z, j)))
    rows = P.SSeq(n, lambda j: P.SArr(ROWLEN(z, j), lambda i: P.SNum(SETV(z, j, i))))
    return it.run.cell(P.MList([it.run.cell(P.MList.of_seq(names)), it.run.cell(P.MList.of_seq(rows))]))


def _constant_set(env):
    """the resolved value (Config._resolve_cached_config under its own contract) is kept name by name"""
    con = dict(X.contracts())
    z, vol = z3.Const("resolved", OPQ), z3.Int("volume")
    con[np.array] = lambda it, a, k: a[0]
    con[np.isclose] = lambda it, a, k: P.SArr(a[0].n, lambda j: it.compare1(P.ast.Eq(), a[0].elem(j), a[1])) if isinstance(a[0], P.SArr) else isclose(it, a)

    def isclose(it, a):
        s = it.as_seq(a[0]) if hasattr(it, "as_seq") else P.SSeq(*seq_of(it, a[0]))
        one = a[1]
        return P.SArr(s.n, lambda j: it.compare1(P.ast.Eq(), s.elem(j), one))

    def seq_of(it, v):
        parts = v.content
        if len(parts) == 1 and parts[0][0] == "s":
            return parts[0][1].n, parts[0][1].elem
        raise P.Unsupported("isclose of this list")

    def resolve(it, a, k):
        args = list(a)
        given = [x for x in args + list(k.values()) if isinstance(x, P.SStr)]
        it.state["asked"] = given
        return set_value(it, z, LEN)
    con[cfg().Config._resolve_cached_config] = resolve

    def body(it):
        it.state = {}
        run = it.run
        run.fact(LEN >= 1)
        j, i = z3.Ints("j i")
        for cond in (z3.ForAll([j], ROWLEN(z, j) == vol), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN), IX(z, SETN(z, j)) == j), patterns=[SETN(z, j)])):
            run.fact(cond)
        run.fact(vol >= 0)
        inst = instance(it, cfg().ConstantSet, False)
        it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(LLH)))
        v = it.getattr(inst, "value")
        it.state["dict"] = isinstance(v, P.MDict)
        if it.state["dict"]:
            h = it.zb(it._has(v.content, P.SStr(Q)))
            it.state["has"], it.state["row"] = h, it.lookup(v, P.SStr(Q)) if run.truth(h) else None
        it.state["volume"] = it.getattr(inst, "set_volume")
    j = z3.Int("pos")
    for n, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % n
        s = p.state
        env.check("a set of equally long lists is accepted" + tag, p.kind != "raise", repr(p.value))
        if p.kind == "raise":
            continue
        env.check("resolved for the likelihood" + tag, len(s["asked"]) == 1 and z3.eq(s["asked"][0].z, LLH), repr(s["asked"]))
        env.check("kept by name" + tag, s["dict"], "not a dictionary")
        if not s["dict"]:
            continue
        env.prove("every declared parameter" + tag, z3.Implies(z3.And(j >= 0, j < LEN, SETN(z, j) == Q), s["has"]), p.hyps)
        if s["row"] is not None:
            r, i = s["row"], z3.Int("i")
            env.prove("and no other" + tag, z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN), SETN(z, j) != Q))), p.hyps)
            env.prove("with its values" + tag, z3.And(r.n == vol, r.elem(i).z == SETV(z, IX(z, Q), i)), p.hyps)
        v = s["volume"]
        env.prove("the number of values" + tag, (v.z if isinstance(v, P.SNum) else smt.num(v)) == vol, p.hyps)


# ---------------------------------------------------------------- files with uncertainty
FD = z3.Function("default_file_of", I, N)       # entries of the default
FC = z3.Function("configured_file_of", I, N)    # entries of the configured value
SD, SV = z3.Function("given_sub", N, N, B), z3.Function("sub_value", N, N, N)    # (sub-option, likelihood)
SCALAR = z3.Function("sub_is_scalar", N, B)
SUBCD, SUBS = z3.Function("sub_configured", N, B), z3.Function("sub_scalar_value", N, N)
METHOD = z3.Const("method", N)


def files(it, f, shape):
    if shape == "str":
        return P.SStr(f(z3.IntVal(0)))
    return it.run.cell(P.MList([P.SStr(f(z3.IntVal(j))) for j in range(shape)]))


def entry(f, shape, j):
    return f(z3.IntVal(0 if shape == "str" else j))


class SubMap:
    """a map made for one of the three files"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "name":
            return o.info["kw"].get("name")
        if name == "build":
            def f(it, a, k):
                k = dict(k)
                if a:
                    k["llh_name"] = a[0]
                it.state["built"].append((o, k.get("llh_name")))
            return P.Contract(f, name)
        return P._MISSING


def sub_names(it):
    return [it.run.name(it.cat([P.SStr(NAME), "_" + s])) for s in ("median", "lower", "upper")]


def _sigma_build(conf, dflt, llh, sub, which):
    """conf: shape of the configured value or None; dflt: shape of the default or None; sub: what the cache holds for the maps"""
    c = cfg()

    def run(env):
        con = dict(X.contracts())

        def make(it, a, k):
            if a:
                raise P.Unsupported("Map(%r)" % (a,))
            m = P.SObj(SubMap(), it.run.fresh("map", OPQ), kw=dict(k))
            return m
        con[c.Map] = make

        def body(it):
            it.state = s = dict(built=[])
            run = it.run
            nm = sub_names(it)
            s["nm"] = nm
            run.fact(z3.Distinct(NAME, *nm))
            items = [] if conf is None else [(P.SStr(NAME), files(it, FC, conf))]
            s["subs"] = []
            for j, z in enumerate(nm):
                if sub == "scalar":
                    items.append((P.SStr(z), P.SStr(SUBS(z))))
                elif sub == "dict":
                    d = run.cell(P.MDict(base=P.SymBase(lambda k, z=z: SD(z, k), lambda k, z=z: P.SStr(SV(z, k.z)))))
                    items.append((P.SStr(z), d))
            cc = run.cell(P.MDict(items, cls=share().RecordingDict))
            it.setattr(cc, "accessed_keys", run.cell(P.MSet()))
            s["cache"] = cc
            run.contracts[("global", "_cached_configs")] = cc
            inst = instance(it, c.SigmaMap, dflt is None, dict(method=P.SStr(METHOD)))
            if dflt is not None:
                it.setattr(inst, "default", files(it, FD, dflt))
            s["inst"] = inst
            it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(LLH)) if llh else {})
            s["maps"] = [it.getattr(inst, x) for x in ("median", "lower", "upper")]
            s["eff"] = []
            for j, z in [(which, nm[which])]:
                h = it.has(cc, P.SStr(z))
                if h is not True:
                    h = run.truth(it.zb(h))
                v = it.lookup(cc, P.SStr(z)) if h else None
                if isinstance(v, P.MDict):
                    hq = it.zb(it.has(v, P.SStr(Q)))
                    e = (it.lookup(v, P.SStr(Q)) if run.truth(hq) else None)
                    s["eff"].append(("dict", hq, e))
                else:
                    s["eff"].append(("default" if v is None else "scalar", None, s["maps"][j].info["kw"].get("default") if v is None else v))
        tag0 = " [%s configured, %s default, %s likelihood, maps %s" % (conf, dflt, "a" if llh else "no", sub or "not configured")
        shape, f = (conf, FC) if conf is not None else (dflt, FD)
        for n, p in enumerate(P.explore(env, body, con)):
            tag = tag0 + ", path %d]" % n
            s = p.state
            if p.kind == "raise":
                ok = shape is None or shape == 5 or dflt == 5
                if sub == "dict" and llh:
                    env.prove("refused only for different values of the same map" + tag, z3.Or(z3.BoolVal(ok), *[z3.And(SD(z, LLH), SV(z, LLH) != entry(f, shape, j)) for j, z in enumerate(s["nm"])]), p.hyps)
                else:
                    env.check("refused only without a usable value" + tag, ok, repr(p.value))
                continue
            env.check("a value is needed" + tag, shape is not None and shape != 5, "accepted")
            if shape is None or shape == 5:
                continue
            env.check("three maps" + tag, all(isinstance(m, P.SObj) and isinstance(m.model, SubMap) for m in s["maps"]), repr(s["maps"]))
            env.check("each built once" + tag, [m for m, _ in s["built"]] == s["maps"], repr(s["built"]))
            for j, z in [(which, s["nm"][which])]:
                m = s["maps"][j]
                t = " %s%s" % (("median", "lower", "upper")[j], tag)
                kw = m.info["kw"]
                env.prove("its own option" + t, kw["name"].z == z if isinstance(kw.get("name"), P.SStr) else z3.BoolVal(False), p.hyps)
                env.prove("its method" + t, kw["method"].z == METHOD if isinstance(kw.get("method"), P.SStr) else z3.BoolVal(False), p.hyps)
                lz = [l for o, l in s["built"] if o is m]
                env.prove("built for the likelihood" + t, lz[0].z == LLH if llh and lz and isinstance(lz[0], P.SStr) else z3.BoolVal(not llh and lz == [None]), p.hyps)
                kind, hq, e = s["eff"][0]
                want = entry(f, shape, j)
                if sub == "scalar":
                    env.prove("the value configured for the map itself" + t, e.z == SUBS(z) if kind == "scalar" and isinstance(e, P.SStr) else z3.BoolVal(False), p.hyps)
                elif kind == "dict":
                    env.check("a dictionary is only used per likelihood" + t, llh or sub == "dict", kind)
                    if llh:
                        old = SD(z, Q) if sub == "dict" else z3.BoolVal(False)
                        env.prove("the map of this likelihood is the configured one" + t, z3.And(hq, e.z == want) if e is not None else z3.BoolVal(False), p.hyps + [Q == LLH])
                        env.prove("maps of other likelihoods stay" + t, hq == old, p.hyps + [Q != LLH])
                        if sub == "dict":
                            env.prove("and their files" + t, e.z == SV(z, Q) if e is not None else z3.BoolVal(False), p.hyps + [Q != LLH, hq])
                else:
                    env.check("without a likelihood the map has no entry of its own" + t, not llh, kind)
                    env.prove("the file of the map is the configured one" + t, e.z == want if isinstance(e, P.SStr) else z3.BoolVal(False), p.hyps)
    return run


def _get_configs(kind, omitted, arg):
    """arg: likelihood given as argument, by the attribute, or not at all"""
    c = cfg()

    def run(env):
        def body(it):
            it.state = {}
            cache(it, kind)
            inst = instance(it, c.SigmaMap, omitted, dict(method="IDW"))
            if arg == "attribute":
                it.setattr(inst, "llh_name", P.SStr(LLH))
            it.state["r"] = it.call(it.getattr(inst, "get_configs"), [], dict(llh_name=P.SStr(LLH)) if arg == "argument" else {})
            it.state["after"] = look(it, it.state["cache"])
        for n, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [%s configured, %s default, likelihood by %s, path %d]" % (kind, "no" if omitted else "a", arg, n)
            s = p.state
            have = z3.If(CD(NAME), (LD(LLH) if arg != "nothing" else z3.BoolVal(False)) if kind == "dict" else z3.BoolVal(True), z3.BoolVal(not omitted))
            if p.kind == "raise":
                env.prove("refused only without a value" + tag, z3.Not(have), p.hyps)
                continue
            env.prove("no value is refused" + tag, have, p.hyps)
            env.prove("the configured value, else the default" + tag, _is(s["r"], z3.If(CD(NAME), LV(LLH) if kind == "dict" else CV(NAME), DEF)), p.hyps)
            h, v = s["after"]
            env.prove("what was used is what later users see" + tag, h == z3.Or(CD(Q), Q == NAME), p.hyps)
            env.prove("the used default is kept" + tag, _is(v, DEF), p.hyps + [Q == NAME, z3.Not(CD(NAME))])
            env.prove("other options stay" + tag, _is(v, CV(Q)), p.hyps + [Q != NAME, CD(Q)])
    return run


# ---------------------------------------------------------------- set_global_config
GD, GV = z3.Function("given", N, B), z3.Function("given_value", N, OPQ)
KIND = z3.Function("kind_of_value", OPQ, I)      # 0 float, 1 int, 2 list, 3 str, 4 dict, else another
KINDS = {float: 0, int: 1, list: 2, str: 3, dict: 4}
NUMB = lambda z: z3.And(KIND(z) >= 0, KIND(z) <= 2)     # noqa: E731
STRB = lambda z: KIND(z) == 3       # noqa: E731
DICTB = lambda z: KIND(z) == 4      # noqa: E731
PATH = z3.Function("path_of", OPQ, OPQ)
PD, PV = z3.Function("entry_given", OPQ, N, B), z3.Function("entry_value", OPQ, N, OPQ)


class Given:
    """a value given by the user"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return KIND(o.z) == KINDS[c] if c in KINDS else False

    def getattr(self, it, o, name):
        if name == "items":
            def f(it, a, k):
                key = o.z.get_id()
                c = it.state["subs"].get(key)
                if c is None:
                    c = it.run.cell(P.MDict(base=P.SymBase(lambda k: PD(o.z, k), lambda k: P.SObj(GIVEN, PV(o.z, k.z)))))
                    it.state["subs"][key] = c
                return it.call(it.getattr(c, "items"), [])
            return P.Contract(f, name)
        return P._MISSING

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) else False


GIVEN = Given()


def _set_global(nkeys, nsub):
    """nkeys: number of given options (None: any), nsub: number of entries of dictionaries"""
    ut = __import__("appletree.utils", fromlist=["x"])

    def run(env):
        con = dict(X.contracts())
        con[ut.get_file_path] = lambda it, a, k: P.SObj(GIVEN, PATH(a[0].z))

        def body(it):
            run = it.run
            it.state = s = dict(subs={})
            ks = [z3.Const("key%d" % j, N) for j in range(nkeys or 0)]
            if len(ks) > 1:
                run.fact(z3.Distinct(*ks))
            s["ks"] = ks
            if nkeys is None:
                given = run.cell(P.MDict(base=P.SymBase(lambda k: GD(k), lambda k: P.SObj(GIVEN, GV(k.z)))))
            else:
                given = run.cell(P.MDict([(P.SStr(k), P.SObj(GivenN(nsub), GV(k))) for k in ks]))
            c = run.cell(P.MDict(base=P.SymBase(lambda k: CD(k), lambda k: P.SObj(GIVEN, CV(k.z))), cls=share().RecordingDict))
            it.setattr(c, "accessed_keys", run.cell(P.MSet()))
            s["cache"] = c
            run.contracts[("global", "_cached_configs")] = c
            it.call(share().set_global_config, [given])
            h, v = look(it, c)
            s["after"] = (h, v)
            if isinstance(v, P.MDict):
                h2 = it.zb(it._has(v.content, P.SStr(LLH)))
                s["sub"] = (h2, it.lookup(v, P.SStr(LLH)) if run.truth(h2) else None)
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s options, dictionaries of %s, path %d]" % ("any" if nkeys is None else nkeys, "any size" if nsub is None else nsub, n)
            s = p.state
            g = GD(Q) if nkeys is None else z3.Or(*[Q == k for k in s["ks"]])
            okv = lambda k: z3.Or(NUMB(GV(k)), STRB(GV(k)), DICTB(GV(k)))      # noqa: E731
            if p.kind == "raise":
                kk = z3.Const("kk", N)
                env.prove("refused only for another kind of value" + tag, z3.Not(z3.ForAll([kk], z3.Implies(GD(kk), okv(kk)), patterns=[GD(kk)])) if nkeys is None
                          else z3.Or(*[z3.Not(okv(k)) for k in s["ks"]]), p.hyps)
                continue
            h, v = s["after"]
            env.prove("exactly the given options are configured" + tag, h == z3.Or(CD(Q), g), p.hyps)
            env.prove("values of another kind are refused" + tag, z3.Or(NUMB(GV(Q)), STRB(GV(Q)), DICTB(GV(Q))), p.hyps + [g])
            isv = isinstance(v, P.SObj)
            env.prove("other options stay" + tag, v.z == CV(Q) if isv else z3.BoolVal(False), p.hyps + [z3.Not(g), CD(Q)])
            env.prove("numbers and lists are stored unchanged" + tag, v.z == GV(Q) if isv else z3.BoolVal(False), p.hyps + [g, NUMB(GV(Q))])
            env.prove("file names are stored as their path" + tag, v.z == PATH(GV(Q)) if isv else z3.BoolVal(False), p.hyps + [g, STRB(GV(Q))])
            if isinstance(v, P.MDict):
                h2, e = s["sub"]
                env.prove("only dictionaries are stored as dictionaries" + tag, z3.And(g, DICTB(GV(Q))), p.hyps + [z3.Or(g, z3.Not(CD(Q)))])
                pd = PD(GV(Q), LLH) if nsub is None else z3.Or(*[LLH == z3.Function("entry%d" % j, OPQ, N)(GV(Q)) for j in range(nsub)])
                ev = PV(GV(Q), LLH)
                env.prove("the entries of a dictionary" + tag, h2 == z3.And(pd, z3.Or(NUMB(ev), STRB(ev))), p.hyps)
                if e is not None:
                    env.prove("are stored unchanged or as path" + tag, e.z == z3.If(STRB(ev), PATH(ev), ev) if isinstance(e, P.SObj) else z3.BoolVal(False), p.hyps)
            else:
                env.prove("dictionaries are stored as dictionaries" + tag, z3.Not(z3.And(g, DICTB(GV(Q)))), p.hyps)
    return run


class GivenN(Given):
    def __init__(self, n):
        self.n = n

    def getattr(self, it, o, name):
        if name == "items":
            def f(it, a, k):
                ks = [z3.Function("entry%d" % j, OPQ, N)(o.z) for j in range(self.n)]
                if self.n > 1:
                    it.run.fact(z3.Distinct(*ks))
                return it.call(it.getattr(it.run.cell(P.MDict([(P.SStr(x), P.SObj(GIVEN, PV(o.z, x))) for x in ks])), "items"), [])
            return P.Contract(f, name)
        return super().getattr(it, o, name)


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    c = "appletree/config.py:"
    return [Unit("Config._resolve_cached_config", [c + "Config._resolve_cached_config", c + "Config.get_default"],
                 _many(*[_resolve(k, o, t) for k in ("value", "dict") for o in (False, True) for t in (False, True)])),
            Unit("Config.get_default", [c + "Config.get_default"], _many(_get_default(False), _get_default(True))),
            Unit("Constant.build", [c + "Constant.build", c + "Config._resolve_cached_config"], _many(*[_constant(k, o) for k in ("value", "dict") for o in (False, True)])),
            Unit("ConstantSet.build", [c + "ConstantSet.build", c + "ConstantSet._sanity_check"], _constant_set),
            Unit("SigmaMap.get_configs", [c + "SigmaMap.get_configs"], _many(*[_get_configs(k, o, a) for k in ("value", "dict") for o in (False, True) for a in ("argument", "attribute", "nothing")])),
            Unit("SigmaMap.build", [c + "SigmaMap.build", c + "SigmaMap._update_sigma_cache", c + "SigmaMap._resolve_sigma_value", c + "SigmaMap.get_configs"],
                 _many(*[_sigma_build(cf, d, l, None, w) for cf, d in ((None, 3), (3, 3), (4, 3), ("str", 3), (3, "str"), (3, None), (None, None), (5, 3), (3, 5)) for l in (True, False)
                         for w in (0, 1, 2)], *[_sigma_build(3, 3, l, s, w) for l in (True, False) for s in ("dict", "scalar") for w in (0, 1, 2)])),
            Unit("set_global_config", ["appletree/share.py:set_global_config"], _set_global(None, None), fallbacks=[_many(_set_global(1, 0), _set_global(1, 1), _set_global(1, 2), _set_global(2, 1))],
                 fallback_bounds=["at most 2 options in one call, dictionaries of at most 2 entries"])]


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        yield dict(kind="session", seed=rng.randrange(1 << 30))
        yield dict(kind="sigma", seed=rng.randrange(1 << 30))


def run_case(c):
    rng = random.Random(c["seed"])
    tmp = tempfile.mkdtemp(prefix="vc_c23_")
    cwd = os.getcwd()
    import appletree as apt
    apt.clear_cache()
    try:
        os.chdir(tmp)
        for j in range(6):
            json.dump(dict(coordinate_type="point", coordinate_name="z", coordinate_system=[0.0, 1.0, 2.0 + j], map=[1.0, 2.0, 3.0]), open("m%d.json" % j, "w"))
        with X.Quiet():
            return (_c_session if c["kind"] == "session" else _c_sigma)(rng)
    finally:
        os.chdir(cwd)
        apt.clear_cache()
        shutil.rmtree(tmp, True)


BUNDLED = []


def _file(rng):
    if not BUNDLED:
        d = os.path.join(os.path.dirname(os.path.abspath(share().__file__)), "maps")
        for f in sorted(os.listdir(d)):
            if f.endswith(".json") and json.load(open(os.path.join(d, f))).get("coordinate_type") in ("point", "log_point"):
                BUNDLED.append(f)
    return rng.choice(BUNDLED) if BUNDLED and rng.random() < 0.5 else "m%d.json" % rng.randrange(6)


def _same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return os.path.realpath(utils_().get_file_path(a)) == os.path.realpath(utils_().get_file_path(b))
    return type(a) is type(b) and a == b


def utils_():
    return __import__("appletree.utils", fromlist=["x"])


LLHS = ["er", "nr", "ac"]


def _scalar(rng, what):
    if what == "num":
        return rng.choice([0, 0.0, 1, -2.5, True, 3])
    if what == "set":
        n, k = rng.randrange(1, 3), rng.randrange(1, 4)
        return [["a", "b"][:n], [[rng.randrange(9) * 1.0 for _ in range(k)] for _ in range(n)]]
    return _file(rng)


def _value(rng, what):
    if rng.random() < 0.5:
        return _scalar(rng, what)
    return {l: _scalar(rng, what) for l in LLHS if rng.random() < 0.7}


def _c_session(rng):
    """any order of configuring and building"""
    cf, conf, hist = cfg(), {}, []
    names = {"o1": "num", "o2": "num", "o3": "set", "o4": "map"}
    for _ in range(rng.randrange(2, 9)):
        if rng.random() < 0.4:
            given = {n: _value(rng, names[n]) for n in rng.sample(sorted(names), rng.randrange(1, 3))}
            keep = {n: dict(v) if isinstance(v, dict) else v for n, v in given.items()}
            hist.append(given)
            share().set_global_config(given)
            if given != keep:
                return "set_global_config modified the given configuration"
            conf.update(keep)
            for n, v in keep.items():
                got = share()._cached_configs[n]
                want = v
                if isinstance(v, str):
                    want = utils_().get_file_path(v)
                elif isinstance(v, dict):
                    want = {k: utils_().get_file_path(x) if isinstance(x, str) else x for k, x in v.items()}
                if got != want or type(got) is not type(want):
                    return "%r configured as %r is stored as %r" % (n, v, got)
            continue
        n = rng.choice(sorted(names))
        what, llh = names[n], rng.choice(LLHS + [None])
        default = _scalar(rng, what) if rng.random() < 0.6 else cf.OMITTED
        o = dict(num=cf.Constant, set=cf.ConstantSet, map=cf.Map)[what](name=n, default=default)
        o.taken_by = "Step"
        hist.append((n, llh, default))
        if n not in conf and default is not cf.OMITTED:
            conf[n] = default
        want, bad = conf.get(n), n not in conf
        if isinstance(want, dict):
            bad = llh not in want
            want = want.get(llh)
        try:
            o.build(llh_name=llh)
        except (ValueError, RuntimeError) as e:
            if not bad:
                return "after %r building %s for %s with default %r failed: %s" % (hist, n, llh, default, e)
            continue
        if bad:
            return "after %r building %s for %s without a value was accepted" % (hist, n, llh)
        if what == "map":
            ok = _same(o.file_path, want)
        elif what == "set":
            ok = sorted(o.value) == sorted(want[0]) and all(list(o.value[k]) == v for k, v in zip(*want)) and o.set_volume == len(want[1][0])
        else:
            ok = _same(o.value, want)
        if not ok:
            return "after %r option %s of %s is %r instead of %r" % (hist, n, llh, o.file_path if what == "map" else o.value, want)
    return None


def _sv(rng):
    r = rng.random()
    if r < 0.3:
        return _file(rng)
    return [_file(rng) for _ in range(3)] + (["other_sigma"] if r < 0.65 else [])


def _c_sigma(rng):
    cf = cfg()
    conf = cf.OMITTED
    if rng.random() < 0.6:
        conf = _sv(rng) if rng.random() < 0.5 else {l: _sv(rng) for l in LLHS if rng.random() < 0.7}
        share().set_global_config({"mp": conf}) if not isinstance(conf, dict) or rng.random() < 0.5 else share()._cached_configs.update({"mp": conf})
    for _ in range(rng.randrange(1, 4)):
        default = _sv(rng) if rng.random() < 0.7 else cf.OMITTED
        llh = rng.choice(LLHS)
        o = cf.SigmaMap(name="mp", default=default)
        o.taken_by = "Step"
        if conf is cf.OMITTED:
            conf = default
        want, bad = conf, conf is cf.OMITTED
        if isinstance(conf, dict):
            bad = llh not in conf
            want = conf.get(llh)
        try:
            o.build(llh_name=llh)
        except (ValueError, RuntimeError) as e:
            if not bad:
                return "mp configured as %r with default %r fails for %s: %s" % (conf, default, llh, e)
            continue
        if bad:
            return "mp configured as %r without a value for %s was accepted" % (conf, llh)
        for j, part in enumerate(("median", "lower", "upper")):
            w = want[j] if isinstance(want, list) else want
            if not _same(getattr(o, part).file_path, w):
                return "the %s map of mp is %s instead of %s" % (part, getattr(o, part).file_path, w)
        req = None if isinstance(want, str) else want[3] if len(want) == 4 else "mp_sigma"
        if o.required_parameter() != req or o.required_parameter(llh) != req:
            return "mp configured as %r requires %r for %s" % (conf, o.required_parameter(llh), llh)
    return None
