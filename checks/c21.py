"""C21: the parameter store returns what was last set and nothing else changes."""
import copy

import numpy as np
import z3

from vc import pysym as P
from vc.harness import Unit
from checks import param_common as C

ASSUMPTIONS = ["names are compared by equality only; a list of names may repeat names, the last value given counts",
               "numpy.array of a list keeps its numbers in order (contract)"]
KEY = z3.Function("key", z3.IntSort(), P.Name)
NEW = z3.Function("newval", z3.IntSort(), z3.RealSort())
KD = z3.Function("given", P.Name, z3.BoolSort())
KV = z3.Function("givenval", P.Name, z3.RealSort())


def arg(it, form, dup=True):
    """a symbolic argument of each accepted form; returns (value, vals argument, dom, last value at k)"""
    run = it.run
    if form == "str":
        nm = z3.Const("the_name", P.Name)
        return P.SStr(nm), P.SNum(z3.Real("the_value"))
    if form == "list":
        n = z3.Int("n_keys")
        run.fact(n >= 0)
        m = z3.Int("n_vals")
        run.fact(m >= 0)
        return (run.cell(P.MList.of_seq(P.SSeq(n, lambda j: P.SStr(KEY(j))))),
                run.cell(P.MList.of_seq(P.SSeq(m, lambda j: P.SNum(NEW(j))))))
    if form == "dict":
        return run.cell(P.MDict(base=P.SymBase(lambda k: KD(k), lambda k: P.SNum(KV(k.z))))), None
    if form == "set":
        return run.cell(P.MSet(base=P.SymBase(lambda k: KD(k)))), None
    if form == "tuple":
        return (P.SStr(z3.Const("the_name", P.Name)),), (P.SNum(z3.Real("the_value")),)
    if form == "int":
        return 3, 1.0
    raise ValueError(form)


def _unchanged(s, frame=True):
    return s["values"].content == s["values0"] and not s["cfg"].content[1] and not s["fit"].content[1]


def _set(form, vals_kind="num"):
    def run(env):
        k0 = z3.Const("k0", P.Name)

        def body(it):
            s = C.instance(it)
            it.state = s
            s["values0"] = s["values"].content
            keys, vals = arg(it, form)
            s["keys"], s["vals"] = keys, vals
            if form == "list":
                s["kn"], s["vn"] = z3.Int("n_keys"), z3.Int("n_vals")
            if form == "str" and vals_kind == "list":
                vals = it.run.cell(P.MList([1.0]))
            # state when an exception is raised
            s["read"] = None
            it.call(it.getattr(s["inst"], "set_parameter"), [keys] + ([] if vals is None else [vals]))
            s["has"] = it.zb(it.contains(P.SStr(k0), s["values"]))
            s["done"] = True
            if it.run.truth(C.CFG(k0)):
                s["v"] = it.getitem(s["values"], P.SStr(k0))
        paths = P.explore(env, body, C.contracts())
        some = False
        i, j = env.int("i"), env.int("j")
        q = z3.Const("q", P.Name)
        if form == "str":
            ok = C.CFG(z3.Const("the_name", P.Name)) if vals_kind == "num" else z3.BoolVal(False)
            given, last = (lambda k: k == z3.Const("the_name", P.Name)), None
        elif form == "list":
            n, m = z3.Int("n_keys"), z3.Int("n_vals")
            ok = z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), C.CFG(KEY(i)))))
        elif form == "dict":
            ok = z3.ForAll([q], z3.Implies(KD(q), C.CFG(q)))
        else:
            ok = z3.BoolVal(False)
        for a, p in enumerate(paths):
            tag = " [path %d]" % a
            s, hy = p.state, p.hyps
            if p.kind == "raise":
                env.prove("refused only if it must be" + tag, z3.Not(ok), hy)
                env.check("refusal leaves all values unchanged" + tag, _unchanged(s), "the store was written before the refusal")
                continue
            some = True
            env.prove("accepted only if every name is known and the lengths agree" + tag, ok, hy)
            env.prove("the set of parameters is unchanged" + tag, s["has"] == C.CFG(k0), hy)
            env.check("configuration and fitted names unchanged" + tag, not s["cfg"].content[1] and not s["fit"].content[1])
            if "v" not in s:
                continue
            x = real(s["v"])
            if form == "str":
                nm = z3.Const("the_name", P.Name)
                env.prove("the named parameter has the given value, all others their old one" + tag,
                          x == z3.If(k0 == nm, z3.Real("the_value"), C.VAL(k0)), hy)
            elif form == "dict":
                env.prove("named parameters have the given values, all others their old one" + tag,
                          x == z3.If(KD(k0), KV(k0), C.VAL(k0)), hy)
            else:
                t = z3.Int("last")
                n = z3.Int("n_keys")
                islast = [t >= 0, t < n, KEY(t) == k0, z3.ForAll([j], z3.Implies(z3.And(j > t, j < n), KEY(j) != k0))]
                notin = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), KEY(j) != k0))
                env.prove("a named parameter has the (last) value given for it" + tag, x == NEW(t), hy + islast)
                env.prove("parameters that are not named keep their value" + tag, x == C.VAL(k0), hy + [notin])
        if form in ("str", "list", "dict") and vals_kind == "num" and not some:
            env.fail("some call is accepted", "always refused")
    return run


def real(v):
    v = P.anum(v)
    return P.zreal(v.z)


def _get(form, how):
    def run(env):
        def body(it):
            s = C.instance(it)
            it.state = s
            s["values0"] = s["values"].content
            keys, _ = arg(it, form)
            s["keys"] = keys
            if how == "get_parameter":
                r = it.call(it.getattr(s["inst"], "get_parameter"), [keys])
            else:
                r = it.getitem(s["inst"], keys)
            s["seq"] = None
            if form == "set":
                s["seq"] = it.keyseq(keys)
            return r
        paths = P.explore(env, body, C.contracts())
        i, q = env.int("i"), z3.Const("q", P.Name)
        nm = z3.Const("the_name", P.Name)
        if form == "str":
            ok = C.CFG(nm)
        elif form == "list":
            n = z3.Int("n_keys")
            ok = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), C.CFG(KEY(i))))
        elif form == "set":
            ok = z3.ForAll([q], z3.Implies(KD(q), C.CFG(q)))
        else:
            ok = z3.BoolVal(False)
        some = False
        for a, p in enumerate(paths):
            tag = " [path %d]" % a
            s, hy = p.state, p.hyps
            env.check("reading changes nothing" + tag, _unchanged(s), "the store was written")
            if p.kind == "raise":
                env.prove("refused only if it must be" + tag, z3.Not(ok), hy)
                continue
            some = True
            env.prove("accepted only if every name is known" + tag, ok, hy)
            if form == "str":
                env.prove("the current value" + tag, real(p.value) == C.VAL(nm), hy)
                continue
            r = p.value
            if not isinstance(r, (P.SArr, P.MList)):
                env.fail("a vector is returned" + tag, repr(r))
                continue
            if isinstance(r, P.MList):
                raise P.Unsupported("a list is returned")
            j = env.int("j")
            if form == "list":
                env.prove("one value per name" + tag, smtnum(r.n) == z3.Int("n_keys"), hy)
                env.prove("the current values in the order asked for" + tag, real(r.elem(j)) == C.VAL(KEY(j)), hy + [j >= 0, j < z3.Int("n_keys")])
            else:
                env.prove("one value per name" + tag, smtnum(r.n) == smtnum(s["seq"].n), hy)
                env.prove("the current values in the iteration order of the set" + tag,
                          real(r.elem(j)) == C.VAL(s["seq"].elem(j).z), hy + [j >= 0, j < smtnum(s["seq"].n)])
        if form in ("str", "list", "set") and not some:
            env.fail("some call is accepted", "always refused")
    return run


def smtnum(x):
    from vc import smt
    return smt.num(x)


def _fit_array(env):
    def body(it):
        s = C.instance(it)
        it.state = s
        s["values0"] = s["values"].content
        s["fixed"] = it.run.lit("fixed")
        r = it.getattr(s["inst"], "parameter_fit_array")
        k, names = it.iterate(it.getattr(s["inst"], "parameter_fit"))
        s["names"] = names
        return r
    k0 = z3.Const("k0", P.Name)
    for a, p in enumerate(P.explore(env, body, C.contracts())):
        tag = " [path %d]" % a
        s, hy = p.state, p.hyps
        if p.kind == "raise":
            env.prove("not refused" + tag, z3.BoolVal(False), hy)
            continue
        r, nm = p.value, s["names"]
        i, j = env.int("i"), env.int("j")
        env.check("reading changes nothing" + tag, _unchanged(s), "the store was written")
        env.prove("one value per fitted parameter" + tag, smtnum(r.n) == smtnum(nm.n), hy)
        # sorted duplicate-free enumerations of the same set agree position by position: state it on the vector itself
        rng = [j >= 0, j < smtnum(nm.n)]
        env.prove("values in the order of the sorted fitted names" + tag, real(r.elem(j)) == C.VAL(nm.elem(j).z), hy + rng)
        env.prove("the names are fitted parameters" + tag, z3.And(C.CFG(nm.elem(j).z), C.PTYPE(nm.elem(j).z) != s["fixed"]), hy + rng)
        env.prove("the names are sorted" + tag, P._lt(nm.elem(i).z, nm.elem(j).z), hy + rng + [i >= 0, i < j])


def _check_exist(form):
    def run(env):
        def body(it):
            s = C.instance(it)
            it.state = s
            s["values0"] = s["values"].content
            keys, _ = arg(it, form)
            return it.call(it.getattr(s["inst"], "check_parameter_exist"), [keys])
        i, q = env.int("i"), z3.Const("q", P.Name)
        ok = (C.CFG(z3.Const("the_name", P.Name)) if form == "str" else
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.Int("n_keys")), C.CFG(KEY(i)))) if form == "list" else
              z3.ForAll([q], z3.Implies(KD(q), C.CFG(q))))
        for a, p in enumerate(P.explore(env, body, C.contracts())):
            tag = " [path %d]" % a
            if p.kind == "raise":
                env.prove("not refused" + tag, z3.BoolVal(False), p.hyps)
                continue
            v = p.value
            v = v.z if isinstance(v, P.SBool) else z3.BoolVal(bool(v)) if isinstance(v, bool) else None
            env.check("a truth value is returned" + tag, v is not None, repr(p.value))
            if v is not None:
                env.prove("true exactly if every name is known" + tag, v == ok, p.hyps)
    return run


def units():
    p = "appletree/parameter.py:Parameter."
    us = [Unit("set_parameter(%s)" % f, [p + "set_parameter", p + "check_parameter_exist"], _set(f)) for f in ("str", "list", "dict", "tuple", "int")]
    us.append(Unit("set_parameter(str, no number)", [p + "set_parameter"], _set("str", "list")))
    for f in ("str", "list", "set", "tuple", "int"):
        us.append(Unit("get_parameter(%s)" % f, [p + "get_parameter", p + "__getitem__", p + "check_parameter_exist"], _get(f, "get_parameter")))
    for f in ("str", "list", "set"):
        us.append(Unit("check_parameter_exist(%s)" % f, [p + "check_parameter_exist"], _check_exist(f)))
    us.append(Unit("parameter_fit_array", [p + "parameter_fit_array", p + "parameter_fit", p + "get_parameter"], _fit_array))
    return us


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        cfg = C.random_config(rng)
        ops = []
        names = sorted(cfg)
        for _ in range(rng.randint(1, 8)):
            pool = names + (["nope"] if rng.random() < 0.15 else [])
            ks = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            vs = [round(rng.uniform(-9, 9), 3) for _ in ks]
            k = rng.random()
            if k < 0.25:
                ops.append(["set", rng.choice(pool), rng.choice([1.5, -2, 0, 3.25])])
            elif k < 0.45:
                if rng.random() < 0.2:
                    vs = vs[:-1] if rng.random() < 0.5 else vs + [9.0]
                ops.append(["setlist", ks, vs])
            elif k < 0.6:
                ops.append(["setdict", ks, vs])
            elif k < 0.7:
                ops.append(["get", rng.choice(pool)])
            elif k < 0.8:
                ops.append(["getlist", ks])
            elif k < 0.9:
                ops.append(["getset", ks])
            elif k < 0.95:
                ops.append(["bad", rng.choice(["tuple", "int", "none"])])
            else:
                ops.append(["fit"])
        yield dict(config=cfg, ops=ops)


def run_case(case):
    p = C.cls()(copy.deepcopy(case["config"]))
    model = {k: float(v) for k, v in p.get_all_parameter().items()}
    fit = sorted(k for k, s in case["config"].items() if s["prior_type"] != "fixed")

    def refused(f):
        try:
            f()
        except Exception:
            return True
        return False
    for op in case["ops"]:
        if op[0] in ("set", "setlist", "setdict"):
            if op[0] == "set":
                ks, ok, f = [op[1]], True, (lambda: p.set_parameter(op[1], op[2]))
                new = {op[1]: op[2]}
            elif op[0] == "setlist":
                ks, ok, f = op[1], len(op[1]) == len(op[2]), (lambda: p.set_parameter(list(op[1]), list(op[2])))
                new = dict(zip(op[1], op[2]))
            else:
                new = dict(zip(op[1], op[2]))
                ks, ok, f = list(new), True, (lambda: p.set_parameter(dict(new)))
            ok = ok and all(k in model for k in ks)
            if refused(f) == ok:
                return "%s: %s" % (op, "refused" if ok else "not refused")
            if ok:
                model.update(new)
        elif op[0] == "get":
            if op[1] in model:
                if float(p.get_parameter(op[1])) != model[op[1]]:
                    return "%s gives %r instead of %r" % (op, p.get_parameter(op[1]), model[op[1]])
            elif not refused(lambda: p.get_parameter(op[1])):
                return "%s not refused" % op
        elif op[0] in ("getlist", "getset"):
            ks = list(op[1]) if op[0] == "getlist" else set(op[1])
            if all(k in model for k in ks):
                r = np.asarray(p.get_parameter(ks), dtype=float).tolist()
                if r != [model[k] for k in ks]:
                    return "%s gives %r instead of %r" % (op, r, [model[k] for k in ks])
            elif not refused(lambda: p.get_parameter(ks)):
                return "%s not refused" % op
        elif op[0] == "bad":
            k = {"tuple": ("x",), "int": 3, "none": None}[op[1]]
            if not refused(lambda: p.get_parameter(k)) or not refused(lambda: p.set_parameter(k, 1.0)):
                return "key of type %s not refused" % op[1]
        else:
            r = np.asarray(p.parameter_fit_array, dtype=float).tolist()
            if r != [model[k] for k in fit] or list(p.parameter_fit) != fit:
                return "fitted vector %r instead of %r" % (r, [model[k] for k in fit])
        now = {k: float(v) for k, v in p.get_all_parameter().items()}
        if now != model:
            return "after %s the store is %r instead of %r" % (op, now, model)
    return None
