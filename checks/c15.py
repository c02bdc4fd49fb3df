"""C15: the generated simulation function is the composition of its steps.

The text that flush_source_code builds is evaluated symbolically for a workflow of any length: the result is a template of
literal text, names and loops. The template is parsed as Python (holes as placeholder names, what a loop adds as one block)
and the obligations are about the parsed program, not about the text.
"""
import ast
import functools
import re

import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from checks import context_common as X
from checks import like_common as L

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["a name of a workflow step joined with '_' and the component name is no name of a step, of an observable or of the function, nor a name that the generated code imports",
               "observables are not called 'key' or 'parameters'", "jax.jit keeps the results of a function", "exec runs the text it is given in the namespace it is given",
               "Python's own semantics of import, assignment, call and return in the generated text"]
NW, WNAME = z3.Int("number_of_steps"), z3.Function("name_of_step", I, N)
NPROV, PROV = z3.Function("outputs_of_step", I, I), z3.Function("output_of_step", I, I, N)
NDEP, DEP = z3.Function("inputs_of_step", I, I), z3.Function("input_of_step", I, I, N)
ND, DN = z3.Int("number_of_observables"), z3.Function("observable", I, N)
CNAME, LLH, FUNC, NODEP = (z3.Const(x, N) for x in ("component", "likelihood", "function_name", "nodep_name"))
CACHED = z3.Function("likelihood_has_functions", N, B)


def comp():
    return L.comp_mod()


def plug():
    return __import__("appletree.plugin", fromlist=["x"])


def share():
    return __import__("appletree.share", fromlist=["x"])


# ----------------------------------------------------------------- templates
class Hole:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value      # "name": z3 name; "join": sequence of names


class Template:
    """text with placeholders -> Python program with blocks repeated by loops"""

    def __init__(self, run, parts):
        self.run, self.holes, self.loops = run, {}, {}
        out = []
        self.emit(parts, out)
        self.text = "".join(out)
        self.tree = ast.parse(self.text)

    def hole(self, kind, value):
        nm = "%s%d_" % ({"name": "vcH", "join": "vcJ"}[kind], len(self.holes))
        self.holes[nm] = Hole(kind, value)
        return nm

    def emit(self, parts, out, index=None):
        skip = None
        for p in parts:
            if isinstance(p, str):
                if skip:
                    if not p.startswith(skip):
                        raise P.Unsupported("text after a joined block of lines")
                    p, skip = p[len(skip):], None
                out.append(p)
                continue
            if skip and not (isinstance(p, tuple) and p[0] == "join" and p[1] == "\n" and p[2] == "pre"):
                raise P.Unsupported("text after a joined block of lines")
            if z3.is_expr(p):
                out.append(self.hole("name", p))
            elif p[0] == "rep":
                self.block(p[1], p[2], "", out)
            elif p[0] == "join":
                _, sep, mode, seq = p
                if isinstance(sep, str) and "\n" in sep:
                    if mode == "pre":
                        if sep != "\n":
                            raise P.Unsupported("separator %r" % sep)
                        if not skip:
                            out.append("\n")
                        skip = "\n"
                    elif mode == "sep":
                        skip = sep
                    body = lambda i, e=seq.elem: P.text_parts(self.run, e(i))       # noqa: E731
                    self.block(seq.n, body, sep, out)
                elif isinstance(sep, str) and sep.strip() == "," and mode == "sep":
                    out.append(self.hole("join", seq))
                elif isinstance(sep, str) and sep.strip() == "," and mode == "pre":
                    out.append(", " + self.hole("join", seq))
                elif isinstance(sep, str) and sep.strip() == "," and mode == "post":
                    out.append(self.hole("join", seq) + ", ")
                elif sep == "":
                    self.block(seq.n, lambda i, e=seq.elem: P.text_parts(self.run, e(i)), "", out)
                else:
                    raise P.Unsupported("joined with %r" % (sep,))

    def block(self, n, body, sep, out):
        """what a loop adds: whole lines"""
        sofar = "".join(out)
        if sofar and not sofar.endswith("\n"):
            raise P.Unsupported("a loop that adds to a line")
        k = len(self.loops)
        i = z3.Int(self.run.env.name("row"))
        inner = []
        self.loops[k] = (i, smt.num(n))
        self.emit(body(i), inner)
        txt = "".join(inner) + sep
        if not txt.endswith("\n"):
            raise P.Unsupported("a loop that adds to a line")
        indent = re.match(r"[ \t]*", txt).group(0)
        out.append("%svcBegin%d_\n%s%svcEnd%d_\n" % (indent, k, txt, indent, k))

    def blocks(self, stmts):
        """[(loop number or None, statement)]"""
        out, cur = [], None
        for s in stmts:
            m = re.match(r"vc(Begin|End)(\d+)_$", s.value.id) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Name) else None
            if m is None:
                out.append((cur, s))
                continue
            k = int(m.group(2))
            if (m.group(1) == "Begin") != (cur is None) or m.group(1) == "End" and cur != k:
                raise P.Unsupported("nested blocks of lines")
            cur = k if m.group(1) == "Begin" else None
        return out

    def term(self, it, text):
        """the name that a piece of text with placeholders stands for"""
        parts = []
        for x in re.split(r"(vc[HJ]\d+_)", text):
            if x in self.holes:
                if self.holes[x].kind != "name":
                    raise P.Unsupported("joined text inside of a name")
                parts.append(P.SStr(self.holes[x].value))
            elif x:
                parts.append(x)
        return it.run.name(it.cat(parts) if parts else "")

    def names(self, it, nodes):
        """a list of plain names as pieces: z3 names and sequences"""
        out = []
        for a in nodes:
            if not isinstance(a, ast.Name):
                raise P.Unsupported("expression %s" % ast.dump(a))
            h = self.holes.get(a.id)
            out.append(h.value if h is not None and h.kind == "join" else self.term(it, a.id))
        return out


# ----------------------------------------------------------------- flush_source_code
class Names:
    def iterate(self, it, o):
        return "s", o.info["seq"]

    def is_none(self, it, o):
        return False

    def length(self, it, o):
        return P.SNum(o.info["seq"].n)

    def isinstance(self, it, o, c):
        return c in (tuple, list)

    def getitem(self, it, o, k):
        r = it.getitem(it.run.cell(P.MList.of_seq(o.info["seq"])), k)
        return P.SObj(self, None, seq=it.as_seq(r)) if isinstance(r, (P.MList, P.SSeq)) else r

    def subst(self, o, pairs):
        return P.SObj(self, None, seq=P.subst(o.info["seq"], pairs))


NAMES = Names()


def names(n, f):
    return P.SObj(NAMES, None, seq=P.SSeq(n, lambda j: P.SStr(f(smt.num(j)))))


def facts(it):
    i, j = z3.Int("f!i"), z3.Int("f!j")
    it.run.fact(z3.And(NW >= 0, ND >= 1))
    for f in (NPROV, NDEP):
        it.run.fact(z3.ForAll([i], f(i) >= 1, patterns=[f(i)]))
    it.run.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < NW), WNAME(i) != WNAME(j)), patterns=[z3.MultiPattern(WNAME(i), WNAME(j))]))


def instance(it, **over):
    a = dict(llh_name=P.SStr(LLH), name=P.SStr(CNAME))
    a.update(over)
    return it.run.cell(P.Inst(comp().ComponentSim, a))


def cache(it):
    return it.run.cell(P.MDict(base=P.SymBase(lambda k: CACHED(k), lambda k: P.SOpq(z3.Function("functions", N, OPQ)(k.z), "functions")), cls=share().StaticValueDict))


class Partial:
    def is_none(self, it, o):
        return False

    def call(self, it, o, a, k):
        return it.call(o.info["args"][0], list(o.info["args"][1:]) + list(a), dict(o.info["kw"], **k))


PARTIAL = Partial()


def _partial(it, a, k):
    return P.SObj(PARTIAL, None, args=tuple(a), kw=tuple(sorted(k.items())))


def _flush(kind):
    def run(env):
        def body(it):
            it.state = s = {}
            it.run.joins = True
            facts(it)
            ws = P.SSeq(NW, lambda j: (P.SStr(WNAME(smt.num(j))), names(NPROV(smt.num(j)), lambda y: PROV(smt.num(j), y)), names(NDEP(smt.num(j)), lambda y: DEP(smt.num(j), y))))
            inst = instance(it, worksheet=it.run.cell(P.MList.of_seq(ws)))
            fn = cache(it)
            it.run.contracts[("global", "_cached_functions")] = fn
            given = P.SStr(DN(z3.IntVal(0))) if kind == "str" else it.run.cell(P.MList.of_seq(P.SSeq(ND, lambda j: P.SStr(DN(smt.num(j))))))
            nodep = "batch_size" if kind != "other" else P.SStr(NODEP)
            if kind == "other":
                it.run.pc.append(NODEP != it.run.lit("batch_size"))
            it.call(it.getattr(inst, "flush_source_code"), [given], dict(func_name=P.SStr(FUNC), nodep_data_name=nodep))
            s["code"], s["func"] = it.getattr(inst, "code"), it.getattr(inst, "func_name")
            s["compile"] = it.getattr(inst, "_compile")
            s["dict"] = it.dict_getitem(fn, P.SStr(LLH))
            q = z3.Const("q", N)
            s["has"] = it.zb(it.contains(P.SStr(q), it.getattr(inst, "instances")))
            s["nodep"] = it.run.name(nodep)
            it.state["tmpl"] = Template(it.run, P.text_parts(it.run, s["code"])) if isinstance(s["code"], (str, P.SStr)) else None
            it.state["it"] = it
        con = dict(X.contracts())
        con[functools.partial] = _partial
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s, path %d]" % (kind, n)
            s = p.state
            if p.kind == "raise":
                env.check("refused as RuntimeError" + tag, p.value.cls is RuntimeError, repr(p.value))
                env.prove("refused only if the likelihood has functions already" + tag, CACHED(LLH), p.hyps + list(p.run.facts))
                continue
            if s.get("tmpl") is None:
                raise P.Unsupported("generated code %r" % (s.get("code"),))
            hy = p.hyps + list(p.run.facts)
            env.prove("not while the likelihood has functions" + tag, z3.Not(CACHED(LLH)), hy)
            env.prove("function name is kept" + tag, p.run.name(s["func"]) == FUNC, hy)
            co = s["compile"]
            ok = isinstance(co, P.SObj) and co.model is PARTIAL and not co.info["kw"] and len(co.info["args"]) == 3 and co.info["args"][0] is exec
            env.check("compilation runs the code" + tag, ok, repr(co))
            if ok:
                env.prove("compilation runs the generated code" + tag, p.run.name(co.info["args"][1]) == p.run.name(s["code"]), hy)
                d = co.info["args"][2]
                env.check("in the namespace of the likelihood, new" + tag, d is s["dict"] and isinstance(d, P.MDict) and d.content == (None, ()), repr(d))
            _program(env, p, s, kind, tag)
    return run


def _program(env, p, s, kind, tag):
    it, t = s["it"], s["tmpl"]
    imports, assigns, funcs = [], [], []         # (loop, name text, what)
    for order, (k, st) in enumerate(t.blocks(t.tree.body)):
        if isinstance(st, ast.ImportFrom) and not st.level:
            imports += [(order, k, a.asname or a.name, st.module, a.name) for a in st.names]
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Call):
            assigns.append((order, k, st.targets[0].id, st.value))
        elif isinstance(st, ast.FunctionDef):
            funcs.append((order, k, st))
        elif not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
            raise P.Unsupported("generated statement %s" % ast.dump(st))
    if len(funcs) != 1 or funcs[0][1] is not None:
        raise P.Unsupported("%d generated functions" % len(funcs))
    f = funcs[0][2]
    T = lambda x: t.term(it, x)     # noqa: E731
    hyps = lambda: p.hyps + list(p.run.facts)      # noqa: E731
    sub = lambda z, loop, v: z3.substitute(z, (t.loops[loop][0], v)) if loop is not None else z     # noqa: E731
    # --- decorators
    plain = {a: (m, b) for _, k, a, m, b in imports if k is None and not t.term(it, a).decl().name().startswith("cat")}
    for d in f.decorator_list:
        jit = d.args[0] if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and plain.get(d.func.id) == ("functools", "partial") and len(d.args) == 1 else d
        if not (isinstance(jit, ast.Name) and plain.get(jit.id) == ("jax", "jit")):
            raise P.Unsupported("decorator %s" % ast.dump(d))
        static = [k for k in d.keywords] if isinstance(d, ast.Call) else []
        want = "batch_size" if kind != "other" else None
        val = [(k.arg, ast.literal_eval(k.value)) for k in static]
        if not (val in ([("static_argnums", (1,))], [("static_argnums", 1)], [("static_argnames", ("batch_size",))], [("static_argnames", "batch_size")]) if want else val == []):
            raise P.Unsupported("static arguments %r" % (val,))
    if len(f.decorator_list) > 1:
        raise P.Unsupported("decorators")
    # --- signature
    env.prove("the function has the declared name" + tag, T(f.name) == FUNC, hyps())
    a = f.args
    if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
        raise P.Unsupported("arguments %s" % ast.dump(a))
    ok = len(a.args) >= 3 and len(a.args) - len(a.defaults) <= 3
    env.check("the function takes key, number of events and parameters" + tag, ok, ast.dump(a))
    if not ok:
        return
    lit = p.run.lit
    par = [T(x.arg) for x in a.args[:3]]
    env.prove("the function takes key, number of events and parameters in this order" + tag, z3.And(par[0] == lit("key"), par[1] == s["nodep"], par[2] == lit("parameters")), hyps())
    # --- statements of the function
    body = t.blocks(f.body)
    body = [(k, x) for k, x in body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    calls = [(k, x) for k, x in body if isinstance(x, ast.Assign)]
    rets = [(k, x) for k, x in body if isinstance(x, ast.Return)]
    if not (len(calls) == 1 and calls[0][0] is not None and len(rets) == 1 and rets[0][0] is None and len(body) == 2 and body[-1] == rets[0]):
        raise P.Unsupported("body of the generated function: " + "; ".join(ast.unparse(x) for _, x in body))
    loop, call = calls[0]
    i, n = t.loops[loop]
    env.prove("as many calls as steps" + tag, n == NW, hyps())
    rng = [i >= 0, i < NW]
    v = call.value
    if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and len(call.targets) == 1 and isinstance(call.targets[0], (ast.Tuple, ast.List))):
        raise P.Unsupported("generated statement %s" % ast.unparse(call))
    if v.keywords:
        raise P.Unsupported("keyword arguments in %s" % ast.unparse(call))

    def listed(what, got, lead, n, e):
        """the pieces are the given names, then the names e(0), .., e(n - 1)"""
        z = [x for x in got if z3.is_expr(x)]
        seqs = [x for x in got if not z3.is_expr(x)]
        ok = len(seqs) == 1 and got[-1] is seqs[0] and len(z) == len(lead)
        if not ok and len(seqs) <= 1 and not (len(seqs) == 1 and len(z) > len(lead)):
            env.check("%s: the right number%s" % (what, tag), False, "%d names and %d lists of names" % (len(z), len(seqs)))
            return
        if not ok:
            raise P.Unsupported("names %r" % (got,))
        y = z3.Int("y")
        for w, (x, g) in enumerate(zip(lead, z)):
            env.prove("%s: %s first%s" % (what, ("key", "parameters")[w], tag), g == x, hyps() + rng)
        env.prove("%s: the right number%s" % (what, tag), smt.num(seqs[0].n) == n, hyps() + rng)
        env.prove("%s: in the declared order%s" % (what, tag), p.run.name(seqs[0].elem(y)) == e(y), hyps() + rng + [y >= 0, y < n])
    listed("a step is given", t.names(it, v.args), [lit("key"), lit("parameters")], NDEP(i), lambda y: DEP(i, y))
    listed("a step binds", t.names(it, call.targets[0].elts), [lit("key")], NPROV(i), lambda y: PROV(i, y))
    # --- the result
    r = rets[0][1].value
    ok = isinstance(r, ast.Tuple) and len(r.elts) == 2 and isinstance(r.elts[1], ast.List)
    if not ok:
        raise P.Unsupported("result %s" % ast.unparse(rets[0][1]))
    if ok:
        env.prove("the last key is returned" + tag, t.names(it, r.elts[:1])[0] == lit("key"), hyps())
        got = t.names(it, r.elts[1].elts)
        if kind == "str":
            env.check("one observable is returned" + tag, len(got) == 1, repr(got))
            if len(got) == 1:
                y = z3.Int("y")
                one = got[0] if z3.is_expr(got[0]) else p.run.name(got[0].elem(z3.IntVal(0)))
                env.prove("the observable is returned" + tag, one == DN(0) if z3.is_expr(got[0]) else z3.And(got[0].n == 1, one == DN(0)), hyps())
        else:
            rng = []
            listed("the result", got, [], ND, lambda y: DN(y))
    # --- what the called names are
    mine = T(v.func.id)
    x, y = z3.Int("row!x"), z3.Int("row!y")
    if not assigns:
        raise P.Unsupported("no instances are made")
    goals, late = [], []
    for o, k, target, value in assigns:
        if not isinstance(value.func, ast.Name) or k is None:
            raise P.Unsupported("generated statement %s" % ast.unparse(value))
        env.check("instances are made before the function is used: at module level, of one class with one argument" + tag, len(value.args) == 1 and not value.keywords or
                  not value.args and [w.arg for w in value.keywords] == ["llh_name"], ast.unparse(value))
        if not value.args and not value.keywords:
            continue
        arg = (value.args + [w.value for w in value.keywords])[0]
        if not (isinstance(arg, ast.Constant) and isinstance(arg.value, str)):
            raise P.Unsupported("argument %s" % ast.unparse(arg))
        env.prove("each instance is told its likelihood" + tag, T(arg.value) == LLH, hyps())
        src = [(o2, k2, T(a2), m2, T(b2)) for o2, k2, a2, m2, b2 in imports if k2 is not None]
        cls = T(value.func.id)
        for cand in (x, t.loops[k][1] - 1 - x):
            goal = z3.And(cand >= 0, cand < t.loops[k][1], sub(T(target), k, cand) == z3.substitute(mine, (i, x)))
            ways = [z3.And(c2 >= 0, c2 < t.loops[k2][1], sub(a2, k2, c2) == sub(cls, k, cand), sub(b2, k2, c2) == WNAME(x))
                    for o2, k2, a2, m2, b2 in src if o2 < o and m2 == "appletree.plugins" for c2 in (x, t.loops[k2][1] - 1 - x)]
            goals.append(z3.And(goal, z3.Or(*ways) if ways else z3.BoolVal(False)))
    env.prove("the called name is an instance of the step's class, taken from the plugins" + tag, z3.Or(*goals), hyps() + [x >= 0, x < NW])
    for o, k, target, value in assigns:
        for o2, k2, t2, v2 in assigns:
            same = [] if (o, k) != (o2, k2) else [y != x]
            a, b = sub(T(target), k, x), sub(T(t2), k2, y)
            if same:
                env.prove("instances have names of their own" + tag, a != b, hyps() + [x >= 0, y >= 0, x < NW, y < NW] + same)
            elif (o2, k2) > (o, k):
                raise P.Unsupported("instances made in several places")
    q = z3.Const("q", N)
    is_mine = z3.And(x >= 0, x < NW, q == z3.substitute(mine, (i, x)))
    env.prove("the instances of the steps are recorded" + tag, s["has"], hyps() + [is_mine])
    env.prove("no other instances are recorded" + tag, z3.BoolVal(False), hyps() + [s["has"], z3.ForAll([x], z3.Not(is_mine))])


# ----------------------------------------------------------------- compile
class Namespace:
    """namespace of a likelihood: what exec puts there"""

    def is_none(self, it, o):
        return False

    def eq(self, it, o, x):
        return isinstance(x, P.SObj) and x.model is self and o.z.eq(x.z)

    def getitem(self, it, o, k):
        runs = [r for r in it.state["runs"] if r[1] is o]
        if not runs:
            raise P.PyRaise(P.Exc(KeyError, (k,)))
        return P.SOpq(DEFINED(runs[-1][0], z3.IntVal(len(runs)), it.run.name(k)), "function")


DEFINED = z3.Function("defined_by", N, I, N, OPQ)      # code, how many times it was run, name
NS = Namespace()


def _exec(it, a, k):
    if len(a) != 2 or k or not isinstance(a[1], P.SObj) or a[1].model is not NS:
        raise P.Unsupported("exec")
    it.state["runs"].append((it.run.name(a[0]), a[1]))


def _compile(env):
    code = z3.Const("code", N)

    def body(it):
        it.state = s = dict(runs=[])
        it.run.joins = True
        spaces = {}

        def space(k):
            return spaces.setdefault(str(k.z), P.SObj(NS, z3.Function("namespace", N, OPQ)(k.z)))
        fn = it.run.cell(P.MDict(base=P.SymBase(lambda k: z3.BoolVal(True), space), cls=share().StaticValueDict))
        it.run.contracts[("global", "_cached_functions")] = fn
        mine = it.dict_getitem(fn, P.SStr(LLH))
        inst = instance(it, func_name=P.SStr(FUNC), _code=P.SStr(code), _compile=P.SObj(PARTIAL, None, args=(exec, P.SStr(code), mine), kw=()))
        s["out"] = []
        for _ in range(2):
            it.call(it.getattr(inst, "compile"), [])
            s["out"].append((len(s["runs"]), it.getattr(inst, "simulate")))
        s["mine"] = mine
    con = dict(X.contracts())
    con[exec] = _exec
    for n, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % n
        env.check("accepted" + tag, p.kind != "raise", repr(p.value))
        if p.kind == "raise":
            continue
        s = p.state
        hy = p.hyps + list(p.run.facts)
        env.check("code is run by every compilation" + tag, [c for c, _ in s["out"]] == [1, 2], repr(s["out"]))
        for w, (c, f) in enumerate(s["out"]):
            env.check("the simulation is a function of the namespace" + tag, isinstance(f, P.SOpq), repr(f))
            if isinstance(f, P.SOpq):
                env.prove("the simulation is what the code just defined%s" % (", again" if w else "") + tag, f.z == DEFINED(code, w + 1, FUNC), hy)


# ----------------------------------------------------------------- Plugin
NA, ARG = z3.Int("number_of_arguments"), z3.Function("argument", I, N)
NC, CFG, CNM, CIX = z3.Int("number_of_options"), z3.Function("option", I, OPQ), z3.Function("option_name", OPQ, N), z3.Function("option_at", N, I)
BUILT = z3.Function("built_for", OPQ, N, OPQ)      # an option, built for a likelihood
COPY = z3.Function("copy", OPQ, OPQ)
FIRST_DEP = z3.Function("dependency", I, N)
NDEPS, NPROVS = z3.Int("number_of_dependencies"), z3.Int("number_of_outputs")


class Option:
    def is_none(self, it, o):
        return False

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) and x.model is self else False

    def getattr(self, it, o, name):
        if name == "name":
            return P.SStr(CNM(o.z))
        if name == "build":
            def c(it, a, k):
                llh = a[0] if a else k.get("llh_name")
                if not isinstance(llh, P.SStr):
                    it.state["bad"].append("built for %r" % (llh,))
                    return
                it.state["asked"].append((list(it.run.facts) + list(it.run.pc), it.run.name(llh), it.state["checked"]))
                it.call(it.getattr(it.state["built"], "add"), [P.SStr(CNM(o.z))])
            return P.Contract(c, name)
        return P._MISSING

    def deepcopy(self, it, o):
        done = it.zb(it.contains(P.SStr(CNM(o.z)), it.state["built"]))
        return P.SObj(OPTION, z3.If(done, COPY(BUILT(o.z, LLH)), COPY(o.z)))


OPTION = Option()


class Options:
    """takes_config"""

    def is_none(self, it, o):
        return False

    def length(self, it, o):
        return P.SNum(NC)

    def iterate(self, it, o):
        return "s", P.SSeq(NC, lambda j: P.SStr(CNM(CFG(smt.num(j)))), lambda v: CIX(it.run.name(v)))

    def getitem(self, it, o, k):
        return P.SObj(OPTION, CFG(CIX(it.run.name(k))))

    def getattr(self, it, o, name):
        seq = lambda f: P.Contract(lambda it, a, k: P.SSeq(NC, f), name)      # noqa: E731
        opt = lambda j: P.SObj(OPTION, CFG(smt.num(j)))     # noqa: E731
        key = lambda j: P.SStr(CNM(CFG(smt.num(j))))        # noqa: E731
        return {"values": seq(opt), "keys": seq(key), "items": seq(lambda j: (key(j), opt(j)))}.get(name, P._MISSING)


OPTS = Options()


class Step:
    """an instance of a step: its attributes are a dictionary"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        s = it.state
        if name in ("depends_on", "provides"):
            return P.SObj(NAMES, None, seq=s[name])
        if name == "takes_config":
            return P.SObj(OPTS)
        if name == "__class__":
            return P.SObj(CLS)
        if name == "simulate":
            return P.SObj(SIM)
        if name == "sanity_check":
            def check(it, a, k):
                it.state["checked"] += 1
                if it.run.truth(z3.Bool("insane")):
                    raise P.PyRaise(P.Exc(ValueError, ("insane",)))
            return P.Contract(check, name)
        if name == "llh_name" and s.get("attrs") is not None:
            return it.dict_getitem(s["attrs"], "llh_name")
        f = getattr(plug().Plugin, name, None)
        return P.Bound(f, o) if callable(f) else P._MISSING

    def setattr(self, it, o, name, v):
        it.dict_set(it.state["attrs"], name, v)


class Cls:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P.Text() if name == "__name__" else P._MISSING


class Sim:
    def is_none(self, it, o):
        return False

    def call(self, it, o, a, k):
        it.state["call"].append((a, k))
        return P.SOpq(z3.Const("simulated", OPQ), "result")


STEP, CLS, SIM = Step(), Cls(), Sim()


def _init(env):
    def body(it):
        it.state = s = dict(bad=[], asked=[], checked=0, call=[])
        it.run.fact(z3.And(NC >= 0, NDEPS >= 0, NPROVS >= 0))
        i = z3.Int("f!i")
        it.run.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NC), z3.And(CIX(CNM(CFG(i))) == i, CNM(CFG(i)) != it.run.lit("llh_name"))), patterns=[CFG(i)]))
        s["depends_on"] = P.SSeq(NDEPS, lambda j: P.SStr(FIRST_DEP(smt.num(j))))
        s["provides"] = P.SSeq(NPROVS, lambda j: P.SStr(z3.Function("provided", I, N)(smt.num(j))))
        s["attrs"], s["built"] = it.run.cell(P.MDict()), it.run.cell(P.MSet())
        it.call_function(plug().Plugin.__init__, [P.SObj(STEP, None), P.SStr(LLH)], {})
        j = z3.Int("j")
        it.run.pc.append(z3.And(j >= 0, j < NC))
        key = P.SStr(CNM(CFG(j)))
        s["has"] = it.zb(it.has(s["attrs"], key))
        s["val"] = it.lookup(s["attrs"], key)
        s["llh"] = it.dict_getitem(s["attrs"], "llh_name")
    for n, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [path %d]" % n
        s = p.state
        hy = p.hyps + list(p.run.facts)
        insane = z3.Bool("insane")
        if p.kind == "raise":
            env.check("refused as ValueError" + tag, p.value.cls is ValueError, repr(p.value))
            env.prove("refused only without inputs, without outputs or if the check fails" + tag, z3.Or(NDEPS == 0, NPROVS == 0, insane), hy)
            continue
        j = z3.Int("j")
        hy = p.hyps + list(p.run.facts)
        env.prove("inputs and outputs are declared and the check passed" + tag, z3.And(NDEPS > 0, NPROVS > 0, z3.Not(insane)), hy)
        env.check("options are built for a likelihood" + tag, not s["bad"], repr(s["bad"]))
        env.check("the check is made" + tag, s["checked"] >= 1, repr(s["checked"]))
        for h, z, _ in s["asked"]:
            env.prove("options are built for the likelihood of the step" + tag, z == LLH, h)
        env.prove("every option becomes an attribute" + tag, s["has"], hy)
        v = s["val"]
        env.check("the attribute is an option" + tag, isinstance(v, P.SObj) and v.model is OPTION, repr(v))
        if isinstance(v, P.SObj) and v.model is OPTION:
            env.prove("the attribute is a copy of the option built for the likelihood" + tag, v.z == COPY(BUILT(CFG(j), LLH)), hy)
        env.prove("the step knows its likelihood" + tag, p.run.name(s["llh"]) == LLH, hy)


def _call(env):
    import inspect
    n, X0 = z3.Int("number_of_inputs"), z3.Function("given", I, OPQ)

    def body(it):
        it.state = dict(call=[], bad=[], depends_on=None, provides=None)
        r = it.call_function(plug().Plugin.__call__, [P.SObj(STEP, None)] + [P.SOpq(X0(j), "input") for j in range(5)], dict(extra=P.SOpq(X0(9), "input")))
        it.state["r"] = r
    for k, p in enumerate(P.explore(env, body, X.contracts())):
        c = p.state["call"]
        env.check("one simulation", p.kind != "raise" and len(c) == 1, repr((p.kind, c)))
        if len(c) == 1:
            a, kw = c[0]
            env.check("arguments as given", [x.z for x in a if isinstance(x, P.SOpq)] == [X0(j) for j in range(5)] and len(a) == 5 and set(kw) == {"extra"} and kw["extra"].z.eq(X0(9)), repr(c))
            env.check("result as simulated", isinstance(p.state["r"], P.SOpq) and p.state["r"].z.eq(z3.Const("simulated", OPQ)), repr(p.state["r"]))


def _sanity(env):
    import inspect

    def body(it):
        it.state = s = dict(call=[], checked=0)
        it.run.fact(z3.And(NDEPS >= 0, NA >= 3 + NDEPS))
        s["depends_on"] = P.SSeq(NDEPS, lambda j: P.SStr(FIRST_DEP(smt.num(j))))

        def spec(it, a, k):
            if len(a) != 1 or not isinstance(a[0], P.SObj) or a[0].model is not SIM:
                raise P.Unsupported("arguments of %r" % (a,))
            return (P.SSeq(NA, lambda j: P.SStr(ARG(smt.num(j)))), None, None, None, None, None, None)
        it.run.contracts[inspect.getfullargspec] = spec
        it.call_function(plug().Plugin.sanity_check, [P.SObj(STEP, None)], {})
    for n, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [path %d]" % n
        hy = p.hyps
        i = z3.Int("i")
        key, par = p.run.lit("key"), p.run.lit("parameters")
        hy = p.hyps + list(p.run.facts)
        fine = z3.And(i >= 0, i < NDEPS)
        if p.kind == "raise":
            env.check("refused as ValueError" + tag, p.value.cls is ValueError, repr(p.value))
            env.prove("refused only if an argument is another one" + tag, z3.BoolVal(False),
                      hy + [ARG(1) == key, ARG(2) == par, z3.ForAll([i], z3.Implies(fine, ARG(3 + i) == FIRST_DEP(i)))])
            continue
        env.prove("first key and parameters" + tag, z3.And(ARG(1) == key, ARG(2) == par), hy)
        env.prove("then the inputs as declared" + tag, ARG(3 + i) == FIRST_DEP(i), hy + [fine])


def units():
    c = "appletree/component.py:ComponentSim."
    return [Unit("ComponentSim.flush_source_code", [c + "flush_source_code", c + "code"], lambda env: [_flush(k)(env) for k in ("list", "str", "other")]),
            Unit("ComponentSim.compile", [c + "compile"], _compile)] + [
            Unit("Plugin." + n, ["appletree/plugin.py:Plugin." + n], f) for n, f in (("__init__", _init), ("__call__", _call), ("sanity_check", _sanity))]


# ----------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        if rng.random() < 0.15:
            n = rng.choice([1, 2, 3, 5])
            deps = ["d%d" % i for i in range(n)]
            args = ["self", "key", "parameters"] + deps
            how = rng.choice(["fine", "swap", "rename", "key", "parameters", "nodeps", "noprov", "extra", "order"])
            if how == "swap" and n > 1:
                i = rng.randrange(n - 1)
                args[3 + i], args[4 + i] = args[4 + i], args[3 + i]
            elif how == "rename":
                args[3 + rng.randrange(n)] = "other"
            elif how in ("key", "parameters"):
                args[1 if how == "key" else 2] = "thing"
            elif how == "extra":
                args.append("more")
            elif how == "order":
                args[1], args[2] = args[2], args[1]
            yield dict(kind="check", args=args, deps=[] if how == "nodeps" else deps, provides=[] if how == "noprov" else ["x"], options=rng.choice([0, 1, 3]))
            continue
        n = rng.choice([1, 2, 3, 4, 6])
        names, steps = ["batch_size"], []
        for i in range(n):
            prov = ["o%d_%d" % (i, j) for j in range(rng.choice([1, 1, 2, 3]))]
            if i == n - 1:
                prov.insert(rng.randint(0, len(prov)), "eff")
            k = rng.choice([1, 1, 2, 3])
            deps = rng.sample(names, min(len(names), k))
            if rng.random() < 0.5 and names[-1] not in deps:
                deps.append(names[-1])
            steps.append(dict(name="VcStep%d" % rng.randint(100 * i, 100 * i + 99), provides=prov, depends_on=deps, splits=rng.random() < 0.5,
                              option="vc_c15_opt%d" % i if rng.random() < 0.4 else None))
            names += prov
        obs = rng.sample([x for x in names if x not in ("batch_size", "eff")], rng.randint(1, min(4, len(names) - 2))) if len(names) > 2 else []
        if obs and rng.random() < 0.1:
            obs.insert(rng.randint(0, len(obs)), rng.choice(obs))
        if obs and rng.random() < 0.3:
            obs.insert(rng.randint(0, len(obs)), "eff")
        yield dict(kind="run", steps=steps, obs=obs, noeff=bool(obs) and rng.random() < 0.3, func=rng.choice(["simulate", "vc_sim", "one_sim"]), batch=rng.choice([1, 3, 10]),
                   name=rng.choice(["one", "rn220_er", "x"]), second=rng.choice(["likelihood", "same", None]), seed=rng.randrange(1000), again=rng.random() < 0.6,
                   values=[round(rng.uniform(-2, 2), 3) for _ in range(4)], kinds=rng.choice(["list", "tuple"]), jit=rng.random() < 0.15)


def _make_step(s, log):
    import jax.numpy as jnp
    from jax import random
    from appletree.config import takes_config, Constant
    from appletree.plugin import Plugin

    def value(self, key, parameters, ins):
        key2 = random.split(key)[0] if s["splits"] else key
        x = jnp.full(self.vc_batch, parameters["vc_p"] + (getattr(self, s["option"]).value if s["option"] else 0.0)) + 0.01 * jnp.sum(key2 % 97)
        for w, v in enumerate(ins):
            x = x + (w + 1.3) * jnp.cos(v + 0.1 * w)
        out = [x + 0.37 * j for j in range(len(s["provides"]))]
        return (key2, *out)
    # the arguments of simulate are named
    ns = {}
    exec("def simulate(self, key, parameters, %s):\n    log.append((type(self).__name__, self.llh_name))\n    return value(self, key, parameters, [%s])\n" % (
        ", ".join(s["depends_on"]), ", ".join(s["depends_on"])), dict(value=value, log=log), ns)
    cls = type(s["name"], (Plugin,), dict(provides=list(s["provides"]), depends_on=list(s["depends_on"]), simulate=ns["simulate"], vc_batch=0))
    if s["option"]:
        cls = takes_config(Constant(name=s["option"], type=float, default=0.0, help=""))(cls)
    return cls, value


def run_case(c):
    import appletree.plugins as plugins
    sh = share()
    saved, conf = dict(sh._cached_functions), dict(sh._cached_configs)
    made = []
    with X.Quiet():
        try:
            sh._cached_functions.clear()
            dict.clear(sh._cached_configs)
            return _check_case(c) if c["kind"] == "check" else _jitted(c, plugins, made)
        finally:
            for nm in made:
                if nm in vars(plugins):
                    delattr(plugins, nm)
            sh._cached_functions.clear()
            dict.update(sh._cached_functions, saved)
            dict.clear(sh._cached_configs)
            dict.update(sh._cached_configs, conf)


def _check_case(c):
    built = []

    class Item:
        def __init__(self, name):
            self.name, self.of = name, None

        def build(self, llh):
            built.append((self.name, llh))
            self.of = llh
    ns = {}
    exec("def simulate(%s):\n    return key, 1\n" % ", ".join(c["args"]), ns)
    items = {"o%d" % i: Item("o%d" % i) for i in range(c["options"])}
    cls = type("VcChecked", (plug().Plugin,), dict(provides=list(c["provides"]), depends_on=list(c["deps"]), simulate=ns["simulate"], takes_config=items))
    fine = bool(c["provides"]) and bool(c["deps"]) and c["args"][1:3] == ["key", "parameters"] and c["args"][3:3 + len(c["deps"])] == c["deps"]
    try:
        o = cls("vc_llh")
    except Exception as e:
        return "a sane step is refused: %r" % e if fine else None
    if not fine:
        return "accepted: simulate(%s) with inputs %s and outputs %s" % (", ".join(c["args"]), c["deps"], c["provides"])
    for nm, it in items.items():
        a = getattr(o, nm, None)
        if a is None or a is it or a.name != nm or a.of != "vc_llh":
            return "option %s of the step is %r" % (nm, a)
    if o.llh_name != "vc_llh":
        return "the step belongs to %r" % o.llh_name
    return None


def _jitted(c, plugins, made):
    import jax
    if c["jit"]:
        return _run_case(c, plugins, made)
    with jax.disable_jit():
        return _run_case(c, plugins, made)


def _run_case(c, plugins, made):
    import numpy as np
    from jax import random
    sh = share()
    log, classes, values = [], [], {}
    for s in c["steps"]:
        cls, value = _make_step(s, log)
        cls.vc_batch = c["batch"]
        classes.append(cls)
        values[s["name"]] = value
        setattr(plugins, s["name"], cls)
        made.append(s["name"])
    by = {p: s for s in c["steps"] for p in s["provides"]}

    def component(llh, name):
        o = comp().ComponentSim(name=name, llh_name=llh)
        o.register(list(classes))
        o.deduce(data_names=(list if c["kinds"] == "list" else tuple)(c["obs"]), func_name=c["func"], force_no_eff=c["noeff"])
        return o
    obs = [x for x in c["obs"] if x != "eff"] + ([] if c["noeff"] else ["eff"])

    class Opt:
        pass

    def expected(o, opts, key, par):
        env = {"batch_size": c["batch"]}
        order = []
        for nm, _, _ in o.worksheet:
            s = next(s for s in c["steps"] if s["name"] == nm)
            me = Opt()
            me.vc_batch = c["batch"]
            if s["option"]:
                v = Opt()
                v.value = opts[s["option"]]
                setattr(me, s["option"], v)
            key, *out = values[nm](me, key, par, [env[d] for d in s["depends_on"]])
            env.update(zip(s["provides"], out))
            order.append(nm)
        return key, [env[x] for x in obs], order

    def compare(what, o, opts, first):
        key, par = random.PRNGKey(c["seed"]), {"vc_p": c["values"][0]}
        log.clear()
        got = o.simulate(key, c["batch"], par)
        calls = list(log)
        if not (isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], list)):
            return "%s: returned %r" % (what, type(got))
        k, r, order = expected(o, opts, key, par)
        if first and calls != [(nm, o.llh_name) for nm in order]:
            return "%s: calls %s, workflow %s of %s" % (what, calls, order, o.llh_name)
        if not np.array_equal(np.asarray(got[0]), np.asarray(k)):
            return "%s: key %s, expected %s" % (what, np.asarray(got[0]), np.asarray(k))
        if len(got[1]) != len(obs):
            return "%s: %d observables for %s" % (what, len(got[1]), obs)
        for nm, a, b in zip(obs, got[1], r):
            if not np.allclose(np.asarray(a), np.asarray(b), rtol=1e-4, atol=1e-4):
                return "%s: %s is %s, expected %s" % (what, nm, np.asarray(a)[:2], np.asarray(b)[:2])
        return None
    opts = {s["option"]: c["values"][1] for s in c["steps"] if s["option"]}
    dict.update(sh._cached_configs, opts)
    one = component("vc_llh_a", c["name"])
    one.compile()
    bad = compare("first", one, opts, True)
    if bad:
        return bad
    if one.instances != {"%s_%s" % (w[0], c["name"]) for w in one.worksheet} and len(one.instances) != len(one.worksheet):
        return "recorded instances %s for the workflow %s" % (sorted(one.instances), [w[0] for w in one.worksheet])
    old = one.simulate
    opts2 = {k: c["values"][2] for k in opts}
    if c["second"]:
        dict.update(sh._cached_configs, opts2)
        try:
            two = component("vc_llh_b" if c["second"] == "likelihood" else "vc_llh_a", c["name"] if c["second"] == "likelihood" else c["name"] + "_two")
            two.compile()
        except Exception as e:
            if c["second"] == "likelihood":
                return "another likelihood is refused: %r" % e
            two = None
        if two is not None:
            bad = compare("second", two, opts2, True)
            if bad:
                return bad
        bad = compare("first, after the second component was made", one, opts, False)
        if bad:
            return bad
        if sh._cached_functions["vc_llh_a"].get(c["func"]) is not old:
            return "the function of the first component was replaced"
    if c["again"]:
        dict.update(sh._cached_configs, {k: c["values"][3] for k in opts})
        one.compile()
        return compare("compiled again after the configuration changed", one, {k: c["values"][3] for k in opts}, True)
    return None
