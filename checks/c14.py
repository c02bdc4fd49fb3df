"""C14: the simulation workflow is complete and in dependency order."""
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from checks import context_common as X
from checks import like_common as L

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["steps of different names are different and the other way round (they are looked up by name in appletree.plugins)"]
NAME, INV = z3.Function("step_name", OPQ, N), z3.Function("step_named", N, OPQ)
NPROV, PROV = z3.Function("number_provided", OPQ, I), z3.Function("provides", OPQ, I, N)
NDEP, DEP = z3.Function("number_of_dependencies", OPQ, I), z3.Function("depends_on", OPQ, I, N)
NPAR, PAR = z3.Function("number_of_parameters", OPQ, I), z3.Function("step_parameter", OPQ, I, N)
NCFG, CFG = z3.Function("number_of_options", OPQ, I), z3.Function("option", OPQ, I, OPQ)
REQ, NOREQ = z3.Function("required_parameter", OPQ, N, N), z3.Function("requires_none", OPQ, N, B)
NE, EP, EX = z3.Int("number_of_entries"), z3.Function("entry_step", I, OPQ), z3.Function("entry_name", I, N)
REG, OWN = z3.Function("registered", N, B), z3.Function("provider", N, OPQ)
RATE, LLH, NODEP = z3.Const("rate_name", N), z3.Const("llh_name", N), z3.Const("nodep_name", N)


def comp():
    return L.comp_mod()


class Plain:
    def is_none(self, it, o):
        return False

    def eq(self, it, o, x):
        return o.z == x.z if isinstance(x, P.SObj) and x.model is self else False


class Cfg(Plain):
    def getattr(self, it, o, name):
        if name == "required_parameter":
            def c(it, a, k):
                llh = a[0] if a else k.get("llh_name")
                llh = it.run.name(llh)
                return None if it.run.truth(NOREQ(o.z, llh)) else P.SStr(REQ(o.z, llh))
            return P.Contract(c, name)
        return P._MISSING


CFGM = Cfg()


class Options(Plain):
    def getattr(self, it, o, name):
        if name == "values":
            return P.Contract(lambda it, a, k: P.SSeq(NCFG(o.z), lambda j: P.SObj(CFGM, CFG(o.z, smt.num(j)))), name)
        return P._MISSING


OPTS = Options()


def seq(n, f, z):
    return P.SSeq(n(z), lambda j: P.SStr(f(z, smt.num(j))))


class Step(Plain):
    def getattr(self, it, o, name):
        if name == "__name__":
            return P.SStr(NAME(o.z))
        for nm, n, f in (("provides", NPROV, PROV), ("depends_on", NDEP, DEP), ("parameters", NPAR, PAR)):
            if name == nm:
                return P.SObj(NAMES, None, seq=seq(n, f, o.z), of=nm, step=o.z)
        if name == "takes_config":
            return P.SObj(OPTS, o.z)
        return P._MISSING


class Names(Plain):
    """a declared tuple or list of names"""

    def iterate(self, it, o):
        return "s", o.info["seq"]

    def length(self, it, o):
        return P.SNum(o.info["seq"].n)

    def getitem(self, it, o, k):
        return it.getitem(o.info["seq"], k)

    def subst(self, o, pairs):
        return P.SObj(self, None, seq=P.subst(o.info["seq"], pairs), of=o.info["of"], step=z3.substitute(o.info["step"], *pairs))


NAMES, STEP = Names(), Step()


class Entry(Plain):
    """entry of the dependency list"""

    def getitem(self, it, o, k):
        i = o.z
        return {"plugin": P.SObj(STEP, EP(i)), "provides": P.SStr(EX(i)), "depends_on": STEP.getattr(it, P.SObj(STEP, EP(i)), "depends_on")}[k]


ENTRY = Entry()


def facts(it):
    z, j = z3.Const("f!z", OPQ), z3.Int("f!j")
    it.run.fact(NE >= 0)
    it.run.fact(z3.ForAll([z], INV(NAME(z)) == z, patterns=[NAME(z)]))
    for f in (NPROV, NDEP, NPAR, NCFG):
        it.run.fact(z3.ForAll([z], f(z) >= 0, patterns=[f(z)]))


def instance(it, **over):
    a = dict(rate_name=P.SStr(RATE), llh_name=P.SStr(LLH), name="one")
    a.update(over)
    return it.run.cell(P.Inst(comp().ComponentSim, a))


def _tail(it, inst):
    """the workflow and membership of an arbitrary name in the needed parameters"""
    ws = it.getattr(inst, "worksheet")
    q = z3.Const("q", N)
    return dict(ws=it.as_seq(ws), q=q, has=it.zb(it.contains(P.SStr(q), it.getattr(inst, "needed_parameters"))))


NEXT = z3.Function("later_entry", I, I, I)


def instances(hyps, terms):
    """instances of the universal facts over one index, at the terms and at what index functions make of them"""
    fs, out, st, seen = [], [], list(hyps), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.arity() == 1 and d.kind() == z3.Z3_OP_UNINTERPRETED and d.domain(0) == I and d.range() == I and not any(d.eq(f) for f in fs):
                fs.append(d)
            st.extend(x.children())
    for t in terms:
        for v in [t] + [f(t) for f in fs]:
            out += [z3.substitute_vars(h.body(), v) for h in hyps if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I]
    return out


def _simplify(env):
    def body(it):
        it.state = {}
        facts(it)
        inst = instance(it, needed_parameters=it.run.cell(P.MSet([P.SStr(z3.Const("stale_parameter", N))])))
        deps = it.run.cell(P.MList.of_seq(P.SSeq(NE, lambda j: P.SObj(ENTRY, smt.num(j)))))
        it.call(it.getattr(inst, "dependencies_simplify"), [deps])
        it.state = _tail(it, inst)
    for n, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [path %d]" % n
        env.check("no entry is refused" + tag, p.kind != "raise", repr(p.value))
        if p.kind == "raise":
            continue
        s, ws = p.state, p.state["ws"]
        j, k, e, y = z3.Ints("j k e y")
        nw = smt.num(ws.n)

        def row(j):
            r = ws.elem(j)
            r = r.concrete() if isinstance(r, P.MList) else list(r)
            if len(r) != 3 or not isinstance(r[0], P.SStr) or any(not isinstance(x, P.SObj) or x.model is not NAMES for x in r[1:]):
                raise P.Unsupported("workflow row %r" % (r,))
            return r[0].z, r[1].info, r[2].info
        name, prov, deps = row(j)
        st = lambda x: INV(row(x)[0])       # noqa: E731
        row(j), row(k)
        every = p.hyps + list(p.run.facts)
        hy = [f for f in every if not P.mentions(f, {x.name() for x in (PAR, CFG, REQ)}) and not any(nm.startswith("hit!") for nm in smt.consts_of([f]))]
        rng = [j >= 0, j < nw]
        env.check("a step is given with what it provides and what it takes" + tag, (prov["of"], deps["of"]) == ("provides", "depends_on"), repr(row(j)))
        env.prove("name, outputs and inputs are those of one step" + tag, z3.And(name == NAME(prov["step"]), prov["step"] == deps["step"]), hy + rng)
        env.prove("nothing but steps of the dependency list" + tag, z3.Exists([e], z3.And(e >= 0, e < NE, EP(e) == st(j))), hy + rng)
        env.prove("each step once" + tag, name != row(k)[0], hy + rng + [k >= 0, k < j])
        def pos(x):
            """index of the entry that row x was made for"""
            z = row(x)[1]["step"]
            if not z3.is_app(z) or not z.decl().eq(EP):
                raise P.Unsupported("rows are not made from entries")
            return z.arg(0)
        first = lambda k: z3.And(k >= 0, k < nw, row(k)[0] == NAME(EP(e)), pos(k) >= e)      # noqa: E731
        ine = [e >= 0, e < NE]
        env.prove("every step of the dependency list, at the place of its last entry or later" + tag, z3.Exists([k], first(k)), hy + ine + instances(hy, [NE - 1 - e, e]))
        env.prove("rows in the reverse order of the entries" + tag, pos(k) > pos(j), hy + [k >= 0, k < j, j < nw])
        row_of = z3.Function("row_of_entry", I, I)        # exists by the previous obligation
        d = DEP(EP(pos(j)), y)
        e2 = NEXT(pos(j), y)
        env.prove("each step after the steps whose outputs it takes" + tag, z3.And(row_of(e2) >= 0, row_of(e2) < j, row(row_of(e2))[0] == NAME(OWN(d))),
                  rng + [pos(j) >= 0, pos(j) < NE, z3.And(e2 > pos(j), e2 < NE, EP(e2) == OWN(d)),      # the guarantee of dependencies_deduce for this entry
                         z3.substitute(first(row_of(e)), (e, e2)),
                         z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < j, j < nw), pos(k) > pos(j)))])
        env.prove("entry of a row" + tag, z3.And(pos(j) >= 0, pos(j) < NE, EP(pos(j)) == st(j)), hy + rng)
        q, has = s["q"], s["has"]
        at = z3.And(e >= 0, e < NE, y >= 0)
        par = z3.And(at, y < NPAR(EP(e)), PAR(EP(e), y) == q)
        req = z3.And(at, y < NCFG(EP(e)), z3.Not(NOREQ(CFG(EP(e), y), LLH)), REQ(CFG(EP(e), y), LLH) == q)
        lit = p.run.lit("")
        hy = every
        env.prove("the rate parameter is needed if it is named" + tag, has, hy + [RATE == q, RATE != lit])
        env.prove("the parameters of the steps are needed" + tag, has, hy + [par])
        env.prove("the parameters of the maps are needed" + tag, has, hy + [req])
        env.prove("no other parameter is needed" + tag, z3.BoolVal(False), hy + [has, z3.Or(RATE == lit, RATE != q), z3.ForAll([e, y], z3.Not(par)), z3.ForAll([e, y], z3.Not(req))])


# ----------------------------------------------------------------- dependencies_deduce
class Tree:
    """the list of dependencies, by contract: its entries are (step, observable)"""

    def append(self, entry):
        """list.append"""


LEN, TSTEP, TNAME = z3.Function("entries", OPQ, I), z3.Function("step_of_entry", OPQ, I, OPQ), z3.Function("observable_of_entry", OPQ, I, N)
APP, EXT = z3.Function("appended", OPQ, OPQ, N, OPQ), z3.Function("deduced", OPQ, OPQ, N, OPQ)
AT, NXT = z3.Function("place_of_dependency", OPQ, OPQ, N, I, I), z3.Function("place_of_next", OPQ, OPQ, N, I, I, I)
NEED, ALLREG, FAILS = z3.Function("needed", N, B), z3.Bool("everything_needed_is_provided"), z3.Function("refuses", OPQ, OPQ, N, B)
T0, EMPTY, ND, DN = z3.Const("given_list", OPQ), z3.Const("empty_list", OPQ), z3.Int("requested"), z3.Function("requested_name", I, N)


def tree(it, z):
    return it.run.cell(P.Inst(Tree, dict(z=P.SOpq(z, "tree"))))


def new_entry(T, i):
    return z3.And(REG(TNAME(T, i)), TNAME(T, i) != NODEP, TSTEP(T, i) == OWN(TNAME(T, i)), NEED(TNAME(T, i)))


def deduced(Z, st, T, i, y):
    """the contract of dependencies_deduce for the dependencies of step st, appended to list Z; i: entry, y: dependency"""
    d = lambda s: DEP(s, y)     # noqa: E731
    new = z3.And(i >= LEN(Z), i < LEN(T))
    at, nx = AT(Z, st, NODEP, y), NXT(Z, st, NODEP, i, y)
    return [("earlier entries stay", z3.And(LEN(T) >= LEN(Z), z3.Implies(z3.And(i >= 0, i < LEN(Z)), z3.And(TSTEP(T, i) == TSTEP(Z, i), TNAME(T, i) == TNAME(Z, i))))),
            ("entries are needed steps", z3.Implies(new, new_entry(T, i))),
            ("what was asked for is in", z3.Implies(z3.And(y >= 0, y < NDEP(st), d(st) != NODEP), z3.And(at >= LEN(Z), at < LEN(T), TNAME(T, at) == d(st)))),
            ("dependencies come later", z3.Implies(z3.And(new, y >= 0, y < NDEP(TSTEP(T, i)), d(TSTEP(T, i)) != NODEP), z3.And(nx > i, nx < LEN(T), TNAME(T, nx) == d(TSTEP(T, i)))))]


def tree_facts(run):
    z, s, x, i, y, w = z3.Const("t!z", OPQ), z3.Const("t!s", OPQ), z3.Const("t!x", N), z3.Int("t!i"), z3.Int("t!y"), z3.Const("t!w", OPQ)
    a = APP(z, s, x)
    run.fact(z3.ForAll([z], LEN(z) >= 0, patterns=[LEN(z)]))
    run.fact(z3.ForAll([z, s, x], z3.And(LEN(a) == LEN(z) + 1, TSTEP(a, LEN(z)) == s, TNAME(a, LEN(z)) == x), patterns=[a]))
    for f in (TSTEP, TNAME):
        run.fact(z3.ForAll([z, s, x, i], z3.Implies(z3.And(i >= 0, i < LEN(z)), f(a, i) == f(z, i)), patterns=[f(a, i)]))
    run.fact(LEN(EMPTY) == 0)
    run.fact(ND >= 0)
    # any collection of observables that contains what is requested and what its steps take
    run.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ND), NEED(DN(i))), patterns=[DN(i)]))
    run.fact(z3.ForAll([x, y], z3.Implies(z3.And(NEED(x), x != NODEP, REG(x), y >= 0, y < NDEP(OWN(x))), NEED(DEP(OWN(x), y))), patterns=[DEP(OWN(x), y)]))
    run.fact(z3.ForAll([x], z3.Implies(z3.And(ALLREG, NEED(x), x != NODEP), REG(x)), patterns=[NEED(x)]))


def _fetch(it, d, key):
    if not isinstance(d, P.MDict):
        raise P.Unsupported("entry %r" % (d,))
    return it.getitem(d, key)


def deduce_contracts(s):
    con = dict(X.contracts())
    cls = comp().ComponentSim

    def append(it, a, k):
        t, e = a
        z = it.getattr(t, "z").z
        plugin, name = _fetch(it, e, "plugin"), _fetch(it, e, "provides")
        if not isinstance(plugin, P.SObj) or plugin.model is not STEP:
            raise P.Unsupported("entry for %r" % (plugin,))
        it.setattr(t, "z", P.SOpq(APP(z, plugin.z, it.run.name(name)), "tree"))

    def rec(it, a, k):
        if not it.state["in"]:
            it.state["in"] = True
            return P._MISSING
        b = bind(cls.dependencies_deduce, a, k)
        names, t = b["data_names"], b["dependencies"]
        if not isinstance(names, P.SObj) or names.model is not NAMES or names.info["of"] != "depends_on" or not isinstance(t, P.Inst):
            raise P.Unsupported("recursion with %r, %r" % (names, t))
        st, z, nd = names.info["step"], it.getattr(t, "z").z, it.run.name(b["nodep_data_name"])
        it.state["calls"].append((list(it.run.facts) + list(it.run.pc), st, nd))
        it.run.fact(z3.Implies(FAILS(z, st, nd), z3.Not(ALLREG)))
        if it.run.truth(FAILS(z, st, nd)):
            raise P.PyRaise(P.Exc(ValueError, ("Can not find dependency",)))
        T = EXT(z, st, nd)
        it.setattr(t, "z", P.SOpq(T, "tree"))
        return t
    con[Tree.append] = append
    con[cls.dependencies_deduce] = rec
    return con


def _deduce(given):
    def run(env):
        def body(it):
            it.state = s = {"calls": [], "in": True}
            facts(it)
            tree_facts(it.run)
            if not given:
                it.run.empty_list = lambda: tree(it, EMPTY)
            reg = it.run.cell(P.MDict(base=P.SymBase(lambda k: REG(k), lambda k: P.SObj(STEP, OWN(k.z)))))
            inst = instance(it, _plugin_class_registry=reg)
            names = P.SObj(NAMES, None, seq=P.SSeq(ND, lambda j: P.SStr(DN(smt.num(j)))), of="requested", step=EMPTY)
            kw = dict(nodep_data_name=P.SStr(NODEP))
            if given:
                kw["dependencies"] = tree(it, T0)
            fn = comp().ComponentSim.dependencies_deduce
            r = it.call_function(fn, [inst, names], kw)
            s["T"] = it.getattr(r, "z").z if isinstance(r, P.Inst) else None
            if given:
                s["same"] = it.getattr(kw["dependencies"], "z").z if s["T"] is not None else None
        con = deduce_contracts(None)
        Z = T0 if given else EMPTY
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s list, path %d]" % ("given" if given else "no", n)
            s = p.state
            hy = p.hyps + list(p.run.facts)
            j, y, i = z3.Ints("j y i")
            for h, st, nd in s["calls"]:
                env.prove("recursion for the inputs of the step of a requested observable" + tag, z3.Exists([j], z3.And(j >= 0, j < ND, DN(j) != NODEP, REG(DN(j)), OWN(DN(j)) == st, nd == NODEP)), h)
            if p.kind == "raise":
                env.check("refused as ValueError" + tag, p.value.cls is ValueError, repr(p.value))
                env.prove("refused only if something needed is not provided" + tag, z3.Not(ALLREG), hy)
                continue
            if s["T"] is None:
                raise P.Unsupported("result")
            _induction(env, p, Z, s["T"], tag)
    return run


def _induction(env, p, Z, T, tag):
    recs = {id(x): x for x in p.run.recurrences.values() if isinstance(x["init"], P.SOpq)}.values()
    loops = []
    cur = T
    while not z3.eq(z3.simplify(cur), Z):
        r = [x for x in recs if z3.eq(z3.simplify(x["at"](x["limit"]).z), z3.simplify(cur))]
        if len(r) != 1 or len(loops) == 2:
            raise P.Unsupported("list of dependencies is not built in two loops")
        loops.insert(0, r[0])
        cur = r[0]["init"].z
    if len(loops) != 2:
        raise P.Unsupported("list of dependencies is not built in two loops")
    if any(not z3.eq(z3.simplify(smt.num(x["limit"])), ND) for x in loops):
        raise P.Unsupported("the loops do not run over all requested observables")
    one, two = loops
    X1, X2 = (lambda i: one["at"](i).z), (lambda i: two["at"](i).z)
    i, k, j, y, m = z3.Ints("i k j y m")
    hy = p.hyps + list(p.run.facts)

    def q(vs, z, *pat):
        return z3.ForAll(vs, z, patterns=list(pat)) if pat else z3.ForAll(vs, z)

    def keeps(A, T):
        return [z3.And(LEN(T) >= LEN(A)), q([k], z3.Implies(z3.And(k >= 0, k < LEN(A)), z3.And(TSTEP(T, k) == TSTEP(A, k), TNAME(T, k) == TNAME(A, k))), TNAME(T, k), TSTEP(T, k))]
    W0, W1, W2, W3 = z3.Function("w0", I, I), z3.Function("w1", I, I), z3.Function("w2", I, I, I), z3.Function("w3", I, I, I)

    def inv1(i, T, ex):
        return dict(zip(["length", "earlier entries stay", "entries are needed steps", "entries were requested", "requested so far"],
                        keeps(Z, T) + [q([k], z3.Implies(z3.And(k >= LEN(Z), k < LEN(T)), z3.And(new_entry(T, k))), TNAME(T, k)),
                                       ex([k], lambda k: z3.And(k >= LEN(Z), k < LEN(T)), lambda w: z3.And(w >= 0, w < i, DN(w) == TNAME(T, k)), W0, TNAME(T, k)),
                                       ex([j], lambda j: z3.And(j >= 0, j < i, DN(j) != NODEP), lambda w: z3.And(w >= LEN(Z), w < LEN(T), TNAME(T, w) == DN(j)), W1, DN(j))]))

    def exq(vs, cond, concl, W, pat):
        w = z3.Int("w")
        return z3.ForAll(vs, z3.Implies(cond(*vs), z3.Exists([w], concl(w))))

    def sko(vs, cond, concl, W, pat):
        return z3.ForAll(vs, z3.Implies(cond(*vs), concl(W(*vs))), patterns=[pat])
    A = X1(one["limit"])

    def inv2(i, T, ex):
        nw = lambda k: z3.And(k >= LEN(A), k < LEN(T))      # noqa: E731
        dep = lambda s: DEP(s, y)       # noqa: E731
        return dict(zip(["length", "earlier entries stay", "entries are needed steps", "inputs of the requested so far", "dependencies come later"],
                        keeps(A, T) + [q([k], z3.Implies(nw(k), new_entry(T, k)), TNAME(T, k)),
                                       ex([j, y], lambda j, y: z3.And(j >= 0, j < i, DN(j) != NODEP, y >= 0, y < NDEP(OWN(DN(j))), dep(OWN(DN(j))) != NODEP),
                                          lambda w: z3.And(nw(w), TNAME(T, w) == dep(OWN(DN(j)))), W2, dep(OWN(DN(j)))),
                                       ex([k, y], lambda k, y: z3.And(nw(k), y >= 0, y < NDEP(TSTEP(T, k)), dep(TSTEP(T, k)) != NODEP),
                                          lambda w: z3.And(w > k, w < LEN(T), TNAME(T, w) == dep(TSTEP(T, k))), W3, dep(TSTEP(T, k)))]))
    rng = [i >= 0, i < ND]

    def induct(what, inv, x, rec, extra):
        for nm, goal in inv(z3.IntVal(0), x(z3.IntVal(0)), exq).items():
            env.prove("%s, before: %s%s" % (what, nm, tag), goal, hy + extra)
        ih = list(inv(i, x(i), sko).values())
        step = rec["step"](i).z
        # what the call guarantees, for each of its occurrences in the step
        more = []
        for e in _calls(step):
            z, st, nd = e.children()
            for _, f in deduced(z, st, e, k, y):
                more.append(z3.ForAll([k, y], z3.Implies(nd == NODEP, f)))
        nxt = x(i + 1)
        for nm, goal in inv(i + 1, nxt, exq).items():
            env.prove("%s, kept: %s%s" % (what, nm, tag), goal, hy + extra + ih + more + rng + [nxt == step])
    induct("first pass", inv1, X1, one, [])
    done1 = list(inv1(ND, A, sko).values())
    induct("second pass", inv2, X2, two, done1)
    T2 = X2(two["limit"])
    done = hy + done1 + list(inv2(ND, T2, sko).values())
    new = z3.And(k >= LEN(Z), k < LEN(T))
    w = z3.Int("w")
    env.prove("earlier entries stay" + tag, z3.And(LEN(T) >= LEN(Z), z3.Implies(z3.And(k >= 0, k < LEN(Z)), z3.And(TSTEP(T, k) == TSTEP(Z, k), TNAME(T, k) == TNAME(Z, k)))), done)
    env.prove("entries are needed steps" + tag, new_entry(T, k), done + [new])
    env.prove("what was asked for is in" + tag, z3.Exists([w], z3.And(w >= LEN(Z), w < LEN(T), TNAME(T, w) == DN(j))), done + rng + [j >= 0, j < ND, DN(j) != NODEP])
    env.prove("dependencies come later" + tag, z3.Exists([w], z3.And(w > k, w < LEN(T), TNAME(T, w) == DEP(TSTEP(T, k), y))),
              done + [new, y >= 0, y < NDEP(TSTEP(T, k)), DEP(TSTEP(T, k), y) != NODEP])


def _calls(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(EXT):
                out.append(x)
            st.extend(x.children())
    return out


# ----------------------------------------------------------------- deduce
NREQ, REQN = z3.Int("number_of_observables"), z3.Function("observable", I, N)


def _workflow(kind):
    def run(env):
        cls = comp().ComponentSim
        token = P.SOpq(z3.Const("deduced_dependencies", OPQ), "dependencies")

        def body(it):
            it.state = s = dict(calls=[])
            it.run.fact(NREQ >= 0)
            j, k = z3.Int("f!j"), z3.Int("f!k")
            it.run.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < NREQ), REQN(j) != REQN(k))))
            inst = instance(it, force_no_eff=False)
            given = P.SSeq(NREQ, lambda j: P.SStr(REQN(smt.num(j))))
            given = it.run.cell(P.MList.of_seq(given)) if kind[0] == "list" else given
            kw = dict(func_name=P.SStr(z3.Const("func", N)), nodep_data_name=P.SStr(NODEP))
            if kind[1] is not None:
                kw["force_no_eff"] = kind[1]
            it.call(it.getattr(inst, "deduce"), [given], kw)
            s["given"] = it.as_seq(given)
            s["flag"] = it.getattr(inst, "force_no_eff")

        def contract(name):
            fn = getattr(cls, name)

            def c(it, a, k):
                b = bind(fn, a, k)
                if "data_names" in b:
                    b["data_names"] = it.as_seq(b["data_names"])
                it.state["calls"].append((name, b))
                return token if name == "dependencies_deduce" else None
            return c
        con = dict(X.contracts())
        con.update({getattr(cls, f): contract(f) for f in ("dependencies_deduce", "dependencies_simplify", "flush_source_code")})
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s, force_no_eff %s, path %d]" % (kind + (n,))
            env.check("accepted" + tag, p.kind != "raise", repr(p.value))
            if p.kind == "raise":
                continue
            s = p.state
            order = [c for c, _ in s["calls"]]
            ok = order == ["dependencies_deduce", "dependencies_simplify", "flush_source_code"]
            env.check("dependencies are deduced, made a workflow and made code, in this order" + tag, ok, repr(order))
            if not ok:
                continue
            one, two, three = [b for _, b in s["calls"]]
            env.check("a new list of dependencies" + tag, one.get("dependencies") is None or (isinstance(one["dependencies"], P.MList) and one["dependencies"].content == ()), repr(one))
            env.check("the workflow is made of the deduced dependencies" + tag, two["dependencies"] is token, repr(two))
            hy = p.hyps + list(p.run.facts)
            env.prove("same nodep name" + tag, z3.And(p.run.name(one["nodep_data_name"]) == NODEP, p.run.name(three["nodep_data_name"]) == NODEP), hy)
            env.prove("declared function name" + tag, p.run.name(three["func_name"]) == z3.Const("func", N), hy)
            eff = p.run.lit("eff")
            hy = hy + list(p.run.facts)
            t, j = z3.Int("eff_at"), z3.Int("j")
            has = [t >= 0, t < NREQ, REQN(t) == eff]
            none = [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NREQ), REQN(j) != eff))]
            add = 0 if kind[1] else 1
            for what, b in (("deduced", one), ("generated", three)):
                sq = b["data_names"]
                at = lambda j: p.run.name(sq.elem(j))      # noqa: E731
                n = smt.num(sq.n)
                env.prove("number of observables %s%s" % (what, tag), n == NREQ + add, hy + none)
                env.prove("number of observables %s, efficiency asked for%s" % (what, tag), n == NREQ + add - 1, hy + has)
                if add:
                    env.prove("efficiency is last, %s%s" % (what, tag), at(n - 1) == eff, hy + [n >= 1])
                rng = [j >= 0, j < n - add]
                env.prove("observables %s in order%s" % (what, tag), at(j) == REQN(j), hy + none + rng)
                env.prove("observables %s in order without the efficiency%s" % (what, tag), at(j) == z3.If(j < t, REQN(j), REQN(j + 1)), hy + has + rng)
            env.prove("the given list stays" + tag, z3.And(smt.num(s["given"].n) == NREQ, z3.Implies(z3.And(j >= 0, j < NREQ), p.run.name(s["given"].elem(j)) == REQN(j))), hy)
            env.check("the missing efficiency is noted" + tag, s["flag"] is bool(kind[1]), repr(s["flag"]))
    return run


def units():
    c = "appletree/component.py:ComponentSim."
    return [Unit("ComponentSim.dependencies_simplify", [c + "dependencies_simplify"], _simplify)] + [
            Unit("ComponentSim.dependencies_deduce, %s list" % ("given" if g else "no"), [c + "dependencies_deduce"], _deduce(g)) for g in (True, False)] + [
            Unit("ComponentSim.deduce", [c + "deduce"], lambda env: [_workflow((a, b))(env) for a in ("list", "tuple") for b in (None, False, True)])]


# ----------------------------------------------------------------- concrete
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        n = rng.choice([1, 2, 3, 5, 9])
        names, steps = ["batch_size"], []
        for i in range(n):
            prov = ["o%d_%d" % (i, j) for j in range(rng.choice([1, 1, 1, 2, 3]))]
            if i == n - 1 or rng.random() < 0.1 and "eff" not in names:
                prov = [p for p in prov] + ([] if "eff" in names else ["eff"])
            deps = rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3])))
            if rng.random() < 0.4 and len(names) > 1 and names[-1] not in deps:
                deps.append(names[-1])
            steps.append(dict(name="Step%d" % rng.randint(100 * i, 100 * i + 99), provides=prov, depends_on=deps,
                              parameters=["p%d" % rng.randint(0, 6) for _ in range(rng.choice([0, 1, 2]))],
                              required=[rng.choice([None, "m%d" % rng.randint(0, 4)]) for _ in range(rng.choice([0, 0, 1, 2]))]))
            names += prov
        # a step registered later may replace some observables of an earlier step
        order = None
        if n > 1 and rng.random() < 0.3:
            i = rng.randrange(n - 1)
            take = rng.sample(steps[i]["provides"], rng.randint(1, len(steps[i]["provides"])))
            before = ["batch_size"] + [x for s in steps[:i] for x in s["provides"]]
            steps.append(dict(name="Step%d" % (100 * n + 7), provides=take, depends_on=rng.sample(before, min(len(before), rng.choice([1, 2]))),
                              parameters=["p%d" % rng.randint(0, 6)], required=[None]))
            order = i
        reg = list(range(n))
        rng.shuffle(reg)
        if order is not None:
            reg.append(n)
        missing = order is None and rng.random() < 0.15
        obs = rng.sample([x for x in names if x != "batch_size"], rng.randint(1, min(3, len(names) - 1)))
        if rng.random() < 0.1:
            obs.insert(rng.randint(0, len(obs)), "batch_size")
        yield dict(steps=steps, register=reg, obs=obs, noeff=rng.random() < 0.5, missing=rng.choice([s["provides"][0] for s in steps] + ["nobody"]) if missing else None,
                   rate=rng.choice(["", "x_rate"]), twice=rng.random() < 0.3, kind=rng.choice(["list", "tuple"]), how=rng.choice(["single", "list", "tuple"]))


class _Item:
    def __init__(self, name, req):
        self.name, self.default, self.help, self.req = name, 1.0, "", req

    def required_parameter(self, llh_name=None):
        if llh_name != "vc_c14":
            raise AssertionError("asked for likelihood %r" % llh_name)
        return self.req

    def build(self, llh_name=None):
        pass


def make_steps(c):
    from appletree.plugin import Plugin
    return [type(s["name"], (Plugin,), dict(provides=list(s["provides"]), depends_on=list(s["depends_on"]), parameters=tuple(s["parameters"]),
                                            takes_config={"%s_cfg%d" % (s["name"], j): _Item("%s_cfg%d" % (s["name"], j), q) for j, q in enumerate(s["required"])}))
            for s in c["steps"]]


def run_case(c):
    from appletree import share
    saved = dict(share._cached_functions)
    with X.Quiet():
        try:
            share._cached_functions.clear()
            return _case(c)
        finally:
            share._cached_functions.clear()
            dict.update(share._cached_functions, saved)


def _case(c):
    from appletree import share
    classes = make_steps(c)
    o = comp().ComponentSim(name="one", llh_name="vc_c14")
    o.rate_name = c["rate"]
    todo = [classes[i] for i in c["register"] if c["missing"] not in c["steps"][i]["provides"]]
    if c["how"] == "single":
        for x in todo:
            o.register(x)
    else:
        o.register((list if c["how"] == "list" else tuple)(todo))
    by = {p: c["steps"][i] for i in c["register"] if classes[i] in todo for p in c["steps"][i]["provides"]}
    obs = [x for x in c["obs"] if x != "eff"] + ([] if c["noeff"] else ["eff"])
    need, stack, refuse = set(), list(obs), False
    while stack:
        x = stack.pop()
        if x == "batch_size":
            continue
        if x not in by:
            refuse = True
            continue
        if by[x]["name"] not in need:
            need.add(by[x]["name"])
            stack += by[x]["depends_on"]
    asked = (list if c["kind"] == "list" else tuple)(c["obs"])
    for again in range(2 if c["twice"] else 1):
        share._cached_functions.clear()
        try:
            o.deduce(data_names=asked, func_name="vc_sim", force_no_eff=c["noeff"])
        except Exception as e:
            if refuse:
                return None
            return "refused: %r" % e
        if refuse:
            return "accepted although nobody provides something of %s" % obs
        if list(asked) != c["obs"]:
            return "the list of observables that was given became %s" % (asked,)
        names = [w[0] for w in o.worksheet]
        if sorted(names) != sorted(need):
            return "workflow %s, needed steps %s" % (names, sorted(need))
        done = {"batch_size"}
        for name, provides, depends in o.worksheet:
            s = next(s for s in c["steps"] if s["name"] == name)
            if list(provides) != s["provides"] or list(depends) != s["depends_on"]:
                return "%s is given as %s from %s" % (name, provides, depends)
            if not set(depends) <= done:
                return "%s comes before the step that provides %s: %s" % (name, sorted(set(depends) - done), names)
            done |= {x for x in provides if by[x]["name"] == name}
        want = {p for s in c["steps"] if s["name"] in need for p in s["parameters"] + [r for r in s["required"] if r is not None]} | ({c["rate"]} - {""})
        if set(o.needed_parameters) != want:
            return "needed parameters %s, expected %s" % (sorted(map(str, o.needed_parameters)), sorted(want))
    return None
