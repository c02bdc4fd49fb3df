"""C27: weighted simulated data keeps observables, weights and region aligned."""
import itertools
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from vc.util import repo_fn
from checks import c16 as C
from checks import context_common as X
from checks import like_common as L

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["min and max of an array of bin edges are its lowest and highest edge; hstack joins arrays in order (assumed contracts)",
               "simulated numbers are finite; the efficiency is the last simulated output (C15)", "the histogram functions by their contract (C01)"]
LOW, HIGH = z3.Function("lowest_edge", I, R), z3.Function("highest_edge", I, R)
OBS, EFF, DATA, PAR, RATE, NEV, BATCH, NAMES = C.OBS, C.EFF, C.DATA, C.PAR, C.RATE, C.NEV, C.BATCH, C.NAMES


class Edges:
    """the bin edges of one observable"""
    array = True

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name in ("min", "max"):
            return P.Contract(lambda it, a, k: self.extremum(o, name), name)
        return P._MISSING

    def extremum(self, o, name):
        return P.SNum((LOW if name == "min" else HIGH)(z3.IntVal(o.info["k"])))


EDGES = Edges()


def contracts(d):
    con = C.contracts(d)
    for np_ in (np, __import__("jax.numpy", fromlist=["x"])):
        for name, fs in (("min", ("min", "amin")), ("max", ("max", "amax"))):
            for f in fs:
                f = getattr(np_, f, None)
                if f is None:
                    continue
                old = con.get(f)

                def c(it, a, k, name=name, old=old, f=f):
                    if len(a) == 1 and not k and isinstance(a[0], P.SObj) and a[0].model is EDGES:
                        return EDGES.extremum(a[0], name)
                    if old is not None:
                        return old(it, a, k)
                    return it.models[f](it, *a, **k)
                con[f] = c
    return con


def edges(it, d):
    return it.run.cell(P.MList([P.SObj(EDGES, z3.Const("edges_%d" % k, OPQ), k=k) for k in range(d)]))


def selection(it, d, obs):
    """the events strictly inside of the outermost edges of every observable: (how many, their positions)"""
    inside = lambda j: P.SBool(z3.And(*[z3.And(obs(k, smt.num(j)) > LOW(k), obs(k, smt.num(j)) < HIGH(k)) for k in range(d)]))       # noqa: E731
    sel = it.mask_select(P.SArr(NEV, lambda j: P.SNum(smt.num(j))), P.SArr(NEV, inside))
    return sel.n, lambda j: P.anum(sel.elem(smt.num(j))).z


def check_data(env, tag, p, d, obs, eff, norm, res, total, count):
    """res: d observables and the weights of the selected events"""
    s = p.state
    n, pos = s["selection"]
    rows = res if isinstance(res, (list, tuple)) else res.concrete() if isinstance(res, P.MList) else None
    env.check("observables and weights are returned" + tag, rows is not None and len(rows) == d + 1, repr(res))
    if rows is None or len(rows) != d + 1:
        return
    j = z3.Int("j")
    for k, r in enumerate(rows):
        what = "observable %d" % k if k < d else "weight"
        ok = isinstance(r, P.SArr) or nd.is_nd(r) and len(r.info["shape"]) == 1
        env.check("%s per event%s" % (what, tag), ok, repr(r))
        if not ok:
            return
        r = nd.lift(r)
        e = P.anum(r.info["elem"](j))
        hy = p.hyps + list(p.run.facts) + [j >= 0, j < n]
        env.prove("%s of exactly the events inside%s" % (what, tag), smt.num(r.info["shape"][0]) == n, hy[:-2])
        if k < d:
            env.prove("%s of the event%s" % (what, tag), z3.And(e.finite, e.z == obs(k, pos(j))), hy)
        elif norm == "on_pdf":
            t = P.anum(total)
            env.prove("weight is the efficiency times rate over total content" + tag, z3.And(e.finite, e.z * t.z == eff(pos(j)) * PAR(RATE)), hy + [t.z > 0])
        else:
            env.prove("weight is the efficiency times rate over the number of events" + tag, z3.And(e.finite, e.z * z3.ToReal(count) == eff(pos(j)) * PAR(RATE)), hy)


def _floor(it, d, eps, eff, n):
    h = C.hist(it, d)
    if not eps:
        return h
    floor = it.binop(P.ast.Add(), 1e-10, nd.f_mean(it, [nd.arr([n], eff)], {}))
    return nd.elementwise(it, lambda x: nd._merge(it, it.zb(it.truthz(it.compare1(P.ast.Lt(), x, floor))), floor, x), h)


def _sim(d, btype):
    def run(env):
        for norm, eps in itertools.product(("on_pdf", "on_sim"), (True, False)):
            def body(it):
                it.state = s = dict(hists=[], asked=[])
                C.base_facts(it, d)
                inst = C.instance(it, "sim", d, bins=edges(it, d), bins_type=btype, norm_type=norm, add_eps_to_hist=eps, force_no_eff=False)
                key, key2, pars = P.SOpq(z3.Const("key", OPQ)), P.SOpq(z3.Const("key2", OPQ)), C.parameters(it)

                def sim(it, a, k):
                    s["asked"].append(list(a) + list(k.values()))
                    out = [P.SArr(NEV, lambda j, q=q: P.SNum(OBS(q, smt.num(j)))) for q in range(d)]
                    return (key2, it.run.cell(P.MList(out + [P.SArr(NEV, lambda j: P.SNum(EFF(smt.num(j))))])))
                it.setattr(inst, "simulate", P.Contract(sim, "simulate"))
                r = it.call(it.getattr(inst, "simulate_weighted_data"), [key, P.SNum(BATCH), pars])
                s["given"] = (key, pars)
                s["ok"] = isinstance(r, tuple) and len(r) == 2
                s["r"] = r
                s["selection"] = selection(it, d, OBS)
                n, pos = s["selection"]
                it.run.fact(n >= 1)
                if norm == "on_pdf":
                    s["total"] = nd.f_sum(it, [_floor(it, d, eps, lambda j: P.SNum(EFF(pos(j))), n)], {})
            tag0 = " [%d observables, %s, %s%s" % (d, btype, norm, ", floor" if eps else "")
            for n, p in enumerate(P.explore(env, body, contracts(d))):
                tag = "%s, path %d]" % (tag0, n)
                s = p.state
                env.check("data are returned" + tag, p.kind != "raise" and s["ok"], repr(p.value))
                if p.kind == "raise" or not s["ok"]:
                    continue
                a = s["asked"]
                env.check("one simulation with the given key, size and parameters" + tag, len(a) == 1 and len(a[0]) == 3 and a[0][0] is s["given"][0] and a[0][2] is s["given"][1]
                          and isinstance(a[0][1], P.SNum) and z3.eq(a[0][1].z, BATCH), repr(a))
                key, res = s["r"]
                env.check("the key of the simulation is handed on" + tag, isinstance(key, P.SOpq) and z3.eq(key.z, z3.Const("key2", OPQ)), repr(key))
                check_data(env, tag, p, d, OBS, EFF, norm, res, s.get("total"), BATCH)
                # the normalisation is that of the selected events
                m, pos = s["selection"]
                check_hist(env, tag, p, btype, d, lambda k, j: OBS(k, pos(j)), lambda j: EFF(pos(j)), m)
    return run


def check_hist(env, tag, p, btype, d, sample, eff, count):
    calls = p.state["hists"]
    want = "mesh" if btype == "meshgrid" else "irreg%d" % d
    env.check("one histogram of the binning" + tag, len(calls) == 1 and calls[0][0] == want, repr([c[0] for c in calls]))
    if len(calls) != 1 or calls[0][0] != want:
        return
    b = calls[0][1]
    hy = p.hyps + list(p.run.facts)
    n = z3.Int("n")
    s, w = nd.lift(b["sample"]), nd.lift(b["weights"])
    one = want == "irreg1"
    ok = len(s.info["shape"]) == (1 if one else 2) and (one or nd._same(s.info["shape"][1], d)) and len(w.info["shape"]) == 1
    env.check("one row per event, one column per observable" + tag, ok, repr(s.info))
    if not ok:
        return
    env.prove("a row and a weight per selected event" + tag, z3.And(smt.num(s.info["shape"][0]) == count, smt.num(w.info["shape"][0]) == count), hy)
    hy = hy + [n >= 0, n < count]
    for k in range(d):
        e = P.anum(s.info["elem"](*([n] if one else [n, z3.IntVal(k)])))
        env.prove("observable %d in its place%s" % (k, tag), z3.And(e.finite, e.z == sample(k, n)), hy)
    e = P.anum(w.info["elem"](n))
    env.prove("weights are the efficiencies" + tag, z3.And(e.finite, P.zreal(e.z) == eff(n)), hy)


def _fixed(d, btype):
    def run(env):
        one = lambda j: P.SNum(z3.RealVal(1))       # noqa: E731
        data = lambda k, j: DATA(NAMES[k], j)       # noqa: E731
        for norm, eps in itertools.product(("on_pdf", "on_sim"), (True, False)):
            con = contracts(d)
            con[repo_fn("appletree.utils", "load_data")] = lambda it, a, k: P.SObj(C.FRAME, None)

            def body(it):
                it.state = s = dict(hists=[])
                C.base_facts(it, d)
                inst = C.instance(it, "fixed", d, bins=edges(it, d), bins_type=btype, norm_type=norm, add_eps_to_hist=eps)
                it.call(it.getattr(inst, "deduce"), [], dict(data_names=it.run.cell(P.MList([P.SStr(z) for z in NAMES[:d]]))))
                s["r"] = it.call(it.getattr(inst, "simulate_weighted_data"), [C.parameters(it)])
                s["r2"] = it.call(it.getattr(inst, "simulate_weighted_data"), [C.parameters(it)])
                s["selection"] = selection(it, d, data)
                if norm == "on_pdf":
                    s["total"] = nd.f_sum(it, [_floor(it, d, eps, one, NEV)], {})
            tag0 = " [%d columns, %s, %s%s" % (d, btype, norm, ", floor" if eps else "")
            for n, p in enumerate(P.explore(env, body, con)):
                tag = "%s, path %d]" % (tag0, n)
                s = p.state
                env.check("data are returned" + tag, p.kind != "raise", repr(p.value))
                if p.kind == "raise":
                    continue
                for r, again in ((s["r"], ""), (s["r2"], ", again")):
                    check_data(env, again + tag, p, d, data, lambda j: z3.RealVal(1), norm, r, s.get("total"), NEV)
                check_hist(env, tag, p, btype, d, data, lambda j: z3.RealVal(1), NEV)
    return run


# ------------------------------------------------------------ several components
W = z3.Function("weighted_data", N, OPQ, OPQ)
WF = z3.Function("weighted_fixed_data", N, OPQ)


class Data:
    """the weighted data of a component, and data joined from several"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        return P._MISSING

    def iterate(self, it, o):
        if "rows" in o.info:
            return "c", [P.SObj(ROW, None, row=k, of=o) for k in range(o.info["rows"])]
        raise P.Unsupported("iteration over weighted data")

    def subst(self, o, pairs):
        return P.SObj(DATA_, z3.substitute(o.z, *pairs)) if o.z is not None else o

    def parts(self, o):
        return (o.z,) if o.z is not None else ()


class Row(Data):
    def iterate(self, it, o):
        raise P.Unsupported("iteration over an observable")


DATA_, ROW = Data(), Row()


def _weighted(s):
    def f(it, o, a, k):
        sim, b = s["model"].call_args(it, o, a, k)
        L.params_ok(it, s, b["parameters"], "simulate_weighted_data")
        if sim:
            return (P.SOpq(L.NEXT(o.z, b["key"].z), "key"), P.SObj(DATA_, W(o.z, b["key"].z)))
        return P.SObj(DATA_, WF(o.z))
    return f


def _likelihood(ncomp):
    def run(env):
        rows = 3
        con = dict(L.contracts())

        def join(it, a, k):
            if len(a) != 1 or k:
                raise P.Unsupported("arguments of hstack")
            it.state["joined"].append(a[0])
            return P.SObj(DATA_, None, rows=rows)
        con[np.hstack] = join

        def body(it):
            it.state = s = dict(joined=[])
            L.instance(it, s, ncomp)
            s["weighted"], s["batch"] = _weighted(s), L.BATCH
            pars = L.parameters(it)
            s["r"] = it.call(it.getattr(s["inst"], "simulate_weighted_data"), [P.SOpq(L.KEY0, "key"), P.SNum(L.BATCH), pars])
            if ncomp is None:
                s["seq"] = it.keyseq(s["components"])
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s components, path %d]" % ("any number of" if ncomp is None else ncomp, n)
            s = p.state
            s["obl"].prove(env, p, tag)
            r = s.get("r")
            env.check("a key and data are returned" + tag, p.kind != "raise" and isinstance(r, tuple) and len(r) == 2, repr(p.value))
            if p.kind == "raise" or not isinstance(r, tuple):
                continue
            res = r[1]
            res = res if isinstance(res, (list, tuple)) else res.concrete() if isinstance(res, P.MList) else None
            env.check("the joined observables in order" + tag, res is not None and len(res) == rows and all(isinstance(x, P.SObj) and x.model is ROW and x.info["row"] == k for k, x in enumerate(res)), repr(r[1]))
            env.check("joined once" + tag, len(s["joined"]) == 1, repr(s["joined"]))
            if len(s["joined"]) != 1:
                continue
            j = s["joined"][0]
            if ncomp is not None:
                got = j if isinstance(j, (list, tuple)) else j.concrete() if isinstance(j, P.MList) else None
                env.check("one part per component" + tag, got is not None and len(got) == ncomp and all(isinstance(g, P.SObj) and g.model is DATA_ and g.z is not None for g in got), repr(j))
                if got is None or len(got) != ncomp:
                    continue
                k = L.KEY0
                for x, g in zip(s["names"], got):
                    env.prove("data of component %s with the key of its predecessor%s" % (x, tag), g.z == z3.If(L.SIM(x), W(x, k), WF(x)), p.hyps)
                    k = z3.If(L.SIM(x), L.NEXT(x, k), k)
                env.prove("the last key is returned" + tag, r[0].z == k, p.hyps)
                continue
            seq, name = s["seq"], lambda i: s["seq"].elem(i).z
            recs = [x for x in p.run.recurrences.values() if isinstance(x["init"], P.SOpq)]
            if len(recs) != 1 or not isinstance(j, P.MList) or len(j.content) != 1 or j.content[0][0] != "s":
                raise P.Unsupported("no single threaded key or no single sequence of parts")
            rec, part = recs[0], j.content[0][1]
            i, nn = env.int("i"), smt.num(seq.n)
            K = lambda t: rec["at"](smt.num(t)).z       # noqa: E731
            env.prove("one part per component" + tag, smt.num(part.n) == nn, p.hyps)
            env.prove("the first component gets the given key" + tag, rec["init"].z == L.KEY0, p.hyps, kind="loop-init")
            env.prove("each simulated component gets the key its predecessor returned" + tag, rec["step"](i).z == z3.If(L.SIM(name(i)), L.NEXT(name(i), K(i)), K(i)), p.hyps + [i >= 0, i < nn], kind="loop-step")
            env.prove("the last key is returned" + tag, r[0].z == K(nn), p.hyps)
            g = part.elem(i)
            env.check("the parts are the data of components" + tag, isinstance(g, P.SObj) and g.model is DATA_ and g.z is not None, repr(g))
            env.prove("data of the components in their order" + tag, g.z == z3.If(L.SIM(name(i)), W(name(i), K(i)), WF(name(i))), p.hyps + [i >= 0, i < nn])
    return run


# ------------------------------------------------------------ repeated simulations
SO = z3.Function("simulated", I, OPQ, I, R)
CNT = z3.Function("simulated_events", OPQ, I)
NXT = z3.Function("key_after", OPQ, OPQ)
TIMES = z3.Int("times")
KEY = z3.Const("key", OPQ)


class Joined(Data):
    def getattr(self, it, o, name):
        return P._MISSING


JOINED = Joined()


def _repeated(d, eff, times, noeff=False):
    def run(env):
        con = contracts(d)

        def join(it, a, k):
            if len(a) != 1 or k:
                raise P.Unsupported("arguments of hstack")
            return P.SObj(JOINED, None, parts=a[0])
        con[np.hstack] = con[np.concatenate] = join

        def body(it):
            it.state = s = dict(asked=[])
            C.base_facts(it, d)
            k0 = z3.Const("k!0", OPQ)
            it.run.fact(z3.ForAll([k0], CNT(k0) >= 0, patterns=[CNT(k0)]))
            inst = C.instance(it, "sim", d, force_no_eff=noeff)
            pars = C.parameters(it)

            def sim(it, a, k):
                b = bind(["key", "batch_size", "parameters"], a, k)
                s["asked"].append((b["parameters"] is pars, isinstance(b["batch_size"], P.SNum) and z3.eq(b["batch_size"].z, BATCH)))
                z = b["key"].z
                return (P.SOpq(NXT(z), "key"), it.run.cell(P.MList([P.SArr(CNT(z), lambda j, q=q: P.SNum(SO(q, z, smt.num(j)))) for q in range(d + 1)])))
            it.setattr(inst, "simulate", P.Contract(sim, "simulate"))
            if times is None:
                it.run.fact(TIMES >= 1)
            s["r"] = it.call(it.getattr(inst, "multiple_simulations"), [P.SOpq(KEY, "key"), P.SNum(BATCH), pars, P.SNum(TIMES) if times is None else times], {} if eff is None else dict(apply_eff=eff))
            s["parts"] = lambda key: kept(it, key, d, eff)
            if times is not None and times > 0:
                z, s["want"] = KEY, []
                for _ in range(times):
                    s["want"].append(kept(it, z, d, eff))
                    z = NXT(z)
                s["last"] = z
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%d observables, %s times%s, path %d]" % (d, "any" if times is None else times, {True: ", only positive efficiency", False: "", None: ", by default"}[eff], n)
            s = p.state
            if times == 0 or noeff and eff:
                env.check("refused" + tag, p.kind == "raise", repr(p.value))
                continue
            r = s.get("r")
            env.check("a key and data are returned" + tag, p.kind != "raise" and isinstance(r, tuple) and len(r) == 2, repr(p.value))
            if p.kind == "raise" or not isinstance(r, tuple):
                continue
            env.check("simulated with the given size and parameters" + tag, s["asked"] and all(all(x) for x in s["asked"]), repr(s["asked"]))
            rows = r[1] if isinstance(r[1], (list, tuple)) else r[1].concrete() if isinstance(r[1], P.MList) else None
            ok = rows is not None and len(rows) == d + 1 and all(isinstance(x, P.SObj) and x.model is JOINED for x in rows)
            env.check("one joined array per output" + tag, ok, repr(r[1]))
            if not ok:
                continue
            if times is None:
                _any_times(env, tag, p, rows, r[0], d, eff)
                continue
            hy = p.hyps + list(p.run.facts)
            j = z3.Int("j")
            env.prove("the last key is returned" + tag, r[0].z == s["last"], hy)
            for q, x in enumerate(rows):
                parts = x.info["parts"]
                parts = parts if isinstance(parts, (list, tuple)) else parts.concrete() if isinstance(parts, P.MList) else None
                env.check("output %d: one part per repetition%s" % (q, tag), parts is not None and len(parts) == times, repr(x.info["parts"]))
                if parts is None or len(parts) != times:
                    continue
                for t, (g, (cnt, at, z)) in enumerate(zip(parts, s["want"])):
                    g = nd.lift(g)
                    e = P.anum(g.info["elem"](j))
                    env.prove("output %d, repetition %d: as many events%s" % (q, t, tag), smt.num(g.info["shape"][0]) == cnt, hy)
                    env.prove("output %d, repetition %d: the simulated events in order%s" % (q, t, tag), z3.And(e.finite, e.z == SO(q, z, at(j))), hy + [j >= 0, j < cnt])
    return run


def _any_times(env, tag, p, rows, last, d, eff):
    """the parts are the simulations with the keys K(0) = key, K(i+1) = key_after(K(i)), for any number of repetitions"""
    recs = [x for x in p.run.recurrences.values() if isinstance(x["init"], P.SOpq)]
    if len(recs) != 1:
        raise P.Unsupported("no single threaded key")
    rec, i, j, m = recs[0], env.int("i"), env.int("j"), env.int("m")
    K = lambda t: rec["at"](smt.num(t)).z       # noqa: E731
    hy = p.hyps + list(p.run.facts) + [i >= 0, i < TIMES]
    env.prove("the first simulation gets the given key" + tag, rec["init"].z == KEY, p.hyps, kind="loop-init")
    env.prove("each simulation gets the key its predecessor returned" + tag, rec["step"](i).z == NXT(K(i)), hy, kind="loop-step")
    env.prove("the last key is returned" + tag, last.z == K(TIMES), p.hyps)
    first = None
    for q, x in enumerate(rows):
        x = x.info["parts"]
        if not isinstance(x, P.MList) or len(x.content) != 1 or x.content[0][0] != "s":
            raise P.Unsupported("no single sequence of parts")
        part = x.content[0][1]
        g = nd.lift(part.elem(i))
        cnt, e = smt.num(g.info["shape"][0]), P.anum(g.info["elem"](j))
        env.prove("output %d: one part per repetition%s" % (q, tag), smt.num(part.n) == TIMES, p.hyps)
        if not eff:
            env.prove("output %d: as many events%s" % (q, tag), cnt == CNT(K(i)), hy)
            env.prove("output %d: the simulated events in order%s" % (q, tag), z3.And(e.finite, e.z == SO(q, K(i), j)), hy + [j >= 0, j < cnt])
            continue
        ez = z3.simplify(e.z)
        ok = z3.is_app(ez) and ez.decl().eq(SO)
        env.check("output %d: numbers of the simulation%s" % (q, tag), ok, str(ez)[:200])
        if not ok:
            continue
        at = lambda t, ez=ez: z3.substitute(ez.arg(2), (j, t))      # noqa: E731
        env.prove("output %d: events of its own simulation%s" % (q, tag), z3.And(e.finite, ez == SO(q, K(i), at(j)), at(j) >= 0, at(j) < CNT(K(i))), hy + [j >= 0, j < cnt])
        if first is None:
            first = (cnt, at)
            pos = lambda t: SO(d, K(i), t) > 0      # noqa: E731
            env.prove("only events with positive efficiency" + tag, pos(at(j)), hy + [j >= 0, j < cnt])
            env.prove("in order" + tag, at(j) < at(m), hy + [j >= 0, j < m, m < cnt])
            # every event with positive efficiency is kept: its rank among them is a position
            ranks = [z3.substitute(c[2](m), *[(ix, i) for ix in _indices(c[1](m))]) for c in getattr(p.run, "selcache", {}).values()]
            r = [z3.Int("rank_%d" % t) for t in range(len(ranks))]
            env.prove("every event with positive efficiency" + tag, z3.Or(*[z3.And(x >= 0, x < cnt, at(x) == m) for x in r]), hy + [m >= 0, m < CNT(K(i)), pos(m)] + [x == y for x, y in zip(r, ranks)])
        else:
            env.prove("output %d: the same events%s" % (q, tag), z3.And(cnt == first[0], at(j) == first[1](j)), hy + [j >= 0, j < cnt])


def _indices(t):
    """the loop indices a selection depends on"""
    return [a for a in t.children()[:-1]]


def kept(it, z, d, eff):
    """events of the simulation with a key that are kept"""
    if not eff:
        return CNT(z), lambda j: j, z
    sel = it.mask_select(P.SArr(CNT(z), lambda j: P.SNum(smt.num(j))), P.SArr(CNT(z), lambda j: P.SBool(SO(d, z, smt.num(j)) > 0)))
    return sel.n, lambda j: P.anum(sel.elem(smt.num(j))).z, z


KINDS = ((1, "irreg"), (2, "irreg"), (1, "meshgrid"), (2, "meshgrid"))


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    c = "appletree/component.py:"
    common = [c + "Component._clip", c + "Component.implement_binning", c + "Component.get_normalization"]
    out = []
    for d, b in KINDS:
        out += [Unit("ComponentSim.simulate_weighted_data, %d observables, %s" % (d, b), common + [c + "ComponentSim.simulate_weighted_data"], _sim(d, b)),
                Unit("ComponentFixed.simulate_weighted_data, %d observables, %s" % (d, b), common + [c + "ComponentFixed.simulate_weighted_data", c + "ComponentFixed.deduce"], _fixed(d, b))]
    out.append(Unit("Likelihood.simulate_weighted_data", ["appletree/likelihood.py:Likelihood.simulate_weighted_data"], _likelihood(None),
                    fallbacks=[_many(*[_likelihood(k) for k in (0, 1, 2, 3)])], fallback_bounds=["at most three components"]))
    for e in (None, False, True):
        out.append(Unit("multiple_simulations, any number of repetitions%s" % {True: ", only positive efficiency", False: "", None: ", by default"}[e], [c + "Component.multiple_simulations"],
                        _many(_repeated(1, e, None), _repeated(2, e, None))))
    out.append(Unit("multiple_simulations", [c + "Component.multiple_simulations"],
                    _many(*[_repeated(d, e, t) for d in (1, 2) for e in (None, False, True) for t in (0, 1, 2, 3)], _repeated(2, True, 2, True)), bound="at most three repetitions"))
    return out


# ------------------------------------------------------------------- concrete
def cases(rng, tier):
    gen = C.cases(rng, tier)
    k = 0
    while True:
        k += 1
        if k % 3 == 0:
            d = rng.choice([1, 2])
            yield dict(kind="times", d=d, sims=[[[rng.randint(-4, 9) + 0.5 for _ in range(n)] for _ in range(d)] + [[rng.choice([0.0, 0.5, 1.0, -0.25]) for _ in range(n)]] for n in [rng.choice([0, 1, 3, 6]) for _ in range(rng.randint(0, 4))]],
                       eff=rng.choice([None, False, True]), noeff=rng.random() < 0.1, batch=rng.choice([1, 50]))
            continue
        if k % 3 == 1:
            yield dict(kind="many", comps=[(rng.choice(["sim", "fixed"]), [[rng.randint(0, 99) + 0.25 for _ in range(n)] for _ in range(3)]) for n in [rng.choice([0, 1, 4]) for _ in range(rng.randint(1, 4))]], key=rng.randint(0, 99))
            continue
        c = next(gen)
        c["bad"] = None
        yield c


def run_case(c):
    with X.Quiet():
        return dict(times=_times, many=_several).get(c["kind"], _one)(c)


def _aligned(got, want, what):
    if len(got) != len(want):
        return "%s: %d arrays instead of %d" % (what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        g = np.asarray(g, float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=1e-4, atol=1e-9):
            return "%s: array %d is %s instead of %s" % (what, k, g.tolist(), w.tolist())
    return None


def _one(c):
    m = C.comp()
    obs, n = [np.array(o) for o in c["obs"]], len(c["obs"][0])
    fixed = c["kind"] == "fixed"
    eff = np.ones(n) if fixed else np.array(c["eff"])
    inside = np.ones(n, bool)
    for o, b in zip(obs, c["bins"]):
        b = np.array(b)
        inside &= (o > b.min()) & (o < b.max())
    # a value on the outermost edge is outside
    edge = np.array(c["bins"][0]).min()
    obs[0][:1], inside[:1] = edge, False
    if not inside.any():
        return None
    d = None
    try:
        if fixed:
            import pandas as pd
            d = tempfile.mkdtemp(prefix="vc_c27_")
            f = os.path.join(d, "data.csv")
            names = ["cs%d" % (q + 1) for q in range(c["d"])]
            pd.DataFrame(dict(zip(names, obs))).to_csv(f, index=False)
            o = C._make(c, m.ComponentFixed, file_name=f)
            o.deduce(data_names=names)
        else:
            o = C._make(c, m.ComponentSim)
            o.register(__import__("appletree.plugins", fromlist=["x"]).UniformEnergySpectra)
            o.simulate = lambda key, batch_size, parameters: ((key, batch_size), [np.array(v, np.float32) for v in obs] + [np.array(eff, np.float32)])
        sel = [v[inside] for v in obs]
        h = C._counts(c, sel, eff[inside]) if not fixed else C._counts(c, obs, eff)
        if c["btype"] == "meshgrid" and fixed:
            # the first event lies on the lowest edge: counted by the grid
            h = _grid(c, obs, eff)
        if c["eps"]:
            h = np.maximum(h, 1e-10 + (eff.mean() if fixed else eff[inside].mean()))
        if c["norm"] == "on_pdf" and h.sum() <= 0:
            return None
        for rate in c["rates"]:
            pars = {"one_rate": rate, "other_rate": 3.0}
            factor = rate / (h.sum() if c["norm"] == "on_pdf" else n if fixed else c["batch"])
            want = sel + [eff[inside] * factor]
            for _ in range(2):
                if fixed:
                    got = o.simulate_weighted_data(pars)
                else:
                    key, got = o.simulate_weighted_data("key", c["batch"], pars)
                    if key != ("key", c["batch"]):
                        return "key %r returned" % (key,)
                r = _aligned(list(got), want, "weighted data at rate %g" % rate)
                if r:
                    return r
        return None
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def _grid(c, obs, eff):
    return np.histogramdd(np.array(obs).T, bins=[np.array(b) for b in c["bins"]], weights=eff)[0]


def _times(c):
    m = C.comp()
    with X.Quiet():
        o = m.ComponentSim(name="one", llh_name="vc_c27")
    o.force_no_eff = c["noeff"]
    pars, seen = {"a": 1.0}, []

    def simulate(key, batch_size, parameters):
        seen.append((key, batch_size, parameters is pars))
        return key + 1, [np.array(v, np.float32) for v in c["sims"][key - 10]]
    o.simulate = simulate
    times = len(c["sims"])
    kw = {} if c["eff"] is None else dict(apply_eff=c["eff"])
    if times == 0 or c["noeff"] and c["eff"]:
        try:
            o.multiple_simulations(10, c["batch"], pars, times, **kw)
        except Exception:
            return None
        return "accepted %d repetitions%s" % (times, ", efficiency applied although switched off" if times else "")
    key, got = o.multiple_simulations(10, c["batch"], pars, times, **kw)
    if key != 10 + times or seen != [(10 + t, c["batch"], True) for t in range(times)]:
        return "simulated with %r, key %r returned" % (seen, key)
    parts = [np.array(s, float).reshape(c["d"] + 1, -1) for s in c["sims"]]
    if c["eff"]:
        parts = [s[:, s[-1] > 0] for s in parts]
    return _aligned(list(got), list(np.concatenate(parts, axis=1)), "repeated simulations")


def _several(c):
    m = C.comp()
    l = L.make_likelihood([(1.0, 2.0), (3.0, 4.0)])
    seen = []

    def make(kind, k, rows):
        base = m.ComponentSim if kind == "sim" else m.ComponentFixed

        class Stub(base):
            def __init__(self, **kw):
                self.needed_parameters = set()

            def deduce(self, *a, **kw):
                pass

            def compile(self):
                pass

            if kind == "sim":
                def simulate_weighted_data(self, key, batch_size, parameters):
                    seen.append((k, key, batch_size, dict(parameters)))
                    return key + 1, [np.array(r) for r in rows]
            else:
                def simulate_weighted_data(self, parameters, *a, **kw):
                    seen.append((k, None, None, dict(parameters)))
                    return [np.array(r) for r in rows]
        return Stub
    names = ["c%d" % k for k in range(len(c["comps"]))]
    names = names[::-1] if c["key"] % 2 else names
    for k, (kind, rows) in zip(names, c["comps"]):
        l.register_component(make(kind, k, rows), k)
    key, got = l.simulate_weighted_data(c["key"], 7, {"a": 1.0})
    k, want = c["key"], []
    for nm, (kind, rows) in zip(names, c["comps"]):
        want.append((nm, k if kind == "sim" else None, 7 if kind == "sim" else None, {"a": 1.0}))
        k += kind == "sim"
    if seen != want or key != k:
        return "components were asked %r, key %r returned; expected %r and %r" % (seen, key, want, k)
    return _aligned(list(got), list(np.concatenate([np.array(r, float).reshape(3, -1) for _, r in c["comps"]], axis=1)), "data of several components")
