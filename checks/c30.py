"""C30: data selection and binning follow the declared region of interest."""
import itertools
import os
import random
import shutil
import tempfile
import typing

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from vc.util import repo_fn
from checks import c16 as C
from checks import context_common as X
from checks import like_common as L

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["the histogram functions by their contract (C01); GOFevaluation's equal-probability edges are its business, only their clipping is ours (assumed contract)",
               "np.linspace gives equal steps; the data file has finite numbers or NaN in the declared columns (requires)"]
DATA, NEV, NAMES = C.DATA, C.NEV, C.NAMES
DNAN = z3.Function("data_is_nan", N, I, B)
LO, HI = [z3.Real("low_%d" % k) for k in range(2)], [z3.Real("high_%d" % k) for k in range(2)]
NB, MB = [z3.Int("bins_%d" % k) for k in range(2)], z3.Int("rows_of_y_edges")
EX, EY = z3.Function("x_edge", I, R), z3.Function("y_edge", I, I, R)
EY1 = z3.Function("y_edge_of_grid", I, R)
RAW = [z3.Function("raw_x", I, R), z3.Function("raw_y", I, I, R)]
RINF = [z3.Function("raw_x_inf", I, I), z3.Function("raw_y_inf", I, I, I)]
HIST = z3.Const("histogram", OPQ)


def mod():
    return __import__("appletree.likelihood", fromlist=["x"])


class Frame(C.Frame):
    def getattr(self, it, o, name):
        cols = o.info.get("cols")
        if name in ("to_numpy", "values") and cols is not None:
            v = nd.arr([NEV, len(cols)], lambda n, k: value(cols, n, k))
            return P.Contract(lambda it, a, k: v, name) if name == "to_numpy" else v
        return P._MISSING

    def getitem(self, it, o, k):
        if isinstance(k, P.MList) and k.concrete() is not None and all(isinstance(x, P.SStr) for x in k.concrete()):
            return P.SObj(FRAME, None, cols=[x.z for x in k.concrete()])
        raise P.Unsupported("column %r" % (k,))


FRAME = Frame()


def value(cols, n, k):
    k = z3.simplify(smt.num(k))
    vals = [P.SNum(DATA(c, smt.num(n)), DNAN(c, smt.num(n))) for c in cols]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = nd.ite(k == j, vals[j], r)
    return P.SNum(*[z3.simplify(x) for x in (r.z, r.nan, r.pinf, r.ninf)])


class Hist:
    """a histogram that was made"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


MADE = Hist()


def _linspace(it, a, k):
    b = bind(["start", "stop", ("num", 50), ("endpoint", True), ("retstep", False), ("dtype", None), ("axis", 0)], a, k)
    if b["endpoint"] is not True or b["retstep"] is not False or not P.anum(b["num"]).is_int:
        raise P.Unsupported("linspace with %r" % (b,))
    lo, hi, n = P.anum(b["start"]), P.anum(b["stop"]), z3.simplify(P.anum(b["num"]).z)
    if not lo.plain or not hi.plain:
        raise P.Unsupported("linspace of non-finite numbers")
    lo, hi = P.zreal(lo.z), P.zreal(hi.z)
    return nd.arr([n], lambda j: P.SNum(lo + z3.ToReal(smt.num(j)) * (hi - lo) / z3.ToReal(n - 1)))


def raw(k, *i):
    inf = RINF[k](*i)
    return P.SNum(RAW[k](*i), P.FALSE, inf > 0, inf < 0)


def contracts():
    con = dict(X.contracts())
    con.update(nd.contracts())
    con[repo_fn("appletree.utils", "load_data")] = lambda it, a, k: it.state["loads"].append(a[0]) or P.SObj(FRAME, None)
    con[np.linspace] = _linspace
    con[typing.cast] = lambda it, a, k: a[1]
    for key, name in C.HISTS.items():
        f = repo_fn("appletree.hist", name)

        def c(it, a, k, key=key, f=f):
            b = bind(f, a, k)
            bs = [b["bins"]] if key == "irreg1" else [b["bins_x"], b["bins_y"]] if key == "irreg2" else seq_of(b["bins"])
            for x, e in enumerate(bs):
                e = nd.lift(e)
                if len(e.info["shape"]) != (2 if key == "irreg2" and x == 1 else 1):
                    raise P.PyRaise(P.Exc(TypeError, ("edges of the wrong shape",)))
            h = P.SObj(MADE, HIST, which=len(it.state["hists"]))
            it.state["hists"].append((key, b, bs, h))
            return h
        con[f] = c
        if getattr(f, "__wrapped__", None) is not None:
            con[f.__wrapped__] = c
    gof = __import__("appletree.utils", fromlist=["x"]).GOFevaluation.utils

    def equi(it, a, k):
        b = bind(gof.get_equiprobable_binning, a, k)
        it.state["equi"].append(b)
        s = nd.lift(b["reference_sample"])
        n = [z for z in (seq_of(b["n_partitions"]) if len(s.info["shape"]) == 2 else [b["n_partitions"]])]
        n = [P.anum(x).z for x in n]
        first = nd.arr([n[0] + 1], lambda j: raw(0, smt.num(j)))
        if len(s.info["shape"]) == 1:
            return first
        return it.run.cell(P.MList([first, nd.arr([n[0], n[1] + 1], lambda i, j: raw(1, smt.num(i), smt.num(j)))]))
    con[gof.get_equiprobable_binning] = equi
    con[np.clip] = lambda it, a, k: nd.elementwise(it, lambda x, lo, hi: P.n_clip(it, x, lo, hi), *a, **k) if any(nd.is_nd(x) for x in a) else P.n_clip(it, *a, **k)
    return con


def seq_of(v):
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, P.MList) and v.concrete() is not None:
        return list(v.concrete())
    raise P.Unsupported("sequence %r" % (v,))


def facts(it, d):
    run = it.run
    run.fact(z3.And(NEV >= 0, MB >= 1, *[n >= 1 for n in NB], *[lo < hi for lo, hi in zip(LO, HI)]))
    for k in range(d):
        for q in range(k):
            run.fact(NAMES[k] != NAMES[q])
    j, i = z3.Int("f!j"), z3.Int("f!i")
    run.fact(z3.ForAll([j], z3.And(RINF[0](j) >= -1, RINF[0](j) <= 1), patterns=[RINF[0](j)]))
    run.fact(z3.ForAll([i, j], z3.And(RINF[1](i, j) >= -1, RINF[1](i, j) <= 1), patterns=[RINF[1](i, j)]))


def spec(it, d, btype, form, name_form="list", clip_form="list"):
    """the declared configuration: (config, expected edges per axis as (shape, element function))"""
    cell = lambda xs: it.run.cell(P.MList(xs))      # noqa: E731
    names = [P.SStr(z) for z in NAMES[:d]]
    clip = lambda k: cell([P.SNum(LO[k]), P.SNum(HI[k])]) if clip_form == "list" else (P.SNum(LO[k]), P.SNum(HI[k]))      # noqa: E731
    cfg = dict(data_file_name="vc.csv", bins_type=btype, bins_on=names[0] if name_form == "str" else cell(names))
    if d == 1:
        cfg["clip"] = clip(0)
    else:
        cfg.update(x_clip=clip(0), y_clip=clip(1))
    if form == "int":
        cfg["bins"] = P.SNum(NB[0]) if name_form == "str" else cell([P.SNum(n) for n in NB[:d]])
    elif btype == "irreg":
        cfg["bins"] = cell([nd.arr([NB[0] + 1], lambda j: P.SNum(EX(smt.num(j))))] + ([nd.arr([MB, NB[1] + 1], lambda i, j: P.SNum(EY(smt.num(i), smt.num(j))))] if d == 2 else []))
    else:
        cfg["bins"] = cell([nd.arr([NB[0] + 1], lambda j: P.SNum(EX(smt.num(j))))] + ([nd.arr([NB[1] + 1], lambda j: P.SNum(EY1(smt.num(j))))] if d == 2 else []))
    return cfg


class Comp:
    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        m = L.comp_mod()
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in (m.Component, object) or x is getattr(m, o.info["kind"]) for x in cs)

    def getattr(self, it, o, name):
        if name == "needed_parameters":
            return it.run.cell(P.MSet())
        if name in ("deduce", "compile"):
            return P.Contract(lambda it, a, k: it.state["registered"].append((name, a, k)), name)
        return P._MISSING

    def setattr(self, it, o, name, v):
        pass


COMP = Comp()


def register(it, inst, kind):
    def make(it, a, k):
        it.state["made"].append(k)
        return P.SObj(COMP, None, kind=kind)
    it.call(it.getattr(inst, "register_component"), [P.Contract(make, "component class"), kind])


def inside(d):
    """strictly inside of the region of interest; a NaN is not"""
    return lambda j: P.SBool(z3.And(*[z3.And(z3.Not(DNAN(NAMES[k], smt.num(j))), DATA(NAMES[k], smt.num(j)) > LO[k], DATA(NAMES[k], smt.num(j)) < HI[k]) for k in range(d)]))


def expected(d, btype, form):
    """shape and relation per axis: rel(e, i...) is what the edge e must fulfil"""
    def grid(k):
        def rel(e, j):
            return z3.And(e.finite, e.z * z3.ToReal(NB[k]) == LO[k] * z3.ToReal(NB[k]) + z3.ToReal(j) * (HI[k] - LO[k]))
        return [NB[k] + 1], rel

    def clipped(k):
        def rel(e, *i):
            r = raw(k, *i)
            z = P.zreal(e.z)
            low = z3.Or(r.ninf, z3.And(r.finite, r.z < LO[k]))
            high = z3.Or(r.pinf, z3.And(r.finite, r.z > HI[k]))
            return z3.And(e.finite, z == z3.If(low, LO[k], z3.If(high, HI[k], r.z)))
        return ([NB[0] + 1], [NB[0], NB[1] + 1])[k], rel
    if btype == "equiprob":
        return [clipped(k) for k in range(d)]
    if form == "int":
        return [grid(k) for k in range(d)]
    given = lambda f: (lambda e, *i: z3.And(e.finite, e.z == f(*i)))        # noqa: E731
    out = [([NB[0] + 1], given(EX))]
    if d == 2:
        out.append(([MB, NB[1] + 1], given(EY)) if btype == "irreg" else ([NB[1] + 1], given(EY1)))
    return out


def check_edges(env, what, hy, got, want):
    env.check("%s: one array of edges per observable" % what, len(got) == len(want), repr(got))
    if len(got) != len(want):
        return
    for k, (g, (shape, rel)) in enumerate(zip(got, want)):
        g = nd.lift(g)
        sh = g.info["shape"]
        env.check("%s: edges of axis %d have their rank" % (what, k), len(sh) == len(shape), repr(sh))
        if len(sh) != len(shape):
            continue
        ix = [z3.Int("e%d" % x) for x in range(len(sh))]
        rng = [z3.And(i >= 0, i < s) for i, s in zip(ix, shape)]
        env.prove("%s: number of edges of axis %d" % (what, k), z3.And(*[smt.num(a) == b for a, b in zip(sh, shape)]), hy)
        env.prove("%s: edges of axis %d" % (what, k), rel(P.anum(g.info["elem"](*ix)), *ix), hy + rng)


def check_rows(env, what, hy, got, d, sel, rank=2):
    n, pos = sel
    got = nd.lift(got)
    sh = got.info["shape"]
    ok = len(sh) == rank and (rank == 1 or nd._same(sh[1], d))
    env.check("%s: a row per event and a column per observable" % what, ok, repr(sh))
    if not ok:
        return
    j = z3.Int("j")
    env.prove("%s: exactly the events inside of the region" % what, smt.num(sh[0]) == n, hy)
    for k in range(d):
        e = P.anum(got.info["elem"](*([j] if rank == 1 else [j, z3.IntVal(k)])))
        env.prove("%s: column %d of the events in order" % (what, k), z3.And(e.finite, e.z == DATA(NAMES[k], pos(j))), hy + [j >= 0, j < n])


def _accepted(d, btype, form, name_form="list", clip_form="list"):
    def run(env):
        def body(it):
            it.state = s = dict(hists=[], loads=[], equi=[], made=[], registered=[])
            facts(it, d)
            if btype == "irreg" and d == 2:
                it.run.fact(MB == NB[0])
            inst = it.call(mod().Likelihood, [], dict(name="vc_llh", **spec(it, d, btype, form, name_form, clip_form)))
            s["data"], s["hist"] = it.getattr(inst, "data"), it.getattr(inst, "data_hist")
            for kind in ("ComponentSim", "ComponentFixed"):
                register(it, inst, kind)
            sel = it.mask_select(P.SArr(NEV, lambda j: P.SNum(smt.num(j))), P.SArr(NEV, inside(d)))
            s["sel"] = (sel.n, lambda j: P.anum(sel.elem(smt.num(j))).z)
        tag0 = " [%d observables, %s, %s bins, %s, %s clip" % (d, btype, form, name_form, clip_form)
        for n, p in enumerate(P.explore(env, body, contracts())):
            tag = "%s, path %d]" % (tag0, n)
            s = p.state
            env.check("accepted" + tag, p.kind != "raise", repr(p.value))
            if p.kind == "raise":
                continue
            hy = p.hyps + list(p.run.facts)
            env.check("the declared file is read" + tag, set(s["loads"]) == {"vc.csv"}, repr(s["loads"]))
            check_rows(env, "data" + tag, hy, s["data"], d, s["sel"])
            want = expected(d, btype, form)
            kind = "mesh" if btype == "meshgrid" else "irreg%d" % d
            hs = s["hists"]
            ok = len(hs) == 1 and hs[0][0] == kind and isinstance(s["hist"], P.SObj) and s["hist"].model is MADE
            env.check("the data histogram is made once with the binning" + tag, ok, repr([h[0] for h in hs]))
            if not ok:
                continue
            _, b, bs, _ = hs[0]
            check_rows(env, "data histogram" + tag, hy, b["sample"], d, s["sel"], 1 if kind == "irreg1" else 2)
            w = b.get("weights")
            if w is not None:
                w = nd.lift(w)
                j = z3.Int("j")
                e = P.anum(w.info["elem"](j))
                env.prove("each event counts once" + tag, z3.And(smt.num(w.info["shape"][0]) == s["sel"][0], e.finite, P.zreal(e.z) == 1), hy + [j >= 0, j < s["sel"][0]])
            check_edges(env, "data histogram" + tag, hy, bs, want)
            for q in s["equi"]:
                check_rows(env, "equal-probability sample" + tag, hy, q["reference_sample"], d, s["sel"], 1 if d == 1 else 2)
                parts = [q["n_partitions"]] if d == 1 else seq_of(q["n_partitions"])
                env.prove("declared number of bins" + tag, z3.And(*[P.anum(x).z == y for x, y in zip(parts, NB)]), hy)
                env.check("x first" + tag, q["order"] is None or [int(x) for x in seq_of(q["order"])] == [0, 1], repr(q["order"]))
            env.check("two components" + tag, len(s["made"]) == 2, repr(s["made"]))
            for k, m in zip(("simulated", "fixed"), s["made"]):
                env.check("the %s component has the kind of binning%s" % (k, tag), m.get("bins_type") == ("meshgrid" if btype == "meshgrid" else "irreg"), repr(m))
                env.check("the %s component gets edges%s" % (k, tag), "bins" in m, repr(m))
                if "bins" in m:
                    check_edges(env, "%s component%s" % (k, tag), hy, seq_of(m["bins"]), want)
            on = [seq_of(k["data_names"]) for nm, a, k in s["registered"] if nm == "deduce" and "data_names" in k]
            okn = len(on) == 2 and [x for x in on[0][:d]] and all(isinstance(x, P.SStr) and z3.eq(x.z, z) for o in on for x, z in zip(o, NAMES[:d])) and on[0][d:] in ([], ["eff"]) and on[1][d:] == []
            env.check("components bin the declared observables in order" + tag, okn, repr(on))
    return run


def _refused(env):
    def expect(what, make, d=1, extra=None):
        def body(it):
            it.state = dict(hists=[], loads=[], equi=[], made=[], registered=[])
            facts(it, d)
            if extra is not None:
                it.run.fact(extra)
            it.call(mod().Likelihood, [], dict(name="vc_llh", **make(it)))
        for n, p in enumerate(P.explore(env, body, contracts())):
            env.check("%s is refused [path %d]" % (what, n), p.kind == "raise", "accepted")
    cell = lambda it, xs: it.run.cell(P.MList(xs))      # noqa: E731
    other = z3.Const("other_word", N)

    def words(it, d, form):
        for x in ("meshgrid", "equiprob", "irreg"):
            it.run.fact(other != it.run.name(x))
        return dict(spec(it, d, "equiprob", form), bins_type=P.SStr(other))
    for d, form in ((1, "int"), (2, "int"), (1, "edges"), (2, "edges")):
        expect("another binning, %d observables, %s bins" % (d, form), lambda it: words(it, d, form), d)
        expect("no binning, %d observables, %s bins" % (d, form), lambda it: dict(spec(it, d, "irreg", form), bins_type=None), d)
    for btype in ("meshgrid", "equiprob", "irreg"):
        expect("three observables, %s" % btype, lambda it: dict(spec(it, 2, btype, "int"), bins_on=cell(it, [P.SStr(z) for z in NAMES]), bins=cell(it, [P.SNum(NB[0]), P.SNum(NB[1]), 3])), 2)
        expect("no observable, %s" % btype, lambda it: dict(spec(it, 2, btype, "int"), bins_on=cell(it, []), bins=cell(it, [])), 2)
        expect("one bin specification for two observables, %s" % btype, lambda it: dict(spec(it, 2, btype, "int"), bins=cell(it, [P.SNum(NB[0])])), 2)
        expect("two bin specifications for one observable, %s" % btype, lambda it: dict(spec(it, 1, btype, "int"), bins=cell(it, [P.SNum(NB[0]), P.SNum(NB[1])])), 1)
        expect("a bare number of bins for two observables, %s" % btype, lambda it: dict(spec(it, 2, btype, "int"), bins=P.SNum(NB[0])), 2)
    for d in (1, 2):
        expect("explicit edges for equal probability, %d observables" % d, lambda it: spec(it, d, "equiprob", "edges"), d)
        expect("a real number of bins for equal probability, %d observables" % d, lambda it: dict(spec(it, d, "equiprob", "int"), bins=cell(it, [P.SNum(NB[0])][:d - 1] + [P.SNum(z3.Real("real_bins"))])), d)
    expect("irregular y edges for another number of x bins", lambda it: spec(it, 2, "irreg", "edges"), 2, MB != NB[0])


def units():
    l, u = "appletree/likelihood.py:Likelihood.", "appletree/utils.py:"
    fn = [l + "__init__", l + "set_binning", l + "_resolve_bin_edges", l + "_resolve_explicit_bins", l + "_validate_irreg_bins_2d", l + "_sanity_check", l + "_make_data_hist", l + "register_component"]
    out = []
    for d in (1, 2):
        for btype, forms in (("meshgrid", ("int", "edges")), ("irreg", ("edges",)), ("equiprob", ("int",))):
            for form in forms:
                runs = [_accepted(d, btype, form, nf, cf) for nf in (("list", "str") if d == 1 else ("list",)) for cf in ("list", "tuple")]
                out.append(Unit("%s, %d observables, %s" % (btype, d, form), fn + ([u + "get_equiprob_bins_%dd" % d] if btype == "equiprob" else []), C._many(*runs)))
    return out + [Unit("refused", fn, _refused)]


# ----------------------------------------------------------------- concrete
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        d = 1 + k % 2
        btype = ("meshgrid", "irreg", "equiprob")[k % 3]
        form = "int" if btype == "equiprob" or (btype == "meshgrid" and rng.random() < 0.5) else "edges"
        nb = [rng.choice([1, 2, 3, 5]) for _ in range(d)]
        lo = [float(rng.randint(-3, 30)) for _ in range(d)]
        hi = [x + 4.0 * n for x, n in zip(lo, nb)]
        n = rng.choice([30, 60]) if btype == "equiprob" else rng.choice([8, 30])
        vals = []
        for q in range(d):
            inner = [lo[q] + 0.25 + (i + 0.5) / 128 for i in range(int(128 * (hi[q] - lo[q] - 0.5)))]
            vals.append(rng.sample(inner, n))
        rows = [list(r) for r in zip(*vals)]
        for q in range(d):
            for o in [lo[q], hi[q], lo[q] - 0.5, hi[q] + 0.5, None, lo[q] - 1e3, hi[q] + 1e3]:
                r = list(rng.choice(rows[:n]))
                r[q] = o
                rows.append(r)
        rng.shuffle(rows)

        def edges(q, m):
            """within or beyond the region of interest; no data on an edge"""
            a = lo[q] + rng.choice([-8, 0, 0, 1])
            return [a + 0.125 + sum(s) for s in itertools.accumulate([(rng.choice([1, 2, 4]),) for _ in range(m + 1)], lambda x, y: (x[0] + y[0],))]
        bins = nb if form == "int" else [edges(0, nb[0])] + ([edges(1, nb[1])] if d == 2 and btype == "meshgrid" else [[edges(1, nb[1]) for _ in range(nb[0])]] if d == 2 else [])
        yield dict(d=d, btype=btype, form=form, lo=lo, hi=hi, rows=rows, nb=nb, bins=bins, arrays=rng.random() < 0.5, flip=rng.random() < 0.5,
                   clipform=rng.choice(["list", "tuple"]), scalar=rng.random() < 0.5,
                   bad=rng.choice([None] * 5 + ["btype", "three", "few", "many", "equiprob", "rows", "ragged", "bare"]))


def run_case(c):
    d = tempfile.mkdtemp(prefix="vc_c30_")
    try:
        with X.Quiet():
            return _case(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _case(c, folder):
    import pandas as pd
    m, d = L.comp_mod(), c["d"]
    names = ["obs%d" % q for q in range(d)]
    rows = np.array([[np.nan if x is None else x for x in r] for r in c["rows"]], float)
    cols = dict(zip(names, rows.T), junk=np.arange(len(rows)) - 7.0)
    f = os.path.join(folder, "data.csv")
    pd.DataFrame({q: cols[q] for q in sorted(cols, reverse=c["flip"])}).to_csv(f, index=False)
    clip = lambda q: (tuple if c["clipform"] == "tuple" else list)([c["lo"][q], c["hi"][q]])      # noqa: E731
    cfg = dict(data_file_name=f, bins_type=c["btype"], bins_on=list(names), bins=[np.array(b) if c["arrays"] and not isinstance(b, int) else b for b in c["bins"]])
    if d == 1:
        cfg["clip"] = clip(0)
        if c["scalar"]:
            cfg["bins_on"] = names[0]
            if c["form"] == "int":
                cfg["bins"] = c["bins"][0]
    else:
        cfg.update(x_clip=clip(0), y_clip=clip(1))
    if c["bad"]:
        return _bad(c, cfg, names)
    like = mod().Likelihood(name="vc_llh", **cfg)
    inside = np.ones(len(rows), bool)
    for q in range(d):
        inside &= (rows[:, q] > c["lo"][q]) & (rows[:, q] < c["hi"][q])
    want = rows[inside]
    got = np.asarray(like.data, float)
    if got.shape != want.shape or not np.array_equal(got, want):
        extra = [r for r in got.tolist() if r not in want.tolist()][:2]
        return "%d rows selected, %d lie inside of the region %s; not inside: %s" % (len(got), len(want), list(zip(c["lo"], c["hi"])), extra)
    seen = {}

    class Stub(m.Component):
        def __init__(self, name=None, llh_name=None, bins=None, bins_type=None, **kw):
            seen.update(bins=bins, bins_type=bins_type)
            super().__init__(name=name, llh_name=llh_name, bins=bins, bins_type=bins_type, **kw)
            self.needed_parameters = set()

        def deduce(self, **kw):
            seen.update(kw)

        def compile(self):
            pass
    sims = []

    class SimStub(m.ComponentSim):
        def __init__(self, name=None, llh_name=None, bins=None, bins_type=None, **kw):
            super(m.ComponentSim, self).__init__(name=name, llh_name=llh_name, bins=bins, bins_type=bins_type, **kw)
            self.needed_parameters = set()

        def deduce(self, data_names=None, **kw):
            sims.append(list(data_names))

        def compile(self):
            pass
    like.register_component(SimStub, "sim0")
    like.register_component(SimStub, "sim1")
    like.register_component(Stub, "stub")
    like.register_component(m.ComponentFixed, "fixed", f)
    if sims != [names + ["eff"]] * 2:
        return "simulated components are asked for %s, declared observables %s" % (sims, names)
    edges = [np.asarray(b, float) for b in seen["bins"]]
    if seen["bins_type"] != ("meshgrid" if c["btype"] == "meshgrid" else "irreg"):
        return "components are binned %r" % seen["bins_type"]
    if list(seen["data_names"]) != names:
        return "components bin %s, declared %s" % (seen["data_names"], names)
    if len(edges) != d:
        return "%d arrays of edges for %d observables" % (len(edges), d)
    for a, b in zip(edges, like["fixed"].bins):
        if a.shape != np.shape(b) or not np.array_equal(a, np.asarray(b, float)):
            return "two components got different edges"
    if c["btype"] == "equiprob":
        shapes = [(c["nb"][0] + 1,), (c["nb"][0], c["nb"][-1] + 1)]
        for q, e in enumerate(edges):
            if e.shape != shapes[q]:
                return "equal-probability edges of shape %s" % (e.shape,)
            if not (np.allclose(e[..., 0], c["lo"][q]) and np.allclose(e[..., -1], c["hi"][q])):
                return "equal-probability edges %s are not clipped to %s" % (e.tolist(), (c["lo"][q], c["hi"][q]))
            if not np.all(np.diff(e) > 0):
                return "equal-probability edges %s do not increase" % e.tolist()
    else:
        spec = [np.linspace(lo, hi, n + 1) if c["form"] == "int" else np.array(b) for lo, hi, n, b in zip(c["lo"], c["hi"], c["nb"], c["bins"])]
        for q, (a, b) in enumerate(zip(edges, spec)):
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=1e-6):
                return "edges of axis %d are %s, declared %s" % (q, a.tolist(), b.tolist())
    edges = [e.astype(np.float32) for e in edges]       # the data histogram is single precision
    h = []
    for strict in (True, False):        # equal-probability edges may lie on events, which then count on either side
        inb = lambda v, e: [(v > lo) & (v < hi) if strict else (v >= lo) & (v <= hi) for lo, hi in zip(e[:-1], e[1:])]      # noqa: E731
        ys = [[np.ones(len(want), bool)]] * (len(edges[0]) - 1) if d == 1 else [inb(want[:, 1], e) for e in (edges[1] if edges[1].ndim == 2 else [edges[1]] * (len(edges[0]) - 1))]
        n = np.array([[(x & y).sum() for y in yy] for x, yy in zip(inb(want[:, 0], edges[0]), ys)], float)
        h.append(n[:, 0] if d == 1 else n)
    g = np.asarray(like.data_hist, float)
    if g.shape != h[0].shape or np.any(g < h[0]) or np.any(g > h[1]):
        return "data histogram %s, events per bin %s" % (g.tolist(), h[0].tolist())
    if c["btype"] == "equiprob":
        if g.sum() != len(want) or g.max() - g.min() > 2:
            return "equal-probability bins hold %s of %d events" % (g.tolist(), len(want))
    return None


def _bad(c, cfg, names):
    d, bad = c["d"], c["bad"]
    if bad == "btype":
        cfg["bins_type"] = "regular"
    elif bad == "three":
        if d == 1:
            return None
        cfg.update(bins_on=names + ["junk"], bins=list(cfg["bins"]) + [3])
    elif bad == "few":
        if d == 1:
            return None
        cfg["bins"] = cfg["bins"][:1]
    elif bad == "many":
        b = cfg["bins"]
        cfg.update(bins_on=names, bins=(b if isinstance(b, list) else [b]) + [3])
    elif bad == "equiprob":
        cfg.update(bins_type="equiprob", bins_on=names, bins=[3, 2.0][2 - d:] if c["flip"] else [[c["lo"][0], c["hi"][0]]] + [2] * (d - 1))
    elif bad == "bare":
        if d == 1:
            return None
        cfg["bins"] = 3
    else:
        if d == 1 or c["btype"] != "irreg":
            return None
        y = [list(e) for e in c["bins"][1]]
        if bad == "rows":
            y.append([e + 1 for e in y[-1]])
        elif len(y) > 1:
            y[-1] = y[-1] + [y[-1][-1] + 1]
        else:
            return None
        cfg["bins"] = [cfg["bins"][0], y]
    try:
        mod().Likelihood(name="vc_llh", **cfg)
    except Exception:
        return None
    return "accepted: %s binning of %s with %s" % (cfg["bins_type"], cfg["bins_on"], cfg["bins"])
