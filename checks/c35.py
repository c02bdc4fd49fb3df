"""C35: map plots show the nodes and values of the map."""
import itertools
import json
import os
import shutil
import tempfile
import warnings

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from checks import context_common as X
from checks.c30 import _linspace

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["numpy: linspace(a, b, n) is a + j (b - a)/(n - 1), the single number a for n = 1; concatenate joins in order; mean(axis) is the mean over that axis",
               "log10 and 10** are inverse to each other; a map has at least one node per axis, log axes have positive limits (C05)",
               "what matplotlib draws from edges, centres and values (only looked at by the concrete runs)"]
LO, HI = z3.Function("axis_lower", I, R), z3.Function("axis_upper", I, R)
NB = z3.Function("axis_nodes", I, I)
MAP = z3.Function("map_value", I, I, I, R)
FROM, TO = z3.Function("range_from", I, R), z3.Function("range_to", I, R)
T10, L10 = P.POW10, nd.LOG10


def place(lo, hi, n, j, log):
    """position of node j, for a half-integer j the position between two nodes; one node has unit width"""
    a, b = (L10(lo), L10(hi)) if log else (lo, hi)
    z = z3.If(n > 1, a + j * (b - a) / z3.ToReal(n - 1), a + j)
    return T10(z) if log else z


def _lin(it, a, k):
    b = bind(["start", "stop", ("num", 50), ("endpoint", True), ("retstep", False), ("dtype", None), ("axis", 0)], a, k)
    n = z3.simplify(smt.num(P.anum(b["num"]).z))
    r = _linspace(it, a, k)
    e = r.info["elem"]
    lo = P.anum(b["start"])
    return nd.arr([n], lambda j: nd.ite(n == 1, P.SNum(P.zreal(lo.z)), e(j)))


def _join(it, a, k):
    if len(a) != 1 or k.get("axis", 0) != 0:
        raise P.Unsupported("concatenate along an axis")
    kind, s = it.iterate(a[0])
    if kind != "c":
        raise P.Unsupported("concatenate of a symbolic number of arrays")
    ls = [nd.lift(x, it) for x in s]
    if any(len(x.info["shape"]) != 1 for x in ls):
        raise P.Unsupported("concatenate of higher arrays")
    ns = [smt.num(x.info["shape"][0]) for x in ls]

    def elem(j):
        j = smt.num(j)
        off = sum(ns[:-1], z3.IntVal(0))
        r = ls[-1].info["elem"](z3.simplify(j - off))
        for q in range(len(ls) - 2, -1, -1):
            off = sum(ns[:q], z3.IntVal(0))
            r = nd.ite(j < off + ns[q], ls[q].info["elem"](z3.simplify(j - off)), r)
        return r
    return nd.arr([z3.simplify(sum(ns, z3.IntVal(0)))], elem)


def _ones(it, a, k):
    b = bind(["shape", ("dtype", None)], a, k)
    if b["dtype"] is not bool or not P.is_num(b["shape"]):
        raise P.Unsupported("ones")
    return nd.arr([smt.num(P.anum(b["shape"]).z)], lambda j: P.SBool(P.TRUE))


def contracts():
    con = dict(nd.contracts())
    con[np.linspace], con[np.concatenate], con[np.hstack], con[np.ones] = _lin, _join, _join, _ones
    con[warnings.warn] = lambda it, a, k: None
    return con


def mod():
    return __import__("appletree.plot", fromlist=["x"])


def _edges(log):
    def run(env):
        lo, hi, n = LO(0), HI(0), NB(0)

        def body(it):
            it.state = dict()
            it.run.fact(n >= 1)
            if log:
                it.run.fact(z3.And(lo > 0, hi > 0))
            return it.call(mod()._regbin_edges_centers, [P.SNum(lo), P.SNum(hi), P.SNum(n), log])
        c = 0
        for a, p in enumerate(P.explore(env, body, contracts())):
            tag = " [path %d]" % a
            hy = p.hyps + list(p.run.facts)
            if smt.solve_z3(hy, 2000)[0] == "unsat":
                continue
            c += 1
            ok = p.kind != "raise" and isinstance(p.value, tuple) and len(p.value) == 2
            env.check("edges and centres are returned" + tag, ok, repr(p.value))
            if not ok:
                continue
            j = z3.Int("j")
            for what, v, m, off in (("centre", p.value[1], n, z3.RealVal(0)), ("edge", p.value[0], n + 1, z3.RealVal("1/2"))):
                v = nd.lift(v)
                env.check("%ss of one axis%s" % (what, tag), len(v.info["shape"]) == 1, repr(v))
                env.prove("number of %ss%s" % (what, tag), smt.num(v.info["shape"][0]) == m, hy)
                x = P.anum(v.info["elem"](j))
                rng = [j >= 0, j < m]
                env.prove("%s j is a finite number%s" % (what, tag), x.finite, hy + rng)
                want = place(lo, hi, n, z3.ToReal(j) - off, log)
                for case, cond in (("first", j == 0), ("last", z3.And(j > 0, j == m - 1)), ("inner", z3.And(j > 0, j < m - 1))):
                    h = hy + rng + [cond]
                    g = P.zreal(x.z) == want
                    env.prove("%s %s is at its place between the nodes of the map%s" % (case, what, tag), g, h)
        env.check("a path exists", c > 0, "none")
    return run


def _collapse(rank, axes, logs):
    """axes: {axis: a range is given}"""
    def run(env):
        names = ["axis%d" % a for a in range(rank)]

        def body(it):
            s = it.state = dict(means=[])
            for a in range(rank):
                it.run.fact(NB(a) >= 1)
                if logs[a]:
                    it.run.fact(z3.And(LO(a) > 0, HI(a) > 0))
            data = nd.arr([NB(a) for a in range(rank)], lambda *i: P.SNum(MAP(*[smt.num(x) for x in i], *[z3.IntVal(0)] * (3 - rank))))
            col = it.run.cell(P.MDict([(names[a], (P.SNum(FROM(a)), P.SNum(TO(a))) if rg else None) for a, rg in axes] + [("no such axis", None)]))
            lst = lambda v: it.run.cell(P.MList(v))         # noqa: E731
            nms, los, his, lg = lst(list(names)), lst([P.SNum(LO(a)) for a in range(rank)]), lst([P.SNum(HI(a)) for a in range(rank)]), lst(list(logs))
            s["data"] = data
            s["given"] = [(x, x.concrete()) for x in (nms, los, his, lg)]
            r = it.call(mod()._collapse_regbin_map, [data, nms, los, his, col], dict(is_log=lg))
            s["sel"], s["inside"] = {}, {}
            for a, rg in axes:
                if rg:
                    inside = lambda j, a=a: P.SBool(z3.And(place(LO(a), HI(a), NB(a), z3.ToReal(smt.num(j)), logs[a]) >= FROM(a),      # noqa: E731
                                                           place(LO(a), HI(a), NB(a), z3.ToReal(smt.num(j)), logs[a]) <= TO(a)))
                    s["inside"][a] = lambda j, f=inside: f(j).z
                    s["sel"][a] = it.mask_select(P.SArr(NB(a), lambda j: P.SNum(smt.num(j))), P.SArr(NB(a), inside))
            return r

        def mean(it, a, k):
            b = bind(["a", ("axis", None)], a, k)
            x = nd.lift(b["a"], it)
            sh = list(x.info["shape"])
            if not isinstance(b["axis"], int):
                raise P.Unsupported("mean over all axes")
            ax = b["axis"] % len(sh)
            rest = sh[:ax] + sh[ax + 1:]
            f = it.run.freshfun("mean", *([I] * len(rest) + [R]))[0] if rest else None
            c = it.run.fresh("mean", R) if not rest else None
            out = nd.arr(rest, lambda *i: P.SNum(f(*[smt.num(q) for q in i]))) if rest else P.SNum(c)
            it.state["means"].append((x, ax, out))
            return out

        def ec(it, a, k):
            b = bind(["lower", "upper", "n_bins", "is_log"], a, k)
            lo, hi = [P.zreal(P.anum(b[x]).z) for x in ("lower", "upper")]
            n = smt.num(P.anum(b["n_bins"]).z)
            log = it.truth(b["is_log"])
            return tuple(nd.arr([n + e], lambda j, o=o: P.SNum(place(lo, hi, n, z3.ToReal(smt.num(j)) - o, log))) for e, o in ((1, z3.RealVal("1/2")), (0, z3.RealVal(0))))
        con = contracts()
        con[np.mean] = mean
        if hasattr(mod(), "_regbin_edges_centers"):
            con[mod()._regbin_edges_centers] = ec
        c = 0
        for a, p in enumerate(P.explore(env, body, con)):
            tag = " [path %d]" % a
            s = p.state
            hy = p.hyps + list(p.run.facts)
            if smt.solve_z3(hy, 2000)[0] == "unsat":
                continue
            c += 1
            ok = p.kind != "raise" and isinstance(p.value, tuple) and len(p.value) == 5
            env.check("map, names, limits and scales are returned" + tag, ok, repr(p.value))
            if not ok:
                continue
            # instances of the selection contract: there is a selected node iff a node is in the range
            for o, sel in s["sel"].items():
                n, first = smt.num(sel.n), P.anum(sel.elem(z3.IntVal(0))).z
                hy.append(z3.Implies(n > 0, z3.And(first >= 0, first < NB(o), s["inside"][o](first))))
                for h, t, m, pred in p.run.__dict__.get("exlog", []):
                    if z3.eq(z3.simplify(m), z3.simplify(NB(o))):
                        hy.append(z3.Implies(z3.And(t >= 0, t < m, s["inside"][o](t)), n > 0))
                        hy.append(z3.Implies(z3.And(n > 0, z3.Not(h)), z3.Not(pred(first))))
            cur, left = s["data"], list(range(rank))
            for x, ax, out in s["means"]:
                if ax >= len(left) or len(x.info["shape"]) != len(left) or left[ax] not in dict(axes):
                    env.check("only the given axes are collapsed" + tag, False, "axis %d of the remaining %s" % (ax, left))
                    break
                o = left[ax]
                what = " (axis %d)%s" % (o, tag)
                ix = [z3.Int("ix%d" % q) for q in left]
                sh = [smt.num(d) for d in x.info["shape"]]
                if dict(axes)[o]:
                    sel = s["sel"][o]
                    some = smt.num(sel.n) > 0
                    cnt, pos = z3.If(some, smt.num(sel.n), NB(o)), z3.If(some, P.anum(sel.elem(ix[ax])).z, ix[ax])
                else:
                    cnt, pos = NB(o), ix[ax]
                env.prove("exactly the nodes in the range are averaged, all of them if there are none" + what, sh[ax] == cnt, hy)
                for q in range(len(left)):
                    if q != ax:
                        env.prove("all nodes of the other axes are kept" + what, sh[q] == smt.num(cur.info["shape"][q]), hy)
                src = list(ix)
                src[ax] = pos
                rng = [z3.And(i >= 0, i < d) for i, d in zip(ix, sh)]
                env.prove("the averaged values are those of the map" + what,
                          P.zreal(P.anum(x.info["elem"](*ix)).z) == P.zreal(P.anum(cur.info["elem"](*src)).z), hy + rng)
                cur = out
                left.pop(ax)
            want = [q for q in range(rank) if q not in dict(axes)]
            env.check("every given axis is collapsed once" + tag, left == want, "left: %s instead of %s" % (left, want))
            env.check("the result is the averaged map" + tag, p.value[0] is cur or (nd.is_nd(p.value[0]) and nd.is_nd(cur) and p.value[0].info["elem"] is cur.info["elem"]), repr(p.value[0]))
            for nm, v, w in (("names", p.value[1], [names[q] for q in want]), ("lower limits", p.value[2], [LO(q) for q in want]),
                             ("upper limits", p.value[3], [HI(q) for q in want]), ("scales", p.value[4], [logs[q] for q in want])):
                got = v.concrete() if isinstance(v, P.MList) else list(v) if isinstance(v, (list, tuple)) else None
                env.check("%s of the remaining axes%s" % (nm, tag), got is not None and len(got) == len(w)
                          and all(z3.eq(P.anum(x).z, y) if z3.is_expr(y) else x == y for x, y in zip(got, w)), "%r instead of %r" % (got, w))
            env.check("the caller's lists are not modified" + tag, all(x.concrete() == y for x, y in s["given"]), "modified")
        env.check("a path exists", c > 0, "none")
    return run


def _collapses(rank, todo):
    def run(env):
        for axes in todo:
            _collapse(rank, axes, [q % 2 == 1 for q in range(rank)])(env)
    return run


def _nocollapse(env):
    def body(it):
        it.state = dict()
        d = nd.arr([NB(0), NB(1)], lambda i, j: P.SNum(MAP(i, j, 0)))
        v = [it.run.cell(P.MList([w + str(q) for q in range(2)])) for w in ("name", "lower", "upper")]
        it.state["in"] = [d] + v
        return it.call(mod()._collapse_regbin_map, [d] + v + [None], dict(is_log=True))
    for a, p in enumerate(P.explore(env, body, contracts())):
        r = p.value
        env.check("nothing changes without axes to collapse [path %d]" % a, p.kind != "raise" and isinstance(r, tuple) and len(r) == 5
                  and r[0] is p.state["in"][0] and all(x.concrete() == y.concrete() for x, y in zip(r[1:4], p.state["in"][1:])), repr(r))
        env.check("the scale applies to every axis [path %d]" % a, p.kind != "raise" and r[4].concrete() == [True, True], repr(r))


def units():
    f = "appletree/plot.py:"
    return [Unit("_regbin_edges_centers, linear axis", [f + "_regbin_edges_centers"], _edges(False)),
            Unit("_regbin_edges_centers, log axis", [f + "_regbin_edges_centers"], _edges(True)),
            Unit("_collapse_regbin_map, two axes, one collapsed", [f + "_collapse_regbin_map"], _collapses(2, [[(q, r)] for q in range(2) for r in (False, True)])),
            Unit("_collapse_regbin_map, two axes, both collapsed", [f + "_collapse_regbin_map"], _collapses(2, [[(0, True), (1, False)], [(1, True), (0, True)]])),
            Unit("_collapse_regbin_map, three axes, one collapsed", [f + "_collapse_regbin_map"], _collapses(3, [[(q, r)] for q in range(3) for r in (False, True)])),
            Unit("_collapse_regbin_map, three axes, two collapsed", [f + "_collapse_regbin_map"], _collapses(3, [[(0, True), (1, False)], [(2, True), (0, False)], [(1, False), (2, True)]])),
            Unit("_collapse_regbin_map, three axes, all collapsed", [f + "_collapse_regbin_map"], _collapses(3, [[(1, False), (0, False), (2, True)]])),
            Unit("_collapse_regbin_map, nothing to collapse", [f + "_collapse_regbin_map"], _nocollapse)]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        maps = []
        for q in range(rng.randint(1, 3)):
            kind = rng.choice(["regbin", "regbin", "regbin", "point", "sigma"])
            rank = rng.choice([2, 3])
            n = [rng.randint(1, 5) for _ in range(rank)]
            col = {}
            for a in rng.sample(range(rank), rng.randint(0, rank)):
                col[a] = None if rng.random() < 0.4 else sorted([rng.randint(-1, 5) + 0.5, rng.randint(-1, 5) + 0.5])
            maps.append(dict(kind=kind, n=n, log=[rng.random() < 0.4 for _ in range(rank)], lo=[rng.choice([0.5, 1.0, 2.0, 3.5]) for _ in range(rank)],
                             span=[rng.choice([0.5, 1.0, 7.0, 100.0]) for _ in range(rank)], collapse=[[a, r] for a, r in col.items()], many=rng.random() < 0.3, seed=rng.randint(0, 9999),
                             shared=rng.random() < 0.3))
        yield dict(maps=maps, extra=rng.random() < 0.3, none=rng.random() < 0.1)


def run_case(c):
    d = tempfile.mkdtemp(prefix="vc_maps_")
    import matplotlib.pyplot as plt
    share = __import__("appletree.share", fromlist=["x"])
    try:
        share.clear_cache()
        with X.Quiet():
            return _case(c, d)
    finally:
        plt.close("all")
        share.clear_cache()
        shutil.rmtree(d, ignore_errors=True)


def _nodes(m, a):
    lo, hi = m["lo"][a], m["lo"][a] + m["span"][a]
    n = m["n"][a]
    f = np.log10 if m["log"][a] else lambda v: v        # noqa: E731
    s = (f(hi) - f(lo)) / (n - 1) if n > 1 else 1.0
    p = f(lo) + np.arange(n) * s
    e = f(lo) + (np.arange(n + 1) - 0.5) * s
    return p, e, s


def _case(c, d):
    from types import SimpleNamespace as NS
    cfgm = __import__("appletree.config", fromlist=["x"])
    comp = __import__("appletree.component", fromlist=["x"])
    plugins, want, col = [], [], {}
    for q, m in enumerate(c["maps"]):
        g = np.random.RandomState(m["seed"])
        rank = len(m["n"])

        def dump(name, v):
            f = os.path.join(d, name)
            if m["kind"] == "point":
                data = dict(coordinate_type="point", coordinate_name="x", coordinate_system=sorted(g.uniform(0, 9, size=m["n"][0] + 1).tolist()), map=v)
            else:
                data = dict(coordinate_type=["log_regbin" if x else "regbin" for x in m["log"]] if any(m["log"]) and not all(m["log"]) else "log_regbin" if all(m["log"]) else "regbin",
                            coordinate_name=["ax%d" % a for a in range(rank)], coordinate_lowers=m["lo"], coordinate_uppers=[x + y for x, y in zip(m["lo"], m["span"])], map=v)
            with open(f, "w") as h:
                json.dump(data, h)
            return f, data
        name = "map%d" % q
        vals = [np.round(g.uniform(0.1, 5, size=m["n"] if m["kind"] != "point" else m["n"][0] + 1), 3) for _ in range(3)]
        files = [dump("%s_%d.json" % (name, k), v.tolist()) for k, v in enumerate(vals if m["kind"] == "sigma" else vals[:1])]
        names = [name] + (["alias%d" % q] if m["shared"] else [])
        for nm in names:
            cf = cfgm.SigmaMap(name=nm, default=[f for f, _ in files], method="NN") if m["kind"] == "sigma" else cfgm.Map(name=nm, default=files[0][0], method="NN")
            cf.build(llh_name="llh")
            plugins.append((nm, NS(takes_config={nm: cf, "other": cfgm.Constant(name="other", default=1)})))
        axes = {a: r for a, r in m["collapse"]}
        if m["kind"] == "point":
            want.append(("line", files[0][1]["coordinate_system"], vals[0]))
            col[names[-1]] = {"x": None}
            continue
        spec = {}
        for a, r in axes.items():
            p, e, s = _nodes(m, a)
            if r is not None:       # between two nodes
                b = [float(p[0] + x * s) for x in r]
                r = [10 ** x for x in b] if m["log"][a] else b
            spec["ax%d" % a] = None if r is None else tuple(r)
        if c["extra"]:
            spec["nothing"] = None
        if axes or c["extra"]:
            col[names[-1]] = spec
        if c["none"]:
            axes = {}
        out = []
        for v in ([vals[1], vals[0], vals[2]] if m["kind"] == "sigma" else vals[:1]):
            for a in sorted(axes, reverse=True):
                r = axes[a]
                ok = [j for j in range(m["n"][a]) if r is None or r[0] <= j <= r[1]] or list(range(m["n"][a]))
                v = np.take(v, ok, axis=a).mean(axis=a)
            out.append(v)
        left = [a for a in range(rank) if a not in axes]
        if len(left) == 2:
            want += [("image", v, [x for a in left for x in (_nodes(m, a)[1][0], _nodes(m, a)[1][-1])]) for v in out]
        elif len(left) == 1:
            p = _nodes(m, left[0])[0]
            p = 10 ** p if m["log"][left[0]] else p
            want.append(("bars", p, out[0]) if m["kind"] != "sigma" else ("lines", p, sorted(x.tolist() for x in out)))
    sim = comp.ComponentSim.__new__(comp.ComponentSim)
    sim.worksheet = [["p" + nm, [nm + "_out"], []] for nm, _ in plugins]
    sim._plugin_class_registry = {nm + "_out": p for nm, p in plugins}
    sim._plugin_class_registry["unused"] = NS(takes_config={"unused": cfgm.Map(name="unused", default="nofile.json")})
    ctx = NS(likelihoods={"llh": NS(components={"c": sim, "fixed": object(), "again": sim})})
    figs = mod().plot_maps(ctx, collapse=None if c["none"] else col)
    if len(figs) != len(want):
        return "%d figures instead of %d" % (len(figs), len(want))
    for (fig, ax), w in zip(figs, want):
        if w[0] in ("line", "lines"):
            got = [(np.asarray(x.get_xdata(), float), np.asarray(x.get_ydata(), float)) for x in ax.lines]
            if w[0] == "line":
                ok = len(got) == 1 and _close(got[0][0], w[1]) and _close(got[0][1], w[2])
            else:
                ok = len(got) == 3 and all(_close(x, w[1]) for x, _ in got) and _close(sorted(y.tolist() for _, y in got), w[2])
        elif w[0] == "bars":
            got = [(b.get_x() + b.get_width() / 2, b.get_height()) for b in ax.patches]
            ok = _close([x for x, _ in got], w[1]) and _close([y for _, y in got], w[2])
        else:
            im = ax.images
            got = [(np.asarray(x.get_array()), x.get_extent()) for x in im]
            ok = len(im) == 1 and _close(got[0][0].T, w[1]) and _close(got[0][1], w[2])
        if not ok:
            return "drawn: %s instead of %s" % (got, w)
    return None


def _close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=2e-5, atol=1e-5)
