"""Arrays of any rank in the symbolic evaluator: shape (integers or symbolic lengths) and element function,
with numpy's broadcasting, indexing and elementwise functions."""
import ast

import numpy as np
import z3

from . import pysym as P
from . import smt


def _int(d):
    if isinstance(d, int):
        return d
    d = z3.simplify(smt.num(d))
    return d.as_long() if z3.is_int_value(d) else d


class ND:
    """model of the values made by arr()"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        if c in (list, tuple, dict, str, int, float):
            return False
        import jax
        return c in (np.ndarray, jax.Array)

    def subst(self, o, pairs):
        sh, e = o.info["shape"], o.info["elem"]
        return arr([d if isinstance(d, int) else z3.substitute(smt.num(d), *pairs) for d in sh], lambda *i: P.subst(e(*i), pairs))

    def parts(self, o):
        sh = o.info["shape"]
        return tuple(smt.num(d) for d in sh) + (o.info["elem"](*[z3.Int("mentions!probe%d" % k) for k in range(len(sh))]),)

    def getattr(self, it, o, name):
        sh = o.info["shape"]
        if name == "ndim":
            return len(sh)
        if name == "shape":
            return tuple(d if isinstance(d, int) else P.SNum(d) for d in sh)
        if name == "size":
            n = 1
            for d in sh:
                n = n * d
            return n if isinstance(n, int) else P.SNum(n)
        if name == "T":
            e = o.info["elem"]
            return arr(sh[::-1], lambda *i: e(*i[::-1]))
        if name in ("astype", "copy"):
            return P.Contract(lambda it, a, k: o, name)
        if name in ("any", "all", "min", "max", "sum", "mean"):
            return P.Contract(lambda it, a, k: it.run.contracts.get(getattr(np, name), FUNCS[name])(it, [o] + list(a), k), name)
        return P._MISSING

    def length(self, it, o):
        sh = o.info["shape"]
        if not sh:
            raise P.PyRaise(P.Exc(TypeError, ("len() of unsized object",)))
        return sh[0] if isinstance(sh[0], int) else P.SNum(sh[0])

    def iterate(self, it, o):
        sh = o.info["shape"]
        if not sh:
            raise P.PyRaise(P.Exc(TypeError, ("iteration over a 0-d array",)))
        if isinstance(sh[0], int):
            return "c", [self.getitem(it, o, j) for j in range(sh[0])]
        return "s", P.SSeq(sh[0], lambda j: self.getitem(it, o, P.SNum(smt.num(j))))

    def getitem(self, it, o, k):
        sh, e = list(o.info["shape"]), o.info["elem"]
        if isinstance(k, P.SArr) or is_nd(k) and len(k.info["shape"]) == 1:
            m = lift(k)
            if sh and _isbool(m):
                if not _same(m.info["shape"][0], sh[0]) and not it.run.entails(smt.num(m.info["shape"][0]) == smt.num(sh[0])):
                    raise P.Unsupported("mask of another length")
                sel = it.mask_select(P.SArr(smt.num(sh[0]), lambda j: P.SNum(smt.num(j))), P.SArr(smt.num(sh[0]), m.info["elem"]))
                return arr([sel.n] + sh[1:], lambda j, *r: e(P.anum(sel.elem(smt.num(j))).z, *r))
        ks = list(k) if isinstance(k, tuple) else [k]
        n = len([x for x in ks if x is not None and x is not Ellipsis])
        if n > len(sh):
            raise P.PyRaise(P.Exc(IndexError, ("too many indices",)))
        if any(x is Ellipsis for x in ks):
            p = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            ks[p:p + 1] = [slice(None)] * (len(sh) - n)
        else:
            ks += [slice(None)] * (len(sh) - n)
        out, src, ax = [], [], 0        # src: function of the output index per input axis
        for x in ks:
            if x is None:
                out.append(1)
                continue
            d = sh[ax]
            if isinstance(x, slice):
                if x.step is not None or x.start is not None and not isinstance(x.start, int) or x.stop is not None and not isinstance(x.stop, int):
                    raise P.Unsupported("slice %r of an array" % (x,))
                st, en = x.start or 0, x.stop
                if isinstance(d, int):
                    r = range(d)[st:en]
                    st, nd = r.start, len(r)
                else:
                    dz = smt.num(d)
                    known = it.run.entails

                    def bound(b):
                        v = z3.IntVal(b) if b >= 0 else dz + b
                        if b == 0 or known(v <= dz if b > 0 else v >= 0):
                            return v
                        return z3.If(v > dz, dz, v) if b > 0 else z3.If(v < 0, z3.IntVal(0), v)
                    sz, ez = bound(st), dz if en is None else bound(en)
                    nd = _int(ez - sz if known(ez >= sz) else z3.If(ez > sz, ez - sz, z3.IntVal(0)))
                    st = z3.simplify(sz)
                src.append((len(out), st))
                out.append(nd)
            elif P.is_num(x) and not isinstance(x, (bool, P.SBool)):
                if isinstance(x, int) and isinstance(d, int):
                    if not -d <= x < d:
                        raise P.PyRaise(P.Exc(IndexError, ("index out of bounds",)))
                    src.append((None, z3.IntVal(x % d)))
                else:
                    z, dz = P.anum(x).z, smt.num(d)
                    src.append((None, z3.If(z < 0, z + dz, z) if not (isinstance(x, int) and x >= 0) else z))
            elif isinstance(x, (P.SArr,)) and not (z3.is_bool(getattr(x.elem(z3.Int("nd!probe")), "z", None))) or isinstance(x, P.SObj) and x.model is M and len(x.info["shape"]) == 1 and not _isbool(x):
                if any(isinstance(y, (P.SArr, P.SObj)) for y in ks if y is not x):
                    raise P.Unsupported("several index arrays")
                g = lift(x).info
                src.append((len(out), g["elem"]))
                out.append(g["shape"][0])
            elif (isinstance(x, P.SArr) or is_nd(x) and len(x.info["shape"]) == 1) and _isbool(lift(x)):
                if any(isinstance(y, (P.SArr, P.SObj)) for y in ks if y is not x):
                    raise P.Unsupported("several index arrays")
                m = lift(x)
                if not _same(m.info["shape"][0], d) and not it.run.entails(smt.num(m.info["shape"][0]) == smt.num(d)):
                    raise P.Unsupported("mask of another length")
                sel = it.mask_select(P.SArr(smt.num(d), lambda j: P.SNum(smt.num(j))), P.SArr(smt.num(d), m.info["elem"]))
                src.append((len(out), lambda j, sel=sel: sel.elem(smt.num(j))))
                out.append(sel.n)
            else:
                raise P.Unsupported("index %r of an array" % (x,))
            ax += 1

        def elem(*i):
            a = []
            for pos, st in src:
                if pos is None:
                    a.append(st)
                elif callable(st):
                    z = P.anum(st(i[pos])).z
                    a.append(z)
                else:
                    a.append(smt.num(i[pos]) + st if not (isinstance(st, int) and st == 0) else smt.num(i[pos]))
            return e(*a)
        if not out:
            return elem()
        return arr(out, elem)

    def binop(self, it, t, x, y):
        op = t()
        return elementwise(it, lambda a, b: it.binop(op, a, b), x, y)

    def rbinop(self, it, t, x, y):
        op = t()
        return elementwise(it, lambda a, b: it.binop(op, b, a), x, y)

    def compare(self, it, op, x, y, flip):
        o = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}[op]()
        return elementwise(it, lambda a, b: it.compare1(o, b, a) if flip else it.compare1(o, a, b), x, y)

    def unary(self, it, op, x):
        return elementwise(it, lambda a: it.unary(op, a), x)


M = ND()


def arr(shape, elem):
    return P.SObj(M, None, shape=tuple(_int(d) for d in shape), elem=elem)


def is_nd(v):
    return isinstance(v, P.SObj) and v.model is M


def _isbool(o):
    e = o.info["elem"](*[z3.Int("nd!probe") for _ in o.info["shape"]])
    return isinstance(e, (bool, P.SBool))


def lift(v, it=None):
    """a value as an array (numbers as arrays of rank 0)"""
    if is_nd(v):
        return v
    if isinstance(v, P.SArr):
        return arr([v.n], lambda j: v.elem(j))
    if isinstance(v, (bool, int, float, P.SNum, P.SBool, np.number, np.bool_)):
        return arr([], lambda: v)
    if isinstance(v, np.ndarray):
        v = v.tolist()
        return lift(v, it)
    if isinstance(v, P.MList):
        c = v.concrete()
        if c is None:
            if len(v.content) == 1 and v.content[0][0] == "s":
                s = v.content[0][1]
                one = s.elem(z3.Int("nd!probe"))
                if isinstance(one, (P.SNum, P.SBool)):
                    return arr([s.n], lambda j: s.elem(smt.num(j)))
            raise P.Unsupported("array of %r" % (v,))
        return stack([lift(x, it) for x in c])
    if isinstance(v, (list, tuple)):
        return stack([lift(x, it) for x in v])
    raise P.Unsupported("array of %r" % (v,))


def stack(xs):
    if not xs:
        return arr([0], lambda j: P.SNum(z3.RealVal(0)))
    sh = xs[0].info["shape"]
    for x in xs:
        if len(x.info["shape"]) != len(sh) or any(not _same(a, b) for a, b in zip(x.info["shape"], sh)):
            raise P.Unsupported("array of rows of different shape")

    def elem(j, *rest):
        j = z3.simplify(smt.num(j))
        if z3.is_int_value(j):
            n = j.as_long()
            return xs[n if 0 <= n < len(xs) else -1].info["elem"](*rest)
        r = xs[-1].info["elem"](*rest)
        for n in range(len(xs) - 2, -1, -1):
            r = ite(j == n, xs[n].info["elem"](*rest), r)
        return r
    return arr((len(xs),) + tuple(sh), elem)


def ite(c, a, b):
    if isinstance(a, (bool, P.SBool)) and isinstance(b, (bool, P.SBool)):
        z = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.z     # noqa: E731
        return P.SBool(z3.If(c, z(a), z(b)))
    a, b = P.anum(a), P.anum(b)
    az, bz = a.z, b.z
    if az.sort() != bz.sort():
        az, bz = P.zreal(az), P.zreal(bz)
    if a.plain and b.plain:
        return P.SNum(z3.If(c, az, bz))
    return P.SNum(z3.If(c, az, bz), z3.If(c, a.nan, b.nan), z3.If(c, a.pinf, b.pinf), z3.If(c, a.ninf, b.ninf))


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return smt._same(smt.num(a), smt.num(b))


def elementwise(it, f, *xs):
    ls = [lift(x, it) for x in xs]
    rank = max(len(x.info["shape"]) for x in ls)
    shape = []
    for ax in range(rank):
        ds = [x.info["shape"][ax - rank + len(x.info["shape"])] for x in ls if ax - rank + len(x.info["shape"]) >= 0]
        big = [d for d in ds if not (isinstance(d, int) and d == 1)]
        for d in big[1:]:
            if not _same(d, big[0]):
                if isinstance(d, int) and isinstance(big[0], int):
                    raise P.PyRaise(P.Exc(ValueError, ("operands could not be broadcast together",)))
                if not it.run.entails(smt.num(d) == smt.num(big[0])):
                    raise P.Unsupported("arrays of different length")
        shape.append(big[0] if big else 1)

    def elem(*i):
        v = []
        for x in ls:
            sh = x.info["shape"]
            ii = i[len(i) - len(sh):] if sh else ()
            v.append(x.info["elem"](*[z3.IntVal(0) if isinstance(d, int) and d == 1 else j for d, j in zip(sh, ii)]))
        return f(*v)
    return elem() if not shape else arr(shape, elem)


def exists(it, o, pred):
    """z3 Bool: some element satisfies pred"""
    sh, e = o.info["shape"], o.info["elem"]

    def go(ax, idx):
        if ax == len(sh):
            return pred(e(*idx))
        if isinstance(sh[ax], int):
            return P.zor(*[go(ax + 1, idx + [z3.IntVal(j)]) for j in range(sh[ax])]) if sh[ax] else P.FALSE
        return it.run.exists(sh[ax], lambda j: go(ax + 1, idx + [smt.num(j)]), "some")
    return go(0, [])


def f_any(it, a, k):
    if len(a) > 1 or k:
        raise P.Unsupported("any over an axis")
    return it.mkbool(exists(it, lift(a[0], it), lambda v: it.zb(it.truthz(v))))


def f_all(it, a, k):
    if len(a) > 1 or k:
        raise P.Unsupported("all over an axis")
    return it.mkbool(P.znot(exists(it, lift(a[0], it), lambda v: P.znot(it.zb(it.truthz(v))))))


def f_array(it, a, k):
    if isinstance(a[0], P.SObj) and getattr(a[0].model, "array", False):
        return a[0]
    return lift(a[0], it)


def f_stack(it, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    kind, s = it.iterate(a[0])
    if kind != "c":
        raise P.Unsupported("stack of a symbolic number of arrays")
    r = stack([lift(x, it) for x in s])
    n = len(r.info["shape"])
    ax = ax % n if isinstance(ax, int) else None
    if ax is None:
        raise P.Unsupported("stack axis")
    e, sh = r.info["elem"], list(r.info["shape"])
    first = sh.pop(0)
    sh.insert(ax, first)
    return arr(sh, lambda *i: e(i[ax], *[x for j, x in enumerate(i) if j != ax]))


def f_where(it, a, k):
    f = lambda c, x, y: _merge(it, it.zb(it.truthz(c)), x, y)       # noqa: E731
    return elementwise(it, f, *a)


def _merge(it, c, x, y):
    if z3.is_true(c):
        return x
    if z3.is_false(c):
        return y
    return ite(c, x, y)


def _ew(fn):
    def g(it, a, k):
        kk = {x: y for x, y in k.items() if x not in ("dtype", "out")}
        names, vals = list(kk), list(kk.values())
        n = len(a)
        vals2 = [v for v in list(a) + vals]
        some = [j for j, v in enumerate(vals2) if v is not None]
        return elementwise(it, lambda *v: fn(it, *_fill(vals2, some, v)[:n], **dict(zip(names, _fill(vals2, some, v)[n:]))), *[vals2[j] for j in some])
    return g


def _fill(tmpl, some, v):
    out = list(tmpl)
    for j, x in zip(some, v):
        out[j] = x
    return out


def _minmax(op):
    def g(it, a, b):
        return _merge(it, it.zb(it.truthz(it.compare1(op(), a, b))), a, b)
    return g


def f_minmax(op):
    def g(it, a, k):
        raise P.Unsupported("extremum of an array")
    return g


def f_cumsum(it, a, k):
    """running sums: c(0) = x(0), c(j) = c(j-1) + x(j); the equations are kept in run.cumsums for the proofs"""
    o = lift(a[0], it)
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if len(o.info["shape"]) != 1 or ax not in (None, 0, -1):
        raise P.Unsupported("cumsum along an axis")
    n, e = o.info["shape"][0], o.info["elem"]
    p = z3.Int("cumsum!probe")
    v = P.anum(e(p))
    if not v.plain:
        raise P.Unsupported("cumsum of non-finite numbers")
    body = z3.simplify(P.zreal(v.z))
    it.run.nocap(body, p)
    memo = it.run.__dict__.setdefault("cumsums", [])
    for c, b, m, _ in memo:
        if z3.eq(b, body) and _same(m, n):
            return arr([n], lambda j, c=c: P.SNum(c(smt.num(j))))
    c = z3.Function(it.run.env.name("cumsum"), z3.IntSort(), z3.RealSort())
    memo.append((c, body, n, lambda j: z3.substitute(body, (p, smt.num(j)))))
    return arr([n], lambda j: P.SNum(c(smt.num(j))))


def f_diff(it, a, k):
    o = lift(a[0], it)
    if len(a) > 1 or k or len(o.info["shape"]) != 1:
        raise P.Unsupported("diff")
    return it.binop(ast.Sub(), M.getitem(it, o, slice(1, None)), M.getitem(it, o, slice(None, -1)))


def flat(o):
    """all elements in row-major order, as a one-dimensional array of the evaluator"""
    sh, e = o.info["shape"], o.info["elem"]
    if len(sh) == 1:
        return P.SArr(smt.num(sh[0]), lambda j: P.anum(e(smt.num(j))))
    if len(sh) == 2:
        m = smt.num(sh[1])
        return P.SArr(smt.num(sh[0]) * m, lambda j: P.anum(e(smt.num(j) / m, smt.num(j) % m)))
    raise P.Unsupported("sum over an array of rank %d" % len(sh))


def f_sum(it, a, k):
    if len(a) > 1 or k:
        raise P.Unsupported("sum along an axis")
    o = lift(a[0], it)
    sh = o.info["shape"]
    if len(sh) == 1:
        n = z3.simplify(smt.num(sh[0]))
        if z3.is_int_value(n) and 1 <= n.as_long() <= 8:
            out = o.info["elem"](z3.IntVal(0))
            for j in range(1, n.as_long()):
                out = it.binop(ast.Add(), out, o.info["elem"](z3.IntVal(j)))
            return out
    return P.m_sum(it, flat(o)) if sh else o.info["elem"]()


def f_mean(it, a, k):
    o = lift(a[0], it)
    n = z3.IntVal(1)
    for d in o.info["shape"]:
        n = n * smt.num(d)
    return it.binop(ast.Div(), f_sum(it, a, k), P.SNum(z3.simplify(n)))


def f_ones_like(c):
    return lambda it, a, k: elementwise(it, lambda x: P.SNum(z3.RealVal(c)), a[0])


FUNCS = dict(any=f_any, all=f_all, array=f_array, asarray=f_array, atleast_1d=lambda it, a, k: lift(a[0], it) if lift(a[0], it).info["shape"] else arr([1], lambda j: lift(a[0], it).info["elem"]()),
             sum=f_sum, mean=f_mean, stack=f_stack, cumsum=f_cumsum, diff=f_diff, where=f_where, log10=_ew(lambda it, v: log10(it, v)), log=_ew(P.n_log), clip=_ew(P.n_clip),
             isnan=_ew(P.n_isnan), isneginf=_ew(P.n_isneginf), isposinf=_ew(P.n_isposinf), isfinite=_ew(P.n_isfinite), maximum=_ew(_minmax(ast.GtE)), minimum=_ew(_minmax(ast.LtE)), min=f_minmax("min"), max=f_minmax("max"),
             logical_and=_ew(lambda it, x, y: it.mkbool(P.zand(it.zb(it.truthz(x)), it.zb(it.truthz(y))))), logical_or=_ew(lambda it, x, y: it.mkbool(P.zor(it.zb(it.truthz(x)), it.zb(it.truthz(y))))),
             abs=_ew(lambda it, x: P.m_abs(it, x)), absolute=_ew(lambda it, x: P.m_abs(it, x)),
             logical_not=_ew(lambda it, x: it.mkbool(P.znot(it.zb(it.truthz(x))))), ones_like=f_ones_like(1), zeros_like=f_ones_like(0),
             less_equal=_ew(lambda it, x, y: it.compare1(ast.LtE(), x, y)), less=_ew(lambda it, x, y: it.compare1(ast.Lt(), x, y)),
             transpose=lambda it, a, k: M.getattr(it, lift(a[0], it), "T"))
LOG10 = z3.Function("math_log10", z3.RealSort(), z3.RealSort())


def log10(it, v):
    v = P.anum(v)
    x = P.zreal(v.z)
    if v.plain and it.run.entails(x > 0):
        return P.SNum(LOG10(x))
    return P.SNum(LOG10(x), P.zor(v.nan, v.ninf, P.zand(v.finite, x < 0)), v.pinf, P.zand(v.finite, x == 0))


def contracts():
    """the functions of numpy and jax.numpy on these arrays; other arguments go to the evaluator's own models"""
    import jax.numpy as jnp
    out = {}
    for np_ in (np, jnp):
        for k, f in FUNCS.items():
            o = getattr(np_, k, None)
            if o is None:
                continue

            def c(it, a, kw, f=f, o=o, k=k):
                def some(v):
                    return is_nd(v) or isinstance(v, (tuple, list)) and any(some(x) for x in v) or isinstance(v, P.MList) and v.concrete() is not None and any(some(x) for x in v.concrete())
                if k in ("array", "asarray") or any(some(x) for x in list(a) + list(kw.values())):
                    return f(it, list(a), dict(kw))
                m = it.models.get(o)
                if m is None:
                    return f(it, list(a), dict(kw))
                return m(it, *a, **kw)
            out[o] = c
    return out
