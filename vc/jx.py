"""Front end 1: jaxpr -> logic.

The functions of /repo that run on arrays are traced (jax.make_jaxpr) from the current source on
every run, with symbolic (unbounded) array sizes; the resulting jaxpr - the program XLA is given -
is evaluated over logical terms.  An array is a shape and a closure index -> element.  Dropped by
this extraction: floating point rounding, overflow and NaN propagation (floats are reals carrying a
"well defined" flag: divisions by zero, roots and logarithms outside their domain, and
out-of-bounds fills are not well defined), 32-bit integer wrap-around.
"""
import functools
import itertools
import sys
from fractions import Fraction

import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import export as jexport
from jax.extend import core as jcore
from jax.interpreters import batching
from jax._src import core as _core

from .smt import num

sys.setrecursionlimit(200000)
z3.set_param("pp.max_depth", 50)


class Unsupported(Exception):
    pass


class Inf:
    """+-infinity literal"""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "%sinf" % ("+" if self.s > 0 else "-")


class KeyTok:
    """random keys as a free algebra: ('in', name) | ('split', parent, i) | ('bits', ...)"""

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, KeyTok) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return "K%r" % (self.term,)


class KeyWord:
    def __init__(self, key, w):
        self.key, self.w = key, w


class El:
    """an element: value (python number, z3 term, Inf, key token) and well-definedness"""
    __slots__ = ("v", "wd")

    def __init__(self, v, wd=True):
        self.v, self.wd = v, wd

    def __repr__(self):
        return "El(%s, %s)" % (self.v, self.wd)


def isnum(x):
    return isinstance(x, (int, Fraction, bool)) and not isinstance(x, z3.ExprRef)


def band(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def bor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def bnot(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isnum(a) and isnum(b) and a == b and type(a) is type(b):
        return a
    if isinstance(a, (KeyTok, KeyWord)) or isinstance(b, (KeyTok, KeyWord)):
        raise Unsupported("data dependent choice of random keys")
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    if z3.eq(a, b):
        return a
    return z3.If(c, a, b)


def toreal(x):
    if isnum(x):
        return Fraction(x)
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def idiv_floor(x):
    return x


def lift2(f):
    """binary arithmetic on values with python constant folding"""
    return f


def coerce2(a, b):
    if isnum(a) and isnum(b):
        return a, b
    if isnum(a):
        a = num(Fraction(a)) if z3.is_real(b) else num(int(a)) if z3.is_int(b) and not isinstance(a, Fraction) else num(a)
    if isnum(b):
        b = num(Fraction(b)) if z3.is_real(a) else num(int(b)) if z3.is_int(a) and not isinstance(b, Fraction) else num(b)
    if a.sort() != b.sort():
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        elif z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
    return a, b


def add(a, b):
    if isnum(a) and a == 0 and not isnum(b):
        return b
    if isnum(b) and b == 0 and not isnum(a):
        return a
    a, b = coerce2(a, b)
    return a + b


def sub(a, b):
    if isnum(b) and b == 0 and not isnum(a):
        return a
    a, b = coerce2(a, b)
    return a - b


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 1:
                return y
            if x == 0:
                return 0 if isnum(y) else (Fraction(0) if z3.is_real(y) else 0)
    a, b = coerce2(a, b)
    return a * b


def lt(a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        sa = a.s if isinstance(a, Inf) else 0
        sb = b.s if isinstance(b, Inf) else 0
        return sa < sb
    a, b = coerce2(a, b)
    return a < b


def le(a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        sa = a.s if isinstance(a, Inf) else 0
        sb = b.s if isinstance(b, Inf) else 0
        return sa <= sb
    a, b = coerce2(a, b)
    return a <= b


def eqv(a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        return isinstance(a, Inf) and isinstance(b, Inf) and a.s == b.s
    a, b = coerce2(a, b)
    r = a == b
    return r


def sel_el(c, a, b):
    """ite on elements (c: bool value)"""
    if c is True:
        return a
    if c is False:
        return b
    wd = band(bor(bnot(c), a.wd), bor(c, b.wd))
    av, bv = a.v, b.v
    if isinstance(av, Inf) and isinstance(bv, Inf) and av.s == bv.s:
        return El(av, wd)
    if isinstance(av, Inf):
        wd = band(wd, bnot(c))
        return El(bv, wd)
    if isinstance(bv, Inf):
        wd = band(wd, c)
        return El(av, wd)
    return El(ite(c, av, bv), wd)


class Arr:
    def __init__(self, shape, dtype, fn, memo=True):
        self.shape, self.dtype = tuple(shape), dtype
        self._fn, self._memo = fn, {} if memo else None

    @property
    def rank(self):
        return len(self.shape)

    def __call__(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        assert len(idx) == len(self.shape), (idx, self.shape)
        if self._memo is None:
            return self._fn(tuple(idx))
        k = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        r = self._memo.get(k)
        if r is None:
            r = (self._fn(tuple(idx)), idx)
            self._memo[k] = r
        return r[0]


def const_arr(x):
    x = np.asarray(x)
    return Arr(x.shape, x.dtype, lambda idx: El(pyval(x[_cidx(idx)] if idx else x[()])))


def _cidx(idx):
    if not all(isinstance(i, int) for i in idx):
        raise Unsupported("symbolic index into a constant array")
    return idx


def pyval(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    f = float(v)
    if f == float("inf"):
        return Inf(1)
    if f == float("-inf"):
        return Inf(-1)
    if f != f:
        return NAN
    return Fraction(f)


class _Nan:
    pass


NAN = _Nan()


def kind(dtype):
    k = np.dtype(dtype).kind if not str(dtype).startswith("key") else "k"
    return {"f": "f", "i": "i", "u": "u", "b": "b"}.get(k, k)


def sort_of(dtype):
    return {"f": z3.RealSort(), "i": z3.IntSort(), "u": z3.IntSort(), "b": z3.BoolSort()}[kind(dtype)]


# ------------------------------------------------------------------ stub primitives (contracts)
def _new_prim(name, multiple=False):
    p = jcore.Primitive(name)
    p.multiple_results = multiple
    return p


ss_p = _new_prim("vc_searchsorted")


@ss_p.def_abstract_eval
def _ss_abs(a, v, *, side, nb):
    return _core.ShapedArray(v.shape, np.dtype("int32"))


def _ss_batch(args, dims, *, side, nb):
    a, v = args
    da, dv = dims
    size = a.shape[da] if da is not None else v.shape[dv]
    if da is None:
        a = jnp.broadcast_to(a, (size,) + tuple(a.shape))
    else:
        a = jnp.moveaxis(a, da, 0)
    if dv is None:
        v = jnp.broadcast_to(v, (size,) + tuple(v.shape))
    else:
        v = jnp.moveaxis(v, dv, 0)
    return ss_p.bind(a, v, side=side, nb=nb + 1), 0


batching.primitive_batchers[ss_p] = _ss_batch

interp_p = _new_prim("vc_interp")


@interp_p.def_abstract_eval
def _in_abs(x, xp, fp):
    return _core.ShapedArray(x.shape, np.dtype("float32"))


linspace_p = _new_prim("vc_linspace")


@linspace_p.def_abstract_eval
def _ls_abs(lo, hi, *, n):
    return _core.ShapedArray((n,) + tuple(lo.shape), np.dtype("float32"))


# random draws: one primitive, contract per distribution (Interp.p_vc_draw)
draw_p = _new_prim("vc_draw")


@draw_p.def_abstract_eval
def _dr_abs(key, *params, dist, shape, dtype, nb):
    lead = tuple(key.shape[:nb])
    return _core.ShapedArray(lead + tuple(shape), np.dtype(dtype))


def _dr_batch(args, dims, *, dist, shape, dtype, nb):
    if dims[0] is None or any(d is not None for d in dims[1:]):
        raise Unsupported("vmap over the parameters of a draw")
    return draw_p.bind(jnp.moveaxis(args[0], dims[0], 0), *args[1:], dist=dist, shape=shape, dtype=dtype, nb=nb + 1), 0


batching.primitive_batchers[draw_p] = _dr_batch


def _rshape(shape, *params):
    if shape is None:
        return jnp.broadcast_shapes(*[jnp.shape(p) for p in params])
    if isinstance(shape, (int, np.integer)) or not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return tuple(shape)


def _draw(dist, key, params, shape, dtype):
    ps = [jnp.broadcast_to(jnp.asarray(p), shape) for p in params]
    return draw_p.bind(key, *ps, dist=dist, shape=tuple(shape), dtype=np.dtype(dtype).name, nb=0)


def _fl(dtype):
    return np.dtype("float32") if dtype is None or dtype is float else np.dtype(dtype)


def _it(dtype):
    return np.dtype("int32") if dtype is None or dtype is int else np.dtype(dtype)


def _r_uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0, **kw):
    _nokw(kw)
    return _draw("uniform", key, [jnp.asarray(minval, "float32"), jnp.asarray(maxval, "float32")], _rshape(shape), _fl(dtype))


def _r_normal(key, shape=(), dtype=None, **kw):
    _nokw(kw)
    return _draw("normal", key, [], _rshape(shape), _fl(dtype))


def _r_poisson(key, lam, shape=None, dtype=None, **kw):
    _nokw(kw)
    return _draw("poisson", key, [jnp.asarray(lam, "float32")], _rshape(shape, lam), _it(dtype))


def _r_gamma(key, a, shape=None, dtype=None, **kw):
    _nokw(kw)
    return _draw("gamma", key, [jnp.asarray(a, "float32")], _rshape(shape, a), _fl(dtype))


def _r_bernoulli(key, p=0.5, shape=None, mode="low", **kw):
    _nokw(kw)
    return _draw("bernoulli", key, [jnp.asarray(p, "float32")], _rshape(shape, p), np.dtype("bool"))


def _r_binomial(key, n, p, shape=None, dtype=None, **kw):
    _nokw(kw)
    return _draw("binomial", key, [jnp.asarray(n, "float32"), jnp.asarray(p, "float32")], _rshape(shape, n, p), _fl(dtype))


def _r_exponential(key, shape=(), dtype=None, **kw):
    _nokw(kw)
    return _draw("exponential", key, [], _rshape(shape), _fl(dtype))


def _nokw(kw):
    kw.pop("out_sharding", None)
    if kw:
        raise Unsupported("arguments %s of a random draw" % sorted(kw))


_RANDOM_STUBS = {"uniform": _r_uniform, "normal": _r_normal, "poisson": _r_poisson, "gamma": _r_gamma,
                 "bernoulli": _r_bernoulli, "binomial": _r_binomial, "exponential": _r_exponential}
_orig = {}


def _stub_searchsorted(a, v, side="left", **kw):
    if kw.pop("sorter", None) is not None:
        raise Unsupported("searchsorted with sorter")
    kw.pop("method", None)
    if kw:
        raise Unsupported("searchsorted arguments %s" % sorted(kw))
    a, v = jnp.asarray(a), jnp.asarray(v)
    if a.ndim != 1:
        raise ValueError("a should be 1-dimensional")
    return ss_p.bind(a, v, side=side, nb=0)


def _stub_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp with left/right/period")
    x, xp, fp = (jnp.asarray(t, dtype="float32") for t in (x, xp, fp))
    if xp.ndim != 1 or fp.ndim != 1:
        raise ValueError("xp and fp must be one-dimensional")
    return interp_p.bind(x, xp, fp)


def _stub_linspace(start, stop, n=50, endpoint=True, retstep=False, dtype=None, axis=0, num=None, **kw):
    if num is not None:
        n = num
    if not endpoint or retstep or dtype is not None or axis != 0 or kw:
        raise Unsupported("linspace options")
    start, stop = jnp.asarray(start, dtype="float32"), jnp.asarray(stop, dtype="float32")
    start, stop = jnp.broadcast_arrays(start, stop)
    return linspace_p.bind(start, stop, n=n)


def _stub_len(x):
    if isinstance(x, jax.core.Tracer):
        return x.shape[0]
    return len(x)


class stubs:
    """dependency contracts in place of jnp.searchsorted / jnp.interp / jnp.linspace while tracing"""
    names = {"searchsorted": _stub_searchsorted, "interp": _stub_interp, "linspace": _stub_linspace}

    def __enter__(self):
        self.saved = {k: getattr(jnp, k) for k in self.names}
        for k, f in self.names.items():
            setattr(jnp, k, f)
        self.rsaved = {k: getattr(jax.random, k) for k in _RANDOM_STUBS}
        for k, f in _RANDOM_STUBS.items():
            setattr(jax.random, k, f)
        # len() insists on a machine integer; while tracing, len(array) in the modules of the
        # repository is the (symbolic) leading dimension
        self.mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "appletree" and m is not None
                     and "len" not in vars(m)]
        for m in self.mods:
            m.len = _stub_len
        return self

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(jnp, k, f)
        for k, f in self.rsaved.items():
            setattr(jax.random, k, f)
        for m in self.mods:
            vars(m).pop("len", None)


# ------------------------------------------------------------------ tracing
class Dims:
    """named symbolic dimensions, shared between jax and the logic"""

    def __init__(self, env, names, constraints=()):
        self.env = env
        self.syms = dict(zip(names, jexport.symbolic_shape(",".join(names), constraints=list(constraints)))) if names else {}
        self.z = {n: z3.Int(env.name(n)) for n in names}
        for n in names:
            env.require(self.z[n] >= 1)

    def __getitem__(self, n):
        return self.syms[n]

    def term(self, d):
        if isinstance(d, (int, np.integer)):
            return int(d)
        try:
            r = d._evaluate(self.z)
        except Exception as e:
            raise Unsupported("dimension %s: %s" % (d, e))
        return r

    def shape(self, sh):
        return tuple(self.term(d) for d in sh)


def trace(fn, args, kwargs=None):
    """args: ShapeDtypeStructs or concrete values; returns ClosedJaxpr"""
    jax.clear_caches()
    with stubs():
        try:
            cj, out_shape = jax.make_jaxpr(fn, return_shape=True)(*args)
        finally:
            jax.clear_caches()
    return cj, out_shape


SDS = jax.ShapeDtypeStruct


class Interp:
    def __init__(self, env, dims, contracts=None, label=""):
        self.env, self.dims = env, dims
        self.contracts = dict(DEFAULT_CONTRACTS)
        if contracts:
            self.contracts.update(contracts)
        self.label = label
        self.ufs = {}
        self.depth = 0
        self.argext = []

    # ---- inputs
    def sym_array(self, name, shape, dtype):
        shape = self.dims.shape(shape)
        srt = sort_of(dtype)
        if not shape:
            c = z3.Const(self.env.name(name), srt)
            return Arr((), dtype, lambda idx: El(c))
        f = z3.Function(self.env.name(name), *([z3.IntSort()] * len(shape)), srt)
        a = Arr(shape, dtype, lambda idx: El(f(*[num(i) for i in idx])))
        a.uf = f
        return a

    def key_array(self, name="key"):
        k = KeyTok(("in", name))
        return Arr((2,), np.dtype("uint32"), lambda idx: El(KeyWord(k, idx[0])))

    # ---- run
    def run(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, closed.consts, args)

    def eval_jaxpr(self, jaxpr, consts, args):
        envd = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                dt = getattr(v.aval, "dtype", None)
                if dt is not None and np.asarray(v.val).dtype.kind == "f" and np.dtype(dt).kind == "f":
                    return const_arr(np.asarray(v.val, dtype=dt))
                return const_arr(v.val)
            return envd[v]

        for v, c in zip(jaxpr.constvars, consts):
            envd[v] = c if isinstance(c, Arr) else const_arr(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            envd[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if isinstance(outs, Arr):
                outs = [outs]
            assert len(outs) == len(eqn.outvars), eqn.primitive.name
            for v, o in zip(eqn.outvars, outs):
                envd[v] = o
        return [read(v) for v in jaxpr.outvars]

    def oshape(self, eqn, k=0):
        av = eqn.outvars[k].aval
        return self.dims.shape(av.shape), av.dtype

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        if name in ("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call", "custom_vjp_call"):
            p = eqn.params
            cj = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
            fname = p.get("name", "")
            if fname in self.contracts:
                r = self.contracts[fname](self, eqn, ins)
                if r is not None:
                    return r
            if hasattr(cj, "jaxpr"):
                return self.eval_jaxpr(cj.jaxpr, cj.consts, ins)
            return self.eval_jaxpr(cj, (), ins)
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if h is None:
            raise Unsupported("primitive %s" % name)
        return h(eqn, ins)

    # ---- elementwise
    def _ew(self, eqn, ins, f):
        shape, dt = self.oshape(eqn)

        def fn(idx):
            els = []
            for a in ins:
                if a.rank == 0:
                    els.append(a(()))
                else:
                    els.append(a(tuple(0 if (isinstance(d, int) and d == 1) else i for d, i in zip(a.shape, idx))))
            return f(*els)
        return Arr(shape, dt, fn)

    def p_add(self, eqn, ins):
        def f(a, b):
            if isinstance(a.v, Inf) or isinstance(b.v, Inf):
                if isinstance(a.v, Inf) and isinstance(b.v, Inf) and a.v.s != b.v.s:
                    return El(Fraction(0), False)
                return El(a.v if isinstance(a.v, Inf) else b.v, band(a.wd, b.wd))
            return El(add(a.v, b.v), band(a.wd, b.wd))
        return self._ew(eqn, ins, f)

    p_add_any = p_add

    def p_sub(self, eqn, ins):
        def f(a, b):
            if isinstance(a.v, Inf) or isinstance(b.v, Inf):
                return El(Fraction(0), False)
            return El(sub(a.v, b.v), band(a.wd, b.wd))
        return self._ew(eqn, ins, f)

    def p_mul(self, eqn, ins):
        def f(a, b):
            if isinstance(a.v, Inf) or isinstance(b.v, Inf):
                return El(Fraction(0), False)
            return El(mul(a.v, b.v), band(a.wd, b.wd))
        return self._ew(eqn, ins, f)

    def p_neg(self, eqn, ins):
        def f(a):
            if isinstance(a.v, Inf):
                return El(Inf(-a.v.s), a.wd)
            return El(-a.v, a.wd)
        return self._ew(eqn, ins, f)

    def p_div(self, eqn, ins):
        shape, dt = self.oshape(eqn)
        isint = kind(dt) in "iu"

        def f(a, b):
            if isinstance(a.v, Inf) or isinstance(b.v, Inf):
                return El(Fraction(0), False)
            if isint:
                if isnum(b.v) and b.v > 0 and not isnum(a.v):
                    q = num(a.v) / num(b.v)
                    return El(z3.If(num(a.v) >= 0, q, -((-num(a.v)) / num(b.v))), band(a.wd, b.wd))
                if isnum(a.v) and isnum(b.v) and b.v != 0:
                    return El(int(Fraction(a.v, b.v)), band(a.wd, b.wd))
                raise Unsupported("integer division")
            if isnum(a.v) and isnum(b.v):
                if b.v == 0:
                    return El(Fraction(0), False)
                return El(Fraction(a.v) / Fraction(b.v), band(a.wd, b.wd))
            if isnum(b.v):
                if b.v == 0:
                    return El(Fraction(0), False)
                return El(mul(Fraction(1) / Fraction(b.v), a.v), band(a.wd, b.wd))
            x, y = toreal(num(a.v)), toreal(num(b.v))
            return El(x / y, band(a.wd, b.wd, y != 0))
        return self._ew(eqn, ins, f)

    def p_rem(self, eqn, ins):
        def f(a, b):
            if isnum(a.v) and isnum(b.v) and b.v != 0 and a.v >= 0:
                return El(a.v % b.v, band(a.wd, b.wd))
            if isnum(b.v) and isinstance(b.v, int) and b.v > 0:
                r = num(a.v) % num(b.v)
                return El(z3.If(num(a.v) >= 0, r, -((-num(a.v)) % num(b.v))), band(a.wd, b.wd))
            raise Unsupported("rem")
        return self._ew(eqn, ins, f)

    def p_max(self, eqn, ins):
        return self._ew(eqn, ins, el_max)

    def p_min(self, eqn, ins):
        return self._ew(eqn, ins, el_min)

    def p_clamp(self, eqn, ins):
        return self._ew(eqn, ins, lambda lo, x, hi: el_min(el_max(lo, x), hi))

    def _cmp(self, eqn, ins, f):
        return self._ew(eqn, ins, lambda a, b: El(f(a.v, b.v), band(a.wd, b.wd)))

    def p_lt(self, eqn, ins):
        return self._cmp(eqn, ins, lt)

    def p_le(self, eqn, ins):
        return self._cmp(eqn, ins, le)

    def p_gt(self, eqn, ins):
        return self._cmp(eqn, ins, lambda a, b: lt(b, a))

    def p_ge(self, eqn, ins):
        return self._cmp(eqn, ins, lambda a, b: le(b, a))

    def p_eq(self, eqn, ins):
        return self._cmp(eqn, ins, eqv)

    def p_ne(self, eqn, ins):
        return self._cmp(eqn, ins, lambda a, b: bnot(eqv(a, b)))

    def p_and(self, eqn, ins):
        if kind(self.oshape(eqn)[1]) != "b":
            raise Unsupported("bitwise and")
        return self._ew(eqn, ins, lambda a, b: El(band(a.v, b.v), band(a.wd, b.wd)))

    def p_or(self, eqn, ins):
        if kind(self.oshape(eqn)[1]) != "b":
            raise Unsupported("bitwise or")
        return self._ew(eqn, ins, lambda a, b: El(bor(a.v, b.v), band(a.wd, b.wd)))

    def p_xor(self, eqn, ins):
        if kind(self.oshape(eqn)[1]) != "b":
            raise Unsupported("bitwise xor")
        return self._ew(eqn, ins, lambda a, b: El(z3.Xor(num(a.v), num(b.v)), band(a.wd, b.wd)))

    def p_not(self, eqn, ins):
        if kind(self.oshape(eqn)[1]) != "b":
            raise Unsupported("bitwise not")
        return self._ew(eqn, ins, lambda a: El(bnot(a.v), a.wd))

    def p_select_n(self, eqn, ins):
        c = ins[0]
        if kind(c.dtype) == "b":
            def f(cc, *cs):
                r = sel_el(cc.v, cs[1], cs[0])
                return El(r.v, band(cc.wd, r.wd))
        else:
            def f(cc, *cs):
                r = cs[-1]
                for k in range(len(cs) - 2, -1, -1):
                    r = sel_el(eqv(cc.v, k), cs[k], r)
                return El(r.v, band(cc.wd, r.wd))
        return self._ew(eqn, ins, f)

    def p_abs(self, eqn, ins):
        def f(a):
            if isnum(a.v):
                return El(abs(a.v), a.wd)
            return El(z3.If(a.v >= 0, a.v, -a.v), a.wd)
        return self._ew(eqn, ins, f)

    def p_sign(self, eqn, ins):
        def f(a):
            if isnum(a.v):
                return El(type(a.v)((a.v > 0) - (a.v < 0)), a.wd)
            one = z3.RealVal(1) if z3.is_real(a.v) else z3.IntVal(1)
            return El(z3.If(a.v > 0, one, z3.If(a.v < 0, -one, one - one)), a.wd)
        return self._ew(eqn, ins, f)

    def p_floor(self, eqn, ins):
        def f(a):
            if isnum(a.v):
                return El(Fraction(a.v.__floor__()), a.wd)
            return El(z3.ToReal(z3.ToInt(a.v)), a.wd)
        return self._ew(eqn, ins, f)

    def p_ceil(self, eqn, ins):
        def f(a):
            if isnum(a.v):
                return El(Fraction(a.v.__ceil__()), a.wd)
            return El(-z3.ToReal(z3.ToInt(-a.v)), a.wd)
        return self._ew(eqn, ins, f)

    def p_round(self, eqn, ins):
        """round: an integer at distance at most 1/2 (ties unspecified)"""
        uf = self.uf("round", 1, z3.IntSort())

        def f(a):
            if isnum(a.v):
                return El(Fraction(round(a.v)), a.wd)
            r = uf(a.v)
            self.env.fact(z3.And(z3.ToReal(r) - a.v <= num(Fraction(1, 2)), a.v - z3.ToReal(r) <= num(Fraction(1, 2))))
            return El(z3.ToReal(r), a.wd)
        return self._ew(eqn, ins, f)

    def p_is_finite(self, eqn, ins):
        def f(a):
            if isinstance(a.v, Inf):
                return El(False)
            return El(a.wd)
        return self._ew(eqn, ins, f)

    def uf(self, name, arity, ret=None):
        """mathematical functions are uninterpreted; one symbol per environment"""
        ret = ret if ret is not None else z3.RealSort()
        return z3.Function("math_" + name, *([z3.RealSort()] * arity), ret)

    def _math(self, eqn, ins, name, dom=None, ax=None, exact=None):
        uf = self.uf(name, len(ins))

        def f(*els):
            vs = []
            wd = band(*[e.wd for e in els])
            for e in els:
                if isinstance(e.v, Inf):
                    return El(Fraction(0), False)
                vs.append(e.v)
            if exact is not None and all(isnum(v) for v in vs):
                r = exact(*vs)
                if r is not None:
                    return El(r, wd)
            vz = [toreal(num(Fraction(v)) if isnum(v) else v) for v in vs]
            t = uf(*vz)
            if dom is not None:
                wd = band(wd, dom(*vz))
            if ax is not None:
                for a in ax(t, *vz):
                    self.env.fact(a)
            return El(t, wd)
        return self._ew(eqn, ins, f)

    def p_sqrt(self, eqn, ins):
        return self._math(eqn, ins, "sqrt", lambda x: x >= 0,
                          lambda t, x: [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))],
                          lambda x: Fraction(x) if x in (0, 1) else None)

    def p_rsqrt(self, eqn, ins):
        return self._math(eqn, ins, "rsqrt", lambda x: x > 0,
                          lambda t, x: [z3.Implies(x > 0, z3.And(t > 0, t * t * x == 1))])

    def p_square(self, eqn, ins):
        return self._ew(eqn, ins, lambda a: El(mul(a.v, a.v), a.wd))

    def p_exp(self, eqn, ins):
        return self._math(eqn, ins, "exp", None,
                          lambda t, x: [t > 0, z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1), t >= 1 + x],
                          lambda x: Fraction(1) if x == 0 else None)

    def p_exp2(self, eqn, ins):
        return self._math(eqn, ins, "exp2", None, lambda t, x: [t > 0])

    def p_expm1(self, eqn, ins):
        return self._math(eqn, ins, "expm1", None, lambda t, x: [t > -1, z3.Implies(x <= 0, t <= 0), z3.Implies(x >= 0, t >= 0), t >= x])

    def p_log(self, eqn, ins):
        return self._math(eqn, ins, "log", lambda x: x > 0,
                          lambda t, x: [z3.Implies(x >= 1, t >= 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0),
                                        z3.Implies(z3.And(x > 0, x <= 1), t <= 0), z3.Implies(x > 0, t <= x - 1)],
                          lambda x: Fraction(0) if x == 1 else None)

    def p_log1p(self, eqn, ins):
        return self._math(eqn, ins, "log1p", lambda x: x > -1,
                          lambda t, x: [z3.Implies(x >= 0, z3.And(t >= 0, t <= x)), z3.Implies(z3.And(x > -1, x <= 0), t <= 0)])

    def p_tanh(self, eqn, ins):
        return self._math(eqn, ins, "tanh", None, lambda t, x: [t > -1, t < 1])

    def p_logistic(self, eqn, ins):
        return self._math(eqn, ins, "logistic", None, lambda t, x: [t > 0, t < 1])

    def p_erf(self, eqn, ins):
        return self._math(eqn, ins, "erf", None, lambda t, x: [t > -1, t < 1, z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0)],
                          lambda x: Fraction(0) if x == 0 else None)

    def p_sin(self, eqn, ins):
        return self._trig(eqn, ins, True)

    def p_cos(self, eqn, ins):
        return self._trig(eqn, ins, False)

    def _trig(self, eqn, ins, issin):
        S, C = self.uf("sin", 1), self.uf("cos", 1)

        def f(a):
            if isinstance(a.v, Inf):
                return El(Fraction(0), False)
            v = toreal(num(Fraction(a.v)) if isnum(a.v) else a.v)
            s, c = S(v), C(v)
            self.env.fact(s * s + c * c == 1)
            return El(s if issin else c, a.wd)
        return self._ew(eqn, ins, f)

    def p_pow(self, eqn, ins):
        gen = self._pow_general(eqn, ins)
        shape, dt = self.oshape(eqn)
        a, b = ins

        def fn(idx):
            y = b(idx if b.rank else ()).v
            if isnum(y) and Fraction(y).denominator == 1 and 0 < abs(int(y)) <= 6:
                x = a(tuple(0 if (isinstance(d, int) and d == 1) else i for d, i in zip(a.shape, idx)) if a.rank else ())
                if isinstance(x.v, Inf):
                    return El(Fraction(0), False)
                n, r = int(y), 1
                for _ in range(abs(n)):
                    r = mul(r, x.v)
                if n > 0:
                    return El(r, x.wd)
                if isnum(r):
                    return El(Fraction(1) / Fraction(r) if r != 0 else Fraction(0), x.wd if r != 0 else False)
                return El(1 / toreal(r), band(x.wd, toreal(r) != 0))
            return gen(idx)
        return Arr(shape, dt, fn)

    def _pow_general(self, eqn, ins):
        return self._math(eqn, ins, "pow", lambda x, y: z3.Or(x > 0, z3.And(x == 0, y >= 0)),
                          lambda t, x, y: [z3.Implies(x > 0, t > 0), z3.Implies(z3.And(x >= 1, y >= 0), t >= 1),
                                           z3.Implies(z3.And(x == 0, y > 0), t == 0),
                                           z3.Implies(x == 1, t == 1), z3.Implies(z3.And(x > 0, y == 0), t == 1)])

    def p_integer_pow(self, eqn, ins):
        y = eqn.params["y"]

        def f(a):
            if isinstance(a.v, Inf):
                return El(Fraction(0), False)
            n = abs(y)
            r = 1
            for _ in range(n):
                r = mul(r, a.v)
            if y < 0:
                if isnum(r):
                    return El(Fraction(1) / Fraction(r) if r != 0 else Fraction(0), a.wd if r != 0 else False)
                return El(1 / toreal(r), band(a.wd, toreal(r) != 0))
            return El(r, a.wd)
        return self._ew(eqn, ins, f)

    def p_convert_element_type(self, eqn, ins):
        (a,) = ins
        shape, dt = self.oshape(eqn)
        kf, kt = kind(a.dtype), kind(dt)

        def f(e):
            v = e.v
            if kf == kt or isinstance(v, (KeyTok, KeyWord)):
                return e
            if kf in "iu" and kt in "iu":
                return e
            if isinstance(v, Inf):
                return El(0, False) if kt in "iu" else e
            if v is NAN:
                return El(Fraction(0), False)
            if kt == "f":
                if isnum(v):
                    return El(Fraction(int(v) if isinstance(v, bool) else v), e.wd)
                return El(toreal(v), e.wd)
            if kt in "iu":
                if isnum(v):
                    return El(int(v), e.wd)
                if kf == "b":
                    return El(z3.If(v, z3.IntVal(1), z3.IntVal(0)), e.wd)
                if z3.is_int(v):
                    return e
                if v.decl().kind() == z3.Z3_OP_TO_REAL:
                    return El(v.arg(0), e.wd)
                return El(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), e.wd)
            if kt == "b":
                if isnum(v):
                    return El(v != 0, e.wd)
                return El(v != 0, e.wd)
            raise Unsupported("convert %s -> %s" % (a.dtype, dt))
        return self._ew(eqn, ins, f)

    def p_copy(self, eqn, ins):
        return ins[0]

    p_copy_p = p_copy
    p_stop_gradient = p_copy
    p_optimization_barrier = lambda self, eqn, ins: list(ins)

    def p_dim_as_value(self, eqn, ins):
        d = self.dims.term(eqn.params["dim"])
        return Arr((), np.dtype("int32"), lambda idx: El(d))

    # ---- structure
    def p_broadcast_in_dim(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        bd = eqn.params["broadcast_dimensions"]

        def fn(idx):
            return a(tuple(0 if (isinstance(a.shape[k], int) and a.shape[k] == 1) else idx[bd[k]] for k in range(a.rank)))
        return Arr(shape, dt, fn)

    def p_squeeze(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        dd = set(d % a.rank for d in eqn.params["dimensions"])

        def fn(idx):
            it = iter(idx)
            return a(tuple(0 if k in dd else next(it) for k in range(a.rank)))
        return Arr(shape, dt, fn)

    def p_expand_dims(self, eqn, ins):
        raise Unsupported("expand_dims")

    def p_reshape(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)

        def core(s):
            return [(k, d) for k, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
        ca, cb = core(a.shape), core(shape)
        if len(ca) == len(cb) and all(_deq(x[1], y[1]) for x, y in zip(ca, cb)):
            def fn(idx):
                full = [0] * a.rank
                for (ka, _), (kb, _) in zip(ca, cb):
                    full[ka] = idx[kb]
                return a(tuple(full))
            return Arr(shape, dt, fn)
        if all(isinstance(d, int) for d in tuple(a.shape) + tuple(shape)):
            def fn(idx):
                if not all(isinstance(i, int) for i in idx):
                    raise Unsupported("reshape with symbolic index")
                lin = 0
                for i, d in zip(idx, shape):
                    lin = lin * d + i
                full = []
                for d in reversed(a.shape):
                    full.append(lin % d)
                    lin //= d
                return a(tuple(reversed(full)))
            return Arr(shape, dt, fn)
        raise Unsupported("reshape %s -> %s" % (a.shape, shape))

    def p_transpose(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        perm = eqn.params["permutation"]

        def fn(idx):
            full = [None] * a.rank
            for k, p in enumerate(perm):
                full[p] = idx[k]
            return a(tuple(full))
        return Arr(shape, dt, fn)

    def p_concatenate(self, eqn, ins):
        shape, dt = self.oshape(eqn)
        ax = eqn.params["dimension"]

        def fn(idx):
            off = 0
            i = idx[ax]
            if isinstance(i, int) and all(isinstance(a.shape[ax], int) for a in ins):
                for a in ins:
                    if i < off + a.shape[ax]:
                        return a(idx[:ax] + (i - off,) + idx[ax + 1:])
                    off += a.shape[ax]
                raise Unsupported("concatenate index")
            parts = []
            for a in ins:
                parts.append((off, a))
                off = add(off, a.shape[ax])
            o, a = parts[-1]
            r = a(idx[:ax] + (sub(i, o),) + idx[ax + 1:])
            for k in range(len(parts) - 2, -1, -1):
                o, a = parts[k]
                hi = parts[k + 1][0]
                r = sel_el(lt(i, hi), a(idx[:ax] + (sub(i, o),) + idx[ax + 1:]), r)
            return r
        return Arr(shape, dt, fn)

    def p_stack(self, eqn, ins):
        shape, dt = self.oshape(eqn)
        ax = eqn.params.get("axis", eqn.params.get("dimension", 0))

        def fn(idx):
            i, rest = idx[ax], idx[:ax] + idx[ax + 1:]
            if isinstance(i, int):
                return ins[i](rest)
            r = ins[-1](rest)
            for k in range(len(ins) - 2, -1, -1):
                r = sel_el(eqv(i, k), ins[k](rest), r)
            return r
        return Arr(shape, dt, fn)

    def p_unstack(self, eqn, ins):
        (a,) = ins
        ax = eqn.params.get("axis", eqn.params.get("dimension", 0))
        outs = []
        for k in range(len(eqn.outvars)):
            shape, dt = self.oshape(eqn, k)
            outs.append(Arr(shape, dt, lambda idx, k=k: a(idx[:ax] + (k,) + idx[ax:])))
        return outs

    def p_slice(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        st = [self.dims.term(x) for x in eqn.params["start_indices"]]
        strides = eqn.params["strides"] or (1,) * a.rank

        def fn(idx):
            return a(tuple(add(s, mul(int(t), i)) for s, t, i in zip(st, strides, idx)))
        return Arr(shape, dt, fn)

    def p_dynamic_slice(self, eqn, ins):
        a = ins[0]
        starts = ins[1:1 + a.rank]
        shape, dt = self.oshape(eqn)

        def fn(idx):
            full, wd = [], True
            for k in range(a.rank):
                s = starts[k](())
                hi = sub(a.shape[k], shape[k])
                s2 = clampi(s.v, 0, hi)
                wd = band(wd, s.wd)
                full.append(add(s2, idx[k]))
            r = a(tuple(full))
            return El(r.v, band(r.wd, wd))
        return Arr(shape, dt, fn)

    def p_rev(self, eqn, ins):
        a = ins[0]
        dd = eqn.params["dimensions"]
        shape, dt = self.oshape(eqn)
        return Arr(shape, dt, lambda idx: a(tuple(sub(sub(a.shape[k], 1), idx[k]) if k in dd else idx[k] for k in range(a.rank))))

    def p_pad(self, eqn, ins):
        a, pv = ins
        shape, dt = self.oshape(eqn)
        cfg = eqn.params["padding_config"]
        if any(c[2] != 0 for c in cfg):
            raise Unsupported("interior padding")

        def fn(idx):
            cond, inner = True, []
            for k in range(a.rank):
                lo = self.dims.term(cfg[k][0])
                j = sub(idx[k], lo)
                cond = band(cond, le(0, j), lt(j, a.shape[k]))
                inner.append(j)
            if cond is False:
                return pv(())
            return sel_el(cond, a(tuple(inner)), pv(()))
        return Arr(shape, dt, fn)

    def p_iota(self, eqn, ins):
        shape, dt = self.oshape(eqn)
        d = eqn.params["dimension"]
        isf = kind(dt) == "f"
        return Arr(shape, dt, lambda idx: El(toreal(idx[d]) if isf else idx[d]))

    # ---- gather / scatter
    def p_gather(self, eqn, ins):
        a, ind = ins
        shape, dt = self.oshape(eqn)
        dn = eqn.params["dimension_numbers"]
        ss = [self.dims.term(x) for x in eqn.params["slice_sizes"]]
        mode = str(eqn.params["mode"])
        off = list(dn.offset_dims)
        coll = list(dn.collapsed_slice_dims)
        sim = list(dn.start_index_map)
        obd = list(getattr(dn, "operand_batching_dims", ()))
        ibd = list(getattr(dn, "start_indices_batching_dims", ()))

        def fn(o):
            batch = tuple(o[d] for d in range(len(o)) if d not in off)
            offs = iter([o[d] for d in off])
            start = [0] * a.rank
            wd, oob = True, False
            for k, d in enumerate(sim):
                e = ind(batch + (k,))
                hi = sub(a.shape[d], ss[d])
                wd = band(wd, e.wd)
                if "FILL" in mode:
                    oob = bor(oob, lt(e.v, 0), lt(hi, e.v))
                    start[d] = e.v
                else:
                    start[d] = clampi(e.v, 0, hi)
            for d, bdim in zip(obd, ibd):
                start[d] = batch[bdim]
            full = []
            for d in range(a.rank):
                if d in coll or d in obd:
                    full.append(start[d])
                else:
                    full.append(add(start[d], next(offs)))
            r = a(tuple(full))
            wd = band(wd, r.wd)
            if "FILL" in mode:
                wd = band(wd, bnot(oob))
            return El(r.v, wd)
        return Arr(shape, dt, fn)

    def _scatter(self, eqn, ins, combine):
        a, ind, upd = ins
        dn = eqn.params["dimension_numbers"]
        mode = str(eqn.params["mode"])
        uw = list(dn.update_window_dims)
        insd = list(dn.inserted_window_dims)
        s2o = list(dn.scatter_dims_to_operand_dims)
        obd = list(getattr(dn, "operand_batching_dims", ()))
        ibd = list(getattr(dn, "scatter_indices_batching_dims", ()))
        bdims = [d for d in range(upd.rank) if d not in uw]
        bshape = [upd.shape[d] for d in bdims]
        wind_op = [d for d in range(a.rank) if d not in insd and d not in obd]
        wsize = {d: upd.shape[uw[k]] for k, d in enumerate(wind_op)}

        def target(batch, j):
            """(condition that update `batch` touches operand index j, update index, wd)"""
            cond, wd = True, True
            uidx = [None] * upd.rank
            for d, b in zip(bdims, batch):
                uidx[d] = b
            start = {}
            for k, d in enumerate(s2o):
                e = ind(tuple(batch) + (k,))
                wd = band(wd, e.wd)
                size = wsize.get(d, 1)
                hi = sub(a.shape[d], size)
                if "CLIP" in mode:
                    start[d] = clampi(e.v, 0, hi)
                else:
                    start[d] = e.v
                    if d in wsize:
                        cond = band(cond, le(0, e.v), le(e.v, hi))
            for d, bdim in zip(obd, ibd):
                cond = band(cond, eqv(j[d], batch[bdim]))
            for d in range(a.rank):
                if d in obd:
                    continue
                s = start.get(d, 0)
                if d in insd:
                    cond = band(cond, eqv(s, j[d]))
                else:
                    w = sub(j[d], s)
                    cond = band(cond, le(0, w), lt(w, wsize[d]))
                    uidx[uw[wind_op.index(d)]] = w
            return cond, tuple(uidx), wd

        def fn(j):
            r = a(j)
            symdims = [k for k, s in enumerate(bshape) if not isinstance(s, int)]
            if not symdims:
                for b in itertools.product(*[range(s) for s in bshape]):
                    cond, u, wd = target(b, j)
                    if cond is False:
                        continue
                    e = upd(u)
                    r = combine(self, cond, r, El(e.v, band(e.wd, wd)))
                return r
            if len(symdims) > 1:
                raise Unsupported("scatter over two symbolic dimensions")
            if combine is not comb_add:
                raise Unsupported("order dependent scatter over a symbolic dimension")
            (sd,) = symdims
            rest = [range(s) if isinstance(s, int) else [None] for s in bshape]
            for b in itertools.product(*rest):
                def body(i, b=b):
                    bb = tuple(i if k == sd else x for k, x in enumerate(b))
                    cond, u, wd = target(bb, j)
                    e = upd(u)
                    z = Fraction(0) if kind(a.dtype) == "f" else 0
                    return ite(cond, e.v, z) if cond is not True else e.v
                srt = "real" if kind(a.dtype) == "f" else "int"
                s = self.env.sum(bshape[sd], body, srt)
                r = El(add(r.v, s), r.wd)
            return r
        shape, dt = self.oshape(eqn)
        return Arr(shape, dt, fn)

    def p_scatter_add(self, eqn, ins):
        return self._scatter(eqn, ins, comb_add)

    def p_scatter(self, eqn, ins):
        return self._scatter(eqn, ins, comb_set)

    def p_scatter_mul(self, eqn, ins):
        return self._scatter(eqn, ins, comb_mul)

    # ---- reductions
    def _axes(self, eqn, a):
        axes = [x % a.rank for x in eqn.params["axes"]]
        keep = [d for d in range(a.rank) if d not in axes]
        return axes, keep

    def _red(self, eqn, ins, comb, unit):
        a = ins[0]
        axes, keep = self._axes(eqn, a)
        shape, dt = self.oshape(eqn)
        if any(not isinstance(a.shape[d], int) for d in axes):
            return None

        def fn(idx):
            r = None
            for t in itertools.product(*[range(a.shape[d]) for d in axes]):
                full = [None] * a.rank
                for d, i in zip(axes, t):
                    full[d] = i
                for d, i in zip(keep, idx):
                    full[d] = i
                e = a(tuple(full))
                r = e if r is None else comb(r, e)
            return r if r is not None else El(unit)
        return Arr(shape, dt, fn)

    def p_reduce_sum(self, eqn, ins):
        a = ins[0]
        r = self._red(eqn, ins, lambda x, y: El(add(x.v, y.v), band(x.wd, y.wd)), 0)
        if r is not None:
            return r
        axes, keep = self._axes(eqn, a)
        shape, dt = self.oshape(eqn)
        if len(axes) != 1:
            raise Unsupported("sum over several symbolic axes")
        ax = axes[0]

        def fn(idx):
            def body(i):
                full = list(idx)
                full.insert(ax, i)
                return a(tuple(full)).v
            s = self.env.sum(a.shape[ax], body, "real" if kind(dt) == "f" else "int")
            w = self.env.bool("sumwd")
            i = self.env.int("k")
            return El(s, self.env_all_wd(a, ax, idx))
        return Arr(shape, dt, fn)

    def env_all_wd(self, a, ax, idx):
        """well-definedness of every element along an axis: skolemised at one arbitrary index"""
        i = self.env.int("anyk")
        full = list(idx)
        full.insert(ax, i)
        w = a(tuple(full)).wd
        if w is True:
            return True
        return z3.Implies(z3.And(i >= 0, i < num(a.shape[ax])), num(w))

    def p_reduce_max(self, eqn, ins):
        r = self._red(eqn, ins, el_max, None)
        if r is None:
            return self._extreme(eqn, ins, True)
        return r

    def p_reduce_min(self, eqn, ins):
        r = self._red(eqn, ins, el_min, None)
        if r is None:
            return self._extreme(eqn, ins, False)
        return r

    def _extreme(self, eqn, ins, ismax):
        """an element of the axis (the witness) that is not exceeded by any other"""
        a, axes = ins[0], eqn.params["axes"]
        shape, dt = self.oshape(eqn)

        def fn(idx):
            def at(js):
                rest, js = list(idx), list(js)
                return a(tuple(js.pop(0) if d in axes else rest.pop(0) for d in range(a.rank)))
            qs = [z3.Int(self.env.name("ext")) for _ in axes]
            ws = [self.env.int("at") for _ in axes]
            rng = [z3.And(q >= 0, q < num(a.shape[d])) for q, d in zip(qs, axes)]
            here = z3.And(*[z3.And(w >= 0, w < num(a.shape[d])) for w, d in zip(ws, axes)])
            some = z3.And(*[num(a.shape[d]) >= 1 for d in axes])
            m, e = at(ws), at(qs)
            if m.wd is not True or e.wd is not True or isinstance(m.v, Inf) or isinstance(e.v, Inf):
                raise Unsupported("extremum over a symbolic axis")
            le = num(e.v) <= num(m.v) if ismax else num(e.v) >= num(m.v)
            self.env.fact(z3.Implies(some, here))
            self.env.fact(z3.ForAll(qs, z3.Implies(z3.And(*rng), le)))
            return El(m.v, some)
        return Arr(shape, dt, fn)

    def p_reduce_and(self, eqn, ins):
        r = self._red(eqn, ins, lambda x, y: El(band(x.v, y.v), band(x.wd, y.wd)), True)
        if r is None:
            raise Unsupported("all over a symbolic axis")
        return r

    def p_reduce_or(self, eqn, ins):
        r = self._red(eqn, ins, lambda x, y: El(bor(x.v, y.v), band(x.wd, y.wd)), False)
        if r is None:
            a, axes = ins[0], eqn.params["axes"]
            shape, dt = self.oshape(eqn)

            def fn(idx):
                full, qs, rng, rest = [], [], [], list(idx)
                for d in range(a.rank):
                    if d in axes:
                        q = z3.Int(self.env.name("any"))
                        qs.append(q)
                        full.append(q)
                        rng.append(z3.And(q >= 0, q < num(a.shape[d])))
                    else:
                        full.append(rest.pop(0))
                e = a(tuple(full))
                wd = e.wd if e.wd is True else z3.ForAll(qs, z3.Implies(z3.And(*rng), num(e.wd)))
                return El(z3.Exists(qs, z3.And(*rng, num(e.v))), wd)
            return Arr(shape, dt, fn)
        return r

    def p_cumsum(self, eqn, ins):
        a = ins[0]
        ax = eqn.params["axis"]
        shape, dt = self.oshape(eqn)
        if not isinstance(a.shape[ax], int) or eqn.params.get("reverse"):
            raise Unsupported("cumsum")

        def fn(idx):
            if not isinstance(idx[ax], int):
                raise Unsupported("cumsum at a symbolic index")
            r = a(idx[:ax] + (0,) + idx[ax + 1:])
            for k in range(1, idx[ax] + 1):
                e = a(idx[:ax] + (k,) + idx[ax + 1:])
                r = El(add(r.v, e.v), band(r.wd, e.wd))
            return r
        return Arr(shape, dt, fn)

    def _argext(self, eqn, ins, ismin):
        """contract of argmin/argmax: index in range, extremal, and the first such index"""
        a = ins[0]
        (ax,) = eqn.params["axes"]
        shape, dt = self.oshape(eqn)
        m = a.shape[ax]
        keep = len(shape)
        f = z3.Function(self.env.name("argmin"), *([z3.IntSort()] * max(keep, 1)), z3.IntSort())

        def fn(idx):
            r = f(*[num(i) for i in idx]) if idx else f(z3.IntVal(0))

            def at(i):
                full = list(idx)
                full.insert(ax, i)
                return a(tuple(full))
            self.env.fact(z3.And(r >= 0, r < num(m)))
            self.argext.append((r, m, at, ismin))
            best = at(r)
            k = z3.Int(self.env.name("q"))
            other = at(k)
            rel = (best.v <= other.v) if ismin else (best.v >= other.v)
            self.env.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num(m)), z3.And(rel, z3.Implies(k < r, best.v != other.v)))))
            wd = self.env_all_wd(a, ax, idx)
            return El(r, wd)
        self.env.trusted.add("jax argmin/argmax return the first extremal index")
        return Arr(shape, dt, fn)

    def instantiate_argext(self, ks):
        """the extremality contract of every argmin/argmax met so far, at the given indices"""
        for r, m, at, ismin in self.argext:
            for k in ks:
                a, b = at(r), at(k)
                self.env.fact(z3.Implies(z3.And(k >= 0, k < num(m)), (a.v <= b.v) if ismin else (a.v >= b.v)))

    def p_argmin(self, eqn, ins):
        return self._argext(eqn, ins, True)

    def p_argmax(self, eqn, ins):
        return self._argext(eqn, ins, False)

    def p_dot_general(self, eqn, ins):
        a, b = ins
        ((ca, cb), (ba, bb)) = eqn.params["dimension_numbers"]
        shape, dt = self.oshape(eqn)
        if len(ca) != 1:
            raise Unsupported("dot_general")
        ra = [d for d in range(a.rank) if d not in ca and d not in ba]
        rb = [d for d in range(b.rank) if d not in cb and d not in bb]
        n = a.shape[ca[0]]

        def fn(idx):
            def at(i):
                fa, fb = [None] * a.rank, [None] * b.rank
                it = list(idx)
                for x, y in zip(ba, bb):
                    v = it.pop(0)
                    fa[x] = v
                    fb[y] = v
                for d in ra:
                    fa[d] = it.pop(0)
                for d in rb:
                    fb[d] = it.pop(0)
                fa[ca[0]] = i
                fb[cb[0]] = i
                x, y = a(tuple(fa)), b(tuple(fb))
                return El(mul(x.v, y.v), band(x.wd, y.wd))
            if isinstance(n, int):
                r = at(0)
                for i in range(1, n):
                    e = at(i)
                    r = El(add(r.v, e.v), band(r.wd, e.wd))
                return r
            return El(self.env.sum(n, lambda i: at(i).v, "real" if kind(dt) == "f" else "int"))
        return Arr(shape, dt, fn)

    def p_top_k(self, eqn, ins):
        """contract of top_k over the last axis: k distinct positions in range, values in
        non-increasing order, every other value not above the last"""
        a = ins[0]
        k = eqn.params["k"]
        sh0, dt0 = self.oshape(eqn, 0)
        sh1, dt1 = self.oshape(eqn, 1)
        if eqn.params.get("axis", a.rank - 1) not in (a.rank - 1, -1):
            raise Unsupported("top_k axis")
        m = a.shape[-1]
        f = z3.Function(self.env.name("topk"), *([z3.IntSort()] * len(sh1)), z3.IntSort())
        done = set()

        def axioms(row):
            key = tuple(i if isinstance(i, int) else i.get_id() for i in row)
            if key in done:
                return
            done.add(key)
            pos = [f(*[num(i) for i in row + (t,)]) for t in range(k)]
            vals = [a(row + (p,)).v for p in pos]
            for p in pos:
                self.env.fact(z3.And(p >= 0, p < num(m)))
            if k > 1:
                self.env.fact(z3.Distinct(*pos))
            for t in range(k - 1):
                self.env.fact(num(vals[t]) >= num(vals[t + 1]))
            q = z3.Int(self.env.name("q"))
            o = a(row + (q,)).v
            self.env.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < num(m), *[q != p for p in pos]), num(o) <= num(vals[-1]))))

        self.topk = getattr(self, "topk", []) + [(f, axioms, len(sh1))]

        def fi(idx):
            axioms(idx[:-1])
            return El(f(*[num(i) for i in idx]))

        def fv(idx):
            axioms(idx[:-1])
            return a(idx[:-1] + (f(*[num(i) for i in idx]),))
        self.env.trusted.add("lax.top_k returns the k largest entries in order with their positions")
        return [Arr(sh0, dt0, fv), Arr(sh1, dt1, fi)]

    def topk_positions(self, row, k):
        """the positions chosen by the (only) top_k call of the evaluated code, for one row"""
        calls = [t for t in getattr(self, "topk", []) if t[2] == len(row) + 1]
        if len(calls) != 1:
            return None
        f, axioms, _ = calls[0]
        axioms(tuple(row))
        return [f(*[num(i) for i in tuple(row) + (t,)]) for t in range(k)]

    # ---- dependency contracts
    def p_vc_searchsorted(self, eqn, ins):
        return contract_searchsorted(self, ins[0], ins[1], eqn.params["side"], eqn.params["nb"])

    def p_vc_interp(self, eqn, ins):
        x, xp, fp = ins
        shape, dt = self.oshape(eqn)
        m = xp.shape[0]
        cell = z3.Function(self.env.name("cell"), *([z3.IntSort()] * max(1, len(shape))), z3.IntSort())
        self.env.trusted.add("jnp.interp(x, xp, fp): piecewise linear, constant outside, for increasing xp")
        self.precond_increasing("interp", xp, strict=True)

        def fn(idx):
            e = x(idx)
            k = cell(*[num(i) for i in idx]) if idx else cell(z3.IntVal(0))
            last = sub(m, 1)
            x0, xl = xp((0,)), xp((last,))
            xa, xb, fa, fb = xp((k,)), xp((k + 1,)), fp((k,)), fp((k + 1,))
            inside = band(lt(x0.v, e.v), lt(e.v, xl.v))
            self.env.fact(z3.Implies(num(inside), z3.And(k >= 0, k + 1 <= num(last), num(le(xa.v, e.v)), num(lt(e.v, xb.v)))))
            lin = num(fa.v) + (num(fb.v) - num(fa.v)) * (num(e.v) - num(xa.v)) / (num(xb.v) - num(xa.v))
            v = z3.If(num(le(e.v, x0.v)), num(fp((0,)).v), z3.If(num(le(xl.v, e.v)), num(fp((last,)).v), lin))
            return El(v, band(e.wd, fa.wd, fb.wd, fp((0,)).wd, fp((last,)).wd))
        return Arr(shape, dt, fn)

    def p_vc_linspace(self, eqn, ins):
        lo, hi = ins
        n = self.dims.term(eqn.params["n"])
        shape, dt = self.oshape(eqn)
        self.env.trusted.add("jnp.linspace(lo, hi, n): n equally spaced points, both ends included")

        def fn(idx):
            i, rest = idx[0], idx[1:]
            a, b = lo(rest), hi(rest)
            nm1 = sub(n, 1)
            v = num(a.v) + toreal(num(i)) * (num(b.v) - num(a.v)) / toreal(num(nm1))
            return El(v, band(a.wd, b.wd, num(nm1) != 0 if not isinstance(nm1, int) else nm1 != 0))
        return Arr(shape, dt, fn)

    def precond_increasing(self, who, a, strict):
        """obligation: the array given to a dependency is increasing along its last axis"""
        k = self.env.int("k")
        rows = [self.env.int("row") for _ in range(a.rank - 1)]
        x, y = a(tuple(rows) + (k,)), a(tuple(rows) + (k + 1,))
        rng = z3.And(k >= 0, k + 1 < num(a.shape[-1]), *[z3.And(r >= 0, r < num(d)) for r, d in zip(rows, a.shape)])
        rel = lt(x.v, y.v) if strict else le(x.v, y.v)
        self.env.open_pre.append(("%s: array argument is %sincreasing" % (who, "strictly " if strict else ""),
                                  z3.Implies(rng, num(band(rel, x.wd, y.wd)))))

    # ---- control flow
    def p_cond(self, eqn, ins):
        idx, ops = ins[0], ins[1:]
        brs = eqn.params["branches"]
        outs = [self.eval_jaxpr(b.jaxpr, b.consts, ops) for b in brs]
        res = []
        for t in zip(*outs):
            def fn(i, t=t):
                c = idx(())
                r = t[-1](i)
                for k in range(len(t) - 2, -1, -1):
                    cc = eqv(c.v, k) if kind(idx.dtype) != "b" else (bnot(c.v) if k == 0 else c.v)
                    r = sel_el(cc, t[k](i), r)
                return El(r.v, band(r.wd, c.wd))
            res.append(Arr(t[0].shape, t[0].dtype, fn))
        return res

    loop_inv = None      # (slot, element value) -> invariant of that element, or None

    def p_while(self, eqn, ins):
        """loop rule: elementwise invariant on the carried arrays, keys threaded freshly"""
        from .keys import is_ancestor, key_of
        if self.loop_inv is None:
            raise Unsupported("while loop without contract")
        env, P = self.env, eqn.params
        nc, nb = P["cond_nconsts"], P["body_nconsts"]
        bc, init = ins[nc:nc + nb], ins[nc + nb:]
        keys = [a.dtype == np.dtype("uint32") and a.shape == (2,) for a in init]
        idxs = [tuple(env.int("li") for _ in a.shape) for a in init]
        rng = [z3.And(i >= 0, i < num(d)) for ix, a in zip(idxs, init) for i, d in zip(ix, a.shape)]
        for k, (a, ix) in enumerate(zip(init, idxs)):
            g = None if keys[k] else self.loop_inv(k, num(a(ix).v))
            if g is not None:
                env.prove("loop invariant %d holds on entry" % k, z3.And(g, num(a(ix).wd)), rng, kind="loop-init")

        def havoc(tag):
            out = []
            for k, a in enumerate(init):
                if keys[k]:
                    t = KeyTok(("iter", key_of(a), tag))
                    out.append(Arr((2,), a.dtype, lambda idx, t=t: El(KeyWord(t, idx[0]))))
                    continue
                f = z3.Function(env.name("carry"), *([z3.IntSort()] * max(1, a.rank)), sort_of(a.dtype))

                def fn(idx, f=f, k=k):
                    r = f(*[num(i) for i in idx]) if idx else f(z3.IntVal(0))
                    g = self.loop_inv(k, r)
                    if g is not None:
                        env.fact(g)
                    return El(r)
                out.append(Arr(a.shape, a.dtype, fn))
            return out
        head = havoc("k")
        n0 = len(env.keylog)
        new = self.eval_jaxpr(P["body_jaxpr"].jaxpr, P["body_jaxpr"].consts, list(bc) + head)
        for k, (a, ix) in enumerate(zip(new, idxs)):
            g = None if keys[k] else self.loop_inv(k, num(a(ix).v))
            if g is not None:
                env.prove("loop invariant %d is preserved" % k, z3.And(g, num(a(ix).wd)), rng, kind="loop-preserve")
        draws = [x[0] for x in env.keylog[n0:] if x[1] not in ("split", "fold_in")]
        for k in range(len(new)):
            if keys[k]:
                h, t = key_of(head[k]), key_of(new[k])
                env.check("loop: the carried key is fresh after every iteration",
                          (not draws and t == h) or (t != h and is_ancestor(h, t) and all(is_ancestor(h, d) and not is_ancestor(t, d) for d in draws)),
                          "key %r after an iteration drawing %r" % (t, draws), kind="loop-preserve")
        cargs = list(ins[:nc]) + head
        def cond():
            return self.eval_jaxpr(P["cond_jaxpr"].jaxpr, P["cond_jaxpr"].consts, cargs)[0]
        env.__dict__.setdefault("loops", []).append(dict(init=init, head=head, new=new, keys=keys, cond=cond))
        if not any(keys) and draws:
            env.fail("loop: keys drawn from in the loop body are threaded through it", "draws %r" % (draws,))
        end = havoc("end")
        env.loops[-1]["end"] = end
        return end

    def p_scan(self, eqn, ins):
        raise Unsupported("scan without contract")

    # ---- random draws (contracts of jax.random)
    def p_vc_draw(self, eqn, ins):
        dist, nb = eqn.params["dist"], eqn.params["nb"]
        shape, dt = self.oshape(eqn)
        key, params = ins[0], ins[1:]
        env = self.env
        env.trusted.add("jax.random.%s: support (and determinism in the key)" % dist)

        def tok(kidx):
            if key.rank == nb + 1:
                w0, w1 = key(kidx + (0,)).v, key(kidx + (1,)).v
                if isinstance(w0, KeyWord) and isinstance(w1, KeyWord) and w0.key == w1.key and (w0.w, w1.w) == (0, 1):
                    return w0.key
                return KeyTok(("words", _tok(w0), _tok(w1)))
            v = key(kidx).v
            return v if isinstance(v, KeyTok) else KeyTok(("key", _tok(v)))
        if nb == 0:
            t = tok(())
            env.keylog.append((t.term, dist, self.label))
            draws = env.__dict__.setdefault("draws", {})
            name = "draw_%s_%d" % (dist, draws.setdefault((dist, t.term), len(draws)))
        else:
            kidx = tuple(env.int("kidx") for _ in range(nb))
            env.keylog.append((tok(kidx).term, dist, self.label))
            name = env.name("draw_" + dist)
        srt = z3.IntSort() if dist in ("poisson", "binomial") else z3.BoolSort() if dist == "bernoulli" else z3.RealSort()
        f = z3.Function(name, *([z3.IntSort()] * max(1, len(shape))), srt)
        if not any(d is None for d in shape):
            env.draw_sites = getattr(env, "draw_sites", [])
            env.draw_sites.append((dist, name))
        env.__dict__.setdefault("draw_info", []).append(dict(
            dist=dist, fn=f, shape=shape, nb=nb, key=env.keylog[-1][0],
            params=lambda idx: [p(tuple(idx[nb:])) for p in params]))
        seen = {}

        def fn(idx):
            r = f(*[num(i) for i in idx]) if idx else f(z3.IntVal(0))
            if r.get_id() in seen:
                return seen[r.get_id()][0]
            ps = [p(tuple(idx[nb:])) for p in params]
            wd = band(*[p.wd for p in ps]) if ps else True
            v = [toreal(num(p.v)) if not isinstance(p.v, Inf) else p.v for p in ps]
            out = self.draw_contract(dist, r, v, wd, idx)
            out = El(out.v, out.wd)
            seen[r.get_id()] = (out, r)
            return out
        return Arr(shape, dt, fn)

    def draw_contract(self, dist, r, v, wd, idx):
        env = self.env
        if any(isinstance(x, Inf) for x in v):
            return El(r if dist != "binomial" else z3.ToReal(r), False)
        if dist == "uniform":
            env.fact(z3.And(r >= 0, r < 1))
            val = v[0] + (v[1] - v[0]) * r
            t = env.real("unif")
            env.fact(t == val)
            # consequence of 0 <= u < 1, stated linearly
            env.fact(z3.Implies(v[0] <= v[1], z3.And(v[0] <= t, t <= v[1])))
            return El(val if z3.is_rational_value(v[0]) and z3.is_rational_value(v[1]) else t, wd)
        if dist == "normal":
            return El(r, wd)
        if dist == "exponential":
            env.fact(r >= 0)
            return El(r, wd)
        if dist == "gamma":
            self.callee_pre("gamma: shape parameter not negative", v[0] >= 0, idx)
            env.fact(z3.Implies(v[0] >= 0, r >= 0))
            return El(r, band(wd, v[0] >= 0))
        if dist == "poisson":
            self.callee_pre("poisson: expectation not negative", v[0] >= 0, idx)
            env.fact(z3.Implies(v[0] >= 0, r >= 0))
            env.fact(z3.Implies(v[0] == 0, r == 0))
            return El(r, band(wd, v[0] >= 0))
        if dist == "bernoulli":
            env.fact(z3.Implies(v[0] <= 0, z3.Not(r)))
            env.fact(z3.Implies(v[0] >= 1, r))
            return El(r, wd)
        if dist == "binomial":
            n, p = v
            ok = z3.And(n >= 0, p >= 0, p <= 1)
            self.callee_pre("binomial: 0 <= n and 0 <= p <= 1", ok, idx)
            env.fact(z3.Implies(ok, z3.And(r >= 0, z3.ToReal(r) <= n)))
            env.fact(z3.Implies(z3.And(ok, p == 0), r == 0))
            env.fact(z3.Implies(z3.And(ok, p == 1), z3.ToReal(r) == n))
            return El(z3.ToReal(r), band(wd, ok))
        raise Unsupported("distribution %s" % dist)

    def callee_pre(self, name, goal, idx):
        self.env.__dict__.setdefault("callee_pres", []).append((name, goal))

    # ---- random keys
    def p_random_wrap(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)

        def fn(idx):
            w0, w1 = a(idx + (0,)).v, a(idx + (1,)).v
            if isinstance(w0, KeyWord) and isinstance(w1, KeyWord) and w0.key == w1.key and (w0.w, w1.w) == (0, 1):
                return El(w0.key)
            return El(KeyTok(("words", _tok(w0), _tok(w1))))
        return Arr(shape, dt, fn)

    def p_random_unwrap(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)

        def fn(idx):
            return El(KeyWord(a(idx[:-1]).v, idx[-1]))
        return Arr(shape, dt, fn)

    def p_random_split(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        sh = eqn.params["shape"]
        k = len(sh)
        if a.rank == 0:
            parent = a(()).v
            self.consume(parent, "split")
        else:
            self.consume_array(a, "split")
        return Arr(shape, dt, lambda idx: El(KeyTok(("split", a(idx[:len(idx) - k]).v.term, tuple(_tok(i) for i in idx[len(idx) - k:])))))

    def p_random_fold_in(self, eqn, ins):
        a, d = ins
        shape, dt = self.oshape(eqn)
        if a.rank:
            raise Unsupported("fold_in on key arrays")
        self.consume(a(()).v, "fold_in")
        return Arr(shape, dt, lambda idx: El(KeyTok(("fold", a(()).v.term, _tok(d(()).v)))))

    def p_random_bits(self, eqn, ins):
        a = ins[0]
        shape, dt = self.oshape(eqn)
        self.consume_array(a, "bits")
        f = z3.Function(self.env.name("bits"), *([z3.IntSort()] * max(1, len(shape))), z3.IntSort())

        def fn(idx):
            r = f(*[num(i) for i in idx]) if idx else f(z3.IntVal(0))
            self.env.fact(r >= 0)
            return El(r)
        return Arr(shape, dt, fn)

    def consume(self, key, how):
        self.env.keylog.append((key.term if isinstance(key, KeyTok) else key, how, self.label))

    def consume_array(self, a, how):
        if a.rank == 0:
            self.consume(a(()).v, how)
            return
        if all(isinstance(d, int) for d in a.shape):
            for idx in itertools.product(*[range(d) for d in a.shape]):
                self.consume(a(idx).v, how)
            return
        # a whole array of keys, one draw each: consumed once per index
        idx = tuple(self.env.int("kidx") for _ in a.shape)
        self.consume(a(idx).v, how)


def _tok(x):
    if isinstance(x, KeyTok):
        return x.term
    if isinstance(x, KeyWord):
        return ("word", x.key.term if isinstance(x.key, KeyTok) else x.key, _tok(x.w))
    if isinstance(x, z3.ExprRef):
        return ("z", z3.simplify(x).sexpr())
    return x


def _deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return z3.eq(z3.simplify(a), z3.simplify(b))


def clampi(v, lo, hi):
    r = el_min(el_max(El(v), El(lo)), El(hi)).v
    return r


def el_max(a, b):
    wd = band(a.wd, b.wd)
    for x, y in ((a.v, b.v), (b.v, a.v)):
        if isinstance(x, Inf):
            return El(x if x.s > 0 else y, wd)
    if isnum(a.v) and isnum(b.v):
        return El(max(a.v, b.v), wd)
    x, y = coerce2(a.v, b.v)
    return El(z3.If(x >= y, x, y), wd)


def el_min(a, b):
    wd = band(a.wd, b.wd)
    for x, y in ((a.v, b.v), (b.v, a.v)):
        if isinstance(x, Inf):
            return El(x if x.s < 0 else y, wd)
    if isnum(a.v) and isnum(b.v):
        return El(min(a.v, b.v), wd)
    x, y = coerce2(a.v, b.v)
    return El(z3.If(x <= y, x, y), wd)


def comb_add(it, cond, r, e):
    if cond is True:
        return El(add(r.v, e.v), band(r.wd, e.wd))
    z = Fraction(0) if not isnum(e.v) and z3.is_real(e.v) else 0
    return El(add(r.v, ite(cond, e.v, z if not isnum(e.v) else type(e.v)(0))), band(r.wd, bor(bnot(cond), e.wd)))


def comb_set(it, cond, r, e):
    return sel_el(cond, e, r)


def comb_mul(it, cond, r, e):
    if cond is True:
        return El(mul(r.v, e.v), band(r.wd, e.wd))
    return sel_el(cond, El(mul(r.v, e.v), band(r.wd, e.wd)), r)


def contract_searchsorted(it, a, v, side, nb):
    """result r: 0 <= r <= M; a[r-1] < v <= a[r] (left) / a[r-1] <= v < a[r] (right); needs a sorted"""
    env = it.env
    m = a.shape[-1]
    env.trusted.add("jnp.searchsorted: insertion position into a sorted array")
    it.precond_increasing("searchsorted", a, strict=False)
    shape = v.shape
    f = z3.Function(env.name("ss"), *([z3.IntSort()] * max(1, len(shape))), z3.IntSort())

    def fn(idx):
        e = v(idx)
        r = f(*[num(i) for i in idx]) if idx else f(z3.IntVal(0))
        row = tuple(idx[:nb])
        env.fact(z3.And(r >= 0, r <= num(m)))
        lo, hi = a(row + (r - 1,)), a(row + (r,))
        if side == "left":
            env.fact(z3.Implies(r > 0, num(lt(lo.v, e.v))))
            env.fact(z3.Implies(r < num(m), num(le(e.v, hi.v))))
        else:
            env.fact(z3.Implies(r > 0, num(le(lo.v, e.v))))
            env.fact(z3.Implies(r < num(m), num(lt(e.v, hi.v))))
        return El(r, e.wd)
    return Arr(shape, np.dtype("int32"), fn)


def _c_searchsorted(it, eqn, ins):
    """jit[name=searchsorted] met inside a trace with concrete sizes"""
    return None


DEFAULT_CONTRACTS = {}
