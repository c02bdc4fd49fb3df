"""Symbolic evaluator for the host-side Python of the repository.

The *real* functions are evaluated: the source of a function is taken from the live function object
(`inspect.getsource`), parsed, and its statements are executed on symbolic values.  Nothing is
dropped: an unsupported construct raises `Unsupported` and the unit is reported as not extracted.

Branches on symbolic conditions fork (path exploration by re-execution).  A loop over a symbolic
collection is *summarised*: the body is explored once for a generic element, and its effect on the
state is classified per location --
  * accumulators  acc' = acc + d(i)           -> acc0 + sum_i d(i)
  * threaded values x' = F(x, i)              -> recurrence X(0) = x0, X(i+1) = F(X(i), i)
  * containers written at a key of their own  -> pointwise update (non-interference is discharged)
  * lists that are appended to                -> filtered sequence
  * raise / return / break                    -> first element for which it happens
so the result holds for collections of any size.
"""
import ast
import math
import builtins
import inspect
import textwrap
import types

from . import smt
import z3

from fractions import Fraction

Name = z3.DeclareSort("Name")
Opq = z3.DeclareSort("Opaque")
_code = z3.Function("name_code", Name, z3.IntSort())
MAXPATHS = 600


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ control flow
class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Infeasible(Exception):
    pass


class Exc:
    """an exception value"""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)


# ------------------------------------------------------------------ values
FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)


def zand(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)


def zor(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)


def znot(a):
    return FALSE if z3.is_true(a) else TRUE if z3.is_false(a) else z3.Not(a)


def zif(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.eq(a, b):
        return a
    return z3.If(c, a, b)


class Val:
    pass


class SBool(Val):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "SBool(%s)" % self.z


class SNum(Val):
    """number: finite value z, or one of the flags (extended real / NaN)"""

    def __init__(self, z, nan=FALSE, pinf=FALSE, ninf=FALSE):
        self.z, self.nan, self.pinf, self.ninf = z, nan, pinf, ninf

    @property
    def plain(self):
        return z3.is_false(self.nan) and z3.is_false(self.pinf) and z3.is_false(self.ninf)

    @property
    def finite(self):
        return znot(zor(self.nan, self.pinf, self.ninf))

    @property
    def is_int(self):
        return z3.is_int(self.z)

    def __repr__(self):
        return "SNum(%s%s)" % (self.z, "" if self.plain else " nan=%s +inf=%s -inf=%s" % (self.nan, self.pinf, self.ninf))


class SStr(Val):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "SStr(%s)" % self.z


class SOpq(Val):
    """opaque value (key, array, ...): a term of the sort Opaque"""

    def __init__(self, z, kind="opaque"):
        self.z, self.kind = z, kind

    def __repr__(self):
        return "SOpq(%s)" % self.z


class Text(Val):
    """text whose content is not tracked (messages)"""

    def __repr__(self):
        return "Text()"


class SArr(Val):
    """one-dimensional (flattened) array of symbolic length: elem(z3 Int) -> SNum | SBool"""

    def __init__(self, n, elem, tag=None):
        self.n, self.elem, self.tag = n, elem, tag


class SObj(Val):
    """symbolic object whose behaviour is given by a contract model"""

    def __init__(self, model, z=None, **info):
        self.model, self.z, self.info = model, z, info

    def __repr__(self):
        return "SObj(%s, %s)" % (type(self.model).__name__, self.z)


class SSeq(Val):
    """immutable sequence of symbolic length; index(value) gives the position for duplicate-free ones"""

    def __init__(self, n, elem, index=None):
        self.n, self.elem, self.index = n, elem, index


class Poison(Val):
    def __init__(self, why):
        self.why = why


class LastVal(Val):
    """value of a loop-local variable after the loop: that of the last iteration"""

    def __init__(self, v, i, n):
        self.v, self.i, self.n = v, i, n


# ------------------------------------------------------------------ mutable cells
class Cell:
    content = None


class MList(Cell):
    """content: tuple of parts; a part is ('c', (values...)) or ('s', SSeq)"""

    def __init__(self, items=()):
        self.content = (("c", tuple(items)),) if items else ()

    @classmethod
    def of_seq(cls, s):
        r = cls()
        r.content = (("s", s),)
        return r

    def concrete(self):
        out = []
        for k, p in self.content:
            if k != "c":
                return None
            out.extend(p)
        return out

    def append(self, v):
        if self.content and self.content[-1][0] == "c":
            self.content = self.content[:-1] + (("c", self.content[-1][1] + (v,)),)
        else:
            self.content = self.content + (("c", (v,)),)


class SymBase:
    """symbolic base of a dict/set: dom(z3 Name)->z3 Bool, val(SStr)->value, seq: SSeq of keys"""

    def __init__(self, dom, val=None, seq=None):
        self.dom, self.val, self.seq = dom, val, seq


class MDict(Cell):
    """content: (base or None, tuple of updates); update = ('set', key, value) | ('del', key) | ('loop', LoopWrites)"""

    def __init__(self, items=(), base=None, cls=dict):
        self.content = (base, tuple(("set", k, v) for k, v in items))
        self.cls = cls
        self.attrs = None        # companion cell with the attributes of an instance of a subclass of dict


class MSet(Cell):
    """content: (base or None, updates); update = ('add', key) | ('del', key) | ('loop', LoopWrites) | ('pred', fn, sign)"""

    def __init__(self, items=(), base=None):
        self.content = (base, tuple(("add", k) for k in items))


class Inst(Cell):
    """instance of a real class"""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.content = dict(attrs or {})

    def __repr__(self):
        return "Inst(%s)" % self.cls.__name__


class Closure:
    def __init__(self, node, frame, name, interp_globals):
        self.node, self.frame, self.name, self.globals = node, frame, name, interp_globals
        self.defaults = ()
        self.kwdefaults = {}
        self.fn = None


class Bound:
    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv


class Contract:
    """a callable given by its contract: run(interp, args, kwargs)"""

    def __init__(self, run, name="contract"):
        self.run, self.name = run, name


class Super:
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


CATS, JOINS = {}, {}       # how a concatenation / a join was made, by the name of its function


def text_parts(run, z, recs=None):
    """the parts of a string: text | term (not analysed further) | ("join", separator, mode, sequence)
    | ("rep", limit, i -> parts) for what a loop adds"""
    if recs is None:
        recs = list({id(x): x for x in run.recurrences.values() if isinstance(x["init"], (str, SStr))}.values())
    if isinstance(z, str):
        return [z] if z else []
    if isinstance(z, SStr):
        z = z.z
    if z3.is_app(z):
        nm = z.decl().name()
        if nm.startswith("lit:"):
            return [nm[4:]] if nm[4:] else []
        if nm in CATS:
            out, args = [], iter(z.children())
            for x in CATS[nm]:
                out += [x] if x is not None else text_parts(run, next(args), recs)
            return out
        if nm in JOINS:
            ix, sep, mode, seq = JOINS[nm]
            pairs = list(zip(ix, z.children()))
            n, e = smt.num(seq.n), seq.elem
            return [("join", sep, mode, SSeq(z3.substitute(n, *pairs) if pairs else n, lambda j: subst(e(j), pairs) if pairs else e(j)))]
        for r in recs:
            lim = smt.num(r["limit"])
            at = r["at"](lim)
            if isinstance(at, SStr) and z3.eq(z3.simplify(at.z), z3.simplify(z)):
                def body(i, r=r):
                    step = text_parts(run, r["step"](i), recs)
                    if not step or not z3.is_expr(step[0]) or not z3.eq(step[0], r["at"](i).z):
                        raise Unsupported("a loop that does not extend the text")
                    return step[1:]
                return text_parts(run, r["init"], recs) + [("rep", lim, body)]
    return [z]


class Star:
    """the remaining positional arguments of a call: a sequence of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


def is_sym(v):
    return isinstance(v, (Val, Cell))


# ------------------------------------------------------------------ substitution of loop indices
def subst(v, pairs):
    if isinstance(v, SNum):
        f = lambda t: z3.substitute(t, *pairs)
        return SNum(f(v.z), f(v.nan), f(v.pinf), f(v.ninf))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.z, *pairs))
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.z, *pairs))
    if isinstance(v, SOpq):
        return SOpq(z3.substitute(v.z, *pairs), v.kind)
    if isinstance(v, SArr):
        return SArr(z3.substitute(smt.num(v.n), *pairs), lambda j, e=v.elem: subst(e(j), pairs), v.tag)
    if isinstance(v, SSeq):
        return SSeq(z3.substitute(smt.num(v.n), *pairs), lambda j, e=v.elem: subst(e(j), pairs), None)
    if isinstance(v, SObj) and hasattr(v.model, "subst"):
        return v.model.subst(v, pairs)
    if isinstance(v, SObj):
        return SObj(v.model, None if v.z is None else z3.substitute(v.z, *pairs), **{k: subst(x, pairs) for k, x in v.info.items()})
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, MList):
        r = MList()
        r.content = tuple(("c", tuple(subst(x, pairs) for x in p)) if k == "c" else ("s", subst(p, pairs)) for k, p in v.content)
        return r
    if isinstance(v, MDict):
        r = MDict(cls=v.cls)
        base, ups = v.content
        def up(u):
            if u[0] != "loop":
                return (u[0],) + tuple(subst(x, pairs) for x in u[1:])
            w = u[1]
            f = lambda x: z3.substitute(x, *pairs)
            es = [Entry(f(e.cond), e.op, (lambda k, g=e.key: f(g(k))) if callable(e.key) else subst(e.key, pairs),
                        (lambda k, g=e.value: subst(g(k), pairs)) if e.op == "pset" else subst(e.value, pairs)) for e in w.entries]
            return (u[0], LoopWrites(w.i, f(smt.num(w.n)), es, w.run)) + tuple(u[2:])
        r.content = (base if base is None else SymBase(lambda k, d=base.dom: z3.substitute(d(k), *pairs),
                                                       None if base.val is None else (lambda k, d=base.val: subst(d(k), pairs)), None),
                     tuple(up(u) for u in ups))
        return r
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, MSet):
        raise Unsupported("substitution in %s" % type(v).__name__)
    return v


def mentions(v, consts):
    """does the value mention one of the z3 constants / functions (by declaration name)?"""
    es = []

    def walk(x):
        if isinstance(x, (SBool, SStr, SOpq)):
            es.append(x.z)
        elif isinstance(x, SNum):
            es.extend([x.z, x.nan, x.pinf, x.ninf])
        elif isinstance(x, (SArr, SSeq)):
            es.append(smt.num(x.n))
            walk(x.elem(z3.Int("mentions!probe")))
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, SObj) and hasattr(x.model, "parts"):
            walk(x.model.parts(x))
        elif isinstance(x, SObj):
            if x.z is not None:
                es.append(x.z)
            for y in x.info.values():
                walk(y)
        elif isinstance(x, MList):
            for k, p in x.content:
                walk(p)
        elif isinstance(x, z3.ExprRef):
            es.append(x)
    walk(v)
    seen, st = set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
        elif z3.is_app(e):
            if e.decl().name() in consts:
                return True
            st.extend(e.children())
    return False


# ------------------------------------------------------------------ loop effects
class Entry:
    """one kind of write of a loop body: for 0 <= i < n with cond(i): op at key(i) with value(i)"""

    def __init__(self, cond, op, key, value):
        self.cond, self.op, self.key, self.value = cond, op, key, value


BYPRED = ("pred", "unpred", "pset")     # writes of all keys with a property: sets, and dicts with a value by key


class LoopWrites:
    def __init__(self, i, n, entries, run):
        self.i, self.n, self.entries, self.run = i, n, entries, run
        self.cache = {}

    def hit(self, e, k):
        """(hit, index) of entry e for the z3 key k; the defining facts are emitted on first use"""
        run = self.run
        k = z3.simplify(k)
        ck = (id(e), k.get_id(), tuple(x.get_id() for x, _ in run.idx))
        if ck in self.cache:
            # a body is explored several times: the facts belong to each exploration
            if run.loopctx:
                run.loopctx[-1].facts.extend(self.cache[ck][3])
            return self.cache[ck][:2]
        before = len(run.facts)
        r = self._hit(e, k)
        self.cache[ck] = (*r, k, run.facts[before:])
        return r

    def value(self, e, k, t):
        """what entry e writes at key k in iteration t"""
        v = e.value if e.op != "pset" else self.run.generic_eval(self.i, self.n, lambda: e.value(k))
        return subst(v, [(self.i, t)])

    def _hit(self, e, k):
        run = self.run
        at = lambda t, x: z3.substitute(x, (self.i, t))
        if e.op in BYPRED:
            # the predicate is that of a generic iteration: what it introduces depends on the iteration
            pk = run.generic_eval(self.i, self.n, lambda: e.key(k))
            P = lambda t: zand(at(t, e.cond), at(t, pk))
        else:
            P = lambda t: zand(at(t, e.cond), at(t, e.key.z) == k)
        inv = run.inverse.get(e.key.z.decl().name()) if e.op not in BYPRED and z3.is_app(e.key.z) and e.key.z.num_args() == 1 and z3.eq(e.key.z.arg(0), self.i) else None
        if inv is not None:
            t = inv(k)
            hit = zand(t >= 0, t < smt.num(self.n), at(t, e.cond), at(t, e.key.z) == k)
            return hit, t
        h = run.fresh("hit", z3.BoolSort())
        t = run.fresh("at", z3.IntSort())
        j = z3.Int(run.env.name("j"))
        run.fact(z3.Implies(h, zand(t >= 0, t < smt.num(self.n), P(t))))
        body = z3.Implies(zand(j >= 0, j < smt.num(self.n)), znot(P(j)))
        run.fact(z3.Implies(znot(h), z3.ForAll([j], body)))
        if e.op not in ("pred", "unpred"):      # the last write counts
            run.fact(z3.Implies(h, z3.ForAll([j], z3.Implies(zand(j > t, j < smt.num(self.n)), znot(P(j))))))
        return h, t


# ------------------------------------------------------------------ the run
class Frame:
    def __init__(self, glb, parent=None, fn=None):
        self.locals = {}
        self.globals = glb
        self.parent = parent
        self.fn = fn
        self.cls = None
        self.nonlocals = set()
        self.globalnames = set()


class _Dec:
    def __init__(self, prefix):
        self.prefix, self.pos, self.pending, self.taken = list(prefix), 0, [], []


class Run:
    """one execution along a path"""

    def __init__(self, env, contracts, prefix):
        self.env, self.contracts = env, contracts
        self.pc = []
        self.facts = []
        self.cells = []
        self.dec = [_Dec(prefix)]
        self.idx = []            # enclosing generic loop indices (const, range condition)
        self.inverse = {}        # elem function name -> inverse index function
        self.steps = 0
        self.log = []            # ghost log of contract calls (outside of loops)
        self.loops = []
        self.depth = 0
        self.named = {}
        self.trusted = set()
        self.recurrences = {}
        self.qcache = {}
        self.loopctx = []
        self.growing = []
        self.okdicts = []
        self.nested = {}         # sums inside of loops: functions of the enclosing indices
        self.skolem = {}         # existential constant -> its defining expressions

    # ---- symbols and facts
    def fresh(self, base, sort):
        nm = self.env.name(base)
        if not self.idx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[z3.IntSort() for _ in self.idx], sort)
        return f(*[i for i, _ in self.idx])

    def freshfun(self, base, *sorts):
        """a function; inside generic iterations it takes the loop indices as leading arguments"""
        nm = self.env.name(base)
        f = z3.Function(nm, *[z3.IntSort() for _ in self.idx], *sorts)
        ix = [i for i, _ in self.idx]
        return (lambda *a: f(*ix, *a)), nm

    def generic_eval(self, i, n, f):
        """f() as part of a generic iteration i < n: what it introduces depends on i, its facts hold for all i"""
        rng = zand(i >= 0, i < smt.num(n))
        ctx = _LoopCtx()
        self.idx.append((i, rng))
        self.loopctx.append(ctx)
        try:
            r = f()
        finally:
            self.idx.pop()
            self.loopctx.pop()
        for g in ctx.facts:
            self.fact(z3.ForAll([i], z3.Implies(rng, g)) if mentions(g, {i.decl().name()}) else g)
        return r

    def fact(self, f):
        """a fact that holds unconditionally; inside loops it is generalised over the enclosing indices"""
        if z3.is_true(f):
            return
        self.facts.append(f)
        if self.loopctx:
            self.loopctx[-1].facts.append(f)

    def assume(self, c):
        self.pc.append(c)

    # ---- solver
    def _solver(self, extra, timeout=1500):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.add(*self.env.pre)
        s.add(*self.env.facts)
        s.add(*self.facts)
        s.add(*self.pc)
        s.add(*extra)
        return s

    def feasible(self, c):
        return self._solver([c]).check() != z3.unsat

    def entails(self, c, timeout=4000):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible(TRUE)
        s = self._solver([z3.Not(c)], timeout)
        if s.check() == z3.unsat:
            return True
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.env.pre, *self.env.facts, *self.facts, *self.pc, z3.Not(c))
        return s.check() == z3.unsat

    def truth(self, z):
        """decide a condition on this path, forking if both outcomes are possible"""
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        d = self.dec[-1]
        if d.pos < len(d.prefix):
            b = d.prefix[d.pos]
        else:
            t, f = self.feasible(z), self.feasible(z3.Not(z))
            if not t and not f:
                raise _Infeasible()
            if t and f:
                d.pending.append(d.taken + [False])
                b = True
            else:
                b = t
        d.pos += 1
        d.taken.append(b)
        self.pc.append(z if b else z3.Not(z))
        return b

    # ---- names
    def lit(self, s):
        c = z3.Const("lit:" + s, Name)
        k = abs(hash(("name", s)))
        if s not in self.named:
            self.named[s] = len(self.named)
            # distinctness by an injective numbering, identical in every run
            self.facts.append(_code(c) == _litcode(s))
        return c

    def name(self, v):
        if isinstance(v, SStr):
            return v.z
        if isinstance(v, str):
            return self.lit(v)
        raise Unsupported("not a name: %r" % (v,))

    def cell(self, c):
        self.cells.append(c)
        return c

    def snapshot(self):
        return [(c, dict(c.content) if isinstance(c, Inst) else c.content) for c in self.cells]

    def restore(self, snap):
        for c, v in snap:
            c.content = dict(v) if isinstance(c, Inst) else v

    # ---- constants that stand for a sum / an existential over an element of an array
    def nocap(self, e, *probes):
        """the expression is about to be generalised over the probes: it must not contain a constant
        whose definition mentions one of them"""
        names = {p.decl().name() for p in probes}
        seen, st = set(), [e]
        while st:
            for nm in smt.consts_of([st.pop()]):
                if nm in seen:
                    continue
                seen.add(nm)
                if nm in self.env.sums:
                    S = self.env.sums[nm]
                    d = [smt.num(S.body(z3.Int("nocap!k"))), smt.num(S.n)]
                elif nm in self.skolem:
                    d = self.skolem[nm]
                else:
                    continue
                if names & set(smt.consts_of(d)):
                    raise Unsupported("a sum over an element is generalised over that element")
                st.extend(d)

    # ---- existential over a loop range, as a boolean with its defining facts
    def exists(self, n, pred, base="ex"):
        """SBool-level z3 boolean equivalent to  exists 0<=i<n. pred(i)"""
        probe = z3.Int(self.env.name("i"))
        p = z3.simplify(pred(probe))
        if z3.is_false(p):
            return FALSE
        self.nocap(p, probe)
        h = self.fresh(base, z3.BoolSort())
        t = self.fresh(base + "_at", z3.IntSort())
        for c in (h, t):
            if z3.is_const(c):
                self.skolem[c.decl().name()] = [p, smt.num(n)]
        self.__dict__.setdefault("exlog", []).append((h, t, smt.num(n), pred))
        self.fact(z3.Implies(h, zand(t >= 0, t < smt.num(n), pred(t))))
        self.fact(z3.Implies(znot(h), z3.ForAll([probe], z3.Implies(zand(probe >= 0, probe < smt.num(n)), znot(p)))))
        return h


_LITCODES = {}


def _litcode(s):
    if s not in _LITCODES:
        _LITCODES[s] = len(_LITCODES)
    return _LITCODES[s]


class Path:
    """result of one explored path"""

    def __init__(self, run, kind, value, state):
        self.run, self.kind, self.value, self.state = run, kind, value, state

    @property
    def hyps(self):
        return list(self.run.facts) + list(self.run.pc)


def explore(env, body, contracts=None, maxpaths=MAXPATHS):
    """body(interp) -> (kind is 'return' with its value, or 'raise'); state = whatever interp.state was set to"""
    pending = [[]]
    paths = []
    while pending:
        prefix = pending.pop()
        run = Run(env, contracts or {}, prefix)
        it = Interp(run)
        try:
            try:
                v = body(it)
                kind = "return"
            except PyRaise as e:
                kind, v = "raise", e.exc
            paths.append(Path(run, kind, v, it.state))
        except _Infeasible:
            pass
        pending.extend(run.dec[0].pending)
        env.trusted |= run.trusted
        if len(paths) > maxpaths:
            raise Unsupported("more than %d paths" % maxpaths)
    return paths


# ------------------------------------------------------------------ the interpreter
_SRC = {}


def fn_ast(fn):
    code = fn.__code__
    if code in _SRC:
        return _SRC[code]
    try:
        src = textwrap.dedent(inspect.getsource(code))
    except (OSError, TypeError) as e:
        raise Unsupported("no source for %s: %s" % (fn, e))
    if src.lstrip().startswith(("def ", "async def", "@", "class ")):
        tree = ast.parse(src)
        node = next((n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == fn.__name__), None)
    else:
        node = None
        for cand in (src.strip(), "(" + src.strip().rstrip(",") + ")", src.strip().rstrip(",")):
            try:
                tree = ast.parse(cand)
            except SyntaxError:
                continue
            lams = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if len(lams) == 1:
                node = lams[0]
                break
    if node is None:
        raise Unsupported("cannot extract %s" % fn)
    _SRC[code] = node
    return node


def in_repo(fn):
    m = getattr(fn, "__module__", None) or ""
    return m.split(".")[0] in ("appletree",) or m.startswith("checks.") or m == "vc.specs"


_MISSING = object()


def anum(x):
    """native number -> SNum"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)))
    if isinstance(x, int):
        return SNum(z3.IntVal(x))
    if isinstance(x, float):
        if x != x:
            return SNum(z3.RealVal(0), nan=TRUE)
        if x in (float("inf"), float("-inf")):
            return SNum(z3.RealVal(0), pinf=z3.BoolVal(x > 0), ninf=z3.BoolVal(x < 0))
        return SNum(smt.num(x))
    if isinstance(x, SBool):
        return SNum(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return anum(x.item())
    except ImportError:
        pass
    raise Unsupported("number expected: %r" % (x,))


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, SNum, SBool, np.floating, np.integer)) and not isinstance(x, bool) or isinstance(x, bool)


def zreal(z):
    return z3.ToReal(z) if z3.is_int(z) else z


def nbin(op, a, b):
    a, b = anum(a), anum(b)
    x, y = a.z, b.z
    if op == "/" or z3.is_int(x) != z3.is_int(y):
        x, y = zreal(x), zreal(y)
    if a.plain and b.plain and op in "+-*":
        return SNum({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())
    inf = lambda v: zor(v.pinf, v.ninf)
    nan = zor(a.nan, b.nan)
    if op == "-":
        b = SNum(b.z, b.nan, b.ninf, b.pinf)
        op, y = "+", -y
    if op == "+":
        nan = zor(nan, zand(a.pinf, b.ninf), zand(a.ninf, b.pinf))
        pi, ni = zor(a.pinf, b.pinf), zor(a.ninf, b.ninf)
        return SNum(x + y, nan, zand(pi, znot(nan)), zand(ni, znot(nan)))
    zx, zy = zand(a.finite, x == 0), zand(b.finite, y == 0)
    pos = lambda v, z: zor(v.pinf, zand(v.finite, z > 0))
    neg = lambda v, z: zor(v.ninf, zand(v.finite, z < 0))
    if op == "*":
        nan = zor(nan, zand(inf(a), zy), zand(inf(b), zx))
        i = zor(inf(a), inf(b))
        s = zor(zand(pos(a, x), pos(b, y)), zand(neg(a, x), neg(b, y)))
        return SNum(x * y, nan, zand(i, s, znot(nan)), zand(i, znot(s), znot(nan)))
    if op == "/":
        # numpy semantics: x/0 is +-inf, 0/0 NaN (the sign of the zero is taken as +)
        nan = zor(nan, zand(inf(a), inf(b)), zand(zx, zy))
        i = zor(zand(inf(a), b.finite), zand(zy, znot(zx)))
        s = zor(zand(pos(a, x), zor(pos(b, y), zy)), zand(neg(a, x), neg(b, y)))
        return SNum(zif(inf(b), z3.RealVal(0), x / y), nan, zand(i, s, znot(nan)), zand(i, znot(s), znot(nan)))
    raise Unsupported("operator %s" % op)


def ncmp(op, a, b):
    a, b = anum(a), anum(b)
    x, y = a.z, b.z
    if z3.is_int(x) != z3.is_int(y):
        x, y = zreal(x), zreal(y)
    if a.plain and b.plain:
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    if op == "!=":
        return znot(ncmp("==", a, b))
    ok = znot(zor(a.nan, b.nan))
    if op == "==":
        return zand(ok, zor(zand(a.pinf, b.pinf), zand(a.ninf, b.ninf), zand(a.finite, b.finite, x == y)))
    if op in (">", ">="):
        return ncmp("<" if op == ">" else "<=", b, a)
    lt = zor(zand(a.ninf, znot(b.ninf)), zand(b.pinf, znot(a.pinf)), zand(a.finite, b.finite, x < y))
    if op == "<":
        return zand(ok, lt)
    return zand(ok, zor(lt, zand(a.pinf, b.pinf), zand(a.ninf, b.ninf), zand(a.finite, b.finite, x == y)))


_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}
_CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


class _LoopCtx:
    def __init__(self):
        self.facts = []
        self.reads = []       # (cell, key, pc length)
        self.writes = []


class Interp:
    def __init__(self, run):
        self.run = run
        self.state = None
        self.models = dict(MODELS)

    # -------------------------------------------------------------- truth
    def truthz(self, v):
        """z3 condition (or bool) of the truth value"""
        if isinstance(v, SBool):
            return v.z
        if isinstance(v, SNum):
            return zor(v.nan, v.pinf, v.ninf, v.z != 0)
        if isinstance(v, SStr):
            return v.z != self.run.lit("")
        if isinstance(v, (MList, MDict, MSet, SSeq)):
            n = self.length(v)
            return self.truthz(n)
        if isinstance(v, SObj) and hasattr(v.model, "length"):
            return self.truthz(self.length(v))
        if isinstance(v, (Inst, SObj, Closure, Bound, Contract, Exc)):
            return True
        if isinstance(v, Val):
            raise Unsupported("truth of %r" % (v,))
        return bool(v)

    def truth(self, v):
        return self.run.truth(self.truthz(v))

    # -------------------------------------------------------------- functions
    def call_function(self, fn, args, kwargs):
        """interpret a real Python function"""
        node = fn_ast(fn)
        fr = Frame(fn.__globals__, None, fn)
        if fn.__closure__:
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    fr.locals[nm] = c.cell_contents
                except ValueError:
                    pass
            if "__class__" in fr.locals:
                fr.cls = fr.locals["__class__"]
        fr2 = Frame(fn.__globals__, fr, fn)
        fr2.cls = fr.cls
        self.bind(node.args, fr2, args, kwargs, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), fn.__name__)
        return self.run_body(node, fr2)

    def call_closure(self, c, args, kwargs):
        fr = Frame(c.globals, c.frame, c.fn)
        fr.cls = c.frame.cls
        self.bind(c.node.args, fr, args, kwargs, list(c.defaults), dict(c.kwdefaults), c.name)
        return self.run_body(c.node, fr)

    def run_body(self, node, fr):
        self.run.depth += 1
        if self.run.depth > 60:
            raise Unsupported("recursion in interpreted code")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unsupported("generator function")
            try:
                self.block(node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.run.depth -= 1

    def bind(self, a, fr, args, kwargs, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs:
                    raise PyRaise(Exc(TypeError, ("multiple values for %s" % p,)))
                fr.locals[p] = args[i]
            elif p in kwargs:
                fr.locals[p] = kwargs.pop(p)
            else:
                k = i - (len(pos) - len(defaults))
                if k < 0:
                    raise PyRaise(Exc(TypeError, ("%s() missing argument %s" % (name, p),)))
                fr.locals[p] = defaults[k]
        rest = args[len(pos):]
        if a.vararg and len(rest) == 1 and isinstance(rest[0], Star):
            fr.locals[a.vararg.arg] = rest[0].seq
        elif any(isinstance(x, Star) for x in args):
            raise Unsupported("arguments from a symbolic sequence")
        elif a.vararg:
            fr.locals[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(Exc(TypeError, ("%s() takes %d positional arguments" % (name, len(pos)),)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                fr.locals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                fr.locals[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(Exc(TypeError, ("%s() missing %s" % (name, x.arg),)))
        if a.kwarg:
            fr.locals[a.kwarg.arg] = self.run.cell(MDict(list(kwargs.items())))
        elif kwargs:
            raise PyRaise(Exc(TypeError, ("%s() got unexpected keyword %s" % (name, list(kwargs)),)))

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        run = self.run
        run.steps += 1
        if run.steps > 200000:
            raise Unsupported("too many steps")
        if isinstance(f, Contract):
            return f.run(self, list(args), dict(kwargs))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.selfv] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        c = self.contract_for(f)
        if c is not None:
            return c(self, list(args), dict(kwargs))
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType):
            m = self.models.get(f)
            if m is not None:
                return m(self, *args, **kwargs)
            if in_repo(f):
                return self.call_function(f, args, kwargs)
            w = getattr(f, "__wrapped__", None)
            if w is not None and in_repo(w):
                return self.call(w, args, kwargs)
        if isinstance(f, SObj):
            return f.model.call(self, f, args, kwargs)
        if isinstance(f, Inst):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        m = None
        try:
            m = self.models.get(f)
        except TypeError:
            pass
        if m is not None:
            return m(self, *args, **kwargs)
        w = getattr(f, "__wrapped__", None)
        if w is not None and in_repo(w):
            return self.call(w, args, kwargs)
        return self.native(f, args, kwargs)

    def contract_for(self, f):
        try:
            return self.run.contracts.get(f)
        except TypeError:
            return None

    def native(self, f, args, kwargs):
        """native call: only when no symbolic value is involved (or for transparent containers)"""
        owner = getattr(f, "__self__", None)
        if isinstance(owner, inspect.Signature) or isinstance(owner, inspect.BoundArguments):
            pass
        elif any(self.deep_sym(a) for a in list(args) + list(kwargs.values())):
            if isinstance(f, (types.BuiltinMethodType,)) and isinstance(owner, (str,)):
                return self.str_method(owner, f.__name__, args, kwargs)
            raise Unsupported("call of %s with symbolic arguments" % getattr(f, "__name__", f))
        elif getattr(f, "__module__", None) not in PURE_MODULES and not isinstance(owner, (str, tuple, int, float, bytes, frozenset)) and f not in PURE:
            raise Unsupported("call of %s.%s" % (getattr(f, "__module__", None), getattr(f, "__name__", f)))
        try:
            return f(*[self.to_native(a) for a in args], **{k: self.to_native(v) for k, v in kwargs.items()})
        except (Unsupported, PyRaise, _Infeasible):
            raise
        except Exception as e:
            raise PyRaise(Exc(type(e), e.args))

    def deep_sym(self, v):
        if isinstance(v, MList):
            c = v.concrete()
            return c is None or any(self.deep_sym(x) for x in c)
        if isinstance(v, (MDict, MSet)):
            if v.content[0] is not None:
                return True
            return any(u[0] not in ("set", "add") or any(self.deep_sym(x) for x in u[1:]) for u in v.content[1])
        if isinstance(v, (tuple, list)):
            return any(self.deep_sym(x) for x in v)
        return isinstance(v, (Val, Cell, Closure, Bound, Contract, Exc))

    def to_native(self, v):
        if isinstance(v, MList) and not self.deep_sym(v):
            return [self.to_native(x) for x in v.concrete()]
        if isinstance(v, MDict) and not self.deep_sym(v):
            return {k: self.to_native(x) for _, k, x in v.content[1]}
        if isinstance(v, MSet) and not self.deep_sym(v):
            return {u[1] for u in v.content[1]}
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        return v

    def from_native(self, v):
        """native mutable containers become cells (copies: only for freshly created results)"""
        if isinstance(v, list):
            return self.run.cell(MList([self.from_native(x) for x in v]))
        if type(v) is dict:
            return self.run.cell(MDict([(k, self.from_native(x)) for k, x in v.items()]))
        if isinstance(v, set):
            return self.run.cell(MSet(sorted(v, key=repr)))
        return v

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return Exc(cls, tuple(args))
        m = self.models.get(cls)
        if m is not None:
            return m(self, *args, **kwargs)
        if in_repo(cls):
            inst = self.run.cell(Inst(cls))
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [inst] + list(args), kwargs)
            elif args or kwargs:
                raise PyRaise(Exc(TypeError, ("no arguments expected",)))
            return inst
        return self.native(cls, args, kwargs)

    # -------------------------------------------------------------- attributes
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return _MISSING

    def getattr(self, o, name, default=_MISSING):
        if isinstance(o, Inst):
            d = self.class_lookup(o.cls, name)
            if isinstance(d, property):
                return self.call(d.fget, [o])
            if name in o.content:
                v = o.content[name]
                return self.resolve(v)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.run.cell(MDict(list(o.content.items())))
            if d is _MISSING:
                if default is not _MISSING:
                    return default
                raise PyRaise(Exc(AttributeError, (name,)))
            if isinstance(d, types.FunctionType):
                return Bound(d, o)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(d.__func__, o.cls)
            return self.lift(d)
        if isinstance(o, SObj):
            v = o.model.getattr(self, o, name)
            if v is _MISSING:
                if default is not _MISSING:
                    return default
                raise Unsupported("attribute %s of %r" % (name, o))
            return v
        if isinstance(o, Super) and isinstance(o.inst, MDict):
            return self.dict_super(o, name)
        if isinstance(o, Super):
            mro = o.inst.cls.__mro__ if isinstance(o.inst, Inst) else o.inst.__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return Bound(d, o.inst)
                    if isinstance(d, property):
                        return self.call(d.fget, [o.inst])
                    if name == "__init__" and c is object:
                        return Contract(lambda it, a, k: None)
                    return d
            raise PyRaise(Exc(AttributeError, (name,)))
        if isinstance(o, (MList, MDict, MSet, SSeq, SArr, SStr, SNum, SBool, SOpq, Text, Exc, Poison, LastVal)):
            return self.sym_attr(o, name, default)
        if isinstance(o, Closure):
            if name == "__name__":
                return o.name
        if isinstance(o, type) and in_repo(o):
            d = self.class_lookup(o, name)
            if isinstance(d, classmethod):
                return Bound(d.__func__, o)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, types.FunctionType):
                return d
        if isinstance(o, Bound) and name in ("__name__", "__func__", "__self__"):
            return {"__name__": getattr(o.fn, "__name__", "?"), "__func__": o.fn, "__self__": o.selfv}[name]
        try:
            v = getattr(o, name)
        except AttributeError as e:
            if default is not _MISSING:
                return default
            raise PyRaise(Exc(AttributeError, e.args))
        ov = self.run.contracts.get(("attr", getattr(o, "__name__", None), name)) if isinstance(o, types.ModuleType) else None
        if ov is not None:
            return ov(self) if callable(ov) and not isinstance(ov, (Val, Cell, Contract)) else ov
        return self.lift(v)

    def dict_super(self, o, name):
        """a method of dict (or of a base class in the repository) on an instance of a subclass of dict"""
        mro = o.inst.cls.__mro__
        d = o.inst
        for c in mro[mro.index(o.cls) + 1:]:
            if c is dict:
                break
            if name in c.__dict__:
                return Bound(c.__dict__[name], d)
        if name == "__init__":
            return Contract(lambda it, a, k: it.dict_update(d, m_dict(it, *a, **k)) if a or k else None)
        if name in ("__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__"):
            return Contract(lambda it, a, k: {"__getitem__": it.dict_getitem, "__setitem__": it.dict_set, "__delitem__": it.delitem,
                                              "__contains__": lambda x, y: it.mkbool(it.zb(it.has(x, y))), "__len__": lambda x: it.length(x)}[name](d, *a, **k))
        f = _METHODS[MDict].get(name)
        if f is None:
            raise Unsupported("super().%s" % name)
        return Contract(lambda it, a, k: f(it, d, *a, **k), name)

    def lift(self, v):
        """native mutable values read from classes / modules"""
        return v

    def resolve(self, v):
        if isinstance(v, Poison):
            raise Unsupported("value not tracked: %s" % v.why)
        if isinstance(v, LastVal):
            if self.run.truth(smt.num(v.n) > 0):
                return subst(v.v, [(v.i, smt.num(v.n) - 1)])
            raise PyRaise(Exc(UnboundLocalError, ("loop variable",)))
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d = self.class_lookup(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(Exc(AttributeError, (name,)))
                self.call(d.fset, [o, v])
                return
            o.content = dict(o.content)
            o.content[name] = v
            return
        if isinstance(o, MDict) and o.cls is not dict:
            if o.attrs is None:
                o.attrs = self.run.cell(Inst(object))
            o.attrs.content = dict(o.attrs.content)
            o.attrs.content[name] = v
            return
        if isinstance(o, SObj):
            r = o.model.setattr(self, o, name, v) if hasattr(o.model, "setattr") else _MISSING
            if r is _MISSING:
                raise Unsupported("set attribute %s of %r" % (name, o))
            return
        raise Unsupported("set attribute of %r" % (o,))

    # -------------------------------------------------------------- equality
    def eqz(self, a, b):
        """z3 condition (or bool) for a == b"""
        if a is b and not isinstance(a, (SNum,)):
            return True
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.run.name(a) == self.run.name(b)
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            return a.z == b.z
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj) and hasattr(x.model, "eq"):
                    return x.model.eq(self, x, y)
            if isinstance(a, SObj) and isinstance(b, SObj) and a.z is not None and b.z is not None and a.model is b.model:
                return a.z == b.z
            if not (isinstance(a, SObj) and isinstance(b, SObj)):
                return False
            raise Unsupported("comparison of %r and %r" % (a, b))
        if isinstance(a, (SNum, SBool)) and is_num(b) or isinstance(b, (SNum, SBool)) and is_num(a):
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)):
                bz = b.z if isinstance(b, SBool) else z3.BoolVal(b)
                return a.z == bz
            if isinstance(b, SBool) and isinstance(a, bool):
                return b.z == z3.BoolVal(a)
            return ncmp("==", a, b)
        if isinstance(a, MList) and isinstance(b, MList):
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return self.all_eq(ca, cb)
            for x, y in ((a, cb), (b, ca)):
                if y is not None and len(y) == 0:
                    return znot(self.zb(self.truthz(x)))
            raise Unsupported("comparison of symbolic lists")
        if isinstance(a, tuple) and isinstance(b, tuple):
            return False if len(a) != len(b) else self.all_eq(a, b)
        if isinstance(a, Text) or isinstance(b, Text):
            raise Unsupported("comparison of untracked text")
        ty = lambda v: ("num" if is_num(v) else "str" if isinstance(v, (str, SStr)) else "none" if v is None else type(v).__name__)
        if ty(a) != ty(b):
            return False
        if isinstance(a, (MDict, MSet)) or isinstance(b, (MDict, MSet)):
            if isinstance(a, MSet) and isinstance(b, MSet) and not self.deep_sym(a) and not self.deep_sym(b):
                return self.to_native(a) == self.to_native(b)
            raise Unsupported("comparison of %s" % type(a).__name__)
        if is_sym(a) or is_sym(b):
            raise Unsupported("comparison of %r and %r" % (a, b))
        return bool(a == b)

    def zb(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def all_eq(self, a, b):
        r = [self.eqz(x, y) for x, y in zip(a, b)]
        if any(x is False for x in r):
            return False
        return zand(*[self.zb(x) for x in r]) if any(not isinstance(x, bool) for x in r) else True

    def mkbool(self, z):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)

    # -------------------------------------------------------------- containers
    def length(self, v):
        if isinstance(v, (str, tuple, list, dict, set)):
            return len(v)
        if isinstance(v, MList):
            n, s = 0, None
            for k, p in v.content:
                if k == "p":
                    raise Unsupported("length of a list that grows in the same loop")
                if k == "c":
                    n += len(p)
                else:
                    s = smt.num(p.n) if s is None else s + smt.num(p.n)
            return n if s is None else SNum(s + n)
        if isinstance(v, SSeq):
            return SNum(smt.num(v.n))
        if isinstance(v, SArr):
            return SNum(smt.num(v.n))
        if isinstance(v, (MDict, MSet)):
            if v.content[0] is None and not any(u[0] in ("loop", "pred") for u in v.content[1]):
                ks = self.conc_keys(v)
                return len(ks)
            return SNum(smt.num(self.keyseq(v).n))
        if isinstance(v, SObj) and hasattr(v.model, "length"):
            return v.model.length(self, v)
        if isinstance(v, (int, float, SNum, SBool)) or v is None:
            raise PyRaise(Exc(TypeError, ("no len()",)))
        if isinstance(v, Inst):
            return self.call(self.getattr(v, "__len__"), [])
        if isinstance(v, (Val, Cell)):
            raise Unsupported("len of %r" % (v,))
        return len(v)

    def conc_keys(self, c):
        """ordered keys of a container without symbolic base (forks on key equality)"""
        self.note_read(c, None)
        out = []
        for u in c.content[1]:
            if u[0] in ("set", "add"):
                if not any(self.run.truth(self.eqz(u[1], k)) for k in out):
                    out.append(u[1])
            elif u[0] == "del":
                out = [k for k in out if not self.run.truth(self.eqz(u[1], k))]
            else:
                raise Unsupported("keys of a summarised container")
        return out

    def keyseq(self, c):
        """the keys of a symbolic container as a duplicate-free sequence (cached per content)"""
        self.note_read(c, None)
        base, ups = c.content
        if base is not None and not ups and base.seq is not None:
            return base.seq
        cache = self.run.__dict__.setdefault("seqcache", {})
        ck = (id(base), tuple(id(u) for u in ups))
        if ck in cache:
            return cache[ck][0]
        dom = lambda k: self.zb(self.has(c, SStr(k)))  # noqa: E731
        run = self.run
        if base is None and len(ups) == 1 and ups[0][0] == "loop":
            s = self.loop_keys(ups[0][1])
            if s is not None:
                cache[ck] = (s, c.content)
                return s
        if run.idx and not mentions(dom(z3.Const("ks!k", Name)), {x.decl().name() for x, _ in run.idx}):
            # the container does not depend on the enclosing iterations: one order for all of them
            idx, ctx = run.idx, run.loopctx
            run.idx, run.loopctx = [], []
            try:
                s = self.make_seq(dom, "keys")
            finally:
                run.idx, run.loopctx = idx, ctx
        else:
            s = self.make_seq(dom, "keys")
        cache[ck] = (s, c.content)
        if base is not None and not ups:
            base.seq = s
        return s

    def loop_keys(self, lw):
        """the keys of a container that one loop filled with a new key in every iteration, in this order"""
        run = self.run
        if run.idx or len(lw.entries) != 1 or lw.entries[0].op not in ("set", "add") or not isinstance(lw.entries[0].key, SStr):
            return None
        e, n = lw.entries[0], smt.num(lw.n)
        a, b = z3.Int(run.env.name("i")), z3.Int(run.env.name("j"))
        at = lambda t, x: z3.substitute(x, (lw.i, t))       # noqa: E731
        rng = zand(a >= 0, a < n)
        if not run.entails(z3.Implies(rng, at(a, e.cond))) or not run.entails(z3.Implies(zand(rng, b >= 0, b < a), at(a, e.key.z) != at(b, e.key.z))):
            return None
        ix, _ = run.freshfun("key_index", Name, z3.IntSort())
        run.fact(z3.ForAll([a], z3.Implies(rng, ix(at(a, e.key.z)) == a), patterns=[at(a, e.key.z)]))
        r = SSeq(n, lambda j: SStr(at(smt.num(j), e.key.z)), lambda v: ix(run.name(v)))
        if e.op == "set":
            r.values = lambda j: subst(e.value, [(lw.i, smt.num(j))])
        return r

    def make_seq(self, dom, base="seq"):
        run = self.run
        e, en = run.freshfun(base + "_elem", z3.IntSort(), Name)
        ix, _ = run.freshfun(base + "_index", Name, z3.IntSort())
        n = run.fresh(base + "_n", z3.IntSort())
        i, k = z3.Int(run.env.name("i")), z3.Const(run.env.name("k"), Name)
        run.fact(n >= 0)
        run.fact(z3.ForAll([i], z3.Implies(zand(i >= 0, i < n), zand(dom(e(i)), ix(e(i)) == i)), patterns=[e(i)]))
        run.fact(z3.ForAll([k], z3.Implies(dom(k), zand(ix(k) >= 0, ix(k) < n, e(ix(k)) == k)), patterns=[ix(k)]))
        run.inverse[en] = ix
        if not run.idx:
            run.env.enums[en] = (z3.Function(en, z3.IntSort(), Name), dom, n)
        return SSeq(n, lambda j: SStr(e(j)), lambda v: ix(run.name(v)))

    def note_read(self, c, key):
        for ctx in self.run.loopctx:
            ctx.reads.append((c, key, tuple(self.run.pc[ctx.pc0:])))

    def note_write(self, c, op, key, val):
        for ctx in self.run.loopctx:
            ctx.writes.append((c, op, key, val))

    def has(self, c, k):
        """membership of key k: bool or z3"""
        self.note_read(c, k)
        return self._has(c.content, k)

    def _has(self, content, k):
        base, ups = content
        if not ups:
            return False if base is None else base.dom(self.run.name(k))
        if ups[-1][0] == "seen":
            return zor(self.zb(self._has((base, ups[:-1]), k)), ups[-1][1].has(self, k))
        u, rest = ups[-1], (base, ups[:-1])
        if u[0] in ("set", "add", "del"):
            e = self.eqz(u[1], k)
            here = u[0] != "del"
            if isinstance(e, bool):
                return here if e else self._has(rest, k)
            r = self._has(rest, k)
            return zor(e, self.zb(r)) if here else zand(znot(e), self.zb(r))
        if u[0] == "loop":
            r = self.zb(self._has(rest, k))
            kz = self.run.name(k)
            for e in u[1].entries:
                h, _ = u[1].hit(e, kz)
                r = zif(h, z3.BoolVal(e.op not in ("del", "unpred")), r)
            return r
        if u[0] == "pred":
            r = self.zb(self._has(rest, k))
            p = u[1](self.run.name(k))
            return zor(r, p) if u[2] else zand(r, znot(p))
        raise Unsupported(u[0])

    def lookup(self, c, k):
        """value at key k, which is known to be present (forks where values cannot be merged)"""
        self.note_read(c, k)
        content = c.content
        while True:
            base, ups = content
            if not ups:
                if base is None:
                    raise PyRaise(Exc(KeyError, (k,)))
                return base.val(SStr(self.run.name(k)))
            u, content = ups[-1], (base, ups[:-1])
            if u[0] == "set":
                e = self.eqz(u[1], k)
                if e is True:
                    return u[2]
                if e is False:
                    continue
                lower = MDict()
                lower.content = content
                if isinstance(u[2], (SNum, SOpq, int, float)) and self.run.entails(self.zb(self._has(content, k))):
                    v0 = self.lookup(lower, k)
                    m = self.merge2(e, u[2], v0)
                    if m is not None:
                        return m
                    if self.run.truth(e):
                        return u[2]
                    return v0
                if self.run.truth(e):
                    return u[2]
                continue
            if u[0] == "del":
                if self.run.truth(self.eqz(u[1], k)):
                    raise PyRaise(Exc(KeyError, (k,)))
                continue
            if u[0] == "loop":
                kz = self.run.name(k)
                found = None
                for e in reversed(u[1].entries):
                    h, t = u[1].hit(e, kz)
                    if self.run.truth(h):
                        if e.op in ("del",):
                            raise PyRaise(Exc(KeyError, (k,)))
                        found = u[1].value(e, kz, t)
                        break
                if found is not None:
                    return found
                continue
            raise Unsupported(u[0])

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, MDict):
            if o.cls is not dict:
                m = self.class_lookup(o.cls, "__getitem__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [o, k])
            return self.dict_getitem(o, k)
        if isinstance(o, MList):
            return self.list_getitem(o, k)
        if isinstance(o, (tuple, str)) and isinstance(k, (int, slice)):
            try:
                return o[k]
            except IndexError as e:
                raise PyRaise(Exc(IndexError, e.args))
        if isinstance(o, tuple) and isinstance(k, SNum):
            return self.list_getitem(MList(o), k)
        if isinstance(o, SSeq):
            if isinstance(k, slice):
                return self.list_getitem(MList.of_seq(o), k)
            return self.seq_at(o, k)
        if isinstance(o, SArr):
            if isinstance(k, SArr):
                return self.mask_select(o, k)
            if isinstance(k, (SNum, int)):
                return o.elem(anum(k).z)
        if isinstance(o, SObj):
            return o.model.getitem(self, o, k)
        if isinstance(o, Inst):
            return self.call(self.getattr(o, "__getitem__"), [k])
        if isinstance(o, (dict,)) and not is_sym(k):
            try:
                return o[k]
            except KeyError as e:
                raise PyRaise(Exc(KeyError, e.args))
        if isinstance(o, dict) and isinstance(k, SStr):
            for kk in o:
                if isinstance(kk, str) and self.run.truth(self.eqz(kk, k)):
                    return o[kk]
            raise PyRaise(Exc(KeyError, (k,)))
        if isinstance(o, dict) and isinstance(k, tuple):
            for kk in o:
                if isinstance(kk, tuple) and self.run.truth(self.zb(self.eqz(kk, k))):
                    return o[kk]
            raise PyRaise(Exc(KeyError, (k,)))
        if isinstance(o, (SNum, SBool, int, float)) or o is None:
            raise PyRaise(Exc(TypeError, ("not subscriptable",)))
        if is_sym(o) or is_sym(k):
            raise Unsupported("subscript of %r with %r" % (o, k))
        try:
            return o[self.to_native(k)]
        except Exception as e:
            raise PyRaise(Exc(type(e), e.args))

    def dict_getitem(self, o, k):
        if isinstance(k, (MList, MDict, MSet)):
            raise PyRaise(Exc(TypeError, ("unhashable",)))
        if self.run.truth(self.zb(self.has(o, k))):
            return self.lookup(o, k)
        raise PyRaise(Exc(KeyError, (k,)))

    def seq_at(self, s, k):
        k = anum(k)
        if not k.is_int:
            raise PyRaise(Exc(TypeError, ("index",)))
        n = smt.num(s.n)
        z = k.z
        neg = z3.simplify(z < 0)
        if z3.is_true(neg) or (not z3.is_false(neg) and self.run.truth(z < 0)):
            z = z + n
        if not self.run.truth(zand(z >= 0, z < n)):
            raise PyRaise(Exc(IndexError, ("index",)))
        return s.elem(z3.simplify(z))

    def list_getitem(self, o, k):
        c = o.concrete()
        if isinstance(k, slice):
            if c is not None and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return self.run.cell(MList(c[k]))
            s = self.as_seq(o)
            n = smt.num(s.n)
            if k.start is None and k.stop is None and k.step == -1:
                return self.run.cell(MList.of_seq(SSeq(n, lambda j: s.elem(n - 1 - j), None if s.index is None else (lambda v: n - 1 - s.index(v)))))
            if k.step is None and k.stop is None and k.start is None:
                return self.run.cell(MList.of_seq(s))
            if k.step is None and k.stop == -1 and k.start is None and len(o.content) == 2 and o.content[1][0] == "c" and len(o.content[1][1]) == 1:
                r = MList()
                r.content = o.content[:1]
                return self.run.cell(r)
            if k.step is None and k.start is None and isinstance(k.stop, int) and k.stop < 0:
                if self.run.truth(n >= -k.stop):
                    return self.run.cell(MList.of_seq(SSeq(n + k.stop, s.elem, s.index)))
            raise Unsupported("slice of a symbolic list")
        if c is not None:
            if isinstance(k, (int, bool)):
                try:
                    return self.resolve(c[k])
                except IndexError as e:
                    raise PyRaise(Exc(IndexError, e.args))
            if isinstance(k, SNum):
                for j in range(len(c)):
                    if self.run.truth(k.z == j):
                        return c[j]
                raise PyRaise(Exc(IndexError, ("list index",)))
            raise PyRaise(Exc(TypeError, ("list index",)))
        if k == -1 and o.content[-1][0] == "c":
            return o.content[-1][1][-1]
        return self.seq_at(self.as_seq(o), k)

    def setitem(self, o, k, v):
        if isinstance(o, MDict):
            if isinstance(k, (MList, MDict, MSet)):
                raise PyRaise(Exc(TypeError, ("unhashable",)))
            if o.cls is not dict:
                m = self.class_lookup(o.cls, "__setitem__")
                if isinstance(m, types.FunctionType):
                    return self.call(m, [o, k, v])
            return self.dict_set(o, k, v)
        if isinstance(o, MList):
            c = o.concrete()
            if c is not None and isinstance(k, int):
                try:
                    c[k] = v
                except IndexError as e:
                    raise PyRaise(Exc(IndexError, e.args))
                o.content = (("c", tuple(c)),)
                return
            if c is None and k == -1 and o.content[-1][0] == "c":
                o.content = o.content[:-1] + (("c", o.content[-1][1][:-1] + (v,)),)
                return
            raise Unsupported("list item assignment")
        if isinstance(o, SObj):
            return o.model.setitem(self, o, k, v)
        if isinstance(o, Inst):
            return self.call(self.getattr(o, "__setitem__"), [k, v])
        if isinstance(o, dict) and not is_sym(k) and any(o is d for d in self.run.okdicts):
            o[k] = v          # transparent native container (inspect.BoundArguments)
            return
        raise Unsupported("item assignment on %r" % (o,))

    def dict_set(self, o, k, v):
        self.note_write(o, "set", k, v)
        base, ups = o.content
        if ups and ups[-1][0] == "set" and self.eqz(ups[-1][1], k) is True:
            ups = ups[:-1]
        elif base is None and all(u[0] == "set" and not is_sym(u[1]) for u in ups) and not is_sym(k):
            for j, u in enumerate(ups):
                if u[1] == k:
                    o.content = (base, ups[:j] + (("set", u[1], v),) + ups[j + 1:])
                    return
        o.content = (base, ups + (("set", k, v),))

    def delitem(self, o, k):
        if isinstance(o, MDict):
            if not self.run.truth(self.zb(self.has(o, k))):
                raise PyRaise(Exc(KeyError, (k,)))
            self.note_write(o, "del", k, None)
            o.content = (o.content[0], o.content[1] + (("del", k),))
            return
        raise Unsupported("del item")

    # -------------------------------------------------------------- sequences
    def as_seq(self, v):
        """any iterable as SSeq"""
        if isinstance(v, SSeq):
            return v
        if isinstance(v, MList):
            parts = v.content
            if any(k == "p" for k, _ in parts):
                raise Unsupported("read of a list that grows in the same loop")
            if len(parts) == 1 and parts[0][0] == "s":
                return parts[0][1]
            if v.concrete() is not None:
                c = v.concrete()
                return SSeq(z3.IntVal(len(c)), lambda j: self.pick(c, j))
            # concatenation
            offs, tot = [], z3.IntVal(0)
            for k, p in parts:
                offs.append(tot)
                tot = tot + (len(p) if k == "c" else smt.num(p.n))

            def elem(j):
                val = None
                for (k, p), o in reversed(list(zip(parts, offs))):
                    x = self.pick(p, j - o) if k == "c" else p.elem(j - o)
                    val = x if val is None else self.merge([(j >= 0, x)], val) if False else self._pick2(j, o, k, p, x, val)
                return val
            return SSeq(z3.simplify(tot), elem)
        raise Unsupported("sequence of %r" % (v,))

    def _pick2(self, j, o, k, p, x, val):
        hi = o + (len(p) if k == "c" else smt.num(p.n))
        m = self.merge2(zand(j >= o, j < hi), x, val)
        if m is None:
            raise Unsupported("heterogeneous sequence")
        return m

    def pick(self, items, j):
        j = z3.simplify(smt.num(j))
        if z3.is_int_value(j):
            k = j.as_long()
            return items[k] if 0 <= k < len(items) else items[0]
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            m = self.merge2(j == k, items[k], v)
            if m is None:
                raise Unsupported("heterogeneous sequence")
            v = m
        return v

    def iterate(self, v):
        """('c', list) or ('s', SSeq)"""
        v = self.resolve(v)
        if isinstance(v, (tuple, list, str, range, frozenset)):
            return "c", list(v)
        if isinstance(v, (set,)):
            return "c", sorted(v, key=repr)
        if isinstance(v, dict) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "mappingproxy", "immutabledict"):
            return "c", list(v)
        if isinstance(v, MList):
            c = v.concrete()
            if c is not None:
                return "c", c
            return "s", self.as_seq(v)
        if isinstance(v, (MDict, MSet)):
            if v.content[0] is None and not any(u[0] in ("loop", "pred") for u in v.content[1]):
                return "c", self.conc_keys(v)
            return "s", self.keyseq(v)
        if isinstance(v, SSeq) and getattr(v, "items", None) is not None:
            return "c", list(v.items)
        if isinstance(v, SSeq):
            n = z3.simplify(smt.num(v.n))
            if z3.is_int_value(n) and n.as_long() <= 8:
                return "c", [v.elem(z3.IntVal(j)) for j in range(n.as_long())]
            return "s", v
        if isinstance(v, SObj) and hasattr(v.model, "iterate"):
            return v.model.iterate(self, v)
        if isinstance(v, SArr):
            return "s", SSeq(v.n, v.elem)
        if isinstance(v, Inst):
            return self.iterate(self.call(self.getattr(v, "__iter__"), []))
        if isinstance(v, (int, float, SNum, SBool)) or v is None:
            raise PyRaise(Exc(TypeError, ("not iterable",)))
        if isinstance(v, (Val, Cell)):
            raise Unsupported("iteration over %r" % (v,))
        try:
            return "c", list(v)
        except TypeError as e:
            raise PyRaise(Exc(TypeError, e.args))

    def contains(self, k, c):
        """k in c: bool or z3"""
        c = self.resolve(c)
        if isinstance(c, (MDict, MSet)):
            return self.has(c, k)
        if isinstance(c, MList):
            self.note_read(c, k)
            for x in self.run.growing:
                if x.cell is c:
                    lower = MList()
                    lower.content = x.old
                    return zor(self.zb(self.contains(k, lower)), x.has(self, k))
        if isinstance(c, SObj):
            return c.model.contains(self, c, k)
        if isinstance(c, (str,)) and isinstance(k, str):
            return k in c
        if isinstance(c, SStr) or (isinstance(c, str) and isinstance(k, SStr)):
            f = z3.Function("str_contains", Name, Name, z3.BoolSort())
            return f(self.run.name(c), self.run.name(k))
        if isinstance(c, Inst):
            return self.truthz(self.call(self.getattr(c, "__contains__"), [k]))
        kind, it = self.iterate(c)
        if kind == "c":
            rs = [self.eqz(k, x) for x in it]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return zor(*rs) if rs else False
        if it.index is not None and isinstance(k, (str, SStr)):
            t = it.index(k)
            return zand(t >= 0, t < smt.num(it.n), self.zb(self.eqz(it.elem(t), k)))
        return self.run.exists(it.n, lambda j: self.zb(self.eqz(k, it.elem(j))), "in")

    # -------------------------------------------------------------- merging
    def merge2(self, c, a, b):
        """value that is a when c holds and b otherwise; None when it has no representation"""
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            f = lambda x: x.z if isinstance(x, SBool) else z3.BoolVal(x)
            return SBool(zif(c, f(a), f(b)))
        if is_num(a) and is_num(b):
            x, y = anum(a), anum(b)
            p, q = x.z, y.z
            if z3.is_int(p) != z3.is_int(q):
                p, q = zreal(p), zreal(q)
            return SNum(zif(c, p, q), zif(c, x.nan, y.nan), zif(c, x.pinf, y.pinf), zif(c, x.ninf, y.ninf))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return SStr(zif(c, self.run.name(a), self.run.name(b)))
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            return SOpq(zif(c, a.z, b.z), a.kind)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = [self.merge2(c, x, y) for x, y in zip(a, b)]
            return None if any(x is None and not (y is None and w is None) for x, y, w in zip(r, a, b)) else tuple(r)
        if isinstance(a, SArr) and isinstance(b, SArr) and smt._same(a.n, b.n):
            return SArr(a.n, lambda j: self.merge2(c, a.elem(j), b.elem(j)))
        if isinstance(a, SObj) and isinstance(b, SObj) and a.model is b.model and a.z is not None and b.z is not None and not a.info and not b.info:
            return SObj(a.model, zif(c, a.z, b.z))
        if not is_sym(a) and not is_sym(b):
            try:
                if type(a) is type(b) and a == b:
                    return a
            except Exception:
                pass
        return None

    # -------------------------------------------------------------- arrays
    def arr_map(self, f, *xs):
        a = [x for x in xs if isinstance(x, SArr)]
        n = a[0].n
        for x in a[1:]:
            if not smt._same(x.n, n) and not self.run.entails(smt.num(x.n) == smt.num(n)):
                raise Unsupported("arrays of different length")
        return SArr(n, lambda j: f(*[x.elem(j) if isinstance(x, SArr) else x for x in xs]))

    def mask_select(self, a, m):
        """a[m] for a boolean mask: order-preserving selection; the same mask gives the same selection"""
        run = self.run
        p = z3.Int("mask!probe")
        mz = z3.simplify(self.zb(self.truthz(m.elem(p))))
        run.nocap(mz, p)
        cache = run.__dict__.setdefault("selcache", {})
        ck = (mz.get_id(), z3.simplify(smt.num(m.n)).get_id())
        if ck not in cache and run.entails(z3.Implies(zand(p >= 0, p < smt.num(m.n)), mz)):
            return a
        if ck not in cache:
            # a mask that is true at the same positions selects the same elements
            for (_, nid), old in list(cache.items()):
                if nid == ck[1] and run.entails(z3.Implies(zand(p >= 0, p < smt.num(m.n)), mz == old[3])):
                    cache[ck] = old
                    break
        if ck not in cache:
            sel, sn = run.freshfun("sel", z3.IntSort(), z3.IntSort())
            rank, _ = run.freshfun("rank", z3.IntSort(), z3.IntSort())
            cnt = run.fresh("selcount", z3.IntSort())
            n = smt.num(m.n)
            i, j = z3.Int(run.env.name("i")), z3.Int(run.env.name("j"))
            at = lambda t: z3.substitute(mz, (p, t))
            run.fact(zand(cnt >= 0, cnt <= n))
            run.fact(z3.ForAll([i], z3.Implies(zand(i >= 0, i < cnt), zand(sel(i) >= 0, sel(i) < n, at(sel(i)), rank(sel(i)) == i)), patterns=[sel(i)]))
            run.fact(z3.ForAll([i, j], z3.Implies(zand(i >= 0, i < j, j < cnt), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))]))
            run.fact(z3.ForAll([i], z3.Implies(zand(i >= 0, i < n, at(i)), zand(rank(i) >= 0, rank(i) < cnt, sel(rank(i)) == i)), patterns=[rank(i)]))
            cache[ck] = (cnt, sel, rank, mz)
        cnt, sel, rank, _ = cache[ck]
        return SArr(cnt, lambda j: a.elem(sel(j)), tag=("sel", a, sel, rank, mz))

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        t = type(op)
        for x, y, nm in ((a, b, "binop"), (b, a, "rbinop")):
            if isinstance(x, SObj) and hasattr(x.model, nm):
                return getattr(x.model, nm)(self, t, x, y)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if t in _OPS or t in (ast.Pow, ast.BitAnd, ast.BitOr, ast.BitXor):
                return self.arr_map(lambda x, y: self.binop(op, x, y), a, b)
        if t in _OPS:
            if is_num(a) and is_num(b):
                if not is_sym(a) and not is_sym(b):
                    return self.py(lambda: {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[_OPS[t]]())
                if t is ast.Div:
                    bz = anum(b)
                    zero = zand(bz.finite, bz.z == 0)
                    if getattr(self, "strict_div", False) and self.run.truth(zero):
                        raise PyRaise(Exc(ZeroDivisionError, ()))
                return nbin(_OPS[t], a, b)
            if t is ast.Add:
                if isinstance(a, (str, SStr, Text)) and isinstance(b, (str, SStr, Text)):
                    return self.cat([a, b])
                if isinstance(a, MList) and isinstance(b, MList):
                    r = self.run.cell(MList())
                    r.content = a.content + b.content
                    return r
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
            if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
                return a * b
            if t is ast.Mult and isinstance(a, int) and isinstance(b, str):
                return a * b
            if t is ast.Mult and isinstance(a, MList) and a.concrete() is not None:
                if isinstance(b, int):
                    return self.run.cell(MList(a.concrete() * b))
                if isinstance(b, SNum) and b.is_int and len(a.concrete()) == 1:
                    v = a.concrete()[0]
                    return self.run.cell(MList.of_seq(SSeq(z3.If(b.z > 0, b.z, z3.IntVal(0)), lambda j: v)))
            if t is ast.Sub and isinstance(a, MSet) and isinstance(b, MSet):
                return self.set_op(a, b, "-")
        if t is ast.Pow:
            if is_num(a) and is_num(b) and not is_sym(a) and not is_sym(b):
                return self.py(lambda: a ** b)
            if isinstance(b, int) and 0 <= b <= 4 and is_num(a):
                r = anum(1)
                for _ in range(b):
                    r = nbin("*", r, a)
                return r
            if isinstance(a, (int, float)) and not isinstance(a, bool) and a == 10 and is_num(b):
                e = anum(b)
                if e.plain:
                    return SNum(POW10(zreal(e.z)))
                nan, pinf, ninf = [z3.simplify(x) for x in (e.nan, e.pinf, e.ninf)]
                return SNum(POW10(zreal(e.z)) if z3.is_false(ninf) else z3.If(ninf, z3.RealVal(0), POW10(zreal(e.z))), nan, pinf, FALSE)
            raise Unsupported("power")
        if t in (ast.BitAnd, ast.BitOr):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                f = lambda x: x.z if isinstance(x, SBool) else z3.BoolVal(x)
                return self.mkbool((zand if t is ast.BitAnd else zor)(f(a), f(b)))
            if isinstance(a, (MSet,)) and isinstance(b, MSet):
                return self.set_op(a, b, "&" if t is ast.BitAnd else "|")
        if t in (ast.FloorDiv, ast.Mod) and is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                return self.py(lambda: a // b if t is ast.FloorDiv else a % b)
        if t is ast.Mod and isinstance(a, str):
            return Text()
        if not self.deep_sym(a) and not self.deep_sym(b):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(t)
            if f:
                return self.from_native(self.py(lambda: f(self.to_native(a), self.to_native(b))))
        raise Unsupported("%s of %r and %r" % (t.__name__, a, b))

    def py(self, f):
        try:
            return f()
        except Exception as e:
            raise PyRaise(Exc(type(e), e.args))

    def set_pred(self, s):
        """membership predicate z3 Name -> z3 Bool of the current content"""
        c = s.content
        if isinstance(s, (MSet, MDict)):
            return lambda k: self.zb(self._has(c, SStr(k)))
        raise Unsupported("set predicate")

    def set_op(self, a, b, op):
        if not any(x.content[0] is not None or any(u[0] not in ("add", "del") for u in x.content[1]) for x in (a, b)):
            ka, kb = self.conc_keys(a), self.conc_keys(b)
            isin = lambda k, ks: any(self.run.truth(self.zb(self.eqz(k, x))) for x in ks)
            if op == "|":
                out = ka + [k for k in kb if not isin(k, ka)]
            elif op == "&":
                out = [k for k in ka if isin(k, kb)]
            else:
                out = [k for k in ka if not isin(k, kb)]
            return self.run.cell(MSet(out))
        r = self.run.cell(MSet())
        if op == "|":
            r.content = (a.content[0], a.content[1] + (("pred", self.set_pred(b), True),))
        elif op == "-":
            r.content = (a.content[0], a.content[1] + (("pred", self.set_pred(b), False),))
        else:
            p, q = self.set_pred(a), self.set_pred(b)
            r.content = (SymBase(lambda k: zand(p(k), q(k))), ())
        return r

    def flat_parts(self, p):
        if isinstance(p, SStr) and z3.is_app(p.z) and p.z.decl().name() in CATS:
            args = iter(p.z.children())
            for x in CATS[p.z.decl().name()]:
                yield x if x is not None else SStr(next(args))
        else:
            yield p

    def cat(self, parts):
        flat = []
        if getattr(self.run, "joins", False):
            parts = [x for p in parts for x in self.flat_parts(p)]
        for p in parts:
            if isinstance(p, Text):
                return Text()
            if isinstance(p, str):
                if p == "":
                    continue
                if flat and isinstance(flat[-1], str):
                    flat[-1] += p
                    continue
            elif not isinstance(p, SStr):
                return Text()
            flat.append(p)
        if not flat:
            return ""
        if len(flat) == 1:
            return flat[0]
        syms = [p for p in flat if isinstance(p, SStr)]
        # flatten nested concatenations of the form cat[...](x)
        shape = repr(tuple(None if isinstance(p, SStr) else p for p in flat))
        f = z3.Function("cat%s" % shape, *[Name for _ in syms], Name)
        CATS["cat%s" % shape] = tuple(None if isinstance(p, SStr) else p for p in flat)
        r = f(*[p.z for p in syms])
        if len(syms) == 1:
            inv = z3.Function("uncat%s" % shape, Name, Name)
            x = z3.Const(self.run.env.name("x"), Name)
            if shape not in self.run.__dict__.setdefault("catshapes", set()):
                self.run.catshapes.add(shape)
                self.run.facts.append(z3.ForAll([x], inv(f(x)) == x, patterns=[f(x)]))
        elif getattr(self.run, "joins", False) and len(syms) <= 3 and not any(isinstance(p, str) and "\n" in p for p in flat) and shape not in self.run.__dict__.setdefault("catshapes", set()):
            # all but one part being the same, different parts make different texts
            self.run.catshapes.add(shape)
            xs = [z3.Const(self.run.env.name("x"), Name) for _ in syms]
            for j, x in enumerate(xs):
                inv = z3.Function("uncat%d%s" % (j, shape), *[Name for _ in syms], Name)
                self.run.facts.append(z3.ForAll(xs, inv(f(*xs), *(xs[:j] + xs[j + 1:])) == x, patterns=[f(*xs)]))
        return SStr(r)

    def join(self, s, arg):
        """sep.join(...) with symbolic parts as a string whose parts can be read back (see text_parts)"""
        run = self.run
        parts = list(arg.content) if isinstance(arg, MList) else None
        if parts is None:
            kind, items = self.iterate(arg)
            parts = [("c", tuple(items))] if kind == "c" else [("s", items)]
        parts = [p for p in parts if p[0] != "c" or p[1]]
        if any(k not in "cs" for k, _ in parts):
            return None
        conc = [j for j, p in enumerate(parts) if p[0] == "c"]
        if not conc and len(parts) > 1:
            return None
        out, first = [], True
        for j, (k, p) in enumerate(parts):
            if k == "c":
                for x in p:
                    if not first:
                        out.append(s)
                    out.append(x)
                    first = False
                continue
            probe = p.elem(z3.Int("join!probe"))
            if not isinstance(probe, (str, SStr)):
                return None
            mode = "sep" if not conc else "post" if j < conc[0] else "pre"
            nm = run.env.name("join")
            f = z3.Function(nm, *[z3.IntSort() for _ in run.idx], Name)
            JOINS[nm] = (tuple(i for i, _ in run.idx), s, mode, p)
            out.append(SStr(f(*[i for i, _ in run.idx])))
        return self.cat(out)

    def str_method(self, s, name, args, kwargs):
        if name == "join":
            if getattr(self.run, "joins", False):
                r = self.join(s, args[0])
                return Text() if r is None else r
            kind, items = self.iterate(args[0])
            if kind == "c":
                out = []
                for j, x in enumerate(items):
                    if j:
                        out.append(s)
                    out.append(x)
                return self.cat(out)
            return Text()
        if name in ("startswith", "endswith"):
            f = z3.Function("str_" + name, Name, Name, z3.BoolSort())
            return SBool(f(self.run.name(s), self.run.name(args[0])))
        if name == "format":
            return Text()
        raise Unsupported("str.%s" % name)

    def unary(self, op, v):
        v = self.resolve(v)
        if isinstance(op, ast.Not):
            z = self.truthz(v)
            return (not z) if isinstance(z, bool) else self.mkbool(znot(z))
        if isinstance(v, SArr):
            return self.arr_map(lambda x: self.unary(op, x), v)
        if isinstance(v, SObj) and hasattr(v.model, "unary"):
            return v.model.unary(self, op, v)
        if isinstance(op, ast.USub) and is_num(v):
            if not is_sym(v):
                return -v
            v = anum(v)
            return SNum(-v.z, v.nan, v.ninf, v.pinf)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and isinstance(v, (SBool,)):
            return self.mkbool(znot(v.z))
        if not is_sym(v):
            import operator
            return {ast.USub: operator.neg, ast.Invert: operator.invert}[type(op)](v)
        raise Unsupported("unary %s" % type(op).__name__)

    def compare1(self, op, a, b):
        t = type(op)
        a, b = self.resolve(a), self.resolve(b)
        if t in (ast.In, ast.NotIn):
            z = self.contains(a, b)
            if t is ast.NotIn:
                z = (not z) if isinstance(z, bool) else znot(z)
            return self.mkbool(z)
        if t in (ast.Is, ast.IsNot):
            if a is b:
                r = True
            elif a is None or b is None:
                x = b if a is None else a
                r = x.model.is_none(self, x) if isinstance(x, SObj) and hasattr(x.model, "is_none") else False
            elif isinstance(a, SObj) and isinstance(b, SObj) and a.model is b.model and a.z is not None and b.z is not None:
                r = a.z == b.z
            elif isinstance(a, bool) and isinstance(b, bool) or not is_sym(a) and not is_sym(b):
                r = a is b
            elif isinstance(a, SBool) and isinstance(b, bool):
                r = a.z if b else znot(a.z)
            else:
                r = False
            if t is ast.IsNot:
                r = (not r) if isinstance(r, bool) else znot(r)
            return self.mkbool(r)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return self.arr_map(lambda x, y: self.compare1(op, x, y), a, b)
        for x, y, fl in ((a, b, False), (b, a, True)):
            if isinstance(x, SObj) and hasattr(x.model, "compare"):
                return x.model.compare(self, _CMPS[t], x, y, fl)
        if t in (ast.Eq, ast.NotEq):
            z = self.eqz(a, b)
            if t is ast.NotEq:
                z = (not z) if isinstance(z, bool) else znot(z)
            return self.mkbool(z)
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[_CMPS[t]]
            return self.mkbool(ncmp(_CMPS[t], a, b))
        if isinstance(a, MSet) and isinstance(b, MSet):
            return self.subset(a, b) if t is ast.LtE else self.subset(b, a) if t is ast.GtE else self._nope("set comparison")
        if not is_sym(a) and not is_sym(b):
            return self.py(lambda: {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[_CMPS[t]]())
        raise Unsupported("%s of %r and %r" % (t.__name__, a, b))

    def _nope(self, why):
        raise Unsupported(why)

    def subset(self, a, b):
        if a.content[0] is None and not any(u[0] not in ("add", "del", "set") for u in a.content[1]):
            r = [self.zb(self.contains(k, b)) for k in self.conc_keys(a)]
            return self.mkbool(zand(*r))
        s = self.keyseq(a)
        ex = self.run.exists(s.n, lambda j: znot(self.zb(self._has(b.content, s.elem(j)))), "notsub")
        p, q = self.set_pred(a), self.set_pred(b)
        k = z3.Const(self.run.env.name("k"), Name)
        self.run.fact(z3.Implies(znot(ex), z3.ForAll([k], z3.Implies(p(k), q(k)))) if not any(u[0] == "loop" for u in b.content[1] + a.content[1]) else TRUE)
        return self.mkbool(znot(ex))

    # -------------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load(n.id, fr)

    def load(self, name, fr):
        f = fr
        if name not in fr.globalnames:
            while f is not None:
                if name in f.locals:
                    return self.resolve(f.locals[name])
                f = f.parent
        g = fr.globals
        ov = self.run.contracts.get(("global", name))
        if ov is not None:
            return ov
        if name in g:
            v = g[name]
            alias = self.run.contracts.get(("object", id(v)))
            return v if alias is None else alias
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(Exc(NameError, (name,)))

    def store(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.locals:
                    f = f.parent
                f.locals[t.id] = v
                return
            if t.id in fr.globalnames:
                raise Unsupported("global assignment")
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.store(x, y, fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, v, elts):
        v = self.resolve(v)
        star = [j for j, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, MList) and v.concrete() is None or isinstance(v, SSeq):
            s = self.as_seq(v)
            if star:
                raise Unsupported("starred unpacking of a symbolic sequence")
            if not self.run.truth(smt.num(s.n) == len(elts)):
                raise PyRaise(Exc(ValueError, ("unpack",)))
            return [s.elem(z3.IntVal(j)) for j in range(len(elts))]
        kind, items = self.iterate(v)
        if kind != "c":
            raise Unsupported("unpacking of a symbolic collection")
        if star:
            j = star[0]
            k = len(items) - (len(elts) - 1)
            return items[:j] + [self.run.cell(MList(items[j:j + k]))] + items[j + k:]
        if len(items) != len(elts):
            raise PyRaise(Exc(ValueError, ("unpack",)))
        return items

    def e_Attribute(self, n, fr):
        return self.resolve(self.getattr(self.ev(n.value, fr), n.attr))

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.resolve(self.getitem(o, self.ev(n.slice, fr)))

    def e_Slice(self, n, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        if not n.elts and getattr(self.run, "empty_list", None) is not None:
            return self.run.empty_list()
        items = self.elts(n.elts, fr, True)
        if not any(isinstance(x, Star) for x in items):
            return self.run.cell(MList(items))
        r, parts = MList(), []
        for x in items:
            if isinstance(x, Star):
                parts.append(("s", x.seq))
            elif parts and parts[-1][0] == "c":
                parts[-1] = ("c", parts[-1][1] + (x,))
            else:
                parts.append(("c", (x,)))
        r.content = tuple(parts)
        return self.run.cell(r)

    def e_Set(self, n, fr):
        return self.run.cell(MSet(self.elts(n.elts, fr)))

    def elts(self, es, fr, call=False):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                kind, items = self.iterate(self.ev(e.value, fr))
                if kind != "c":
                    if not call:
                        raise Unsupported("starred symbolic sequence")
                    out.append(Star(items))
                    continue
                out.extend(items)
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = self.run.cell(MDict())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def generic_value(self, f, i, n):
        """f() for an arbitrary index i < n, the same expression for all of them: no case may have to be distinguished"""
        run, rng = self.run, zand(i >= 0, i < smt.num(n))
        ctx, hold = _LoopCtx(), run.pc
        ctx.pc0 = len(hold) + 1
        run.idx.append((i, rng))
        run.loopctx.append(ctx)
        run.dec.append(_Dec([]))
        run.pc = list(hold) + [rng]
        try:
            v = f()
            if run.dec[-1].pending:
                raise Unsupported("elements of different kinds in one update")
        finally:
            run.pc = hold
            run.dec.pop()
            run.loopctx.pop()
            run.idx.pop()
        for g in ctx.facts:
            run.fact(z3.ForAll([i], z3.Implies(rng, g)) if mentions(g, {i.decl().name()}) else g)
        return v

    def dict_update(self, d, o):
        if isinstance(o, MDict) and o.content[0] is None and all(u[0] in ("set", "del") for u in o.content[1]):
            for k in self.conc_keys(o):
                self.dict_set(d, k, self.lookup(o, k))
            return
        if isinstance(o, dict) or type(o).__name__ in ("immutabledict", "mappingproxy"):
            for k in o:
                self.dict_set(d, k, o[k])
            return
        if isinstance(o, MDict):
            if d.content[0] is None and not d.content[1] and not self.run.loopctx:
                d.content = o.content
                return
            # d.update(o): a loop writing o's items
            s = self.keyseq(o)
            i = z3.Int(self.run.env.name("u"))
            self.note_write(d, "bulk", None, None)
            k = s.elem(i)
            v = s.values(i) if hasattr(s, "values") else self.generic_value(lambda: self.lookup(o, k), i, s.n)
            lw = LoopWrites(i, s.n, [Entry(TRUE, "set", k, v)], self.run)
            d.content = (d.content[0], d.content[1] + (("loop", lw),))
            return
        raise Unsupported("dict update with %r" % (o,))

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, SStr)) and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(x)
                elif not self.deep_sym(x) and v.format_spec is None and v.conversion == -1 and isinstance(x, (int, float)):
                    parts.append(str(x))
                else:
                    parts.append(Text())
        return self.cat(parts)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op, a, self.ev(n.right, fr))

    def e_UnaryOp(self, n, fr):
        return self.unary(n.op, self.ev(n.operand, fr))

    def e_BoolOp(self, n, fr):
        v = None
        for j, e in enumerate(n.values):
            v = self.ev(e, fr)
            if j == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, fr)
            r = self.compare1(op, a, b)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            a = b
        return True

    def e_IfExp(self, n, fr):
        c = self.ev(n.test, fr)
        return self.ev(n.body if self.truth(c) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        c = Closure(n, fr, "<lambda>", fr.globals)
        c.defaults = tuple(self.ev(d, fr) for d in n.args.defaults)
        c.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        return c

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            fl = fr
            while fl.fn is None or "self" not in fl.locals:
                fl = fl.parent
                if fl is None:
                    raise Unsupported("super()")
            first = next(iter(fl.locals.values()))
            return Super(f.cls, first)
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value, fr)
            f = self.resolve(self.getattr(o, n.func.attr))
        else:
            f = self.ev(n.func, fr)
        args = self.elts(n.args, fr, True)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, MDict):
                    if v.content[0] is not None or any(u[0] not in ("set", "del") for u in v.content[1]):
                        kwargs["**"] = v
                        continue
                    for kk in self.conc_keys(v):
                        if not isinstance(kk, str):
                            raise Unsupported("symbolic keyword")
                        kwargs[kk] = self.lookup(v, kk)
                elif isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, SObj):
                    kwargs["**"] = v
                else:
                    raise Unsupported("** of %r" % (v,))
            else:
                kwargs[k.arg] = v
        if f is builtins.locals or f is builtins.globals:
            raise Unsupported("locals()")
        return self.call(f, args, kwargs)

    def comp(self, n, fr, emit_elem):
        """list of (kind, ...) for a comprehension: concrete list of results or a summarised one"""
        sub = Frame(fr.globals, fr, fr.fn)
        sub.cls = fr.cls
        out = self.run.cell(MList())
        gens = n.generators

        def go(k):
            if k == len(gens):
                out_append(emit_elem(sub))
                return
            g = gens[k]
            if g.is_async:
                raise Unsupported("async comprehension")
            it = self.ev(g.iter, fr if k == 0 else sub)

            def body(v):
                self.store(g.target, v, sub)
                for c in g.ifs:
                    if not self.truth(self.ev(c, sub)):
                        return
                go(k + 1)
            self.loop(it, body, sub)

        def out_append(v):
            self.note_write(out, "append", None, v)
            out.append(v)
        go(0)
        return out

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, lambda f: self.ev(n.elt, f))

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, lambda f: self.ev(n.elt, f))

    def e_SetComp(self, n, fr):
        return m_set(self, self.comp(n, fr, lambda f: self.ev(n.elt, f)))

    def e_DictComp(self, n, fr):
        return m_dict(self, self.comp(n, fr, lambda f: (self.ev(n.key, f), self.ev(n.value, f))))

    # -------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.run.steps += 1
        if self.run.steps > 200000:
            raise Unsupported("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.store(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            setter = lambda v: self.store(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.resolve(self.getattr(o, t.attr))
            setter = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        v = self.ev(s.value, fr)
        # in-place operations on mutable containers keep their identity
        if isinstance(cur, MSet) and isinstance(s.op, (ast.BitOr, ast.Sub)) and isinstance(v, MSet):
            self.set_inplace(cur, v, isinstance(s.op, ast.BitOr))
            setter(cur)
            return
        if isinstance(cur, MList) and isinstance(s.op, ast.Add):
            self.list_extend(cur, v)
            setter(cur)
            return
        setter(self.binop(s.op, cur, v))

    def set_inplace(self, cur, v, add):
        simple = v.content[0] is None and all(u[0] == "add" for u in v.content[1])
        if simple:
            for u in v.content[1]:
                self.note_write(cur, "set" if add else "del", u[1], True)
                cur.content = (cur.content[0], cur.content[1] + (("add" if add else "del", u[1]),))
            return
        p = self.set_pred(v)
        self.note_write(cur, "pred" if add else "unpred", p, True)
        cur.content = (cur.content[0], cur.content[1] + (("pred", p, add),))

    def list_extend(self, l, v):
        kind, it = self.iterate(v)
        if kind == "c":
            for x in it:
                self.note_write(l, "append", None, x)
                l.append(x)
            return
        if self.run.loopctx:
            raise Unsupported("extend by a symbolic sequence inside a summarised loop")
        l.content = l.content + (("s", it),)

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_Return(self, s, fr):
        raise _Return(None if s.value is None else self.ev(s.value, fr))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur)
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = Exc(e)
        if not isinstance(e, Exc):
            raise Unsupported("raise of %r" % (e,))
        raise PyRaise(e)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(Exc(AssertionError, ()))

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    ok = h.type is None
                    if not ok:
                        c = self.ev(h.type, fr)
                        cs = c if isinstance(c, tuple) else (c,)
                        ok = any(issubclass(e.exc.cls, x) for x in cs)
                    if ok:
                        if h.name:
                            fr.locals[h.name] = e.exc
                        old, self.handling = getattr(self, "handling", None), e.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        exits = []
        for it in s.items:
            c = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(c, "__enter__"), [])
            exits.append(c)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        finally:
            for c in reversed(exits):
                self.call(self.getattr(c, "__exit__"), [None, None, None])

    def s_FunctionDef(self, s, fr):
        c = Closure(s, fr, s.name, fr.globals)
        c.defaults = tuple(self.ev(d, fr) for d in s.args.defaults)
        c.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        fr.locals[s.name] = v

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.locals[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(m, a.name)

    def s_Global(self, s, fr):
        fr.globalnames |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                m_delattr(self, self.ev(t.value, fr), t.attr)
            else:
                raise Unsupported("del")

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_While(self, s, fr):
        k = 0
        while self.truth(self.ev(s.test, fr)):
            k += 1
            if k > 64:
                raise Unsupported("while loop beyond 64 iterations")
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(v):
            self.store(s.target, v, fr)
            self.block(s.body, fr)
        broke = self.loop(it, body, fr)
        if not broke and s.orelse:
            self.block(s.orelse, fr)

    # -------------------------------------------------------------- loops
    def loop(self, it, body, fr):
        kind, items = self.iterate(it)
        if kind == "c":
            for v in items:
                try:
                    body(v)
                except _Break:
                    return True
                except _Continue:
                    continue
            return False
        return Summary(self, items, body, fr).run_loop()


# ------------------------------------------------------------------ loop summaries
class AccNum(SNum):
    """start-of-iteration value of an accumulator, plus what this iteration has added so far"""

    def __init__(self, base, deltas=()):
        d = anum(0)
        v = base
        for x in deltas:
            v = _nbin(("+"), v, x)
        super().__init__(v.z, v.nan, v.pinf, v.ninf)
        self.base, self.deltas = base, tuple(deltas)


_nbin = nbin


def nbin(op, a, b):     # noqa: F811
    if op in "+-" and isinstance(a, AccNum) and not isinstance(b, AccNum):
        b = anum(b)
        if op == "-":
            b = SNum(-b.z, b.nan, b.ninf, b.pinf)
        return AccNum(a.base, a.deltas + (b,))
    if op == "+" and isinstance(b, AccNum) and not isinstance(a, AccNum):
        return AccNum(b.base, b.deltas + (anum(a),))
    return _nbin(op, a, b)


class _PathEff:
    def __init__(self):
        self.cond = TRUE
        self.kind = "normal"


class Growing:
    """a container to which every completed iteration adds its own key: before iteration i it holds, besides its
    earlier content, exactly the keys of iterations 0..i-1.  h(i): the key of iteration i is among them, t(i): first at"""

    def __init__(self, cell, value, i, run):
        self.cell, self.value, self.i = cell, value, i
        self.old = cell.content
        self.h = run.fresh("seen", z3.BoolSort())
        self.t = run.fresh("seen_at", z3.IntSort())

    def same(self, it, a, b):
        return it.zb(it.eqz(a, b))

    def facts(self, it):
        run, i = it.run, self.i
        j = z3.Int(run.env.name("j"))
        eq = lambda x: self.same(it, subst(self.value, [(i, x)]), self.value)  # noqa: E731
        h, t = self.h, self.t
        run.fact(z3.Implies(h, zand(t >= 0, t < i, eq(t), znot(z3.substitute(h, (i, t))))))
        run.fact(z3.Implies(znot(h), z3.ForAll([j], z3.Implies(zand(j >= 0, j < i), znot(eq(j))))))

    def has(self, it, k):
        if self.same_value(it, k):
            return self.h
        raise Unsupported("another key of a container that grows in the same loop")

    def same_value(self, it, k):
        a, b = zterm(it.run, k), zterm(it.run, self.value)
        return a is not None and b is not None and (z3.eq(a, b) or it.run.entails(a == b))


def zterm(run, v):
    if isinstance(v, (str, SStr)):
        return run.name(v)
    if isinstance(v, (SObj, SOpq)) and v.z is not None:
        return v.z
    return None


class Summary:
    def __init__(self, it, seq, body, fr):
        self.it, self.seq, self.body, self.fr, self.run = it, seq, body, fr, it.run
        self.growing = []

    def grow_key(self, c, effs, has0, i, value=None):
        """the key added to c by every iteration that completes, if all reads and writes of c are for this key"""
        run, keys = self.run, []
        normal = [e for e in effs if e.kind == "normal"]
        ops = {"append"} if isinstance(c, MList) else {"set", "add"}
        for e in effs:
            mine = None
            for v in [((v if isinstance(c, MList) else k) if op in ops else None) for x, op, k, v in e.writes if x is c] + [k for x, k, pc in e.reads if x is c]:
                if v is None or zterm(run, v) is None or (mine is not None and not z3.eq(zterm(run, mine), zterm(run, v))):
                    return None
                mine = v
            if mine is not None:
                keys.append((e, mine))
            elif e.kind == "normal":
                return None
        if not keys:
            return None
        key = keys[-1][1]
        for e, v in keys[:-1]:
            if not z3.eq(zterm(run, v), zterm(run, key)):
                key = self.it.merge2(e.cond, v, key)
                if key is None:
                    return None
        kz = zterm(run, key)
        for e, v in keys:
            if not z3.eq(zterm(run, v), kz) and run._solver([i >= 0, e.cond, zterm(run, v) != kz], 4000).check() != z3.unsat:
                return None
        if value is not None and not z3.eq(kz, zterm(run, value)):
            for e, v in keys:
                if run._solver([i >= 0, e.cond, zterm(run, v) != zterm(run, value)], 4000).check() != z3.unsat:
                    return None
            key = value
        for e in normal:
            if any(x is c for x, *_ in e.writes):
                continue
            if run._solver([i >= 0, e.cond, znot(has0(key))], 4000).check() != z3.unsat:
                return None
        return key

    def grow(self, effs, known, lists, i, base):
        """finds containers that only collect the keys of the iterations"""
        new = False
        cand = {}
        for e in effs:
            if e.kind == "normal":
                for c, *_ in e.writes:
                    if id(c) in known and isinstance(c, (MDict, MSet, MList)):
                        cand[id(c)] = c
        read = {id(x) for e in effs for x, k, pc in e.reads}
        for c in cand.values():
            if id(c) not in read or any(g.cell is c for g in self.growing) or any(x is c for x in lists):
                continue
            old = dict((id(x), v) for x, v in base[0])[id(c)]

            def has0(k, c=c, old=old):
                if isinstance(c, MList):
                    lower = MList()
                    lower.content = old
                    return self.it.zb(self.it.contains(k, lower))
                return self.it.zb(self.it._has(old, k))
            key = self.grow_key(c, effs, has0, i)
            if key is None:
                continue
            if not isinstance(c, MList):
                # only where iterations can meet the same key
                j = z3.Int(self.run.env.name("j"))
                kz = zterm(self.run, key)
                if self.run._solver([i >= 0, j >= 0, j < i, kz == z3.substitute(kz, (i, j))], 4000).check() == z3.unsat:
                    continue
            self.run.idx.append((i, i >= 0))
            try:
                g = Growing(c, key, i, self.run)
            finally:
                self.run.idx.pop()
            g.old, g.has0 = old, has0
            self.growing.append(g)
            new = True
        return new

    # -- state access
    def frames(self):
        out, f = [], self.fr
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def snap(self):
        return (self.run.snapshot(), [(f, dict(f.locals)) for f in self.frames()], len(self.run.cells))

    def restore(self, s):
        self.run.restore(s[0])
        for f, l in s[1]:
            f.locals = dict(l)

    def scalars(self, s):
        """modified scalar locations relative to the snapshot: {(kind, owner id, name): (owner, old, new)}"""
        out = {}
        for f, l in s[1]:
            for k, v in f.locals.items():
                if k not in l:
                    out[("local", id(f), k)] = (f, _MISSING, v)
                elif l[k] is not v:
                    out[("local", id(f), k)] = (f, l[k], v)
        for c, old in s[0]:
            if isinstance(c, Inst):
                for k, v in c.content.items():
                    if k not in old:
                        out[("attr", id(c), k)] = (c, _MISSING, v)
                    elif old[k] is not v:
                        out[("attr", id(c), k)] = (c, old[k], v)
        return out

    def put(self, loc, owner, v):
        if loc[0] == "local":
            owner.locals[loc[2]] = v
        else:
            owner.content = dict(owner.content)
            owner.content[loc[2]] = v

    def thread_value(self, loc, old, new, prev):
        """a symbolic start-of-iteration value for a location, as a function of the index"""
        run, env = self.run, self.run.env
        ix = [z3.IntSort() for _ in run.idx]
        oi = [i for i, _ in run.idx]

        def fn(tag, *sorts):
            f = z3.Function(env.name("st_%s_%s" % (loc[2], tag)), *ix, z3.IntSort(), *sorts)
            return (lambda *a: f(*oi, *a)), f.name()
        if isinstance(old, bool) and not isinstance(new, (bool, SBool)):
            return None
        if isinstance(old, (bool, SBool)):
            f, nm = fn("b", z3.BoolSort())
            return dict(at=lambda i: SBool(f(i)), names={nm}, kind="rec")
        if is_num(old):
            if not is_num(new):
                return None
            a, b = anum(old), anum(new)
            isint = a.is_int and b.is_int
            f, nm = fn("v", z3.IntSort() if isint else z3.RealSort())
            names = {nm}
            plain = a.plain and b.plain and not (prev and prev.get("flags"))
            if plain:
                return dict(at=lambda i: SNum(f(i)), names=names, kind="num", isint=isint)
            fl = [fn(t, z3.BoolSort()) for t in ("nan", "pinf", "ninf")]
            names |= {x[1] for x in fl}
            return dict(at=lambda i: SNum(f(i), *[x[0](i) for x in fl]), names=names, kind="num", flags=True, isint=isint)
        if isinstance(old, (str, SStr)) and isinstance(new, (str, SStr)):
            f, nm = fn("s", Name)
            return dict(at=lambda i: SStr(f(i)), names={nm}, kind="rec")
        if isinstance(old, SOpq) and isinstance(new, SOpq):
            f, nm = fn("o", old.z.sort())
            return dict(at=lambda i: SOpq(f(i), old.kind), names={nm}, kind="rec")
        if isinstance(old, SObj) and isinstance(new, SObj) and old.model is new.model and old.z is not None and not old.info:
            f, nm = fn("o", old.z.sort())
            return dict(at=lambda i: SObj(old.model, f(i)), names={nm}, kind="rec")
        if isinstance(old, SArr) and isinstance(new, SArr):
            probe = old.elem(z3.Int("thr!probe"))
            if isinstance(probe, SNum):
                f, nm = fn("a", z3.IntSort(), z3.RealSort())
                fl = [fn(t, z3.IntSort(), z3.BoolSort()) for t in ("anan", "apinf", "aninf")]
                flagged = not probe.plain or not anum(new.elem(z3.Int("thr!probe"))).plain or (prev and prev.get("flags"))
                return dict(at=lambda i: SArr(old.n, lambda b: SNum(f(i, b), *([x[0](i, b) for x in fl] if flagged else []))),
                            names={nm} | {x[1] for x in fl}, kind="arr", flags=flagged, n=old.n)
        return None

    # -- exploration of the body for a generic element
    def generic(self, i, n, threads, temps, lists, base):
        run = self.run
        rng = zand(i >= 0, i < n)
        pending, effs = [[]], []
        while pending:
            prefix = pending.pop()
            self.restore(base)
            for loc, t in threads.items():
                v = t.get("start")
                if v is None:
                    v = t["at"](i)
                    if t["kind"] == "num" and not t.get("noacc"):
                        v = AccNum(v)
                    elif t["kind"] == "arr" and not t.get("noacc"):
                        v = SArr(v.n, lambda b, e=v.elem: AccNum(e(b)))
                    t["start"] = v
                self.put(loc, t["owner"], v)
            for loc, owner in temps.items():
                self.put(loc, owner, Poison("loop-carried value of %s" % loc[2]))
            for c in lists:
                c.content = (("p", None),)
            for g in self.growing:
                if not isinstance(g.cell, MList):
                    g.cell.content = (g.old[0], g.old[1] + (("seen", g),))
                else:
                    g.cell.content = (("p", None),)
            eff = _PathEff()
            start = self.snap()
            start = (start[0], start[1], base[2])
            ctx = _LoopCtx()
            ctx.pc0 = len(run.pc)
            run.dec.append(_Dec(prefix))
            run.idx.append((i, rng))
            run.loopctx.append(ctx)
            pc_saved = list(run.pc)
            run.pc.append(rng)
            grow_saved = run.growing
            run.growing = run.growing + self.growing
            for g in self.growing:
                g.facts(self.it)
            log_saved = list(run.log)
            try:
                try:
                    self.body(self.seq.elem(i))
                except _Continue:
                    pass
                except _Break:
                    eff.kind = "break"
                except _Return:
                    eff.kind = "return"
                except PyRaise as e:
                    eff.kind = "raise"
                eff.cond = zand(*run.pc[len(pc_saved) + 1:])
                eff.mod = self.scalars(start)
                eff.newcells = [c for c in run.cells[base[2]:]]
                eff.writes, eff.reads, eff.facts = ctx.writes, ctx.reads, ctx.facts
                eff.log = run.log[len(log_saved):]
                effs.append(eff)
            except _Infeasible:
                pass
            finally:
                d = run.dec.pop()
                run.idx.pop()
                run.loopctx.pop()
                run.growing = grow_saved
                run.pc = pc_saved
                run.log = log_saved
            pending.extend(d.pending)
            if len(effs) > 200:
                raise Unsupported("loop body with more than 200 paths")
        return effs

    def run_loop(self):
        run, it = self.run, self.it
        n = smt.num(self.seq.n)
        base = self.snap()
        known = {id(c) for c, _ in base[0]}
        self.w0 = {id(ctx): len(ctx.writes) for ctx in run.loopctx}
        i = z3.Int(run.env.name("it"))
        threads, temps, lists = {}, {}, []
        for attempt in range(8):
            effs = self.generic(i, n, threads, temps, lists, base)
            changed = self.grow(effs, known, lists, i, base)
            normal = [e for e in effs if e.kind == "normal"]
            for e in normal:
                for loc, (owner, old, new) in e.mod.items():
                    if old is _MISSING or loc in temps:
                        continue
                    if loc in threads:
                        t = threads[loc]
                        if t["kind"] in ("num", "arr") and not t.get("flags"):
                            v = new.elem(z3.Int("thr!probe")) if isinstance(new, SArr) else new
                            if is_num(v) and not anum(v).plain:
                                t2 = self.thread_value(loc, t["old"], new, dict(flags=True))
                                t2.update(owner=owner, old=t["old"], noacc=t.get("noacc"))
                                threads[loc] = t2
                                changed = True
                            elif is_num(v) and t.get("isint") and not anum(v).is_int:
                                t2 = self.thread_value(loc, t["old"], new, None)
                                t2.update(owner=owner, old=t["old"], noacc=t.get("noacc"))
                                threads[loc] = t2
                                changed = True
                        continue
                    t = self.thread_value(loc, old, new, None)
                    if t is None:
                        temps[loc] = owner
                    else:
                        t.update(owner=owner, old=old)
                        threads[loc] = t
                    changed = True
                for c, op, key, val in e.writes:
                    if id(c) in known and op in ("append", "ext") and not any(c is x for x in lists) and not any(g.cell is c for g in self.growing):
                        lists.append(c)
                        changed = True
                    if op == "bulk" and id(c) in known:
                        raise Unsupported("bulk update of a dict inside a loop over a symbolic collection")
            if not changed:
                break
        else:
            raise Unsupported("loop state does not stabilise")
        for g in self.growing:
            if self.grow_key(g.cell, effs, lambda k, g=g: zor(g.has0(k), g.h), i, g.value) is None:
                raise Unsupported("a container grows by other keys in a loop")
        # facts of the body, generalised
        rngi = zand(i >= 0, i < n)
        for e in effs:
            for f in e.facts:
                run.fact(z3.ForAll([i], z3.Implies(rngi, f)) if mentions(f, {i.decl().name()}) else f)
        abn = [e for e in effs if e.kind != "normal"]
        R = zor(*[e.cond for e in abn]) if abn else FALSE
        self.restore(base)
        self._i, self._threads, self._temps, self._lists = i, threads, temps, lists
        limit, stop = n, None
        if not z3.is_false(z3.simplify(R)):
            h = run.fresh("stops", z3.BoolSort())
            t = run.fresh("stop_at", z3.IntSort())
            j = z3.Int(run.env.name("j"))
            at = lambda x: z3.substitute(R, (i, x))
            run.fact(z3.Implies(h, zand(t >= 0, t < n, at(t), z3.ForAll([j], z3.Implies(zand(j >= 0, j < t), znot(at(j)))))))
            run.fact(z3.Implies(znot(h), z3.ForAll([j], z3.Implies(zand(j >= 0, j < n), znot(at(j))))))
            if run.truth(h):
                limit, stop = t, t
        self.apply(i, limit, normal, threads, temps, lists, known, n)
        if stop is None:
            run.loops.append(dict(i=i, n=n, paths=normal, seq=self.seq))
            return False
        try:
            self.body(self.seq.elem(stop))
        except _Break:
            return True
        except _Continue:
            pass
        raise _Infeasible()

    # -- effect of iterations 0..limit-1
    def merged(self, normal, get):
        """merge a per-path value; None if not representable"""
        vals = [(e.cond, get(e)) for e in normal]
        if not vals:
            return Poison("loop body never completes normally")
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = self.it.merge2(c, x, v)
            if v is None:
                return None
        return v

    def apply(self, i, limit, normal, threads, temps, lists, known, n):
        run, it, env = self.run, self.it, self.run.env
        iname = i.decl().name()
        tnames = {}
        for loc, t in threads.items():
            for nm in t["names"]:
                tnames[nm] = loc
        # which threaded locations are used by conditions, writes or other locations
        used = set()

        def use(v, but=None):
            for loc, t in threads.items():
                if loc != but and mentions(v, t["names"]):
                    used.add(loc)
        final = {}
        for loc, t in threads.items():
            final[loc] = [(e, e.mod[loc][2] if loc in e.mod else t["start"]) for e in normal]
        for e in normal:
            use(e.cond)
            for c, op, key, val in e.writes:
                for x in (key, val):
                    if x is not None and not callable(x):
                        use(x)
            for c, op, key, val in e.writes:
                if callable(key):
                    use(key(z3.Const("use!k", Name)))
                if op == "pset":
                    use(val(z3.Const("use!k", Name)))
            for c, a, k, r in e.log:
                for x in list(a) + list(k.values()) + [r]:
                    use(x)
        for loc, t in threads.items():
            for e, v in final[loc]:
                if t["kind"] == "num" and isinstance(v, AccNum) and v.base is t["start"].base:
                    for d in v.deltas:
                        use(d, None)
                elif t["kind"] == "arr" and isinstance(v, SArr) and isinstance(v.elem(z3.Int("thr!p")), AccNum):
                    for d in v.elem(z3.Int("thr!p")).deltas:
                        use(d, None)
                else:
                    use(v, None if t["kind"] in ("num", "arr") else loc)
        for e in normal:
            for loc, (owner, old, new) in e.mod.items():
                if loc not in threads:
                    use(new)
        # non-interference of keyed containers
        self.interference(i, normal, known, n)
        results = {}
        for loc, t in threads.items():
            init = t["old"]
            if t["kind"] == "num" and loc not in used and all(isinstance(v, AccNum) and v.base is t["start"].base for _, v in final[loc]):
                d = self.delta([(e.cond, v.deltas) for e, v in final[loc]])
                results[loc] = self.total(init, d, i, limit)
                continue
            if t["kind"] == "arr" and loc not in used and all(isinstance(v, SArr) and isinstance(v.elem(z3.Int("thr!p")), AccNum) for _, v in final[loc]):
                vs = [(e.cond, v) for e, v in final[loc]]
                cache = {}

                def elem(b, vs=vs, init=init, cache=cache):
                    b = z3.simplify(smt.num(b))
                    if b.get_id() not in cache:
                        d = self.delta([(c, v.elem(b).deltas) for c, v in vs])
                        cache[b.get_id()] = (self.total(init.elem(b), d, i, limit), b)
                    return cache[b.get_id()][0]
                results[loc] = SArr(init.n, elem)
                continue
            step = self.merged(normal, lambda e: e.mod[loc][2] if loc in e.mod else t["start"])
            if step is None or isinstance(step, Poison):
                results[loc] = Poison("value of %s after the loop" % loc[2])
                continue
            val = t["at"](limit)
            rec = dict(at=t["at"], init=init, step=lambda x, step=step: subst(step, [(i, x)]), limit=limit, stepval=step, i=i, name=loc[2], kind=t["kind"])
            for nm in t["names"]:
                run.recurrences[nm] = rec
            z0 = self.same(t["at"](z3.IntVal(0)), init)
            if z0 is not None:
                run.fact(z0)
            results[loc] = val
        # temporaries
        for e in normal:
            for loc, (owner, old, new) in e.mod.items():
                if loc in threads or loc in results:
                    continue
                v = self.merged(normal, lambda x: x.mod[loc][2] if loc in x.mod else (old if old is not _MISSING else Poison("unset")))
                if old is _MISSING and v is not None and all(loc in x.mod for x in normal):
                    results[loc] = LastVal(v, i, limit)
                else:
                    results[loc] = Poison("value of %s after the loop" % loc[2])
                threads_owner = owner
                temps[loc] = threads_owner
        for loc, v in results.items():
            owner = threads[loc]["owner"] if loc in threads else temps[loc]
            if isinstance(v, (LastVal, Poison)) and loc[0] == "local":
                owner.locals[loc[2]] = v
            else:
                self.put(loc, owner, v)
        # containers
        cells = {}
        for e in normal:
            for c, op, key, val in e.writes:
                if id(c) in known:
                    cells.setdefault(id(c), (c, []))[1].append((e, op, key, val))
        for cid, (c, ws) in cells.items():
            if isinstance(c, MList):
                self.apply_list(c, ws, normal, i, limit)
                continue
            entries = []
            for e, op, key, val in ws:
                if op in BYPRED:
                    entries.append(Entry(e.cond, op, key, val))
                    continue
                key = key if isinstance(key, SStr) else SStr(run.name(key))
                for x in entries:
                    if x.op == op and not callable(x.key) and z3.eq(x.key.z, key.z) and (x.value is val or (isinstance(c, MSet))):
                        x.cond = z3.simplify(zor(x.cond, e.cond))
                        break
                else:
                    entries.append(Entry(e.cond, op, key, val))
            w = LoopWrites(i, limit, entries, run)
            c.content = (c.content[0], c.content[1] + (("loop", w),))
            for ctx in run.loopctx:
                if isinstance(c, MSet) and all(e.op in ("set", "pred") for e in entries):
                    # for the enclosing loop, one write of all keys in place of those of the generic iteration
                    w0 = self.w0[id(ctx)]
                    ctx.writes[w0:] = [x for x in ctx.writes[w0:] if x[0] is not c]
                    ctx.writes.append((c, "pred", lambda k, w=w: zor(*[w.hit(e, k)[0] for e in w.entries]), True))
                elif isinstance(c, MDict) and len(entries) == 1 and entries[0].op in ("set", "pset"):
                    w0 = self.w0[id(ctx)]
                    ctx.writes[w0:] = [x for x in ctx.writes[w0:] if x[0] is not c]
                    x = entries[0]
                    ctx.writes.append((c, "pset", lambda k, w=w, x=x: w.hit(x, k)[0], lambda k, w=w, x=x: w.value(x, k, w.hit(x, k)[1])))
                else:
                    ctx.writes.append((c, "bulk", None, None))
        # ghost log
        for e in normal:
            for entry in e.log:
                run.log.append(entry)

    def apply_list(self, c, ws, normal, i, limit):
        run, it = self.run, self.it
        if all(op == "ext" for _, op, _, _ in ws):
            part = self.flatten(ws, normal, i, limit)
            return self.add_part(c, part)
        if any(op != "append" for _, op, _, _ in ws):
            raise Unsupported("list operation in a loop over a symbolic collection")
        per = {id(e): [] for e in normal}
        for e, op, key, val in ws:
            per[id(e)].append(val)
        counts = {len(v) for v in per.values()}
        if counts == {1}:
            v = self.merged(normal, lambda e: per[id(e)][0])
            if v is None:
                conds = [(e.cond, per[id(e)][0]) for e in normal]

                def elem(j):
                    for cnd, x in conds[:-1]:
                        if run.truth(z3.substitute(cnd, (i, smt.num(j)))):
                            return subst(x, [(i, smt.num(j))])
                    return subst(conds[-1][1], [(i, smt.num(j))])
            else:
                elem = lambda j: subst(v, [(i, smt.num(j))])
            index = None
            if isinstance(v, SStr) and z3.is_app(v.z) and v.z.num_args() >= 1 and z3.eq(v.z.arg(v.z.num_args() - 1), i):
                inv = run.inverse.get(v.z.decl().name())
                if inv is not None:
                    index = lambda x: inv(run.name(x))
            part = SSeq(limit, elem, index)
        elif counts <= {0, 1}:
            app = [e for e in normal if per[id(e)]]
            m = SArr(limit, lambda j: SBool(z3.substitute(zor(*[e.cond for e in app]), (i, smt.num(j)))))
            v = self.merged(app, lambda e: per[id(e)][0])
            if v is None:
                raise Unsupported("heterogeneous filtered list")
            sel = it.mask_select(SArr(limit, lambda j: subst(v, [(i, smt.num(j))])), m)
            cnt = sel.n
            p = z3.Int(run.env.name("i"))
            mz = lambda j: m.elem(j).z
            run.fact(z3.Implies(cnt == 0, z3.ForAll([p], z3.Implies(zand(p >= 0, p < limit), znot(mz(p))))))
            part = SSeq(cnt, sel.elem)
            part.filtered = (limit, m, lambda j: subst(v, [(i, smt.num(j))]), sel.tag)
        else:
            raise Unsupported("several appends per iteration")
        self.add_part(c, part)

    def add_part(self, c, part):
        c.content = c.content + (("s", part),)
        for ctx in self.run.loopctx:
            # for the enclosing loop, one extension in place of the appends of the generic iteration
            w0 = self.w0[id(ctx)]
            ctx.writes[w0:] = [x for x in ctx.writes[w0:] if x[0] is not c]
            ctx.writes.append((c, "ext", None, part))

    def flatten(self, ws, normal, i, limit):
        """the list extended by a sequence in every iteration: position p belongs to element J(p) of iteration L(p)"""
        run = self.run
        if len(normal) != 1 or len(ws) != 1:
            raise Unsupported("several kinds of extensions per iteration")
        part = ws[0][3]
        total = run.fresh("total", z3.IntSort())
        (L, _), (J, _) = run.freshfun("outer", z3.IntSort(), z3.IntSort()), run.freshfun("inner", z3.IntSort(), z3.IntSort())
        Pos, _ = run.freshfun("position", z3.IntSort(), z3.IntSort(), z3.IntSort())
        j, p = z3.Int(run.env.name("j")), z3.Int(run.env.name("p"))
        at = lambda x, t: z3.substitute(smt.num(x), (i, t))
        inn = lambda t, x: zand(t >= 0, t < limit, x >= 0, x < at(part.n, t))
        run.fact(total >= 0)
        run.fact(z3.ForAll([p], z3.Implies(zand(p >= 0, p < total), zand(inn(L(p), J(p)), Pos(L(p), J(p)) == p)), patterns=[L(p)]))
        v = part.elem(j)
        pat = [Pos(i, j)]
        if isinstance(v, SStr) and mentions(v, {i.decl().name()}) and mentions(v, {j.decl().name()}) and z3.is_app(v.z) and v.z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            pat.append(v.z)
        run.fact(z3.ForAll([i, j], z3.Implies(inn(i, j), zand(Pos(i, j) >= 0, Pos(i, j) < total, L(Pos(i, j)) == i, J(Pos(i, j)) == j)), patterns=pat))

        def elem(q):
            q = smt.num(q)
            return subst(subst(v, [(j, J(q))]), [(i, L(q))])
        return SSeq(total, elem)

    def same(self, a, b):
        if isinstance(a, SArr):
            return None
        if is_num(a) and is_num(b):
            a, b = anum(a), anum(b)
            x, y = a.z, b.z
            if z3.is_int(x) != z3.is_int(y):
                x, y = zreal(x), zreal(y)
            return zand(x == y, a.nan == b.nan, a.pinf == b.pinf, a.ninf == b.ninf)
        e = self.it.eqz(a, b)
        return None if isinstance(e, bool) else e

    def delta(self, items):
        """combined contribution of one iteration"""
        tot = []
        for c, ds in items:
            v = anum(0)
            for d in ds:
                v = _nbin("+", v, d)
            tot.append((c, v))
        v = tot[-1][1]
        for c, x in reversed(tot[:-1]):
            v = self.it.merge2(c, x, v)
        return v

    def total(self, init, d, i, limit):
        run, env = self.run, self.run.env
        init = anum(init)
        isint = d.is_int and init.is_int
        z = d.z if isint else zreal(d.z)
        if run.idx:
            # a sum inside of an enclosing loop: a function of the enclosing indices
            f, nm = run.freshfun("nsum", z3.IntSort() if isint else z3.RealSort())
            s = f()
            run.nested[nm] = dict(idx=[x for x, _ in run.idx], n=limit, body=z, i=i, sort="int" if isint else "real", decl=s.decl())
        else:
            s = env.sum(limit, lambda k: z3.substitute(z, (i, smt.num(k))), "int" if isint else "real")
        base = init.z if isint else zreal(init.z)
        at = lambda f: (lambda t: z3.substitute(f, (i, t)))
        if d.plain and init.plain:
            return SNum(base + s)
        nan = zor(init.nan, run.exists(limit, at(d.nan), "nan"))
        pi = zor(init.pinf, run.exists(limit, at(d.pinf), "pinf"))
        ni = zor(init.ninf, run.exists(limit, at(d.ninf), "ninf"))
        nan = zor(nan, zand(pi, ni))
        return SNum(base + s, nan, zand(pi, znot(nan)), zand(ni, znot(nan)))

    def purge(self, normal, known):
        """(container, key) if the only effect of an iteration is `if <...> and key in c: delete c[key]`:
        repeating a key then changes nothing, because the iteration does nothing once the key is gone"""
        run, found, shape = self.run, None, None
        for e in normal:
            if e.log:
                return None
            m = []
            for loc, (owner, old, new) in sorted(e.mod.items(), key=lambda x: str(x[0])):
                if not isinstance(new, SStr):
                    return None
                m.append((loc, new.z))
            if shape is not None and (len(shape) != len(m) or any(a[0] != b[0] or not z3.eq(a[1], b[1]) for a, b in zip(shape, m))):
                return None
            shape = m
            for c, op, key, val in e.writes:
                if id(c) not in known or op != "del" or not isinstance(c, MDict):
                    return None
                k = run.name(key)
                if found is not None and (found[0] != id(c) or not z3.eq(found[1], k)):
                    return None
                found = (id(c), k)
        if found is None:
            return None
        # once the key is gone, an iteration for the same key must do nothing: the body is run again in that state
        snap = self.snap()
        cells = [(c, ((v[0], v[1] + (("del", SStr(found[1])),)) if id(c) == found[0] else v)) for c, v in snap[0]]
        try:
            again = self.generic(self._i, smt.num(self.seq.n), self._threads, self._temps, self._lists, (cells, snap[1], snap[2]))
        finally:
            self.restore(snap)
        for e in again:
            if e.kind != "normal" or e.log or any(id(c) in known for c, op, key, val in e.writes):
                return None
            for loc, (owner, old, new) in e.mod.items():
                if not isinstance(new, SStr) or not any(loc == x[0] and z3.eq(new.z, x[1]) for x in shape):
                    return None
        return found

    def interference(self, i, normal, known, n):
        run = self.run
        j = z3.Int(run.env.name("j"))
        rng = [i >= 0, i < n, j >= 0, j < n]
        at = lambda x: z3.substitute(x, (i, j))
        writes = {}
        for e in normal:
            for c, op, key, val in e.writes:
                if id(c) in known and isinstance(c, (MDict, MSet)):
                    writes.setdefault(id(c), []).append((e, c, op, key, val))
        reads = {}
        for e in normal:
            for c, key, pc in e.reads:
                reads.setdefault(id(c), []).append((e, key, pc))

        def clash(k1, k2j, extra):
            s = run._solver(rng + extra + [k1 == k2j], 4000)
            return s.check() != z3.unsat
        purge = self.purge(normal, known)
        kk = z3.Const(run.env.name("key"), Name)
        matched = {}

        def match(op, k):
            """does a write of iteration i concern the key kk?"""
            if op not in BYPRED:
                return run.name(k) == kk
            if id(k) not in matched:
                matched[id(k)] = run.generic_eval(i, n, lambda: k(kk))
            return matched[id(k)]
        for cid, ws in writes.items():
            grown = next((g for g in self.growing if id(g.cell) == cid), None)
            if grown is not None and all(run._solver(rng + [e.cond, grown.h], 4000).check() == z3.unsat for e, *_ in ws):
                continue        # only iterations with a new key write
            for e, key, pc in ([] if grown is not None else reads.get(cid, [])):
                if key is None:
                    raise Unsupported("whole-container read of a container written in the same loop")
                kz = run.name(key)
                if purge is not None and purge[0] == cid and z3.eq(purge[1], kz):
                    continue
                for e2, c, op, wk, val in ws:
                    if op in BYPRED:
                        if run._solver(list(pc) + [j < i, at(e2.cond), at(match(op, wk)), kk == kz] + rng, 4000).check() != z3.unsat:
                            raise Unsupported("loop iterations interfere through a container")
                        continue
                    if clash(kz, at(run.name(wk)), list(pc) + [j < i, at(e2.cond)]):
                        raise Unsupported("loop iterations interfere through a container (read %s, write %s)" % (kz, run.name(wk)))
            for a in range(len(ws)):
                for b in range(len(ws)):
                    e1, c, op1, k1, v1 = ws[a]
                    e2, _, op2, k2, v2 = ws[b]
                    addlike = lambda o: o in ("set", "pred")
                    if isinstance(c, MSet) and addlike(op1) == addlike(op2):
                        continue
                    if a == b and op1 in ("set", "del", "pset"):
                        continue
                    if isinstance(c, MDict) and "pset" in (op1, op2):
                        if a < b and run._solver(rng + [i != j, e1.cond, at(e2.cond), match(op1, k1), at(match(op2, k2))], 4000).check() != z3.unsat:
                            raise Unsupported("loop iterations write the same key of a container")
                        if a < b and run._solver(rng[:2] + [e1.cond, e2.cond, match(op1, k1), match(op2, k2)], 4000).check() != z3.unsat:
                            raise Unsupported("loop iterations write the same key of a container")
                        continue
                    if not (isinstance(k1, (str, SStr)) and isinstance(k2, (str, SStr))):
                        raise Unsupported("mixed bulk updates of a set in a loop")
                    z1, z2 = run.name(k1), run.name(k2)
                    if op1 == op2 == "set" and z3.eq(z1, z2) and v1 is v2:
                        continue
                    if clash(z1, at(z2), [i != j, e1.cond, at(e2.cond)]):
                        raise Unsupported("loop iterations write the same key of a container")


# ------------------------------------------------------------------ methods of symbolic containers
def _method(name):
    def deco(f):
        f.mname = name
        return f
    return deco


def _sym_attr(self, o, name, default):
    if isinstance(o, MDict) and o.cls is not dict:
        d = self.class_lookup(o.cls, name)
        if isinstance(d, types.FunctionType):
            return Bound(d, o)
        if o.attrs is not None and name in o.attrs.content:
            return self.resolve(o.attrs.content[name])
    tab = _METHODS.get(type(o)) or next((v for k, v in _METHODS.items() if isinstance(o, k)), {})
    if name in tab:
        f = tab[name]
        if getattr(f, "is_prop", False):
            return f(self, o)
        return Contract(lambda it, a, k: f(it, o, *a, **k), name)
    if isinstance(o, MDict) and o.cls is not dict:
        d = self.class_lookup(o.cls, name)
        if isinstance(d, types.FunctionType):
            return Bound(d, o)
    if isinstance(o, SObj):
        raise Unsupported("attribute %s" % name)
    if default is not _MISSING:
        return default
    if isinstance(o, (MList, MDict, MSet, SNum, SBool, SStr)) and not hasattr({MList: list, MDict: dict, MSet: set, SNum: float, SBool: bool, SStr: str}[next(k for k in (MList, MDict, MSet, SNum, SBool, SStr) if isinstance(o, k))], name):
        raise PyRaise(Exc(AttributeError, (name,)))
    raise Unsupported("attribute %s of %s" % (name, type(o).__name__))


Interp.sym_attr = _sym_attr


def l_append(it, o, v):
    it.note_write(o, "append", None, v)
    o.append(v)


def l_extend(it, o, v):
    it.list_extend(o, v)


def l_copy(it, o):
    r = it.run.cell(MList())
    r.content = o.content
    return r


def l_remove(it, o, v):
    c = o.concrete()
    if c is None:
        # the first of the equal elements goes
        s = it.as_seq(o)
        n = smt.num(s.n)
        eq = lambda j: it.zb(it.eqz(s.elem(j), v))     # noqa: E731
        h = it.run.exists(n, eq, "removed")
        if not it.run.truth(h):
            raise PyRaise(Exc(ValueError, ("remove",)))
        t, j = it.run.fresh("removed_at", z3.IntSort()), z3.Int(it.run.env.name("j"))
        it.run.fact(z3.Implies(h, zand(t >= 0, t < n, eq(t), z3.ForAll([j], z3.Implies(zand(j >= 0, j < t), znot(eq(j)))))))
        it.note_write(o, "bulk", None, None)
        o.content = (("s", SSeq(n - 1, lambda j: s.elem(z3.If(smt.num(j) < t, smt.num(j), smt.num(j) + 1)))),)
        return
    for j, x in enumerate(c):
        if it.run.truth(it.zb(it.eqz(x, v))):
            it.note_write(o, "bulk", None, None)
            o.content = (("c", tuple(c[:j] + c[j + 1:])),)
            return
    raise PyRaise(Exc(ValueError, ("remove",)))


def l_pop(it, o, k=-1):
    c = o.concrete()
    if c is None or not isinstance(k, int):
        raise Unsupported("pop from a symbolic list")
    if not -len(c) <= k < len(c):
        raise PyRaise(Exc(IndexError, ()))
    v = c.pop(k)
    o.content = (("c", tuple(c)),)
    return v


def l_insert(it, o, k, v):
    c = o.concrete()
    if c is None:
        raise Unsupported("insert into a symbolic list")
    c.insert(k, v)
    o.content = (("c", tuple(c)),)


def l_index(it, o, v):
    kind, items = it.iterate(o)
    if kind == "c":
        for j, x in enumerate(items):
            if it.run.truth(it.zb(it.eqz(x, v))):
                return j
        raise PyRaise(Exc(ValueError, ()))
    if items.index is None:
        raise Unsupported("index in a symbolic list")
    if it.run.truth(it.contains(v, o)):
        return SNum(items.index(v))
    raise PyRaise(Exc(ValueError, ()))


def l_sort(it, o, **k):
    r = m_sorted(it, o, **k)
    o.content = r.content


def l_reverse(it, o):
    o.content = it.list_getitem(o, slice(None, None, -1)).content


def d_keys(it, o):
    kind, s = it.iterate(o)
    if kind == "c":
        return it.run.cell(MList(s))
    return it.run.cell(MList.of_seq(s))


def d_values(it, o):
    kind, s = it.iterate(o)
    if kind == "c":
        return it.run.cell(MList([it.lookup(o, k) for k in s]))
    snap = MDict(cls=dict)
    snap.content = o.content
    value = getattr(s, "values", lambda j: it.lookup(snap, s.elem(j)))
    return it.run.cell(MList.of_seq(SSeq(s.n, value)))


def d_items(it, o):
    kind, s = it.iterate(o)
    if kind == "c":
        return it.run.cell(MList([(k, it.lookup(o, k)) for k in s]))
    snap = MDict(cls=dict)
    snap.content = o.content
    value = getattr(s, "values", lambda j: it.lookup(snap, s.elem(j)))
    return it.run.cell(MList.of_seq(SSeq(s.n, lambda j: (s.elem(j), value(j)))))


def d_get(it, o, k, d=None):
    if it.run.truth(it.zb(it.has(o, k))):
        return it.lookup(o, k)
    return d


def d_pop(it, o, k, *d):
    if it.run.truth(it.zb(it.has(o, k))):
        v = it.lookup(o, k)
        it.note_write(o, "del", k, None)
        o.content = (o.content[0], o.content[1] + (("del", k),))
        return v
    if d:
        return d[0]
    raise PyRaise(Exc(KeyError, (k,)))


def d_update(it, o, other=None, **kw):
    if isinstance(other, MList):
        other = m_dict(it, other)
    if other is not None:
        it.dict_update(o, other)
    for k, v in kw.items():
        it.dict_set(o, k, v)


def d_copy(it, o):
    r = it.run.cell(MDict(cls=o.cls))
    r.content = o.content
    return r


def d_setdefault(it, o, k, d=None):
    if it.run.truth(it.zb(it.has(o, k))):
        return it.lookup(o, k)
    it.dict_set(o, k, d)
    return d


def d_clear(it, o):
    it.note_write(o, "bulk", None, None)
    o.content = (None, ())


def s_add(it, o, k):
    it.note_write(o, "set", k, True)
    o.content = (o.content[0], o.content[1] + (("add", k),))


def s_discard(it, o, k):
    it.note_write(o, "del", k, True)
    o.content = (o.content[0], o.content[1] + (("del", k),))


def s_remove(it, o, k):
    if not it.run.truth(it.zb(it.has(o, k))):
        raise PyRaise(Exc(KeyError, (k,)))
    s_discard(it, o, k)


def s_update(it, o, *others):
    for x in others:
        it.set_inplace(o, x if isinstance(x, MSet) else m_set(it, x), True)


def s_copy(it, o):
    r = it.run.cell(MSet())
    r.content = o.content
    return r


def s_clear(it, o):
    it.note_write(o, "bulk", None, None)
    o.content = (None, ())


def _prop(f):
    f.is_prop = True
    return f


def _asset(it, x):
    return x if isinstance(x, MSet) else m_set(it, x)


_METHODS = {
    MList: dict(append=l_append, extend=l_extend, copy=l_copy, remove=l_remove, pop=l_pop, insert=l_insert, index=l_index, sort=l_sort, reverse=l_reverse),
    MDict: dict(keys=d_keys, values=d_values, items=d_items, get=d_get, pop=d_pop, update=d_update, copy=d_copy, setdefault=d_setdefault, clear=d_clear),
    MSet: dict(add=s_add, discard=s_discard, remove=s_remove, update=s_update, copy=s_copy, clear=s_clear,
               union=lambda it, o, x: it.set_op(o, _asset(it, x), "|"), difference=lambda it, o, x: it.set_op(o, _asset(it, x), "-"),
               intersection=lambda it, o, x: it.set_op(o, _asset(it, x), "&"),
               issubset=lambda it, o, x: it.subset(o, _asset(it, x)), issuperset=lambda it, o, x: it.subset(_asset(it, x), o)),
    SArr: dict(sum=lambda it, o, **k: m_sum(it, o), copy=lambda it, o: o, astype=lambda it, o, t: o, tolist=lambda it, o: it.run.cell(MList.of_seq(SSeq(o.n, o.elem))),
               any=lambda it, o: m_any(it, o), all=lambda it, o: m_all(it, o),
               shape=_prop(lambda it, o: (SNum(smt.num(o.n)),)), ndim=_prop(lambda it, o: 1), size=_prop(lambda it, o: SNum(smt.num(o.n)))),
    SStr: dict(startswith=lambda it, o, x: SBool(z3.Function("str_startswith", Name, Name, z3.BoolSort())(o.z, it.run.name(x))),
               endswith=lambda it, o, x: SBool(z3.Function("str_endswith", Name, Name, z3.BoolSort())(o.z, it.run.name(x))),
               split=lambda it, o, *a: it.run.cell(MList.of_seq(_split(it, o, a))), join=lambda it, o, x: Text(), format=lambda it, o, *a, **k: Text()),
    SNum: dict(item=lambda it, o: o, sum=lambda it, o: o, astype=lambda it, o, t: o, copy=lambda it, o: o, any=lambda it, o: o, all=lambda it, o: o),
    SBool: dict(any=lambda it, o: o, all=lambda it, o: o, item=lambda it, o: o),
    Exc: dict(args=_prop(lambda it, o: o.args)),
}


def _split(it, o, a):
    n = z3.Function("split_n", Name, Name, z3.IntSort())(o.z, it.run.name(a[0] if a else " "))
    e = z3.Function("split_e", Name, Name, z3.IntSort(), Name)
    sep = it.run.name(a[0] if a else " ")
    it.run.fact(n >= 1)
    return SSeq(n, lambda j: SStr(e(o.z, sep, smt.num(j))))


# ------------------------------------------------------------------ models of builtins and numpy
def isinstance_z(it, v, c):
    if isinstance(c, tuple):
        r = [isinstance_z(it, v, x) for x in c]
        if any(x is True for x in r):
            return True
        r = [x for x in r if x is not False]
        return zor(*r) if r else False
    if not isinstance(c, type):
        import typing
        if typing.get_origin(c) is not None or type(c).__module__ in ("typing", "types"):
            args = typing.get_args(c)
            return isinstance_z(it, v, tuple(args))
        raise PyRaise(Exc(TypeError, ("isinstance",)))
    import numpy as np
    if isinstance(v, SObj):
        return v.model.isinstance(it, v, c)
    ty = {MList: list, MSet: set, SStr: str, Text: str, SBool: bool, Closure: types.FunctionType, Bound: types.MethodType}
    if isinstance(v, MDict):
        return issubclass(v.cls, c)
    if isinstance(v, SNum):
        if c in (int,):
            return v.is_int
        if c in (float, np.floating):
            return not v.is_int
        return issubclass(int if v.is_int else float, c)
    if isinstance(v, Inst):
        return issubclass(v.cls, c)
    if isinstance(v, Exc):
        return issubclass(v.cls, c)
    if isinstance(v, SArr):
        return issubclass(np.ndarray, c)
    if isinstance(v, (SSeq, )):
        return issubclass(list, c)
    for k, t in ty.items():
        if isinstance(v, k):
            return issubclass(t, c)
    if isinstance(v, (Val, Cell)):
        raise Unsupported("isinstance of %r" % (v,))
    return isinstance(v, c)


def m_isinstance(it, v, c):
    if isinstance(c, MList):
        raise PyRaise(Exc(TypeError, ()))
    return it.mkbool(isinstance_z(it, v, c))


def m_set(it, x=()):
    if isinstance(x, MSet):
        return s_copy(it, x)
    if isinstance(x, MDict):
        r = it.run.cell(MSet())
        p = it.set_pred(x)
        if x.content[0] is None and not any(u[0] in ("loop", "pred") for u in x.content[1]):
            return it.run.cell(MSet(it.conc_keys(x)))
        it.note_read(x, None)
        r.content = (SymBase(p), ())
        return r
    kind, s = it.iterate(x)
    if kind == "c":
        return it.run.cell(MSet(s))
    r = it.run.cell(MSet())
    probe = s.elem(z3.Int("set!probe"))
    if not isinstance(probe, (SStr, str)):
        raise Unsupported("set of %r" % (probe,))
    if s.index is not None:
        r.content = (SymBase(lambda k: zand(s.index(SStr(k)) >= 0, s.index(SStr(k)) < smt.num(s.n), it.run.name(s.elem(s.index(SStr(k)))) == k)), ())
    else:
        i = z3.Int(it.run.env.name("sj"))
        lw = LoopWrites(i, s.n, [Entry(TRUE, "set", SStr(it.run.name(s.elem(i))), True)], it.run)
        r.content = (None, (("loop", lw),))
    return r


def m_list(it, x=()):
    x = it.resolve(x)
    kind, s = it.iterate(x)
    if kind == "c":
        return it.run.cell(MList(s))
    return it.run.cell(MList.of_seq(s))


def m_tuple(it, x=()):
    x = it.resolve(x)
    kind, s = it.iterate(x)
    if kind == "c":
        return tuple(s)
    return s


def m_dict(it, x=None, **kw):
    d = it.run.cell(MDict())
    if isinstance(x, (MDict,)):
        d.content = x.content
    elif isinstance(x, dict) or type(x).__name__ == "immutabledict":
        it.dict_update(d, x)
    elif x is not None:
        kind, s = it.iterate(x)
        if kind == "c":
            for kv in s:
                k, v = it.unpack(kv, [None, None])
                it.dict_set(d, k, v)
        else:
            i = z3.Int(it.run.env.name("dj"))
            kv = s.elem(i)
            if not (isinstance(kv, tuple) and len(kv) == 2):
                raise Unsupported("dict from a sequence of %r" % (kv,))
            k = SStr(it.run.name(kv[0]))
            d.content = (None, (("loop", LoopWrites(i, s.n, [Entry(TRUE, "set", k, kv[1])], it.run)),))
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


_lt = z3.Function("name_lt", Name, Name, z3.BoolSort())


def m_sorted(it, x, key=None, reverse=False):
    if key is not None or reverse is not False:
        kind, s = it.iterate(x)
        if kind == "c" and isinstance(reverse, bool):
            ks = [it.call(key, [v], {}) for v in s] if key is not None else list(s)
            if all(isinstance(q, (int, float, str)) for q in ks):
                order = it.py(lambda: sorted(range(len(s)), key=lambda q: ks[q], reverse=reverse))
                return it.run.cell(MList([s[q] for q in order]))
        raise Unsupported("sorted with key/reverse")
    kind, s = it.iterate(x)
    if kind == "c":
        if not any(is_sym(v) for v in s):
            return it.run.cell(MList(it.py(lambda: sorted(s))))
        # insertion sort, forking on the order of the names
        out = []
        for v in s:
            j = 0
            while j < len(out) and it.run.truth(name_lt(it, out[j], v)):
                j += 1
            out.insert(j, v)
        return it.run.cell(MList(out))
    run = it.run
    cache = run.__dict__.setdefault("sortcache", {})
    if id(s) in cache:
        return run.cell(MList.of_seq(cache[id(s)][1]))
    if isinstance(s.elem(z3.Int("sort!probe")), (SStr, str)) and s.index is not None:
        dom = lambda k: zand(s.index(SStr(k)) >= 0, s.index(SStr(k)) < smt.num(s.n), run.name(s.elem(s.index(SStr(k)))) == k)
        r = it.make_seq(dom, "sorted")
        i, j = z3.Int(run.env.name("i")), z3.Int(run.env.name("j"))
        run.fact(r.n == smt.num(s.n))
        run.fact(z3.ForAll([i, j], z3.Implies(zand(i >= 0, i < j, j < r.n), name_lt(it, r.elem(i), r.elem(j)))))
        r.is_sorted = True
        if not run.idx:
            cache[id(s)] = (s, r)
        return it.run.cell(MList.of_seq(r))
    raise Unsupported("sorted of a symbolic sequence")


def name_lt(it, a, b):
    """a < b as an uninterpreted strict order (facts: irreflexive, total on the pair)"""
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a < b)
    x, y = it.run.name(a), it.run.name(b)
    it.run.facts.append(zand(znot(_lt(x, x)), z3.Implies(x != y, _lt(x, y) != _lt(y, x))) if not it.run.idx else TRUE)
    return _lt(x, y)


def m_zip(it, *xs, strict=False):
    its = [it.iterate(x) for x in xs]
    if all(k == "c" for k, _ in its):
        return it.run.cell(MList(list(zip(*[s for _, s in its]))))
    ss = []
    for k, s in its:
        ss.append(it.as_seq(it.run.cell(MList(s))) if k == "c" else s)
    n = smt.num(ss[0].n)
    for s in ss[1:]:
        m = smt.num(s.n)
        if not smt._same(n, m):
            if it.run.entails(n == m):
                continue
            n = z3.If(n <= m, n, m)
    return SSeq(z3.simplify(n), lambda j: tuple(s.elem(j) for s in ss))


def m_enumerate(it, x, start=0):
    kind, s = it.iterate(x)
    if kind == "c":
        return it.run.cell(MList([(start + j, v) for j, v in enumerate(s)]))
    return SSeq(s.n, lambda j: (SNum(smt.num(j) + smt.num(start)), s.elem(j)))


def m_range(it, *a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        z = anum(a[0]).z
        return SSeq(z3.If(z >= 0, z, z3.IntVal(0)), lambda j: SNum(smt.num(j)))
    if len(a) == 2:
        lo, hi = anum(a[0]).z, anum(a[1]).z
        return SSeq(z3.If(hi >= lo, hi - lo, z3.IntVal(0)), lambda j: SNum(lo + smt.num(j)))
    raise Unsupported("range with a step")


def m_any(it, x, **kw):
    if isinstance(x, (bool, SBool)):
        return x
    kind, s = it.iterate(x)
    if kind == "c":
        return it.mkbool(zor(*[it.zb(it.truthz(v)) for v in s]))
    return it.mkbool(it.run.exists(s.n, lambda j: it.zb(it.truthz(s.elem(smt.num(j)))), "any"))


def m_all(it, x, **kw):
    if isinstance(x, (bool, SBool)):
        return x
    kind, s = it.iterate(x)
    if kind == "c":
        return it.mkbool(zand(*[it.zb(it.truthz(v)) for v in s]))
    return it.mkbool(znot(it.run.exists(s.n, lambda j: znot(it.zb(it.truthz(s.elem(smt.num(j))))), "notall")))


POW10 = z3.Function("ten_to_the", z3.RealSort(), z3.RealSort())


def m_sum(it, x, start=0, **kw):
    if is_num(x):
        return x
    if isinstance(x, SObj) and hasattr(x.model, "sum"):
        return x.model.sum(it, x)
    if isinstance(x, SArr) and isinstance(getattr(x, "items", None), list):
        kind, s = "c", x.items
    else:
        kind, s = it.iterate(x)
    if kind == "c":
        v = start
        for y in s:
            v = it.binop(ast.Add(), v, y)
        return v
    i = z3.Int(it.run.env.name("si"))
    d = anum(s.elem(i))
    sm = Summary.__new__(Summary)
    sm.it, sm.run = it, it.run
    return sm.total(start, d, i, s.n)


def m_print(it, *a, **k):
    return None


def m_hasattr(it, o, name):
    if isinstance(o, SObj):
        if hasattr(o.model, "hasattr"):
            return it.mkbool(o.model.hasattr(it, o, name))
        return it.getattr(o, name, None) is not None
    return it.getattr(o, name, _ABSENT) is not _ABSENT


_ABSENT = object()


def m_getattr(it, o, name, *d):
    if isinstance(name, SStr):
        if isinstance(o, SObj):
            return o.model.getattr(it, o, name)
        ov = it.run.contracts.get(("getattr", getattr(o, "__name__", None)))
        if ov is not None:
            return ov(it, name)
        raise Unsupported("getattr with a symbolic name")
    ov = it.run.contracts.get(("getattr", getattr(o, "__name__", None))) if isinstance(o, types.ModuleType) else None
    if ov is not None:
        return ov(it, name)
    return it.getattr(o, name, *(d or (_MISSING,)))


def m_delattr(it, o, name):
    if not isinstance(o, Inst) or not isinstance(name, str) or it.run.idx:
        raise Unsupported("delattr of %r" % (o,))
    if name not in o.content:
        raise PyRaise(Exc(AttributeError, (name,)))
    o.content = {k: v for k, v in o.content.items() if k != name}


def m_setattr(it, o, name, v):
    it.setattr(o, name, v)


def m_type(it, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, MDict):
        return v.cls
    for k, t in ((MList, list), (MSet, set), (SStr, str), (SBool, bool)):
        if isinstance(v, k):
            return t
    if isinstance(v, Val):
        return Text()
    return type(v)


def m_len(it, v):
    return it.length(it.resolve(v))


def m_str(it, v=""):
    if isinstance(v, (str, SStr)):
        return v
    return str(v) if not it.deep_sym(v) else Text()


def m_float(it, v=0.0):
    if isinstance(v, SNum):
        return SNum(zreal(v.z), v.nan, v.pinf, v.ninf)
    if isinstance(v, SBool):
        return SNum(zreal(anum(v).z))
    if is_sym(v):
        if isinstance(v, SObj) and hasattr(v.model, "float"):
            return v.model.float(it, v)
        raise Unsupported("float of %r" % (v,))
    return it.py(lambda: float(v))


def m_int(it, v=0):
    if isinstance(v, SNum) and v.is_int:
        return v
    if is_sym(v):
        raise Unsupported("int of %r" % (v,))
    return it.py(lambda: int(v))


def m_bool(it, v=False):
    return it.mkbool(it.truthz(v))


def m_deepcopy(it, v, memo=None):
    if isinstance(v, (MList, MSet)):
        r = it.run.cell(type(v)())
        if isinstance(v, MList):
            r.content = tuple((k, tuple(m_deepcopy(it, x) for x in p)) if k == "c" else (k, p) for k, p in v.content)
        else:
            r.content = v.content
        return r
    if isinstance(v, MDict):
        it.note_read(v, None)
        r = it.run.cell(MDict(cls=v.cls))
        r.content = (v.content[0], tuple((u[0], u[1], m_deepcopy(it, u[2])) if u[0] == "set" else u for u in v.content[1]))
        return r
    if isinstance(v, tuple):
        return tuple(m_deepcopy(it, x) for x in v)
    if isinstance(v, Inst):
        r = it.run.cell(Inst(v.cls))
        r.content = {k: m_deepcopy(it, x) for k, x in v.content.items()}
        return r
    if isinstance(v, SObj) and hasattr(v.model, "deepcopy"):
        return v.model.deepcopy(it, v)
    if is_sym(v):
        return v
    import copy
    return copy.deepcopy(v)


def m_copy(it, v):
    if isinstance(v, MList):
        return l_copy(it, v)
    if isinstance(v, MDict):
        return d_copy(it, v)
    if isinstance(v, MSet):
        return s_copy(it, v)
    if is_sym(v):
        return v
    import copy
    return copy.copy(v)


def m_issubclass(it, a, b):
    if isinstance(a, SObj):
        return it.mkbool(a.model.issubclass(it, a, b))
    return issubclass(a, b)


def m_minmax(which):
    def f(it, *a, **kw):
        if len(a) == 1 and isinstance(a[0], SArr):
            return m_extremum(which)(it, a[0])
        if len(a) == 1:
            kind, a = it.iterate(a[0])
            if kind != "c":
                raise Unsupported(which + " of a symbolic sequence")
        v = a[0]
        for x in a[1:]:
            c = it.compare1(ast.Lt() if which == "min" else ast.Gt(), x, v)
            v = it.merge2(it.zb(it.truthz(c)), x, v)
        return v
    return f


def m_extremum(which):
    def f(it, x, **kw):
        if isinstance(x, SObj):
            return x.model.extremum(it, x, which)
        if isinstance(x, SArr):
            run = it.run
            t = run.fresh(which + "_at", z3.IntSort())
            n = smt.num(x.n)
            j = z3.Int(run.env.name("j"))
            if not run.truth(n > 0):
                raise PyRaise(Exc(ValueError, ("zero-size array",)))
            run.fact(z3.Implies(n > 0, zand(t >= 0, t < n)))
            v, w = anum(x.elem(t)), anum(x.elem(j))
            if not (v.plain and w.plain):
                raise Unsupported("extremum of numbers that may be infinite")
            c = w.z >= v.z if which == "min" else w.z <= v.z
            run.nocap(c, j)
            if z3.is_const(t):
                run.skolem[t.decl().name()] = [c, n]
            run.fact(z3.ForAll([j], z3.Implies(zand(j >= 0, j < n), c)))
            return v
        return m_minmax(which)(it, x)
    return f


def elementwise(f):
    def g(it, x, *a, **k):
        if isinstance(x, SArr) or any(isinstance(y, SArr) for y in a):
            return it.arr_map(lambda *v: f(it, *v), x, *a)
        return f(it, x, *a)
    return g


def n_isnan(it, v):
    return it.mkbool(anum(v).nan)


def n_isinf(it, v):
    v = anum(v)
    return it.mkbool(zor(v.pinf, v.ninf))


def n_isneginf(it, v):
    return it.mkbool(anum(v).ninf)


def n_isposinf(it, v):
    return it.mkbool(anum(v).pinf)


def n_isfinite(it, v):
    return it.mkbool(anum(v).finite)


mlog = z3.Function("math_log", z3.RealSort(), z3.RealSort())


def n_log(it, v):
    v = anum(v)
    x = zreal(v.z)
    if v.plain and it.run.entails(x > 0):
        return SNum(mlog(x))
    return SNum(mlog(x), zor(v.nan, v.ninf, zand(v.finite, x < 0)), v.pinf, zand(v.finite, x == 0))


def mathfn(name):
    f = z3.Function("math_" + name, z3.RealSort(), z3.RealSort())

    def g(it, v):
        v = anum(v)
        if not v.plain:
            return SNum(f(zreal(v.z)), v.nan, FALSE, FALSE) if name == "?" else it._nope(name + " of a non-finite number")
        return SNum(f(zreal(v.z)))
    return g


SQRT = z3.Function("math_sqrt", z3.RealSort(), z3.RealSort())


def n_sqrt(it, v):
    v = anum(v)
    x = z3.simplify(zreal(v.z))
    if z3.is_rational_value(x) and v.plain:
        q = x.as_fraction()
        if q < 0:
            return SNum(z3.RealVal(0), TRUE)
        # the root of a constant lies between two neighbouring decimals
        m = 10 ** 30
        lo = math.isqrt(q.numerator * m * m // q.denominator)
        it.run.fact(zand(SQRT(x) >= z3.Q(lo, m), SQRT(x) <= z3.Q(lo + 1, m)))
        return SNum(SQRT(x))
    if not v.plain:
        return it._nope("sqrt of a non-finite number")
    return SNum(SQRT(x), FALSE if it.run.entails(x >= 0) else x < 0)


def n_clip(it, x, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    v = anum(x)
    r = v
    if lo is not None:
        l = anum(lo)
        r = it.merge2(ncmp("<", r, l), l, r)
    if hi is not None:
        h = anum(hi)
        r = it.merge2(ncmp(">", r, h), h, r)
    return r


def n_array(it, x, dtype=None, **k):
    x = it.resolve(x)
    if isinstance(x, MList):
        c = x.concrete()
        if c is not None:
            if not any(it.deep_sym(v) for v in c):
                import numpy as np
                return np.array([it.to_native(v) for v in c])
            if all(is_num(v) or isinstance(v, SBool) for v in c):
                r = SArr(z3.IntVal(len(c)), lambda j: it.pick(c, j))
                r.items = c
                return r
            return x
        s = it.as_seq(x)
        if isinstance(s.elem(z3.Int("arr!probe")), (SNum, SBool)):
            r = SArr(s.n, s.elem)
            return r
        return x
    if isinstance(x, SSeq):
        return SArr(x.n, x.elem)
    return x


def n_mean(it, x, **k):
    x = n_array(it, x)
    if isinstance(x, SArr):
        return it.binop(ast.Div(), m_sum(it, x), SNum(smt.num(x.n)))
    raise Unsupported("mean of %r" % (x,))


def n_zeros_like(it, x, **k):
    if isinstance(x, SArr):
        return SArr(x.n, lambda j: SNum(z3.RealVal(0)))
    raise Unsupported("zeros_like of %r" % (x,))


def n_const(c):
    def f(it, n, **k):
        if isinstance(n, tuple):
            n = n[0]
        if isinstance(n, SNum):
            b = k.get("dtype") is bool
            return SArr(n.z, lambda j: SBool(z3.BoolVal(bool(c))) if b else SNum(z3.RealVal(c)))
        import numpy as np
        return np.full(n, c, dtype=k.get("dtype", float))
    return f


def n_where(it, c, a, b):
    f = lambda it_, x, y, w: it.merge2(it.zb(it.truthz(x)), y, w)
    if any(isinstance(v, SArr) for v in (c, a, b)):
        return it.arr_map(lambda x, y, w: f(it, x, y, w), c, a, b)
    return f(it, c, a, b)


def m_partial(it, f, *a, **k):
    return Contract(lambda it2, a2, k2: it2.call(f, list(a) + a2, {**k, **k2}), "partial")


def m_reversed(it, x):
    return it.list_getitem(m_list(it, x), slice(None, None, -1))


def m_map(it, f, x):
    kind, s = it.iterate(x)
    if kind == "c":
        return it.run.cell(MList([it.call(f, [v]) for v in s]))
    raise Unsupported("map over a symbolic sequence")


def m_filter(it, f, x):
    kind, s = it.iterate(x)
    if kind == "c":
        return it.run.cell(MList([v for v in s if it.truth(it.call(f, [v]) if f is not None else v)]))
    raise Unsupported("filter over a symbolic sequence")


def m_callable(it, x):
    return isinstance(x, (Closure, Bound, Contract)) or (not is_sym(x) and callable(x))


def m_abs(it, v):
    if isinstance(v, SNum):
        return SNum(z3.If(v.z >= 0, v.z, -v.z), v.nan, zor(v.pinf, v.ninf), FALSE)
    if isinstance(v, SArr):
        return it.arr_map(lambda x: m_abs(it, x), v)
    return abs(v)


def m_bind(it, sig, *a, **k):
    try:
        b = inspect.Signature.bind(sig, *a, **k)
    except TypeError as e:
        raise PyRaise(Exc(TypeError, e.args))
    it.run.okdicts.append(b.arguments)
    return b


def _identity(it, x, *a, **k):
    return x


MODELS = {}
PURE_MODULES = {"inspect", "posixpath", "os.path", "numpy", "math", "genericpath", "builtins", "typing", "immutabledict", "functools", "operator", "itertools"}
PURE = set()


def install():
    import copy
    import functools
    import warnings
    import numpy as np
    MODELS.update({
        isinstance: m_isinstance, len: m_len, set: m_set, frozenset: m_set, list: m_list, tuple: m_tuple, dict: m_dict, sorted: m_sorted,
        zip: m_zip, enumerate: m_enumerate, range: m_range, any: m_any, all: m_all, sum: m_sum, print: m_print, hasattr: m_hasattr,
        getattr: m_getattr, setattr: m_setattr, delattr: m_delattr, type: m_type, str: m_str, float: m_float, int: m_int, bool: m_bool, issubclass: m_issubclass,
        min: m_minmax("min"), max: m_minmax("max"), reversed: m_reversed, map: m_map, filter: m_filter, callable: m_callable, abs: m_abs,
        repr: lambda it, v: Text() if it.deep_sym(v) else repr(v), iter: _identity, id: lambda it, v: id(v),
        copy.deepcopy: m_deepcopy, copy.copy: m_copy, warnings.warn: m_print, functools.partial: m_partial,
        functools.wraps: lambda it, f, **k: Contract(lambda it2, a, kk: a[0], "wraps"),
        inspect.Signature.bind: m_bind, inspect.BoundArguments.apply_defaults: lambda it, b: (b.apply_defaults(), it.run.okdicts.append(b.arguments))[0],
        inspect.getfullargspec: lambda it, f: inspect.getfullargspec(f.fn if isinstance(f, Bound) else f),
    })
    for mod in ("numpy", "jax.numpy"):
        import importlib
        np_ = importlib.import_module(mod)
        tab = dict(isnan=elementwise(n_isnan), isinf=elementwise(n_isinf), isneginf=elementwise(n_isneginf), isposinf=elementwise(n_isposinf), isfinite=elementwise(n_isfinite), log=elementwise(n_log),
                   clip=elementwise(n_clip), any=m_any, all=m_all, sum=m_sum, array=n_array, asarray=n_array, mean=n_mean, zeros_like=n_zeros_like,
                   ones=n_const(1), zeros=n_const(0), where=n_where, min=m_extremum("min"), max=m_extremum("max"), amin=m_extremum("min"), amax=m_extremum("max"),
                   exp=elementwise(mathfn("exp")), sqrt=elementwise(n_sqrt), log10=elementwise(mathfn("log10")), abs=m_abs, float64=_identity, float32=_identity,
                   append=None, multiply=lambda it, a, b: it.binop(ast.Mult(), a, b), add=lambda it, a, b: it.binop(ast.Add(), a, b),
                   logical_or=elementwise(lambda it, a, b: it.mkbool(zor(it.zb(it.truthz(a)), it.zb(it.truthz(b))))),
                   logical_and=elementwise(lambda it, a, b: it.mkbool(zand(it.zb(it.truthz(a)), it.zb(it.truthz(b))))),
                   logical_not=elementwise(lambda it, a: it.mkbool(znot(it.zb(it.truthz(a))))),
                   ones_like=lambda it, x, **k: SArr(x.n, lambda j: SNum(z3.RealVal(1))))
        for k, f in tab.items():
            o = getattr(np_, k, None)
            if f is not None and o is not None:
                if isinstance(o, type) and o in (bool, int, float):
                    continue
                try:
                    MODELS[o] = f
                except TypeError:
                    pass


install()
