"""Back end: obligations, solver portfolio (z3, then cvc5, then z3 with other settings), statistics.

An obligation is  facts /\\ hyps => goal.  It is *discharged* when a solver reports that
facts /\\ hyps /\\ not goal is unsatisfiable, *refuted* when a solver reports a model, and *open*
otherwise.  Finite sums over an unbounded index set are uninterpreted constants which carry their
summand; the only facts about them are obtained by the extensionality / sign lemmas below, whose
premises are themselves discharged by the solver.
"""
import os
import sys
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

try:
    import cvc5  # noqa: E402
    HAVE_CVC5 = True
except Exception:  # pragma: no cover
    HAVE_CVC5 = False

Z3_TIMEOUT = int(os.environ.get("VC_Z3_TIMEOUT_MS", "8000"))
CVC5_TIMEOUT = int(os.environ.get("VC_CVC5_TIMEOUT_MS", "8000"))


def num(x):
    """python number -> z3 numeral (exact)"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
    return x


def consts_of(exprs):
    """uninterpreted constants (arity 0) occurring in the expressions"""
    seen, out, stack = set(), {}, list(exprs)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.decl().name()] = e
            stack.extend(e.children())
    return out


def abstracted(exprs, sums):
    """names of symbols whose meaning is only partly axiomatised"""
    seen, out, stack = set(), set(), list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n in sums:
                    out.add("sum")
                elif n.startswith("math_"):
                    out.add(n[5:])
            stack.extend(e.children())
    return out


class Outcome:
    def __init__(self, name, status, backend, seconds, model=None, reason=None, kind="proof", goal=None):
        self.name, self.status, self.backend = name, status, backend
        self.seconds, self.model, self.reason, self.kind = seconds, model, reason, kind
        self.goal = goal

    def as_dict(self):
        d = dict(name=self.name, status=self.status, backend=self.backend,
                 seconds=round(self.seconds, 4), kind=self.kind)
        if self.reason:
            d["reason"] = self.reason
        if self.model:
            d["model"] = self.model
        return d


def _model_dict(m, limit=60):
    out = {}
    try:
        for d in m.decls()[:limit]:
            v = m[d]
            out[d.name()] = str(v)[:200]
    except Exception as e:  # pragma: no cover
        out["_error"] = str(e)
    return out


def solve_z3(assertions, timeout, tactic=None, seed=0, mbqi=True):
    t = time.time()
    if tactic == "nlsat*":
        s = z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "tseitin-cnf", "nlsat").solver()
    elif tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set("timeout", timeout)
    if not mbqi:
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
    if not tactic:
        s.set("random_seed", seed)
    s.add(*assertions)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", None, str(e), time.time() - t
    if r == z3.unsat:
        return "unsat", None, None, time.time() - t
    if r == z3.sat:
        return "sat", s.model(), None, time.time() - t
    return "unknown", None, s.reason_unknown(), time.time() - t


def solve_cvc5(assertions, timeout):
    t = time.time()
    if not HAVE_CVC5:
        return "unknown", None, "cvc5 not available", 0.0
    s = z3.Solver()
    s.add(*assertions)
    txt = s.sexpr() + "\n(check-sat)\n"
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout))
        slv.setOption("produce-models", "false")
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res = c.invoke(slv, sm)
        res = (res or "").strip()
    except Exception as e:
        return "unknown", None, "cvc5: " + str(e)[:200], time.time() - t
    if res == "unsat":
        return "unsat", None, None, time.time() - t
    if res == "sat":
        return "sat", None, None, time.time() - t
    return "unknown", None, "cvc5 " + str(res)[:80], time.time() - t


class SumNode:
    """sum_{0 <= i < n} body(i): an opaque constant with its summand"""

    def __init__(self, env, const, n, body, sort):
        self.env, self.const, self.n, self.body, self.sort = env, const, n, body, sort


class Env:
    """One verification context: symbol supply, facts (axiom instances), sums, obligations."""

    def __init__(self, label=""):
        self.label = label
        self.counter = 0
        self.facts = []            # universally valid facts about introduced symbols
        self.sums = {}             # const name -> SumNode
        self.outcomes = []
        self.trusted = set()       # dependency contracts used
        self.pre = []              # preconditions (requires) of the function under verification
        self.witness = []          # interpretations tried by the reachability check
        self.open_pre = []         # obligations: preconditions of callees, to be discharged
        self.keylog = []           # ghost log of consumed random keys
        self.enums = {}            # elem function name -> (decl, domain predicate, length): a bijection [0, n) <-> domain
        self.timeout = Z3_TIMEOUT
        self.functions = set()
        self.cross = os.environ.get("VERIF_TIER") == "thorough"

    # ---- symbols
    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def int(self, base="i"):
        return z3.Int(self.name(base))

    def real(self, base="r"):
        return z3.Real(self.name(base))

    def bool(self, base="b"):
        return z3.Bool(self.name(base))

    def func(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    def fact(self, f):
        if f is True:
            return
        self.facts.append(f)

    def require(self, f):
        self.pre.append(f)

    def require_increasing(self, f, n, strict=True, rows=()):
        """requires: f(rows..., 0..n-1) is increasing (rows: extents of the leading indices)"""
        r = [z3.Int(self.name("pr")) for _ in rows]
        i, j = z3.Int(self.name("pi")), z3.Int(self.name("pj"))
        rng = z3.And(i >= 0, i < j, j < n, *[z3.And(a >= 0, a < num(d)) for a, d in zip(r, rows)])
        a, b = f(*r, i), f(*r, j)
        self.witness.append((f, z3.ToReal(z3.Var(len(rows), z3.IntSort()))))
        self.pre.append(z3.ForAll(r + [i, j], z3.Implies(rng, a < b if strict else a <= b),
                                  patterns=[z3.MultiPattern(a, b)]))

    # ---- sums
    def sum(self, n, body, sort="real"):
        c = (z3.Real if sort == "real" else z3.Int)(self.name("sum"))
        self.sums[c.decl().name()] = SumNode(self, c, n, body, sort)
        return c

    def sum_invariant(self, name, inv, hyps=(), exprs=None):
        """induction over sums: inv(0, 0) and inv(k, s) => inv(k+1, s + body(k)) are obligations;
        once discharged, inv(n, sum) is a fact"""
        names = sorted(self.sums if exprs is None else [c for c in consts_of(exprs) if c in self.sums])
        for nm in names:
            A = self.sums[nm]
            k = self.int("k")
            s = self.real("acc") if A.sort == "real" else self.int("acc")
            zero = z3.RealVal(0) if A.sort == "real" else z3.IntVal(0)
            o1 = self.prove(name + ": base", inv(z3.IntVal(0), zero), hyps, kind="loop-init")
            b = num(A.body(k))
            if A.sort == "real" and z3.is_int(b):
                b = z3.ToReal(b)
            o2 = self.prove(name + ": step", inv(k + 1, s + b), list(hyps) + [k >= 0, k < num(A.n), inv(k, s)], kind="loop-step")
            if o1.status == o2.status == "proved":
                h = z3.And(*hyps) if hyps else z3.BoolVal(True)
                self.fact(z3.Implies(z3.And(h, num(A.n) >= 0), inv(num(A.n), A.const)))

    # ---- proving
    def _raw(self, hyps, goal, timeout=None):
        base = list(self.pre) + list(self.facts) + list(hyps) + [z3.Not(goal)]
        if _is_nonlinear([goal]) and _has_ite(goal) and not _has_quant(goal):
            st = solve_z3([a for a in base if not _has_quant(a)], 1500)
            if st[0] == "unsat":
                return "proved", "z3", st[3], None, None
            from . import alg
            s, m, why, n, dt = alg.prove(self, list(hyps), goal)
            if s == "proved":
                return "proved", "case-split+ring+z3", st[3] + dt, None, None
            if s == "refuted":
                return s, "case-split+z3", st[3] + dt, m, why
            r = self._raw_noalg(hyps, goal, timeout)
            return r[0], r[1], r[2] + st[3] + dt, r[3], "%s; %s" % (why, r[4])
        return self._raw_noalg(hyps, goal, timeout)

    def _raw_noalg(self, hyps, goal, timeout=None):
        timeout = timeout or self.timeout
        base = list(self.pre) + list(self.facts) + list(hyps) + [z3.Not(goal)]
        t0 = time.time()
        total = 0.0
        if any(_has_quant(a) for a in base):
            # E-matching only: fast, can only answer unsat
            st, m, why, dt = solve_z3(base, 2000, mbqi=False)
            total += dt
            if st == "unsat":
                return "proved", "z3", total, None, None
        st, m, why, dt = solve_z3(base, min(timeout, 3000))
        total += dt
        if st == "unsat":
            return "proved", "z3", total, None, None
        if st == "sat":
            return "refuted", "z3", total, m, None
        reasons = ["z3: %s" % why]
        # nonlinear real arithmetic without quantifiers
        noq = [a for a in base if not _has_quant(a)]
        if _is_nonlinear(noq):
            pure, exact = purify(noq)
            st, m, why, dt = solve_z3(pure, timeout, tactic="nlsat*")
            total += dt
            if st == "unsat":
                return "proved", "z3-nlsat", total, None, None
            if st == "sat" and exact and len(noq) == len(base):
                return "refuted", "z3-nlsat", total, m, None
            reasons.append("nlsat: %s" % (why or st))
        st, m, why, dt = solve_cvc5(base, min(timeout, CVC5_TIMEOUT))
        total += dt
        if st == "unsat":
            return "proved", "cvc5", total, None, None
        if st == "sat":
            return "refuted", "cvc5", total, None, None
        reasons.append(str(why))
        st, m, why, dt = solve_z3(base, timeout, seed=7)
        total += dt
        if st == "unsat":
            return "proved", "z3", total, None, None
        if st == "sat":
            return "refuted", "z3", total, m, None
        reasons.append("z3': %s" % why)
        return "open", "none", total, None, "; ".join(reasons)

    def _ext_lemmas(self, hyps, goal, depth=0):
        """extensionality: equal summands over the same range give equal sums (premise discharged)"""
        if depth > 3:
            return [], 0.0
        cs = consts_of(list(hyps) + [goal])
        nodes = [self.sums[n] for n in sorted(cs) if n in self.sums]
        lem, rep, secs = [], {}, 0.0
        for a in range(len(nodes)):
            for b in range(a + 1, len(nodes)):
                A, B = nodes[a], nodes[b]
                if A.sort != B.sort or (a in rep and b in rep):
                    continue
                st = ("open", None, 0.0)
                if _same(A.n, B.n):
                    i = self.int("k")
                    rng = z3.And(i >= 0, i < num(A.n))
                    st = self._prove_with_lemmas(list(hyps) + [rng], num(A.body(i)) == num(B.body(i)), depth + 1)
                    secs += st[2]
                if st[0] != "proved" and self.enums:
                    # both sums range over a set (through a duplicate-free enumeration): compare them as
                    # sums over all names of the summand inside and zero outside of the set
                    x, y = self._as_setsum(A), self._as_setsum(B)
                    if x and y:
                        k = z3.Const(self.name("nm"), x[0])
                        zero = z3.RealVal(0) if A.sort == "real" else z3.IntVal(0)
                        st = self._prove_with_lemmas(list(hyps), z3.If(x[1](k), x[2](k), zero) == z3.If(y[1](k), y[2](k), zero), depth + 1)
                        secs += st[2]
                if st[0] == "proved":
                    lem.append(A.const == B.const)
                    rep[b] = a
        return lem, secs

    def _as_setsum(self, A):
        """(sort, domain, summand as a function of the element) of a sum over an enumerated set"""
        i = self.int("k")
        b = num(A.body(i))
        for nm, (decl, dom, n) in self.enums.items():
            if not _same(A.n, n):
                continue
            k = z3.Const(self.name("nm"), decl.range())
            g = z3.substitute(b, (decl(i), k))
            if i.decl().name() not in consts_of([g]):
                return decl.range(), dom, (lambda x, g=g, k=k: z3.substitute(g, (k, x)))
        return None

    def _sign_lemmas(self, hyps, goal, depth=0):
        """a sum of non-negative terms is non-negative (premise discharged)"""
        cs = consts_of(list(hyps) + [goal])
        lem, secs = [], 0.0
        for A in [self.sums[n] for n in sorted(cs) if n in self.sums]:
            i = self.int("k")
            rng = z3.And(i >= 0, i < num(A.n))
            st = self._prove_with_lemmas(list(hyps) + [rng], num(A.body(i)) >= 0, depth + 1)
            secs += st[2]
            if st[0] == "proved":
                lem.append(A.const >= 0)
        return lem, secs

    def _prove_with_lemmas(self, hyps, goal, depth=0):
        tmo = 4000 if depth else None
        ns = sum(1 for c in consts_of(list(hyps) + [goal]) if c in self.sums)
        st, secs, lem = None, 0.0, []
        if ns < 2:
            st = self._raw(hyps, goal, timeout=tmo)
            if st[0] == "proved" or not ns or depth > 1:
                return st
            secs += st[2]
        else:
            lem, dt = self._ext_lemmas(hyps, goal, depth)
            secs += dt
            st = self._raw(list(hyps) + lem, goal, timeout=tmo)
            secs += st[2]
            if st[0] == "proved" or depth > 1:
                return (st[0], st[1], secs, st[3], st[4])
        if depth == 0:
            l2, dt = self._sign_lemmas(hyps, goal, depth)
            secs += dt
            if l2:
                st = self._raw(list(hyps) + lem + l2, goal, timeout=tmo)
                secs += st[2]
        return (st[0], st[1], secs, st[3], st[4])

    def prove(self, name, goal, hyps=(), kind="post", timeout=None, record=True):
        """discharge one obligation and record it"""
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        old = self.timeout
        if timeout:
            self.timeout = timeout
        try:
            st = self._prove_with_lemmas(list(hyps), goal)
        finally:
            self.timeout = old
        status, backend, dt, model, why = st
        if status == "refuted":
            ab = sorted(abstracted(list(self.pre) + list(self.facts) + list(hyps) + [goal], self.sums))
            if ab:
                # the counter-model interprets abstracted functions freely: it may be spurious
                status, why = "open", "counter-model over abstracted " + ", ".join(ab[:6])
        o = Outcome(name, status, backend, dt, _model_dict(model) if model is not None else None, why, kind,
                    goal=str(goal)[:400])
        o.rawmodel = model
        if record:
            self.outcomes.append(o)
        return o

    def attempt(self, name, goal, hyps=(), kind="post", timeout=None):
        """a proof attempt that is recorded only if the caller says so (see record)"""
        return self.prove(name, goal, hyps, kind, timeout, record=False)

    def record(self, o):
        self.outcomes.append(o)
        return o

    def reachable(self, name, hyps=()):
        """vacuity guard: the preconditions (with the facts) must be satisfiable"""
        base = list(self.pre) + list(self.facts) + list(hyps)
        if self.witness:
            base = [z3.substitute_funs(b, *self.witness) for b in base]
        st, m, why, dt = solve_z3(base, 4000)
        status = {"sat": "proved", "unsat": "refuted"}.get(st, "cover-unknown")
        o = Outcome(name, status, "z3", dt, None, why, "cover")
        o.rawmodel = m
        self.outcomes.append(o)
        return o

    def fail(self, name, reason, kind="post"):
        """an obligation refuted without a solver (structural mismatch)"""
        o = Outcome(name, "refuted", "structural", 0.0, None, reason, kind)
        o.rawmodel = None
        self.outcomes.append(o)
        return o

    def ok(self, name, kind="post", backend="structural"):
        o = Outcome(name, "proved", backend, 0.0, None, None, kind)
        o.rawmodel = None
        self.outcomes.append(o)
        return o

    def check(self, name, cond, reason="", kind="post"):
        return self.ok(name, kind) if cond else self.fail(name, reason or "condition is false", kind)


def _same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = num(a), num(b)
    return z3.eq(z3.simplify(a), z3.simplify(b))


def _has_quant(e, _seen=None):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _has_ite(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        stack.extend(x.children())
    return False


def _is_nonlinear(es):
    seen, stack = set(), list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            if k == z3.Z3_OP_POWER:
                return True
        stack.extend(x.children())
    return False


def purify(es):
    """Replace applications of uninterpreted functions and integer-valued terms by fresh reals.

    Forgetting congruence and integrality only weakens the hypotheses, so unsat carries over."""
    cache, exact = {}, [True]
    fresh = {}

    def rep(e):
        key = e.sexpr()
        if key not in fresh:
            srt = z3.BoolSort() if e.sort() == z3.BoolSort() else z3.RealSort()
            fresh[key] = z3.Const("pf!%d" % len(fresh), srt)
            exact[0] = False
        return fresh[key]

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        r = None
        if z3.is_app(e):
            kind = e.decl().kind()
            if kind == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                r = rep(e)
            elif kind == z3.Z3_OP_TO_REAL:
                a = e.arg(0)
                r = e if z3.is_int_value(a) else goint(a)
            elif z3.is_int(e) and not z3.is_int_value(e):
                r = goint(e)
            elif kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.arg(0).sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                r = rep(e)
            elif kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(e.arg(0)):
                a, b = goint(e.arg(0)), goint(e.arg(1))
                r = {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GE: lambda: a >= b,
                     z3.Z3_OP_GT: lambda: a > b, z3.Z3_OP_EQ: lambda: a == b, z3.Z3_OP_DISTINCT: lambda: a != b}[kind]()
            else:
                ch = [go(c) for c in e.children()]
                r = e.decl()(*ch) if ch else e
                if kind == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif kind == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                elif kind == z3.Z3_OP_ADD:
                    r = z3.Sum(*ch)
                elif kind == z3.Z3_OP_MUL:
                    r = z3.Product(*ch)
                elif kind == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*ch)
        else:
            r = e
        cache[k] = r
        return r

    icache = {}

    def goint(e):
        """an integer term as a real term"""
        k = e.get_id()
        if k in icache:
            return icache[k]
        if z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
            r = z3.Sum(*[goint(c) for c in e.children()])
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SUB:
            ch = [goint(c) for c in e.children()]
            r = ch[0]
            for c in ch[1:]:
                r = r - c
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
            r = z3.Product(*[goint(c) for c in e.children()])
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
            r = -goint(e.arg(0))
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(go(e.arg(0)), goint(e.arg(1)), goint(e.arg(2)))
        else:
            r = rep(e)
        icache[k] = r
        return r

    return [go(e) for e in es], exact[0]
