"""Case splitting + rational-function normalisation for nonlinear equalities.

prove_eq(env, hyps, goal): splits the goal on the conditions of its if-then-else terms (a condition
entailed by the hypotheses is not split), and closes every leaf by a polynomial identity (cross
multiplication, all divisors shown non-zero by the solver) after merging atoms whose arguments the
solver shows equal, or else by the solver itself.  Every step is an equality the solver discharged or
a ring identity; a leaf that cannot be closed is reported, never assumed.
"""
import random
import time
from fractions import Fraction

import z3

K = z3


def _frac(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())


class Poly(dict):
    pass


def pconst(c):
    return Poly({(): Fraction(c)}) if c else Poly()


def padd(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b, cap=60000):
    r = {}
    if len(a) * len(b) > cap:
        raise TooBig()
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return Poly(r)


class TooBig(Exception):
    pass


def peq(a, b):
    return not padd(a, b, -1)


def pdeg(a):
    return max([sum(e for _, e in m) for m in a] or [0])


ONE = pconst(1)


PRIME = (1 << 61) - 1


class Alg:
    def __init__(self, env, hyps, deadline):
        self.env, self.deadline = env, deadline
        self.atoms = []            # index -> z3 term (canonical)
        self.atom_ix = {}
        self.nl = []               # (const, num, den, divisors)
        self.divisor_ok = {}
        self.pos_cache = {}
        self.obv = {}
        self.building = False
        self.fpc = {}
        self.models, self.sig, self.conds, self.scopes = None, {}, [], 0
        self.facts = list(env.pre) + list(env.facts) + list(hyps)
        self.canon_cache = {}
        self.lin = None
        self.queries = 0

    # ---- rational functions
    def atom(self, t):
        k = t.get_id()
        if k not in self.atom_ix:
            self.atom_ix[k] = len(self.atoms)
            self.atoms.append(t)
        return self.atom_ix[k]

    def rat(self, t, divs):
        """term -> (num, den); divisors met are appended to divs; atoms are canonical terms"""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return pconst(_frac(t)), ONE
        if z3.is_algebraic_value(t):
            return Poly({((self.atom(t), 1),): Fraction(1)}), ONE
        ch, _, k = kids(t)
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.rat(ch[0], divs)
            for c in ch[1:]:
                n2, d2 = self.rat(c, divs)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d is ONE and d2 is ONE:
                    n = padd(n, n2, s)
                elif peq(d, d2):
                    n = padd(n, n2, s)
                else:
                    n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(ch[0], divs)
            return padd(Poly(), n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in ch:
                n2, d2 = self.rat(c, divs)
                n = pmul(n, n2)
                d = d if d2 is ONE else pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(ch[0], divs)
            n2, d2 = self.rat(ch[1], divs)
            if not (len(n2) == 1 and () in n2):
                divs.append(ch[1])
            if not n2:
                raise TooBig()
            if len(n2) == 1 and () in n2 and d2 is ONE:
                return Poly({m: c / n2[()] for m, c in n.items()}), d
            return (n if d2 is ONE else pmul(n, d2)), (n2 if d is ONE else pmul(d, n2))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and _frac(ch[1]).denominator == 1 and 0 <= _frac(ch[1]) <= 6:
            n, d = self.rat(ch[0], divs)
            rn, rd = ONE, ONE
            for _ in range(int(_frac(ch[1]))):
                rn, rd = pmul(rn, n), (rd if d is ONE else pmul(rd, d))
            return rn, rd
        if k == z3.Z3_OP_TO_REAL:
            return self.rat(ch[0], divs)
        c = self.canon(t, top=True)
        return Poly({((self.atom(c), 1),): Fraction(1)}), ONE

    # ---- canonical terms: nonlinear subterms become constants shared by equal rational functions
    def canon(self, t, top=False):
        key = (t.get_id(), top)
        if key in self.canon_cache:
            return self.canon_cache[key][0]
        r = self._canon(t, top)
        self.canon_cache[key] = (r, t)
        return r

    def _canon(self, t, top):
        if z3.is_quantifier(t) or z3.is_var(t):
            return t
        k = t.decl().kind()
        arith = k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL)
        if arith and not top:
            divs = []
            try:
                terms = self.lin_terms(t, divs)
                ok = self.divisors_ok(divs)
            except TooBig:
                ok = False
            if not ok:
                return self.nlconst(t, None, None)
            out = Poly()
            for n, d in terms:
                for m, c in n.items():
                    mm, dd, c = self.cancel(m, d, c)
                    if dd is None:
                        if sum(e for _, e in mm) <= 1:
                            out = padd(out, Poly({mm: c}))
                            continue
                        dd = ONE
                    k2 = self.nlconst(t, Poly({mm: Fraction(1)}), dd)
                    out = padd(out, Poly({((self.atom(k2), 1),): c}))
            return self.build(out, t.sort())
        ch = [self.canon(c) for c in kids(t)[0]]
        if not ch:
            return t
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*ch)
        return t.decl()(*ch)

    def build(self, n, sort):
        isint = sort == z3.IntSort()
        terms = []
        for m, c in sorted(n.items()):
            if m == ():
                terms.append(z3.RealVal(str(c)) if not isint or c.denominator != 1 else z3.IntVal(int(c)))
            else:
                a = self.atoms[m[0][0]]
                if not isint and z3.is_int(a):
                    a = z3.ToReal(a)
                if c == 1:
                    terms.append(a)
                else:
                    terms.append((z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * a)
        if not terms:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def lin_terms(self, t, divs):
        """term -> list of (numerator, denominator) summands, one per denominator"""
        ch, _, k = kids(t)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            out = []
            for i, c in enumerate(ch):
                s = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and i) else 1
                for n, d in self.lin_terms(c, divs):
                    self._addterm(out, n, d, s)
            return out
        if k == z3.Z3_OP_MUL:
            cur = [(ONE, ONE)]
            for c in ch:
                nxt = []
                for n2, d2 in self.lin_terms(c, divs):
                    for n, d in cur:
                        self._addterm(nxt, pmul(n, n2), d if d2 is ONE else d2 if d is ONE else pmul(d, d2), 1)
                cur = nxt
            return cur
        if k == z3.Z3_OP_DIV:
            n2, d2 = self.rat(ch[1], divs)
            const = len(n2) == 1 and () in n2 and d2 is ONE
            if not const:
                divs.append(ch[1])
            if not n2:
                raise TooBig()
            out = []
            for n, d in self.lin_terms(ch[0], divs):
                if const:
                    self._addterm(out, Poly({m: c / n2[()] for m, c in n.items()}), d, 1)
                else:
                    self._addterm(out, n if d2 is ONE else pmul(n, d2), n2 if d is ONE else pmul(d, n2), 1)
            return out
        if k == z3.Z3_OP_TO_REAL:
            return self.lin_terms(ch[0], divs)
        return [self.rat(t, divs)]

    @staticmethod
    def _addterm(out, n, d, s):
        for i, (n0, d0) in enumerate(out):
            if d0 is d or peq(d0, d):
                out[i] = (padd(n0, n, s), d0)
                return
        out.append((n if s == 1 else padd(Poly(), n, -1), d))

    def cancel(self, m, d, c):
        """monomial over polynomial, common monomial factor and leading coefficient removed"""
        if d is ONE:
            return m, None, c
        common = None
        for x in d:
            dx = dict(x)
            common = dx if common is None else {a: min(e, dx.get(a, 0)) for a, e in common.items() if dx.get(a, 0)}
        dm = dict(m)
        common = {a: min(e, dm.get(a, 0)) for a, e in (common or {}).items() if dm.get(a, 0)}
        if common:
            def drop(x):
                y = dict(x)
                for a, e in common.items():
                    y[a] -= e
                return tuple(sorted((a, e) for a, e in y.items() if e))
            m = drop(m)
            d = Poly({drop(x): v for x, v in d.items()})
        lead = d[max(d)]
        if lead != 1:
            d = Poly({x: v / lead for x, v in d.items()})
            c = c / lead
        if len(d) == 1 and () in d:
            return m, None, c
        return m, d, c

    def nlconst(self, t, n, d):
        for c, n2, d2, t2 in self.nl:
            if n is None or n2 is None:
                if n is None and n2 is None and z3.eq(t, t2):
                    return c
            elif n == n2 and (d is d2 or peq(d, d2)):
                return c
        srt = t.sort() if n is None else (z3.IntSort() if t.sort() == z3.IntSort() else z3.RealSort())
        c = z3.Const("nl!%d!%s" % (len(self.nl), self.env.name("a")), srt)
        self.nl.append((c, n, d, t))
        return c

    def divisors_ok(self, divs):
        return all(self.nonzero(x) for x in divs)

    def nonzero(self, x):
        k = x.get_id()
        if k not in self.divisor_ok:
            self.divisor_ok[k] = (False, x)       # (guards against recursion)
            if self.positive(x):
                self.divisor_ok[k] = (True, x)
                return True
            noq = [f for f in self.facts if not has_quant(f)]
            from .smt import purify, solve_z3
            y = toreal(x)
            ok = False
            rel = relevant(noq, [y])
            for tac in (None, "nlsat*"):
                pure, _ = purify(rel + [y == 0])
                st = solve_z3(pure, 2500, tactic=tac)
                self.queries += 1
                if st[0] == "unsat":
                    ok = True
                    break
            self.divisor_ok[k] = (ok, x)
        return self.divisor_ok[k][0]

    def positive(self, t, depth=0):
        """syntactic sign analysis; atoms are decided in the linear context"""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return _frac(t) > 0
        ch, _, k = kids(t)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV) and depth < 12:
            return all(self.positive(c, depth + 1) for c in ch)
        if k == z3.Z3_OP_TO_REAL:
            return self.positive(ch[0], depth + 1)
        p = self.pos_cache.get(t.get_id())
        if p is None:
            p = (self.decide(t > 0) is True, t)
            if p[0] or not self.building:
                self.pos_cache[t.get_id()] = p
        return p[0]

    def nonneg(self, t, depth=0):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return _frac(t) >= 0
        ch, _, k = kids(t)
        if k == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].get_id() == ch[1].get_id():
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and depth < 12:
            return all(self.nonneg(c, depth + 1) for c in ch)
        if k == z3.Z3_OP_DIV:
            return self.nonneg(ch[0], depth + 1) and self.positive(ch[1])
        return self.positive(t) or self.decide(t >= 0) is True

    def obvious(self, c):
        """conditions of the form x != 0, x >= 0, x > 0 by sign analysis"""
        k = c.get_id()
        if k not in self.obv:
            self.obv[k] = (self._obvious(c), c)
        return self.obv[k][0]

    def _obvious(self, c):
        if z3.is_and(c):
            return all(self.obvious(x) for x in c.children())
        if z3.is_or(c):
            return any(self.obvious(x) for x in c.children())
        neg = False
        if z3.is_not(c):
            neg, c = True, c.arg(0)
        if z3.is_distinct(c) and c.num_args() == 2:
            neg, a, b = not neg, c.arg(0), c.arg(1)
        elif z3.is_eq(c) or z3.is_ge(c) or z3.is_gt(c):
            a, b = c.arg(0), c.arg(1)
        else:
            return False
        if not z3.is_arith(a) or not (z3.is_rational_value(b) or z3.is_int_value(b)) or _frac(b) != 0:
            return False
        if neg:
            return (z3.is_eq(c) or z3.is_distinct(c)) and self.positive(a)
        return self.positive(a) if z3.is_gt(c) else self.nonneg(a) if z3.is_ge(c) else False

    # ---- linear context
    def context(self):
        if self.lin is None:
            s = z3.Solver()
            s.set("timeout", 1500)
            self.lin, self.building = s, True
            # facts without divisions first: they decide the divisors of the others
            noq = [f for f in self.facts if not has_quant(f)]
            for f in sorted(noq, key=has_div):
                s.add(self.canon(f))
            self.building = False
        return self.lin

    def decide(self, c):
        """True / False / None for condition c under the current (linear) context"""
        s = self.context()
        cc = self.canon(c)
        self.queries += 1
        s.push()
        s.add(z3.Not(cc))
        r = s.check()
        s.pop()
        if r == z3.unsat:
            return True
        s.push()
        s.add(cc)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            return False
        return None

    def equal(self, a, b):
        if a.get_id() == b.get_id():
            return True
        if (z3.is_int_value(a) or z3.is_rational_value(a)) and (z3.is_int_value(b) or z3.is_rational_value(b)):
            return _frac(a) == _frac(b)
        return self.decide(a == b) is True

    # ---- simulation: values in a few models of the linear context (a filter for the sweep)
    def same_values(self, a, b):
        if self.models is None:
            self.models = self.sample_models()
            self.sig = {}
        return self.signature(a) == self.signature(b)

    def signature(self, t):
        k = t.get_id()
        if k not in self.sig:
            c = self.canon(t)
            self.sig[k] = (tuple(str(m.eval(c, model_completion=True)) for m in self.models), t)
        return self.sig[k][0]

    def sample_models(self, n=8):
        s, out, seen = self.context(), [], set()
        rnd = random.Random(len(self.conds))
        for j in range(n):
            s.push()
            pick = rnd.sample(self.conds, min(14, len(self.conds)))
            for c in pick:
                s.push()
                s.add(c if rnd.random() < 0.5 else z3.Not(c))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                out.append(s.model())
            while s.num_scopes() > self.scopes:
                s.pop()
        return out

    # ---- sweeping: subterms proved equal to an earlier subterm are replaced by it
    def sweep(self, goal, hyps=(), light=False):
        """light: case distinctions are merged only when one linear query settles it"""
        cache, reps = {}, []
        end = time.time() + max(1.0, (0.4 if light else 0.7) * (self.deadline - time.time()))

        def mathapp(x, ch, kind):
            return kind == z3.Z3_OP_TO_INT or (kind == z3.Z3_OP_UNINTERPRETED and len(ch) > 0 and x.decl().name().startswith("math_"))

        apps = {}

        def hasite(x):
            k = x.get_id()
            if k not in hi:
                ch, _, kind = kids(x)
                hi[k] = (kind == z3.Z3_OP_ITE or mathapp(x, ch, kind) or any(hasite(c) for c in ch), x)
            return hi[k][0]
        hi = {}

        def go(x):
            k = x.get_id()
            if k in cache:
                return cache[k][0]
            if not hasite(x):
                cache[k] = (x, x)
                return x
            ch, _, kind = kids(x)
            if kind == z3.Z3_OP_ITE:
                c = go(ch[0])
                v = self.decide(c) if time.time() < end else None
                if v is not None:
                    r = go(ch[1] if v else ch[2])
                else:
                    a, b = go(ch[1]), go(ch[2])
                    r = z3.If(c, a, b)
                    self.conds.append(self.canon(c))
                    if a.sort() in (z3.RealSort(), z3.IntSort()) and time.time() < end:
                        # one branch is right in both cases
                        if self.decide(z3.Implies(c, a == b)) is True:
                            r = b
                        elif self.decide(z3.Or(c, a == b)) is True:
                            r = a
            else:
                r = rebuild(x, kind, [go(c) for c in ch], ch)
            if z3.is_app_of(r, z3.Z3_OP_TO_INT) and z3.is_app_of(r.arg(0), z3.Z3_OP_TO_REAL):
                r = r.arg(0).arg(0)
            r0 = r
            if (kind == z3.Z3_OP_UNINTERPRETED or kind == z3.Z3_OP_TO_INT) and len(ch) and z3.is_app_of(r, kind) and time.time() < end:
                # congruence: the same function at arguments proved equal
                known = apps.setdefault(r.decl().name(), [])
                for u in known:
                    if u.get_id() == r.get_id():
                        break
                    if all(self.equal(a, b) or (a.sort() == z3.RealSort() and self.identity(a, b, False))
                           for a, b in zip(kids(u)[0], kids(r)[0])):
                        self.context().add(self.canon(u) == self.canon(x), self.canon(u) == self.canon(r))
                        self.models = None
                        r = u
                        break
                else:
                    known.append(r)
            if hasite(r) and r.sort() in (z3.RealSort(), z3.IntSort()) and time.time() < end:
                rk = kids(r)[2]
                if light:
                    if rk == z3.Z3_OP_ITE and not any(has_ite(c) for c in kids(r)[0][1:]):
                        for u in reps:
                            if u.get_id() == r.get_id():
                                break
                            if u.sort() == r.sort() and self.same_values(u, r) and self.decide(u == r) is True:
                                r = u
                                break
                        else:
                            reps.append(r)
                elif rk in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_SUB) and not self.big(r):
                    sup = support(r)
                    for u, su in reps:
                        if u.get_id() == r.get_id():
                            break
                        if u.sort() == r.sort() and su == sup and self.same_values(u, r):
                            leaves = []
                            self.fast = True
                            try:
                                self.split(u == r, [], leaves, min(end, time.time() + 1))
                            finally:
                                self.fast = False
                            if leaves and all(l[0] == "proved" for l in leaves):
                                r = u
                                break
                    else:
                        reps.append((r, sup))
            cache[k] = (r, x, r0)
            return r
        # terms of the hypotheses come first, so that they become the representatives
        for f in hyps:
            if not has_quant(f):
                st, seen = [f], set()
                while st:
                    y = st.pop()
                    if y.get_id() in seen:
                        continue
                    seen.add(y.get_id())
                    ch, _, kind = kids(y)
                    if mathapp(y, ch, kind):
                        go(y)
                    else:
                        st.extend(ch)
        return go(goal)

    def big(self, x, cap=400):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if len(seen) > cap:
                return True
            st.extend(kids(y)[0])
        return False

    # ---- splitting
    fast = False

    def split(self, goal, path, leaves, end=None):
        end = end or self.deadline
        if time.time() > end or (self.fast and len(leaves) > 40):
            leaves.append(("timeout", path, goal, None))
            return
        while True:
            c = find_cond(goal)
            if c is None:
                break
            v = self.decide(c)
            if v is not None:
                goal = subst_cond(goal, c, v)
                continue
            for val in (True, False):
                s = self.context()
                s.push()
                s.add(self.canon(c if val else z3.Not(c)))
                if s.check() != z3.unsat:
                    self.split(subst_cond(goal, c, val), path + [c if val else z3.Not(c)], leaves, end)
                s.pop()
                if leaves and leaves[-1][0] in ("timeout", "refuted"):
                    return
            return
        self.leaf(goal, path, leaves)

    def leaf(self, goal, path, leaves):
        g = z3.simplify(goal) if z3.is_true(z3.simplify(goal)) else goal
        if z3.is_true(g):
            leaves.append(("proved", path, goal, None))
            return
        if z3.is_eq(goal) and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
            if self.identity(goal.arg(0), goal.arg(1), not self.fast):
                leaves.append(("proved", path, goal, None))
                return
        if self.decide(goal) is True:
            leaves.append(("proved", path, goal, None))
            return
        if self.fast:
            leaves.append(("timeout", path, goal, None))
            return
        st = self.env._raw_noalg(path, goal, timeout=4000)
        leaves.append((st[0], path, goal, st[3]))

    def fp(self, t):
        """value of a term modulo a prime at a fixed pseudo-random point (a filter: different
        fingerprints mean different rational functions of the atoms; equal ones prove nothing)"""
        k = t.get_id()
        if k in self.fpc:
            return self.fpc[k][0]
        r = self._fp(t)
        self.fpc[k] = (r, t)
        return r

    def _fp(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = _frac(t)
            return f.numerator % PRIME * pow(f.denominator % PRIME, PRIME - 2, PRIME) % PRIME
        ch, _, k = kids(t)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            vs = [self.fp(c) for c in ch]
            if any(v is None for v in vs):
                return None
            if k == z3.Z3_OP_UMINUS:
                return -vs[0] % PRIME
            if k == z3.Z3_OP_DIV:
                return None if vs[1] == 0 else vs[0] * pow(vs[1], PRIME - 2, PRIME) % PRIME
            r = vs[0]
            for v in vs[1:]:
                r = (r + v if k == z3.Z3_OP_ADD else r - v if k == z3.Z3_OP_SUB else r * v) % PRIME
            return r
        if k == z3.Z3_OP_POWER:
            return None
        return hash(("atom", self.atom(self.canon(t, top=True)) * 7919 + 13)) * 2654435761 * 40503 % PRIME

    def identity(self, a, b, merge=True):
        if a.sort() == z3.RealSort() or a.sort() == z3.IntSort():
            x, y = self.fp(a), self.fp(b)
            if not merge and x is not None and y is not None and x != y:
                return False
        divs = []
        try:
            n1, d1 = self.rat(a, divs)
            n2, d2 = self.rat(b, divs)
            if not self.divisors_ok(divs):
                return False
            if peq(d1, d2) and peq(n1, n2):
                return True
            if merge:
                n1, d1, n2, d2 = self.merge((n1, d1, n2, d2))
            return peq(pmul(n1, d2), pmul(n2, d1))
        except TooBig:
            return False

    def merge(self, ps):
        """replace atoms by representatives: atoms the solver shows equal here"""
        used = sorted({a for p in ps for m in p for a, _ in m})
        reps, m2 = [], {}
        for a in used:
            t = self.atoms[a]
            for r in reps:
                u = self.atoms[r]
                if u.sort() == t.sort() and self.same_atom(t, u):
                    m2[a] = r
                    break
            else:
                reps.append(a)
                m2[a] = a
        if all(k == v for k, v in m2.items()):
            return ps
        out = []
        for p in ps:
            r = {}
            for m, c in p.items():
                nm = ()
                for a, e in m:
                    nm = _mmul(nm, ((m2[a], e),))
                v = r.get(nm, 0) + c
                if v:
                    r[nm] = v
                else:
                    r.pop(nm, None)
            out.append(Poly(r))
        return out

    def same_atom(self, t, u):
        if z3.eq(t, u):
            return True
        if z3.is_app(t) and z3.is_app(u) and t.num_args() and z3.eq(t.decl(), u.decl()) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return all(self.equal(x, y) for x, y in zip(kids(t)[0], kids(u)[0]))
        if z3.is_int(t) and z3.is_int(u):
            return self.equal(t, u)
        return False


_kids = {}


def kids(x):
    """children, cached (the reference kept in the cache keeps the id valid)"""
    k = x.get_id()
    r = _kids.get(k)
    if r is None:
        if len(_kids) > 300000:
            _kids.clear()
        r = _kids[k] = (x.children(), x, x.decl().kind() if z3.is_app(x) else -1)
    return r


def rebuild(x, kind, ch, old):
    if all(a.get_id() == b.get_id() for a, b in zip(ch, old)):
        return x
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if kind == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if kind == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kind == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return x.decl()(*ch)


def support(e):
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch, _, kind = kids(x)
        if kind == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name() if not ch else "%s/%s" % (x.decl().name(), tuple(str(c) if not kids(c)[0] else "?" for c in ch)))
        st.extend(ch)
    return frozenset(out)


def toreal(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def has_quant(e):
    from .smt import _has_quant
    return _has_quant(e)


def relevant(facts, goals, rounds=3):
    """facts sharing symbols with the goals (transitively, a few rounds)"""
    def syms(e):
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name() if x.num_args() == 0 else x.sexpr())
            st.extend(x.children())
        return out
    fs = [(f, syms(f)) for f in facts]
    cur = set()
    for g in goals:
        cur |= syms(g)
    chosen = []
    for _ in range(rounds):
        rest, grew = [], False
        for f, s in fs:
            if s & cur or not s:
                chosen.append(f)
                cur |= s
                grew = True
            else:
                rest.append((f, s))
        fs = rest
        if not grew:
            break
    return chosen


def find_cond(e):
    """an innermost if-then-else condition (one that contains no if-then-else itself)"""
    seen = set()

    def go(x):
        k = x.get_id()
        if k in seen:
            return None
        seen.add(k)
        ch, _, kind = kids(x)
        for c in ch:
            r = go(c)
            if r is not None:
                return r
        if kind == z3.Z3_OP_ITE:
            return atom_of(ch[0])
        return None
    return go(e)


def atom_of(c):
    while z3.is_not(c):
        c = c.arg(0)
    if z3.is_and(c) or z3.is_or(c) or z3.is_implies(c) or (z3.is_eq(c) and z3.is_bool(c.arg(0))):
        for x in c.children():
            if not (z3.is_true(x) or z3.is_false(x)):
                return atom_of(x)
    return c


def subst_cond(goal, c, val):
    g = z3.substitute(goal, (c, z3.BoolVal(val)))
    return fold(g)


def has_div(x):
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        ch, _, kind = kids(y)
        if kind == z3.Z3_OP_DIV:
            return True
        st.extend(ch)
    return False


def has_ite(x):
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        ch, _, kind = kids(y)
        if kind == z3.Z3_OP_ITE:
            return True
        if kind != z3.Z3_OP_UNINTERPRETED:
            st.extend(ch)
    return False


def fold(e):
    """propagate true/false through the boolean structure and if-then-else only"""
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][0]
        kk, _, kind = kids(x)
        if not kk:
            r = x
        elif kind == z3.Z3_OP_ITE:
            c = go(kk[0])
            if z3.is_true(c):
                r = go(kk[1])
            elif z3.is_false(c):
                r = go(kk[2])
            else:
                r = z3.If(c, go(kk[1]), go(kk[2]))
        else:
            ch = [go(c) for c in kk]
            if kind == z3.Z3_OP_NOT:
                r = z3.BoolVal(not z3.is_true(ch[0])) if z3.is_true(ch[0]) or z3.is_false(ch[0]) else z3.Not(ch[0])
            elif kind == z3.Z3_OP_AND:
                if any(z3.is_false(c) for c in ch):
                    r = z3.BoolVal(False)
                else:
                    ch = [c for c in ch if not z3.is_true(c)]
                    r = z3.BoolVal(True) if not ch else ch[0] if len(ch) == 1 else z3.And(*ch)
            elif kind == z3.Z3_OP_OR:
                if any(z3.is_true(c) for c in ch):
                    r = z3.BoolVal(True)
                else:
                    ch = [c for c in ch if not z3.is_false(c)]
                    r = z3.BoolVal(False) if not ch else ch[0] if len(ch) == 1 else z3.Or(*ch)
            else:
                r = rebuild(x, kind, ch, kk)
        cache[k] = (r, x)
        return r
    return go(e)


def prove(env, hyps, goal, budget=100):
    """returns (status, model, reason, leaves, seconds)"""
    t0 = time.time()
    a = Alg(env, hyps, t0 + budget)
    leaves = []
    try:
        if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
            # the remaining case distinctions as atoms
            g = fold(a.sweep(goal, hyps, light=True))
            try:
                if z3.is_true(g) or (z3.is_eq(g) and a.identity(g.arg(0), g.arg(1))):
                    return "proved", None, None, 1, time.time() - t0
            except TooBig:
                pass
            goal = g
        goal = fold(a.sweep(goal, hyps))
        if z3.is_eq(goal) and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort()) and a.identity(goal.arg(0), goal.arg(1)):
            return "proved", None, None, 1, time.time() - t0
        if z3.is_and(goal):
            # conjuncts settled by sign analysis are dropped
            rest = [c for c in goal.children() if not a.obvious(c)]
            goal = z3.And(*rest) if rest else z3.BoolVal(True)
        elif a.obvious(goal):
            goal = z3.BoolVal(True)
        a.split(goal, list(hyps), leaves)
    except (TooBig, z3.Z3Exception, RecursionError) as e:
        return "open", None, "case split: %s" % (str(e)[:200] or type(e).__name__), len(leaves), time.time() - t0
    st = {x[0] for x in leaves}
    if st <= {"proved"}:
        return "proved", None, None, len(leaves), time.time() - t0
    for x in leaves:
        if x[0] == "refuted":
            return "refuted", x[3], "refuted case: %s" % str(x[1][len(hyps):])[:200], len(leaves), time.time() - t0
    return "open", None, "case split: %d of %d cases open" % (sum(1 for x in leaves if x[0] != "proved"), len(leaves)), len(leaves), time.time() - t0
