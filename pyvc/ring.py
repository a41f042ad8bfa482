"""Two algebraic back ends for obligations that are (in)equalities of real terms.

ring: both sides of an equality are brought to normal form in the field of rational
functions over the atoms (variables, uninterpreted applications); square roots are
reduced with s*s = e.  Every denominator and every radicand is a side condition that
the solver must discharge (d != 0, e >= 0).
nra: atoms become real variables, quantified facts are dropped, and z3's nlsat decides
the rest.  Dropping facts and relaxing integers to reals only weakens the hypotheses."""
from fractions import Fraction

import z3

from . import core


class No(Exception):
    pass


def _kids(t):
    return [t.arg(i) for i in range(t.num_args())]


def resolve_ifs(e, known):
    """replaces If terms whose condition is decided by known(cond) -> True/False/None"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = go(t.arg(0))
            v = True if z3.is_true(c) else (False if z3.is_false(c) else known(c))
            r = go(t.arg(1)) if v is True else (go(t.arg(2)) if v is False else z3.If(c, go(t.arg(1)), go(t.arg(2))))
        else:
            ks = [go(x) for x in _kids(t)]
            r = t.decl()(*ks) if any(not a.eq(b) for a, b in zip(ks, _kids(t))) else t
        memo[k] = r
        return r

    return z3.simplify(go(e))


class Field:
    """conversion of z3 real/int terms to rational functions"""

    def __init__(self):
        self.atoms = {}
        self.exprs = []
        self.dens = []
        self.roots = {}
        self.extra = []

    def scan(self, t, seen):
        if t.get_id() in seen:
            return
        seen[t.get_id()] = t
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
                for x in _kids(t):
                    self.scan(x, seen)
                return
            if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
                self.scan(t.arg(0), seen)
                return
            if t.decl().name() == "SQRT":
                self.scan(t.arg(0), seen)
        if t.get_id() not in self.atoms:
            self.atoms[t.get_id()] = len(self.exprs)
            self.exprs.append(t)

    def build(self):
        from sympy import QQ
        from sympy.polys.fields import field
        if not self.exprs:
            names = ["unused"]
        else:
            names = [f"a{i}" for i in range(len(self.exprs))]
        r = field(names, QQ)
        self.K, self.gens = r[0], r[1:]
        self.QQ = QQ

    def conv(self, t, memo):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_int_value(t):
            r = self.K(t.as_long())
        elif z3.is_rational_value(t):
            r = self.K(self.QQ(t.numerator_as_long(), t.denominator_as_long()))
        else:
            kd = t.decl().kind() if z3.is_app(t) else None
            if kd == z3.Z3_OP_ADD:
                r = self.K(0)
                for x in _kids(t):
                    r = r + self.conv(x, memo)
            elif kd == z3.Z3_OP_SUB:
                ks = _kids(t)
                r = self.conv(ks[0], memo)
                for x in ks[1:]:
                    r = r - self.conv(x, memo)
            elif kd == z3.Z3_OP_UMINUS:
                r = -self.conv(t.arg(0), memo)
            elif kd == z3.Z3_OP_MUL:
                r = self.K(1)
                for x in _kids(t):
                    r = r * self.conv(x, memo)
            elif kd == z3.Z3_OP_TO_REAL:
                r = self.conv(t.arg(0), memo)
            elif kd == z3.Z3_OP_DIV:
                d = self.conv(t.arg(1), memo)
                if not d:
                    raise No
                if not (d.numer.is_ground and d.denom.is_ground):
                    self.dens.append(t.arg(1))
                r = self.conv(t.arg(0), memo) / d
            elif kd == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 12:
                r = self.conv(t.arg(0), memo)**t.arg(1).numerator_as_long()
            else:
                r = self.gens[self.atoms[k]]
                if z3.is_app(t) and t.decl().name() == "SQRT":
                    self.roots[self.atoms[k]] = t.arg(0)
        memo[k] = r
        return r


def merge_atoms(F, holds, depth=0):
    """applications of one function to provably equal arguments are one atom"""
    rep, tried = {}, 0
    same = getattr(holds, "same_args", holds)
    for k, i in list(F.atoms.items()):
        t = F.exprs[i]
        if not (z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        for j in rep.get(t.decl().name(), []):
            u = F.exprs[j]
            if not u.decl().eq(t.decl()):
                continue
            ok = _args_by_ring(F, t, u, depth)
            if not ok and same is not None and tried < 60:
                tried += 1
                ok = same(z3.And([x == y for x, y in zip(_kids(t), _kids(u))]))
            if ok:
                F.atoms[k] = j
                break
        else:
            rep.setdefault(t.decl().name(), []).append(i)


def _args_by_ring(F, t, u, depth):
    """equal arguments as rational expressions (their denominators become side conditions)"""
    if depth > 3:
        return False
    conds = []
    try:
        for x, y in zip(_kids(t), _kids(u)):
            if not z3.is_arith(x):
                return False
            if x.eq(y):
                continue
            if not z3.is_real(x):
                return False
            ok, cs = ring_equal(x, y, depth=depth + 1)
            if not ok:
                return False
            conds += cs
    except No:
        return False
    F.extra += conds
    return True


def nonzero_by_ring(t, facts, holds):
    """t != 0 because t is a known nonzero fact times factors that are nonzero"""
    for f in facts:
        if z3.is_not(f) and z3.is_eq(f.arg(0)) and z3.is_arith(f.arg(0).arg(0)):
            u = f.arg(0).arg(0) - f.arg(0).arg(1)
        elif z3.is_distinct(f) and f.num_args() == 2 and z3.is_arith(f.arg(0)):
            u = f.arg(0) - f.arg(1)
        else:
            continue
        F = Field()
        seen = {}
        u = z3.simplify(u)
        F.scan(t, seen)
        F.scan(u, seen)
        if len(F.exprs) > 60:
            continue
        F.build()
        merge_atoms(F, holds)
        memo = {}
        try:
            tv, uv = F.conv(t, memo), F.conv(u, memo)
        except No:
            continue
        if not tv or not uv:
            continue
        q = tv / uv
        ok = True
        for p in (q.numer, q.denom):
            if p.is_ground:
                continue
            for fac, _ in p.factor_list()[1]:
                g = [i for i, x in enumerate(F.gens) if fac == x.numer or fac == (-x).numer]
                if not g or not holds(F.exprs[g[0]] != 0):
                    ok = False
                    break
            if not ok:
                break
        if ok and all(holds(d != 0) for d in F.dens) and all(holds(c) for c in F.extra):
            return True
    return False


def ring_equal(a, b, holds=None, depth=0):
    """(True, side conditions) if a - b normalises to zero"""
    F = Field()
    seen = {}
    F.scan(a, seen)
    F.scan(b, seen)
    if len(F.exprs) > 60:
        raise No
    F.build()
    merge_atoms(F, holds, depth)
    memo = {}
    d = F.conv(a, memo) - F.conv(b, memo)
    conds = []
    for i in range(6):
        if not d:
            break
        # reduce powers of square roots in the numerator
        num = d.numer
        done = True
        for at, e in F.roots.items():
            if num.degree(num.ring.gens[at]) < 2:
                continue
            done = False
            ev = F.conv(e, memo)
            s = F.gens[at]
            out = F.K(0)
            for mono, c in num.terms():
                m = list(mono)
                q, m[at] = divmod(m[at], 2)
                term = F.K(c)
                for j, p in enumerate(m):
                    if p:
                        term = term * F.gens[j]**p
                out = out + term * ev**q
            conds.append(e >= 0)
            d = out
            num = d.numer
        if done:
            break
    if d:
        return False, []
    used = {}
    for x in F.dens:
        used[x.get_id()] = x != 0
    return True, list(used.values()) + conds + F.extra


def equality(g):
    if z3.is_eq(g) and z3.is_arith(g.arg(0)):
        return [(g.arg(0), g.arg(1))]
    if z3.is_and(g):
        out = []
        for x in _kids(g):
            e = equality(x)
            if e is None:
                return None
            out += e
        return out
    return None


def nonlinear(t, seen=None):
    stack, seen = [t], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            return True
        if k == z3.Z3_OP_POWER:
            return True
        if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(x) or z3.is_int_value(x)) for x in _kids(t)) > 1:
            return True
        if t.decl().name() == "SQRT":
            return True
        stack.extend(_kids(t))
    return False


def _ne0(c, facts, holds):
    if z3.is_distinct(c) and c.num_args() == 2:
        return nonzero_by_ring(z3.simplify(c.arg(0) - c.arg(1)), facts, holds)
    return False


def try_ring(g, facts, timeout):
    """None, or the back end name if the goal is discharged"""
    g = z3.simplify(g)
    eqs = equality(g)
    if not eqs or not nonlinear(g):
        return None
    solver_facts = core.expand(list(facts), rounds=2, sum_rounds=1)

    def holds(c):
        s = z3.Solver()
        s.set("timeout", min(int(timeout), 4000))
        if core._special_apps(c):
            s.add(*core.expand(list(facts) + [z3.Not(c)], rounds=2, sum_rounds=1))
        else:
            s.add(*solver_facts)
            s.add(z3.Not(c))
        return s.check() == z3.unsat

    lin = [f for f in solver_facts if not z3.is_quantifier(f) and not nonlinear(f)]

    def same_args(c):
        if z3.is_and(c) and any(not z3.is_arith(x.arg(0)) for x in c.children()):
            return holds(c)
        d = z3.simplify(z3.And([z3.simplify(x.arg(0) - x.arg(1), som=True) == 0 for x in c.children()] if z3.is_and(c) else c))
        if z3.is_true(d) or z3.is_false(d):
            return z3.is_true(d)
        if core._special_apps(d):
            return holds(c)
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*lin)
        s.add(z3.Not(d))
        return s.check() == z3.unsat

    holds.same_args = same_args
    cache = {}

    def known(c):
        k = c.get_id()
        if k not in cache:
            cache[k] = (True if holds(c) else (False if holds(z3.Not(c)) else None), c)
        return cache[k][0]

    try:
        conds = []
        for a, b in eqs:
            a, b = resolve_ifs(a, known), resolve_ifs(b, known)
            ok, cs = ring_equal(a, b, holds)
            if not ok:
                return None
            conds += cs
        for c in conds:
            if not (z3.is_true(z3.simplify(c)) or _ne0(c, facts, holds) or holds(c) or try_nra(c, facts, timeout)):
                return None
    except (No, TypeError, AttributeError, z3.Z3Exception):
        return None
    return "ring" + (" + z3 side conditions" if conds else "")


# ---------------------------------------------------------------- nra
class Relax:
    def __init__(self):
        self.vars = {}
        self.keep = []

    def atom(self, t):
        k = t.get_id()
        if k not in self.vars:
            self.vars[k] = z3.Real(f"at!{len(self.vars)}")
            self.keep.append(t)
        return self.vars[k]

    def real(self, t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t):
            return t
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                return z3.Sum([self.real(x) for x in _kids(t)])
            if k == z3.Z3_OP_MUL:
                return z3.Product([self.real(x) for x in _kids(t)])
            if k == z3.Z3_OP_SUB:
                r = self.real(t.arg(0))
                for x in _kids(t)[1:]:
                    r = r - self.real(x)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -self.real(t.arg(0))
            if k == z3.Z3_OP_TO_REAL:
                return self.real(t.arg(0))
            if k == z3.Z3_OP_DIV:
                return self.real(t.arg(0)) / self.real(t.arg(1))
            if k == z3.Z3_OP_ITE:
                return z3.If(self.bool(t.arg(0)), self.real(t.arg(1)), self.real(t.arg(2)))
        return self.atom(t)

    def bool(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if z3.is_quantifier(t):
            raise No
        k = t.decl().kind()
        if z3.is_and(t):
            return z3.And([self.bool(x) for x in _kids(t)])
        if z3.is_or(t):
            return z3.Or([self.bool(x) for x in _kids(t)])
        if z3.is_not(t):
            return z3.Not(self.bool(t.arg(0)))
        if z3.is_implies(t):
            return z3.Implies(self.bool(t.arg(0)), self.bool(t.arg(1)))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(t.arg(0))):
            a, b = self.real(t.arg(0)), self.real(t.arg(1))
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b,
                    z3.Z3_OP_DISTINCT: a != b}[k]
        if k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0)):
            return self.bool(t.arg(0)) == self.bool(t.arg(1))
        raise No


def _closed(t):
    """no free de Bruijn variables outside quantifiers (facts are closed anyway)"""
    return not z3.is_quantifier(t)


def try_nra(g, facts, timeout):
    fs = core.expand(list(facts) + [z3.Not(g)], rounds=2, sum_rounds=1)
    r = Relax()
    try:
        goal = r.bool(z3.simplify(z3.Not(g)))
    except No:
        return None
    hyp = []
    for f in fs:
        for x in (_kids(f) if z3.is_and(f) else [f]):
            try:
                hyp.append(r.bool(x))
            except No:
                pass
    # keep the hypotheses that share atoms with the goal (directly or through one another)
    for only in (True, False):
        hs = _relevant(goal, hyp) if only else hyp
        s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat").solver()
        s.set("timeout", int(min(timeout, 8000)))
        s.add(goal, *hs)
        try:
            if s.check() == z3.unsat:
                return "z3(nlsat)"
        except z3.Z3Exception:
            pass
    return None


def _vars(t):
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def _relevant(goal, hyp):
    have = _vars(goal)
    return [x for x in hyp if _vars(x) and _vars(x) <= have]
