"""Runs the obligations of one property and reports them as JSON."""
import importlib
import json
import os
import sys
import time
import traceback

import z3

from . import core, loader
from .core import CTX, S, STATS, Unsupported, explore, land, lnot, lor, implies, prove as _prove, z


class H:
    """Collects obligations; every unit is one function (or method) under contract."""

    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline = deadline
        self.units = []
        self.assumptions = []
        self.trusted = []
        self.errors = []
        self._seen = {}

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *texts):
        for t in texts:
            if t not in self.trusted:
                self.trusted.append(t)

    def left(self):
        return self.deadline - time.time()

    def unit(self, name, fn, post, functions=(), time_limit=120, max_paths=300, **opts):
        """Explore fn (real code on symbolic inputs); post(outcome) states the contract.

        functions: the functions of /repo whose bodies are verified by this unit."""
        n0 = len(STATS.obligations)
        t0 = time.time()
        u = dict(unit=name, functions=list(functions), paths=0, status="ok", reach=0)
        self.units.append(u)
        self.cur = u

        def wpost(o):
            u["paths"] += 1
            # vacuity guard: at least one returning path must be satisfiable
            if not u["reach"] and u["paths"] <= 8:
                r, _, _ = core.solve_quick(core.expand(list(o.ctx.facts), rounds=1, sum_rounds=1), 3000)
                if r != "unsat":
                    u["reach"] += 1
            post(o)

        try:
            if self.left() < 5:
                raise Unsupported("no time left")
            explore(fn, wpost, max_paths=max_paths, time_limit=min(time_limit, max(5, self.left())), **opts)
        except Unsupported as e:
            u["status"] = "unsupported"
            u["reason"] = str(e)[:500]
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        except Exception as e:
            u["status"] = "error"
            u["reason"] = "".join(traceback.format_exception(e))[-1500:]
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        except RecursionError as e:
            u["status"] = "unsupported"
            u["reason"] = "recursion"
        obs = STATS.obligations[n0:]
        for o in obs:
            o["unit"] = name
        u["obligations"] = len(obs)
        u["discharged"] = sum(1 for o in obs if o["status"] == "proved")
        u["time"] = round(time.time() - t0, 2)
        if u["status"] == "ok":
            if not obs:
                u["status"] = "vacuous"
                u["reason"] = "no obligation generated"
            elif not u["reach"]:
                u["status"] = "vacuous"
                u["reason"] = "no satisfiable path"
        return u

    out = None

    def dump(self, out, partial=False):
        units = [dict(u) for u in self.units]
        for u in units:
            u.setdefault("obligations", 0)
            u.setdefault("discharged", 0)
            u.setdefault("time", 0)
            if partial and u["unit"] == self.cur["unit"] and not u["obligations"]:
                u["status"] = "unfinished"
        res = dict(units=units, obligations=[dict(o) for o in STATS.obligations], queries=STATS.queries,
                   solver_time=round(STATS.solver_time, 2), assumptions=self.assumptions, trusted=self.trusted,
                   errors=self.errors, wall=round(time.time() - self.t0, 2))
        with open(out + ".tmp", "w") as f:
            json.dump(res, f, indent=1, default=str)
        os.replace(out + ".tmp", out)
        return res

    def once(self, name, goal, hyps=(), **kw):
        """Obligation issued from inside a loop body: each distinct one is discharged once."""
        ctx = CTX()
        key = (self.cur["unit"], name, tuple(f.get_id() for f in ctx.facts), z(goal, "b").get_id())
        if key in self._seen:
            return self._seen[key][0]
        r = self.prove(name, goal, hyps, **kw)
        self._seen[key] = (r, list(ctx.facts), goal)
        return r

    def holds(self, goal, hyps=()):
        """quick question to the solver, not an obligation"""
        ctx = core.CTX()
        fs = list(ctx.facts) + [core.z(x, "b") for x in hyps] + [z3.Not(core.z(goal, "b"))]
        from . import ring
        if ring.try_ring(core.z(goal, "b"), fs[:-1], 3000):
            return True
        return core.solve_quick(core.expand(fs), 3000)[0] == "unsat"

    def instances(self, idx, terms=()):
        """what the path knows about maxima, minima and quantifications at the given indices"""
        from .arrays import SCHEMAS
        out, done = [], set()
        todo = list(core.CTX().facts) + [core.z(t) for t in terms]
        for _ in range(len(idx)):
            new = []
            for a in {x.get_id(): x for f in todo for _, x in core._special_apps(f)}.values():
                if a.get_id() in done or a.decl().name() not in SCHEMAS:
                    continue
                done.add(a.get_id())
                for f in SCHEMAS[a.decl().name()](*a.children()):
                    if z3.is_quantifier(f) and f.num_vars() == 1:
                        new += [z3.substitute_vars(f.body(), core.z(i, "i")) for i in idx]
            out += new
            todo = new
        return [core.S(x, "b") for x in out]

    def prove_abstract(self, name, goal, hyps, terms):
        """prove a generalisation: the given terms are replaced by unknowns wherever they occur"""
        sub = [(z3.simplify(core.z(t, "r")), z3.Real(f"abs!{n}")) for n, t in enumerate(terms)]
        f = lambda e: core.S(z3.substitute(z3.simplify(core.z(e, "b")), *sub), "b")
        return self.prove(name, f(goal), [f(x) for x in hyps], trust_model=False)

    def prove(self, name, goal, hyps=(), **kw):
        ctx = CTX()
        if ctx.ghost.get("imprecise"):
            kw["trust_model"] = False
        kw.setdefault("timeout", 15000 if self.tier == "quick" else 60000)
        kw["timeout"] = max(500, min(kw["timeout"], int(self.left() * 1000)))
        r = _prove(f"{self.cur['unit']}: {name}", goal, hyps, **kw)
        if self.out and time.time() - self.last > 3:
            self.last = time.time()
            self.dump(self.out, partial=True)
        if os.environ.get("VERIF_DEBUG"):
            o = STATS.obligations[-1]
            print("   ", o["name"], o["status"], o["backend"], o["time"], flush=True)
            if o["status"] == "refuted" and os.environ.get("VERIF_DEBUG") == "2":
                print(o.get("model"))
        return r

    def prove_sum_eq(self, name, total, spec, hyps=(), **kw):
        """total == spec where both are (terms over) nested sums: pointwise congruence,
        one lemma per pair of sums over the same range, then linear arithmetic."""
        a, b = z3.simplify(z(total)), z3.simplify(z(spec))
        lem = []
        for s in _top_sums(a):
            for t in _top_sums(b):
                if s.sort() == t.sort() and _same_len(s, t):
                    if s.eq(t) or self._sum_lemma(name, s, t, list(hyps), kw):
                        lem.append(s == t)
        return self.prove(name, a == b, list(hyps) + lem, **kw)

    def _sum_lemma(self, name, s, t, hyps, kw, depth=0):
        w = z3.Int(f"pt!{core.uid()}")
        hy = hyps + [0 <= w, w < s.arg(2) - s.arg(1)]
        x = z3.simplify(core.apply_lam(s.arg(0), z3.simplify(s.arg(1) + w)))
        y = z3.simplify(core.apply_lam(t.arg(0), z3.simplify(t.arg(1) + w)))
        if x.eq(y):
            return True
        sx, sy = _top_sums(x), _top_sums(y)
        if depth < 4 and len(sx) == 1 and len(sy) == 1 and x.eq(sx[0]) and y.eq(sy[0]) and _same_len(x, y):
            return self._sum_lemma(name, x, y, hy, kw, depth + 1)
        return self.prove(name + " (summands agree)", x == y, hy, **kw)

    def prove_addends(self, name, a, b, hyps=()):
        """a == b, both sums: matched addend by addend (rings of few unknowns), then added up"""
        from . import ring

        def flat(t, sg, out):
            k = t.decl().kind() if z3.is_app(t) else None
            if k == z3.Z3_OP_ADD:
                for c in t.children():
                    flat(c, sg, out)
            elif k == z3.Z3_OP_SUB:
                flat(t.arg(0), sg, out)
                for c in t.children()[1:]:
                    flat(c, -sg, out)
            elif k == z3.Z3_OP_UMINUS:
                flat(t.arg(0), -sg, out)
            elif k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(1).decl().kind() == z3.Z3_OP_ADD:
                for c in t.arg(1).children():
                    flat(t.arg(0) * c, sg, out)
            elif not (z3.is_rational_value(t) and t.numerator_as_long() == 0):
                out.append(t if sg > 0 else -t)
            return out

        A, B = flat(z(a, "r"), 1, []), flat(z(b, "r"), 1, [])
        if len(A) == len(B):
            pairs, rest = [], list(B)
            for x in A:
                for pos, y in enumerate(rest):
                    try:
                        ok = ring.ring_equal(x, y)[0]
                    except ring.No:
                        ok = False
                    if ok:
                        pairs.append((x, y))
                        del rest[pos]
                        break
                else:
                    break
            if not rest:
                ok = True
                for i, (x, y) in enumerate(pairs):
                    ok = self.prove(f"{name}: addend {i}", x == y, hyps) and ok
                return ok
        return self.prove(name, a == b, hyps, trust_model=False)

    def must_raise(self, o, types, name):
        """Contract: the function refuses these inputs."""
        if o.kind != "return":
            core.check_engine_fault(o.value)
        self.prove(name, o.kind != "return" and isinstance(o.value, types))

    def must_return(self, o, name="no exception"):
        """Contract: the function returns normally on this path."""
        if o.kind == "return":
            return True
        e = o.value
        ctx = o.ctx
        core.check_engine_fault(e)
        tb, last = e.__traceback__, None
        while tb is not None:
            last, tb = tb, tb.tb_next
        inside = last is not None and os.sep + "pyvc" + os.sep in last.tb_frame.f_code.co_filename
        if "_pv_" in str(e) or (inside and isinstance(e, (TypeError, AttributeError, NameError, KeyError, AssertionError, NotImplementedError, z3.Z3Exception))):
            raise Unsupported(f"engine: {type(e).__name__}: {e}")
        # the path is feasible only if its facts are satisfiable
        _prove(f"{self.cur['unit']}: {name} ({type(e).__name__}: {str(e)[:80]})", z3.BoolVal(False),
               timeout=8000, trust_model=not ctx.ghost.get("imprecise"))
        if os.environ.get("VERIF_DEBUG") and STATS.obligations[-1]["status"] != "proved":
            traceback.print_exception(e)
            if os.environ.get("VERIF_DEBUG") == "2":
                print(STATS.obligations[-1].get("model"))
        return False


def ints(*names):
    return [S(z3.Int(n), "i") for n in names]


def reals(*names):
    return [S(z3.Real(n), "r") for n in names]


def _same_len(s, t):
    return z3.simplify(s.arg(2) - s.arg(1) - t.arg(2) + t.arg(1)).eq(z3.IntVal(0))


def _top_sums(e):
    out, stack, seen = [], [e], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().name() in ("SUMI", "SUMR"):
            out.append(t)
        else:
            stack.extend(t.children())
    return out


def lex_cases(p, q):
    """Exhaustive split (up to swapping p and q) of p != q for 3 indices: (name, q', condition).

    Equal coordinates are substituted, not assumed, which keeps the terms identical."""
    return [("x differs", list(q), p[0] < q[0]),
            ("same x, y differs", [p[0], q[1], q[2]], p[1] < q[1]),
            ("same x, y, z differs", [p[0], p[1], q[2]], p[2] < q[2])]


def main():
    prop, tier, seed, budget, out = sys.argv[1:6]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    h = H(prop, tier, int(seed), t0 + float(budget))
    h.out, h.t0, h.last = out, t0, t0
    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
        mod.proofs(h)
    except Unsupported as e:
        h.errors.append("unsupported: " + str(e))
    except BaseException as e:
        h.errors.append("".join(traceback.format_exception(e))[-3000:])
    res = h.dump(out)
    if os.environ.get("VERIF_DEBUG"):
        for u in h.units:
            print(u)
        for o in res["obligations"]:
            if o["status"] != "proved":
                print("!!", o["name"], o["status"], o["backend"], o["time"])
        print("errors", h.errors)
        print(len(res["obligations"]), "obligations", sum(o["status"] == "proved" for o in res["obligations"]), "proved", res["wall"], "s")


if __name__ == "__main__":
    main()
