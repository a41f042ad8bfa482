"""C19: FieldTracerReversible: trapezoidal rule, sub-steps, layout; arbitrary field directions."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import input_array, SArray, asarr, make, elementwise
from pyvc.harness import ints, reals
from pyvc.loops import last_iteration, unfold
from props.c18 import mod

RS = z3.RealSort()
D = {n: z3.Function("D" + n, RS, RS, RS, RS) for n in "xz"}


def dir_(n, x, w, y):
    return S(D[n](z(x, "r"), z(w, "r"), z(y, "r")), "r")


class Field:
    def __init__(self, const):
        self.const = const

    def field_direction(self, pos, y, flatten=False):
        c = CTX()
        x, w = pos
        if isinstance(flatten, bool) and flatten:
            raise Unsupported("flattened call")
        c.ghost["calls"].append((c.ghost["phase"], asarr(x).reader() if isinstance(x, SArray) else (lambda i, x=x: x),
                                 asarr(w).reader() if isinstance(w, SArray) else (lambda i, w=w: w), y))
        if self.const:
            return tuple(elementwise(lambda a, b, v=v: v, x, w, k="r") for v in reals("cx", "cz"))
        return tuple(elementwise(lambda a, b, n=n: dir_(n, a, b, y), x, w, k="r") for n in "xz")


def proofs(h):
    m = mod()
    for const in (False, True):
        for kd, ny, ns in (("1D", 2, 1), ("1D", 2, 2), ("1D", 3, 1), ("2D", 2, 1), ("sx", 2, 1)):
            unit(h, m, const, kd, ny, ns)
    h.assume("partial correctness: the Newton loop is assumed to end",
             "the contract of one Newton update: it solves the finite-difference linear system where its determinant does not vanish")


def unit(h, m, const, kd, ny, ns):
    nd = 2 if kd == "2D" else 1

    def run():
        c = CTX()
        d = ints("m0", "m1")[:nd]
        c.assume(land(*[v >= 2 for v in d]))
        g = c.ghost
        g["calls"], g["phase"] = [], "out"

        def mark(p):
            if p == "trial":
                g["keep"] = len(g["calls"])
                g["phase"] = "trial"
            elif p == "last":
                del g["calls"][g["keep"]:]
                g["phase"] = "in"
            else:
                g["phase"] = "out"

        c.opts["while_hook"] = last_iteration(mark)
        rt, ep = reals("rtol", "eps")
        c.assume(land(rt > 0, ep > 0))
        tr = m.FieldTracerReversible(Field(const), rtol=rt, eps=ep, nsteps=ns)
        x = reals("sx")[0] if kd == "sx" else input_array("sx", d, "r")
        w = reals("sz")[0] if kd == "sz" else input_array("sz", d, "r")
        y = make((ny,), "r", lambda i: reals(f"y{i[0]}")[0])
        keep = [v.buf.reader() if isinstance(v, SArray) else None for v in (x, w, y)]
        r = tr.follow_field_lines(x, w, y)
        return r, (x, w, y), keep, list(g["calls"])

    def post(o):
        if not h.must_return(o):
            return
        r, (x, w, y), keep, calls = o.value
        d = ints("m0", "m1")[:nd]
        want = (ny,) + tuple(d) + (2,)
        h.prove("shape (len(y),) + shape of the starts + (2,)", land(len(r.shape) == len(want), *[a == b for a, b in zip(r.shape, want)]))
        if len(r.shape) != len(want):
            return
        defs = o.ctx.ghost.get('exit_defs', [])
        q = tuple(ints("q0", "q1")[:nd])
        hy = [land(*[land(a >= 0, a < b) for a, b in zip(q, d)])]
        get = lambda v: v.at(q) if isinstance(v, SArray) else v
        X0, W0 = get(x), get(w)
        ys = reals(*[f"y{i}" for i in range(ny)])
        h.prove("entry 0 is the start position", land(r.at((0,) + q + (0,)) == X0, r.at((0,) + q + (1,)) == W0), hy)
        for v, old, nm in zip((x, w, y), keep, "xzy"):
            if isinstance(v, SArray):
                s = tuple(ints(*[f"s{i}" for i in range(v.ndim)]))
                rg = [land(*[land(a >= 0, a < b) for a, b in zip(s, v.shape)])]
                if is_small(v):
                    for t in range(v.shape[0]):
                        h.prove(f"caller's {nm} unchanged", v.at((t,)) == old((t,)))
                else:
                    h.prove(f"caller's {nm} unchanged", v.at(s) == old(s), rg)
        if const:
            cx, cz = reals("cx", "cz")
            for t in range(1, ny):
                h.prove("uniform direction: the line is straight and reaches the requested y",
                        land(unfold(r.at((t,) + q + (0,)), defs) == X0 + cx * (ys[t] - ys[0]), unfold(r.at((t,) + q + (1,)), defs) == W0 + cz * (ys[t] - ys[0])), hy)
            return
        rt, ep = reals("rtol", "eps")
        # one call outside the Newton loop per sub-step, then the calls of its last iteration
        steps = []
        for ph, cx, cz, cy in calls:
            if ph == "out":
                steps.append([(cx(q), cz(q), cy), []])
            elif ph == "in" and steps:
                steps[-1][1].append((cx(q), cz(q), cy))
        if len(steps) != ns * (ny - 1) or any(len(s[1]) != 3 for s in steps):
            raise Unsupported("another way of evaluating the field direction")
        for s, ((xs, zs, yst), inner) in enumerate(steps):
            t, f = divmod(s, ns)
            dy = (ys[t + 1] - ys[t]) / ns
            ya = ys[t] + dy * f
            yb = ys[t] + dy * (f + 1)
            h.prove(f"step {s} starts at its own y", yst == ya)
            if f == 0:
                h.prove(f"step {s} starts at the stored position", land(xs == r.at((t,) + q + (0,)), zs == r.at((t,) + q + (1,))), hy)
            if s + 1 < len(steps):
                xe, ze = steps[s + 1][0][:2]
            else:
                xe, ze = r.at((ny - 1,) + q + (0,)), r.at((ny - 1,) + q + (1,))
            # unfold only this step's own definitions
            at = [i for i, (g, _) in enumerate(defs) if any(g.eq(u.e.decl()) for u in (xe, ze) if isinstance(u, S))]
            xe, ze = (unfold(u, [defs[i] for i in at]) for u in (xe, ze))
            X, W, yn = inner[0]
            h.prove(f"step {s} ends at its own y", yn == yb)

            def f_(a, b):
                return (a - xs - dy * (dir_("x", xs, zs, ya) + dir_("x", a, b, yb)) / 2,
                        b - zs - dy * (dir_("z", xs, zs, ya) + dir_("z", a, b, yb)) / 2)

            f0, fx, fz = f_(X, W), f_(X + ep, W), f_(X, W + ep)
            det = (fx[0] - f0[0]) * (fz[1] - f0[1]) - (fx[1] - f0[1]) * (fz[0] - f0[0])
            dx, dz = X - xe, W - ze
            hyp = hy + [lnot(det == 0)]
            for e in (0, 1):
                h.prove(f"step {s}: the last update is Newton's for the trapezoidal rule ({'xz'[e]})",
                        dx * (fx[e] - f0[e]) + dz * (fz[e] - f0[e]) == ep * f0[e], hyp + [ep > 0], isolated=True)
            if nd == 1:
                h.prove(f"step {s}: the last update is below the tolerance", dx * dx + dz * dz < rt, hy)

    h.unit(f"reversible tracer ({kd}, {ny} y values, {ns} sub-step(s){', uniform direction' if const else ''})", run, post,
           ["fieldtracer.FieldTracerReversible.__init__", "fieldtracer.FieldTracerReversible.follow_field_lines"], time_limit=60)


def is_small(v):
    return all(isinstance(n, int) for n in v.shape)
