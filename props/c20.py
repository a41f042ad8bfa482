"""C20: trace_poincare; the tracer enters by its contract (C18)."""
import z3
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import input_array, SArray, asarr, make
from pyvc.harness import ints, reals
from props.c18 import mod, r_, FL


class Tracer:
    def __init__(self, field):
        if field is not CTX().ghost["fieldobj"]:
            raise Unsupported("another field")

    def follow_field_lines(self, x, w, y, rtol=None):
        c = CTX()
        h = c.ghost["h"]
        y = asarr(y)
        n = y.shape[0]
        if not isinstance(n, int):
            raise Unsupported("symbolic number of y values")
        yp = c.ghost["yp"]
        h.prove("y values handed to the tracer never turn back",
                land(*[ite(yp > 0, y.at((i,)) <= y.at((i + 1,)), y.at((i,)) >= y.at((i + 1,))) for i in range(n - 1)]))
        x, w = asarr(x), asarr(w)
        y0 = y.at((0,))
        sh = x.shape if x.ndim else (1,)
        xr, wr, yr = x.reader(), w.reader(), y.reader()

        def cell(ix):
            t, q, e = ix[0], tuple(ix[1:-1]), ix[-1]
            a, b = (xr(q), wr(q)) if x.ndim else (xr(()), wr(()))
            return ite(e == 0, r_(FL["x"], a, b, y0, yr((t,))), r_(FL["z"], a, b, y0, yr((t,))))

        return make((n,) + tuple(sh) + (2,), "r", cell)


def proofs(h):
    m = mod()
    for nplot, revs, nover in ((1, 2, 1), (1, 2, 2), (2, 1, 1), (2, 1, 3), (2, 2, 2), (3, 2, 1), (3, 3, 2), (2, 3, 3), (4, 2, 2)):
        unit(h, m, nplot, revs, nover, False)
        if nplot <= 3:
            unit(h, m, nplot, revs, nover, True)
    refuse(h, m)
    h.assume("FieldTracer.follow_field_lines enters by its contract (C18)", "floats as reals")


def unit(h, m, nplot, revs, nover, given):
    def run():
        c = CTX()
        g = c.ghost
        g["h"] = h
        n = ints("n")[0]
        yp = reals("yp")[0]
        g["yp"] = yp
        c.assume(n >= 1)
        c.assume(yp > 0 if given else lnot(yp == 0))
        field = g["fieldobj"] = object()
        x, w = input_array("px", (n,), "r"), input_array("pz", (n,), "r")
        m.FieldTracer = Tracer
        if given:
            sl = make((nplot,), "r", lambda i: reals(f"s{i[0]}")[0])
            c.assume(land(*[land(v >= 0, v <= yp) for v in reals(*[f"s{i}" for i in range(nplot)])]))
            r = m.trace_poincare(field, x, w, yp, y_slices=sl, revs=revs, nover=nover)
        else:
            sl = None
            r = m.trace_poincare(field, x, w, yp, nplot=nplot, revs=revs, nover=nover)
        return r, sl, x, w

    def post(o):
        if not h.must_return(o):
            return
        (r, ys), sl, x, w = o.value
        n, q = ints("n", "q")
        yp = reals("yp")[0]
        ys = asarr(ys)
        hy = [land(q >= 0, q < n)]
        want = (revs, nplot, n, 2)
        h.prove("shape (revs, slices) + shape of the starts + (2,)", land(len(r.shape) == 4, *[a == b for a, b in zip(r.shape, want)]))
        h.prove("number of slices", land(len(ys.shape) == 1, ys.shape[0] == nplot))
        s = [ys.at((i,)) for i in range(nplot)]
        if given:
            vs = list(reals(*[f"s{i}" for i in range(nplot)]))
            h.prove("returned slices are sorted", land(*[s[i] <= s[i + 1] for i in range(nplot - 1)]))
            import itertools
            h.prove("returned slices are the requested ones", lor(*[land(*[a == b for a, b in zip(s, p)]) for p in itertools.permutations(vs)]))
            h.prove("the caller's slices are unchanged", land(*[sl.at((i,)) == vs[i] for i in range(nplot)]))
        else:
            h.prove("equally spaced slices of one period", land(*[s[i] == yp * i / nplot for i in range(nplot)]))
        X, W = x.at((q,)), w.at((q,))
        for rev in range(revs):
            for i in range(nplot):
                y = s[i] + yp * rev
                h.prove(f"[{rev}, {i}] is the line's position at slice + revolution * period",
                        land(r.at((rev, i, q, 0)) == r_(FL["x"], X, W, s[0], y), r.at((rev, i, q, 1)) == r_(FL["z"], X, W, s[0], y)), hy)

    h.unit(f"trace_poincare ({nplot} slices{' given' if given else ''}, {revs} revolutions, over-sampling {nover})", run, post,
           ["fieldtracer.trace_poincare"], time_limit=60)


def refuse(h, m):
    def run():
        c = CTX()
        g = c.ghost
        g["h"] = h
        g["yp"] = yp = reals("yp")[0]
        c.assume(yp > 0)
        vs = reals("s0", "s1")
        c.assume(lor(*[lor(v < 0, v > yp) for v in vs]))
        field = g["fieldobj"] = object()
        m.FieldTracer = Tracer
        x, w = reals("px", "pz")
        return m.trace_poincare(field, x, w, yp, y_slices=make((2,), "r", lambda i: reals(f"s{i[0]}")[0]), revs=1, nover=1)

    def post(o):
        h.must_raise(o, ValueError, "slices outside one period are refused")

    h.unit("trace_poincare (slices out of range)", run, post, ["fieldtracer.trace_poincare"])
