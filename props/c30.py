"""C30: field_line_length; scipy's CubicSpline enters as a function of its own knots and data column."""
import z3
from fractions import Fraction
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, big_sum, sqrt, apply_lam
from pyvc.arrays import input_array, SArray, asarr, make
from pyvc.harness import ints, reals, _top_sums
from pyvc.loader import Stub
from pyvc.npshim import np as shim

RS = z3.RealSort()


def csp(t, xs, ds):
    f = z3.Function(f"CSP{len(xs)}", *[RS] * (1 + 2 * len(xs)), RS)
    return S(f(z(t, "r"), *[z(x, "r") for x in xs], *[z(d, "r") for d in ds]), "r")


class CubicSpline:
    """contract: requires increasing knots; each column of the data is interpolated on its own"""

    def __init__(self, x, data, *a, **kw):
        if a or kw:
            raise Unsupported("spline options")
        x, data = asarr(x), asarr(data)
        n = x.shape[0]
        if x.ndim != 1 or not isinstance(n, int):
            raise Unsupported("number of knots")
        self.n, self.shape = n, data.shape[1:]
        self.x = [x.at((i,)) for i in range(n)]
        h = CTX().ghost["h"]
        h.prove("knots increase", land(*[a_ < b for a_, b in zip(self.x, self.x[1:])]))
        h.prove("one datum per knot", data.shape[0] == n)
        rd = data.reader()
        self.d = lambda q: [rd((i,) + tuple(q)) for i in range(n)]

    def __call__(self, t):
        t = asarr(t)
        rd = t.reader()
        nt = t.ndim
        return make(tuple(t.shape) + tuple(self.shape), "r", lambda ix: csp(rd(tuple(ix[:nt])), self.x, self.d(ix[nt:])))


def proofs(h):
    si = Stub("scipy.interpolate", CubicSpline=CubicSpline)
    m = loader.World(stubs={"scipy": Stub("scipy", interpolate=si), "scipy.interpolate": si}).load("diff")
    if not hasattr(m, "field_line_length"):
        raise Unsupported("field_line_length")
    for up in (True, False):
        for ny in (2, 3, 5):
            for nd in (0, 1, 2):
                if ny == 3 or nd == 1:
                    unit(h, m, ny, nd, up)
    h.assume("scipy CubicSpline: interpolates every column on its own, from its knots and data only", "y values of the trace strictly monotone",
             "cos and sin are the mathematical functions")


def unit(h, m, ny, nd, up):
    def run():
        c = CTX()
        c.ghost["h"] = h
        d = ints("m0", "m1")[:nd]
        n = ints("refine")[0]
        c.assume(land(*[v >= 1 for v in d], n >= 1))
        ys = reals(*[f"y{i}" for i in range(ny)])
        c.assume(land(*[(a < b) if up else (a > b) for a, b in zip(ys, ys[1:])]))
        y = make((ny,), "r", lambda i: reals(f"y{i[0]}")[0])
        t = input_array("tr", (ny,) + tuple(d) + (2,), "r")
        keep = t.buf.reader(), y.buf.reader()
        return m.field_line_length(t, y, refine=n), t, y, keep

    def post(o):
        if not h.must_return(o):
            return
        r, t, y, keep = o.value
        d = tuple(ints("m0", "m1")[:nd])
        q = tuple(ints("q0", "q1")[:nd])
        n = ints("refine")[0]
        hy = [land(*[land(a >= 0, a < b) for a, b in zip(q, d)])] if nd else []
        sh = r.shape if isinstance(r, SArray) else ()
        h.prove("one length per line", land(len(sh) == nd, *[a == b for a, b in zip(sh, d)]))
        ys = list(reals(*[f"y{i}" for i in range(ny)]))
        cols = [[t.at((i,) + q + (e,)) for i in range(ny)] for e in (0, 1)]
        if not up:
            ys, cols = ys[::-1], [c[::-1] for c in cols]
        knots = [Fraction(i, ny - 1) for i in range(ny)]

        def pt(j):
            yf = csp(S(z3.ToReal(z(j, "i")), "r") / ((ny - 1) * n), knots, ys)
            R, Z = csp(yf, ys, cols[0]), csp(yf, ys, cols[1])
            return R * shim.cos(yf), R * shim.sin(yf), Z

        def seg(j):
            a, b = pt(j), pt(j + 1)
            return sqrt(sum(((v - u) * (v - u) for u, v in zip(a, b)), Fraction(0)))

        spec = big_sum(0, (ny - 1) * n, seg)
        got = r.at(q) if isinstance(r, SArray) else r
        h.prove_sum_eq("length is the summed Cartesian distance of the fine points of its own line", got, spec, hy)
        h.prove("never negative", spec >= 0, hy)
        if not nd:
            return
        s = tuple(ints("s0", "s1", "s2", "s3")[:nd + 2])
        h.prove("trace unchanged", t.at(s) == keep[0](s), [land(*[land(a >= 0, a < b) for a, b in zip(s, t.shape)])])

    h.unit(f"field_line_length ({ny} points, rank {nd}, {'forward' if up else 'backward'})", run, post, ["diff.field_line_length"], time_limit=60)
