"""make_maps with its collaborators by contract: grid (C07), tracer (C18), index search (C08/C09),
boundary (C28), line length (C30).  Grid sizes symbolic; slice, sample, chunk and refinement counts enumerated."""
import z3
from pyvc import core
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, subst_value, floor, concrete_int
from pyvc.arrays import SSeq, input_array, SArray, make, elementwise, asarr
from pyvc.harness import ints, reals
from pyvc.loader import Stub
from props.c15 import F, app, field_class
from props.pgrid import world

IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PT = {c: z3.Function("P_" + c, IS, IS, IS, RS) for c in ("R", "Z", "g_xx", "g_xz", "g_zz")}
YC = z3.Function("YC", IS, RS)           # contract of getPoloidalGrid: coordinate at an integer index
FL = {c: z3.Function("FL" + c, RS, RS, RS, RS, RS) for c in "xz"}   # the flow of the field
FI = {c: z3.Function("FI" + c, IS, RS, RS, RS) for c in "xz"}       # findIndex of a plane
OUT = z3.Function("OUT", RS, RS, RS, BS)
CO = {c: z3.Function("CO_" + c, IS, RS, RS, RS) for c in "RZ"}      # getCoordinate of a plane

BL = {c: z3.Function("BL_" + c, IS, RS, RS, RS) for c in "RZ"}      # bilinear interpolant of a plane, periodic in z


def r_(f, *a):
    return S(f(*[z(v, "i") if f.domain(n) == IS else z(v, "r") for n, v in enumerate(a)]), "b" if f.range() == BS else "r")


def plane_class(base, rect):
    class Pol(base):
        def __init__(self, j, nx, nz):
            self.j, self.nx, self.nz = j, nx, nz
            self.R = make((nx, nz), "r", lambda i: r_(PT["R"], i[0], self.j, i[1]))
            self.Z = make((nx, nz), "r", lambda i: r_(PT["Z"], i[0], self.j, i[1]))

        def findIndex(self, R, Z, *a, **k):
            out = [elementwise(lambda p, q, c=c: r_(FI[c], self.j, p, q), R, Z, k="r") for c in "xz"]
            return out[0].copy(), out[1].copy()

        def getCoordinate(self, x, w, dx=0, dz=0):
            if dx or dz:
                raise Unsupported("derivative")
            return tuple(elementwise(lambda p, q, c=c: r_(CO[c], self.j, p, q), x, w, k="r") for c in "RZ")

        def metric(self):
            if rect:
                return dict(g_xx=1.0, g_zz=1.0, g_xz=0.0, gxx=1.0, gzz=1.0, gxz=0.0)
            return {n: make((self.nx, self.nz), "r", lambda i, n=n: r_(PT[n], i[0], self.j, i[1])) for n in ("g_xx", "g_xz", "g_zz")}

        def __pv_subst__(self, pairs):
            return Pol(subst_value(self.j, pairs), self.nx, self.nz)

        def __pv_merge__(self, pairs):
            raise Unsupported("merge of planes")

    return Pol


class StubGrid:
    def __init__(self, P, nx, ny, nz, per):
        self.P, self.shape, self.per, self.yperiodic = P, (nx, ny, nz), per, per
        self.Ly = reals("Ly")[0]

    def numberOfPoloidalGrids(self):
        return self.shape[1]

    def plane(self, j):
        ny = self.shape[1]
        return j % ny if self.per else j

    def getPoloidalGrid(self, j):
        nx, ny, nz = self.shape
        jf = core.const_value(j) if isinstance(j, S) else j
        if isinstance(j, S) and j.k == "r":
            # j + 1/2 or j - 1/2: coordinate half way, no grid
            b = core.to_int(j - 0.5)
            if not CTX().provable(j == b + 0.5):
                raise Unsupported("fractional index")
            return None, (r_(YC, b) + r_(YC, b + 1)) * 0.5
        y = r_(YC, j)
        if CTX().provable(land(j >= 0, j < ny)):
            return self.P(j, nx, nz), y
        if not self.per:
            if land(j >= 0, j < ny):
                return self.P(j, nx, nz), y
            return None, y
        return self.P(j % ny, nx, nz), y


class Tracer:
    def __init__(self):
        self.rtol = []

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        self.rtol.append(rtol)
        ys = list(y_values) if not isinstance(y_values, SArray) else [y_values.at((i,)) for i in range(concrete_int(y_values.shape[0]))]
        X, Z = asarr(x_values), asarr(z_values)
        rx, rz = X.reader(), Z.reader()

        def fn(idx):
            a, b = rx(idx[1:-1]), rz(idx[1:-1])
            out = None
            for n, y in enumerate(ys):
                if concrete_int(idx[0]) is not None and concrete_int(idx[0]) != n:
                    continue
                vx, vz = (a, b) if n == 0 else (r_(FL["x"], a, b, ys[0], y), r_(FL["z"], a, b, ys[0], y))
                c = concrete_int(idx[-1])
                v = vx if c == 0 else (vz if c == 1 else ite(idx[-1] == 0, vx, vz))
                out = v if out is None else ite(idx[0] == n, v, out)
            return out

        return make((len(ys),) + tuple(X.shape) + (2,), "r", fn)


class Bilinear:
    """contract of RegularGridInterpolator on unit-spaced nodes: bilinear, extrapolating"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=float("nan")):
        if bounds_error or fill_value is not None or method != "linear":
            raise Unsupported("interpolator options")
        self.p, self.v = [asarr(q) for q in points], asarr(values)
        self.src = self.periodic_plane()

    def periodic_plane(self):
        """(component, plane) if the data are the points of a plane on nodes 0..nx-1, continued
        periodically by one point at each end in z; the interpolant is then a function BL of the plane"""
        nx, nz = ints("nx", "nz")
        a, b = ints("node_a", "node_b")
        t = z3.simplify(z(self.v.at((S(z3.IntVal(0), "i"), S(z3.IntVal(1), "i"))), "r"))
        apps, stack = {}, [t]
        while stack:
            u = stack.pop()
            for c in "RZ":
                if z3.is_app(u) and u.decl().eq(PT[c]):
                    apps[c, u.arg(1).get_id()] = u.arg(1)
            stack.extend(u.children())
        for (c, _), J in apps.items():
            J = S(J, "i")
            inr = land(a >= 0, a < nx, b >= 0, b < nz + 2)
            ctx = CTX()
            if all(ctx.provable(implies(inr, g)) for g in (
                    self.p[0].shape[0] == nx, self.p[1].shape[0] == nz + 2, self.v.shape[0] == nx, self.v.shape[1] == nz + 2,
                    self.p[0].at((a,)) == a, self.p[1].at((b,)) == b - 1,
                    self.v.at((a, b)) == r_(PT[c], a, J, ite(b == 0, nz - 1, ite(b == nz + 1, 0, b - 1))))):
                return c, J
        raise Unsupported("interpolation on other nodes")

    def __call__(self, xi):
        return elementwise(lambda x, w: r_(BL[self.src[0]], self.src[1], x, w), *xi, k="r")


LEN = {}


def length(coords, ys, refine=100):
    """contract of field_line_length: a function of the points of each line"""
    n = concrete_int(coords.shape[0])
    if n not in LEN:
        LEN[n] = z3.Function(f"LEN{n}", *([RS] * (3 * n + 1)))
    rd = coords.reader()
    y = [ys.at((i,)) for i in range(n)]
    return make(tuple(coords.shape[1:-1]), "r",
                lambda idx: r_(LEN[n], *[v for i in range(n) for v in (rd((i,) + tuple(idx) + (0,)), rd((i,) + tuple(idx) + (1,)), y[i])]))


def build(rect):
    interp = Stub("scipy.interpolate", RegularGridInterpolator=Bilinear)

    def roots(n, a, b):
        xs = reals(*[f"gx{i}" for i in range(n)])
        ws = reals(*[f"gw{i}" for i in range(n)])
        c = CTX()
        for x, w in zip(xs, ws):
            c.assume(land(x > -1, x < 1, w > 0))
        for i in range(n - 1):
            c.assume(xs[i] < xs[i + 1])
        c.assume(sum(ws[1:], ws[0]) == 2)
        return asarr(xs), asarr(ws)

    special = Stub("scipy.special", roots_jacobi=roots)
    w = world(**{"scipy.special": special})
    w.stubs["scipy"].__dict__.update(interpolate=interp, special=special)
    w.stubs["scipy.interpolate"] = interp
    m = w.load("zoidberg")
    if not hasattr(m, "make_maps"):
        raise Unsupported("make_maps")
    if hasattr(m, "field_line_length"):
        m.field_line_length = length
    pm = w.load("poloidal_grid")
    base = pm.RectangularPoloidalGrid if rect else pm.StructuredPoloidalGrid
    P = plane_class(base, rect)
    U = field_class(w.load("field"), True, False)

    class B:
        def outside(self, x, y, w):
            return elementwise(lambda a, b, c: r_(OUT, a, b, c), x, y, w, k="b")

    U.boundary = B()
    return m, P, U


def run_maps(m, P, U, per, nslice, samples, refine, chunks, box):
    nx, ny, nz = ints("nx", "ny", "nz")
    c = CTX()
    c.assume(land(nx >= 2, ny >= 1, nz >= 2))
    t = Tracer()
    tol = reals("rtol")[0]
    box.update(t=t, tol=tol)
    return m.make_maps(StubGrid(P, nx, ny, nz, per), U(), nslice=nslice, quiet=True, field_tracer=t, samples_per_dim=samples,
                       refine_parallel_integral=refine, n_chunks=chunks, rtol=tol)
