"""C11: get_metric for arbitrary grids and fields, all sizes symbolic."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, subst_value
from pyvc.arrays import SSeq, input_array, SArray, make, elementwise
from pyvc.harness import ints, reals
from props.c15 import F, app, field_class
from props.pgrid import world

PERP = ["gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "dx", "dy", "dz"]
IS, RS = z3.IntSort(), z3.RealSort()
G3 = lambda n: z3.Function("G_" + n, IS, IS, IS, RS)
PR = z3.Function("Fp", RS, RS, RS, RS)


class Pol:
    def __init__(self, j, nx, nz):
        self.j, self.nx, self.nz = j, nx, nz
        self.R = make((nx, nz), "r", lambda i: S(G3("R")(z(i[0]), z(self.j, "i"), z(i[1])), "r"))
        self.Z = make((nx, nz), "r", lambda i: S(G3("Z")(z(i[0]), z(self.j, "i"), z(i[1])), "r"))

    def __pv_subst__(self, pairs):
        return Pol(subst_value(self.j, pairs), self.nx, self.nz)


class StubGrid:
    """the contract of Grid (C07, C10): metric() hands out its cached arrays"""

    def __init__(self, nx, ny, nz):
        self.shape = (nx, ny, nz)
        self.ycoords = input_array("y", (ny,))
        self.Ly = reals("Ly")[0]
        self.poloidal_grids = SSeq(ny, lambda j: Pol(j, nx, nz))
        self.cache = {n: make((nx, ny, nz), "r", lambda i, n=n: S(G3(n)(*[z(v) for v in i]), "r")) for n in PERP}
        self.cache["gyy"] = make((nx, ny, nz), "r", lambda i: S(z3.RealVal(1), "r"))
        self.cache["g_yy"] = make((nx, ny, nz), "r", lambda i: S(z3.RealVal(1), "r"))

    def numberOfPoloidalGrids(self):
        return self.shape[1]

    def getPoloidalGrid(self, j):
        # precondition of this contract: 0 <= j < ny
        if not CTX().provable(land(j >= 0, j < self.shape[1])):
            raise Unsupported("plane outside the grid")
        return Pol(j, self.shape[0], self.shape[2]), self.ycoords.at((j,))

    def metric(self):
        return self.cache


def proofs(h):
    w = world()
    m = w.load("zoidberg")
    fm = w.load("field")
    if not hasattr(m, "get_metric"):
        raise Unsupported("get_metric")
    for cyl in (False, True):
        unit(h, m, fm, cyl)
    h.assume("B and By do not vanish at the grid points", "Grid enters by its contract (C07, C10)")


def unit(h, m, fm, cyl):
    U = field_class(fm, cyl, False)
    U.pressure = lambda self, x, w, phi: elementwise(lambda a, b, c: S(PR(z(a, "r"), z(b, "r"), z(c, "r")), "r"), x, w, phi, k="r")

    def run():
        nx, ny, nz = ints("nx", "ny", "nz")
        CTX().assume(land(nx >= 1, ny >= 1, nz >= 1))
        g = StubGrid(nx, ny, nz)
        f = U()
        a, ba = m.get_metric(g, f)
        b, bb = m.get_metric(g, f)
        return g, a, ba, b, bb

    def post(o):
        if not h.must_return(o):
            return
        g, a, ba, b, bb = o.value
        nx, ny, nz, i, j, k = ints("nx", "ny", "nz", "i", "j", "k")
        p = (i, j, k)
        hy = [land(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz)]
        ref = lambda n: S(G3(n)(z(i), z(j), z(k)), "r")
        y = g.ycoords.at((j,))
        fv = lambda n: S(F[n](z(ref("R")), z(ref("Z")), z(y)), "r")
        for n in PERP:
            h.prove(f"{n} is that of the grid", a[n].at(p) == ref(n), hy)
            h.prove(f"the grid's own {n} is unchanged", g.cache[n].at(p) == ref(n), hy)
            h.prove(f"{n} on a second call", b[n].at(p) == ref(n), hy)
        for n in ("gyy", "g_yy"):
            h.prove(f"the grid's own {n} is unchanged", g.cache[n].at(p) == 1, hy)
        h.prove("no components added to the grid's own metric", set(g.cache) == set(PERP) | {"gyy", "g_yy"})
        B2 = fv("x") * fv("x") + fv("y") * fv("y") + fv("z") * fv("z")
        R = fv("r") if cyl else 1
        nz_ = [lnot(fv("y") == 0), B2 > 0] + ([lnot(fv("r") == 0)] if cyl else [])
        for q, lab in ((a, ""), (b, ", second call")):
            Bv = q["B"].at(p)
            h.prove("B is the magnitude of the field" + lab, land(Bv * Bv == B2, Bv >= 0, q["Bxy"].at(p) == Bv), hy)
            h.prove("pressure of the field" + lab, q["pressure"].at(p) == S(PR(z(ref("R")), z(ref("Z")), z(y)), "r"), hy)
            h.prove("g_yy is (R B/By)^2" + lab, q["g_yy"].at(p) * fv("y") * fv("y") == R * R * B2, hy + nz_)
            h.prove("gyy is the inverse of g_yy" + lab, q["gyy"].at(p) * q["g_yy"].at(p) == 1, hy + nz_ + [lnot(Bv == 0)])
        h.prove("B does not vanish (side condition)", lnot(a["B"].at(p) == 0), hy + nz_ + [a["B"].at(p) * a["B"].at(p) == B2])

    h.unit(f"get_metric ({'cylindrical' if cyl else 'Cartesian'})", run, post, ["zoidberg.get_metric", "field.MagneticField.Bmag"])
