"""C10: poloidal metrics and the 3D metric, all sizes symbolic; splines uninterpreted."""
import z3
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, subst_value
from pyvc.arrays import SSeq, input_array, SArray, asarr
from pyvc.harness import ints, reals
from props.pgrid import world, spline_fun

NAMES = ["gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz"]


def val(v, idx):
    return v.at(idx) if isinstance(v, SArray) and v.ndim else (v.at(()) if isinstance(v, SArray) else v)


def inverse(h, m, idx, hy):
    g = {k: val(m[k], idx) for k in NAMES}
    det = g["g_xx"] * g["g_zz"] - g["g_xz"] * g["g_xz"]
    h.prove("covariant and contravariant components are inverse: xx", g["gxx"] * g["g_xx"] + g["gxz"] * g["g_xz"] == 1, hy)
    h.prove("covariant and contravariant components are inverse: zz", g["gxz"] * g["g_xz"] + g["gzz"] * g["g_zz"] == 1, hy)
    h.prove("covariant and contravariant components are inverse: xz", g["gxx"] * g["g_xz"] + g["gxz"] * g["g_zz"] == 0, hy)
    h.prove("covariant and contravariant components are inverse: zx", g["gxz"] * g["g_xx"] + g["gzz"] * g["g_xz"] == 0, hy)
    return g, det


def proofs(h):
    w = world()
    m = w.load("poloidal_grid")
    rect(h, m)
    struct(h, m)
    gm = w.load("grid")
    for has_j in (False, True):
        for one in (False, True):
            grid3(h, gm, has_j, one)
    h.assume("RectBivariateSpline returns the derivatives of one smooth function (the values themselves are uninterpreted)",
             "structured grids: the Jacobian of the coordinate map does not vanish at a grid point")


def rect(h, m):
    def run():
        nx, nz, mxg = ints("nx", "nz", "mxg")
        Lx, Lz, Rc, Zc = reals("Lx", "Lz", "Rc", "Zc")
        CTX().assume(land(mxg >= 0, nx > 2 * mxg, nz >= 1, Lx > 0, Lz > 0))
        g = m.RectangularPoloidalGrid(nx, nz, Lx, Lz, Rc, Zc, MXG=mxg)
        x, w = reals("x", "w")
        return g.metric(), g.getCoordinate(x, w, dx=1), g.getCoordinate(x, w, dz=1)

    def post(o):
        if not h.must_return(o):
            return
        d, (rx, zx), (rz, zz) = o.value
        rx, zx, rz, zz = [val(v, ()) for v in (rx, zx, rz, zz)]
        g, det = inverse(h, d, (), [])
        dx, dz = val(d["dx"], ()), val(d["dz"], ())
        h.prove("positive definite", land(g["g_xx"] > 0, g["g_zz"] > 0, det > 0))
        h.prove("g_xx dx^2 is the squared step in x", g["g_xx"] * dx * dx == rx * rx + zx * zx)
        h.prove("g_zz dz^2 is the squared step in z", g["g_zz"] * dz * dz == rz * rz + zz * zz)
        h.prove("g_xz dx dz is the product of the steps", g["g_xz"] * dx * dz == rx * rz + zx * zz)

    h.unit("RectangularPoloidalGrid.metric", run, post, ["poloidal_grid.RectangularPoloidalGrid.metric", "poloidal_grid.RectangularPoloidalGrid.getCoordinate"])


def struct(h, m):
    def run():
        nx, nz = ints("nx", "nz")
        c = CTX()
        c.assume(land(nx >= 2, nz >= 2))
        R, Z = input_array("R", (nx, nz)), input_array("Z", (nx, nz))
        g = m.StructuredPoloidalGrid(R, Z)
        i, j = z3.Ints("bi bj")
        I, J = S(i, "i"), S(j, "i")
        a, b, cc, d = deriv(I, J)
        c.assume(S(z3.ForAll([i, j], z(implies(land(I >= 0, I < nx, J >= 0, J < nz), lnot(a * d - b * cc == 0)), "b")), "b"))
        return g.metric(), g

    def deriv(i, j):
        """Rx, Zx, Rz, Zz at a grid point"""
        nz = ints("nz")[0]
        f = lambda n, a, b: S(spline_fun(n, a, b)(z(i, "r"), z(j + nz, "r")), "r")
        return f("R", 1, 0), f("Z", 1, 0), f("R", 0, 1), f("Z", 0, 1)

    def post(o):
        if not h.must_return(o):
            return
        d, grid = o.value
        nx, nz, i, j = ints("nx", "nz", "i", "j")
        inr = land(i >= 0, i < nx, j >= 0, j < nz)
        hy = [inr]
        rx, zx, rz, zz = deriv(i, j)
        dx, dz = val(d["dx"], (i, j)), val(d["dz"], (i, j))
        g = {k: val(d[k], (i, j)) for k in NAMES}
        h.prove("spacings are positive", land(dx > 0, dz > 0), hy)
        h.prove("g_xx dx^2 is the squared step in x", g["g_xx"] * dx * dx == rx * rx + zx * zx, hy)
        h.prove("g_zz dz^2 is the squared step in z", g["g_zz"] * dz * dz == rz * rz + zz * zz, hy)
        h.prove("g_xz dx dz is the product of the steps", g["g_xz"] * dx * dz == rx * rz + zx * zz, hy)
        h.prove("shape", land(len(d["g_xx"].shape) == 2, d["g_xx"].shape[0] == nx, d["g_xx"].shape[1] == nz))
        q = rx * zz - rz * zx
        det = g["g_xx"] * g["g_zz"] - g["g_xz"] * g["g_xz"]
        h.prove("Jacobian does not vanish (precondition at this point)", lnot(q == 0), hy)
        h.prove("det g times (dx dz)^2 is the squared Jacobian", det * dx * dx * dz * dz == q * q, hy)
        # positive definite, from the four identities above (A = g_xx, B = g_xz, C = g_zz)
        A, B, C, X, Z_, a, b, c, e = reals("A", "B", "C", "X", "Z_", "a_", "b_", "c_", "e_")
        iso = [X > 0, Z_ > 0, lnot(a * e - c * b == 0), A * X * X == a * a + b * b, C * Z_ * Z_ == c * c + e * e]
        h.prove("lemma: g_xx is positive", A > 0, iso, isolated=True)
        h.prove("lemma: g_zz is positive", C > 0, iso, isolated=True)
        D, Q = reals("D", "Q")
        h.prove("lemma: det g is positive", D > 0, [X > 0, Z_ > 0, lnot(Q == 0), D * X * X * Z_ * Z_ == Q * Q], isolated=True)
        inverse(h, d, (i, j), hy + [det > 0])

    h.unit("StructuredPoloidalGrid.metric", run, post,
           ["poloidal_grid.StructuredPoloidalGrid.__init__", "poloidal_grid.StructuredPoloidalGrid.metric", "poloidal_grid.StructuredPoloidalGrid.getCoordinate"])


def arr3(name):
    return z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())


class Plane:
    def __init__(self, j, nx, nz, has_j):
        self.j, self.nx, self.nz, self.has_j = j, nx, nz, has_j

    def metric(self):
        from pyvc.arrays import make
        out = {}
        for k in NAMES + ["dx", "dz"] + (["J"] if self.has_j else []):
            out[k] = make((self.nx, self.nz), "r", lambda idx, k=k: S(arr3("P_" + k)(z(idx[0]), z(self.j, "i"), z(idx[1])), "r"))
        return out

    def __pv_subst__(self, pairs):
        return Plane(subst_value(self.j, pairs), self.nx, self.nz, self.has_j)


def grid3(h, gm, has_j, one):
    def run():
        nx, ny, nz = ints("nx", "ny", "nz")
        Ly = reals("Ly")[0]
        c = CTX()
        c.assume(land(nx >= 1, nz >= 1, Ly > 0))
        if one:
            ny = 1
        else:
            c.assume(ny >= 2)
        y = input_array("y", (ny,))
        g = gm.Grid(SSeq(ny, lambda j: Plane(j, nx, nz, has_j)) if not one else [Plane(S(z3.IntVal(0), "i"), nx, nz, has_j)], y, Ly)
        return g.metric(), g.metric(), y, ny

    def post(o):
        if not h.must_return(o):
            return
        d, d2, y, ny = o.value
        nx, nz, i, j, k = ints("nx", "nz", "i", "j", "k")
        Ly = reals("Ly")[0]
        hy = [land(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz)]
        names = NAMES + ["dx", "dz"] + (["J"] if has_j else [])
        for n in names:
            h.prove(f"{n} holds the value of its own plane", d[n].at((i, j, k)) == S(arr3("P_" + n)(z(i), z(j), z(k)), "r"), hy)
            h.prove(f"{n} on a second call", d2[n].at((i, j, k)) == d[n].at((i, j, k)), hy)
        h.prove("components", ("J" in d) == has_j)
        h.prove("unit y components", land(d["g_yy"].at((i, j, k)) == 1, d["gyy"].at((i, j, k)) == 1), hy)
        Y = lambda a: y.at((a,))
        if one:
            exp = Ly
        else:
            exp = ite(j == 0, Y(ite(j == 0, 1, j)) - Y(0), ite(j == ny - 1, Y(ny - 1) - Y(ny - 2), (Y(ite(j < ny - 1, j + 1, j)) - Y(ite(j > 0, j - 1, 0))) / 2))
        h.prove("dy is the local spacing of the y coordinates", d["dy"].at((i, j, k)) == exp, hy)
        h.prove("shape", land(*[a == b for a, b in zip(d["dy"].shape, (nx, ny, nz))], len(d["dy"].shape) == 3))

    h.unit(f"Grid.metric ({'one plane' if one else 'ny >= 2'}{', J given' if has_j else ''})", run, post, ["grid.Grid.metric", "grid.Grid.getPoloidalGrid"])
