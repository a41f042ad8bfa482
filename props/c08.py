"""C08: RectangularPoloidalGrid and rectangular_grid, all sizes and coordinates symbolic."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import input_array
from pyvc.harness import ints, reals


def sizes(c):
    nx, nz, mxg = ints("nx", "nz", "mxg")
    Lx, Lz, Rc, Zc = reals("Lx", "Lz", "Rc", "Zc")
    c.assume(land(mxg >= 0, nx > 2 * mxg, nz >= 1, Lx > 0, Lz > 0))
    return nx, nz, mxg, Lx, Lz, Rc, Zc


def spec(nx, nz, mxg, Lx, Lz, Rc, Zc):
    dR, dZ = Lx / (nx - 2 * mxg), Lz / nz
    return dR, dZ, (lambda x: Rc + dR * (x - (nx - 1) / 2)), (lambda w: Zc + dZ * (w - (nz - 1) / 2))


def proofs(h):
    m = loader.World().load("poloidal_grid")
    P = m.RectangularPoloidalGrid

    def grid():
        nx, nz, mxg, Lx, Lz, Rc, Zc = a = sizes(CTX())
        return P(nx, nz, Lx, Lz, Rc, Zc, MXG=mxg), a

    # coordinates, and the stored points
    def run():
        g, a = grid()
        n, (x,), (w,) = ints("n")[0], reals("x"), reals("w")
        CTX().assume(n >= 0)
        xs, zs = input_array("xs", (n,)), input_array("zs", (n,))
        return g, a, g.getCoordinate(x, w), g.getCoordinate(xs, zs), xs, zs

    def post(o):
        if not h.must_return(o):
            return
        g, a, (r, s), (ra, sa), xs, zs = o.value
        nx, nz, mxg, Lx, Lz, Rc, Zc = a
        dR, dZ, fR, fZ = spec(*a)
        x, w = reals("x", "w")
        i, j, n = ints("i", "j", "n")
        val = lambda v: v.at(()) if hasattr(v, "at") else v
        h.prove("R of any real index", val(r) == fR(x))
        h.prove("Z of any real index", val(s) == fZ(w))
        hy = [land(i >= 0, i < n)]
        h.prove("same for arrays", land(ra.at((i,)) == fR(xs.at((i,))), sa.at((i,)) == fZ(zs.at((i,)))), hy)
        h.prove("array result has the shape of the indices", land(len(ra.shape) == 1, ra.shape[0] == n))
        h.prove("shape of the points", land(len(g.R.shape) == 2, g.R.shape[0] == nx, g.R.shape[1] == nz, g.Z.shape[0] == nx, g.Z.shape[1] == nz))
        inr = land(i >= 0, i < nx, j >= 0, j < nz)
        h.prove("stored R is the coordinate of its index", g.R.at((i, j)) == fR(i), [inr])
        h.prove("stored Z is the coordinate of its index", g.Z.at((i, j)) == fZ(j), [inr])
        h.prove("points are centred in R", fR(0) + fR(nx - 1) == 2 * Rc)
        h.prove("points are centred in Z", fZ(0) + fZ(nz - 1) == 2 * Zc)
        h.prove("edges lie half a cell outside the non-guard points", land(fR(mxg - 0.5) == Rc - Lx / 2, fR(nx - mxg - 0.5) == Rc + Lx / 2))
        h.prove("edges in z", land(fZ(-0.5) == Zc - Lz / 2, fZ(nz - 0.5) == Zc + Lz / 2))

    h.unit("getCoordinate", run, post, ["poloidal_grid.RectangularPoloidalGrid.__init__", "poloidal_grid.RectangularPoloidalGrid.getCoordinate"])

    # round trips
    def run2():
        g, a = grid()
        x, w, R, Z = reals("x", "w", "R", "Z")
        n = ints("n")[0]
        CTX().assume(n >= 0)
        Ra, Za = input_array("Ra", (n,)), input_array("Za", (n,))
        return (g.findIndex(*g.getCoordinate(x, w)), g.getCoordinate(*g.findIndex(R, Z)), g.findIndex(Ra, Za), Ra, Za, a)

    def post2(o):
        if not h.must_return(o):
            return
        (x2, w2), (R2, Z2), (xa, za), Ra, Za, a = o.value
        x, w, R, Z = reals("x", "w", "R", "Z")
        i, n = ints("i", "n")
        dR, dZ, fR, fZ = spec(*a)
        val = lambda v: v.at(()) if hasattr(v, "at") else v
        h.prove("index to coordinate to index, x", val(x2) == x)
        h.prove("index to coordinate to index, z", val(w2) == w)
        h.prove("coordinate to index to coordinate, R", val(R2) == R)
        h.prove("coordinate to index to coordinate, Z", val(Z2) == Z)
        hy = [land(i >= 0, i < n)]
        h.prove("array of coordinates: x index", fR(xa.at((i,))) == Ra.at((i,)), hy)
        h.prove("array of coordinates: z index", fZ(za.at((i,))) == Za.at((i,)), hy)

    h.unit("findIndex", run2, post2, ["poloidal_grid.RectangularPoloidalGrid.findIndex", "poloidal_grid.RectangularPoloidalGrid.getCoordinate"])

    # derivatives of any order
    def run3():
        g, a = grid()
        n, ox, oz = ints("n", "ox", "oz")
        CTX().assume(land(n >= 0, ox >= 0, oz >= 0, ox + oz >= 1))
        xs, zs = input_array("xs", (n,)), input_array("zs", (n,))
        return g.getCoordinate(xs, zs, dx=ox, dz=oz), a

    def post3(o):
        if not h.must_return(o):
            return
        (r, s), a = o.value
        dR, dZ, _, _ = spec(*a)
        i, n, ox, oz = ints("i", "n", "ox", "oz")
        hy = [land(i >= 0, i < n)]
        h.prove("derivative of R", r.at((i,)) == ite(land(ox == 1, oz == 0), dR, 0), hy)
        h.prove("derivative of Z", s.at((i,)) == ite(land(ox == 0, oz == 1), dZ, 0), hy)
        h.prove("shape of the derivative", land(r.shape[0] == n, s.shape[0] == n, len(r.shape) == 1, len(s.shape) == 1))

    h.unit("getCoordinate, derivatives", run3, post3, ["poloidal_grid.RectangularPoloidalGrid.getCoordinate"])

    # the 3D grid
    w = loader.World()
    gm = w.load("grid")
    for per in (True, False):
        def run4(per=per):
            nx, ny, nz = ints("nx", "ny", "nz")
            Lx, Ly, Lz, xc, zc = reals("Lx", "Ly", "Lz", "xc", "zc")
            CTX().assume(land(nx > 4, ny >= 1, nz >= 1, Lx > 0, Ly > 0, Lz > 0))
            return gm.rectangular_grid(nx, ny, nz, Lx=Lx, Ly=Ly, Lz=Lz, xcentre=xc, zcentre=zc, yperiodic=per)

        def post4(o, per=per):
            if not h.must_return(o):
                return
            g = o.value
            nx, ny, nz, j, i, k = ints("nx", "ny", "nz", "j", "i", "k")
            Lx, Ly, Lz, xc, zc = reals("Lx", "Ly", "Lz", "xc", "zc")
            hy = [land(j >= 0, j < ny)]
            h.prove("y planes are equally spaced", g.ycoords.at((j,)) == (j if per else j + 0.5) * Ly / ny, hy)
            h.prove("sizes", land(g.shape[0] == nx, g.shape[1] == ny, g.shape[2] == nz, g.Ly == Ly, g.yperiodic == per, g.ycoords.shape[0] == ny))
            p = g.poloidal_grids[0]
            _, _, fR, fZ = spec(nx, nz, S(z3.IntVal(2), "i"), Lx, Lz, xc, zc)
            inr = land(i >= 0, i < nx, k >= 0, k < nz)
            h.prove("every plane has the points of the domain", land(p.R.at((i, k)) == fR(i), p.Z.at((i, k)) == fZ(k)), [inr])

        h.unit(f"rectangular_grid ({'periodic' if per else 'not periodic'})", run4, post4, ["grid.rectangular_grid", "grid.Grid.__init__"])
