"""C07: Grid.getPoloidalGrid for any number of planes and any real index."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, floor, to_int
from pyvc.arrays import SSeq, input_array
from pyvc.harness import ints, reals


class Pol:
    """a plane: only its identity (index) matters"""

    def __init__(self, i, nx, nz):
        self.i, self.nx, self.nz = i, nx, nz

    def __pv_subst__(self, pairs):
        from pyvc.core import subst_value
        return Pol(subst_value(self.i, pairs), self.nx, self.nz)


def Yint(k, ny, Ly, y, per):
    """specification: coordinate at integer index k"""
    q = floor(k / ny, as_int=True)
    r = k - q * ny
    if per:
        return y(r) + q * Ly
    return ite(k < 0, 0, ite(k >= ny, Ly, y(ite(land(k >= 0, k < ny), k, 0))))


def proofs(h):
    m = loader.World().load("grid")
    for per in (True, False):
        for kind in ("integer", "real"):
            unit(h, m, per, kind)
    lemma(h)


def c_near(t):
    d = t - to_int(t)
    return CTX().provable(land(d <= 1e-6, d >= -1e-6))


def unit(h, m, per, kind):
    box = {}

    def run():
        nx, ny, nz, k = ints("nx", "ny", "nz", "k")
        (Ly,) = reals("Ly")
        c = CTX()
        for a in (nx, ny, nz):
            c.assume(a >= 1)
        c.assume(Ly > 0)
        y = input_array("y", (ny,))
        g = m.Grid(SSeq(ny, lambda i: Pol(i, nx, nz)), y, Ly, yperiodic=per)
        box.update(g=g, y=y)
        idx = k if kind == "integer" else reals("t")[0]
        return g.getPoloidalGrid(idx), g.shape, g.numberOfPoloidalGrids()

    def post(o):
        if not h.must_return(o):
            return
        nx, ny, nz, k = ints("nx", "ny", "nz", "k")
        Ly, t = reals("Ly", "t")
        (pol, yy), shape, n = o.value
        Y = lambda i: box["y"].at((i,))
        h.prove("shape is (nx, ny, nz)", land(shape[0] == nx, shape[1] == ny, shape[2] == nz, n == ny))
        if kind == "integer":
            kk = k
            hyp = []
        else:
            b = floor(t, as_int=True)
            kk = ite(t - b <= 0.5, b, b + 1)
            d = t - kk
            near = land(d <= 1e-6, d >= -1e-6)
            if pol is None:
                lo, hi = Yint(b, ny, Ly, Y, per), Yint(b + 1, ny, Ly, Y, per)
                if c_near(t):
                    h.prove("near index outside the domain: the end of the domain", land(not per, to_int(t) == kk,
                            yy == Yint(to_int(t), ny, Ly, Y, per)))
                    return
                # the neighbours' quotients and remainders, as lemmas
                h.prove("fractional index: linear interpolation between the neighbours",
                        yy == lo + (hi - lo) * (t - b))
                return
            h.prove("only an index within 1e-6 of an integer returns a grid", near)
            h.prove("truncation is the nearest integer", to_int(t) == kk)
            kk = to_int(t)
            hyp = [near]
        if pol is None:
            h.prove("no grid only outside a non-periodic domain", land(not per, lor(kk < 0, kk >= ny)), hyp)
        else:
            q = floor(kk / ny, as_int=True)
            h.prove("the plane is the one at the index (modulo ny)", land(pol.i == (kk - q * ny), True if per else land(kk >= 0, kk < ny)), hyp)
        h.prove("coordinate of the plane, shifted by whole periods", yy == Yint(kk, ny, Ly, Y, per), hyp)

    h.unit(f"getPoloidalGrid ({'periodic' if per else 'not periodic'}, {kind} index)", run, post,
           ["grid.Grid.__init__", "grid.Grid.getPoloidalGrid", "grid.Grid.numberOfPoloidalGrids"])


def lemma(h):
    """the coordinate never decreases with the index: over the contract above"""
    def run():
        return 0

    def post(o):
        ny, k = ints("ny", "k")
        Ly, t, u = reals("Ly", "t", "u")
        c = CTX()
        c.assume(land(ny >= 1, Ly > 0))
        y = input_array("y", (ny,))
        Y = lambda i: y.at((i,))
        i, j = z3.Ints("li lj")
        I, J = S(i, "i"), S(j, "i")
        c.assume(S(z3.ForAll([i, j], z(implies(land(I >= 0, I < J, J < ny), Y(I) <= Y(J)), "b")), "b"))
        c.assume(S(z3.ForAll([i], z(implies(land(I >= 0, I < ny), land(Y(I) >= 0, Y(I) <= Ly)), "b")), "b"))
        for per in (True, False):
            a, b = Yint(k, ny, Ly, Y, per), Yint(k + 1, ny, Ly, Y, per)
            q = floor(k / ny, as_int=True)
            r = k - q * ny
            if per:
                # quotient of k+1: the same, or one more when k ends a period
                h.prove("quotient of the next index", floor((k + 1) / ny, as_int=True) == ite(r == ny - 1, q + 1, q))
                h.prove("periodic: next coordinate is not smaller", a <= b,
                        [floor((k + 1) / ny, as_int=True) == ite(r == ny - 1, q + 1, q), land(r >= 0, r < ny)])
                h.prove("remainder in range", land(r >= 0, r < ny))
            else:
                h.prove("not periodic: next coordinate is not smaller", a <= b)
        lo, hi = reals("lo", "hi")
        f = lambda s: lo + (hi - lo) * (s - k)
        h.prove("interpolation does not decrease within a step", land(f(t) <= f(u), lo <= f(t), f(u) <= hi),
                [lo <= hi, k <= t, t <= u, u <= k + 1])

    h.unit("coordinate never decreases (lemma over the contract)", run, post, [])
    h.assume("planes are sorted in y with coordinates in [0, Ly]")
