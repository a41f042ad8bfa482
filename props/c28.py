"""C28: boundary objects, any number of points; polygons with symbolic vertices."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, big_sum, apply_lam
from pyvc.arrays import input_array, SArray, asarr, reduce_ext
from pyvc.harness import ints, reals, _top_sums


def proofs(h):
    m = loader.World().load("boundary")
    for nd in (1, 2, 3):
        simple(h, m, nd)
    for nd in (1, 2):
        polygon_any(h, m, nd)
    polygon(h, m, 3)
    h.assume("even-odd rule: a point is enclosed by a simple polygon exactly when an upward ray from it crosses the closed edge loop an odd "
             "number of times, an edge including one of its two end points (Jordan curve theorem for polygons)",
             "points exactly on an edge are not specified")


def dims(c, nd):
    sh = ints("n0", "n1", "n2")[:nd]
    c.assume(land(*[s >= 1 for s in sh]))
    return tuple(sh)


def points(c, nd):
    sh = dims(c, nd)
    return sh, [input_array(n, sh, "r") for n in ("px", "py", "pz")]


def idx(nd):
    sh = ints("n0", "n1", "n2")[:nd]
    p = ints("i0", "i1", "i2")[:nd]
    return tuple(p), [land(*[land(a >= 0, a < s) for a, s in zip(p, sh)])]


def truth(v):
    if isinstance(v, bool):
        return S(z3.BoolVal(v), "b")
    return v


def shaped(h, r, nd):
    sh = ints("n0", "n1", "n2")[:nd]
    r = asarr(r)
    h.prove("shape of the points", land(len(r.shape) == nd, *[a == b for a, b in zip(r.shape, sh)]))
    return r


def simple(h, m, nd):
    def run():
        c = CTX()
        _, (x, y, zz) = points(c, nd)
        return m.NoBoundary().outside(x, y, zz)

    def post(o):
        if not h.must_return(o):
            return
        r = shaped(h, o.value, nd)
        p, hy = idx(nd)
        h.prove("no point is outside", lnot(truth(r.at(p))), hy)

    h.unit(f"NoBoundary (rank {nd})", run, post, ["boundary.NoBoundary.outside"])

    def run():
        c = CTX()
        x0, x1, z0, z1 = reals("x0", "x1", "z0", "z1")
        sh, (x, y, zz) = points(c, nd)
        b = m.RectangularBoundaryXZ(x0, x1, z0, z1)
        return b.outside(x, y, zz), (x, zz)

    def post(o):
        if not h.must_return(o):
            return
        r, (x, zz) = o.value
        r = shaped(h, r, nd)
        p, hy = idx(nd)
        x0, x1, z0, z1 = reals("x0", "x1", "z0", "z1")
        a, b = x.at(p), zz.at(p)
        out = lor(a < x0, a > x1, b < z0, b > z1)
        h.prove("outside exactly when beyond one of the four sides", truth(r.at(p)) == out, hy)

    h.unit(f"RectangularBoundaryXZ (rank {nd})", run, post, ["boundary.RectangularBoundaryXZ.__init__", "boundary.RectangularBoundaryXZ.outside"])


def polygon_any(h, m, nd):
    """any number of vertices: the loop over edges by its summary (a parity), the summand edge by edge"""
    def run():
        c = CTX()
        n = ints("n")[0]
        c.assume(n >= 3)
        vx, vz = input_array("vx", (n,), "r"), input_array("vz", (n,), "r")
        sh, (x, y, zz) = points(c, nd)
        b = m.PolygonBoundaryXZ(vx, vz)
        return b.outside(x, y, zz), (x, zz, vx, vz, n)

    def post(o):
        if not h.must_return(o):
            return
        r, (x, zz, vx, vz, n) = o.value
        r = shaped(h, r, nd)
        p, hy = idx(nd)
        a, b = x.at(p), zz.at(p)
        top = reduce_ext(vz, "max")

        def edge(i):
            j = ite(i == n - 1, 0, i + 1)
            x0, z0, x1, z1 = vx.at((i,)), vz.at((i,)), vx.at((j,)), vz.at((j,))
            dx, dz = x1 - x0, z1 - z0
            num = (z0 - b) * dx + (a - x0) * dz  # height of the edge over the point, times dx
            return (x0 <= a) != (x1 <= a), lor(land(dx > 0, num > 0), land(dx < 0, num < 0)), num, z0, z1

        spec = big_sum(0, n, lambda i: ite(land(*edge(i)[:2]), 1, 0))
        out = z3.simplify(z(truth(r.at(p)), "b"))
        sums = _top_sums(out)
        if len(sums) != 1:
            raise Unsupported("the result is not one count of crossings")
        s = sums[0]
        w = ints("w")[0]
        h.prove("one summand per edge", land(S(s.arg(1) == 0, "b"), S(s.arg(2) == z(n), "b")))
        span, above, num, z0, z1 = edge(w)
        hw = hy + [land(w >= 0, w < n), implies(span, lnot(num == 0)), lnot(b == top + 1), top >= z0, top >= z1]
        h.prove("no vertex is above the top", land(top >= z0, top >= z1), [land(w >= 0, w < n)])
        got = S(apply_lam(s.arg(0), z(w)), "i")
        # another choice of the included end point or of the ray is as good: then the triangle below decides
        if h.prove("an edge is counted exactly when the upward ray crosses it", got == ite(land(span, above), 1, 0), hw,
                   trust_model=False):
            same = S(s, "i") == spec
            h.prove("outside exactly when the number of crossed edges is even", S(out, "b") == lnot(spec % 2 == 1), hy + [same])

    h.unit(f"PolygonBoundaryXZ (any polygon, points of rank {nd})", run, post,
           ["boundary.PolygonBoundaryXZ.__init__", "boundary.PolygonBoundaryXZ.outside"], time_limit=100)


def polygon(h, m, n):
    def run():
        c = CTX()
        vx = reals(*[f"vx{i}" for i in range(n)])
        vz = reals(*[f"vz{i}" for i in range(n)])
        sh, (x, y, zz) = points(c, 1)
        b = m.PolygonBoundaryXZ(list(vx), list(vz))
        return b.outside(x, y, zz), (x, zz)

    def post(o):
        if not h.must_return(o):
            return
        vx = reals(*[f"vx{i}" for i in range(n)])
        vz = reals(*[f"vz{i}" for i in range(n)])
        r, (x, zz) = o.value
        r = shaped(h, r, 1)
        p, hy = idx(1)
        a, b = x.at(p), zz.at(p)
        odd = S(z3.BoolVal(False), "b")
        on = []
        for i in range(n):
            j = (i + 1) % n
            dx, dz = vx[j] - vx[i], vz[j] - vz[i]
            # height of the edge over the point, times dx (no division)
            num = (vz[i] - b) * dx + (a - vx[i]) * dz
            above = lor(land(dx > 0, num > 0), land(dx < 0, num < 0))
            span = (vx[i] <= a) != (vx[j] <= a)
            odd = odd != land(span, above)
            on.append(implies(span, lnot(num == 0)))
        # in IEEE arithmetic a point level with the internal far end divides by zero, to -inf: evaluated, not proved
        top = lor(*[land(b == vz[i] + 1, *[vz[i] >= w for w in vz]) for i in range(n)])
        on.append(lnot(top))
        h.prove(f"outside exactly when the number of crossed edges is even", truth(r.at(p)) == lnot(odd), hy + on)

    h.unit(f"PolygonBoundaryXZ ({n} vertices)", run, post, ["boundary.PolygonBoundaryXZ.__init__", "boundary.PolygonBoundaryXZ.outside"], time_limit=100)
