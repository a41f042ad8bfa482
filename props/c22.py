"""C22: make_maps records where each cell's field line lands (collaborators by contract)."""
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import SArray
from pyvc.harness import ints, reals
from props.mm import build, run_maps, r_, PT, YC, FL, FI, OUT, CO, BL


def name(v, o):
    p = "forward_" if o > 0 else "backward_"
    return p + v if abs(o) == 1 else f"{p}{v}_{abs(o)}"


def proofs(h):
    for per in (True, False):
        for ns, sm, rect in ((1, 1, False), (2, 1, True), (3, 1, False), (1, 2, False), (1, 2, True), (2, 2, False)):
            unit(h, per, ns, sm, rect)
    h.assume("the tracer, the grid, the index search and the boundary enter by their contracts (C18, C07, C08/C09, C28)",
             "Gauss-Legendre nodes: in (-1, 1), increasing, positive weights that sum to 2",
             "RegularGridInterpolator: bilinear on the unit-spaced nodes it is given, extrapolating")


def unit(h, per, ns, sm, rect):
    m, P, U = build(rect)
    box = {}

    def run():
        return run_maps(m, P, U, per, ns, sm, 1, 1, box)

    def post(o):
        if not h.must_return(o):
            return
        d = o.value
        nx, ny, nz, i, j, k = ints("nx", "ny", "nz", "i", "j", "k")
        p = (i, j, k)
        hy = [land(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz)]
        R0, Z0, y0 = r_(PT["R"], i, j, k), r_(PT["Z"], i, j, k), r_(YC, j)
        h.prove("R and Z are the positions of the cells", land(d["R"].at(p) == R0, d["Z"].at(p) == Z0), hy)
        h.prove("rtol is passed to the tracer", land(True, *[t == box["tol"] if t is not None else False for t in box["t"].rtol]))
        h.prove("nothing but the documented variables", not [n for n in d if "_cell_y" in n and "t_prime" in n])
        h.prove("slice and guard counts", land(d["MYG"] == ns, d["MXG"] == 2))
        wts = d["subcell_weights"]
        h.prove("number of sub-sample weights", wts.shape[0] == sm * sm)
        if sm == 1:
            h.prove("weight of the single sample", wts.at((0,)) == 1)
        else:
            g = reals(*[f"gw{a}" for a in range(sm)])
            for a in range(sm):
                for b in range(sm):
                    h.prove(f"weight of sample {a},{b}", wts.at((a * sm + b,)) == g[a] * g[b] / 4)
        for off in [s * q for q in range(1, ns + 1) for s in (1, -1)]:
            t = j + off
            inside = True if per else land(t >= 0, t < ny)
            y1 = r_(YC, t)
            plane = t % ny if per else t
            def land_at(a, b):
                X, Zq = r_(FL["x"], a, b, y0, y1), r_(FL["z"], a, b, y0, y1)
                bad = lor(lnot(inside), r_(OUT, X, y1, Zq))
                return X, Zq, ite(bad, -1, r_(FI["x"], plane, X, Zq)), ite(bad, -1, r_(FI["z"], plane, X, Zq))

            X, Zq, xi, zi = land_at(R0, Z0)
            h.prove(f"offset {off}: position where the line lands", land(d[name("R", off)].at(p) == X, d[name("Z", off)].at(p) == Zq), hy)
            h.prove(f"offset {off}: x index of that position, -1 outside", d[name("xt_prime", off)].at(p) == xi, hy)
            h.prove(f"offset {off}: z index of that position, -1 outside", d[name("zt_prime", off)].at(p) == zi, hy)
            xs, zs = d[name("xt_primes", off)], d[name("zt_primes", off)]
            h.prove(f"offset {off}: shape of the sub-sample maps", land(len(xs.shape) == 4, xs.shape[3] == sm * sm, zs.shape[3] == sm * sm))
            if sm == 1:
                h.prove(f"offset {off}: the single sample is the cell centre", land(xs.at((*p, 0)) == xi, zs.at((*p, 0)) == zi), hy)
                continue
            gx = reals(*[f"gx{a}" for a in range(sm)])
            for a in range(sm):
                for b in range(sm):
                    xo, zo = gx[a] / 2, gx[b] / 2
                    st = [start(c, i, j, k, xo, zo, nx, nz, rect) for c in "RZ"]
                    _, _, sx, sz = land_at(*st)
                    h.prove(f"offset {off} sample {a},{b}: x index where its own line lands", xs.at((*p, a * sm + b)) == sx, hy)
                    h.prove(f"offset {off} sample {a},{b}: z index where its own line lands", zs.at((*p, a * sm + b)) == sz, hy)

    h.unit(f"make_maps (nslice={ns}, samples={sm}, {'periodic' if per else 'not periodic'}, {'rectangular' if rect else 'structured'})",
           run, post, ["zoidberg.make_maps", "zoidberg.parallel_slice_field_name"], time_limit=100)


def start(c, i, j, k, xo, zo, nx, nz, rect):
    """position of a sub-sample: the grid's own coordinates, or bilinear between the points, periodic in z"""
    if rect:
        return r_(CO[c], j, i + xo, k + zo)
    return r_(BL[c], j, i + xo, k + zo)
