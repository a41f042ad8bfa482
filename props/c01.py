"""C01: assign_cell_space_numbers is a bijection onto 0..N_cells-1 (all sizes symbolic)."""
import z3
from pyvc.core import CTX, S, land, lor, lnot, implies
from pyvc.arrays import input_array, make, reduce_any
from pyvc.harness import ints, lex_cases
from pyvc import loader


def setup(maps_kind="primes"):
    nx, ny, nz, mxg, ns = ints("nx", "ny", "nz", "mxg", "ns")
    c = CTX()
    for a in (ny, nz, ns):
        c.assume(a >= 1)
    c.assume(mxg >= 0)
    c.assume(nx > 2 * mxg)
    maps = {"R": input_array("R", (nx, ny, nz)), "MXG": mxg}
    if maps_kind == "primes":
        maps["forward_xt_primes"] = input_array("fx", (nx, ny, nz, ns))
        maps["backward_xt_primes"] = input_array("bx", (nx, ny, nz, ns))
        maps["forward_zt_primes"] = input_array("fz", (nx, ny, nz, ns))
        maps["backward_zt_primes"] = input_array("bz", (nx, ny, nz, ns))
    else:
        for d in ("forward", "backward"):
            for k in "xz":
                maps[f"{d}_{k}t_prime"] = input_array(d[0] + k, (nx, ny, nz))
    return maps, (nx, ny, nz, mxg, ns)


def inside(p, nx, ny, nz):
    return land(p[0] >= 0, p[0] < nx, p[1] >= 0, p[1] < ny, p[2] >= 0, p[2] < nz)


def hit(x, nx, mxg):
    return lor(x < mxg, x > nx - mxg - 1)


def proofs(h):
    m = loader.World().load("weights")
    for kind in ("primes", "centre map only"):
        box = {}

        def run():
            box["maps"], box["dims"] = setup(kind)
            return m.assign_cell_space_numbers(box["maps"])

        def post(o):
            if not h.must_return(o):
                return
            nx, ny, nz, mxg, ns = box["dims"]
            r = o.value
            F, B, C = r["forward_boundary_number"], r["backward_boundary_number"], r["cell_number"]
            N = r["N_cells"]
            p, q = ints("x1", "y1", "z1"), ints("x2", "y2", "z2")
            inr = inside(p, nx, ny, nz)
            inter = land(p[0] >= mxg, p[0] < nx - mxg)
            nev = (nx - 2 * mxg) * ny * nz
            ncell = nx * ny * nz
            for X, nm in ((C, "cell"), (F, "forward"), (B, "backward")):
                h.prove(f"{nm} numbers cover the grid shape", land(X.shape[0] == nx, X.shape[1] == ny, X.shape[2] == nz))
            h.prove("N_evolving", r["N_evolving"] == nev)
            c = C.at(tuple(p))
            h.prove("interior numbers in the first n_evolving", land(c >= 0, c < nev), [inr, inter])
            h.prove("X-boundary numbers follow the interior", land(c >= nev, c < ncell), [inr, lnot(inter)])
            for X, d, key in ((F, "forward", "fx"), (B, "backward", "bx")):
                v = X.at(tuple(p))
                if kind == "primes":
                    xs = box["maps"][d + "_xt_primes"]
                    some = reduce_any(make((ns,), "b", lambda w: hit(xs.at((*p, w[0])), nx, mxg)))
                else:
                    some = hit(box["maps"][d + "_xt_prime"].at(tuple(p)), nx, mxg)
                h.prove(f"{d} number exists when a sub-sample hits", land(v >= ncell, v < N), [inr, inter, some], sum_rounds=3)
                h.prove(f"{d} number is -1 when no sub-sample hits", v == -1, [inr, inter, lnot(some)])
                h.prove(f"{d} number is -1 outside the interior", v == -1, [inr, lnot(inter)])
            # distinctness, by lexicographic case split (the split is exhaustive up to symmetry)
            pairs = [(C, C, "cell/cell"), (F, F, "forward/forward"), (B, B, "backward/backward"), (F, B, "forward/backward"),
                     (B, F, "backward/forward")]
            for nm, q2, cs in lex_cases(p, q):
                for X, Y, pn in pairs:
                    a, b = X.at(tuple(p)), Y.at(tuple(q2))
                    h.prove(f"{pn} numbers of different cells differ ({nm})", a != b,
                            [inr, inside(q2, nx, ny, nz), cs, a >= 0, b >= 0], sum_rounds=3)
            a, b = F.at(tuple(p)), B.at(tuple(p))
            h.prove("forward/backward numbers of one cell differ", a != b, [inr, a >= 0, b >= 0], sum_rounds=3)
            # count: the numbers given equal N_cells; with distinctness and range this is a bijection
            from pyvc.core import big_sum, ite
            cnt = big_sum(mxg, nx - mxg, lambda x: big_sum(0, ny, lambda y: big_sum(0, nz, lambda z_: ite(B.at((x, y, z_)) >= 0, 1, 0) + ite(F.at((x, y, z_)) >= 0, 1, 0))))
            h.prove_sum_eq("N_cells is the number of numbered cells", N, ncell + cnt, sum_rounds=3)

        h.unit(f"assign_cell_space_numbers ({kind})", run, post,
               ["weights.assign_cell_space_numbers", "weights.hits_radial_boundary", "weights._as_subsample_array", "weights._get_map_array"])
    h.trust("counting: distinct numbers in 0..N-1, N of them, are exactly 0..N-1 (pigeonhole)")
