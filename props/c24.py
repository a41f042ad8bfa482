"""C24: the Jacobian, length and toroidal field stored by make_maps (collaborators by contract)."""
import z3
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, sqrt
from pyvc.harness import ints, reals
from props.mm import build, run_maps, r_, PT, YC, FL, LEN
from props.c15 import F


def proofs(h):
    for per in (True, False):
        for refine, chunks, rect in ((1, 1, False), (1, 2, False), (1, 3, True), (2, 1, False), (2, 4, False)):
            unit(h, per, refine, chunks, rect)
    h.assume("field_line_length enters as a function of the points of the line (its own contract is C30)",
             "the tracer, the grid and the plane metric enter by their contracts (C18, C07, C10)",
             "By does not vanish on the field lines")


def unit(h, per, N, chunks, rect):
    m, P, U = build(rect)
    box = {}

    def run():
        return run_maps(m, P, U, per, 1, 1, N, chunks, box)

    def post(o):
        if not h.must_return(o):
            return
        d = o.value
        nx, ny, nz, i, j, k = ints("nx", "ny", "nz", "i", "j", "k")
        p = (i, j, k)
        hy = [land(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz)]
        R0, Z0, y0 = r_(PT["R"], i, j, k), r_(PT["Z"], i, j, k), r_(YC, j)

        def pt(t):
            """point t of the line: t = -2N .. 2N from plane j-1 to plane j+1"""
            if t == 0:
                return R0, Z0, y0
            y = y0 + (r_(YC, j + (1 if t > 0 else -1)) - y0) * abs(t) / (2 * N)
            return r_(FL["x"], R0, Z0, y0, y), r_(FL["z"], R0, Z0, y0, y), y

        By = lambda t: S(F["y"](*[z(v) for v in pt(t)]), "r")
        for post_, t in (("_cell_ylow", -N), ("", 0), ("_cell_yhigh", N)):
            h.prove(f"By{post_} is the field at its point of the line", d["By" + post_].at(p) == By(t), hy)
        for post_, a in (("_cell_ylow", -2 * N), ("", -N), ("_cell_yhigh", 0)):
            pts = [pt(t) for t in range(a, a + 2 * N + 1)]
            h.prove(f"Ly{post_} is the length of its own stretch of the line",
                    d["Ly" + post_].at(p) == r_(LEN[2 * N + 1], *[v for q in pts for v in q]), hy)
        if rect:
            jp = 1
        else:
            a, b, c = [r_(PT[n], i, j, k) for n in ("g_xx", "g_xz", "g_zz")]
            jp = sqrt(a * c - b * b)
        acc = 0
        for t in range(-N, N + 1):
            acc = acc + (0.5 if abs(t) == N else 1) * pt(t)[0] * By(0) / By(t)
        nzero = [lnot(By(t) == 0) for t in range(-N, N + 1)]
        h.prove("J is the field-line average of R B0/B times the perpendicular Jacobian", d["J"].at(p) == jp * acc / (2 * N), hy + nzero)
        for n in ("J", "Ly", "By"):
            h.prove(f"shape of {n}", land(len(d[n].shape) == 3, *[x == y for x, y in zip(d[n].shape, (nx, ny, nz))]))

    h.unit(f"make_maps, Jacobian (refine={N}, pieces={chunks}, {'periodic' if per else 'not periodic'}, {'rectangular' if rect else 'structured'})",
           run, post, ["zoidberg.make_maps"], time_limit=150)
