"""C12: grid generators; the boundary lines enter by contract (functions of the angle)."""
import z3
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import SArray, elementwise
from pyvc.harness import ints, reals
from pyvc.loops import hoare, unfold
from pyvc.npshim import np as shim
from props.pgrid import world

RS = z3.RealSort()


class Line:
    """RZline by contract: R and Z are functions of the angle"""

    def __init__(self, name):
        self.name = name

    def f(self, c, t):
        return S(z3.Function(f"{self.name}_{c}", RS, RS)(z(t, "r")), "r")

    def _ev(self, c, theta):
        if theta is None:
            raise Unsupported("own angles")
        if isinstance(theta, SArray):
            return elementwise(lambda t: self.f(c, t), theta, k="r")
        return self.f(c, theta)

    def Rvalue(self, theta=None, deriv=0):
        if deriv:
            raise Unsupported("derivative")
        return self._ev("R", theta)

    def Zvalue(self, theta=None, deriv=0):
        if deriv:
            raise Unsupported("derivative")
        return self._ev("Z", theta)

    def position(self, theta=None):
        return self.Rvalue(theta), self.Zvalue(theta)

    def closestPoint(self, R, Z, **kw):
        if kw:
            raise Unsupported("options")
        return S(z3.Function(f"{self.name}_cp", RS, RS, RS)(z(R, "r"), z(Z, "r")), "r")


def proofs(h):
    m = world().load("poloidal_grid")
    for coords in (True, False):
        annulus(h, m, coords)
    for no, ni in ((False, False), (True, False), (False, True), (True, True)):
        elliptic(h, m, no, ni)
    h.assume("the boundary lines are functions of the angle (class RZline, see C13)",
             "the coefficients of the elliptic equation do not vanish (no coinciding grid points)",
             "tol > 0, dz_relax not zero")


def annulus(h, m, coords):
    def run():
        nx, nz = ints("nx", "nz")
        CTX().assume(land(nx >= 2, nz >= 2))
        a, b = Line("inner"), Line("outer")
        r = m.grid_annulus(a, b, nx, nz, show=False, return_coords=coords)
        return (r if coords else (r.R, r.Z)), a, b

    def post(o):
        if not h.must_return(o):
            return
        (R, Z), a, b = o.value
        nx, nz, i, j = ints("nx", "nz", "i", "j")
        hy = [land(i >= 0, i < nx, j >= 0, j < nz)]
        th = 2 * shim.pi * S(z3.ToReal(z(j)), "r") / nz
        x = S(z3.ToReal(z(i)), "r") / (nx - 1)
        for n, v, c in (("R", R, "R"), ("Z", Z, "Z")):
            h.prove(f"{n} has exactly nx by nz points", land(len(v.shape) == 2, v.shape[0] == nx, v.shape[1] == nz))
            p, q = a.f(c, th), b.f(c, th)
            h.prove(f"{n}: every point at its fraction of the segment", v.at((i, j)) == p + x * (q - p), hy)
            h.prove(f"{n}: first row on the inner line", v.at((0, j)) == p, hy)
            h.prove(f"{n}: last row on the outer line", v.at((nx - 1, j)) == q, hy)

    h.unit(f"grid_annulus ({'coordinates' if coords else 'grid'})", run, post, ["poloidal_grid.grid_annulus"] + ([] if coords else ["poloidal_grid.StructuredPoloidalGrid.__init__"]))


def elliptic(h, m, outer, inner, ort=False):
    loops = []

    def run():
        c = CTX()
        c.ghost["h"] = h
        nx, nz, no, ni, rs = ints("nx", "nz", "no", "ni", "rs")
        tol, dzr = reals("tol", "dzr")
        c.assume(land(nx >= 2, nz >= 2, nx <= rs, nz <= rs, no >= 1, ni >= 1, tol > 0, lnot(dzr == 0)))
        no, ni = no if outer else 0, ni if inner else 0
        del loops[:]
        c.opts["for_hook"], c.opts["while_hook"] = hoare(lambda ix, sh: lor(ix[0] == 0, ix[0] == sh[0] - 1), loops)
        a, b = Line("inner"), Line("outer")
        r = m.grid_elliptic(a, b, nx + no + ni, nz, show=False, return_coords=True, align=False, inner_ort=ort, tol=tol,
                            nx_outer=no, nx_inner=ni, dz_relax=dzr, restrict_size=rs)
        return r, a, b, no, ni, list(loops)

    def post(o):
        nx, nz, i, j, k = ints("nx", "nz", "i", "j", "k")
        if o.kind != "return":
            if isinstance(o.value, RuntimeError):
                return  # reported failure to converge
            h.must_return(o)
            return
        (R, Z), a, b, no, ni, lps = o.value
        inr = land(j >= 0, j < nz)
        th = 2 * shim.pi * S(z3.ToReal(z(j)), "r") / nz
        defs = CTX().ghost.get("exit_defs", [])
        ti = th
        if ort:  # the inner points are somewhere on the inner line, R and Z at the same angle
            got, st = [], [z(unfold(R.at((ni, j)), defs))]
            while st:
                t = st.pop()
                if z3.is_app(t):
                    if t.decl().name() == "inner_R" and not any(t.arg(0).eq(g) for g in got):
                        got.append(t.arg(0))
                    st.extend(t.children())
            ok = [g for g in got if h.holds(unfold(R.at((ni, j)), defs) == a.f("R", S(g, "r")), [inr])]
            if not ok:
                raise Unsupported("angle of the inner points")
            ti = S(ok[0], "r")
        for n, v in (("R", R), ("Z", Z)):
            h.prove(f"{n} has the requested size", land(len(v.shape) == 2, v.shape[0] == nx + no + ni, v.shape[1] == nz))
            h.prove(f"{n}: inner row on the inner line", unfold(v.at((ni, j)), defs) == a.f(n, ti), [inr])
            h.prove(f"{n}: outer row on the outer line", unfold(v.at((ni + nx - 1, j)), defs) == b.f(n, th), [inr])
            if outer:
                s = v.at((ni + nx - 1, j)) - v.at((ni + nx - 2, j))
                h.prove(f"{n}: extra outer rows continue linearly", v.at((ni + nx - 1 + k, j)) == v.at((ni + nx - 1, j)) + s * k, [inr, k >= 1, k <= no])
            if inner:
                s = v.at((ni, j)) - v.at((ni + 1, j))
                h.prove(f"{n}: extra inner rows continue linearly", v.at((ni - k, j)) == v.at((ni, j)) + s * k, [inr, k >= 1, k <= ni])
        if ort:
            return  # the solver loop is the same code: see the other units
        # the state before the last update: identified by what its first row held at loop entry
        pick, left = {}, {}
        for n, v in (("R", R), ("Z", Z)):
            for e, f, sh in [x for l in lps for x in l]:
                if e == "exit":
                    if n not in left and len(sh) == 2 and h.holds(v.at((i + ni, j)) == f((i, j)), [inr, i >= 0, i < nx]):
                        left[n] = f
                elif n not in pick and len(sh) == 2 and h.holds(e((0, j)) == a.f(n, ti), [inr]) and h.holds(e((nx - 1, j)) == b.f(n, th), [inr]):
                    pick[n] = f
        if len(pick) != 2 or len(left) != 2:
            raise Unsupported("state of the solver loop")
        P, Q = pick["R"], pick["Z"]
        tol, dzr = reals("tol", "dzr")
        for n, v in (("R", R), ("Z", Z)):
            h.prove(f"{n}: the grid is what the solver loop left", v.at((i + ni, j)) == left[n]((i, j)), [inr, i >= 0, i < nx])
        names = [d[0].name() for d in defs]
        own = [d for d in defs if d[0].name() in {z(left[n]((i, j))).decl().name() for n in "RZ"}]
        x, w = (unfold(left[n]((i, j)), own) for n in "RZ")
        d1, d2 = x - P((i, j)), w - Q((i, j))
        inst = h.instances((i, j))
        h.prove_abstract("the last update changes every point by less than the tolerance", d1 * d1 + d2 * d2 < tol, [inr, i >= 0, i < nx] + inst, [x, w])
        if outer or inner:
            return  # the update itself is the same code: see the unit without extra rows
        dx, dz = S(z3.RealVal(1), "r") / (nx - 1), 2 * shim.pi / nz
        jp, jm = ite(j >= nz - 1, j + 1 - nz, j + 1), ite(j >= 1, j - 1, j - 1 + nz)

        def D(F):
            return dzr * (F((i, jp)) - F((i, jm))) / (2 * dz), (F((i + 1, j)) - F((i - 1, j))) / (2 * dx)

        (rz, rx), (zz, zx) = D(P), D(Q)
        A, B, C = rz * rz + zz * zz, rz * rx + zx * zz, rx * rx + zx * zx
        hy = [inr, i >= 1, i <= nx - 2, lnot(2 * A / (dx * dx) + 2 * C / (dz * dz) == 0)]
        for n, v, F in (("R", x, P), ("Z", w, Q)):
            mix = F((i + 1, jp)) - F((i - 1, jp)) - F((i + 1, jm)) + F((i - 1, jm))
            rhs = A / (dx * dx) * (F((i - 1, j)) + F((i + 1, j))) - B / (2 * dx * dz) * mix + C / (dz * dz) * (F((i, jm)) + F((i, jp)))
            h.prove(f"{n}: the last update solves the discretised equation at its point", v * (2 * A / (dx * dx) + 2 * C / (dz * dz)) == rhs, hy)

    h.unit(f"grid_elliptic ({'outer ' if outer else ''}{'inner ' if inner else ''}rows{', orthogonal start' if ort else ''})", run, post, ["poloidal_grid.grid_elliptic"], time_limit=60)

