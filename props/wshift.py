"""Contracts of the small helpers of weights.py shared by C03 and C04."""
import z3
from pyvc.core import CTX, S, land, lor, lnot, implies, ite, Unsupported
from pyvc.arrays import make, asarr
from pyvc.harness import ints, reals

OFF = [-1, 0, 1, 2]


def clampx(x, nx, mxg):
    return ite(x < mxg, mxg, ite(x > nx - mxg - 1, nx - mxg - 1, x))


def catmull_unit(h, m):
    if not hasattr(m, "catmull_rom_weights"):
        h.units.append(dict(unit="catmull_rom_weights", functions=[], paths=0, status="unsupported", reason="function not found", obligations=0, discharged=0, time=0, reach=0))
        return

    def run():
        (u,) = reals("u")
        return m.catmull_rom_weights(u)

    def post(o):
        if not h.must_return(o):
            return
        (u,) = reals("u")
        w = [o.value.at((i,)) for i in range(4)]
        h.prove("four weights", o.value.shape[0] == 4 if not isinstance(o.value.shape[0], int) else S(z3.BoolVal(o.value.shape[0] == 4), "b"))
        h.prove("weights sum to one", w[0] + w[1] + w[2] + w[3] == 1)
        h.prove("a node picks itself", land(w[0] == 0, w[1] == 1, w[2] == 0, w[3] == 0), [u == 0])
        h.prove("the next node picks itself", land(w[0] == 0, w[1] == 0, w[2] == 1, w[3] == 0), [u == 1])
        h.prove("linear data are reproduced", 2 * w[3] + w[2] - w[0] == u)
        # Catmull-Rom = cubic Hermite with central slopes
        h00, h10, h01, h11 = 2 * u**3 - 3 * u**2 + 1, u**3 - 2 * u**2 + u, -2 * u**3 + 3 * u**2, u**3 - u**2
        spec = [-h10 / 2, h00 - h11 / 2, h01 + h10 / 2, h11 / 2]
        h.prove("cubic Hermite weights with central slopes", land(*[2 * a == 2 * b for a, b in zip(w, spec)]))

    h.unit("catmull_rom_weights", run, post, ["weights.catmull_rom_weights"])


def shift_unit(h, m):
    if not hasattr(m, "shift_weights_out_of_x_boundaries"):
        h.units.append(dict(unit="shift_weights_out_of_x_boundaries", functions=[], paths=0, status="unsupported", reason="function not found", obligations=0, discharged=0, time=0, reach=0))
        return
    box = {}

    def run():
        nx, mxg, xb = ints("nx", "mxg", "x_base")
        w = reals("w0", "w1", "w2", "w3")
        c = CTX()
        c.assume(mxg >= 0)
        c.assume(xb >= mxg)
        c.assume(xb <= nx - mxg - 1)
        c.assume(w[0] + w[1] + w[2] + w[3] == 1)
        a = asarr(list(w))
        box["in"] = a
        return m.shift_weights_out_of_x_boundaries(a, xb, list(OFF), nx, mxg)

    def post(o):
        if not h.must_return(o):
            return
        nx, mxg, xb = ints("nx", "mxg", "x_base")
        w = reals("w0", "w1", "w2", "w3")
        r = [o.value.at((i,)) for i in range(4)]
        h.prove("sum is kept", r[0] + r[1] + r[2] + r[3] == 1)
        for i, off in enumerate(OFF):
            tgt = xb + off
            want = 0
            for j, o2 in enumerate(OFF):
                want = want + ite(clampx(xb + o2, nx, mxg) == tgt, w[j], 0)
            h.prove(f"plane x_base{off:+d} gets exactly the weight folded onto it", r[i] == want)
        h.prove("the caller's weights are unchanged", land(*[box["in"].at((i,)) == w[i] for i in range(4)]))

    h.unit("shift_weights_out_of_x_boundaries", run, post, ["weights.shift_weights_out_of_x_boundaries"])


class GhostBuilder:
    """Contract of SparseRowMatrixBuilder.add_to_entry: one recorded contribution per call."""

    def __init__(self, on_add):
        self.on_add = on_add

    def add_to_entry(self, row, col, weight):
        self.on_add(row, col, weight)


def shift_contract(weights_x, x_base, x_offsets, nx, mxg):
    """shift_weights_out_of_x_boundaries by its contract (proved by shift_unit)."""
    if list(x_offsets) != OFF:
        raise Unsupported("x offsets")
    c = CTX()
    if not c.provable(land(x_base >= mxg, x_base <= nx - mxg - 1)):
        raise Unsupported("precondition of shift_weights_out_of_x_boundaries")
    w = [weights_x.at((i,)) for i in range(4)]
    out = []
    for off in OFF:
        v = 0
        for j, o2 in enumerate(OFF):
            v = v + ite(clampx(x_base + o2, nx, mxg) == x_base + off, w[j], 0)
        out.append(v)
    return asarr(out)
