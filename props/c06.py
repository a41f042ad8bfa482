"""C06: modify_maps (all sizes symbolic; the operator calculation by its contract)."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.arrays import input_array, make, reduce_any
from pyvc.harness import ints
from props.c01 import inside, hit

PRIMES = ["forward_xt_primes", "forward_zt_primes", "backward_xt_primes", "backward_zt_primes"]


def proofs(h):
    for partial in (True, False):
        unit(h, partial)


def unit(h, partial):
    m = loader.World().load("weights")
    if not hasattr(m, "calculate_parallel_map_operators"):
        raise Unsupported("calculate_parallel_map_operators")
    box = {}

    def ops(maps):
        box["seen"] = {k: maps[k].copy() for k in PRIMES if k in maps}
        box["op"] = object()
        return {"total_cells": box["op"]}

    m.calculate_parallel_map_operators = ops

    def run():
        box.pop("seen", None)
        nx, ny, nz, mxg, ns = ints("nx", "ny", "nz", "mxg", "ns")
        c = CTX()
        for a in (ny, nz, ns):
            c.assume(a >= 1)
        c.assume(mxg >= 0)
        c.assume(nx > 2 * mxg)
        maps = {"MXG": mxg, "R": input_array("R", (nx, ny, nz)), "subcell_weights": input_array("w", (ns,))}
        for d in ("forward", "backward"):
            for k in "xz":
                maps[f"{d}_{k}t_primes"] = input_array(f"{d}_{k}s", (nx, ny, nz, ns))
                maps[f"{d}_{k}t_prime"] = input_array(f"{d}_{k}", (nx, ny, nz))
        box["orig"] = {k: v.copy() for k, v in maps.items() if k != "MXG"}
        return m.modify_maps(maps, partial_boundaries=partial)

    def post(o):
        if not h.must_return(o):
            return
        nx, ny, nz, mxg, ns = ints("nx", "ny", "nz", "mxg", "ns")
        r = o.value
        p = tuple(ints("x1", "y1", "z1"))
        (w,) = ints("w1")
        inr = inside(p, nx, ny, nz)
        inw = land(w >= 0, w < ns)
        O = box["orig"]
        for k in PRIMES + ["subcell_weights"]:
            h.prove(f"{k} removed from the output", k not in r)
        h.prove("operator arrays added", "total_cells" in r and r["total_cells"] is box["op"])
        for d in ("forward", "backward"):
            xs, zs = O[f"{d}_xt_primes"], O[f"{d}_zt_primes"]
            xc, zc = O[f"{d}_xt_prime"].at(p), O[f"{d}_zt_prime"].at(p)
            some = reduce_any(make((ns,), "b", lambda i: hit(xs.at((*p, i[0])), nx, mxg)))
            none_in = lnot(reduce_any(make((ns,), "b", lambda i: lnot(hit(xs.at((*p, i[0])), nx, mxg)))))
            xt, zt = r[f"{d}_xt_prime"].at(p), r[f"{d}_zt_prime"].at(p)
            h.prove(f"{d} z map unchanged", zt == zc, [inr])
            if partial:
                h.prove(f"{d}: cell with a hitting sub-sample is flagged", hit(xt, nx, mxg), [inr, some])
                h.prove(f"{d}: other cells keep their x map", xt == xc, [inr, lnot(some)])
                sx, sz = box["seen"][f"{d}_xt_primes"].at((*p, w)), box["seen"][f"{d}_zt_primes"].at((*p, w))
                h.prove(f"{d}: sub-sampled x maps unchanged", sx == xs.at((*p, w)), [inr, inw])
                h.prove(f"{d}: sub-sampled z maps unchanged", sz == zs.at((*p, w)), [inr, inw])
            else:
                h.prove(f"{d} x map unchanged", xt == xc, [inr])
                sx, sz = box["seen"][f"{d}_xt_primes"].at((*p, w)), box["seen"][f"{d}_zt_primes"].at((*p, w))
                ox, oz = xs.at((*p, w)), zs.at((*p, w))
                part = land(some, lnot(none_in))
                h.prove(f"{d}: whole cells keep their sub-sample maps", land(sx == ox, sz == oz), [inr, inw, lnot(part)])
                ch = hit(xc, nx, mxg)
                h.prove(f"{d}: split cell with a hitting centre becomes a boundary cell", land(sx == xc, sz == zc), [inr, inw, part, ch])
                h.prove(f"{d}: split cell with an inside centre keeps its inside sub-samples", land(sx == ox, sz == oz),
                        [inr, inw, part, lnot(ch), lnot(hit(ox, nx, mxg))])
                h.prove(f"{d}: split cell with an inside centre replaces its hitting sub-samples", land(sx == xc, sz == zc),
                        [inr, inw, part, lnot(ch), hit(ox, nx, mxg)])
                # no cell is left split
                (w2,) = ints("w2")
                h.prove(f"{d}: no cell is left split", hit(sx, nx, mxg) == hit(box["seen"][f"{d}_xt_primes"].at((*p, w2)), nx, mxg),
                        [inr, inw, land(w2 >= 0, w2 < ns)])

    h.unit(f"modify_maps (partial_boundaries={partial})", run, post, ["weights.modify_maps", "weights.hits_radial_boundary"])
