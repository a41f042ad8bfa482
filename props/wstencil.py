"""accumulate_interior_stencil, for any number of sub-samples (loop body at an arbitrary sample)."""
import z3
from pyvc.core import CTX, S, land, lor, lnot, implies, ite, z, floor, Unsupported, const_value
from pyvc.arrays import input_array, asarr, reduce_sum
from pyvc.harness import ints, reals
from props.wshift import OFF, clampx, GhostBuilder, shift_contract

CM = [z3.Function(f"cm{i}", z3.RealSort(), z3.RealSort()) for i in range(4)]


def cm_contract(u):
    """catmull_rom_weights by its contract: four values determined by u that sum to one."""
    w = [S(f(z(u, "r")), "r") for f in CM]
    CTX().assume(w[0] + w[1] + w[2] + w[3] == 1)
    # a node picks itself
    CTX().assume(implies(u == 0, land(w[0] == 0, w[1] == 1, w[2] == 0, w[3] == 0)))
    return asarr(w)


def stencil_unit(h, m, rows_only):
    for n in ("accumulate_interior_stencil", "catmull_rom_weights", "shift_weights_out_of_x_boundaries"):
        if not hasattr(m, n):
            raise Unsupported(f"function {n} not found")
    m.catmull_rom_weights = cm_contract
    m.shift_weights_out_of_x_boundaries = shift_contract
    box = {}

    def run():
        nx, ny, nz, mxg, y, yo, ns, row = ints("nx", "ny", "nz", "mxg", "y", "yo", "ns", "row")
        c = CTX()
        for a in (ny, nz, ns):
            c.assume(a >= 1)
        c.assume(mxg >= 0)
        c.assume(nx > 2 * mxg)
        c.assume(land(y >= 0, y < ny, lor(yo == 1, yo == -1)))
        mx, mz, w = input_array("mx", (ns,)), input_array("mz", (ns,)), input_array("w", (ns,))
        mask = input_array("mask", (ns,), "b")
        cn = input_array("cell_number", (nx, ny, nz), "i")
        v = [z3.Int(f"b{i}") for i in range(3)]
        V = [S(x, "i") for x in v]
        c.assume(S(z3.ForAll(v, z(implies(land(V[0] >= 0, V[0] < nx, V[1] >= 0, V[1] < ny, V[2] >= 0, V[2] < nz), cn.at(tuple(V)) >= 0), "b")), "b"))
        s = z3.Int("bs")
        # contract of classify_leg_contributions: the mask marks exactly the boundary hits
        hitm = lor(mx.at((S(s, "i"),)) < mxg, mx.at((S(s, "i"),)) > nx - mxg - 1)
        c.assume(S(z3.ForAll([s], z(implies(land(S(s, "i") >= 0, S(s, "i") < ns), land(mask.at((S(s, "i"),)) == hitm, w.at((S(s, "i"),)) > 0)), "b")), "b"))
        iw = reduce_sum(w[~mask])
        c.assume(iw > 0)
        st = dict(calls=[], active=False)
        box.update(cn=cn, mx=mx, mz=mz, w=w, mask=mask, iw=iw, st=st, row=row)
        g = GhostBuilder(lambda r, col, wt: st["calls"].append((r, col, wt)))
        m.accumulate_interior_stencil(matrix_builder=g, row=row, mapped_xs=mx, mapped_zs=mz, subcell_weights=w,
                                      hits_boundary_mask=mask, y=y, y_offset=yo, cell_number=cn, mxg=mxg)
        return st

    def hook(when, k):
        st = box["st"]
        if when == "begin":
            st["calls"] = []
            st["seen"] = st.get("seen", 0) + 1
            return
        check(k)

    def check(k):
        nx, ny, nz, mxg, y, yo = ints("nx", "ny", "nz", "mxg", "y", "yo")
        calls = list(box["st"]["calls"])
        mx, mz, w, mask = [box[n].at((k,)) for n in ("mx", "mz", "w", "mask")]
        ctx = CTX()
        if ctx.provable(mask):
            h.once("a boundary sub-sample contributes nothing", land(True, *[wt == 0 for _, _, wt in calls]) if calls else True)
            return
        bx, bz = floor(mx, as_int=True), floor(mz, as_int=True)
        c1 = [S(f(z(mx - bx, "r")), "r") for f in CM]
        c2 = [S(f(z(mz - bz, "r")), "r") for f in CM]
        cm_contract(mx - bx)
        cm_contract(mz - bz)
        fold = []
        for off in OFF:
            v = 0
            for j, o2 in enumerate(OFF):
                v = v + ite(clampx(bx + o2, nx, mxg) == bx + off, c1[j], 0)
            fold.append(v)
        tgt = {(i, j): box["cn"].at((bx + OFF[i], (y + yo) % ny, (bz + OFF[j]) % nz)) for i in range(4) for j in range(4)}
        todo = list(tgt)
        total = 0
        scale = w / box["iw"]
        inx = {i: land(bx + OFF[i] >= mxg, bx + OFF[i] < nx - mxg) for i in range(4)}
        for r, col, wt in calls:
            total = total + wt
            h.once("contribution goes to the row of the leg", r == box["row"])
            hit = None
            for ij in todo:
                if ctx.provable(land(col == tgt[ij], inx[ij[0]])):
                    hit = ij
                    break
            if hit is None:
                h.once("contribution goes to an evolving cell of the stencil in the target plane",
                       lor(wt == 0, *[land(col == tgt[ij], inx[ij[0]]) for ij in todo]))
                continue
            todo.remove(hit)
            h.once("contribution goes to an evolving cell of the stencil in the target plane", land(col == tgt[hit], inx[hit[0]]))
            if not rows_only:
                h.once("contribution has the folded Catmull-Rom weight", wt == scale * fold[hit[0]] * c2[hit[1]])
        if rows_only:
            d = total - scale
            # dropped planes carry at most 1e-10 each
            dropped = 1
            if len(calls) == 16:
                h.once("weights of the sub-sample add to its share", d == 0)
            else:
                s2 = c2[0] + c2[1] + c2[2] + c2[3]
                keptx = sorted({i for i in range(4) if sum((i, j) in todo for j in range(4)) == 0})
                lost = sorted(set(range(4)) - set(keptx))
                h.once("weights of the sub-sample add to its share, up to the dropped planes",
                       implies(s2 == 1, total == scale * sum([fold[i] for i in keptx], 0)))
                for i in lost:
                    h.once("a dropped plane carries no weight", lor(lnot(inx[i]), land(fold[i] < 1e-8, fold[i] > -1e-8)))
        else:
            for i in sorted({ij[0] for ij in todo}):
                h.once("a plane left out carries no weight", land(fold[i] < 1e-8, fold[i] > -1e-8))

    def post(o):
        if not h.must_return(o):
            return
        if not o.value.get("seen"):
            raise Unsupported("the loop over sub-samples was not found")

    h.unit("accumulate_interior_stencil", run, post, ["weights.accumulate_interior_stencil"], iter_hook=hook, time_limit=200, max_inner=600)
