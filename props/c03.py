"""C03: rows of the parallel map operators."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, is_num
from pyvc.arrays import input_array, asarr, reduce_sum, SArray
from pyvc.harness import ints, reals
from props.c01 import setup, inside, hit
from props.wshift import shift_unit, catmull_unit
from props.wstencil import stencil_unit


def same_slice(a, arr, idx, ns):
    """a is arr[idx, :] (pointwise)."""
    s = S(z3.Int("slot"), "i")
    return implies(land(s >= 0, s < ns), a.at((s,)) == arr.at((*idx, s)))


def operator_unit(h, m, direction):
    d = direction.split("_")[0].lower()
    box = {}

    class Ghost:
        def __init__(self, n_rows):
            box["ghost_rows"] = n_rows
            box["obj"] = self

        def set_row(self, row, entries):
            box["log"].append(("set", row, list(entries)))

        def add_to_entry(self, row, col, w):
            raise Unsupported("entries added outside accumulate_interior_stencil")

        def to_csr(self):
            return {"weights": box["w"], "columns": box["c"], "rows": box["r"]}

    def acc(**kw):
        box["log"].append(("acc", kw))

    for n in ("SparseRowMatrixBuilder", "accumulate_interior_stencil", "classify_leg_contributions"):
        if not hasattr(m, n):
            raise Unsupported(n)
    import inspect

    names = ["matrix_builder", "row", "mapped_xs", "mapped_zs", "subcell_weights", "hits_boundary_mask", "y", "y_offset", "cell_number", "mxg"]

    def acc_any(*a, **kw):
        if len(a) > len(names) or set(kw) - set(names):
            raise Unsupported("signature of accumulate_interior_stencil")
        kw = dict(zip(names, a), **kw)
        if set(kw) != set(names):
            raise Unsupported("signature of accumulate_interior_stencil")
        acc(**kw)

    m.SparseRowMatrixBuilder = Ghost
    m.accumulate_interior_stencil = acc_any

    def run():
        maps, dims = setup("primes")
        nx, ny, nz, mxg, ns = dims
        c = CTX()
        w = input_array("w", (ns,))
        maps["subcell_weights"] = w
        c.assume(reduce_sum(w) == 1)
        sh = (nx, ny, nz)
        cn = input_array("cell_number", sh, "i")
        fb, bb = input_array("forward_boundary", sh, "i"), input_array("backward_boundary", sh, "i")
        I, B = input_array("I", sh, "i"), input_array("B", sh, "i")
        hi, hb = input_array("hi", sh, "b"), input_array("hb", sh, "b")
        (n,) = ints("n_legs")
        v = [z3.Int(f"b{i}") for i in range(3)]
        V = [S(x, "i") for x in v]
        bn = fb if d == "forward" else bb
        # contract of assign_cell_space_numbers / build_leg_space_metadata (C01, C02):
        # a boundary leg exists exactly where a parallel boundary cell exists
        c.assume(S(z3.ForAll(v, z(implies(land(inside(V, nx, ny, nz), V[0] >= mxg, V[0] < nx - mxg),
                                          land(hb.at(tuple(V)) == (bn.at(tuple(V)) >= 0), implies(hi.at(tuple(V)), I.at(tuple(V)) >= 0),
                                               implies(hb.at(tuple(V)), B.at(tuple(V)) >= 0))), "b")), "b"))
        box.update(maps=maps, dims=dims, cn=cn, bn=bn, I=I, B=B, hi=hi, hb=hb, log=[], w=input_array("ow", (n,)), c=input_array("oc", (n,), "i"), r=input_array("orr", (n + 1,), "i"), ks=[])
        return m.build_leg_destination_operator(dict(cell_number=cn, forward_boundary_number=fb, backward_boundary_number=bb),
                                                dict(n_legs=n, interior_leg_number=I, boundary_leg_number=B, has_interior_leg=hi, has_boundary_leg=hb),
                                                maps, getattr(m, direction))

    def hook(when, k):
        if len(CTX().loopvars) != 3:
            return
        if when == "begin":
            box["log"] = []
        else:
            box["ks"] = [S(v, "i") for v in CTX().loopvars]
            check()

    def check():
        nx, ny, nz, mxg, ns = box["dims"]
        kx, ky, kz = box["ks"]
        p = (mxg + kx, ky, kz)
        log = box["log"]
        ctx = CTX()
        hb, hi = box["hb"].at(p), box["hi"].at(p)
        sets = [e for e in log if e[0] == "set"]
        accs = [e for e in log if e[0] == "acc"]
        h.once("a boundary leg row is assigned exactly for cells with a boundary leg", hb if len(sets) == 1 else (lnot(hb) if not sets else False))
        h.once("an interior leg row is accumulated exactly for cells with an interior leg", hi if len(accs) == 1 else (lnot(hi) if not accs else False))
        for _, row, ents in sets:
            h.once("boundary row is the cell's own boundary leg", row == box["B"].at(p))
            if len(ents) != 1:
                h.once("boundary row has a single entry", False)
                continue
            col, val = ents[0]
            h.once("boundary row points at the cell's own boundary cell", col == box["bn"].at(p))
            h.once("boundary row has value one", val == 1)
        for _, kw in accs:
            h.once("interior row is the cell's own interior leg", kw["row"] == box["I"].at(p))
            h.once("samples of the cell's own x map", same_slice(kw["mapped_xs"], box["maps"][d + "_xt_primes"], p, ns))
            h.once("samples of the cell's own z map", same_slice(kw["mapped_zs"], box["maps"][d + "_zt_primes"], p, ns))
            s = S(z3.Int("slot"), "i")
            rng = land(s >= 0, s < ns)
            h.once("quadrature weights passed on", implies(rng, kw["subcell_weights"].at((s,)) == box["maps"]["subcell_weights"].at((s,))))
            h.once("mask marks exactly the boundary hits", implies(rng, kw["hits_boundary_mask"].at((s,)) == hit(box["maps"][d + "_xt_primes"].at((*p, s)), nx, mxg)))
            h.once("y of the cell", kw["y"] == p[1])
            h.once("y offset of the direction", kw["y_offset"] == (1 if d == "forward" else -1))
            h.once("guard width", kw["mxg"] == mxg)
            if kw["cell_number"] is not box["cn"]:
                raise Unsupported("cell numbers passed on are not the ones given")
            if kw["matrix_builder"] is not box["obj"]:
                raise Unsupported("matrix builder")

    def post(o):
        if not h.must_return(o):
            return
        h.prove("one row per leg", box["ghost_rows"] == ints("n_legs")[0])
        for k, b in (("weights", "w"), ("columns", "c"), ("rows", "r")):
            h.prove(f"exported {k}", True if o.value[k] is box[b] else False)

    h.unit(f"build_leg_destination_operator ({d})", run, post,
           ["weights.build_leg_destination_operator", "weights.classify_leg_contributions"], iter_hook=hook)


def wiring_unit(h, m):
    """calculate_parallel_map_operators stores each result under its own name."""
    box = {}

    def mkfun(nm, keys):
        def f(*a):
            r = {k: object() for k in keys}
            box.setdefault(nm, []).append((a, r))
            return r
        return f

    names = ["assign_cell_space_numbers", "build_leg_space_metadata", "build_leg_destination_operator", "build_leg_weight_vector"]
    for n in names:
        if not hasattr(m, n):
            raise Unsupported(n)

    def vec(ls):
        r = object()
        box.setdefault("vec", []).append((ls, r))
        return r

    m.assign_cell_space_numbers = mkfun("cells", ["N_cells", "N_evolving", "cell_number", "forward_boundary_number", "backward_boundary_number"])
    m.build_leg_space_metadata = mkfun("legs", ["direction_name", "n_legs", "interior_leg_number", "boundary_leg_number", "interior_fraction", "boundary_fraction", "has_interior_leg", "has_boundary_leg"])
    m.build_leg_destination_operator = mkfun("op", ["weights", "columns", "rows"])
    m.build_leg_weight_vector = vec
    maps = {"tag": 1}

    def run():
        box.clear()
        return m.calculate_parallel_map_operators(maps)

    def post(o):
        if not h.must_return(o):
            return
        r = o.value
        if len(box.get("cells", [])) != 1 or len(box.get("legs", [])) != 2 or len(box.get("op", [])) != 2 or len(box.get("vec", [])) != 2:
            raise Unsupported("calls of calculate_parallel_map_operators")
        (ca, cs), = box["cells"]
        ok = {}
        ok["maps"] = ca[0] is maps
        ok["total_cells"] = r["total_cells"] is cs["N_cells"]
        ok["cell_number"] = r["cell_number"] is cs["cell_number"]
        for d, D in (("forward", m.FORWARD_DIRECTION), ("backward", m.BACKWARD_DIRECTION)):
            ls = [x for a, x in box["legs"] if a[2] is D and a[0] is cs and a[1] is maps]
            op = [x for a, x in box["op"] if a[3] is D and a[0] is cs and a[2] is maps and ls and a[1] is ls[0]]
            vc = [x for a, x in box["vec"] if ls and a is ls[0]]
            ok[f"{d} calls"] = len(ls) == 1 and len(op) == 1 and len(vc) == 1
            if not ok[f"{d} calls"]:
                continue
            ok[f"{d}_cell_number"] = r[f"{d}_cell_number"] is cs[f"{d}_boundary_number"]
            ok[f"n_{d}_legs"] = r[f"n_{d}_legs"] is ls[0]["n_legs"]
            ok[f"{d}_leg_interior_number"] = r[f"{d}_leg_interior_number"] is ls[0]["interior_leg_number"]
            ok[f"{d}_leg_boundary_number"] = r[f"{d}_leg_boundary_number"] is ls[0]["boundary_leg_number"]
            ok[f"{d}_leg_weights"] = r[f"{d}_leg_weights"] is vc[0]
            for k in ("weights", "columns", "rows"):
                ok[f"{d}_{k}"] = r[f"{d}_{k}"] is op[0][k]
        for k, v in ok.items():
            h.prove(f"{k} is the matching result", v)

    h.unit("calculate_parallel_map_operators", run, post, ["weights.calculate_parallel_map_operators"])


def proofs(h):
    m = loader.World().load("weights")
    shift_unit(h, m)
    catmull_unit(h, m)
    stencil_unit(h, m, rows_only=True)
    for d in ("FORWARD_DIRECTION", "BACKWARD_DIRECTION"):
        operator_unit(h, loader.World().load("weights"), d)
    wiring_unit(h, loader.World().load("weights"))
