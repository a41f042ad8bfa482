"""C29: c2 and c4, any size, ranks 1 to 3, every axis."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, implies, ite, z
from pyvc.arrays import input_array, make
from pyvc.harness import ints, reals


def proofs(h):
    m = loader.World().load("diff")
    for name, deg in (("c2", 2), ("c4", 4)):
        fn = getattr(m, name, None)
        if fn is None:
            raise Unsupported(name)
        for rank in (1, 2, 3):
            for axis in list(range(rank)) + [-1]:
                for k in ("r", "i") if rank == 1 else ("r",):
                    edges(h, fn, name, deg, rank, axis, k)
                periodic(h, fn, name, rank, axis)


def dims(rank):
    return ints(*[f"n{i}" for i in range(rank)])


def other(idx, ax):
    return [z(v, "i") for i, v in enumerate(idx) if i != ax]


def poly(co, idx, ax, d):
    i = idx[ax]
    v, p = 0, 1
    for e, c in enumerate(co):
        t = S(c(*other(idx, ax)) if other(idx, ax) else c(), c.range() == z3.IntSort() and "i" or "r")
        if not d:
            v = v + t * p
        elif e:
            v = v + e * t * p
        if not d or e:
            p = p * i
    return v


def edges(h, fn, name, deg, rank, axis, k):
    ax = axis % rank
    sort = z3.RealSort() if k == "r" else z3.IntSort()
    co = [z3.Function(f"co{e}", *([z3.IntSort()] * (rank - 1) + [sort])) for e in range(deg + 1)]
    box = {}

    def run():
        n = dims(rank)
        c = CTX()
        for i, a in enumerate(n):
            c.assume(a >= (deg + 1 if i == ax else 1))
        f = make(tuple(n), k, lambda idx: poly(co, idx, ax, 0))
        box["f"] = f
        return fn(f, axis)

    def post(o):
        if not h.must_return(o):
            return
        r = o.value
        n, p = dims(rank), ints(*[f"p{i}" for i in range(rank)])
        inr = land(*[land(a >= 0, a < b) for a, b in zip(p, n)])
        h.prove("shape", land(len(r.shape) == rank, *[a == b for a, b in zip(r.shape, n)]))
        h.prove(f"exact derivative of data of degree {deg}", r.at(tuple(p)) == poly(co, p, ax, 1), [inr])
        h.prove("input unchanged", box["f"].at(tuple(p)) == poly(co, p, ax, 0), [inr])

    h.unit(f"{name} rank {rank} axis {axis} {'integers' if k == 'i' else 'reals'}", run, post, [f"diff.{name}"])


def periodic(h, fn, name, rank, axis):
    ax = axis % rank
    box = {}

    def run():
        n = dims(rank)
        for a in n:
            CTX().assume(a >= 1)
        f = input_array("f", tuple(n))
        box["f"] = f
        return fn(f, axis, periodic=True)

    def post(o):
        if not h.must_return(o):
            return
        r, f = o.value, box["f"]
        n, p = dims(rank), ints(*[f"p{i}" for i in range(rank)])
        inr = land(*[land(a >= 0, a < b) for a, b in zip(p, n)])

        def t(o):
            q = list(p)
            q[ax] = (p[ax] + o) % n[ax]
            return f.at(tuple(q))

        spec = (t(1) - t(-1)) / 2 if name == "c2" else (8 * (t(1) - t(-1)) - (t(2) - t(-2))) / 12
        h.prove("shape", land(len(r.shape) == rank, *[a == b for a, b in zip(r.shape, n)]))
        h.prove("wrapped central difference", r.at(tuple(p)) == spec, [inr])
        ref = input_array("f", tuple(n))
        h.prove("input unchanged", f.at(tuple(p)) == ref.at(tuple(p)), [inr])

    h.unit(f"{name} periodic rank {rank} axis {axis}", run, post, [f"diff.{name}"])
