"""C02: leg numbering is complete, leg weights of a cell sum to one (all sizes symbolic)."""
import z3
from pyvc.core import CTX, S, land, lor, lnot, implies, ite, big_sum, z
from pyvc.arrays import input_array, make, reduce_any, reduce_sum
from pyvc.harness import ints, lex_cases
from pyvc import loader
from props.c01 import setup, inside, hit


def proofs(h):
    m = loader.World().load("weights")
    for direction in ("FORWARD_DIRECTION", "BACKWARD_DIRECTION"):
        for kind in ("primes", "centre map only"):
            leg_numbers(h, m, direction, kind)
    leg_weights(h, m)


def leg_numbers(h, m, direction, kind):
    d = direction.split("_")[0].lower()
    box = {}

    def run():
        maps, dims = setup(kind)
        box["maps"], box["dims"] = maps, dims
        nx, ny, nz, mxg, ns = dims
        if kind == "primes":
            w = input_array("w", (ns,))
            maps["subcell_weights"] = w
            CTX().assume(reduce_sum(w) == 1)
        cs = {"cell_number": input_array("cell_number", (nx, ny, nz), "i")}
        return m.build_leg_space_metadata(cs, maps, getattr(m, direction))

    def post(o):
        if not h.must_return(o):
            return
        nx, ny, nz, mxg, ns = box["dims"]
        maps = box["maps"]
        r = o.value
        I, B, n = r["interior_leg_number"], r["boundary_leg_number"], r["n_legs"]
        p, q = ints("x1", "y1", "z1"), ints("x2", "y2", "z2")
        inr = inside(p, nx, ny, nz)
        inter = land(p[0] >= mxg, p[0] < nx - mxg)
        if kind == "primes":
            xs = maps[d + "_xt_primes"]
            hb = reduce_any(make((ns,), "b", lambda w: hit(xs.at((*p, w[0])), nx, mxg)))
            hi = reduce_any(make((ns,), "b", lambda w: lnot(hit(xs.at((*p, w[0])), nx, mxg))))
        else:
            hb = hit(maps[d + "_xt_prime"].at(tuple(p)), nx, mxg)
            hi = lnot(hb)
        for X, some, nm in ((I, hi, "interior"), (B, hb, "boundary")):
            v = X.at(tuple(p))
            h.prove(f"{nm} leg exists exactly when a sub-sample is {nm}", land(v >= 0, v < n), [inr, inter, some], sum_rounds=3)
            h.prove(f"no {nm} leg without such a sub-sample", v == -1, [inr, inter, lnot(some)])
            h.prove(f"no {nm} leg outside the interior", v == -1, [inr, lnot(inter)])
            has = r[f"has_{nm}_leg"].at(tuple(p))
            h.prove(f"has_{nm}_leg agrees with the numbering", has == (v >= 0), [inr], sum_rounds=3)
        for nm, q2, cs in lex_cases(p, q):
            for X, Y, pn in ((I, I, "interior/interior"), (B, B, "boundary/boundary"), (I, B, "interior/boundary"), (B, I, "boundary/interior")):
                a, b = X.at(tuple(p)), Y.at(tuple(q2))
                h.prove(f"{pn} leg numbers of different cells differ ({nm})", a != b,
                        [inr, inside(q2, nx, ny, nz), cs, a >= 0, b >= 0], sum_rounds=3)
        a, b = I.at(tuple(p)), B.at(tuple(p))
        h.prove("the two legs of a cell differ", a != b, [inr, a >= 0, b >= 0], sum_rounds=3)
        cnt = big_sum(mxg, nx - mxg, lambda x: big_sum(0, ny, lambda y: big_sum(0, nz, lambda k: ite(I.at((x, y, k)) >= 0, 1, 0) + ite(B.at((x, y, k)) >= 0, 1, 0))))
        if kind == "primes":
            h.prove_sum_eq("n_legs is the number of legs", n, cnt, sum_rounds=3)
        else:
            one = (a >= 0) != (b >= 0)
            h.prove("one leg per interior cell", one, [inr, inter], sum_rounds=3)
            h.prove("n_legs is the number of legs", n == (nx - 2 * mxg) * ny * nz)
        # fractions
        fi, fb = r["interior_fraction"].at(tuple(p)), r["boundary_fraction"].at(tuple(p))
        if kind == "primes":
            w, xs = maps["subcell_weights"], maps[d + "_xt_primes"]
            si = big_sum(0, ns, lambda s: ite(hit(xs.at((*p, s)), nx, mxg), 0, w.at((s,))))
            sb = big_sum(0, ns, lambda s: ite(hit(xs.at((*p, s)), nx, mxg), w.at((s,)), 0))
            h.prove_sum_eq("interior_fraction is the weight of the inside sub-samples", ite(inter, fi, 0), ite(inter, si, 0), [inr])
            h.prove_sum_eq("boundary_fraction is the weight of the boundary sub-samples", ite(inter, fb, 0), ite(inter, sb, 0), [inr])
            # si + sb = sum(w) is linearity of the sum
            h.prove("fractions add to one", si + sb == 1, [inr], sums="full")
        else:
            h.prove("fractions", land(fi == ite(hb, 0, 1), fb == ite(hb, 1, 0)), [inr, inter])

    h.unit(f"build_leg_space_metadata ({d}, {kind})", run, post,
           ["weights.build_leg_space_metadata", "weights.classify_leg_contributions", "weights._get_subcell_weights", "weights.hits_radial_boundary"])


def leg_weights(h, m):
    box = {}

    def run():
        nx, ny, nz, n = ints("nx", "ny", "nz", "n")
        c = CTX()
        for a in (nx, ny, nz):
            c.assume(a >= 1)
        c.assume(n >= 0)
        sh = (nx, ny, nz)
        I, B = input_array("I", sh, "i"), input_array("B", sh, "i")
        fi, fb = input_array("fi", sh), input_array("fb", sh)
        hi, hb = input_array("hi", sh, "b"), input_array("hb", sh, "b")
        # contract of build_leg_space_metadata
        p, q = [z3.Int(v) for v in ("p0", "p1", "p2")], [z3.Int(v) for v in ("q0", "q1", "q2")]
        P, Q = [S(v, "i") for v in p], [S(v, "i") for v in q]
        ip, iq = inside(P, nx, ny, nz), inside(Q, nx, ny, nz)
        eq = land(*[a == b for a, b in zip(P, Q)])
        t = lambda A, i: A.at(tuple(i))
        c.assume(S(z3.ForAll(p, z(implies(ip, land(implies(t(hi, P), land(t(I, P) >= 0, t(I, P) < n)), implies(t(hb, P), land(t(B, P) >= 0, t(B, P) < n)),
                                                   implies(land(t(hi, P), t(hb, P)), t(I, P) != t(B, P)))), "b")), "b"))
        c.assume(S(z3.ForAll(p + q, z(implies(land(ip, iq, lnot(eq)), land(
            implies(land(t(hi, P), t(hi, Q)), t(I, P) != t(I, Q)),
            implies(land(t(hb, P), t(hb, Q)), t(B, P) != t(B, Q)),
            implies(land(t(hi, P), t(hb, Q)), t(I, P) != t(B, Q)))), "b")), "b"))
        box.update(dims=(nx, ny, nz), I=I, B=B, fi=fi, fb=fb, hi=hi, hb=hb, n=n)
        return m.build_leg_weight_vector(dict(n_legs=n, interior_leg_number=I, boundary_leg_number=B, interior_fraction=fi,
                                              boundary_fraction=fb, has_interior_leg=hi, has_boundary_leg=hb))

    def post(o):
        if not h.must_return(o):
            return
        W = o.value
        p = ints("x1", "y1", "z1")
        inr = inside(p, *box["dims"])
        g = {k: box[k].at(tuple(p)) for k in ("I", "B", "fi", "fb", "hi", "hb")}
        h.prove("one weight per leg", W.shape[0] == box["n"])
        h.prove("split cell: interior leg weight", W.at((g["I"],)) == g["fi"], [inr, g["hi"], g["hb"]])
        h.prove("split cell: boundary leg weight", W.at((g["B"],)) == g["fb"], [inr, g["hi"], g["hb"]])
        h.prove("whole cell: interior leg weight", W.at((g["I"],)) == 1, [inr, g["hi"], lnot(g["hb"])])
        h.prove("whole cell: boundary leg weight", W.at((g["B"],)) == 1, [inr, lnot(g["hi"]), g["hb"]])

    h.unit("build_leg_weight_vector", run, post, ["weights.build_leg_weight_vector"])
