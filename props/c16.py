"""C16: slab, stellarator and Dommaschk fields; sympy enters through its contract (symexpr.py)."""
import z3
from pyvc import core, ring
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, mk
from pyvc.arrays import input_array, SArray, asarr, make
from pyvc.harness import ints, reals
from props.symexpr import world, deriv, replace


def proofs(h):
    m = world().load("field")
    for nd in (1, 2):
        slab(h, m, nd, False)
        slab(h, m, nd, True)
    for cls in ("StraightStellarator", "RotatingEllipse"):
        stell(h, m, cls)
    for n in range(4):
        for l in range(4):
            dommaschk(h, m, n, l)
    h.assume("sympy enters by contract: sums, products, sin, cos, log, sqrt, diff and lambdify mean the mathematical functions; "
             "sine and cosine of atan2(y, x) are y/r and x/r", "np.pi stands for pi", "floating-point coefficients as exact rationals")


def points(nd):
    c = CTX()
    d = ints("m0", "m1")[:nd]
    c.assume(land(*[v >= 1 for v in d]))
    return tuple(d), [input_array(n, d, "r") for n in ("px", "pz")]


def at(v, q):
    return v.at(q) if isinstance(v, SArray) and v.ndim else v


def shape_ok(h, name, v, d):
    """an array of the shape of the positions, or a plain number"""
    if isinstance(v, SArray) and v.ndim:
        h.prove(f"shape of {name}", land(len(v.shape) == len(d), *[a == b for a, b in zip(v.shape, d)]))


def slab(h, m, nd, curved):
    def run():
        d, (x, w) = points(nd)
        By, Bz, xc, Bp, Rm = reals("By", "Bz", "xc", "Bp", "Rm")
        f = m.CurvedSlab(By=By, Bz=Bz, xcentre=xc, Bzprime=Bp, Rmaj=Rm) if curved else m.Slab(By=By, Bz=Bz, xcentre=xc, Bzprime=Bp)
        y = reals("y")[0]
        return [g(x, w, y) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc, f.Rfunc, f.pressure)], x

    def post(o):
        if not h.must_return(o):
            return
        (bx, by, bz, r, p), x = o.value
        By, Bz, xc, Bp, Rm = reals("By", "Bz", "xc", "Bp", "Rm")
        d = ints("m0", "m1")[:nd]
        q = tuple(ints("q0", "q1")[:nd])
        hy = [land(*[land(a >= 0, a < b) for a, b in zip(q, d)])]
        for n, v in (("Bx", bx), ("By", by), ("Bz", bz), ("pressure", p)):
            shape_ok(h, n, v, d)
        h.prove("Bx is zero", at(bx, q) == 0, hy)
        h.prove("By is the given constant", at(by, q) == By, hy)
        h.prove("Bz is linear in x with the given value and slope", at(bz, q) == Bz + Bp * (x.at(q) - xc), hy)
        if curved:
            h.prove("R is the given major radius", at(r, q) == Rm, hy)
        else:
            h.prove("Cartesian", r is None)

    h.unit(f"{'CurvedSlab' if curved else 'Slab'} (rank {nd})", run, post,
           ["field.CurvedSlab" if curved else "field.Slab"])


def same_terms(a, b, shift, h):
    """replace SIN/COS of t by SIN/COS of t - 2 pi where that is an argument in b"""
    from props.symexpr import PI
    apps = {}

    def collect(t, out):
        if t.get_id() in out:
            return
        out[t.get_id()] = t
        for c in t.children():
            collect(c, out)

    A, B = {}, {}
    collect(a, A)
    collect(b, B)
    args = [t.arg(0) for t in B.values() if t.decl().name() in ("SIN", "COS")]
    sub = []
    for t in A.values():
        if t.decl().name() in ("SIN", "COS"):
            for g in args:
                ok, side = ring.ring_equal(t.arg(0), g + z(2 * PI, "r"))
                if ok:
                    sub.append((t, t.decl()(g)))
                    break
    return z3.substitute(a, *sub) if sub else a


def same_radius(h, terms, radii):
    """radii of the code (arguments of SQRT, LOG, denominators) that equal a spec radius: positive as those are"""
    seen, st, cand = set(), list(terms), {}
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        st.extend(t.children())
        if t.decl().name() in ("SQRT", "LOG"):
            cand[t.arg(0).get_id()] = t.arg(0)
        elif t.decl().kind() == z3.Z3_OP_DIV:
            cand[t.arg(1).get_id()] = t.arg(1)
    out = []
    for a in cand.values():
        for r in radii:
            try:
                if ring.ring_equal(a, z(r))[0]:
                    if h.prove("a radius of the code is the distance to a coil", S(a, "r") == r, [lnot(reals("yp")[0] == 0)]):
                        out.append(a > 0)
                    break
            except ring.No:
                pass
    return out


def stell(h, m, cls):
    def run():
        c = CTX()
        xc, zc, rad, yp, ic, bt = reals("xc", "zc", "rad", "yp", "ic", "bt")
        c.assume(lnot(yp == 0))
        kw = dict(xcentre=xc, zcentre=zc, radius=rad, yperiod=yp, I_coil=ic)
        if cls == "RotatingEllipse":
            kw["Btor"] = bt
        f = getattr(m, cls)(**kw)
        X, Z, Y = reals("X", "Z", "Y")
        d, (x, w) = points(1)
        sc = [g(X, Z, Y) for g in (f.Bxfunc, f.Bzfunc, f.Afunc)]
        sh = [g(X, Z, Y + yp) for g in (f.Bxfunc, f.Bzfunc)]
        arr = [g(x, w, Y) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
        return sc, sh, arr, x

    def post(o):
        if not h.must_return(o):
            return
        (bx, bz, A), sh, arr, x = o.value
        X, Z, Y, xc, zc, rad, yp, ic, bt = reals("X", "Z", "Y", "xc", "zc", "rad", "yp", "ic", "bt")
        from props.symexpr import cos, sin, PI
        q, d = ints("q0", "m0")
        off, radii = [], []
        ex = ez = 0
        for i in range(4):
            an = 2 * PI / yp * Y + PI * i / 2
            dx, dz = X - xc - rad * cos(an), Z - zc - rad * sin(an)
            b = (-1)**i * ic / 5 / (dx * dx + dz * dz)
            radii.append(dx * dx + dz * dz)
            off.append(radii[-1] > 0)
            ex, ez = ex + b * dz, ez - b * dx
        off += same_radius(h, [z(bx), z(bz), z(A), z(sh[0]), z(sh[1]), z(deriv(A, Z)), z(deriv(A, X))], radii) + [lnot(yp == 0)]
        h.prove_addends("B is the curl of the vector potential (x)", bx, -deriv(A, Z), off)
        h.prove_addends("B is the curl of the vector potential (z)", bz, deriv(A, X), off)
        h.prove_addends("four line currents of alternating sign, turning once per period (x)", bx, ex, off)
        h.prove_addends("four line currents of alternating sign, turning once per period (z)", bz, ez, off)
        for n, a, b in (("x", sh[0], bx), ("z", sh[1], bz)):
            t = same_terms(z3.simplify(z(a)), z3.simplify(z(b)), None, h)
            h.prove_addends(f"the field repeats after one period ({n})", S(t, "r"), b, off + [lnot(yp == 0)])
        hy = [land(q >= 0, q < d)]
        for n, v in zip(("Bx", "By", "Bz"), arr):
            shape_ok(h, n, v, (d,))
        if cls == "StraightStellarator":
            h.prove("By is one", at(arr[1], (q,)) == 1, hy)
        else:
            h.prove("By is the toroidal field over x", at(arr[1], (q,)) * x.at((q,)) == bt, hy + [lnot(x.at((q,)) == 0)])

    h.unit(cls, run, post, [f"field.{cls}.__init__", f"field.{cls}.coil", "field.MagneticField.Byfunc"], time_limit=100)


def dommaschk(h, m, n, l):
    def run():
        c = CTX()
        R0, B0 = reals("R0", "B0")
        co = reals("ca", "cb", "cc", "cd")
        c.assume(land(R0 > 0, lnot(co[0] == 0)))
        A = make((n + 1, l + 1, 4), "r", lambda ix: co[ix[2]] if ix[0] == n and ix[1] == l else 0)
        f = m.DommaschkPotentials(A, R0, B0)
        X, Z, Y = reals("X", "Z", "Y")
        c.assume(X > 0)
        return [g(X, Z, Y) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)] + [f.Byf(R0, 0, 0), f.Byfunc(R0, 0, 0), f.Rfunc(X, Z, Y)]

    def post(o):
        if not h.must_return(o):
            return
        bR, bP, bZ, c0, ax, r = o.value
        X, Z, Y, R0, B0 = reals("X", "Z", "Y", "R0", "B0")
        hy = [X > 0, R0 > 0, lnot(c0 == 0)] if isinstance(c0, S) else [X > 0, R0 > 0]
        kw = dict(isolated=True)
        h.prove("divergence free", deriv(X * bR, X) / X + deriv(bP, Y) / X + deriv(bZ, Z) == 0, hy, **kw)
        h.prove("curl free (R)", deriv(bZ, Y) / X - deriv(bP, Z) == 0, hy, **kw)
        h.prove("curl free (phi)", deriv(bR, Z) - deriv(bZ, X) == 0, hy, **kw)
        h.prove("curl free (Z)", deriv(X * bP, X) / X - deriv(bR, Y) / X == 0, hy, **kw)
        h.prove("normalised on the axis", ax == B0, hy, **kw)
        h.prove("R is x", r == X, hy, **kw)

    h.unit(f"DommaschkPotentials (mode {n}, {l})", run, post,
           ["field.DommaschkPotentials." + k for k in ("__init__", "U", "V", "D", "N", "CD", "CN", "Bxfunc", "Byfunc", "Bzfunc", "Rfunc")], time_limit=60)
