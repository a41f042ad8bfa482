"""C15: MagneticField.field_direction and Bmag for arbitrary fields and any number of positions."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, sqrt
from pyvc.arrays import input_array, elementwise, make, reduce_any, SArray, asarr
from pyvc.harness import ints, reals

RS = z3.RealSort()
F = {n: z3.Function("F" + n, RS, RS, RS, RS) for n in ("x", "y", "z", "r")}


def app(n, x, w, phi):
    return elementwise(lambda a, b, c: S(F[n](z(a, "r"), z(b, "r"), z(c, "r")), "r"), x, w, phi, k="r") \
        if any(isinstance(v, SArray) for v in (x, w, phi)) else S(F[n](z(x, "r"), z(w, "r"), z(phi, "r")), "r")


def field_class(m, cyl, combined):
    class U(m.MagneticField):
        def Bxfunc(self, x, z, phi):
            return app("x", x, z, phi)

        def Byfunc(self, x, z, phi):
            return app("y", x, z, phi)

        def Bzfunc(self, x, z, phi):
            return app("z", x, z, phi)

        def Rfunc(self, x, z, phi):
            return app("r", x, z, phi) if cyl else None

    if combined:
        U.Bxyzfunc = lambda self, x, z, phi: (app("x", x, z, phi), app("y", x, z, phi), app("z", x, z, phi))
    return U


def proofs(h):
    m = loader.World().load("field")
    if not hasattr(m, "MagneticField"):
        raise Unsupported("MagneticField")
    for cyl in (False, True):
        for combined in (False, True):
            for form in ("flat", "arrays", "2-row array", "scalars"):
                direction(h, m, cyl, combined, form)
    mag(h, m)


def direction(h, m, cyl, combined, form):
    U = field_class(m, cyl, combined)
    box = {}

    def run():
        n = ints("n")[0]
        y = reals("y")[0]
        CTX().assume(n >= 1)
        f = U()
        if form == "flat":
            pos = input_array("p", (2 * n,))
            box.update(X=lambda i: pos.at((2 * i,)), Z=lambda i: pos.at((2 * i + 1,)), pos=pos)
            return f.field_direction(pos, y, flatten=True)
        if form == "scalars":
            a, b = reals("a", "b")
            box.update(X=lambda i: a, Z=lambda i: b)
            return f.field_direction([a, b], y)
        if form == "arrays":
            a, b = input_array("a", (n,)), input_array("b", (n,))
            box.update(X=lambda i: a.at((i,)), Z=lambda i: b.at((i,)))
            return f.field_direction([a, b], y)
        a = input_array("ab", (2, n))
        box.update(X=lambda i: a.at((0, i)), Z=lambda i: a.at((1, i)))
        return f.field_direction(a, y)

    def post(o):
        n, i = ints("n", "i")
        y = reals("y")[0]
        X, Z = box["X"], box["Z"]
        B = lambda c, j: S(F[c](z(X(j)), z(Z(j)), z(y)), "r")
        small = lambda j: land(B("y", j) < 1e-8, B("y", j) > -1e-8)
        if o.kind != "return":
            if not isinstance(o.value, ValueError):
                h.must_return(o)
                return
            if form == "scalars":
                h.prove("refused only where |By| < 1e-8", small(0))
            else:
                h.prove("refused only where |By| < 1e-8", reduce_any(make((n,), "b", lambda j: small(j[0]))))
            return
        hy = [land(i >= 0, i < n)]
        r = o.value
        if form == "flat":
            h.prove("length of the flat result", land(len(r.shape) == 1, r.shape[0] == 2 * n))
            dx, dz = r.at((2 * i,)), r.at((2 * i + 1,))
        else:
            h.prove("two components", len(r) == 2)
            g = lambda v: v.at((i,)) if isinstance(v, SArray) and v.ndim else (v.at(()) if isinstance(v, SArray) else v)
            dx, dz = g(r[0]), g(r[1])
        R = B("r", i) if cyl else 1
        h.prove("accepted only where |By| >= 1e-8 everywhere", lnot(small(i)), hy)
        # multiply out: By is not zero
        h.prove("By is not zero", lnot(B("y", i) == 0), hy)
        hy = hy + [lnot(B("y", i) == 0)]
        h.prove("x component is R*Bx/By of its own line", dx == R * B("x", i) / B("y", i), hy)
        h.prove("z component is R*Bz/By of its own line", dz == R * B("z", i) / B("y", i), hy)

    h.unit(f"field_direction ({'cylindrical' if cyl else 'Cartesian'}, {form}{', Bxyzfunc' if combined else ''})", run, post,
           ["field.MagneticField.field_direction"])


def mag(h, m):
    U = field_class(m, True, False)

    def run():
        n = ints("n")[0]
        CTX().assume(n >= 1)
        a, b, c = [input_array(k, (n,)) for k in "abc"]
        return U().Bmag(a, b, c), U().Bmag(*reals("a0", "b0", "c0")), a, b, c

    def post(o):
        if not h.must_return(o):
            return
        r, s, a, b, c = o.value
        n, i = ints("n", "i")
        B = lambda k: S(F[k](z(a.at((i,))), z(b.at((i,))), z(c.at((i,)))), "r")
        q = B("x") * B("x") + B("y") * B("y") + B("z") * B("z")
        v = r.at((i,))
        h.prove("Bmag squared is the sum of the squared components", v * v == q, [land(i >= 0, i < n)])
        h.prove("Bmag is not negative", v >= 0, [land(i >= 0, i < n)])
        a0, b0, c0 = reals("a0", "b0", "c0")
        B = lambda k: S(F[k](z(a0), z(b0), z(c0)), "r")
        v = s.at(()) if isinstance(s, SArray) else s
        h.prove("same for a single position", land(v * v == B("x") * B("x") + B("y") * B("y") + B("z") * B("z"), v >= 0))

    h.unit("Bmag", run, post, ["field.MagneticField.Bmag"])
