"""C18: FieldTracer.follow_field_lines; scipy's odeint enters by contract (one line's trajectory per pair of entries)."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z, concrete_int
from pyvc.arrays import input_array, SArray, asarr, make
from pyvc.harness import ints, reals
from pyvc.loader import Stub

RS = z3.RealSort()
FL = {n: z3.Function("TR" + n, RS, RS, RS, RS, RS) for n in "xz"}


def r_(f, *a):
    return S(f(*[z(v, "r") for v in a]), "r")


def odeint(func, pos, t, args=(), rtol=None, **kw):
    """contract: with the flattened right-hand side, entries 2i and 2i+1 at time t are the line started at those entries"""
    c = CTX()
    h = c.ghost["h"]
    if kw:
        raise Unsupported(f"odeint options {sorted(kw)}")
    c.ghost["calls"] = c.ghost.get("calls", 0) + 1
    ok = func is c.ghost["field"] and tuple(args) == (True,)
    if not ok:
        raise Unsupported("odeint with another right-hand side")
    pos, t = asarr(pos), asarr(t)
    h.prove("tolerance passed on", rtol is c.ghost["rtol"])
    h.prove("flat positions", pos.ndim == 1 and t.ndim == 1)
    n = pos.shape[0]
    h.prove("x and z of every line", n % 2 == 0)

    def cell(ix):
        y, i = ix
        e = i % 2 if isinstance(i, int) else S(z3.simplify(z(i, "i") % 2), "i")
        b = i - e
        x, w = pos.at((b,)), pos.at((b + 1,))
        y0, y1 = t.at((0,)), t.at((y,))
        def tr(n_, own):
            return ite(y == 0, own, r_(FL[n_], x, w, y0, y1))
        return ite(e == 0, tr("x", x), tr("z", w))

    return make((t.shape[0], n), "r", cell)


class Field:
    def field_direction(self, *a, **k):
        raise Unsupported("right-hand side called directly")


def mod():
    si = Stub("scipy.integrate", odeint=odeint)
    mp = Stub("multiprocessing", Pool=None)
    return loader.World(stubs={"scipy": Stub("scipy", integrate=si), "scipy.integrate": si, "multiprocessing": mp,
                               "eudist": Stub("eudist", PolyMesh=object)}).load("fieldtracer")


def proofs(h):
    m = mod()
    cases = [("1D", "1D"), ("scalar", "1D"), ("1D", "scalar"), ("scalar", "scalar"), ("2D", "2D"), ("scalar", "2D"), ("2D", "scalar"), ("1D1", "2D")]
    for a, b in cases:
        unit(h, m, a, b, 0)
    for nc in (1, 2, 3):
        unit(h, m, "1D", "1D", nc)
    unit(h, m, "scalar", "1D", 2)
    h.assume("scipy.integrate.odeint: with the flattened field direction the solution components of different lines do not mix, and row 0 is the start",
             "1000 to 3999 lines enter as 1 to 3 pieces")


def unit(h, m, ka, kb, chunk):
    def shape(kd):
        d = ints("m0", "m1", "m2")
        return {"scalar": None, "1D": (d[0],), "1D1": (1,), "2D": (d[0], d[1]), "3D": (d[0], d[1], d[2])}[kd]

    big = {"scalar": 0, "1D1": 0, "1D": 1, "2D": 2, "3D": 3}

    def run():
        c = CTX()
        f = Field()
        c.ghost["h"] = h
        d = ints("m0", "m1", "m2")
        ny = ints("ny")[0]
        c.assume(land(*[v >= 1 for v in d], ny >= 2))
        nd = max(big[ka], big[kb])
        tot = 1
        for v in d[:nd]:
            tot = tot * v
        if nd:
            c.assume(land(tot >= 1000 * chunk, tot < 1000 * (chunk + 1)))
        tracer = m.FieldTracer(f)
        c.ghost["field"] = tracer.field_direction
        rt = reals("rtol")[0]
        c.ghost["rtol"] = rt
        mk = lambda n, kd: reals(n)[0] if shape(kd) is None else input_array(n, shape(kd), "r")
        x, w = mk("sx", ka), mk("sz", kb)
        y = input_array("sy", (ny,), "r")
        keep = [v.buf.reader() if isinstance(v, SArray) else None for v in (x, w, y)]
        return tracer.follow_field_lines(x, w, y, rtol=rt), (x, w, y), keep

    def post(o):
        if not h.must_return(o):
            return
        r, (x, w, y), keep = o.value
        d = ints("m0", "m1", "m2")
        ny = ints("ny")[0]
        nd = max(big[ka], big[kb])
        sh = tuple(d[:nd]) if nd else (1,)
        want = (ny,) + sh + (2,)
        if not isinstance(r, SArray):
            raise Unsupported("result type")
        h.prove("shape (len(y),) + shape of the starts + (2,)", land(len(r.shape) == len(want), *[a == b for a, b in zip(r.shape, want)]))
        if len(r.shape) != len(want):
            return
        t = ints("t")[0]
        q = ints("q0", "q1", "q2")[:len(sh)]
        hy = [land(t >= 0, t < ny, *[land(a >= 0, a < b) for a, b in zip(q, sh)])]
        get = lambda v: v if not isinstance(v, SArray) else v.at(tuple(q) if v.ndim == len(q) and not (v.shape == (1,) and len(q) == 1) else (0,))
        X, W = get(x), get(w)
        y0 = y.at((0,))
        for e, own in ((0, X), (1, W)):
            h.prove(f"entry 0 is the start position ({'xz'[e]})", r.at((0,) + tuple(q) + (e,)) == own, hy)
            h.prove(f"each line is traced from its own start ({'xz'[e]})", r.at((t,) + tuple(q) + (e,)) == r_(FL["xz"[e]], X, W, y0, y.at((t,))),
                    hy + [t > 0])
        for v, old, nm in zip((x, w, y), keep, "xzy"):
            if isinstance(v, SArray):
                s = ints(*[f"s{i}" for i in range(v.ndim)])
                s = tuple(s)
                rg = [land(*[land(a >= 0, a < b) for a, b in zip(s, v.shape)])]
                h.prove(f"caller's {nm} unchanged", v.at(s) == old(s), rg)

    h.unit(f"follow_field_lines (x {ka}, z {kb}{', %d piece(s)' % chunk if chunk else ''})", run, post,
           ["fieldtracer.FieldTracer.__init__", "fieldtracer.FieldTracer.follow_field_lines"], time_limit=60)
