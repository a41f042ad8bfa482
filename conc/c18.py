import contextlib
import sys
import time
import types

import numpy as np
from run import Skip
from fcommon import make
from zoidberg import field, fieldtracer


def rk4(f, x, z, ys, n=40):
    """reference trajectory of one set of independent lines"""
    out = [(x, z)]
    for a, b in zip(ys[:-1], ys[1:]):
        h = (b - a) / n
        y = a
        g = lambda x, z, y: f.field_direction([x, z], y)
        for _ in range(n):
            k1 = g(x, z, y)
            k2 = g(x + h / 2 * k1[0], z + h / 2 * k1[1], y + h / 2)
            k3 = g(x + h / 2 * k2[0], z + h / 2 * k2[1], y + h / 2)
            k4 = g(x + h * k3[0], z + h * k3[1], y + h)
            x = x + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
            z = z + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
            y = y + h
        out.append((x, z))
    return np.moveaxis(np.array(out), 1, -1)


def ys(R):
    n = R.choice([2, 2, 3, 5])
    y = np.cumsum(R.array(n, 0.05, 0.4)) + R.real(-2, 2)
    return y[::-1] if R.coin() else y


def starts(R):
    shape = R.choice([(1,), (2,), (5,), (2, 3), (3, 1, 2), ()])
    x, z = R.array(shape, 1, 3), R.array(shape, -1, 1)
    how = R.choice(["both", "both", "xscalar", "zscalar", "list"])
    if shape == ():
        x, z = float(x), float(z)
        return x, z, (1,), np.array([x]), np.array([z])
    if how == "xscalar":
        s = R.real(1, 3)
        x = R.choice([s, np.array(s), np.array([s])])
    elif how == "zscalar":
        s = R.real(-1, 1)
        z = R.choice([s, np.array(s), np.array([s])])
    elif how == "list":
        return x.tolist(), z.tolist(), shape, x, z
    return x, z, shape, np.broadcast_to(x, shape), np.broadcast_to(z, shape)


def trace(R):
    f = make(R, amp=0.15)
    x, z, shape, xa, za = starts(R)
    y = ys(R)
    same = [(a, np.array(a, copy=True)) for a in (x, z, y) if isinstance(a, np.ndarray)]
    out = fieldtracer.FieldTracer(f).follow_field_lines(x, z, y, rtol=1e-9)
    for a, b in same:
        assert np.array_equal(a, b), "caller's array changed"
    assert out.shape == (len(y),) + shape + (2,), out.shape
    np.testing.assert_array_equal(out[0, ..., 0], xa)
    np.testing.assert_array_equal(out[0, ..., 1], za)
    np.testing.assert_allclose(out, rk4(f, xa, za, y), atol=2e-5)
    return dict(shape=shape, ny=len(y))


def many(R):
    """more lines than one internal piece: every line keeps its own start"""
    f = field.Slab(By=R.choice([1.0, -0.5]), Bz=R.real(), Bzprime=R.real(0.5, 1), xcentre=R.real())
    shape = R.choice([(999,), (1000,), (1001,), (1999,), (2000,), (2503,), (50, 41), (3, 20, 34)])
    x, z = R.array(shape, -2, 2), R.array(shape, -2, 2)
    y = ys(R)[:3]
    if len(y) < 2:
        y = np.array([0.0, 0.3])
    x0, z0 = x.copy(), z.copy()
    out = fieldtracer.FieldTracer(f).follow_field_lines(x, z, y, rtol=1e-8)
    assert np.array_equal(x, x0) and np.array_equal(z, z0), "caller's arrays changed"
    assert out.shape == (len(y),) + shape + (2,)
    d = (y - y[0]).reshape((-1,) + (1,) * len(shape))
    np.testing.assert_allclose(out[..., 0], np.broadcast_to(x, out.shape[:-1]), atol=1e-9)
    np.testing.assert_allclose(out[..., 1], z + d * (f.Bz + (x - f.xcentre) * f.Bzprime) / f.By, atol=1e-5)
    return dict(shape=shape)


def alone(R):
    """a line traced alone and among others; bad calls are refused"""
    f = make(R, amp=0.15)
    t = fieldtracer.FieldTracer(f)
    n = R.int(2, 6)
    x, z, y = R.array(n, 1, 3), R.array(n), ys(R)
    a = t.follow_field_lines(x, z, y, rtol=1e-9)
    k = R.int(0, n - 1)
    b = t.follow_field_lines(x[k:k + 1], z[k:k + 1], y, rtol=1e-9)
    np.testing.assert_allclose(a[:, k:k + 1], b, atol=2e-5)
    p = R.rng.permutation(n)
    c = t.follow_field_lines(x[p], z[p], y, rtol=1e-9)
    np.testing.assert_allclose(c, a[:, p], atol=2e-5)
    for bad in ((x, z, [0.3]), (x, z, [[0.0, 1.0], [1.0, 2.0]]), (np.ones(3), np.ones(2), [0.0, 1.0])):
        try:
            t.follow_field_lines(*bad)
        except ValueError:
            pass
        else:
            raise AssertionError("bad call accepted")
    return dict(n=n)


# ---------------------------------------------------------------- tracers that call a service: the service is a stand-in


def flow(x, z, d, k):
    """a field whose lines turn about (5, 0): the position after the toroidal angle d"""
    c, s = np.cos(k * d), np.sin(k * d)
    return 5 + (x - 5) * c - z * s, (x - 5) * s + z * c


@contextlib.contextmanager
def modules(**mods):
    old = {k: sys.modules.get(k) for k in mods}
    sleep = time.sleep
    time.sleep = lambda t: sleep(min(t, 0.002))
    sys.modules.update(mods)
    try:
        yield
    finally:
        time.sleep = sleep
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


class Service:
    """the field line service: traces by the given angle, with the field or against it"""

    def __init__(self, k, sign, fail=()):
        self.k, self.sign = k, sign

    def trace(self, p, config, task, *rest):
        inv = -1 if getattr(config, "inverseField", False) else 1
        x1, x2, x3 = (np.atleast_1d(np.asarray(v, float)) for v in (p.x1, p.x2, p.x3))
        r, ph = np.hypot(x1, x2), np.arctan2(x2, x1)
        span = getattr(task, "linesPhi", None)
        d = 0.001 if span is None else abs(span.phi)
        d = d * inv * self.sign
        lines = []
        for a, b, c in zip(r, ph, x3):
            t = np.array([0.0, 0.5, 1.0]) * d
            rr, zz = flow(a, c, t, self.k)
            lines.append(types.SimpleNamespace(vertices=types.SimpleNamespace(x1=rr * np.cos(b + t), x2=rr * np.sin(b + t), x3=zz)))
        return types.SimpleNamespace(lines=lines)


def web(R):
    k, sign = R.real(-1, 1), R.choice([1, -1])
    ns = types.SimpleNamespace

    class Client:
        def __init__(self, url):
            self.types = ns(Points3D=ns, LineTracing=ns, Task=ns, LinePhiSpan=ns, MagneticConfig=ns)
            self.service = Service(k, sign)

    osa, req = types.ModuleType("osa"), types.ModuleType("requests")
    osa.Client = Client
    req.get = lambda *a, **kw: ns(raise_for_status=lambda: None)
    with modules(osa=osa, requests=req):
        pool = R.coin(0.05)
        try:
            t = fieldtracer.FieldTracerWeb(configId=3, chunk=R.int(2, 4)) if pool else fieldtracer.FieldTracerWeb(config=ns(), chunk=R.choice([1, 2, 3, 7, 100]))
        except AttributeError as e:
            raise Skip(str(e))
        x, z, shape, xa, za = starts(R)
        y = ys(R)
        kw = dict(chunk=R.int(1, 5)) if R.coin(0.3) and not pool else {}
        same = [(a, np.array(a, copy=True)) for a in (x, z, y) if isinstance(a, np.ndarray)]
        out = t.follow_field_lines(x, z, y, **kw)
    for a, b in same:
        assert np.array_equal(a, b), "caller's array changed"
    assert out.shape == (len(y),) + shape + (2,), out.shape
    np.testing.assert_array_equal(out[0, ..., 0], xa)
    np.testing.assert_array_equal(out[0, ..., 1], za)
    for i in range(len(y)):
        e = flow(xa, za, y[i] - y[0], k)
        np.testing.assert_allclose(out[i, ..., 0], e[0], atol=1e-9)
        np.testing.assert_allclose(out[i, ..., 1], e[1], atol=1e-9)
    return dict(shape=shape, sign=sign, pool=pool)


def fusion(R):
    k = R.real(-1, 1)
    fld = object()
    calls = []

    def poincare(start, field, phis, turns, direction="ccw", **kw):
        assert field is fld and turns == 1
        calls.append(kw)
        X, Y, Z = (np.asarray(v, float) for v in start)
        r, p0 = np.hypot(X, Y), np.arctan2(Y, X)
        phis = np.atleast_1d(phis)
        dirn = {"ccw": 1, "cw": -1}[direction]
        # the first time the line passes each plane when it is followed in this direction
        d = np.remainder((phis.reshape((-1,) + (1,) * r.ndim) - p0) * dirn, 2 * np.pi) * dirn
        rr, zz = flow(r, Z, d, k)
        ph = p0 + d
        return np.array([rr * np.cos(ph), rr * np.sin(ph), zz, ph, d])[..., None]

    fsc = types.ModuleType("fusionsc")
    fsc.flt = types.SimpleNamespace(poincareInPhiPlanes=poincare)
    opts = dict(targetError=1e-3, distanceLimit=5.0) if R.coin() else {}
    with modules(fusionsc=fsc):
        t = fieldtracer.FusionSCTracer(fld, **opts)
        shape = R.choice([(1,), (4,), (2, 3), (3, 1, 2)])
        for _ in range(2):
            x, z = R.array(shape, 3, 4), R.array(shape, -1, 1)
            y = ys(R)
            x0, z0, y0 = x.copy(), z.copy(), y.copy()
            rt = R.choice([None, 1e-5])
            out = t.follow_field_lines(x, z, y, rtol=rt)
            assert np.array_equal(x, x0) and np.array_equal(z, z0) and np.array_equal(y, y0), "caller's array changed"
            assert calls[-1].get("targetError") == (rt if rt is not None else opts.get("targetError")), "tolerance of another call"
            assert calls[-1].get("distanceLimit") == opts.get("distanceLimit")
            assert out.shape == (len(y),) + shape + (2,), out.shape
            for i in range(len(y)):
                e = flow(x, z, y[i] - y[0], k)
                np.testing.assert_allclose(out[i, ..., 0], e[0], atol=1e-9)
                np.testing.assert_allclose(out[i, ..., 1], e[1], atol=1e-9)
    return dict(shape=shape)


CASES = [trace, many, alone, web, fusion]
