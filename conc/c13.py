import numpy as np
from run import Skip
from zoidberg import rzline

TAU = 2 * np.pi


def cloud(R, n=None):
    """a closed line of n points, star shaped about its centre, either orientation, any start"""
    n = n or R.choice([4, 5, 6, 7, 9, 12, 20, 33, 50])
    t = np.sort(R.rng.uniform(0, TAU, n)) if R.coin(0.3) else TAU * np.arange(n) / n
    if np.min(np.diff(np.append(t, t[0] + TAU))) < 1e-3:
        t = TAU * np.arange(n) / n
    rad = 1 + (R.array(n, -0.3, 0.3) if R.coin() else 0.3 * np.cos(R.int(1, 3) * t))
    t = t + R.real(0, 6)
    r, z = R.real(1, 6) + rad * np.cos(t), R.real(-2, 2) + R.real(0.5, 2) * rad * np.sin(t)
    if R.coin():
        r, z = r[::-1], z[::-1]
    k = R.int(0, n - 1)
    return np.roll(r, k), np.roll(z, k)


def area2(r, z):
    return np.sum(r * np.roll(z, -1) - z * np.roll(r, -1))


def points(R):
    r, z = cloud(R)
    r0, z0 = r.copy(), z.copy()
    n = len(r)
    aslist = R.coin(0.3)
    kw = {}
    if R.coin(0.3):
        kw["spline_order"] = R.choice([1, 3, 5] if n > 5 else [1, 3])
    line = rzline.RZline(list(r) if aslist else r, list(z) if aslist else z, **kw)
    assert np.array_equal(r, r0) and np.array_equal(z, z0), "input changed"
    ccw = area2(r, z) > 0
    er, ez = (r, z) if ccw else (r[::-1], z[::-1])
    assert np.array_equal(line.R, er) and np.array_equal(line.Z, ez)
    l2 = rzline.RZline(r, z, anticlockwise=False, **kw)
    assert np.array_equal(l2.R, r) and np.array_equal(l2.Z, z)
    np.testing.assert_allclose(line.theta, TAU * np.arange(n) / n, atol=1e-13)
    # through point k at angle 2 pi k/n, plus whole turns
    k = np.arange(n)
    for m in (0, R.int(-4, 4)):
        th = TAU * (k / n + m)
        a, b = line.position(th)
        np.testing.assert_allclose(a, er, atol=1e-8)
        np.testing.assert_allclose(b, ez, atol=1e-8)
        np.testing.assert_allclose(line.Rvalue(th), er, atol=1e-8)
        np.testing.assert_allclose(line.Zvalue(th), ez, atol=1e-8)
    a, b = line.position()
    np.testing.assert_allclose(a, er, atol=1e-9)
    np.testing.assert_allclose(b, ez, atol=1e-9)
    th = R.array(R.choice([(3,), (2, 3), ()]), -10, 10)
    m = R.int(-5, 5)
    for d in (0, 1):
        for f in (line.Rvalue, line.Zvalue):
            v0, v1 = f(th, deriv=d), f(th + TAU * m, deriv=d)
            assert np.shape(v0) == th.shape
            if kw.get("spline_order") != 1 or d == 0:
                np.testing.assert_allclose(v0, v1, atol=1e-7, rtol=1e-7)
    # derivative is the derivative of the position
    if kw.get("spline_order", 3) >= 3:
        e = 1e-6
        for f in (line.Rvalue, line.Zvalue):
            np.testing.assert_allclose((f(th + e) - f(th - e)) / (2 * e), f(th, deriv=1), atol=2e-4, rtol=1e-4)
    return dict(n=n, ccw=bool(ccw))


def polygon(R):
    r, z = cloud(R)
    line = rzline.RZline(r, z)
    n = len(r)
    lr, lz = line.R, line.Z
    k = R.rng.integers(-3 * n, 3 * n, 12)
    fr = R.array(12, 0.01, 0.99)
    th = (k + fr) * TAU / n
    a, b = line.positionPolygon(th)
    np.testing.assert_allclose(a, (1 - fr) * lr[k % n] + fr * lr[(k + 1) % n], atol=1e-8)
    np.testing.assert_allclose(b, (1 - fr) * lz[k % n] + fr * lz[(k + 1) % n], atol=1e-8)
    a, b = line.positionPolygon()
    assert np.array_equal(a, lr) and np.array_equal(b, lz)
    s = float(th[0])
    a, b = line.positionPolygon(s)
    np.testing.assert_allclose(a, (1 - fr[0]) * lr[k[0] % n] + fr[0] * lr[(k[0] + 1) % n], atol=1e-8)
    return dict(n=n)


def distances(R):
    r, z = cloud(R)
    n = len(r)
    so = R.choice([None, 1, 3])
    line = rzline.RZline(r, z, spline_order=so)
    sample = R.choice([1, 2, 5, 20])
    d = line.distance(sample=sample) if R.coin(0.7) else line.distance()
    assert d.shape == (n + 1,) and d[0] == 0
    assert (np.diff(d) >= 0).all(), "distance decreases"
    seg = np.hypot(np.roll(line.R, -1) - line.R, np.roll(line.Z, -1) - line.Z)
    if so == 1:
        np.testing.assert_allclose(np.diff(d), seg, rtol=1e-9)
    else:
        d = line.distance(sample=200)
        # arc length of each stretch, independently
        i = R.int(0, n - 1)
        t = np.linspace(TAU * i / n, TAU * (i + 1) / n, 2001)
        a, b = line.position(t)
        ref = np.sum(np.hypot(np.diff(a), np.diff(b)))
        if i < n - 1 or True:
            t[-1] = np.nextafter(t[-1], 0)
            a, b = line.position(t)
            ref = np.sum(np.hypot(np.diff(a), np.diff(b)))
        np.testing.assert_allclose(d[i + 1] - d[i], ref, rtol=2e-3, atol=1e-4)
        assert (np.diff(d) >= seg * (1 - 1e-3) - 1e-4).all()
    if R.coin():
        w = R.array(n, 0.0, 2.0)
        dw = line.distance(weights=w)
        assert dw[0] == 0 and (np.diff(dw) >= 0).all()
    return dict(n=n, so=so)


def closest(R):
    r, z = cloud(R)
    line = rzline.RZline(r, z)
    n = len(r)
    c = (np.mean(r), np.mean(z))
    p = (c[0] + R.real(-2, 2), c[1] + R.real(-2, 2))
    if R.coin(0.3):
        # next to the seam between the last and the first point
        f = R.choice([0.0, 1.0, R.real(0, 1)])
        p = ((1 - f) * line.R[-1] + f * line.R[0] + R.real(-1e-3, 1e-3), (1 - f) * line.Z[-1] + f * line.Z[0] + R.real(-1e-3, 1e-3))
    th = line.closestPoint(*p)
    assert np.ndim(th) == 0 and 0 <= th < TAU
    a, b = line.positionPolygon(float(th))
    d = np.hypot(a - p[0], b - p[1])
    best = np.min(np.hypot(line.R - p[0], line.Z - p[1]))
    assert d <= best + 1e-7, (d, best)
    return dict(n=n)


def spaced(R):
    r, z = cloud(R)
    line = rzline.RZline(r, z)
    n = R.choice([None, 4, 7, 20])
    try:
        eq = line.equallySpaced(n)
    except AssertionError:
        raise Skip("resampled line degenerate")
    m = n or len(r)
    assert len(eq.R) == m and len(eq.Z) == m
    return dict(n=m)


CASES = [points, polygon, distances, closest, spaced]
