import numpy as np
from zoidberg import boundary


def pts(R):
    shape = R.choice([(1,), (7,), (3, 4), (2, 1, 3)])
    return shape, R.array(shape, -2, 2), R.array(shape, -2, 2)


def simple(R):
    shape, x, z = pts(R)
    y = R.choice([0.0, R.real(-3, 3)])
    o = np.broadcast_to(boundary.NoBoundary().outside(x, y, z), shape)
    assert not np.any(o)
    assert np.shape(boundary.NoBoundary().outside(x, y, z)) == shape
    b = [*sorted(R.array(2, -1.5, 1.5)), *sorted(R.array(2, -1.5, 1.5))]
    # points on the edges and corners are not outside
    for _ in range(3):
        x.flat[R.int(0, x.size - 1)] = R.choice(b[:2])
        z.flat[R.int(0, x.size - 1)] = R.choice(b[2:])
    o = boundary.RectangularBoundaryXZ(*b).outside(x, y, z)
    assert o.shape == shape
    want = [(p < b[0] or p > b[1] or q < b[2] or q > b[3]) for p, q in zip(x.flat, z.flat)]
    assert np.array_equal(np.ravel(o), want)
    return dict(shape=shape)


def winding(px, pz, x, z):
    """winding number of the polygon about one point, by summing angles"""
    a = np.arctan2(np.append(pz, pz[0]) - z, np.append(px, px[0]) - x)
    d = np.diff(a)
    d = (d + np.pi) % (2 * np.pi) - np.pi
    return int(round(np.sum(d) / (2 * np.pi)))


def dist(px, pz, x, z):
    best = np.inf
    for i in range(len(px)):
        a, b = np.array([px[i - 1], pz[i - 1]]), np.array([px[i], pz[i]])
        p = np.array([x, z])
        t = np.clip(np.dot(p - a, b - a) / max(np.dot(b - a, b - a), 1e-300), 0, 1)
        best = min(best, np.hypot(*(p - a - t * (b - a))))
    return best


def poly(R):
    kind = R.choice(["star", "integer", "comb", "box"])
    if kind == "star":
        n = R.int(3, 12)
        t = np.sort(R.array(n, 0, 2 * np.pi))
        gap = np.diff(np.append(t, t[0] + 2 * np.pi))
        if gap.max() > 3.0 or gap.min() < 1e-3:
            t = 2 * np.pi * np.arange(n) / n
        r = R.array(n, 0.3, 1.5)
        px, pz = r * np.cos(t), r * np.sin(t)
        if R.coin(0.3):
            px, pz = np.round(px, 1), np.round(pz, 1)
            if not simple_polygon(px, pz):
                px, pz = r * np.cos(t), r * np.sin(t)
    elif kind == "integer":
        # diamond, triangle, hexagon with vertices level with the points
        px, pz = R.choice([([0, 1, 0, -1], [-1, 0, 1, 0]), ([-1, 1, 0], [0, 0, 1]), ([-1, 0, 1, 1, 0, -1], [-1, -2, -1, 1, 2, 1]),
                           ([0, 2, 2, 1, 1, 0], [0, 0, 1, 1, 2, 2])])
        px, pz = np.array(px, float), np.array(pz, float)
    elif kind == "comb":
        k = R.int(2, 4)
        px, pz = [0.0], [0.0]
        for i in range(k):
            px += [2 * i, 2 * i + 1, 2 * i + 1, 2 * i + 2]
            pz += [1.0, 1.0, 0.3, 0.3]
        px += [2 * k]
        pz += [0.0]
        px, pz = np.array(px[0:]) / k - 1, np.array(pz)
        px, pz = px[1:], pz[1:]
        px = np.append(px, px[0] * 0 - 1)
        pz = np.append(pz, 0.0)
    else:
        a, b, c, d = *sorted(R.array(2, -1.5, 1.5)), *sorted(R.array(2, -1.5, 1.5))
        px, pz = np.array([a, b, b, a]), np.array([c, c, d, d])
    if R.coin():
        px, pz = px[::-1], pz[::-1]
    k = R.int(0, len(px) - 1)
    px, pz = np.roll(px, k), np.roll(pz, k)
    sx, sz = R.choice([0.0, R.real(-3, 3)]), R.choice([0.0, R.real(-3, 3)])
    if kind in ("star", "box"):
        px, pz = px + sx, pz + sz
    else:
        sx = sz = 0.0
    shape = R.choice([(6,), (2, 3), (1,)])
    x, z = sx + R.array(shape, -2, 2), sz + R.array(shape, -2, 3)
    # points level with vertices
    for i in range(x.size):
        m = R.int(0, 3)
        if m == 1:
            x.flat[i] = R.choice(list(px))
        elif m == 2:
            z.flat[i] = R.choice(list(pz))
        elif m == 3 and R.coin(0.3):
            x.flat[i], z.flat[i] = R.choice(list(px)), R.choice(list(pz))
    aslist = R.coin(0.3)
    b = boundary.PolygonBoundaryXZ(px.tolist() if aslist else px, pz.tolist() if aslist else pz)
    keep = x.copy(), z.copy()
    o = b.outside(x, R.real(), z)
    assert np.array_equal(x, keep[0]) and np.array_equal(z, keep[1])
    assert o.shape == shape and o.dtype == bool
    for q, p, w in zip(np.ravel(o), np.ravel(x), np.ravel(z)):
        if dist(px, pz, p, w) < 1e-9:
            continue
        want = winding(px, pz, p, w) == 0
        assert bool(q) == want, f"point ({p}, {w}): outside={bool(q)} for polygon {list(zip(px, pz))}"
    return dict(kind=kind, n=len(px))


def simple_polygon(px, pz):
    n = len(px)

    def cr(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    P = list(zip(px, pz))
    if len(set(P)) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = P[i], P[(i + 1) % n], P[j], P[(j + 1) % n]
            s = [np.sign(v) for v in (cr(a, b, c), cr(a, b, d), cr(c, d, a), cr(c, d, b))]
            if (i + 1) % n == j or (j + 1) % n == i:
                if s[1] == 0 and (i + 1) % n == j or s[0] == 0 and (j + 1) % n == i:
                    return False
                continue
            if s[0] * s[1] <= 0 and s[2] * s[3] <= 0:
                return False
    return True


CASES = [simple, poly]
