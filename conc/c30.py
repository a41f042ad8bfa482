import numpy as np
from zoidberg.diff import field_line_length


def trace(R, ny=None, shape=None):
    ny = ny or R.choice([2, 3, 4, 5, 9, 21])
    shape = R.choice([(), (1,), (3,), (2, 3), (2, 1, 2)]) if shape is None else shape
    y = R.real(-3, 3) + np.linspace(0, R.real(0.2, 2) * R.choice([1, -1]), ny)
    s = (y - y[0]).reshape((-1,) + (1,) * len(shape))
    a = [R.array(shape, -0.5, 0.5) for _ in range(4)]
    r = R.array(shape, 1.5, 4) + a[0] * s + a[1] * s**2
    z = R.array(shape, -1, 1) + a[2] * s + a[3] * s**3
    return np.stack(np.broadcast_arrays(r, z), axis=-1), y


def cart(r, z, y):
    X, Y = r * np.cos(y), r * np.sin(y)
    return np.sqrt(np.diff(X, axis=0)**2 + np.diff(Y, axis=0)**2 + np.diff(z, axis=0)**2).sum(axis=0)


def length(R):
    c, y = trace(R)
    keep = c.copy(), y.copy()
    kw = {} if R.coin(0.7) else dict(refine=R.choice([1, 10, 200]))
    n = kw.get("refine", 100)
    got = field_line_length(c, y, **kw)
    assert np.array_equal(c, keep[0]) and np.array_equal(y, keep[1]), "input changed"
    assert np.shape(got) == c.shape[1:-1] and np.all(got >= 0)
    # independent: interpolate each line alone
    from scipy.interpolate import CubicSpline
    t = np.linspace(y[0], y[-1], (len(y) - 1) * n + 1)
    flat = c.reshape(len(y), -1, 2)
    o = np.argsort(y)
    S = lambda k, i: CubicSpline(y[o], flat[o, k, i])(t)
    ref = np.array([cart(S(k, 0), S(k, 1), t) for k in range(flat.shape[1])])
    np.testing.assert_allclose(np.ravel(got), ref, rtol=1e-7)
    # never shorter than the chords between the given points
    yy = y.reshape((-1,) + (1,) * (c.ndim - 2))
    assert np.all(got >= cart(c[..., 0], c[..., 1], yy) * (1 - 1e-9))
    # backwards
    np.testing.assert_allclose(field_line_length(c[::-1], y[::-1], **kw), got, rtol=1e-9)
    # each line alone
    if flat.shape[1] > 1:
        k = R.int(0, flat.shape[1] - 1)
        np.testing.assert_allclose(field_line_length(flat[:, k], y, **kw), np.ravel(got)[k], rtol=1e-10)
    return dict(shape=c.shape, n=n)


def straight(R):
    """along Z at (almost) fixed angle: exactly the change of Z"""
    ny = R.choice([2, 3, 5, 12])
    y = R.real(-3, 3) + np.linspace(0, 1e-7, ny)
    z0, dz = R.array(3), R.array(3, -5, 5)
    f = np.linspace(0, 1, ny)[:, None]
    c = np.stack((np.full((ny, 3), 0.5), z0 + f * dz), axis=-1)
    np.testing.assert_allclose(field_line_length(c, y), np.abs(dz), rtol=1e-9, atol=1e-6)
    # circle of radius r
    r = R.real(0.5, 5)
    y = np.linspace(0, R.real(0.1, 6), 9)
    c = np.stack((np.full((9, 1), r), np.zeros((9, 1))), axis=-1)
    np.testing.assert_allclose(field_line_length(c, y), r * (y[-1] - y[0]), rtol=1e-5)
    return dict(dz=dz)


def uneven(R):
    """y values that are smoothly, not equally, spaced"""
    n = R.choice([4, 6, 9])
    u = np.linspace(0, 1, n)
    y = R.real(0.3, 2) * (u + R.real(-0.25, 0.25) * u**2)
    k = R.array(2, -1, 1)
    c = np.stack((3 + 0.5 * k[0] * (y - y[0])[:, None], 2 * k[1] * (y - y[0])[:, None]), axis=-1)
    t = np.linspace(y[0], y[-1], 4001)
    ref = cart((3 + 0.5 * k[0] * (t - y[0])), 2 * k[1] * (t - y[0]), t)
    np.testing.assert_allclose(field_line_length(c, y), [ref], rtol=1e-5)
    return dict(n=n)


CASES = [length, straight, uneven]
