import numpy as np
from zoidberg.diff import c2, c4


def data(R, deg, n, shape, axis):
    """polynomial of the given degree along the axis, different coefficients elsewhere"""
    i = np.arange(n).reshape([-1 if a == axis % len(shape) else 1 for a in range(len(shape))])
    other = [1 if a == axis % len(shape) else s for a, s in enumerate(shape)]
    co = [R.array(other, -2, 2) / max(n, 1)**p for p in range(deg + 1)]
    f = sum(c * i**p for p, c in enumerate(co)) + np.zeros(shape)
    d = sum(p * c * i**(p - 1) for p, c in enumerate(co) if p) + np.zeros(shape)
    return f, d


def shape_axis(R, n):
    rank = R.int(1, 4)
    axis = R.int(0, rank - 1)
    shape = [R.int(1, 4) for _ in range(rank)]
    shape[axis] = n
    return tuple(shape), axis - (rank if R.coin(0.3) else 0)


def edges(R):
    which = R.coin()
    deg, fn = (2, c2) if which else (4, c4)
    n = R.choice([3, 4, 5, 6, 9, 30]) if which else R.choice([5, 6, 7, 8, 11, 30])
    shape, axis = shape_axis(R, n)
    f, d = data(R, R.int(0, deg), n, shape, axis)
    if R.coin(0.2):
        f = np.asfortranarray(f)
    keep = f.copy()
    got = fn(f, axis, False) if R.coin() else fn(f, axis=axis)
    assert np.array_equal(f, keep), "input changed"
    assert got.shape == f.shape
    np.testing.assert_allclose(got, d, atol=1e-9 * (1 + np.max(np.abs(f)) + np.max(np.abs(d))))
    return dict(fn=fn.__name__, shape=shape, axis=axis)


def integers(R):
    n = R.int(5, 12)
    i = np.arange(n)
    a, b = R.int(-5, 5), R.int(-5, 5)
    f = a * i**2 + b * i + 3
    for fn in (c2, c4):
        np.testing.assert_allclose(fn(f, 0), 2 * a * i + b, atol=1e-9)
    return dict(n=n)


def wrapped(R):
    n = R.choice([1, 2, 3, 4, 5, 6, 9])
    shape, axis = shape_axis(R, n)
    f = R.array(shape)
    keep = f.copy()
    k = np.arange(n)
    t = lambda o: np.take(f, (k + o) % n, axis=axis)
    np.testing.assert_allclose(c2(f, axis, periodic=True), (t(1) - t(-1)) / 2, atol=1e-13)
    np.testing.assert_allclose(c4(f, axis, periodic=True), (8 * (t(1) - t(-1)) - (t(2) - t(-2))) / 12, atol=1e-13)
    assert np.array_equal(f, keep), "input changed"
    return dict(shape=shape, axis=axis)


CASES = [edges, integers, wrapped]
