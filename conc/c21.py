import os
import shutil
import tempfile

import numpy as np
from c18 import starts, ys
from fcommon import make
from zoidberg import fieldtracer


class Count:
    """wraps a tracer: counts the traces and answers with a result that depends on every part of the call"""

    def __init__(self, f):
        self.t = fieldtracer.FieldTracer(f)
        self.n = 0

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None, tag=0.0):
        self.n += 1
        r = self.t.follow_field_lines(x_values, z_values, y_values, rtol=rtol)
        return r + (tag if isinstance(tag, (int, float)) else len(tag)) + (0 if rtol is None else 1000 * rtol)


def scratch(fn):
    def g(R):
        d = tempfile.mkdtemp(prefix="verif_c21_")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return fn(R, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)

    g.__name__ = fn.__name__
    return g


def near(R, call):
    """a call that differs from the given one in a single respect"""
    x, z, y, kw = call
    x, z, y, kw = np.array(x), np.array(z), np.array(y), dict(kw)
    k = R.int(0, 8)
    if k == 0:
        x.flat[R.int(0, x.size - 1)] += R.choice([1e-3, 1e-9, 0.25])
    elif k == 1:
        z.flat[R.int(0, z.size - 1)] -= R.choice([1e-3, 1e-9, 0.25])
    elif k == 2:
        y = np.append(y, y[-1] + (y[-1] - y[0]) * R.choice([0.5, 1e-6]))
    elif k == 3:
        y = y + R.choice([1e-3, 1e-9])
    elif k == 4 and x.size > 1:
        s = R.choice([(x.size,), (1, x.size), (x.size, 1), (x.size, 1, 1)])
        x, z = x.reshape(s), z.reshape(s)
    elif k == 5:
        kw["rtol"] = kw.get("rtol", 1e-7) * R.choice([0.1, 10, 0.5])
    elif k == 6:
        kw["tag"] = R.choice([0.5, 1.0, 2.0, "a", "ab"])
    elif k == 7:
        # many points that agree at both ends: an abbreviated description would be the same
        n = 1500
        x, z = np.linspace(1, 2, n), np.linspace(-0.5, 0.5, n)
        x[n // 2] += R.choice([0.0, 0.1, 0.2])
        y = y[:2]
    else:
        x, z = (z + 2) if x.min() > -10 else x, x - 2
    return x, z, y, kw


@scratch
def history(R, d):
    f = make(R, amp=0.1, const=True, cyl=False)
    inner = Count(f)
    ref = Count(f)
    kind = R.coin(0.4)
    cache = fieldtracer.CachingFieldTracer(inner) if kind else fieldtracer.CachingFieldTracer(inner, cachename=os.path.join(d, "c_%s"))
    shape = R.choice([(1,), (2,), (4,), (2, 3), (2, 1, 2)])
    first = (R.array(shape, 1, 3), R.array(shape), np.sort(R.array(R.choice([2, 3]), 0, 2)), {} if R.coin() else {"rtol": 1e-7})
    calls = [first]
    done = []
    for _ in range(R.int(3, 7)):
        c = R.choice(calls)
        if R.coin(0.6):
            c = near(R, c)
            calls.append(c)
        x, z, y, kw = c
        keep = [np.array(a, copy=True) for a in (x, z, y)]
        n = inner.n
        if R.coin(0.2):
            cache = fieldtracer.CachingFieldTracer(inner) if kind else fieldtracer.CachingFieldTracer(inner, cachename=os.path.join(d, "c_%s"))
        got = cache.follow_field_lines(x, z, y, **kw)
        for a, b in zip((x, z, y), keep):
            assert np.array_equal(a, b), "caller's array changed"
        want = ref.follow_field_lines(x, z, y, **kw)
        assert got.shape == want.shape, f"shape {got.shape} instead of {want.shape}"
        np.testing.assert_allclose(got, want, rtol=1e-12, atol=1e-14)
        if any(c is k for k in done):
            assert inner.n == n, "a repeated call was traced again"
        done.append(c)
    return dict(calls=len(done), traces=inner.n)


@scratch
def forms(R, d):
    """scalar and list start coordinates, as the tracer accepts them"""
    f = make(R, amp=0.1, const=True, cyl=False)
    inner, ref = Count(f), Count(f)
    cache = fieldtracer.CachingFieldTracer(inner, cachename=os.path.join(d, "c_%s"))
    x, z, shape, xa, za = starts(R)
    y = ys(R)
    want = ref.follow_field_lines(x, z, y)
    for _ in range(3):
        got = cache.follow_field_lines(x, z, y)
        assert got.shape == want.shape
        np.testing.assert_allclose(got, want, rtol=1e-12, atol=1e-14)
    assert inner.n == 1
    return dict(shape=shape)


CASES = [history, forms]
