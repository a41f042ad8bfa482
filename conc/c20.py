import numpy as np
from c18 import rk4
from fcommon import make
from zoidberg import field, fieldtracer


def poincare(R):
    slab = R.coin()
    if slab:
        f = field.Slab(By=R.choice([1.0, -0.7]), Bz=R.real(), Bzprime=R.real(0.3, 1), xcentre=R.real())
    else:
        f = make(R, amp=0.1)
    period = R.real(0.3, 2.0)
    shape = R.choice([(), (1,), (3,), (2, 2)])
    x, z = R.array(shape, 1, 2), R.array(shape, -0.5, 0.5)
    revs = R.choice([1, 2, 3, 5])
    kw = dict(revs=revs)
    if R.coin(0.7):
        kw["nover"] = R.choice([1, 2, 3, 20])
    given = None
    mode = R.choice(["nplot", "nplot", "slices", "slices", "ints"])
    if mode == "nplot":
        n = R.choice([1, 2, 3, 4])
        if not (n == 3 and R.coin()):
            kw["nplot"] = n
        expect = np.arange(n) * period / n
    else:
        n = R.choice([1, 2, 3, 5])
        given = R.array(n, 0, period)
        if n > 1 and R.coin(0.3):
            given[0] = period
            given[1] = 0.0 if R.coin() else given[1]
        if mode == "ints":
            period = float(R.int(2, 6))
            given = R.rng.permutation(R.int(2, int(period)))[:n]
        n = len(given)
        expect = np.sort(given)
        if R.coin(0.4):
            given = given.tolist()
        kw["y_slices"] = given
    if n * revs < 2:
        kw["revs"] = revs = 2
    was = None if given is None else list(given)
    data, sl = fieldtracer.trace_poincare(f, x, z, period, **kw)
    if given is not None:
        assert list(given) == was, "the caller's slices were changed"
    np.testing.assert_allclose(sl, expect, atol=1e-12)
    fshape = shape or (1,)
    assert data.shape == (revs, n) + fshape + (2,), data.shape
    xa, za = np.broadcast_to(x, fshape), np.broadcast_to(z, fshape)
    y = (np.arange(revs)[:, None] * period + expect[None, :]).ravel()
    np.testing.assert_allclose(data[0, 0, ..., 0], xa, atol=1e-12)
    np.testing.assert_allclose(data[0, 0, ..., 1], za, atol=1e-12)
    if slab:
        d = (y - y[0]).reshape((-1,) + (1,) * len(fshape))
        ref = np.stack(np.broadcast_arrays(xa + 0 * d, za + d * (f.Bz + (xa - f.xcentre) * f.Bzprime) / f.By), axis=-1)
    else:
        ref = rk4(f, xa, za, y, 30)
    np.testing.assert_allclose(data.reshape(ref.shape), ref, atol=2e-4)
    return dict(mode=mode, revs=revs, n=n, shape=shape)


def refuse(R):
    f = field.Slab()
    period = R.real(0.5, 3)
    bad = R.choice([[0.1, period + R.real(1e-6, 2)], [-R.real(1e-6, 2), 0.2], [period * 1.01]])
    try:
        fieldtracer.trace_poincare(f, np.array([0.1]), np.array([0.0]), period, y_slices=bad, revs=2)
    except ValueError:
        return dict(bad=bad)
    raise AssertionError(f"slices {bad} accepted with period {period}")


CASES = [poincare, refuse]
