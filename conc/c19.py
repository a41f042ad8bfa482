import numpy as np
from c18 import starts, ys
from fcommon import make
from zoidberg import fieldtracer


def residual(f, out, y):
    x, z = out[..., 0], out[..., 1]
    res = []
    for i in range(len(y) - 1):
        d0 = f.field_direction([x[i], z[i]], y[i])
        d1 = f.field_direction([x[i + 1], z[i + 1]], y[i + 1])
        h = y[i + 1] - y[i]
        res.append(x[i + 1] - x[i] - 0.5 * h * (d0[0] + d1[0]))
        res.append(z[i + 1] - z[i] - 0.5 * h * (d0[1] + d1[1]))
    return np.max(np.abs(res))


def step(R):
    f = make(R, amp=0.15)
    x, z, shape, xa, za = starts(R)
    y = ys(R)
    rtol = R.choice([1e-8, 1e-12, 1e-16])
    same = [(a, np.array(a, copy=True)) for a in (x, z, y) if isinstance(a, np.ndarray)]
    if R.coin():
        t = fieldtracer.FieldTracerReversible(f, rtol=rtol, nsteps=1)
        out = t.follow_field_lines(x, z, y)
    else:
        t = fieldtracer.FieldTracerReversible(f)
        out = t.follow_field_lines(x, z, y, rtol=rtol, nsteps=1)
    for a, b in same:
        assert np.array_equal(a, b), "caller's array changed"
    assert out.shape == (len(y),) + shape + (2,)
    np.testing.assert_array_equal(out[0, ..., 0], xa)
    np.testing.assert_array_equal(out[0, ..., 1], za)
    r = residual(f, out, y)
    assert r < 2 * np.sqrt(rtol) * 0.5 + 1e-9, f"trapezoidal residual {r} with rtol {rtol}"
    return dict(shape=shape, rtol=rtol)


def substeps(R):
    """n sub-steps are n equal single steps that end at the requested y values"""
    f = make(R, amp=0.15)
    n = R.choice([2, 3, 5, 20])
    k = R.int(1, 4)
    x, z = R.array(k, 1, 3), R.array(k)
    y = ys(R)
    t = fieldtracer.FieldTracerReversible(f, rtol=1e-18)
    out = t.follow_field_lines(x, z, y) if n == 20 and R.coin() else t.follow_field_lines(x, z, y, nsteps=n)
    fine = np.concatenate([np.linspace(a, b, n, endpoint=False) for a, b in zip(y[:-1], y[1:])] + [y[-1:]])
    ref = t.follow_field_lines(x, z, fine, nsteps=1)
    assert residual(f, ref, fine) < 1e-8
    np.testing.assert_allclose(out, ref[::n], atol=1e-8)
    return dict(n=n)


def back(R):
    const = R.coin()
    f = make(R, amp=0.15, const=const, cyl=False if const else None)
    k = R.int(1, 4)
    x, z = R.array(k, 1, 3), R.array(k)
    y = ys(R)
    t = fieldtracer.FieldTracerReversible(f, rtol=1e-18, nsteps=R.choice([1, 4]))
    out = t.follow_field_lines(x, z, y)
    rev = t.follow_field_lines(out[-1, ..., 0], out[-1, ..., 1], y[::-1])
    np.testing.assert_allclose(rev[-1, ..., 0], x, atol=1e-10 if const else 1e-7)
    np.testing.assert_allclose(rev[-1, ..., 1], z, atol=1e-10 if const else 1e-7)
    if const:
        d = f.field_direction([x, z], 0.0)
        e = (y - y[0])[:, None]
        np.testing.assert_allclose(out[..., 0], x + e * d[0], atol=1e-9)
        np.testing.assert_allclose(out[..., 1], z + e * d[1], atol=1e-9)
    return dict(const=const)


CASES = [step, substeps, back]
