import numpy as np
from fcommon import make
from zoidberg import field

TOL = dict(rtol=1e-10, atol=1e-12)


def check_dir(f, bx, by, bz, cyl, R, y=None, shape=None):
    shape = shape if shape is not None else R.choice([(), (1,), (3,), (2, 3), (4, 1, 2)])
    x, z = R.array(shape, 1, 3), R.array(shape, -1, 1)
    if shape == ():
        x, z = np.float64(x), np.float64(z)
    y = R.real(-4, 10) if y is None else y
    n = int(np.prod(shape))
    r = x if cyl else 1
    ex, ez = r * bx(x, z, y) / by(x, z, y), r * bz(x, z, y) / by(x, z, y)
    x0, z0 = np.array(x), np.array(z)
    # unflattened
    got = f.field_direction([x, z], y)
    np.testing.assert_allclose(got[0], ex, **TOL)
    np.testing.assert_allclose(got[1], ez, **TOL)
    got = f.field_direction(np.array([x, z]), y, flatten=False)
    np.testing.assert_allclose(got[0], ex, **TOL)
    np.testing.assert_allclose(got[1], ez, **TOL)
    # flattened: x0 z0 x1 z1 ...
    pos = np.column_stack((np.ravel(x), np.ravel(z))).flatten()
    p0 = pos.copy()
    got = np.asarray(f.field_direction(pos, y, flatten=True))
    assert got.shape == (2 * n,)
    np.testing.assert_allclose(got[0::2], np.ravel(ex), **TOL)
    np.testing.assert_allclose(got[1::2], np.ravel(ez), **TOL)
    assert np.array_equal(pos, p0) and np.array_equal(x, x0) and np.array_equal(z, z0), "positions changed"
    b = f.Bmag(x, z, y)
    np.testing.assert_allclose(b, np.sqrt(bx(x, z, y)**2 + by(x, z, y)**2 + bz(x, z, y)**2), **TOL)
    assert np.shape(b) == shape
    return dict(shape=shape, cyl=cyl)


def user(R):
    f = make(R)
    return check_dir(f, f.fx, f.fy, f.fz, f.cyl, R)


def builtin(R):
    k = R.choice(["slab", "curved", "stell", "screw", "rot"])
    if k == "slab":
        f = field.Slab(By=R.choice([-1.2, 0.7]), Bz=R.real(), Bzprime=R.real(-0.5, 0.5))
    elif k == "curved":
        f = field.CurvedSlab(By=R.choice([-1.2, 0.7]), Bz=R.real(), Bzprime=R.real(-0.5, 0.5), Rmaj=R.real(1, 3))
    elif k == "stell":
        f = field.StraightStellarator(radius=5.0, yperiod=R.real(1, 9), I_coil=0.3)
    elif k == "screw":
        f = field.Screwpinch(xcentre=0.0, shear=R.real(0.01, 0.2), Btor=R.choice([-1.0, 2.0]))
    else:
        f = field.RotatingEllipse(xcentre=2.0, radius=3.0, I_coil=0.2, Btor=R.choice([-1.0, 2.0]))
    y = R.real(0, 4)
    shape = R.choice([(1,), (3,), (2, 3)])
    if k == "curved":
        x, z = R.array(shape, 1, 3), R.array(shape)
        got = f.field_direction([x, z], y)
        np.testing.assert_allclose(got[0], 0 * x, **TOL)
        np.testing.assert_allclose(got[1], f.Rmaj * (f.Bz + (x - f.xcentre) * f.Bzprime) / f.By, **TOL)
        return dict(k=k)
    check_dir(f, f.Bxfunc, f.Byfunc, f.Bzfunc, k in ("screw", "rot"), R, y, shape)
    return dict(k=k)


class Store:
    """stands in for the fusionsc back end: a Cartesian field"""

    def __init__(self, a):
        self.a = a

    def interpolateXyz(self, p):
        X, Y, Z = p
        a = self.a
        return np.array([a[0] * Y + a[1] * Z + 0.1, a[2] * X + a[3] * Z, a[4] * X - a[5] * Y + 0.3])


def fusionsc(R):
    a = R.array(6, 0.2, 1)
    a[0] = -R.real(1, 2)
    a[2] = R.real(1, 2)
    st = Store(a)
    f = field.FusionSCField(st)

    def cart(x, z, y):
        return st.interpolateXyz([x * np.cos(y), x * np.sin(y), z])

    bx = lambda x, z, y: cart(x, z, y)[0] * np.cos(y) + cart(x, z, y)[1] * np.sin(y)
    by = lambda x, z, y: -cart(x, z, y)[0] * np.sin(y) + cart(x, z, y)[1] * np.cos(y)
    bz = lambda x, z, y: cart(x, z, y)[2]
    shape = R.choice([(1,), (3,), (2, 3)])
    x, z, y = R.array(shape, 1, 3), R.array(shape, -0.3, 0.3), R.real(0, 6)
    if np.min(np.abs(by(x, z, y))) > 0.05:
        np.testing.assert_allclose(f.Bxfunc(x, z, y), bx(x, z, y), **TOL)
        np.testing.assert_allclose(f.Byfunc(x, z, y), by(x, z, y), **TOL)
        np.testing.assert_allclose(f.Bzfunc(x, z, y), bz(x, z, y), **TOL)
        d = f.field_direction([x, z], y)
        np.testing.assert_allclose(d[0], x * bx(x, z, y) / by(x, z, y), **TOL)
        np.testing.assert_allclose(d[1], x * bz(x, z, y) / by(x, z, y), **TOL)
        np.testing.assert_allclose(f.Bmag(x, z, y), np.sqrt(np.sum(cart(x, z, y)**2, axis=0)), **TOL)
    return dict(shape=shape)


def smallby(R):
    """one position with a vanishing By anywhere: refused; just above the limit: accepted"""
    n = R.int(1, 5)
    k = R.int(0, n - 1)
    f = make(R)
    by = np.full(n, R.choice([1.0, -1.0]) * R.real(0.5, 2))
    lim = R.choice([0.0, 9e-9, -9e-9, 1e-12, -1e-300])
    ok = R.coin(0.3)
    by[k] = R.choice([1.1e-8, -1.1e-8, 1e-3, -0.2]) if ok else lim
    type(f).Byfunc = lambda self, x, z, phi: by.reshape(np.shape(x))
    type(f).Bxyzfunc = lambda self, x, z, phi: (f.fx(x, z, phi), by.reshape(np.shape(x)), f.fz(x, z, phi))
    x, z = R.array(n, 1, 3), R.array(n)
    flat = R.coin()
    try:
        if flat:
            f.field_direction(np.column_stack((x, z)).flatten(), 0.3, flatten=True)
        else:
            f.field_direction([x, z], 0.3)
        refused = False
    except ValueError:
        refused = True
    assert refused != ok, f"By={by} flatten={flat}: refused={refused}"
    return dict(by=by, ok=ok)


builtin.every = 5
CASES = [user, builtin, fusionsc, smallby]
