import math

import numpy as np
import run
from zoidberg import field


def shapes(R):
    return R.choice([(1,), (4,), (2, 3), (2, 1, 2)])


def d(f, x, z, y, ax, h=1e-3):
    """fourth order central derivative along x (0), z (1) or y (2)"""
    def g(k):
        p = [x, z, y]
        p[ax] = p[ax] + k * h
        return f(*p)

    return (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h)


def full(v, shape):
    v = np.asarray(v)
    if v.shape == ():
        # a component that is constant in space may be the plain number
        return np.full(shape, v)
    assert v.shape == shape, f"shape {v.shape} instead of {shape}"
    return v


def slab(R):
    kw = dict(By=R.choice([1, -2.5, R.real(0.1, 3)]), Bz=R.real(), xcentre=R.choice([0, R.real()]), Bzprime=R.choice([0, R.real(-2, 2)]))
    curved = R.coin()
    if curved:
        kw["Rmaj"] = R.real(0.5, 5)
    f = (field.CurvedSlab if curved else field.Slab)(**kw)
    shape = shapes(R)
    x, z, y = R.array(shape, -3, 3), R.array(shape), R.real(-5, 5)
    np.testing.assert_allclose(full(f.Byfunc(x, z, y), shape), np.full(shape, float(kw["By"])))
    np.testing.assert_allclose(full(f.Bxfunc(x, z, y), shape), 0)
    np.testing.assert_allclose(full(f.Bzfunc(x, z, y), shape), kw["Bz"] + (x - kw["xcentre"]) * kw["Bzprime"], rtol=1e-12, atol=1e-13)
    xc = np.full(shape, float(kw["xcentre"]))
    np.testing.assert_allclose(f.Bzfunc(xc, z, y), kw["Bz"], rtol=1e-12)
    if curved:
        np.testing.assert_allclose(full(f.Rfunc(x, z, y), shape), kw["Rmaj"])
    else:
        assert f.Rfunc(x, z, y) is None
    p = f.pressure(x, z, y)
    full(p, shape)
    assert full(f.Bmag(x, z, y), shape).min() >= 0
    return kw


_cache = {}


def fixed(R, key):
    """a source that depends on the run's seed and the key only, so that a replay sees the same field"""
    return run.R(np.random.default_rng([R.seed // 1000003, key]), R.seed, 0)


def stellarator(R):
    key = R.int(0, 5)
    rot = key >= 3
    if key not in _cache:
        Q, R = R, fixed(R, key)
        yp, ic, rad = R.real(0.5, 12), R.real(0.1, 2), R.real(2.5, 4)
        kw = dict(xcentre=R.real(-0.3, 0.3) + 3 * rot, zcentre=R.real(-0.3, 0.3), radius=rad, yperiod=yp, I_coil=ic)
        if rot:
            kw["Btor"] = R.choice([-1.5, 2.0])
        R = Q
        _cache[key] = ((field.RotatingEllipse if rot else field.StraightStellarator)(**kw), kw)
    f, kw = _cache[key]
    shape = shapes(R)
    x, z = kw["xcentre"] + R.array(shape, -0.8, 0.8), kw["zcentre"] + R.array(shape, -0.8, 0.8)
    y = R.real(-10, 10)
    bx, by, bz = full(f.Bxfunc(x, z, y), shape), full(f.Byfunc(x, z, y), shape), full(f.Bzfunc(x, z, y), shape)
    # B = curl(A ey):  Bx = +-dA/dz, Bz = -+dA/dx with one common sign; the coils fix it
    ax, az = d(f.Afunc, x, z, y, 0), d(f.Afunc, x, z, y, 1)
    np.testing.assert_allclose(bx, -az, rtol=1e-7, atol=1e-9)
    np.testing.assert_allclose(bz, ax, rtol=1e-7, atol=1e-9)
    # in-plane divergence
    np.testing.assert_allclose(d(f.Bxfunc, x, z, y, 0) + d(f.Bzfunc, x, z, y, 1), 0, atol=1e-7)
    # independent reference: four line currents of alternating sign on a circle, rotating once per period
    rbx, rbz = np.zeros(shape), np.zeros(shape)
    for i in range(4):
        an = i * np.pi / 2 + 2 * np.pi * y / kw["yperiod"]
        dx, dz = x - kw["xcentre"] - kw["radius"] * np.cos(an), z - kw["zcentre"] - kw["radius"] * np.sin(an)
        b = 0.2 * (-1)**i * kw["I_coil"] / (dx**2 + dz**2)
        rbx, rbz = rbx + b * dz, rbz - b * dx
    np.testing.assert_allclose(bx, rbx, rtol=1e-8, atol=1e-10)
    np.testing.assert_allclose(bz, rbz, rtol=1e-8, atol=1e-10)
    m = R.int(-3, 3)
    for g in (f.Bxfunc, f.Byfunc, f.Bzfunc):
        np.testing.assert_allclose(np.broadcast_to(g(x, z, y + m * kw["yperiod"]), shape), np.broadcast_to(g(x, z, y), shape),
                                   rtol=1e-7, atol=1e-9)
    if rot:
        np.testing.assert_allclose(by, kw["Btor"] / x, rtol=1e-12)
        np.testing.assert_allclose(f.Rfunc(x, z, y), x)
    else:
        np.testing.assert_allclose(by, 1.0)
        assert f.Rfunc(x, z, y) is None
    return kw


_dom = {}


def dommaschk(R):
    key = R.int(0, 15)
    if key not in _dom:
        Q, R = R, fixed(R, 100 + key)
        # beyond key 3: one mode each, all four coefficients; the last terms of the series enter at l = 2 m + 2 and more
        nm, nl = [(2, 3), (6, 3), (3, 4), (2, 2), (1, 4), (1, 6), (1, 7), (2, 5), (2, 6), (2, 7), (3, 7), (4, 7), (1, 3), (2, 4), (3, 6), (5, 8)][key]
        A = np.zeros((nm, nl, 4))
        if key > 3:
            # large enough to be seen above the background field
            A[-1, -1] = R.array(4, 0.05, 0.3) * R.choice([-1, 1]) * float(math.factorial(nl - 1)) * 3.0**max(nl - 3, 0)
        for _ in range(2):
            A[R.int(0, nm - 1), R.int(0 if key else 1, nl - 1), R.int(0, 3)] = R.real(-0.3, 0.3)
        r0, b0 = (1.0, 1.0) if key == 0 else (R.real(0.7, 2), R.real(0.5, 3))
        R = Q
        _dom[key] = (field.DommaschkPotentials(A, r0, b0), A, r0, b0)
    f, A, r0, b0 = _dom[key]
    shape = shapes(R)
    x, z, y = r0 * (1 + R.array(shape, -0.2, 0.2)), r0 * R.array(shape, -0.2, 0.2), R.real(-4, 4)
    b = [lambda x, z, y, g=g: np.broadcast_to(g(x, z, y), shape) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
    for g in (f.Bxfunc, f.Byfunc, f.Bzfunc):
        full(g(x, z, y), shape)
    BR, BP, BZ = (g(x, z, y) for g in b)
    sc = np.max(np.abs([BR, BP, BZ])) / r0
    tol = 1e-6 * sc
    dRR = (d(lambda x, z, y: x * b[0](x, z, y), x, z, y, 0)) / x
    div = dRR + d(b[1], x, z, y, 2) / x + d(b[2], x, z, y, 1)
    np.testing.assert_allclose(div, 0, atol=tol, err_msg="divergence")
    np.testing.assert_allclose(d(b[2], x, z, y, 2) / x - d(b[1], x, z, y, 1), 0, atol=tol, err_msg="curl R")
    np.testing.assert_allclose(d(b[0], x, z, y, 1) - d(b[2], x, z, y, 0), 0, atol=tol, err_msg="curl phi")
    np.testing.assert_allclose(d(lambda x, z, y: x * b[1](x, z, y), x, z, y, 0) / x - d(b[0], x, z, y, 2) / x, 0, atol=tol, err_msg="curl Z")
    # normalisation on axis at phi=0
    one = np.array([r0])
    ref = np.broadcast_to(f.Byfunc(one, np.zeros(1), 0.0), (1,))
    np.testing.assert_allclose(ref, b0, rtol=1e-10)
    np.testing.assert_allclose(f.Rfunc(x, z, y), x)
    # the potential is the one with the requested coefficients as boundary values on the cylinder R = R_0:
    # D_ml = Z^l/l!, dD_ml/dR = 0, N_ml = 0, dN_ml/dR = Z^l/l! there
    x = np.full(shape, r0)
    u, e = z / r0, np.zeros((3,) + shape)
    e[1] = 1.0
    e0 = 1.0
    for m, l in np.argwhere(np.any(A != 0, axis=2)):
        a1, a2, a3, a4 = A[m, l]
        p, q = a1 * np.cos(m * y) + a2 * np.sin(m * y), a3 * np.cos(m * y) + a4 * np.sin(m * y)
        if l == 0 and (a3 or a4):
            return None
        if l:
            e[0] += q * u**(l - 1) / math.factorial(l - 1)
            e[2] += p * u**(l - 1) / math.factorial(l - 1)
        e[1] += m * (-a1 * np.sin(m * y) + a2 * np.cos(m * y)) * u**l / math.factorial(l)
        e0 += m * a2 * (1.0 if l == 0 else 0.0)
    got = np.array([g(x, z, y) for g in b])
    np.testing.assert_allclose(got, e / e0 * b0, rtol=1e-7, atol=1e-8 * np.max(np.abs(got)), err_msg="field on the cylinder R = R_0")
    return dict(A=np.argwhere(A).tolist(), r0=r0)


def pinch(R):
    xc, zc, sh, bt = R.real(1, 2), R.real(-0.3, 0.3), R.real(-0.5, 0.5), R.choice([-1.0, 2.0])
    f = field.Screwpinch(xcentre=xc, zcentre=zc, shear=sh, Btor=bt)
    shape = shapes(R)
    x, z, y = R.array(shape, 0.5, 2.5), R.array(shape), R.real(-3, 3)
    r2 = (x - xc)**2 + (z - zc)**2
    bx, by, bz = full(f.Bxfunc(x, z, y), shape), full(f.Byfunc(x, z, y), shape), full(f.Bzfunc(x, z, y), shape)
    np.testing.assert_allclose(by, bt / x, rtol=1e-12)
    np.testing.assert_allclose(bx * (x - xc) + bz * (z - zc), 0, atol=1e-12, err_msg="field crosses the circles")
    np.testing.assert_allclose(f.Rfunc(x, z, y), x)
    return dict(sh=sh)


CASES = [slab, stellarator, dommaschk, pinch]
