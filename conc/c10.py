import numpy as np
from gcommon import shape_grid, Spl
from zoidberg.grid import Grid, rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid

KEYS = ["gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "dx", "dz"]


def consistent(m, shape, dR):
    """m: metric dict, dR: derivative pairs ((Rx, Zx), (Rz, Zz)) per index"""
    b = {k: np.broadcast_to(m[k], shape).astype(float) for k in KEYS}
    (rx, zx), (rz, zz) = dR
    S = rx**2 + zx**2 + rz**2 + zz**2
    eq = lambda a, c, w: np.testing.assert_allclose(a, c, rtol=1e-7, atol=1e-9 * np.max(S), err_msg=w)
    eq(b["g_xx"] * b["dx"]**2, rx**2 + zx**2, "g_xx dx^2")
    eq(b["g_zz"] * b["dz"]**2, rz**2 + zz**2, "g_zz dz^2")
    eq(b["g_xz"] * b["dx"] * b["dz"], rx * rz + zx * zz, "g_xz dx dz")
    det = b["g_xx"] * b["g_zz"] - b["g_xz"]**2
    assert np.all(det > 0) and np.all(b["g_xx"] > 0) and np.all(b["g_zz"] > 0), "not positive definite"
    assert np.all(b["dx"] > 0) and np.all(b["dz"] > 0)
    np.testing.assert_allclose(b["gxx"] * det, b["g_zz"], rtol=1e-7, atol=0)
    np.testing.assert_allclose(b["gzz"] * det, b["g_xx"], rtol=1e-7, atol=0)
    np.testing.assert_allclose(b["gxz"] * det, -b["g_xz"], rtol=1e-6, atol=1e-9 * np.max(np.abs(b["g_xz"]) + np.abs(b["g_xx"])))


def derivs(s, nx, nz):
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    return s(i, k, 1, 0), s(i, k, 0, 1)


def structured(R):
    r, z = shape_grid(R)
    g = StructuredPoloidalGrid(r, z)
    consistent(g.metric(), r.shape, derivs(Spl(r, z), *r.shape))
    assert np.array_equal(g.R, r) and np.array_equal(g.Z, z)
    return dict(shape=r.shape)


def rectangular(R):
    nx, nz = R.int(5, 9), R.int(1, 9)
    g = RectangularPoloidalGrid(nx, nz, R.real(0.1, 9), R.real(0.1, 9), R.real(-3, 3), R.real(-3, 3))
    dR, dZ = g.R[1, 0] - g.R[0, 0], (g.Z[0, 1] - g.Z[0, 0] if nz > 1 else g.Lz / nz)
    o = np.ones((nx, nz))
    consistent(g.metric(), (nx, nz), ((dR * o, 0 * o), (0 * o, dZ * o)))


def planes(R):
    ny = R.choice([1, 1, 2, 3, 4, 6])
    Ly = R.real(0.5, 20)
    nx, nz = R.int(5, 7), R.int(8, 12)
    kind = R.choice(["s", "s", "r", "mixed"])
    pols, ders = [], []
    for j in range(ny):
        if kind == "s" or (kind == "mixed" and j % 2 == 0):
            r, z = shape_grid(R, nx, nz)
            pols.append(StructuredPoloidalGrid(r, z))
            ders.append(derivs(Spl(r, z), nx, nz))
        else:
            p = RectangularPoloidalGrid(nx, nz, R.real(0.1, 9), R.real(0.1, 9), R.real(-3, 3), R.real(-3, 3))
            o = np.ones((nx, nz))
            pols.append(p)
            ders.append((((p.R[1, 0] - p.R[0, 0]) * o, 0 * o), (0 * o, (p.Z[0, 1] - p.Z[0, 0]) * o)))
    per = R.coin()
    y = np.sort(R.rng.uniform(0, Ly, ny)) if R.coin(0.5) else (np.arange(ny) + (0 if per else 0.5)) * Ly / ny
    g = Grid(pols, y, Ly, yperiodic=per)
    m = g.metric()
    for j in range(ny):
        pm = pols[j].metric()
        for k in KEYS:
            assert m[k].shape == (nx, ny, nz), k
            np.testing.assert_allclose(m[k][:, j, :], np.broadcast_to(pm[k], (nx, nz)), rtol=1e-12, atol=1e-12, err_msg=f"{k} of plane {j}")
        consistent({k: m[k][:, j, :] for k in KEYS}, (nx, nz), ders[j])
    assert np.array_equal(m["gyy"], np.ones((nx, ny, nz))) and np.array_equal(m["g_yy"], np.ones((nx, ny, nz)))
    if ny == 1:
        dy = np.array([Ly])
    else:
        dy = np.empty(ny)
        dy[0], dy[-1] = y[1] - y[0], y[-1] - y[-2]
        dy[1:-1] = (y[2:] - y[:-2]) / 2
    np.testing.assert_allclose(m["dy"], np.broadcast_to(dy[None, :, None], (nx, ny, nz)), rtol=1e-12, atol=1e-12)
    m2 = g.metric()
    for k in m:
        assert np.array_equal(m[k], m2[k]), k
    return dict(ny=ny, kind=kind, periodic=per)


CASES = [structured, rectangular, planes]
