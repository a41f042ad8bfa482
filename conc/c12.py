import numpy as np
from run import Skip
from zoidberg import rzline
from zoidberg.poloidal_grid import StructuredPoloidalGrid, grid_annulus, grid_elliptic


def lines(R, n=None):
    """nested, well separated smooth closed lines"""
    n1, n2 = n or R.int(8, 40), n or R.int(8, 40)
    R0, Z0 = R.real(3, 6), R.real(-1, 1)
    a, b = R.real(0.3, 0.7), R.real(1.1, 1.8)
    el = R.real(0.8, 1.3)
    off = R.real(0, 6.28)

    def mk(rad, n, tri):
        t = 2 * np.pi * np.arange(n) / n + off
        return rzline.RZline(R0 + rad * np.cos(t + tri * np.sin(t)), Z0 + el * rad * np.sin(t))

    return mk(a, n1, 0.0), mk(b, n2, R.real(-0.1, 0.2))


def annulus(R):
    inner, outer = lines(R)
    nx, nz = R.choice([2, 3, 5, 8]), R.int(2, 24)
    r, z = grid_annulus(inner, outer, nx, nz, show=False, return_coords=True)
    assert r.shape == (nx, nz) and z.shape == (nx, nz)
    th = 2 * np.pi * np.arange(nz) / nz
    for a, fi, fo in ((r, inner.Rvalue, outer.Rvalue), (z, inner.Zvalue, outer.Zvalue)):
        i, o = fi(th), fo(th)
        x = np.arange(nx)[:, None] / (nx - 1)
        np.testing.assert_allclose(a, i[None, :] + x * (o - i)[None, :], rtol=1e-10, atol=1e-10)
    if nx > 4 and nz > 4:
        g = grid_annulus(inner, outer, nx, nz, show=False)
        assert isinstance(g, StructuredPoloidalGrid) and np.allclose(g.R, r) and np.allclose(g.Z, z)
    return dict(nx=nx, nz=nz)


def on_line(r, z, line, tol):
    """distance of every point to the (densely sampled, refined) line"""
    th = np.linspace(0, 2 * np.pi, 4001)
    a, b = line.Rvalue(th), line.Zvalue(th)
    dth = th[1] - th[0]
    for p, q in zip(r, z):
        d = (a - p)**2 + (b - q)**2
        k = int(np.argmin(d))
        t = np.linspace(th[k] - dth, th[k] + dth, 401)
        dd = np.min((line.Rvalue(t) - p)**2 + (line.Zvalue(t) - q)**2)
        assert dd < tol**2, f"row point ({p}, {q}) is not on its line: {np.sqrt(dd)}"


def jacobi(r, z, dzr):
    nx, nz = r.shape
    dx, dz = 1.0 / (nx - 1), 2 * np.pi / nz
    zp, zm = (np.arange(nz) + 1) % nz, (np.arange(nz) - 1) % nz
    c = slice(1, -1)
    out = []
    D = lambda f: (dzr * (f[c][:, zp] - f[c][:, zm]) / (2 * dz), (f[2:] - f[:-2]) / (2 * dx))
    (rz, rx), (zz, zx) = D(r), D(z)
    a, b, cc = rz**2 + zz**2, rz * rx + zx * zz, rx**2 + zx**2
    for f in (r, z):
        mix = f[2:][:, zp] - f[:-2][:, zp] - f[2:][:, zm] + f[:-2][:, zm]
        out.append((a / dx**2 * (f[:-2] + f[2:]) - b / (2 * dx * dz) * mix + cc / dz**2 * (f[c][:, zm] + f[c][:, zp]))
                   / (2 * a / dx**2 + 2 * cc / dz**2))
    return out


def elliptic(R):
    inner, outer = lines(R)
    nx, nz = R.int(4, 8), R.int(8, 14)
    no, ni = R.choice([0, 0, 1, 2, 3]), R.choice([0, 0, 1, 2, 3])
    ort, align = R.coin(), R.coin()
    tol = 1e-10
    kw = {}
    dzr = 10 / 3
    if R.coin(0.3):
        dzr = kw["dz_relax"] = R.choice([1.0, 2.0])
    if R.coin(0.3):
        # start from the interpolated solution of a coarser grid (which the spline needs 4 by 4 points of)
        nx, nz = R.choice([8, 9, 12]), R.choice([12, 13, 16])
        kw["restrict_size"] = R.choice([8, 10])
    try:
        r, z = grid_elliptic(inner, outer, nx + no + ni, nz, return_coords=True, inner_ort=ort, align=align, tol=tol, nx_outer=no,
                             nx_inner=ni, **kw)
    except (ValueError, RuntimeError) as e:
        if "onverge" in str(e) or "kx" in str(e):
            raise Skip("no grid for these lines")
        raise
    assert r.shape == (nx + no + ni, nz) and z.shape == r.shape
    on_line(r[ni], z[ni], inner, 2e-4)
    on_line(r[ni + nx - 1], z[ni + nx - 1], outer, 2e-4)
    th = 2 * np.pi * np.arange(nz) / nz
    if ort or not align:
        np.testing.assert_allclose(r[ni + nx - 1], outer.Rvalue(th), atol=1e-10)
        np.testing.assert_allclose(z[ni + nx - 1], outer.Zvalue(th), atol=1e-10)
    if not ort and not align:
        np.testing.assert_allclose(r[ni], inner.Rvalue(th), atol=1e-10)
        np.testing.assert_allclose(z[ni], inner.Zvalue(th), atol=1e-10)
    for a in (r, z):
        d = a[ni + nx - 1] - a[ni + nx - 2]
        for k in range(1, no + 1):
            np.testing.assert_allclose(a[ni + nx - 1 + k], a[ni + nx - 1] + k * d, atol=1e-9)
        d = a[ni] - a[ni + 1]
        for k in range(1, ni + 1):
            np.testing.assert_allclose(a[ni - k], a[ni] + k * d, atol=1e-9)
    r0, z0 = r[ni:ni + nx], z[ni:ni + nx]
    jr, jz = jacobi(r0, z0, dzr)
    ch = np.max((jr - r0[1:-1])**2 + (jz - z0[1:-1])**2)
    assert ch < 3 * tol, f"interior does not satisfy the discretised equation: change {ch}"
    return dict(nx=nx, nz=nz, ort=ort, align=align, extra=(ni, no))


CASES = [annulus, elliptic]
