import numpy as np
from zoidberg.grid import rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid


def make(R):
    mxg = R.choice([0, 1, 2, 2, 3])
    nx, nz = 2 * mxg + R.int(1, 9), R.int(1, 9)
    Lx, Lz = R.real(0.05, 20), R.real(0.05, 20)
    Rc, Zc = R.choice([0.0, R.real(-30, 30)]), R.choice([0.0, R.real(-30, 30)])
    kw = {} if mxg == 2 and R.coin() else dict(MXG=mxg)
    return RectangularPoloidalGrid(nx, nz, Lx, Lz, Rc, Zc, **kw), nx, nz, Lx, Lz, Rc, Zc, mxg


def close(a, b, s=1.0):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.allclose(a, b, rtol=1e-9, atol=1e-9 * s), (a, b)


def geometry(R):
    g, nx, nz, Lx, Lz, Rc, Zc, mxg = make(R)
    dR, dZ = Lx / (nx - 2 * mxg), Lz / nz
    S = abs(Rc) + abs(Zc) + Lx * nx + Lz * nz
    i, k = np.arange(nx), np.arange(nz)
    Rr = Rc + (i - (nx - 1) / 2) * dR
    Zr = Zc + (k - (nz - 1) / 2) * dZ
    assert np.shape(g.R) == (nx, nz) and np.shape(g.Z) == (nx, nz)
    close(g.R, np.broadcast_to(Rr[:, None], (nx, nz)), S)
    close(g.Z, np.broadcast_to(Zr[None, :], (nx, nz)), S)
    assert (g.nx, g.nz) == (nx, nz)
    # boundary half way between the last guard point and the first point inside
    close(g.R[mxg, 0] - dR / 2, Rc - Lx / 2, S)
    close(g.R[nx - mxg - 1, 0] + dR / 2, Rc + Lx / 2, S)
    m = g.metric()
    close(m["dx"], dR, S)
    close(m["dz"], dZ, S)
    return dict(nx=nx, nz=nz, mxg=mxg)


def roundtrip(R):
    g, nx, nz, Lx, Lz, Rc, Zc, mxg = make(R)
    dR, dZ = Lx / (nx - 2 * mxg), Lz / nz
    shape = R.choice([(), (3,), (2, 3), (nx, nz), (1, 1)])
    x, z = R.array(shape, -3 * nx, 4 * nx), R.array(shape, -3 * nz, 4 * nz)
    r, zz = g.getCoordinate(x, z)
    S = abs(Rc) + abs(Zc) + Lx * nx + Lz * nz
    close(r, Rc + (np.asarray(x) - (nx - 1) / 2) * dR, S)
    close(zz, Zc + (np.asarray(z) - (nz - 1) / 2) * dZ, S)
    x2, z2 = g.findIndex(r, zz)
    close(x2, x, S / dR)
    close(z2, z, S / dZ)
    a, b = R.array(shape, -50, 50), R.array(shape, -50, 50)
    xi, zi = g.findIndex(a, b)
    a2, b2 = g.getCoordinate(xi, zi)
    close(a2, a, S)
    close(b2, b, S)


def derivatives(R):
    g, nx, nz, Lx, Lz, Rc, Zc, mxg = make(R)
    dR, dZ = Lx / (nx - 2 * mxg), Lz / nz
    shape = R.choice([(), (4,), (2, 3)])
    x, z = R.array(shape, -2 * nx, 3 * nx), R.array(shape, -2 * nz, 3 * nz)
    for dx in range(4):
        for dz in range(4):
            if dx + dz == 0:
                continue
            a, b = g.getCoordinate(x, z, dx=dx, dz=dz)
            ea = dR if (dx, dz) == (1, 0) else 0.0
            eb = dZ if (dx, dz) == (0, 1) else 0.0
            close(a, np.full(shape, ea))
            close(b, np.full(shape, eb))
    h = 0.5
    p, q = g.getCoordinate(x + h, z), g.getCoordinate(x - h, z)
    a, b = g.getCoordinate(x, z, dx=1)
    close((p[0] - q[0]) / (2 * h), a, 1e3)
    close((p[1] - q[1]) / (2 * h), b, 1e3)


def yplanes(R):
    nx, ny, nz = R.int(5, 9), R.int(1, 12), R.int(1, 6)
    Lx, Ly, Lz = R.real(0.1, 9), R.real(0.1, 90), R.real(0.1, 9)
    xc, zc, per = R.real(-9, 9), R.real(-9, 9), R.coin()
    g = rectangular_grid(nx, ny, nz, Lx=Lx, Ly=Ly, Lz=Lz, xcentre=xc, zcentre=zc, yperiodic=per)
    assert tuple(g.shape) == (nx, ny, nz) and g.numberOfPoloidalGrids() == ny
    exp = (np.arange(ny) + (0.0 if per else 0.5)) * Ly / ny
    close(g.ycoords, exp, Ly)
    assert bool(g.yperiodic) == per and g.Ly == Ly
    for j in (0, ny - 1):
        p, y = g.getPoloidalGrid(j)
        close(y, exp[j], Ly)
        close(np.mean(p.R), xc, 10)
        close(np.mean(p.Z), zc, 10)
        if nx > 1:
            close(p.R[1, 0] - p.R[0, 0], Lx / (nx - 4), 10)
        if nz > 1:
            close(p.Z[0, 1] - p.Z[0, 0], Lz / nz, 10)
    if R.coin(0.3):
        d = rectangular_grid(nx, ny, nz)
        assert not d.yperiodic and d.Ly == 10.0
        close(d.ycoords, (np.arange(ny) + 0.5) * 10.0 / ny)


CASES = [geometry, roundtrip, derivatives, yplanes]
