import numpy as np
from gcommon import shape_grid, Spl
from run import Skip
from zoidberg.poloidal_grid import StructuredPoloidalGrid


def coordinates(R):
    r, z = shape_grid(R)
    g, s = StructuredPoloidalGrid(r, z), Spl(r, z)
    nx, nz = r.shape
    assert (g.nx, g.nz) == (nx, nz)
    shape = R.choice([(), (5,), (2, 3)])
    x, zi = R.array(shape, 0, nx - 1), R.array(shape, -2 * nz, 3 * nz)
    if R.coin(0.3):
        x, zi = np.round(x), np.round(zi)
    for dx, dz in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)):
        a, b = g.getCoordinate(x, zi, dx=dx, dz=dz)
        ea, eb = s(x, zi, dx, dz)
        assert np.shape(a) == shape and np.shape(b) == shape
        assert np.allclose(a, ea, atol=1e-8) and np.allclose(b, eb, atol=1e-8), (dx, dz)
        for m in (-3, -1, 1, 4):
            a2, b2 = g.getCoordinate(x, zi + m * nz, dx=dx, dz=dz)
            assert np.allclose(a2, a, atol=1e-7) and np.allclose(b2, b, atol=1e-7), "not periodic in z"
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    a, b = g.getCoordinate(i, k)
    assert np.allclose(a, r, atol=1e-9) and np.allclose(b, z, atol=1e-9)
    for bad in (-1e-3, nx - 1 + 1e-3, -5.0, nx + 3.0):
        xb = np.full(3, 1.0)
        xb[R.int(0, 2)] = bad
        try:
            g.getCoordinate(xb, np.zeros(3))
        except ValueError:
            continue
        raise AssertionError(f"x index {bad} was accepted")
    return dict(nx=nx, nz=nz)


def fine(R):
    """On a well resolved, mildly shaped grid points away from the edges are found, not flagged."""
    nx, nz = R.int(6, 9), R.int(40, 64)
    th = 2 * np.pi * np.arange(nz)[None, :] / nz * R.choice([1, -1])
    rad = np.linspace(1.0, 2.0, nx)[:, None]
    el = R.real(0.9, 1.2)
    r, z = R.real(4, 6) + rad * np.cos(th), el * rad * np.sin(th)
    search(R, r, z, True)


def search(R, r=None, z=None, strict=False):
    if r is None:
        r, z = shape_grid(R)
    g, s = StructuredPoloidalGrid(r, z), Spl(r, z)
    nx, nz = r.shape
    shape = R.choice([(), (1,), (7,), (3, 4)])
    n = int(np.prod(shape))
    x0, z0 = R.array(n, 0.7, nx - 1.7), R.array(n, 0, nz)
    kind = R.rng.choice(3, size=n, p=[0.7, 0.15, 0.15])
    pr, pz = s(x0, z0)
    # beyond the outer surface / inside the hole
    c = np.array([np.mean(r[0]), np.mean(z[0])])
    k = (np.round(z0).astype(int)) % nz
    pr = np.where(kind == 1, c[0] + (r[-1, k] - c[0]) * 1.15, pr)
    pz = np.where(kind == 1, c[1] + (z[-1, k] - c[1]) * 1.15, pz)
    pr = np.where(kind == 2, c[0] + (r[0, k] - c[0]) * 0.8, pr)
    pz = np.where(kind == 2, c[1] + (z[0, k] - c[1]) * 0.8, pz)
    pr, pz = pr.reshape(shape), pz.reshape(shape)
    pr0, pz0 = np.array(pr), np.array(pz)
    try:
        xi, zi = g.findIndex(pr, pz)
    except RuntimeError as e:  # allowed: the search reports that it failed
        raise Skip(str(e))
    assert np.array_equal(pr, pr0) and np.array_equal(pz, pz0), "input changed"
    assert np.shape(xi) == shape and np.shape(zi) == shape, "shape"
    xi, zi = np.asarray(xi).reshape(n), np.asarray(zi).reshape(n)
    pr, pz = np.asarray(pr).reshape(n), np.asarray(pz).reshape(n)
    for i in range(n):
        deep = strict and kind[i] == 0 and 0.8 <= x0[i] <= nx - 1.8
        if xi[i] == -1:
            assert not strict or kind[i] == 2 or (kind[i] == 0 and x0[i] < nx / 2), "point beyond the outer boundary flagged as inner"
            assert not deep, ("point inside flagged as inner boundary", x0[i], nx)
        elif xi[i] == nx:
            assert not strict or kind[i] == 1 or (kind[i] == 0 and x0[i] > nx / 2 - 1), "point inside the hole flagged as outer"
            assert not deep, ("point inside flagged as outer boundary", x0[i], nx)
        else:
            assert 0.5 <= xi[i] <= nx - 1.5, xi[i]
            a, b = s(xi[i], zi[i])
            assert (a - pr[i])**2 + (b - pz[i])**2 < 1.1e-12, "returned index is not at the requested point"
            if not strict:
                continue
            assert kind[i] == 0, "point outside the grid was given an index inside"
            assert abs(xi[i] - x0[i]) < 1e-3, (xi[i], x0[i])
    return dict(shape=shape, nx=nx, nz=nz)


def tolerance(R):
    r, z = shape_grid(R)
    g, s = StructuredPoloidalGrid(r, z), Spl(r, z)
    nx, nz = r.shape
    tol = R.choice([1e-4, 1e-8, 1e-14])
    n = R.int(1, 6)
    x0, z0 = R.array(n, 0.6, nx - 1.6), R.array(n, 0, nz)
    pr, pz = s(x0, z0)
    try:
        xi, zi = g.findIndex(pr, pz, tol=tol)
    except RuntimeError as e:
        raise Skip(str(e))
    ins = (xi != -1) & (xi != nx)
    a, b = s(np.clip(xi, 0, nx - 1), zi)
    assert np.all(((a - pr)**2 + (b - pz)**2)[ins] < tol * 1.01 + 1e-24), "tolerance not met"
    assert np.all((xi[ins] >= 0.5) & (xi[ins] <= nx - 1.5))


CASES = [coordinates, search, fine, tolerance]
