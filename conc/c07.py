import math

import numpy as np
from zoidberg.grid import Grid, rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid


class Pol:
    """stand-in plane: only nx and nz are needed for the lookup"""

    def __init__(self, nx, nz):
        self.nx, self.nz = nx, nz


def make(R):
    ny = R.choice([1, 1, 2, 3, 4, 5, 8, 13])
    Ly = R.choice([1.0, 2 * math.pi, R.real(0.1, 30)])
    # strictly increasing, inside [0, Ly)
    y = np.sort(R.rng.uniform(0, Ly, size=ny)) if R.coin(0.6) else (np.arange(ny) + R.choice([0.0, 0.5])) * Ly / ny
    pols = [Pol(3, 2) for _ in range(ny)]
    per = R.coin()
    as_list = R.coin(0.3)
    return Grid(pols, list(y) if as_list else y, Ly, yperiodic=per), pols, y, Ly, per, ny


def oracle(k, pols, y, Ly, per):
    ny = len(y)
    if 0 <= k < ny:
        return pols[k], y[k]
    if per:
        q, r = divmod(k, ny)
        return pols[r], y[r] + q * Ly
    return (None, 0.0) if k < 0 else (None, Ly)


def integers(R):
    g, pols, y, Ly, per, ny = make(R)
    assert g.numberOfPoloidalGrids() == ny
    assert tuple(g.shape) == (3, ny, 2)
    for _ in range(12):
        k = R.choice([R.int(-3 * ny - 2, 4 * ny + 2), R.int(-10**6, 10**6), R.int(0, ny - 1), -1, ny, -ny, 2 * ny, ny - 1, -ny - 1])
        for kk in (k, float(k), np.int64(k)):
            p, yy = g.getPoloidalGrid(kk)
            ep, ey = oracle(k, pols, y, Ly, per)
            assert p is ep, (k, ny, per)
            assert abs(yy - ey) <= 1e-9 * (1 + abs(ey)), (k, yy, ey)
    return dict(ny=ny, periodic=per)


def fractions(R):
    g, pols, y, Ly, per, ny = make(R)
    idx = []
    for _ in range(12):
        b = R.choice([R.int(-3 * ny - 2, 4 * ny + 2), 0, -1, ny - 1, ny, -ny, -2])
        f = R.choice([0.5, 0.25, R.real(0.01, 0.99), 1e-5, 1 - 1e-5])
        t = b + f
        p, yy = g.getPoloidalGrid(t)
        lo, hi = oracle(b, pols, y, Ly, per)[1], oracle(b + 1, pols, y, Ly, per)[1]
        assert p is None, "fractional index returned a grid"
        exp = lo + (hi - lo) * (t - b)
        assert abs(yy - exp) <= 1e-8 * (1 + abs(exp)), (t, yy, exp, per)
        idx.append(t)
    for _ in range(6):
        # a rounding error away from an integer: that plane's coordinate, to the rounding
        b, e = R.choice([R.int(-2 * ny, 3 * ny), 0, ny, -ny, ny - 1]), R.choice([1e-12, 1e-9, 5e-7])
        for t in (b - e, b + e):
            p, yy = g.getPoloidalGrid(t)
            ey = oracle(b, pols, y, Ly, per)[1]
            assert p is None or p is oracle(b, pols, y, Ly, per)[0]
            assert abs(yy - ey) <= 1e-5 * Ly, (t, yy, ey, per)
            idx.append(t)
    ks = sorted(idx + [R.int(-2 * ny, 3 * ny) for _ in range(6)])
    ys = [g.getPoloidalGrid(k)[1] for k in ks]
    assert np.all(np.diff(ys) >= -1e-5 * Ly), "coordinate decreases with the index"
    return dict(ny=ny, periodic=per, index=idx[0])


def rect(R):
    nx, ny, nz, Ly, per = R.int(5, 8), R.int(1, 7), R.int(1, 6), R.real(0.5, 20), R.coin()
    g = rectangular_grid(nx, ny, nz, Lx=R.real(0.1, 2), Ly=Ly, Lz=R.real(0.1, 2), yperiodic=per)
    y = np.arange(ny) * Ly / ny if per else (np.arange(ny) + 0.5) * Ly / ny
    assert np.allclose(g.ycoords, y)
    for k in (-1, 0, ny - 1, ny, 2 * ny + 1, -ny - 1):
        p, yy = g.getPoloidalGrid(k)
        if per or 0 <= k < ny:
            assert isinstance(p, RectangularPoloidalGrid)
            q, r = divmod(k, ny)
            assert abs(yy - (y[r] + q * Ly)) < 1e-9
        else:
            assert p is None and yy == (0.0 if k < 0 else Ly)


CASES = [integers, fractions, rect]
