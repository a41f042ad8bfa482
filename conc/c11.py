import copy

import numpy as np
from gcommon import shape_grid
from zoidberg import field as F
from zoidberg.grid import Grid, rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
from zoidberg.zoidberg import get_metric


class Custom(F.MagneticField):
    """every component depends on x, z and y"""

    def __init__(self, c, cyl, p):
        self.c, self.cyl, self.p = c, cyl, p

    def Bxfunc(self, x, z, phi):
        return self.c[0] * np.sin(x + 2 * z + phi)

    def Byfunc(self, x, z, phi):
        return self.c[1] * (2 + np.cos(x - z + 3 * phi))

    def Bzfunc(self, x, z, phi):
        return self.c[2] + 0.1 * x * z + 0.2 * phi

    def Rfunc(self, x, z, phi):
        return x + 0.01 * phi if self.cyl else None

    def pressure(self, x, z, phi):
        return self.p * (x + z + phi) if self.p else 0.0


def make(R):
    cyl = R.coin()
    f = R.choice([Custom(R.rng.uniform(0.3, 2, 3) * R.choice([1, -1]), cyl, R.choice([0.0, 2.5])),
                  Custom(R.rng.uniform(0.3, 2, 3), cyl, 0.7),
                  F.Slab(By=R.real(0.5, 2), Bz=R.real(-1, 1), Bzprime=R.real(-1, 1)),
                  F.CurvedSlab(By=R.real(0.5, 2), Bz=R.real(-1, 1), Bzprime=R.real(-1, 1), Rmaj=R.real(1, 5))])
    ny, nx, nz = R.choice([1, 2, 3, 5]), R.int(5, 7), R.int(8, 11)
    Ly = R.real(0.5, 9)
    if R.coin():
        pols = [StructuredPoloidalGrid(*shape_grid(R, nx, nz)) for _ in range(ny)]
    else:
        pols = [RectangularPoloidalGrid(nx, nz, R.real(0.5, 2), R.real(0.5, 2), Rcentre=R.real(9, 12), Zcentre=R.real(-1, 1)) for _ in range(ny)]
    per = R.coin()
    return Grid(pols, (np.arange(ny) + (0 if per else 0.5)) * Ly / ny, Ly, yperiodic=per), f, pols


def metric(R):
    g, f, pols = make(R)
    base = {k: np.array(v) for k, v in g.metric().items()}
    for rep in range(R.choice([1, 2, 3])):
        m, BJg = get_metric(g, f)
        for j, p in enumerate(pols):
            y = g.ycoords[j]
            bx, by, bz = (np.broadcast_to(fn(p.R, p.Z, y), p.R.shape) for fn in (f.Bxfunc, f.Byfunc, f.Bzfunc))
            B = np.sqrt(bx**2 + by**2 + bz**2)
            rm = f.Rfunc(p.R, p.Z, y)
            rm = 1.0 if rm is None else rm
            eq = lambda a, b, w: np.testing.assert_allclose(a, np.broadcast_to(b, p.R.shape), rtol=1e-9, atol=1e-12, err_msg=f"{w}, call {rep}, plane {j}")
            eq(m["g_yy"][:, j], (rm * B / by)**2, "g_yy")
            eq(m["gyy"][:, j] * m["g_yy"][:, j], 1.0, "gyy*g_yy")
            eq(m["B"][:, j], B, "B")
            eq(m["Bxy"][:, j], B, "Bxy")
            eq(m["pressure"][:, j], f.pressure(p.R, p.Z, y), "pressure")
            eq(BJg[:, j], B * np.sqrt(base["g_xx"][:, j] * base["g_zz"][:, j] - base["g_xz"][:, j]**2), "BJg")
        for k in ("gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "dx", "dy", "dz"):
            assert np.array_equal(m[k], base[k]), f"{k} changed"
        # the result is the caller's own
        if R.coin():
            for k in m:
                m[k][...] = -7.0
        g2 = g.metric()
        assert set(g2) == set(base)
        for k in base:
            assert np.array_equal(g2[k], base[k]), f"grid.metric()[{k}] changed by get_metric"
    return dict(field=type(f).__name__, ny=len(pols))


CASES = [metric]
