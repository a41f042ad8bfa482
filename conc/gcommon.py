"""Curvilinear test grids and an independent evaluation of their coordinate splines."""
import numpy as np
from scipy.interpolate import RectBivariateSpline


def shape_grid(R, nx=None, nz=None):
    """Smooth, nested, non-orthogonal closed surfaces (R, Z arrays nx by nz)."""
    nx = nx or R.int(5, 9)
    nz = nz or R.int(8, 20)
    r0, r1 = R.real(0.3, 0.8), R.real(1.0, 1.6)
    R0, Z0 = R.real(3, 8), R.real(-2, 2)
    el, tri, sh, ph = R.real(0.8, 1.6), R.real(-0.2, 0.2), R.real(-0.3, 0.3), R.real(0, 6.28)
    s = R.choice([1, 1, -1])
    x = np.linspace(0, 1, nx)[:, None]
    th = s * (2 * np.pi * np.arange(nz)[None, :] / nz + ph) + sh * x
    r = r0 + (r1 - r0) * x**R.choice([1.0, 0.8])
    return R0 + r * np.cos(th + tri * np.sin(th)), Z0 + el * r * np.sin(th)


class Spl:
    def __init__(self, R, Z):
        self.nx, self.nz = R.shape
        t = lambda a: np.concatenate((a, a, a), axis=1)
        xi, zi = np.arange(self.nx), np.arange(3 * self.nz)
        self.r, self.z = RectBivariateSpline(xi, zi, t(R)), RectBivariateSpline(xi, zi, t(Z))

    def __call__(self, x, z, dx=0, dz=0):
        x, z = np.asarray(x, float), np.asarray(z, float)
        zz = z - np.floor(z / self.nz) * self.nz + self.nz
        return self.r(x, zz, dx=dx, dy=dz, grid=False), self.z(x, zz, dx=dx, dy=dz, grid=False)
