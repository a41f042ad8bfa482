"""Grids, exact field-line flows and fields for the map oracles."""
import numpy as np
from zoidberg import boundary, field
from zoidberg.grid import Grid, rectangular_grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid


class Flow:
    """rotation by k per unit y about the centre, with a growth exp(s*(sin(w y) - sin(w y0))): an exact flow"""

    def __init__(self, R, c, k, s):
        self.c, self.k, self.s, self.w = c, k, s, R.real(0.3, 1.5)
        self.calls = []

    def at(self, x, z, y0, y):
        x, z = np.asarray(x, float) - self.c[0], np.asarray(z, float) - self.c[1]
        g = np.exp(self.s * (np.sin(self.w * y) - np.sin(self.w * y0)))
        co, si = np.cos(self.k * (y - y0)), np.sin(self.k * (y - y0))
        return self.c[0] + g * (co * x - si * z), self.c[1] + g * (si * x + co * z)

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
        return np.array([np.stack(self.at(x_values, z_values, y_values[0], y), axis=-1) for y in y_values])


class Fld(field.MagneticField):
    def __init__(self, R, cyl=True):
        self.a = R.array(4, 0.1, 0.4)
        self.cyl = cyl
        self.boundary = boundary.NoBoundary()
        self.attributes = {}

    def Bxfunc(self, x, z, phi):
        return self.a[0] * np.sin(x + z + phi)

    def Bzfunc(self, x, z, phi):
        return self.a[1] * np.cos(x - z) + 0.1 * np.sin(phi)

    def Byfunc(self, x, z, phi):
        return 2 + self.a[2] * np.sin(x + 0.3 * phi) + self.a[3] * np.cos(2 * z - phi)

    def Rfunc(self, x, z, phi):
        return x if self.cyl else None

    def pressure(self, x, z, phi):
        return 1 + x + 2 * z + 3 * np.cos(phi)


def structured(R, c, nx, nz, el, tri, ph, r0, r1):
    x = np.linspace(0, 1, nx)[:, None]
    th = 2 * np.pi * np.arange(nz)[None, :] / nz + ph + 0.2 * x
    r = r0 + (r1 - r0) * x
    return StructuredPoloidalGrid(c[0] + r * np.cos(th + tri * np.sin(th)), c[1] + el * r * np.sin(th))


def grids(R, kind=None, ny=None, periodic=None):
    """returns grid, centre, kind"""
    kind = kind or R.choice(["rect", "rects", "struct", "struct"])
    ny = ny or R.choice([1, 2, 3, 4])
    per = R.coin() if periodic is None else periodic
    c = (R.real(4, 7), R.real(-1, 1))
    Ly = R.real(0.3, 1.2) * ny
    nx, nz = R.int(5, 8), R.int(8, 12)
    if kind == "rect":
        g = rectangular_grid(nx, ny, nz, Lx=R.real(1, 2), Ly=Ly, Lz=R.real(1, 2), xcentre=c[0], zcentre=c[1], yperiodic=per)
        return g, c, kind
    y = np.linspace(0, Ly, ny, endpoint=False) + (0 if per else 0.5 * Ly / ny)
    if kind == "rects":
        pols = []
        for _ in range(ny):
            lx, lz = R.real(1, 2), R.real(1, 2)
            pols.append(RectangularPoloidalGrid(nx, nz, lx, lz, c[0] + R.real(-0.1, 0.1), c[1] + R.real(-0.1, 0.1), MXG=R.choice([1, 2])))
    else:
        r0, r1 = R.real(0.4, 0.6), R.real(1.2, 1.6)
        pols = [structured(R, c, nx, nz, R.real(0.9, 1.2), R.real(-0.15, 0.15), R.real(-0.3, 0.3), r0, r1 * R.real(0.95, 1.05))
                for _ in range(ny)]
    return Grid(pols, y, Ly, yperiodic=per), c, kind


def target(grid, j, off):
    """y value and poloidal grid of the plane at index j+off, from the grid's planes alone"""
    ny, Ly = len(grid.ycoords), grid.Ly

    def yat(i):
        if grid.yperiodic:
            return grid.ycoords[i % ny] + (i // ny) * Ly
        return 0.0 if i < 0 else (Ly if i >= ny else grid.ycoords[i])

    i = j + off
    if i != int(i):
        lo = int(np.floor(i))
        return 0.5 * (yat(lo) + yat(lo + 1)), None
    i = int(i)
    if not grid.yperiodic and not 0 <= i < ny:
        return yat(i), None
    return yat(i), grid.poloidal_grids[i % ny]
