import os
import shutil
import tempfile

import numpy as np
from run import Skip
from zoidberg import boundary, field


class Eq:
    """An analytic equilibrium and the g-file that tabulates it"""

    def __init__(self, R, d, lim=True, coil=None):
        self.coil = coil
        try:
            from freeqdsk import geqdsk
        except ImportError:
            raise Skip("freeqdsk is not installed")
        nr, nz = R.choice([(33, 33), (33, 41), (45, 33)])
        self.R0, self.Z0 = R.real(1.5, 2.5), R.real(-0.2, 0.2)
        self.a, self.k = R.real(0.45, 0.6), R.real(0.9, 1.3)
        self.s = R.choice([1, -1]) * R.real(0.5, 2)
        self.c3 = R.real(-0.2, 0.2)
        self.off = R.real(-1, 1)
        rl, rd = self.R0 - 1.0, 2.0
        zm, zd = self.Z0 + R.real(-0.05, 0.05), 2.6
        r, z = np.linspace(rl, rl + rd, nr), np.linspace(zm - zd / 2, zm + zd / 2, nz)
        rr, zz = np.meshgrid(r, z, indexing="ij")
        self.hr, self.hz = r[1] - r[0], z[1] - z[0]
        self.fc, self.pc = R.array(4, -0.3, 0.3), R.array(4, -100, 100)
        self.fc[0] = R.choice([-1, 1]) * R.real(2, 4)
        pn = np.linspace(0, 1, nr)
        pax, pb = self.off, self.off + self.s * self.a**2
        # last closed surface psi = pb, traced along rays
        t = np.linspace(0, 2 * np.pi, 200, endpoint=False)
        rho = np.full(200, self.a)
        for _ in range(60):
            e = self.psi(self.R0 + rho * np.cos(t), self.Z0 + rho * np.sin(t)) - pb
            rho = rho - e / (2 * self.s * self.a)
            rho = np.clip(rho, 0.05, 0.95)
        if np.max(np.abs(self.psi(self.R0 + rho * np.cos(t), self.Z0 + rho * np.sin(t)) - pb)) > 1e-6:
            raise Skip("contour")
        self.t, self.rho = t, rho
        box = [(self.R0 - 0.9, self.Z0 - 1.1), (self.R0 + 0.9, self.Z0 - 1.1), (self.R0 + 0.9, self.Z0 + 1.1), (self.R0 - 0.9, self.Z0 + 1.1)]
        data = dict(nx=nr, ny=nz, rdim=rd, zdim=zd, rcentr=self.R0, rleft=rl, zmid=zm, rmagx=self.R0, zmagx=self.Z0, simagx=pax, sibdry=pb,
                    bcentr=1.0, cpasma=1.0, fpol=np.polyval(self.fc[::-1], pn), pres=np.polyval(self.pc[::-1], pn), ffprime=np.zeros(nr),
                    pprime=np.zeros(nr), psi=self.psi(rr, zz), qpsi=np.ones(nr), rbdry=self.R0 + rho * np.cos(t), zbdry=self.Z0 + rho * np.sin(t),
                    rlim=np.array([p[0] for p in box]) if lim else np.array([]), zlim=np.array([p[1] for p in box]) if lim else np.array([]))
        self.lim = lim
        self.path = os.path.join(d, f"g{R.int(0, 10**9)}")
        with open(self.path, "w") as f:
            geqdsk.write(data, f)
        self.pax, self.pb = pax, pb

    def psi(self, r, z):
        x, y = r - self.R0, (z - self.Z0) / self.k
        p = self.off + self.s * (x**2 + y**2 + self.c3 * x * (x**2 - y**2))
        if self.coil:  # a second well of the flux outside the plasma
            cx, cy, w, amp = self.coil
            p = p - self.s * amp * np.exp(-((x - cx)**2 + (y * self.k - cy)**2) / w**2)
        return p

    def grad(self, r, z):
        x, y = r - self.R0, (z - self.Z0) / self.k
        return (self.s * (2 * x + self.c3 * (3 * x**2 - y**2)), self.s * (2 * y - 2 * self.c3 * x * y) / self.k)


def scratch(fn):
    def g(R):
        d = tempfile.mkdtemp(prefix="verif_c17_")
        try:
            return fn(R, d)
        finally:
            shutil.rmtree(d)

    g.__name__ = fn.__name__
    return g


@scratch
def equilibrium(R, d):
    eq = Eq(R, d, R.coin(0.7))
    f = field.GEQDSK(eq.path)
    n = 40
    shape = R.choice([(n,), (4, 10)])
    x, z = eq.R0 + R.array(shape, -0.9, 0.9), eq.Z0 + R.array(shape, -1.1, 1.1)
    y = R.real(-3, 3)
    bx, by, bz = f.Bxfunc(x, z, y), f.Byfunc(x, z, y), f.Bzfunc(x, z, y)
    for b in (bx, by, bz, f.pressure(x, z, y), f.Rfunc(x, z, y), f.Bmag(x, z, y)):
        assert np.shape(b) == shape
    px, pz = eq.grad(x, z)
    g = np.hypot(px, pz)
    np.testing.assert_allclose(bx * px + bz * pz, 0, atol=2e-5 * np.max(g)**2, err_msg="poloidal field crosses flux surfaces")
    np.testing.assert_allclose(np.hypot(bx, bz), g / x, rtol=1e-4, atol=1e-5)
    # inside and outside the last closed surface, away from the kink of the clipped flux
    ang, dist = np.arctan2(z - eq.Z0, x - eq.R0) % (2 * np.pi), np.hypot(z - eq.Z0, x - eq.R0)
    edge = np.interp(ang, np.append(eq.t, 2 * np.pi), np.append(eq.rho, eq.rho[0]))
    far = 4.5 * max(eq.hr, eq.hz)
    inn, out = dist < edge - far, dist > edge + far
    pn = (eq.psi(x, z) - eq.pax) / (eq.pb - eq.pax)
    # the error of the spline across the kink decays by a factor of about four per cell
    np.testing.assert_allclose((by * x)[inn], np.polyval(eq.fc[::-1], pn[inn]), rtol=5e-3)
    np.testing.assert_allclose((by * x)[out], np.polyval(eq.fc[::-1], 1.0), rtol=5e-3)
    p = f.pressure(x, z, y)
    np.testing.assert_allclose(p[inn], np.polyval(eq.pc[::-1], pn[inn]), atol=2.5)
    np.testing.assert_allclose(p[out], np.polyval(eq.pc[::-1], 1.0), atol=2.5)
    np.testing.assert_allclose(f.attributes["psi"](x, z, y), eq.psi(x, z), atol=1e-5)
    if eq.lim:
        o = f.boundary.outside(x, y, z)
        assert o.shape == shape and not o.any()
        far = f.boundary.outside(x + 3, y, z)
        assert far.all()
    else:
        assert not np.any(f.boundary.outside(x + 3, y, z))
    # a scalar position
    s = float(x.flat[0]), float(z.flat[0])
    np.testing.assert_allclose(f.Byfunc(*s, y), by.flat[0], rtol=1e-10)
    np.testing.assert_allclose(f.pressure(*s, y), p.flat[0], rtol=1e-8, atol=1e-8)
    return dict(inside=int(inn.sum()), outside=int(out.sum()))


@scratch
def coil(R, d):
    """outside the plasma the toroidal field and the pressure are the edge values even where psi returns to core values"""
    cx, cy, w = R.choice([-1, 1]) * R.real(0.6, 0.8), R.choice([-1, 1]) * R.real(0.85, 1.0), R.real(0.15, 0.2)
    eq = Eq(R, d, R.coin(0.5), (cx, cy, w, R.real(1.5, 2.0)))
    f = field.GEQDSK(eq.path)
    t, rr = R.array(30, 0, 6.3), R.array(30, 0, 0.25)
    x, z = eq.R0 + cx + rr * np.cos(t), eq.Z0 + cy + rr * np.sin(t)
    ang, dist = np.arctan2(z - eq.Z0, x - eq.R0) % (2 * np.pi), np.hypot(z - eq.Z0, x - eq.R0)
    edge = np.interp(ang, np.append(eq.t, 2 * np.pi), np.append(eq.rho, eq.rho[0]))
    out = dist > edge + 4.5 * max(eq.hr, eq.hz)
    pn = (eq.psi(x, z) - eq.pax) / (eq.pb - eq.pax)
    if not np.any(out & (pn < 0.8)):
        raise Skip("no well")
    np.testing.assert_allclose((f.Byfunc(x, z, 0.3) * x)[out], np.polyval(eq.fc[::-1], 1.0), rtol=5e-3)
    np.testing.assert_allclose(f.pressure(x, z, 0.3)[out], np.polyval(eq.pc[::-1], 1.0), atol=2.5)
    return int(np.sum(out & (pn < 0.8)))


def probe(f, eq=None):
    x, z = np.linspace(1.6, 2.4, 7), np.linspace(-0.3, 0.3, 7)
    out = [np.array(np.broadcast_to(g(x, z, 0.4), (7,)), copy=True) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc, f.pressure)]
    out.append(np.array(np.broadcast_to(f.boundary.outside(x + 3, 0.4, z), (7,)), copy=True))
    return out, sorted(f.attributes), type(f.boundary).__name__


@scratch
def independent(R, d):
    """no field changes another one, in any order of creation"""

    class Bare(field.MagneticField):
        def Bxfunc(self, x, z, phi):
            return np.zeros_like(x)

        Bzfunc = Bxfunc

        def Byfunc(self, x, z, phi):
            return np.ones_like(x)

    made = []
    for _ in range(R.int(2, 6)):
        k = R.choice(["g", "gnolim", "slab", "curved", "bare", "pinch"])
        if k == "g":
            new = field.GEQDSK(Eq(R, d, True).path)
        elif k == "gnolim":
            new = field.GEQDSK(Eq(R, d, False).path)
        elif k == "slab":
            new = field.Slab(Bz=R.real())
        elif k == "curved":
            new = field.CurvedSlab(Bz=R.real(), Rmaj=R.real(1, 3))
        elif k == "bare":
            new = Bare()
        else:
            new = field.Screwpinch(shear=R.real(0.01, 0.1))
        if k not in ("g", "gnolim"):
            assert not new.attributes, f"a new {k} field has attributes {list(new.attributes)}"
            assert isinstance(new.boundary, boundary.NoBoundary)
        if k == "gnolim":
            assert isinstance(new.boundary, boundary.NoBoundary), "limiter of another file"
        for o, was, kind in made:
            now = probe(o)
            assert now[1:] == was[1:], f"creating {k} changed {kind}: {was[1:]} -> {now[1:]}"
            for a, b in zip(now[0], was[0]):
                assert np.array_equal(a, b), f"creating {k} changed the values of {kind}"
        made.append((new, probe(new), k))
    return [m[2] for m in made]


CASES = [equilibrium, coil, independent]
