"""Fields for the oracles: smooth user-defined fields with known components."""
import numpy as np
from zoidberg import field


def smooth(R, lo=-0.5, hi=0.5):
    a = R.array(6, lo, hi)

    def f(x, z, y):
        return a[0] + a[1] * np.sin(x + a[2]) + a[3] * np.cos(z - a[4]) + a[5] * np.sin(y) * np.cos(0.7 * x)

    return f


def make(R, cyl=None, combined=None, byneg=None, const=False, amp=0.5):
    cyl = R.coin() if cyl is None else cyl
    combined = R.coin(0.3) if combined is None else combined
    byneg = R.coin(0.2) if byneg is None else byneg
    fx, fz = smooth(R, -amp, amp), smooth(R, -amp, amp)
    c = R.array(3)
    s = -1 if byneg else 1
    fy = lambda x, z, y: s * (1.5 + 0.3 * np.sin(x + c[0]) * np.cos(z + c[1]) + 0.2 * np.sin(y * c[2]))
    if const:
        fx, fz, fy = (lambda x, z, y, v=v: v + 0 * (x + z + y) for v in (c[0], c[1], s * 1.3))

    class F(field.MagneticField):
        def Bxfunc(self, x, z, phi):
            return fx(x, z, phi)

        def Byfunc(self, x, z, phi):
            return fy(x, z, phi)

        def Bzfunc(self, x, z, phi):
            return fz(x, z, phi)

        def Rfunc(self, x, z, phi):
            return x if cyl else None

        def pressure(self, x, z, phi):
            return 2 + np.cos(x) * z + phi

    if combined:
        F.Bxyzfunc = lambda self, x, z, phi: (fx(x, z, phi), fy(x, z, phi), fz(x, z, phi))
    f = F()
    f.cyl, f.fx, f.fy, f.fz = cyl, fx, fy, fz
    return f
