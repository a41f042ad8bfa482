import os
import shutil
import tempfile

import numpy as np
from mcommon import Fld, grids
from zoidberg import field, stencil_dagp_fv as dagp
from zoidberg.grid import Grid
from zoidberg.poloidal_grid import RectangularPoloidalGrid
from zoidberg.zoidberg import MapWriter


def pols(R):
    g, c, kind = grids(R, kind=R.choice(["struct", "struct", "rect"]), ny=R.choice([1, 2, 3]))
    return g, kind


def curve(pol, x, z, slab):
    """integral of R^a (dZ, -dR) along an index curve x(t), z(t) (last axis)"""
    r, zz = pol.getCoordinate(x, z)
    dr, dz = np.diff(r, axis=-1), np.diff(zz, axis=-1)
    w = 1 if slab else 0.5 * (r[..., 1:] + r[..., :-1])
    return np.sum(w * dz, axis=-1), -np.sum(w * dr, axis=-1)


def wrapd(a, L):
    """difference across a period L in Z"""
    if L is None:
        return a
    return a - L * np.round(a / L)


def linear(R):
    g, kind = pols(R)
    slab = R.coin()
    pp = g.poloidal_grids
    res = dagp.doit(pp, isSlab=slab) if slab or R.coin() else dagp.doit(pp)
    nx, ny, nz = g.shape
    N = 120
    t = np.linspace(0, 1, N + 1)
    keys = {f"dagp_fv_{a}{b}" for a in "XZ" for b in "XZ"} | {"dagp_fv_volume"}
    assert set(res) == keys, set(res)
    for k in keys:
        assert res[k].shape == g.shape and np.isfinite(res[k]).all(), k
    for j, pol in enumerate(pp):
        L = pol.Lz if isinstance(pol, RectangularPoloidalGrid) else None
        XX, XZ, ZX, ZZ = (res[f"dagp_fv_{a}"][:, j] for a in ("XX", "XZ", "ZX", "ZZ"))
        vol = res["dagp_fv_volume"][:, j]
        # faces between i and i+1
        xi = (np.arange(nx - 1) + 0.5)[:, None, None] + 0 * np.arange(nz)[None, :, None] + 0 * t
        zi = np.arange(nz)[None, :, None] - 0.5 + t + 0 * xi
        nr, nzz = curve(pol, xi, zi, slab)
        # faces between k and k+1
        xj = np.arange(1, nx - 1)[:, None, None] + 0.5 - t + 0 * np.arange(nz)[None, :, None]
        zj = (np.arange(nz) + 0.5)[None, :, None] + 0 * xj
        mr, mz = curve(pol, xj, zj, slab)
        scale = np.max(np.abs([nr, nzz])), np.max(np.abs([mr, mz]))
        for f, Lf, fx, fz in ((pol.R, None, nr, mr), (pol.Z, L, nzz, mz)):
            d2 = wrapd(np.roll(f, -1, axis=1) - np.roll(f, 1, axis=1), Lf)
            flux = XX[:-1] * (f[1:] - f[:-1]) + XZ[:-1] * 0.5 * (d2[1:] + d2[:-1])
            np.testing.assert_allclose(flux, fx, atol=2e-3 * scale[0], err_msg="flux through an x face")
            dx = f[2:] - f[:-2]
            dx = 0.5 * (dx + np.roll(dx, -1, axis=1))
            dz = wrapd(np.roll(f, -1, axis=1) - f, Lf)[1:-1]
            flux = ZX[1:-1] * dx + ZZ[1:-1] * dz
            np.testing.assert_allclose(flux, fz, atol=2e-3 * scale[1], err_msg="flux through a z face")
        # volume by integrating the Jacobian of the coordinates
        n = 8
        s, w = np.polynomial.legendre.leggauss(n)
        acc = 0
        for a, wa in zip(0.5 * s, 0.5 * w):
            for b, wb in zip(0.5 * s, 0.5 * w):
                x = np.arange(1, nx - 1)[:, None] + a + 0 * np.arange(nz)[None, :]
                z = np.arange(nz)[None, :] + b + 0 * x
                rx, zx = pol.getCoordinate(x, z, dx=1)
                rz, zz = pol.getCoordinate(x, z, dz=1)
                r, _ = pol.getCoordinate(x, z)
                acc = acc + wa * wb * (rx * zz - rz * zx) * (1 if slab else r)
        np.testing.assert_allclose(vol[1:-1], acc, rtol=4e-3, err_msg="volume")
        assert (vol[1:-1] > 0).all()
    return dict(kind=kind, slab=slab, shape=g.shape)


def guards(R):
    """the guard rows do not depend on what was in memory before"""
    g, kind = pols(R)
    junk = [np.full(g.shape, np.nan) for _ in range(20)]
    del junk
    a = dagp.doit(g.poloidal_grids)
    junk = [np.full(g.shape, 7e77) for _ in range(20)]
    del junk
    b = dagp.doit(g.poloidal_grids)
    for k in a:
        assert np.array_equal(a[k], b[k]), f"{k} differs between two calls"
        assert np.isfinite(a[k]).all()
    # one plane at a time gives the same
    j = R.int(0, len(g.poloidal_grids) - 1)
    c = dagp.doit([g.poloidal_grids[j]])
    for k in a:
        np.testing.assert_allclose(c[k][:, 0], a[k][:, j], rtol=1e-9, atol=1e-12)
    return dict(kind=kind)


def roundtrip(R):
    d = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        fn = os.path.join(d, "g.nc")
        g, kind = pols(R)
        f = field.Slab() if kind == "rect" and R.coin() else Fld(R)
        with MapWriter(fn, quiet=True) as mw:
            mw.add_grid_field(g, f)
            mw.add_dagp()
        ref = dagp.doit(g.poloidal_grids, isSlab=isinstance(f, field.Slab))
        RZ, vol, cX, cZ = dagp.load(fn)
        np.testing.assert_allclose(RZ[0], np.array([p.R for p in g.poloidal_grids]).transpose(1, 0, 2))
        np.testing.assert_allclose(RZ[1], np.array([p.Z for p in g.poloidal_grids]).transpose(1, 0, 2))
        kw = dict(rtol=1e-9, atol=1e-12)
        np.testing.assert_allclose(vol, ref["dagp_fv_volume"], **kw)
        for i, b in enumerate("XZ"):
            np.testing.assert_allclose(cX[..., i], ref["dagp_fv_X" + b][:-1], **kw)
            np.testing.assert_allclose(cZ[..., i], ref["dagp_fv_Z" + b][1:-1], **kw)
    finally:
        shutil.rmtree(d)
    return dict(kind=kind)


CASES = [linear, guards, roundtrip]
