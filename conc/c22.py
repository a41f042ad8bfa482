import numpy as np
from mcommon import Fld, Flow, grids, target
from run import Skip
from zoidberg import boundary
from zoidberg.poloidal_grid import RectangularPoloidalGrid
from zoidberg.zoidberg import make_maps


def name(f, off):
    if abs(off) < 1:
        return f + ("_cell_yhigh" if off > 0 else "_cell_ylow")
    return ("forward_" if off > 0 else "backward_") + f + (f"_{abs(off)}" if abs(off) > 1 else "")


def indices(pol, x, z, y, bnd):
    """index search on the target plane, -1 where outside the field's boundary"""
    xi, zi = pol.findIndex(x, z)
    xi, zi = np.array(xi, float), np.array(zi, float)
    if bnd is not None:
        o = (x < bnd[0]) | (x > bnd[1]) | (z < bnd[2]) | (z > bnd[3])
        xi[o], zi[o] = -1, -1
    return xi, zi


def start(pol, xo, zo):
    """positions at the index offset (xo, zo) from every cell centre"""
    nx, nz = pol.nx, pol.nz
    if isinstance(pol, RectangularPoloidalGrid):
        dr, dz = pol.R[1, 0] - pol.R[0, 0], pol.Z[0, 1] - pol.Z[0, 0]
        return pol.R + xo * dr, pol.Z + zo * dz
    out = []
    sz = 1 if zo >= 0 else -1
    for f in (pol.R, pol.Z):
        def line(f):
            # linear in x, continued linearly beyond the first and the last row
            e = np.concatenate((2 * f[:1] - f[1:2], f, 2 * f[-1:] - f[-2:-1]))
            return (1 - abs(xo)) * e[1:-1] + abs(xo) * (e[2:] if xo >= 0 else e[:-2])

        g = line(f)
        out.append((1 - abs(zo)) * g + abs(zo) * np.roll(g, -sz, axis=1))
    return out


def maps(R):
    grid, c, kind = grids(R)
    ny = len(grid.ycoords)
    f = Fld(R, R.coin())
    bnd = None
    if R.coin():
        r = sorted(R.array(2, -1.2, 1.2)), sorted(R.array(2, -1.2, 1.2))
        bnd = (c[0] + r[0][0], c[0] + r[0][1], c[1] + r[1][0], c[1] + r[1][1])
        f.boundary = boundary.RectangularBoundaryXZ(*bnd)
    flow = Flow(R, c, R.real(-0.5, 0.5), R.choice([0.0, R.real(-0.2, 0.2)]))
    nslice = R.choice([1, 1, 2, 3])
    spd = R.choice([1, 1, 2, 3])
    kw = {}
    if R.coin(0.3):
        kw["MXG"] = R.choice([0, 1, 3])
    if spd > 1 or R.coin():
        kw["samples_per_dim"] = spd
    else:
        spd = 1
    if nslice > 1 or R.coin():
        kw["nslice"] = nslice
    try:
        m = make_maps(grid, f, quiet=True, field_tracer=flow, refine_parallel_integral=2, n_chunks=R.int(1, 3), **kw)
    except Exception as e:
        if "onverge" in str(e):
            raise Skip("index search did not converge")
        raise
    assert m["MXG"] == kw.get("MXG", 2) and m["MYG"] == nslice
    shape = grid.shape
    pols = grid.poloidal_grids
    for j, pol in enumerate(pols):
        np.testing.assert_allclose(m["R"][:, j, :], pol.R)
        np.testing.assert_allclose(m["Z"][:, j, :], pol.Z)
    w = m["subcell_weights"]
    assert w.shape == (spd**2,) and abs(w.sum() - 1) < 1e-12 and (w > 0).all()
    xs, ws = np.polynomial.legendre.leggauss(spd)
    xs, ws = 0.5 * xs, 0.5 * ws
    for off in [o for d in (1, -1) for o in [0.5 * d, *[d * k for k in range(1, nslice + 1)]]]:
        for j, pol in enumerate(pols):
            y, tp = target(grid, j, off)
            er, ez = flow.at(pol.R, pol.Z, grid.ycoords[j], y)
            np.testing.assert_allclose(m[name("R", off)][:, j, :], er, rtol=1e-8, atol=1e-9, err_msg=f"end point {off}")
            np.testing.assert_allclose(m[name("Z", off)][:, j, :], ez, rtol=1e-8, atol=1e-9, err_msg=f"end point {off}")
            if off != int(off):
                continue
            xt, zt = m[name("xt_prime", off)], m[name("zt_prime", off)]
            xts, zts = m[name("xt_primes", off)], m[name("zt_primes", off)]
            assert xt.shape == zt.shape == shape and xts.shape == zts.shape == shape + (spd**2,)
            if tp is None:
                for a in (xt, zt, xts, zts):
                    assert (a[:, j] == -1).all(), "beyond the end of y"
                continue
            xi, zi = indices(tp, er, ez, y, bnd)
            np.testing.assert_allclose(xt[:, j], xi, atol=1e-7, err_msg=f"x index, offset {off} plane {j}")
            np.testing.assert_allclose(zt[:, j], zi, atol=1e-7, err_msg=f"z index, offset {off} plane {j}")
            if spd == 1:
                np.testing.assert_array_equal(xts[..., 0], xt)
                np.testing.assert_array_equal(zts[..., 0], zt)
                continue
            for s in range(spd**2):
                a, b = divmod(s, spd)
                # the sample's own position follows from its weight's place in the quadrature; either order is a valid layout
                assert abs(w[s] - ws[a] * ws[b]) < 1e-9
                sr, sz = start(pol, xs[a], xs[b])
                qr, qz = flow.at(sr, sz, grid.ycoords[j], y)
                xi, zi = indices(tp, qr, qz, y, bnd)
                np.testing.assert_allclose(xts[:, j, :, s], xi, atol=1e-6, err_msg=f"sample {s} x, offset {off} plane {j}")
                np.testing.assert_allclose(zts[:, j, :, s], zi, atol=1e-6, err_msg=f"sample {s} z, offset {off} plane {j}")
    return dict(kind=kind, ny=ny, nslice=nslice, spd=spd, periodic=grid.yperiodic, bnd=bnd is not None)


def traced(R):
    """with the standard tracer: the end points are those of the field lines"""
    from c18 import rk4
    from zoidberg import field

    grid, c, kind = grids(R, kind=R.choice(["rect", "struct"]), ny=R.choice([2, 3]))
    f = field.Slab(Bz=R.real(-0.1, 0.1), Bzprime=R.real(-0.1, 0.1), xcentre=c[0]) if kind == "rect" else Fld(R)
    m = make_maps(grid, f, quiet=True, nslice=2, refine_parallel_integral=1, n_chunks=2)
    for off in (1, -1, 2, -2, 0.5, -0.5):
        j = R.int(0, len(grid.ycoords) - 1)
        y, _ = target(grid, j, off)
        pol = grid.poloidal_grids[j]
        ref = rk4(f, pol.R, pol.Z, [grid.ycoords[j], y], 30)[-1]
        np.testing.assert_allclose(m[name("R", off)][:, j], ref[..., 0], atol=1e-4)
        np.testing.assert_allclose(m[name("Z", off)][:, j], ref[..., 1], atol=1e-4)
    return dict(kind=kind)


traced.every = 6
CASES = [maps, traced]
