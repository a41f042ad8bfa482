import numpy as np
from mcommon import Fld, Flow, grids, target
from zoidberg import field
from zoidberg.zoidberg import make_maps

KEYS = ["J"] + [f + p for f in ("Ly", "By") for p in ("", "_cell_ylow", "_cell_yhigh")]


def arc(flow, pol, y0, ya, yb, n=800):
    """Cartesian length of the field line through the cell centres between two y values"""
    y = np.linspace(ya, yb, n + 1)
    r, z = np.array([flow.at(pol.R, pol.Z, y0, t) for t in y]).swapaxes(0, 1)
    s = y[:, None, None]
    X, Y = r * np.cos(s), r * np.sin(s)
    return np.sum(np.sqrt(np.diff(X, axis=0)**2 + np.diff(Y, axis=0)**2 + np.diff(z, axis=0)**2), axis=0)


def faces(R):
    grid, c, kind = grids(R, kind=R.choice(["struct", "struct", "rects"]), periodic=R.choice([True, True, False]))
    f = Fld(R)
    flow = Flow(R, c, R.real(-0.6, 0.6), R.real(-0.1, 0.1))
    ref = R.choice([None, 4, 20, 30])
    kw = {} if ref is None else dict(refine_parallel_integral=ref)
    if R.coin():
        kw["n_chunks"] = R.int(1, grid.shape[0])
    m = make_maps(grid, f, quiet=True, field_tracer=flow, **kw)
    N = ref or 20
    for j, pol in enumerate(grid.poloidal_grids):
        y = grid.ycoords[j]
        yd, yu = target(grid, j, -1)[0], target(grid, j, 1)[0]
        lo, hi = 0.5 * (y + yd), 0.5 * (y + yu)
        for post, t in (("_cell_ylow", lo), ("", y), ("_cell_yhigh", hi)):
            r, z = flow.at(pol.R, pol.Z, y, t)
            np.testing.assert_allclose(m["By" + post][:, j], f.Byfunc(r, z, t), rtol=1e-8, err_msg="By" + post)
        for post, a, b in (("_cell_ylow", yd, y), ("", lo, hi), ("_cell_yhigh", y, yu)):
            # the reference is exact to the square of its step, the code's spline to the fourth power of its own
            np.testing.assert_allclose(m["Ly" + post][:, j], arc(flow, pol, y, a, b), rtol=2e-4, err_msg="Ly" + post)
        mt = pol.metric()
        jp = np.sqrt(mt["g_xx"] * mt["g_zz"] - mt["g_xz"]**2)
        b0 = f.Byfunc(pol.R, pol.Z, y)
        n = 200
        acc = 0
        # the two halves count equally
        for a, b in ((lo, y), (y, hi)):
            t = np.linspace(a, b, n + 1)
            w = np.ones(n + 1) / n
            w[[0, -1]] /= 2
            for ti, wi in zip(t, w):
                r, z = flow.at(pol.R, pol.Z, y, ti)
                acc = acc + 0.5 * wi * r * b0 / f.Byfunc(r, z, ti)
        h = (hi - lo) / (2 * N)
        np.testing.assert_allclose(m["J"][:, j], jp * acc, rtol=1e-5 + 0.3 * h**2, err_msg="J")
    return dict(kind=kind, N=N, kw=kw)


def chunks(R):
    grid, c, kind = grids(R)
    f = Fld(R)
    flow = Flow(R, c, R.real(-0.4, 0.4), R.real(-0.1, 0.1))
    nx = grid.shape[0]
    a = make_maps(grid, f, quiet=True, field_tracer=flow, refine_parallel_integral=3, n_chunks=1)
    n = R.int(2, nx)
    b = make_maps(grid, f, quiet=True, field_tracer=flow, refine_parallel_integral=3, n_chunks=n)
    for k in KEYS:
        assert a[k].shape == grid.shape
        np.testing.assert_allclose(a[k], b[k], rtol=1e-10, err_msg=f"{k} depends on the number of pieces")
    return dict(nx=nx, n=n)


def slab(R):
    """straight field lines: By is stored at centre and faces"""
    grid, c, kind = grids(R, kind="rect")
    f = field.Slab(By=R.choice([1.0, -2.0]), Bz=R.real(-0.1, 0.1), Bzprime=0.0)
    m = make_maps(grid, f, quiet=True, refine_parallel_integral=1, n_chunks=1)
    for p in ("", "_cell_ylow", "_cell_yhigh"):
        np.testing.assert_allclose(m["By" + p], f.By)
    return dict(by=f.By)


slab.every = 5
CASES = [faces, chunks, slab]
