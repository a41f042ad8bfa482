import os
import shutil
import tempfile

import numpy as np
from c22 import name
from mcommon import Fld, Flow, grids
from netCDF4 import Dataset
from zoidberg import field
from zoidberg.poloidal_grid import StructuredPoloidalGrid
from zoidberg.zoidberg import MapWriter, make_maps, write_maps

OLD = dict(g_yy="g_22", gyy="g22", gxx="g11", gxz="g13", gzz="g33", g_xx="g_11", g_xz="g_13", g_zz="g_33")


class Periodic(Fld):
    """repeats after Ly, so that only the plane matters and not the number of turns"""

    def __init__(self, R, Ly):
        super().__init__(R, R.coin())
        self.w = 2 * np.pi / Ly
        if R.coin():
            self.attributes = {"psi": lambda x, z, phi: x * z + np.cos(self.w * phi)}

    def Bxfunc(self, x, z, phi):
        return self.a[0] * np.sin(x + z + self.w * phi)

    def Bzfunc(self, x, z, phi):
        return self.a[1] * np.cos(x - z) + 0.1 * np.sin(self.w * phi)

    def Byfunc(self, x, z, phi):
        return 2 + self.a[2] * np.sin(x) + self.a[3] * np.cos(2 * z - self.w * phi)

    def pressure(self, x, z, phi):
        return 1 + x + 2 * z + 3 * np.cos(self.w * phi)


class Bulge(Flow):
    """a flow of a rectangle that bends its lines, more at high x, so that the areas on them grow"""

    def at(self, x, z, y0, y):
        x, z = np.asarray(x, float), np.asarray(z, float)
        return x + 0.02 * np.tanh(y - y0) * (x - self.c[0] + 3) * np.cos(z - self.c[1]), z + self.s * np.sin(y - y0) + 0 * x


def scratch(fn):
    def g(R):
        d = tempfile.mkdtemp(prefix="verif_c25_")
        try:
            return fn(R, os.path.join(d, "out.nc"))
        finally:
            shutil.rmtree(d)

    g.__name__ = fn.__name__
    return g


def read(fn):
    with Dataset(fn) as d:
        out = {}
        for k, v in d.variables.items():
            a = v[...]
            if np.ma.isMaskedArray(a):
                a = a.filled(np.nan)
            out[k] = np.array(a)
        return out


def metric_of(pol, f, y):
    """all components of one plane, from its positions"""
    m = {k: np.broadcast_to(v, (pol.nx, pol.nz)) for k, v in pol.metric().items()}
    x, z = np.asarray(pol.R), np.asarray(pol.Z)
    B = np.sqrt(f.Bxfunc(x, z, y)**2 + f.Byfunc(x, z, y)**2 + f.Bzfunc(x, z, y)**2)
    r = f.Rfunc(x, z, y)
    m["g_yy"] = ((1 if r is None else r) * B / f.Byfunc(x, z, y))**2
    m["gyy"] = 1 / m["g_yy"]
    m["B"] = m["Bxy"] = B
    m["pressure"] = np.broadcast_to(f.pressure(x, z, y), x.shape)
    return m


def setup(R, slab=None):
    slab = R.coin(0.3) if slab is None else slab
    grid, c, kind = grids(R, kind="rect" if slab else R.choice(["struct", "struct", "rects"]))
    f = field.Slab(Bz=R.real(-0.1, 0.1), Bzprime=R.real(-0.1, 0.1), xcentre=c[0]) if slab else Periodic(R, grid.Ly)
    flow = (Flow if kind == "struct" else Bulge)(R, c, R.real(-0.2, 0.2), R.real(-0.05, 0.05))
    ns = R.choice([1, 1, 2])
    kw = dict(nslice=ns) if ns > 1 else {}
    if R.coin(0.3):
        kw["samples_per_dim"] = 2
    m = make_maps(grid, f, quiet=True, field_tracer=flow, refine_parallel_integral=2, n_chunks=1, **kw)
    return grid, f, m, ns, slab


@scratch
def written(R, fn):
    grid, f, m, ns, slab = setup(R)
    nx, ny, nz = grid.shape
    new = R.coin(0.3)
    flat = R.coin(0.3)
    before = {k: np.array(v, copy=True) for k, v in grid.metric().items()}
    keep = {k: np.array(v, copy=True) for k, v in m.items()}
    if R.coin():
        write_maps(grid, f, m, gridfile=fn, new_names=new, metric2d=flat, quiet=True)
    else:
        with MapWriter(fn, new_names=new, metric2d=flat, quiet=True) as mw:
            mw.add_grid_field(grid, f)
            mw.add_maps(m)
    d = read(fn)
    assert (int(d["nx"]), int(d["ny"]), int(d["nz"])) == (nx, ny, nz)
    after = grid.metric()
    assert set(after) == set(before)
    for k in before:
        assert np.array_equal(before[k], after[k]), f"writing changed {k} of the grid"
    for k, v in keep.items():
        assert k in d, f"{k} is not in the file"
        np.testing.assert_allclose(d[k], v, rtol=1e-12, atol=1e-13, err_msg=k)
    np.testing.assert_allclose(d["Rxy"], keep["R"])
    ren = (lambda k: k) if new else (lambda k: OLD.get(k, k))
    # the metric of the planes
    dy = before["dy"]
    two = (lambda a: a[:, :, 0]) if flat else (lambda a: a)
    exp = {}
    for j, pol in enumerate(grid.poloidal_grids):
        for k, v in metric_of(pol, f, grid.ycoords[j]).items():
            exp.setdefault(k, np.zeros(grid.shape))[:, j] = v
    exp["dy"] = dy
    if "Ly" in keep:
        exp["g_yy_old"] = exp["g_yy"]
        exp["g_yy"] = exp["g_yy_correct"] = (keep["Ly"] / dy)**2
        exp["g_yy_cell_ylow"], exp["g_yy_cell_yhigh"] = (keep["Ly_cell_ylow"] / dy)**2, (keep["Ly_cell_yhigh"] / dy)**2
    else:
        exp["g_yy_cell_ylow"] = exp["g_yy_cell_yhigh"] = exp["g_yy"]
    names = set()
    for k, v in exp.items():
        n = ren(k)
        if not new and k.startswith("g_yy_cell"):
            n = k.replace("g_yy", "g_22")
        names.add(n)
        assert n in d, f"{n} is not in the file"
        if k == "J" and "J" in keep:
            continue
        got = d[n]
        if k == "dz" and flat:
            np.testing.assert_allclose(got, v[0, 0, 0], rtol=1e-9)
            continue
        np.testing.assert_allclose(got, two(v), rtol=1e-8, atol=1e-10, err_msg=n)
    stray = [k for k in d if k in set(OLD) | set(OLD.values()) and k not in names]
    assert not stray, f"undocumented metric names {stray}"
    for k, a in f.attributes.items():
        for j, pol in enumerate(grid.poloidal_grids):
            np.testing.assert_allclose(d[k][:, j], a(pol.R, pol.Z, grid.ycoords[j]), rtol=1e-9, atol=1e-12)
    # the parallel slices
    step = grid.Ly / ny
    for off in [o * s for o in range(1, ns + 1) for s in (1, -1)]:
        pr, pz = keep[name("R", off)], keep[name("Z", off)]
        for j in range(ny):
            i = j + off
            if not grid.yperiodic and not 0 <= i < ny:
                continue
            y = grid.ycoords[i % ny] + (i // ny) * grid.Ly
            mt = metric_of(StructuredPoloidalGrid(pr[:, j], pz[:, j]), f, y)
            for k, v in mt.items():
                n = name(ren(k), off)
                assert n in d, f"{n} is not in the file"
                np.testing.assert_allclose(d[n][:, j], v, rtol=1e-7, atol=1e-9, err_msg=f"{n} plane {j}")
            np.testing.assert_allclose(d[name("dy", off)][:, j], step, rtol=1e-8, err_msg=f"dy offset {off} plane {j}")
    return dict(shape=grid.shape, new=new, flat=flat, slab=slab, ns=ns, periodic=grid.yperiodic)


@scratch
def nonfinite(R, fn):
    """any array with a non-finite entry is refused, and its variable is not written"""
    grid, f, m, ns, slab = setup(R)
    ks = [k for k, v in m.items() if isinstance(v, np.ndarray) and v.size]
    k = R.choice(ks)
    m[k] = np.array(m[k], dtype=float)
    m[k].flat[R.int(0, m[k].size - 1)] = R.choice([np.nan, np.inf, -np.inf])
    with MapWriter(fn, quiet=True) as mw:
        mw.add_grid_field(grid, f)
        try:
            mw.add_maps(m)
        except (AssertionError, ValueError):
            pass
        else:
            raise AssertionError(f"non-finite {k} accepted")
    d = read(fn)
    if k not in ("R", "Z"):
        assert k not in d, f"non-finite {k} was written"
    with MapWriter(fn + "2", quiet=True) as mw:
        mw.add_grid_field(grid, f)
        a = R.array(grid.shape)
        mw.write_dict(dict(ok=a))
        a.flat[-1] = np.nan
        try:
            mw.write_dict(dict(bad=a))
        except (AssertionError, ValueError):
            pass
        else:
            raise AssertionError("non-finite array accepted")
    return dict(key=k)


CASES = [written, nonfinite]
