import numpy as np
from run import Skip
from wcommon import gen_maps, samples, hits, copy_maps, rows_of, expected_row, dense, same_row, cells, catmull
from zoidberg import weights


def stencil(R):
    maps = gen_maps(R)
    ref = copy_maps(maps)
    ops = weights.calculate_parallel_map_operators(maps)
    nx, ny, nz = ref["R"].shape
    for d in ("forward", "backward"):
        rr = rows_of(ops, d)
        il = ops[d + "_leg_interior_number"]
        for c in cells(nx, ny, nz, ref["MXG"]):
            if il[c] >= 0:
                want = expected_row(ref, ops, d, *c)
                got = dense(rr[il[c]])
                assert same_row(want, got), (d, c, samples(ref, d)[0][c].tolist(), samples(ref, d)[1][c].tolist(), got, want)
    return ref["R"].shape


def one_sample(maps_x, maps_z, nx, ny, nz, mxg):
    m = dict(MXG=mxg, R=np.zeros((nx, ny, nz)))
    for d in ("forward", "backward"):
        m[d + "_xt_prime"], m[d + "_zt_prime"] = maps_x.copy(), maps_z.copy()
    return m


def nodes(R):
    """A mapped point on a cell picks exactly that cell."""
    mxg = R.int(0, 2)
    nx, ny, nz = 2 * mxg + R.int(1, 5), R.int(1, 3), R.int(1, 6)
    X = R.rng.integers(mxg, nx - mxg, size=(nx, ny, nz))
    Zi = R.rng.integers(-3 * nz, 4 * nz, size=(nx, ny, nz))
    ops = weights.calculate_parallel_map_operators(one_sample(X.astype(float), Zi.astype(float), nx, ny, nz, mxg))
    for d, off in (("forward", 1), ("backward", -1)):
        rr = rows_of(ops, d)
        for c in cells(nx, ny, nz, mxg):
            row = dense(rr[ops[d + "_leg_interior_number"][c]])
            t = int(ops["cell_number"][X[c], (c[1] + off) % ny, Zi[c] % nz])
            assert same_row(row, {t: 1.0}, 1e-9), (d, c, int(X[c]), int(Zi[c]), row)


def periodic(R):
    """Whole periods in z leave the operators unchanged."""
    maps = gen_maps(R)
    m2 = copy_maps(maps)
    nz = maps["R"].shape[2]
    for k in list(m2):
        if "zt_prime" in k:
            m2[k] = m2[k] + nz * R.rng.integers(-4, 5, size=m2[k].shape)
    a, b = weights.calculate_parallel_map_operators(maps), weights.calculate_parallel_map_operators(m2)
    for d in ("forward", "backward"):
        for p, q in zip(rows_of(a, d), rows_of(b, d)):
            assert same_row(dense(p), dense(q), 1e-7), (d, p, q)


def linear(R):
    """Linear data are reproduced exactly away from the guard cells."""
    mxg = R.int(0, 2)
    nx, ny, nz = 2 * mxg + R.int(4, 7), R.int(1, 3), R.int(5, 9)
    xs = R.rng.uniform(mxg + 1, nx - mxg - 2, size=(nx, ny, nz))
    zs = R.rng.uniform(1, nz - 3, size=(nx, ny, nz))
    ops = weights.calculate_parallel_map_operators(one_sample(xs, zs, nx, ny, nz, mxg))
    a, b, c0 = R.real(), R.real(), R.real()
    X, _, Zc = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    f = np.full(int(ops["total_cells"]), np.nan)
    f[ops["cell_number"]] = a * X + b * Zc + c0
    for d in ("forward", "backward"):
        rr = rows_of(ops, d)
        for c in cells(nx, ny, nz, mxg):
            v = sum(w * f[k] for k, w in rr[ops[d + "_leg_interior_number"][c]])
            assert abs(v - (a * xs[c] + b * zs[c] + c0)) < 1e-7, (d, c, v, a * xs[c] + b * zs[c] + c0)


def weights1d(R):
    f = getattr(weights, "catmull_rom_weights", None)
    if f is None:
        raise Skip("catmull_rom_weights")
    u = R.real(0, 1)
    assert np.allclose(f(u), catmull(u), atol=1e-12)


CASES = [stencil, nodes, periodic, linear, weights1d]
