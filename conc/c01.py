import numpy as np
from run import Skip
from wcommon import gen_maps, samples, hits, copy_maps
from zoidberg import weights


def check(maps, cn, fwd, bwd, total):
    nx, ny, nz = maps["R"].shape
    mxg = maps["MXG"]
    inter = np.zeros((nx, ny, nz), dtype=bool)
    inter[mxg:nx - mxg] = True
    assert cn.shape == fwd.shape == bwd.shape == (nx, ny, nz), (cn.shape, fwd.shape, bwd.shape)
    nev = (nx - 2 * mxg) * ny * nz
    assert np.array_equal(np.sort(cn[inter]), np.arange(nev)), "interior cells are not exactly the first numbers"
    for name, arr, d in (("forward", fwd, "forward"), ("backward", bwd, "backward")):
        xs, _, _ = samples(maps, d)
        want = inter & hits(xs, nx, mxg).any(axis=3)
        assert np.array_equal(arr >= 0, want), f"{name} boundary numbers exist for the wrong cells: {np.argwhere((arr >= 0) != want)[:3].tolist()}"
        assert np.all(arr[~want] == -1), f"{name}: entry without a boundary is not -1"
    allnum = np.concatenate([cn.ravel(), fwd[fwd != -1], bwd[bwd != -1]])
    assert allnum.size == int(total), (allnum.size, total)
    assert np.array_equal(np.sort(allnum), np.arange(int(total))), "numbers are not exactly 0..total_cells-1"


def through_operators(R):
    maps = gen_maps(R)
    ref = copy_maps(maps)
    ops = weights.calculate_parallel_map_operators(maps)
    check(ref, ops["cell_number"], ops["forward_cell_number"], ops["backward_cell_number"], ops["total_cells"])
    return maps["R"].shape, maps["MXG"]


def direct(R):
    f = getattr(weights, "assign_cell_space_numbers", None)
    if f is None:
        raise Skip("assign_cell_space_numbers")
    for _ in range(5):
        maps = gen_maps(R)
        cs = f(maps)
        check(maps, cs["cell_number"], cs["forward_boundary_number"], cs["backward_boundary_number"], cs["N_cells"])
        nx, ny, nz = maps["R"].shape
        assert cs["N_evolving"] == (nx - 2 * maps["MXG"]) * ny * nz


def single_hit(R):
    """Exactly one sub-sample of one cell hits, in one direction only."""
    mxg, ns = R.choice([0, 1, 2]), R.int(1, 6)
    nx, ny, nz = 2 * mxg + R.int(1, 4), R.int(1, 3), R.int(1, 4)
    maps = dict(MXG=mxg, R=np.zeros((nx, ny, nz)), subcell_weights=np.full(ns, 1.0 / ns))
    for d in ("forward", "backward"):
        maps[d + "_xt_primes"] = R.rng.uniform(mxg, nx - mxg - 1, size=(nx, ny, nz, ns))
        maps[d + "_zt_primes"] = R.rng.uniform(0, nz, size=(nx, ny, nz, ns))
    d = R.choice(["forward", "backward"])
    maps[d + "_xt_primes"][R.int(mxg, nx - mxg - 1), R.int(0, ny - 1), R.int(0, nz - 1), R.int(0, ns - 1)] = R.choice(
        [-1.0, mxg - 1e-6, nx - mxg - 1 + 1e-6, float(nx)])
    ops = weights.calculate_parallel_map_operators(maps)
    check(maps, ops["cell_number"], ops["forward_cell_number"], ops["backward_cell_number"], ops["total_cells"])


CASES = [through_operators, direct, single_hit]
