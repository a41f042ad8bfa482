import numpy as np
from wcommon import gen_maps, samples, hits, copy_maps
from zoidberg import weights


def legs(R):
    maps = gen_maps(R)
    ref = copy_maps(maps)
    ops = weights.calculate_parallel_map_operators(maps)
    nx, ny, nz = ref["R"].shape
    mxg = ref["MXG"]
    inter = np.zeros((nx, ny, nz), dtype=bool)
    inter[mxg:nx - mxg] = True
    for d in ("forward", "backward"):
        xs, _, w = samples(ref, d)
        h = hits(xs, nx, mxg)
        want_b, want_i = inter & h.any(axis=3), inter & (~h).any(axis=3)
        il, bl, n = ops[d + "_leg_interior_number"], ops[d + "_leg_boundary_number"], int(ops[f"n_{d}_legs"])
        assert np.array_equal(il >= 0, want_i), f"{d}: interior legs in the wrong cells"
        assert np.array_equal(bl >= 0, want_b), f"{d}: boundary legs in the wrong cells"
        assert np.all(il[~want_i] == -1) and np.all(bl[~want_b] == -1)
        num = np.concatenate([il[want_i], bl[want_b]])
        assert np.array_equal(np.sort(num), np.arange(n)), f"{d}: leg numbers are not exactly 0..n-1"
        lw = np.asarray(ops[d + "_leg_weights"])
        assert lw.shape == (n,), lw.shape
        for c in np.argwhere(inter):
            c = tuple(c)
            wb, wi = w[h[c]].sum(), w[~h[c]].sum()
            if want_i[c] and want_b[c]:
                assert abs(lw[il[c]] - wi) < 1e-8 and abs(lw[bl[c]] - wb) < 1e-8, (d, c, lw[il[c]], wi, lw[bl[c]], wb)
                assert abs(lw[il[c]] + lw[bl[c]] - 1) < 1e-7
            elif want_i[c]:
                assert abs(lw[il[c]] - 1) < 1e-7, (d, c, lw[il[c]])
            else:
                assert abs(lw[bl[c]] - 1) < 1e-7, (d, c, lw[bl[c]])
    return ref["R"].shape, mxg


def bad_weights(R):
    """Missing or inconsistent quadrature weights are refused."""
    maps = gen_maps(R, fallback=False)
    ns = maps["forward_xt_primes"].shape[3]
    how = R.choice(["sum", "length", "missing"])
    if how == "sum":
        maps["subcell_weights"] = maps["subcell_weights"] * R.choice([0.5, 1.01, 2.0])
    elif how == "length":
        maps["subcell_weights"] = np.full(ns + 1, 1.0 / (ns + 1))
    elif ns > 1:
        del maps["subcell_weights"]
    else:
        return
    try:
        weights.calculate_parallel_map_operators(maps)
    except ValueError:
        return how
    # nothing to refuse when no leg had to be weighted
    raise AssertionError(f"inconsistent weights accepted: {how}")


CASES = [legs]
