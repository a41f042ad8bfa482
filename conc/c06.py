import numpy as np
from wcommon import gen_maps, hits, copy_maps
from zoidberg import weights

GONE = ["forward_xt_primes", "forward_zt_primes", "backward_xt_primes", "backward_zt_primes", "subcell_weights"]


def compare_ops(m, ops):
    for k, v in ops.items():
        assert k in m, f"{k} missing"
        a, b = np.asarray(m[k]), np.asarray(v)
        assert a.shape == b.shape and np.allclose(a, b, atol=1e-9), f"{k} does not belong to the modified maps"


def partial(R):
    maps = gen_maps(R, fallback=False)
    ref = copy_maps(maps)
    m = weights.modify_maps(copy_maps(maps), partial_boundaries=True)
    nx, ny, nz = ref["R"].shape
    for d in ("forward", "backward"):
        h = hits(ref[d + "_xt_primes"], nx, ref["MXG"]).any(axis=3)
        xt = m[d + "_xt_prime"]
        assert np.all(hits(xt[h], nx, ref["MXG"])), f"{d}: cell with a boundary hit not flagged"
        assert np.array_equal(xt[~h], ref[d + "_xt_prime"][~h]), f"{d}: x map of a cell without boundary hit changed"
        assert np.array_equal(m[d + "_zt_prime"], ref[d + "_zt_prime"])
    for k in GONE:
        assert k not in m, k
    compare_ops(m, weights.calculate_parallel_map_operators(copy_maps(ref)))
    for k in ("R", "Z", "MXG"):
        assert np.array_equal(m[k], ref[k])


def whole(R):
    maps = gen_maps(R, fallback=False)
    ref = copy_maps(maps)
    m = weights.modify_maps(copy_maps(maps), partial_boundaries=False)
    nx, ny, nz = ref["R"].shape
    exp = copy_maps(ref)
    for d in ("forward", "backward"):
        xs, zs = exp[d + "_xt_primes"], exp[d + "_zt_primes"]
        xc, zc = ref[d + "_xt_prime"], ref[d + "_zt_prime"]
        h = hits(xs, nx, ref["MXG"])
        part = h.any(axis=3) & ~h.all(axis=3)
        ch = hits(xc, nx, ref["MXG"])
        for c in np.argwhere(part):
            c = tuple(c)
            sel = slice(None) if ch[c] else h[c]
            xs[c][sel] = xc[c]
            zs[c][sel] = zc[c]
        il, bl = m[d + "_leg_interior_number"], m[d + "_leg_boundary_number"]
        assert not np.any((il >= 0) & (bl >= 0)), f"{d}: a cell is left split"
        assert np.array_equal(m[d + "_xt_prime"], xc) and np.array_equal(m[d + "_zt_prime"], zc), f"{d}: centre map changed"
    for k in GONE:
        assert k not in m, k
    compare_ops(m, weights.calculate_parallel_map_operators(exp))
    for k in ("R", "Z", "MXG"):
        assert np.array_equal(m[k], ref[k])


CASES = [partial, whole]
