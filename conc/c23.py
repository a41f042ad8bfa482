import numpy as np
from mcommon import Fld, Flow, grids
from zoidberg.zoidberg import make_maps, parallel_slice_field_name as psn

FIELDS = ["R", "Z", "xt_prime", "zt_prime", "xt_primes", "zt_primes", "g_11", "dx", "B", "Bxy", "g22", "J", "pressure", "g_22", "g_33", "g13", "dz"]


def names(R):
    """a random set of (field, offset) pairs"""
    seen = {}
    for _ in range(60):
        f = R.choice(FIELDS)
        o = R.choice([0.5, -0.5] + [k for k in range(-12, 13) if k] + [R.int(1, 10**6), -R.int(1, 10**6)])
        n = psn(f, o)
        assert seen.setdefault(n, (f, o)) == (f, o), f"{n} stands for {seen[n]} and {(f, o)}"
        assert psn(f, o) == n
        if abs(o) < 1:
            assert n == f + ("_cell_yhigh" if o > 0 else "_cell_ylow")
        else:
            p = "forward_" if o > 0 else "backward_"
            assert n == (p + f if abs(o) == 1 else f"{p}{f}_{abs(o)}"), n
    return len(seen)


def refused(R):
    o = R.choice([0.25, -0.25, 0.0, 0, 0.9, -0.99, 0.49, 0.51, 0.499, R.real(-0.49, 0.49), R.real(0.51, 0.99)])
    try:
        n = psn(R.choice(FIELDS), o)
    except (AssertionError, ValueError):
        return o
    raise AssertionError(f"offset {o} accepted as {n}")


def stored(R):
    """every map variable is stored under the name of its own offset"""
    grid, c, kind = grids(R, kind="rect")
    k = R.choice([0.1, -0.1])
    flow = Flow(R, c, k, 0.0)
    n = R.int(1, 4)
    m = make_maps(grid, Fld(R), nslice=n, quiet=True, field_tracer=flow, refine_parallel_integral=1, n_chunks=1)
    expect = set()
    for d in (1, -1):
        for o in range(1, n + 1):
            expect |= {psn(f, d * o) for f in ("R", "Z", "xt_prime", "zt_prime", "xt_primes", "zt_primes")}
        expect |= {psn(f, d * 0.5) for f in ("R", "Z")}
    assert expect <= set(m), expect - set(m)
    extra = {q for q in m if q.startswith(("forward", "backward"))} - expect
    assert not extra, extra
    y = grid.ycoords[0]
    for d in (1, -1):
        for o in range(1, n + 1):
            t = grid.Ly / len(grid.ycoords) * o * d
            if not grid.yperiodic:
                t = min(max(y + t, 0), grid.Ly) - y if not 0 <= o * d < len(grid.ycoords) else t
            r, z = flow.at(m["R"][:, 0], m["Z"][:, 0], y, y + t)
            np.testing.assert_allclose(m[psn("R", d * o)][:, 0], r, atol=1e-9)
            np.testing.assert_allclose(m[psn("Z", d * o)][:, 0], z, atol=1e-9)
    return n


CASES = [names, refused, stored]
