"""Reference semantics of zoidberg.weights, written from the documented behaviour."""
import itertools

import numpy as np


def gen_maps(R, big=False, fallback=None, smallz=True):
    """Random field-line maps; many entries sit at or next to the decision points."""
    mxg = R.choice([0, 1, 1, 2, 3])
    nx = 2 * mxg + R.int(1, 5)
    ny = R.int(1, 4)
    nz = R.int(1, 6)
    ns = R.choice([1, 1, 2, 3, 4, 5])
    if fallback is None:
        fallback = ns == 1 and R.coin(0.3)
    if fallback:
        ns = 1
    # 'sparse' or 'dense' pattern of boundary hits
    phit = R.choice([0.0, 0.05, 0.3, 0.7, 1.0])
    maps = dict(MXG=mxg, R=np.zeros((nx, ny, nz)), Z=np.zeros((nx, ny, nz)))
    lo, hi = mxg, nx - mxg - 1
    for d in ("forward", "backward"):
        if R.coin(0.1):
            phit = R.choice([0.0, 1.0])
        shape = (nx, ny, nz, ns)
        x = R.rng.uniform(lo, hi, size=shape) if hi > lo else np.full(shape, float(lo))
        x = np.where(R.rng.random(shape) < 0.2, np.round(x), x)
        hit = R.rng.random(shape) < phit
        if R.coin(0.5):  # whole cells hit together most of the time
            hit = np.broadcast_to(hit[..., :1], shape) ^ (R.rng.random(shape) < 0.15)
        out = R.rng.choice([-1.0, lo - 1e-3, lo - 0.5, hi + 0.25, hi + 1e-3, float(nx), nx - 0.5], size=shape)
        x = np.where(hit, out, x)
        z = R.rng.uniform(-2.5 * nz, 3.5 * nz, size=shape)
        z = np.where(R.rng.random(shape) < 0.3, np.round(z), z)
        c = R.rng.integers(0, ns, size=(nx, ny, nz, 1))
        if R.coin(0.3):
            xc = np.take_along_axis(x, c, 3)[..., 0].copy()
        else:
            xc = R.rng.uniform(lo, hi, size=(nx, ny, nz)) if hi > lo else np.full((nx, ny, nz), float(lo))
            xc = np.where(R.rng.random((nx, ny, nz)) < 0.4, R.rng.choice([-1.0, lo - 0.25, hi + 0.25, float(nx)], size=(nx, ny, nz)), xc)
        zc = R.rng.uniform(0, nz, size=(nx, ny, nz))
        if fallback:
            maps[d + "_xt_prime"], maps[d + "_zt_prime"] = x[..., 0].copy(), z[..., 0].copy()
        else:
            maps[d + "_xt_prime"], maps[d + "_zt_prime"] = xc, zc
            maps[d + "_xt_primes"], maps[d + "_zt_primes"] = x, z
    if not fallback:
        w = R.rng.uniform(0.2, 1.0, size=ns)
        maps["subcell_weights"] = w / w.sum()
    return maps


def copy_maps(m):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()}


def samples(maps, d):
    """x, z of shape (nx, ny, nz, ns) and weights (ns)."""
    if d + "_xt_primes" in maps:
        return maps[d + "_xt_primes"], maps[d + "_zt_primes"], maps["subcell_weights"]
    return maps[d + "_xt_prime"][..., None], maps[d + "_zt_prime"][..., None], np.ones(1)


def hits(x, nx, mxg):
    return (x < mxg) | (x > nx - mxg - 1)


def cells(nx, ny, nz, mxg):
    return itertools.product(range(mxg, nx - mxg), range(ny), range(nz))


def catmull(u):
    """Catmull-Rom (cardinal cubic Hermite, tension 1/2) values at offset u."""
    h00 = 2 * u**3 - 3 * u**2 + 1
    h10 = u**3 - 2 * u**2 + u
    h01 = -2 * u**3 + 3 * u**2
    h11 = u**3 - u**2
    # slopes (p1 - p_1)/2 and (p2 - p0)/2
    return np.array([-h10 / 2, h00 - h11 / 2, h01 + h10 / 2, h11 / 2])


def expected_row(maps, ops, d, x, y, z):
    """Dense interior row (as dict column -> weight) of cell (x,y,z)."""
    xs, zs, w = samples(maps, d)
    nx, ny, nz, ns = xs.shape
    mxg = maps["MXG"]
    inside = ~hits(xs[x, y, z], nx, mxg)
    tot = w[inside].sum()
    yt = (y + (1 if d == "forward" else -1)) % ny
    row = {}
    for s in range(ns):
        if not inside[s]:
            continue
        mx, mz = xs[x, y, z, s], zs[x, y, z, s]
        bx, bz = int(np.floor(mx)), int(np.floor(mz))
        wx, wz = catmull(mx - bx), catmull(mz - bz)
        for i in range(4):
            cx = min(max(bx + i - 1, mxg), nx - mxg - 1)
            for j in range(4):
                cz = (bz + j - 1) % nz
                c = int(ops["cell_number"][cx, yt, cz])
                row[c] = row.get(c, 0.0) + w[s] / tot * wx[i] * wz[j]
    return row


def rows_of(ops, d):
    w, c, r = ops[d + "_weights"], ops[d + "_columns"], ops[d + "_rows"]
    return [list(zip(c[r[i]:r[i + 1]].tolist(), w[r[i]:r[i + 1]].tolist())) for i in range(len(r) - 1)]


def dense(row):
    out = {}
    for c, w in row:
        out[c] = out.get(c, 0.0) + w
    return out


def same_row(a, b, tol=1e-8):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) < tol for k in set(a) | set(b))
