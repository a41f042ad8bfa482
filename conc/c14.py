import numpy as np
from c13 import TAU, cloud
from run import Skip
from zoidberg import rzline


def scatter(R, n=None):
    r, z = cloud(R, n)
    if R.coin(0.3):
        # general position instead of a curve
        r, z = R.real(2, 5) + R.array(len(r)), R.array(len(r))
    # no exact symmetry: a tour that encloses exactly zero area has no orientation and is refused
    r, z = r + R.array(len(r), -0.02, 0.02), z + R.array(len(r), -0.02, 0.02)
    p = R.rng.permutation(len(r))
    return r[p], z[p]


def same(line, r, z):
    a = sorted(zip(np.asarray(line.R).tolist(), np.asarray(line.Z).tolist()))
    b = sorted(zip(np.asarray(r).tolist(), np.asarray(z).tolist()))
    assert a == b, "points of the line are not the given points"


def build(fn, R, r, z, **kw):
    r0, z0 = r.copy(), z.copy()
    try:
        line = fn(r, z, **kw)
    except ImportError:
        raise Skip("dependency missing")
    assert np.array_equal(r, r0) and np.array_equal(z, z0), "caller's arrays changed"
    same(line, r, z)
    return line


def name(n):
    f = getattr(rzline, n, None)
    if f is None:
        raise Skip(n + " is gone")
    return f


def length(r, z):
    return np.sum(np.hypot(r - np.roll(r, 1), z - np.roll(z, 1)))


def tour(r, z, s):
    left = list(range(len(r)))
    left.remove(s)
    t = [s]
    while left:
        d = [(r[i] - r[t[-1]])**2 + (z[i] - z[t[-1]])**2 for i in left]
        t.append(left.pop(int(np.argmin(d))))
    return t


def default(R):
    r, z = scatter(R, R.choice([4, 5, 6, 8, 12]))
    kw = {}
    if R.coin(0.3):
        kw["spline_order"] = R.choice([1, 3])
    line = build(rzline.line_from_points, R, r, z, **kw)
    got = line.distance()[-1]
    for s in range(len(r)):
        t = tour(r, z, s)
        try:
            ref = rzline.RZline(r[t], z[t], **kw).distance()[-1]
        except AssertionError:
            continue
        assert got <= ref * (1 + 1e-9), f"tour from point {s} is shorter: {ref} < {got}"
    return dict(n=len(r))


def is_sorted(R):
    r, z = cloud(R)
    line = build(rzline.line_from_points, R, r, z, is_sorted=True)
    ref = rzline.RZline(r, z)
    assert np.array_equal(line.R, ref.R) and np.array_equal(line.Z, ref.Z)


def poly(R):
    r, z = scatter(R, R.choice([4, 5, 7, 9]))
    build(name("line_from_points_poly"), R, r, z, spline_order=1)
    return dict(n=len(r))


def fast(R):
    r, z = cloud(R)
    p = R.rng.permutation(len(r))
    line = build(name("line_from_points_fast"), R, r[p], z[p])
    # sorted by angle about the mean: a star shaped cloud keeps its cyclic order if the mean sees it so
    a = np.unwrap(np.arctan2(line.Z - np.mean(z), line.R - np.mean(r)))
    assert (np.diff(a) > -1e-12).all() and a[-1] - a[0] < TAU
    return dict(n=len(r))


def two_opt(R):
    r, z = scatter(R, R.choice([5, 6, 7, 8]))
    line = build(name("line_from_points_two_opt"), R, r, z)
    ref = rzline.line_from_points_fast(r, z)
    assert length(line.R, line.Z) <= length(ref.R, ref.Z) * (1 + 1e-9)
    return dict(n=len(r))


def hull(R):
    r, z = scatter(R)
    build(name("line_from_points_convex_hull"), R, r, z)
    return dict(n=len(r))


CASES = [default, is_sorted, poly, fast, two_opt, hull]
