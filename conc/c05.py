import numpy as np
from run import Skip
from zoidberg import weights


def builder(n):
    B = getattr(weights, "SparseRowMatrixBuilder", None)
    if B is None:
        raise Skip("SparseRowMatrixBuilder")
    return B(n)


def same(csr, ref, n):
    r, c, w = csr["rows"], csr["columns"], csr["weights"]
    assert len(r) == n + 1 and r[0] == 0 and np.all(np.diff(r) >= 0) and r[-1] == len(c) == len(w), (r, len(c), len(w))
    for i in range(n):
        cols = [int(v) for v in c[r[i]:r[i + 1]]]
        assert len(cols) == len(set(cols)), ("duplicate column in row", i, cols)
        got = dict(zip(cols, w[r[i]:r[i + 1]].tolist()))
        assert set(got) == set(ref[i]), ("columns of row", i, got, ref[i])
        for k in got:
            assert abs(got[k] - ref[i][k]) < 1e-9, ("entry", i, k, got[k], ref[i][k])


def history(R):
    n = R.int(0, 6)
    b = builder(n)
    ref = [dict() for _ in range(n)]
    ncol = R.choice([1, 2, 3, 8, 40])
    exported = []
    for _ in range(R.int(0, 60) if n else 0):
        row = R.int(0, n - 1)
        what = R.rng.random()
        if what < 0.75:
            col, w = R.int(0, ncol - 1), R.choice([0.0, 1.0, -1.0, R.real(), R.real()])
            if R.coin(0.5):
                col = np.int64(col)
            b.add_to_entry(row, col, w)
            ref[row][int(col)] = ref[row].get(int(col), 0.0) + w
        elif what < 0.95:
            cols = R.rng.permutation(ncol)[: R.int(0, min(ncol, 4))]
            ents = [(int(k), R.real()) for k in cols]
            refused = False
            try:
                b.set_row(row, ents)
            except ValueError:
                refused = True
            assert refused == bool(ref[row]), ("assignment of a row with entries must be refused", row, ref[row], refused)
            if not refused:
                ref[row] = dict(ents)
            if ents and R.coin(0.5):  # the caller's list stays the caller's
                keep = list(ents)
                b2row = row
                b.add_to_entry(b2row, ents[0][0], 1.0)
                ref[b2row][ents[0][0]] = ref[b2row].get(ents[0][0], 0.0) + 1.0
                assert ents == keep, "caller's entries were modified"
                ents.append((0, 5.0))
        else:
            exported.append(b.to_csr())
            same(exported[-1], ref, n)
    same(b.to_csr(), ref, n)
    same(b.to_csr(), ref, n)
    return n


def directed(R):
    b = builder(5)
    b.set_row(3, [(2, 0.5), (0, 0.25)])
    b.add_to_entry(1, 4, 1.0)
    b.add_to_entry(1, 2, 2.0)
    b.add_to_entry(1, 4, -1.0)
    b.add_to_entry(3, 0, 1.0)
    b.add_to_entry(3, 7, 1.0)
    same(b.to_csr(), [{}, {4: 0.0, 2: 2.0}, {}, {2: 0.5, 0: 1.25, 7: 1.0}, {}], 5)
    for row in (1, 3):
        try:
            b.set_row(row, [(0, 1.0)])
        except ValueError:
            pass
        else:
            raise AssertionError("row reassigned")
    same(b.to_csr(), [{}, {4: 0.0, 2: 2.0}, {}, {2: 0.5, 0: 1.25, 7: 1.0}, {}], 5)


directed.once = True
CASES = [directed, history]
