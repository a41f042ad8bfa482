"""C05: SparseRowMatrixBuilder (row lengths and row counts bounded, all values symbolic)."""
import itertools
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.harness import ints, reals

B = 4


def coeff(entries, c):
    v = 0
    for col, w in entries:
        v = v + ite(col == c, w, 0)
    return v


def distinct(entries):
    return land(True, *[a[0] != b[0] for a, b in itertools.combinations(entries, 2)])


def proofs(h):
    m = loader.World().load("weights")
    if not hasattr(m, "SparseRowMatrixBuilder"):
        raise Unsupported("SparseRowMatrixBuilder")
    fill = lambda b, row, ents: [b.add_to_entry(row, c, w) for c, w in ents]

    def sym(n, tag):
        return [(ints(f"c{tag}{i}")[0], reals(f"w{tag}{i}")[0]) for i in range(n)]

    # -- one addition to a row built by n earlier additions at arbitrary (possibly equal) columns
    for n in range(B + 1):
        def run(n=n):
            b = m.SparseRowMatrixBuilder(3)
            other = sym(1, "o")
            fill(b, 2, other)
            fill(b, 1, sym(n, "a"))
            csr = b.to_csr()
            return csr

        def post(o, n=n):
            if not h.must_return(o):
                return
            csr_contract(h, o.value, [[], sym(n, "a"), sym(1, "o")], added=True)

        h.unit(f"add_to_entry then to_csr, {n} additions", run, post, ["weights.SparseRowMatrixBuilder.add_to_entry", "weights.SparseRowMatrixBuilder.to_csr"], max_paths=2000)

    # -- assigned rows, every pattern of row lengths
    for lens in itertools.product(range(3), repeat=3):
        def run(lens=lens):
            rows = [sym(k, f"r{i}_") for i, k in enumerate(lens)]
            for r in rows:
                CTX().assume(distinct(r))
            b = m.SparseRowMatrixBuilder(3)
            for i, r in enumerate(rows):
                if r:
                    b.set_row(i, r)
            return b.to_csr()

        def post(o, lens=lens):
            if not h.must_return(o):
                return
            csr_contract(h, o.value, [sym(k, f"r{i}_") for i, k in enumerate(lens)], added=False)

        h.unit(f"set_row then to_csr, row lengths {lens}", run, post, ["weights.SparseRowMatrixBuilder.set_row", "weights.SparseRowMatrixBuilder.to_csr"])

    # -- refused reassignment
    for how in ("add", "set"):
        def run(how=how):
            b = m.SparseRowMatrixBuilder(2)
            if how == "add":
                fill(b, 1, sym(1, "a"))
            else:
                b.set_row(1, sym(1, "a"))
            b.set_row(1, sym(2, "n"))

        def post(o, how=how):
            h.must_raise(o, ValueError, "a row with entries is not reassigned")

        h.unit(f"set_row after {how}", run, post, ["weights.SparseRowMatrixBuilder.set_row"])
    h.assume("C05 obligations: at most 4 additions per row, 3 rows; columns and weights arbitrary")


def at(a, i):
    return a.at((i,))


def csr_contract(h, csr, rows, added):
    """rows: lists of contributions (columns may coincide when added)."""
    r, c, w = csr["rows"], csr["columns"], csr["weights"]
    n = len(rows)
    from pyvc.core import concrete_int

    ptr = [concrete_int(at(r, i)) for i in range(n + 1)]
    if any(p is None for p in ptr) or concrete_int(r.shape[0]) != n + 1:
        raise Unsupported("row pointers")
    h.prove("row pointers start at zero and never decrease", ptr[0] == 0 and all(a <= b for a, b in zip(ptr, ptr[1:])))
    h.prove("row pointers end at the number of entries", ptr[-1] == concrete_int(c.shape[0]) == concrete_int(w.shape[0]))
    (q,) = ints("q")
    for i, contr in enumerate(rows):
        ents = [(at(c, j), at(w, j)) for j in range(ptr[i], ptr[i + 1])]
        h.prove(f"row {i}: every column has its accumulated value", coeff(ents, q) == coeff(contr, q))
        h.prove(f"row {i}: each column once", distinct(ents))
        h.prove(f"row {i}: a column is present exactly if it was added",
                lor(False, *[e[0] == q for e in ents]) == lor(False, *[e[0] == q for e in contr]) if (ents or contr) else True)
