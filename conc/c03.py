import numpy as np
from wcommon import gen_maps, samples, hits, copy_maps, rows_of
from zoidberg import weights


def rows(R):
    maps = gen_maps(R)
    ref = copy_maps(maps)
    ops = weights.calculate_parallel_map_operators(maps)
    nx, ny, nz = ref["R"].shape
    mxg = ref["MXG"]
    cn, total = ops["cell_number"], int(ops["total_cells"])
    nev = (nx - 2 * mxg) * ny * nz
    plane = np.empty(nev, dtype=int)
    plane[cn[mxg:nx - mxg]] = np.arange(ny)[None, :, None]
    for d, off in (("forward", 1), ("backward", -1)):
        r = ops[d + "_rows"]
        n = int(ops[f"n_{d}_legs"])
        assert len(r) == n + 1 and r[0] == 0 and r[-1] == len(ops[d + "_columns"]) == len(ops[d + "_weights"])
        assert np.all(np.diff(r) > 0), "empty operator row"
        cols = ops[d + "_columns"]
        assert cols.size == 0 or (cols.min() >= 0 and cols.max() < total)
        rr = rows_of(ops, d)
        il, bl = ops[d + "_leg_interior_number"], ops[d + "_leg_boundary_number"]
        bn = ops[d + "_cell_number"]
        seen = 0
        for x in range(nx):
            for y in range(ny):
                for z in range(nz):
                    if il[x, y, z] >= 0:
                        row = rr[il[x, y, z]]
                        seen += 1
                        assert abs(sum(v for _, v in row) - 1) < 1e-7, (d, x, y, z, row)
                        for c, v in row:
                            assert c < nev, (d, (x, y, z), "column is not an evolving cell", c)
                            assert plane[c] == (y + off) % ny, (d, (x, y, z), "column in plane", int(plane[c]))
                    if bl[x, y, z] >= 0:
                        row = rr[bl[x, y, z]]
                        seen += 1
                        assert len(row) == 1 and row[0][0] == bn[x, y, z] and row[0][0] >= 0 and row[0][1] == 1.0, (d, (x, y, z), row)
        assert seen == n
    return ref["R"].shape, mxg


CASES = [rows]
