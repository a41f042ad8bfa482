import os
import shutil
import sys
import tempfile

import numpy as np
import zoidberg.zoidberg as zz
from mcommon import Fld, grids
from netCDF4 import Dataset
from zoidberg import field
from zoidberg.zoidberg import MapWriter


class Stop(BaseException):
    """the interruption (not an Exception, like KeyboardInterrupt)"""


def interrupted(fn, after, depth_file):
    """Runs fn, raising Stop at the after-th executed line of the package file; returns (finished, lines)."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == after:
                raise Stop()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename == depth_file else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
        return True, n[0]
    except Stop:
        return False, n[0]
    finally:
        sys.settrace(old)


def session(fn, g, f, create, after):
    with MapWriter(fn, quiet=True, create=create) as mw:
        mw.add_grid_field(g, f)
        return interrupted(mw.add_dagp, after, zz.__file__)


def read(fn):
    with Dataset(fn) as d:
        return {k: np.ma.filled(np.ma.asarray(v[...]).astype(float), np.nan) for k, v in d.variables.items()
                if k.startswith("dagp_") or k == "_dagp_generation_progress"}


def resume(R):
    d = tempfile.mkdtemp(prefix="verif_c27_")
    try:
        g, c, kind = grids(R, kind=R.choice(["rect", "rects", "struct"]), ny=R.choice([1, 2, 3, 5]))
        if kind == "rects":
            # planes of different size share one Lz here
            g, c, kind = grids(R, kind="struct", ny=R.choice([2, 4]))
        f = field.Slab() if kind == "rect" and R.coin() else Fld(R)
        ref_fn = os.path.join(d, "ref.nc")
        done, total = session(ref_fn, g, f, True, -1)
        assert done
        ref = read(ref_fn)
        ny = len(g.ycoords)
        fn = os.path.join(d, "cut.nc")
        cuts = []
        create = True
        for _ in range(R.choice([1, 1, 2, 4])):
            after = R.int(1, total)
            done, n = session(fn, g, f, create, after)
            create = False
            cuts.append(after)
            now = read(fn)
            # what the progress counts is stored
            p = now.get("_dagp_generation_progress", 0)
            # not yet initialised: nothing is counted
            p = 0 if np.isnan(p) else int(p)
            assert 0 <= p <= ny, p
            for k, v in ref.items():
                if k.startswith("dagp_") and p:
                    assert k in now, f"progress {p} but {k} is not in the file (cut after {cuts} lines)"
                    assert np.array_equal(now[k][:, :p], v[:, :p]), f"progress {p} counts a plane of {k} that is not stored (cut after {cuts} lines)"
            if done:
                break
        done, n = session(fn, g, f, create, -1)
        assert done
        end = read(fn)
        assert set(end) == set(ref), set(end) ^ set(ref)
        for k in ref:
            assert np.array_equal(end[k], ref[k]), f"{k} differs from the uninterrupted run (cut after {cuts} of {total} lines)"
    finally:
        shutil.rmtree(d)
    return dict(kind=kind, ny=ny, cuts=cuts, total=total)


CASES = [resume]
