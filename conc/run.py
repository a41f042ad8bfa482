"""Runs the contract oracles of one property against the real code of /repo.

usage: run.py PROPERTY SEED BUDGET_SECONDS OUT [--only CASE SEED]
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402


class Skip(Exception):
    """The case does not apply to this tree (e.g. a helper was renamed)."""


def main():
    sys.modules["run"] = sys.modules["__main__"]
    prop, seed, budget, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    only = None
    if "--only" in sys.argv:
        i = sys.argv.index("--only")
        only = (sys.argv[i + 1], int(sys.argv[i + 2]))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    devnull = open(os.devnull, "w")
    stdout = sys.stdout
    sys.stdout = devnull
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, failures=[], cases={}, skipped={}, samples=[], errors=[])
    try:
        import zoidberg  # noqa: F401

        assert os.path.realpath(zoidberg.__file__).startswith(os.path.realpath(REPO)), zoidberg.__file__
        mod = importlib.import_module(prop.lower())
        cases = mod.CASES
    except Exception as e:
        res["errors"].append("".join(traceback.format_exception(e))[-2000:])
        cases = []
    if only:
        cases = [c for c in cases if c.__name__ == only[0]]
    rnd = 0
    done = set()
    while cases:
        for c in cases:
            if c.__name__ in done:
                continue
            once = getattr(c, "once", False)
            if (rnd and once) or (not only and rnd % getattr(c, "every", 1)):
                continue
            if (rnd and time.time() - t0 > budget) or len(res["failures"]) >= 3:
                break
            sd = only[1] if only else seed * 1000003 + rnd
            rng = np.random.default_rng(sd)
            st0 = str(rng.bit_generator.state)
            try:
                info = c(R(rng, sd, rnd))
                res["evaluations"] += 1
                # a new input: the case drew its own data from this seed, or runs for the first time
                if c.__name__ not in res["cases"] or str(rng.bit_generator.state) != st0:
                    res["distinct"] += 1
                res["cases"][c.__name__] = res["cases"].get(c.__name__, 0) + 1
                if info is not None and len(res["samples"]) < 6 and rnd == 0:
                    res["samples"].append(dict(case=c.__name__, seed=sd, info=str(info)[:300]))
            except Skip as e:
                res["skipped"][c.__name__] = str(e)
            except Exception as e:
                res["failures"].append(dict(case=c.__name__, seed=sd, error=type(e).__name__, message=str(e)[:1500],
                                            traceback="".join(traceback.format_exception(e))[-3000:]))
                done.add(c.__name__)
        rnd += 1
        if only or time.time() - t0 > budget or len(res["failures"]) >= 3 or len(done) == len(cases):
            break
        if all(getattr(c, "once", False) or c.__name__ in done for c in cases):
            break
        if rnd >= 20000:
            break
    res["rounds"] = rnd
    res["wall"] = round(time.time() - t0, 2)
    sys.stdout = stdout
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)


class R:
    """Random source of one case."""

    def __init__(self, rng, seed, rnd):
        self.rng, self.seed, self.rnd = rng, seed, rnd

    def int(self, lo, hi):
        """lo <= v <= hi"""
        return int(self.rng.integers(lo, hi + 1))

    def real(self, lo=-1.0, hi=1.0):
        return float(self.rng.uniform(lo, hi))

    def choice(self, xs):
        return xs[int(self.rng.integers(0, len(xs)))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def array(self, shape, lo=-1.0, hi=1.0):
        return self.rng.uniform(lo, hi, size=shape)


if __name__ == "__main__":
    main()
