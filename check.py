#!/usr/bin/env python3
"""Decides one property: python3-vt check.py C01

1. the obligations of the property are generated from /repo's current source and
   discharged (pyvc, props/cNN.py),
2. the same contracts are evaluated on the real code for directed and seeded inputs
   (conc/cNN.py) -- the replay layer and the bounded stand-in for functions outside
   the verifier's reach.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", VERIF_REPO=REPO, PYTHONHASHSEED="0")
    return e


def start_conc(prop, seed, budget, out, cwd, only=None):
    cmd = [VENV, os.path.join(HERE, "conc", "run.py"), prop, str(seed), str(budget), out]
    if only:
        cmd += ["--only", only[0], str(only[1])]
    e = env()
    e["PYTHONPATH"] = REPO
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def start_proof(prop, tier, seed, budget, out, cwd):
    e = env()
    e["PYTHONPATH"] = HERE
    return subprocess.Popen([sys.executable, "-m", "pyvc.harness", prop, tier, str(seed), str(budget), out], cwd=cwd,
                            env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def finish(p, out, limit):
    try:
        _, err = p.communicate(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        err = (err or b"") + b"\n[time limit]"
    try:
        return json.load(open(out)), (err or b"").decode(errors="replace")[-2000:]
    except (OSError, ValueError):
        return None, (err or b"").decode(errors="replace")[-2000:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = json.load(open(os.path.join(HERE, "props", "info.json")))[prop]
    t0 = time.time()
    cb = info.get("conc_budget", 15) * (1 if tier == "quick" else 20)
    pb = info.get("proof_budget", 120) * (1 if tier == "quick" else 6)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        os.makedirs(os.path.join(tmp, "conc"))
        os.makedirs(os.path.join(tmp, "proof"))
        co, po = os.path.join(tmp, "c.json"), os.path.join(tmp, "p.json")
        c = start_conc(prop, seed, cb, co, os.path.join(tmp, "conc"))
        has_proof = os.path.exists(os.path.join(HERE, "props", prop.lower() + ".py"))
        p = start_proof(prop, tier, seed, pb, po, os.path.join(tmp, "proof")) if has_proof else None
        conc, cerr = finish(c, co, cb + 120)
        limit = pb + 60 - (time.time() - t0)
        if conc and conc["failures"]:
            limit = min(limit, 30)  # already decided
        proof, perr = finish(p, po, limit) if p else (dict(units=[], obligations=[], queries=0,
                                                                             solver_time=0, assumptions=[], trusted=[],
                                                                             errors=[], wall=0), "")
        if conc is None:
            print(f"ERROR: oracle run of {prop} died: {cerr}", file=sys.stderr)
            conc = dict(evaluations=0, failures=[], cases={}, skipped={}, samples=[], errors=[cerr])
        if proof is None:
            proof = dict(units=[], obligations=[], queries=0, solver_time=0, assumptions=[], trusted=[],
                         errors=["proof run died: " + perr], wall=0)
        refuted = [o for o in proof["obligations"] if o["status"] in ("refuted", "failed")]
        fails = conc["failures"]
        extended = None
        if refuted and not fails:
            # look longer for a failing input of the real code
            extended, _ = finish(start_conc(prop, seed + 7919, cb * 3, co + "x", os.path.join(tmp, "conc")), co + "x", cb * 3 + 120)
            if extended:
                fails = extended["failures"]
                conc["evaluations"] += extended["evaluations"]
                conc["distinct"] = conc.get("distinct", 0) + extended.get("distinct", 0)
        # a failing input must fail again when replayed on its own
        confirmed = []
        for f in fails:
            out = os.path.join(tmp, "r.json")
            r, _ = finish(start_conc(prop, seed, 60, out, os.path.join(tmp, "conc"), (f["case"], f["seed"])), out, 180)
            if r is None or r["failures"]:
                confirmed.append(f)
        violations = 0
        rdir = os.path.join(HERE, "replay")
        if confirmed:
            violations = len(confirmed)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}.json")
            f = confirmed[0]
            json.dump(dict(property=prop, kind="failing input of the real code", failures=confirmed,
                           replay_cmd=f"cd {HERE} && PYTHONPATH={REPO} {VENV} conc/run.py {prop} {seed} 60 /dev/stdout --only {f['case']} {f['seed']}",
                           failed_obligations=refuted), open(path, "w"), indent=1)
            for f in confirmed:
                print(f"property {prop}: case {f['case']} seed {f['seed']}: {f['error']}: {f['message'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        elif refuted:
            violations = len(refuted)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}.json")
            json.dump(dict(property=prop, kind="failed obligation", failed_obligations=refuted), open(path, "w"), indent=1)
            for o in refuted[:5]:
                print(f"property {prop}: obligation failed: {o['name']} ({o['backend']})")
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        obs = proof["obligations"]
        disch = [o for o in obs if o["status"] == "proved"]
        units = proof["units"]
        for u in units:
            if u["status"] != "ok":
                print(f"note: {prop} unit {u['unit']}: {u['status']}: {u.get('reason', '')[:200]} (bounded evaluation stands in)")
        for o in obs:
            if o["status"] == "unknown":
                print(f"note: {prop} undischarged obligation {o['name']} ({o['backend']})")
        for e in proof["errors"] + conc["errors"]:
            print(f"note: {prop}: {e[-300:]}")
        fun = sorted({f for u in units for f in u["functions"]})
        proved_units = [u["unit"] for u in units if u["status"] == "ok" and u["discharged"] == u["obligations"]]
        nsam = [dict(name=o["name"], status=o["status"], backend=o["backend"], time=o["time"]) for o in obs[:6]]
        cov = dict(obligations=len(obs), discharged=len(disch),
                   checker_cmd=f"python3-vt -m pyvc.harness {prop} {tier} {seed} {pb} OUT (z3 {_z3()}, cvc5 as second back end)",
                   trusted_base=["pyvc: AST transformation, symbolic execution, loop summaries, numpy contracts (npshim.py)",
                                 "z3 / cvc5"] + proof["trusted"],
                   functions_under_contract=fun,
                   units=[dict(unit=u["unit"], status=u["status"], paths=u["paths"], obligations=u["obligations"],
                               discharged=u["discharged"], time=u["time"], reason=u.get("reason", "")[:300]) for u in units],
                   backends=_count(o["backend"] for o in disch), solver_queries=proof["queries"],
                   solver_time_s=proof["solver_time"],
                   undischarged=[o["name"] for o in obs if o["status"] != "proved"],
                   fully_proved_units=proved_units,
                   evaluations=conc["evaluations"],
                   distinct_nontrivial=conc.get("distinct", 0),
                   rule="bounded layer: every case draws its own sizes and data from VERIF_SEED and evaluates the contract oracle on the real code; a case counts as evaluated only if the real code ran and the oracle compared its results; distinct: it drew its input from its own seed, or is a fixed case run for the first time",
                   cases_run=conc["cases"], cases_skipped=conc["skipped"],
                   bounded_standins=info.get("bounded", []),
                   samples=nsam + conc["samples"])
        level = info["level"]
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=["float arithmetic is treated as exact real arithmetic in the obligations (rounding is only exercised by the bounded layer)",
                               "int64 is treated as unbounded integers"] + proof["assumptions"] + info.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=violations)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
        print(f"{prop}: {len(disch)}/{len(obs)} obligations discharged, {conc['evaluations']} evaluations, {ev['wall_s']} s")
        for line in _known(prop):
            print(line)
        if violations:
            return 1
        if not obs and not conc["evaluations"]:
            print(f"ERROR: nothing was checked for {prop}", file=sys.stderr)
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _z3():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


def _count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def _known(prop):
    """Findings that are recorded, not repaired (none of the 'fixed:' entries)."""
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append("KNOWN-FINDING: " + line[len("finding:"):].strip())
    except OSError:
        pass
    return out


if __name__ == "__main__":
    sys.exit(main())
