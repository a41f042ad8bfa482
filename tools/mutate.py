#!/usr/bin/env python3
"""Developer helper: mutate the functions a property anchors and list the mutants its check misses.

usage: mutate.py PROP [--max N] [--seed S] [--jobs J] [--file F --func A,B]
Mutants live in scratch copies under /tmp; nothing is written in /repo.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def arg(k, d):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d


def seg(lines, n):
    # byte based positions -> the files are ASCII where it matters
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}


def mutants(src, names):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    b = src.encode()
    out = []

    def rep(n, new, what):
        s, e = seg(lines, n)
        out.append((n.lineno, what, b[:s] + new.encode() + b[e:]))

    def txt(n):
        s, e = seg(lines, n)
        return b[s:e].decode()

    targets = []
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in names:
                targets.append(n)
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and f"{n.name}.{m.name}" in names:
                        targets.append(m)
    for t in targets:
        for n in ast.walk(t):
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                rep(n, f"({txt(n.left)}) {BIN[type(n.op)]} ({txt(n.right)})", f"{txt(n)} : op -> {BIN[type(n.op)]}")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                for o in CMP[type(n.ops[0])]:
                    rep(n, f"({txt(n.left)}) {o} ({txt(n.comparators[0])})", f"{txt(n)} -> {o}")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                if n.value == 0:
                    rep(n, "1", "0 -> 1")
                else:
                    rep(n, f"({n.value} + 1)", f"{n.value} -> +1")
            elif isinstance(n, ast.Constant) and n.value is True:
                rep(n, "False", "True -> False")
            elif isinstance(n, ast.Constant) and n.value is False:
                rep(n, "True", "False -> True")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                rep(n, f"({txt(n.operand)})", f"drop unary in {txt(n)}")
            elif isinstance(n, ast.BoolOp):
                rep(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({txt(v)})" for v in n.values), f"and/or swap in {txt(n)[:60]}")
            elif isinstance(n, ast.If):
                rep(n.test, f"not ({txt(n.test)})", f"negate if {txt(n.test)[:60]}")
            elif isinstance(n, ast.IfExp):
                rep(n, f"({txt(n.orelse)})", "ifexp -> else")
                rep(n, f"({txt(n.body)})", "ifexp -> body")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if isinstance(n, ast.AugAssign) or not isinstance(n, ast.Assign) or not all(isinstance(x, ast.Name) for x in n.targets):
                    rep(n, "pass", f"delete: {txt(n)[:70]}")
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s0, _ = seg(lines, n.args[0])
                _, e1 = seg(lines, n.args[1])
                out.append((n.lineno, f"swap args of {txt(n)[:60]}", b[:s0] + f"{txt(n.args[1])}, {txt(n.args[0])}".encode() + b[e1:]))
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 and isinstance(n.ctx, ast.Load):
                e = n.slice.elts
                if txt(e[0]) != txt(e[-1]):
                    rep(n.slice, ", ".join([txt(e[-1])] + [txt(x) for x in e[1:-1]] + [txt(e[0])]), f"swap subscripts {txt(n)[:50]}")
    res = []
    for ln, what, nb in out:
        try:
            ast.parse(nb)
        except SyntaxError:
            continue
        res.append((ln, what, nb))
    return res


def run(prop, fn, ln, what, nb, secs):
    W = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        R = W + "/repo"
        os.makedirs(R)
        subprocess.check_call(f"cd /repo && git ls-files -z | grep -zv '^docs\\|^examples' | xargs -0 cp --parents -t {R}; cp /repo/zoidberg/_version.py {R}/zoidberg/ 2>/dev/null || true", shell=True)
        open(f"{R}/zoidberg/{fn}", "wb").write(nb)
        V = W + "/verif"
        os.makedirs(V)
        subprocess.check_call(f"cp -r {HERE}/check.py {HERE}/conc {HERE}/props {HERE}/pyvc {HERE}/known_findings.txt {HERE}/properties.jsonl {HERE}/MANIFEST.json {V}/", shell=True)
        try:
            c = subprocess.run(["timeout", str(secs), "python3-vt", V + "/check.py", prop], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=R))
            o = c.stdout
            rc = c.returncode
        except Exception as e:
            o, rc = str(e), -1
        kind = "caught" if rc == 1 and "no-failing" not in o else "caught-nfi" if rc == 1 else f"MISSED rc={rc}"
        notes = len(re.findall("^note: .*(undischarged|unit)", o, re.M))
        return f"{kind:12s} {prop} {fn}:{ln} {what!r:.110} notes={notes}"
    finally:
        shutil.rmtree(W, ignore_errors=True)


prop = sys.argv[1]
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
work = []
if "--file" in sys.argv:
    spec = {arg("--file", ""): arg("--func", "").split(",")}
else:
    spec = {}
    for m in props[prop]["anchors"]["mechanism"]:
        spec.setdefault(os.path.basename(m["where"]), []).append(m["name"])
for fn, names in spec.items():
    for ln, what, nb in mutants(open("/repo/zoidberg/" + fn).read(), names):
        work.append((fn, ln, what, nb))
rng = random.Random(int(arg("--seed", "1")))
rng.shuffle(work)
total = len(work)
work = work[: int(arg("--max", "20"))]
with ThreadPoolExecutor(int(arg("--jobs", "3"))) as ex:
    fs = [ex.submit(run, prop, *w, 420) for w in work]
    c = 0
    for f in fs:
        r = f.result()
        c += r.startswith("caught")
        print(r, flush=True)
print(f"== {prop}: {c}/{len(work)} caught of {total} mutants", flush=True)
