"""Loads the real modules of /repo for symbolic execution.

The text of every module is read from the working tree on each run, parsed, and
mechanically transformed so that control flow on symbolic values is visible to the
engine:
  * for / while loops become calls of the engine with the loop body as a closure
    that shares the variables of the function (nonlocal),
  * and / or / not, chained comparisons and conditional expressions are evaluated
    without forking where both sides are pure scalars,
  * comprehensions over symbolic sequences are evaluated at an arbitrary index,
  * attribute stores are visible to the engine (frame conditions in loops).
Nothing of the functions is dropped; imports of numpy and of other dependencies are
bound to their contracts (npshim.py, the stubs given by the property).
"""
import ast
import builtins
import os
import types

from . import core, loops, npshim
from .core import S, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
# transformation


class _Names(ast.NodeVisitor):
    """Names stored in a statement list (this scope only)."""

    def __init__(self):
        self.stored = []
        self.globals = set()
        self.nonlocals = set()
        self.has_yield = False
        self.has_return = False

    def add(self, n):
        if n not in self.stored:
            self.stored.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # only walrus targets leak; first iterable is evaluated outside
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield
    visit_Await = visit_Yield

    def visit_Return(self, n):
        self.has_return = True
        self.generic_visit(n)


def names_in(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


def N(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def PV(attr):
    return ast.Attribute(value=N("_pv_rt"), attr=attr, ctx=ast.Load())


def call(f, *args, **kw):
    return ast.Call(func=f, args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


def lam(e, args=()):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=e)


def fdef(name, args, body):
    return ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                                         kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=body, decorator_list=[], type_params=[])


def has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


class _BodyRewriter(ast.NodeTransformer):
    """break/continue/return of a loop body that becomes a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        # native loop kept inside (generators): its own break/continue stay
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.Return(value=PV("BREAK"))

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.Return(value=ast.Constant(value=None))

    def visit_Return(self, n):
        if getattr(n, "_pv_generated", False):
            return n
        return ast.Return(value=call(PV("Ret"), n.value or ast.Constant(value=None)))


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.scopes = []  # function scopes: dict(globals=set, extra=set)
        self.n = 0
        self.in_class = 0

    def uid(self):
        self.n += 1
        return self.n

    # -- scopes
    def _function(self, n):
        v = names_in(n.body)
        self.scopes.append(dict(globals=set(v.globals), nonlocals=set(v.nonlocals), yields=v.has_yield, hoist=set()))
        n.body = self._block(n.body)
        sc = self.scopes.pop()
        hoist = sorted(sc["hoist"] - sc["globals"] - sc["nonlocals"] - set(_argnames(n.args)))
        if hoist:
            doc = []
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                doc, body = body[:1], body[1:]
            dead = ast.If(test=ast.Constant(value=False),
                          body=[ast.Assign(targets=[N(h, ast.Store()) for h in hoist], value=ast.Constant(value=None))],
                          orelse=[])
            n.body = doc + [dead] + body
        n.args = self.visit(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        return n

    visit_FunctionDef = _function

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        self.scopes.append(None)
        n.body = self._block(n.body)
        self.scopes.pop()
        n.bases = [self.visit(b) for b in n.bases]
        return n

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    def infn(self):
        return bool(self.scopes) and self.scopes[-1] is not None

    # -- loops
    def visit_For(self, n):
        if not self.infn() or self.scopes[-1]["yields"] and names_in([n]).has_yield:
            return self.generic_visit(n)
        lid = self.uid()
        sc = self.scopes[-1]
        tgt = names_in([ast.Assign(targets=[n.target], value=ast.Constant(value=0))])
        v = names_in(n.body)
        stored = [x for x in tgt.stored + [y for y in v.stored if y not in tgt.stored]]
        stored = [x for x in stored if x not in v.globals]
        sc["hoist"].update(stored)
        glob = [x for x in stored if x in sc["globals"]]
        nonl = [x for x in stored if x not in sc["globals"]]
        decl = ([ast.Global(names=glob)] if glob else []) + ([ast.Nonlocal(names=nonl)] if nonl else [])
        orig_return = v.has_return
        import copy

        body = self._block(n.body)
        rw = _BodyRewriter()
        body = [rw.visit(s) for s in body]
        it = f"_pv_it{lid}"
        bfn = fdef(f"_pv_body{lid}", [it], [copy.deepcopy(d) for d in decl] +
                   [ast.Assign(targets=[n.target], value=N(it))] + body)
        get, st = self._getset(lid, stored, decl)
        names = ast.Tuple(elts=[ast.Constant(value=x) for x in stored], ctx=ast.Load())
        tn = ast.Tuple(elts=[ast.Constant(value=x) for x in tgt.stored], ctx=ast.Load())
        res = f"_pv_r{lid}"
        lp = ast.Assign(targets=[N(res, ast.Store())],
                        value=call(PV("for_loop"), self.visit(n.iter), N(f"_pv_body{lid}"), N(f"_pv_get{lid}"),
                                   N(f"_pv_set{lid}"), names, tn, ast.Constant(value=n.lineno)))
        return [bfn, get, st, lp] + self._after(res, orig_return, n.orelse)

    def _getset(self, lid, stored, decl):
        import copy

        get = fdef(f"_pv_get{lid}", [], [copy.deepcopy(d) for d in decl] + [ast.Return(value=call(
            PV("getvars"), *[lam(N(x)) for x in stored]))])
        get.body[-1]._pv_generated = True
        sbody = [copy.deepcopy(d) for d in decl]
        for i, x in enumerate(stored):
            item = ast.Subscript(value=N("_pv_v"), slice=ast.Constant(value=i), ctx=ast.Load())
            sbody.append(ast.If(
                test=ast.Compare(left=item, ops=[ast.Is()], comparators=[PV("UNBOUND")]),
                body=[ast.Try(body=[ast.Delete(targets=[N(x, ast.Del())])],
                              handlers=[ast.ExceptHandler(type=N("NameError"), name=None, body=[ast.Pass()])],
                              orelse=[], finalbody=[])],
                orelse=[ast.Assign(targets=[N(x, ast.Store())], value=item)]))
        st = fdef(f"_pv_set{lid}", ["_pv_v"], sbody or [ast.Pass()])
        return get, st

    def _after(self, res, has_return, orelse):
        out = []
        if has_return:
            r = ast.Return(value=ast.Attribute(value=N(res), attr="value", ctx=ast.Load()))
            out.append(ast.If(test=call(PV("is_ret"), N(res)), body=[r], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Compare(left=N(res), ops=[ast.IsNot()], comparators=[PV("BREAK")]),
                              body=self._block(orelse), orelse=[]))
        return out

    def visit_While(self, n):
        if not self.infn() or self.scopes[-1]["yields"] and names_in([n]).has_yield:
            return self.generic_visit(n)
        if has_walrus(n.test):
            return self.generic_visit(n)
        lid = self.uid()
        sc = self.scopes[-1]
        v = names_in(n.body)
        stored = [x for x in v.stored if x not in v.globals]
        sc["hoist"].update(stored)
        glob = [x for x in stored if x in sc["globals"]]
        nonl = [x for x in stored if x not in sc["globals"]]
        decl = ([ast.Global(names=glob)] if glob else []) + ([ast.Nonlocal(names=nonl)] if nonl else [])
        import copy

        body = self._block(n.body)
        rw = _BodyRewriter()
        body = [rw.visit(s) for s in body]
        bfn = fdef(f"_pv_body{lid}", [], [copy.deepcopy(d) for d in decl] + body)
        get, st = self._getset(lid, stored, decl)
        names = ast.Tuple(elts=[ast.Constant(value=x) for x in stored], ctx=ast.Load())
        res = f"_pv_r{lid}"
        lp = ast.Assign(targets=[N(res, ast.Store())],
                        value=call(PV("while_loop"), lam(self.visit(n.test)), N(f"_pv_body{lid}"),
                                   N(f"_pv_get{lid}"), N(f"_pv_set{lid}"), names, ast.Constant(value=n.lineno)))
        return [bfn, get, st, lp] + self._after(res, v.has_return, n.orelse)

    # -- expressions
    def visit_BoolOp(self, n):
        if not self.infn() or has_walrus(n):
            return self.generic_visit(n)
        vals = [lam(self.visit(v)) for v in n.values]
        return call(PV("and_" if isinstance(n.op, ast.And) else "or_"), *vals)

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not) and self.infn():
            return call(PV("not_"), n.operand)
        return n

    def visit_Compare(self, n):
        if len(n.ops) > 1 and self.infn() and not has_walrus(n):
            parts = []
            left = n.left
            for op, c in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[c]))
                left = c
            if all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in n.comparators[:-1]):
                return self.visit(ast.BoolOp(op=ast.And(), values=parts))
        return self.generic_visit(n)

    def visit_IfExp(self, n):
        if not self.infn() or has_walrus(n):
            return self.generic_visit(n)
        return call(PV("ifexp"), self.visit(n.test), lam(self.visit(n.body)), lam(self.visit(n.orelse)))

    def _comp(self, n, kindname):
        if (not self.infn() or has_walrus(n) or len(n.generators) != 1 or n.generators[0].ifs
                or n.generators[0].is_async):
            return self.generic_visit(n)
        g = n.generators[0]
        src = self.visit(g.iter)
        elt = self.visit(n.elt)
        # lambda item: [elt for target in (item,)][0]
        one = ast.Subscript(value=ast.ListComp(elt=elt, generators=[ast.comprehension(
            target=g.target, iter=ast.Tuple(elts=[N("_pv_item")], ctx=ast.Load()), ifs=[], is_async=0)]),
            slice=ast.Constant(value=0), ctx=ast.Load())
        return call(PV("comp"), ast.Constant(value=kindname), lam(one, ["_pv_item"]), src)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn():
            return call(PV("PList"), n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if self.infn():
            return call(PV("PDict"), n)
        return n

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if self.infn() and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.Expr(value=call(PV("setattr"), t.value, ast.Constant(value=t.attr), n.value))
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def visit_arg(self, n):
        n.annotation = None
        return n


def _argnames(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# --------------------------------------------------------------------------
# modules


class Stub(types.ModuleType):
    """Module whose attributes are unknown to the engine unless given."""

    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Unknown(f"{self.__name__}.{n}")


class Unknown:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._name}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Unknown(f"{self._name}.{n}")


class _Exact(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return call(PV("lit"), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_arguments(self, n):
        return n


class World:
    """A set of loaded modules with given stubs for dependencies."""

    def __init__(self, stubs=None, repo=None, overrides=None, exact=False):
        self.exact = exact  # float literals as exact rationals
        self.repo = repo or REPO
        self.modules = {}
        self.stubs = dict(stubs or {})
        self.overrides = overrides or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(loops.BUILTINS)
        self.builtins["__import__"] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = "zoidberg"
            if name:
                m = self.load(name)
                return m
            # from . import a, b
            ns = Stub("zoidberg")
            for f in fromlist:
                ns.__dict__[f] = self.load(f)
            return ns
        top = name.split(".")[0]
        if name in self.stubs:
            st = self.stubs[name]
            if isinstance(st, BaseException) or (isinstance(st, type) and issubclass(st, BaseException)):
                raise st
            return st if fromlist else self.stubs.get(top, st)
        if top == "numpy":
            return npshim.np
        if top == "zoidberg":
            return Stub("zoidberg", __version__="x", **{})
        if top in self.stubs:
            st = self.stubs[top]
            for p in name.split(".")[1:] if fromlist else []:
                st = getattr(st, p)
            return st
        if top in ("__future__", "itertools", "collections", "math", "warnings", "uuid", "sys", "time", "os",
                   "functools", "hashlib", "copy", "fractions", "typing", "operator", "string", "re"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top in ("tqdm", "pyevtk", "evtk", "eudist", "fusionsc", "alphashape", "matplotlib", "freeqdsk"):
            raise ModuleNotFoundError(name)
        return Stub(name)

    def load(self, name):
        name = name.split(".")[-1]
        if name in self.overrides:
            return self.overrides[name]
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, "zoidberg", name + ".py")
        if not os.path.exists(path):
            return Stub("zoidberg." + name)
        src = open(path).read()
        tree = transform(src, path)
        if self.exact:
            tree = ast.fix_missing_locations(_Exact().visit(tree))
        m = types.ModuleType("zoidberg." + name)
        m.__package__ = "zoidberg"
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv_rt"] = loops
        self.modules[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        return m
