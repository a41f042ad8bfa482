"""sympy's expression interface on engine terms: symbols, elementary functions, differentiation, lambdify."""
from fractions import Fraction
import numpy as _np
import z3
from pyvc import core, loader
from pyvc.core import CTX, S, Unsupported, ite, mk, power, z, sqrt, is_scalar
from pyvc.arrays import SArray, elementwise
from pyvc.loader import Stub
from pyvc.npshim import SIN, COS

R = z3.RealSort()
LOG = z3.Function("LOG", R, R)


def is_const(v, c):
    if isinstance(v, S):
        v = core.const_value(v)
    return v is not None and v == c


def sin(a):
    if isinstance(a, Angle):
        return a.y / a.r
    return Fraction(0) if is_const(a, 0) else mk(SIN(z3.simplify(z(a, "r"))), "r")


def cos(a):
    if isinstance(a, Angle):
        return a.x / a.r
    return Fraction(1) if is_const(a, 0) else mk(COS(z3.simplify(z(a, "r"))), "r")


def log(a):
    return Fraction(0) if is_const(a, 1) else mk(LOG(z3.simplify(z(a, "r"))), "r")


class Angle:
    """atan2(y, x): only its sine and cosine are known"""

    def __init__(self, y, x):
        self.y, self.x = y, x
        self.r = sqrt(x * x + y * y)

    def _bad(self, *a):
        raise Unsupported("arithmetic on atan2")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = _bad


class Zoo:
    """sympy's complex infinity: factorial of a negative integer"""
    __array_ufunc__ = None

    def __rtruediv__(self, o):
        return Fraction(0)


def factorial(n):
    import math
    n = core.concrete_int(n)
    if n is None:
        raise Unsupported("factorial")
    if n < 0:
        return Zoo()
    return math.factorial(n)


def gamma(x):
    x = core.concrete_int(x)
    if x is None or x <= 0:
        raise Unsupported("gamma")
    return factorial(x - 1)


def refold(t, memo):
    """fold COS(0), SIN(0), LOG(1) after a substitution"""
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    ch = [refold(c, memo) for c in t.children()]
    r = t.decl()(*ch) if ch else t
    if ch and t.decl().name() in ("SIN", "COS", "LOG"):
        a = z3.simplify(ch[0], som=True)
        if z3.is_rational_value(a) or z3.is_int_value(a):
            v = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if t.decl().name() == "SIN" and v == 0 or t.decl().name() == "LOG" and v == 1:
                r = z3.RealVal(0)
            elif t.decl().name() == "COS" and v == 0:
                r = z3.RealVal(1)
        elif t.decl().name() == "LOG" and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV and a.arg(0).eq(a.arg(1)):
            r = z3.RealVal(0)
    memo[k] = (r, t)
    return r


def replace(e, pairs):
    if not isinstance(e, S):
        return e
    return mk(z3.simplify(refold(z3.substitute(e.e, *[(z(a), z(b, "r")) for a, b in pairs]), {})), "r")


def deriv(e, v):
    """derivative of a term with respect to a constant of it"""
    if not isinstance(e, S):
        return Fraction(0)
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        r = step(t)
        memo[k] = (r, t)
        return r

    def step(t):
        if t.eq(v.e):
            return Fraction(1)
        if not core.mentions(t, [v.e]):
            return Fraction(0)
        kd, ch = t.decl().kind(), t.children()
        if kd == z3.Z3_OP_ADD:
            return sum((go(c) for c in ch), Fraction(0))
        if kd == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = r - go(c)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -go(ch[0])
        if kd == z3.Z3_OP_MUL:
            r = Fraction(0)
            for i, c in enumerate(ch):
                d = go(c)
                if is_const(d, 0):
                    continue
                for j, o in enumerate(ch):
                    if j != i:
                        d = d * S(o, "r")
                r = r + d
            return r
        if kd == z3.Z3_OP_DIV:
            a, b = S(ch[0], "r"), S(ch[1], "r")
            return (go(ch[0]) * b - a * go(ch[1])) / (b * b) if not is_const(go(ch[1]), 0) else go(ch[0]) / b
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            n = ch[1].numerator_as_long()
            return n * power(S(ch[0], "r"), n - 1) * go(ch[0])
        n = t.decl().name()
        if n in ("SIN", "COS", "LOG", "SQRT"):
            d, u = go(ch[0]), S(ch[0], "r")
            return {"SIN": lambda: cos(u) * d, "COS": lambda: -(sin(u) * d), "LOG": lambda: d / u,
                    "SQRT": lambda: d / (2 * S(t, "r"))}[n]()
        raise Unsupported(f"derivative of {n}")

    return go(z3.simplify(e.e))


def lambdify(args, expr, *a, **kw):
    args = list(args)

    def f(*vals):
        if len(vals) != len(args):
            raise TypeError("wrong number of arguments")
        op = lambda *v: replace(expr, list(zip(args, v)))
        if any(isinstance(v, SArray) for v in vals):
            if not isinstance(expr, S) or not core.mentions(expr.e, [a_.e for a_ in args]):
                return expr  # a constant: a plain number, as sympy gives
            return elementwise(op, *vals, k="r")
        return op(*vals)

    return f


def Piecewise(*pairs):
    for v, c in pairs:
        if isinstance(c, S):
            raise Unsupported("Piecewise")
        if c:
            return v
    return _np.nan


def Symbol(name, **kw):
    return S(z3.Real("sym_" + name), "r")


def world():
    import math
    m = Stub("math", gamma=gamma, factorial=factorial, sqrt=sqrt, pi=PI)
    sp = Stub("sympy", Piecewise=Piecewise, Symbol=Symbol, symbols=lambda s: tuple(Symbol(n) for n in s.replace(",", " ").split()),
              atan2=lambda y, x: Angle(y, x), cos=cos, sin=sin, log=log, sqrt=sqrt, factorial=factorial, gamma=gamma,
              diff=lambda e, v: deriv(e, v), lambdify=lambdify, pi=PI)
    S.doit = lambda self: self
    S.subs = lambda self, *a: replace(self, list(a[0]) if len(a) == 1 else [a])
    S.diff = lambda self, v: deriv(self, v)
    return loader.World(stubs={"sympy": sp, "math": m}, exact=True)


from pyvc.npshim import np as _shim
PI = _shim.pi
