"""Symbolic scalars, path exploration and the proof back end.

Values the verified code computes with are Python numbers or `S` objects (a z3
term with a kind: 'i' integer, 'r' real, 'b' boolean).  Branching on an `S`
forks the path; all paths are explored by re-execution.  Special functions
(square roots, symbolic modulus, sums over symbolic ranges, contracts of
external functions) are uninterpreted functions with axiom schemas, which are
instantiated for the applications that occur in a query.
"""
import time
from fractions import Fraction

import numpy as _np
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The engine cannot follow the code here (never a verdict about the code)."""


class PathEnd(BaseException):
    """Stop this path (infeasible, or the end of an arbitrary loop iteration)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.obligations = []  # dicts: name, status, backend, time


STATS = Stats()


# --------------------------------------------------------------------------
# numbers


def idealise(f):
    """Float literal -> rational; a value within 4 ulp of a rational with a small
    denominator stands for that rational (stated assumption: real arithmetic)."""
    f = float(f)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float in symbolic arithmetic")
    if f == int(f) and abs(f) < 1e18:
        return Fraction(int(f))
    fr = Fraction(f)
    small = fr.limit_denominator(10000)
    if small != 0 and abs(small - fr) <= Fraction(4, 2**52) * abs(fr):
        return small
    # decimal literals such as 1e-8
    dec = Fraction(repr(f))
    return dec


TOKENS = []


class S:
    __slots__ = ("e", "k")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e, k):
        self.e = e
        self.k = k

    # -- helpers
    def __repr__(self):
        return f"S<{self.k}:{str(self.e)[:60]}>"

    def __format__(self, spec):
        if self.k == "i" and spec == "":
            # a token: the decimal representation of this integer
            TOKENS.append(self)
            return f"\u27e8{len(TOKENS) - 1}\u27e9"
        return repr(self)

    def __hash__(self):
        return hash((self.k, self.e.hash()))

    def __bool__(self):
        if self.k == "b":
            return CTX().decide(self.e)
        return CTX().decide(self.e != 0)

    def __index__(self):
        v = concrete_int(self)
        if v is None:
            raise Unsupported("symbolic integer used where a concrete one is needed")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = const_value(self)
        if v is None:
            raise Unsupported("symbolic number converted to float")
        return float(v)

    def __complex__(self):
        return complex(float(self))

    # -- arithmetic
    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return arith("%", o, self)

    def __divmod__(self, o):
        return arith("//", self, o), arith("%", self, o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __and__(self, o):
        return logic("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return logic("or", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return logic("xor", self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == "b":
            return mk(z3.Not(self.e), "b")
        return arith("-", -1, self)

    # -- comparisons
    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    # -- numpy scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    def astype(self, t, copy=True):
        return cast(self, kind_of_dtype(t))

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def dtype(self):
        return DType(self.k)

    @property
    def real(self):
        return self

    def __getitem__(self, key):
        if key is Ellipsis or key == ():
            return self
        raise Unsupported("indexing a symbolic scalar")

    def is_integer(self):
        if self.k == "i":
            return True
        return mk(z3.IsInt(self.e), "b")


class DType:
    def __init__(self, k):
        self.kind = {"r": "f", "i": "i", "b": "b", "O": "O"}[k]
        self.k = k
        self.str = {"r": "<f8", "i": "<i8", "b": "|b1", "O": "|O"}[k]
        self.name = {"r": "float64", "i": "int64", "b": "bool", "O": "object"}[k]

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.k
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"dtype({self.name})"


def kind_of_dtype(t):
    if isinstance(t, DType):
        return t.k
    if t is None:
        return "r"
    if t in (float, "float", "f8", "d", _np.float64):
        return "r"
    if t in (int, "int", "i8", _np.int64, _np.int32):
        return "i"
    if t in (bool, "bool", _np.bool_):
        return "b"
    if t is object:
        return "O"
    name = getattr(t, "__name__", None)
    if name in ("float", "pv_float"):
        return "r"
    if name in ("int", "pv_int"):
        return "i"
    if name in ("bool", "pv_bool"):
        return "b"
    try:
        k = _np.dtype(t).kind
    except TypeError:
        raise Unsupported(f"dtype {t!r}")
    if k == "f":
        return "r"
    if k in "iu":
        return "i"
    if k == "b":
        return "b"
    raise Unsupported(f"dtype {t!r}")


def is_num(v):
    return isinstance(v, (int, float, Fraction, _np.number, _np.bool_))


def is_scalar(v):
    return isinstance(v, S) or is_num(v)


def is_sym(v):
    return isinstance(v, S)


def kind(v):
    if isinstance(v, S):
        return v.k
    if isinstance(v, (bool, _np.bool_)):
        return "b"
    if isinstance(v, (int, _np.integer)):
        return "i"
    if isinstance(v, (float, Fraction, _np.floating)):
        return "r"
    return "O"


def z(v, k=None):
    """z3 term of a scalar, converted to kind k if given."""
    if isinstance(v, S):
        if k is None or v.k == k:
            return v.e
        if k == "r" and v.k == "i":
            return z3.ToReal(v.e)
        if k == "i" and v.k == "b":
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        if k == "r" and v.k == "b":
            return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
        if k == "b" and v.k in "ir":
            return v.e != 0
        if k == "i" and v.k == "r":
            return trunc_e(v.e)
        raise Unsupported(f"conversion {v.k}->{k}")
    if isinstance(v, (z3.ExprRef,)):
        return v
    if isinstance(v, (bool, _np.bool_)):
        if k == "i":
            return z3.IntVal(int(v))
        if k == "r":
            return z3.RealVal(int(v))
        return z3.BoolVal(bool(v))
    if isinstance(v, (int, _np.integer)):
        if k == "r":
            return z3.RealVal(int(v))
        if k == "b":
            return z3.BoolVal(bool(v))
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (float, _np.floating)):
        fr = idealise(v)
        if k == "i":
            return z3.IntVal(int(fr))
        if k == "b":
            return z3.BoolVal(fr != 0)
        return z3.RealVal(fr)
    raise Unsupported(f"not a scalar: {type(v)}")


def trunc_e(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


_CONSTCACHE = {}


def const_value(v):
    """Python value of a scalar if it is a literal, else None."""
    if not isinstance(v, S):
        return v
    e = v.e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def concrete_int(v):
    if isinstance(v, (bool, _np.bool_, int, _np.integer)):
        return int(v)
    if isinstance(v, S):
        c = const_value(v)
        if c is None:
            c = const_value(mk(z3.simplify(v.e), v.k, False))
        if c is not None and c == int(c):
            return int(c)
    return None


def mk(e, k, fold=True):
    """Wrap a z3 term; literals become Python values."""
    if fold:
        if k == "i" and z3.is_int_value(e):
            return e.as_long()
        if k == "b":
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        if k == "r" and z3.is_rational_value(e):
            # keep as Fraction so that constants stay exact
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return S(e, k)


def simp(v):
    if isinstance(v, S):
        return mk(z3.simplify(v.e, som=False), v.k)
    return v


def _num(v):
    """Python number prepared for exact arithmetic."""
    if isinstance(v, (float, _np.floating)):
        return idealise(v)
    if isinstance(v, (bool, _np.bool_)):
        return int(v)
    if isinstance(v, _np.integer):
        return int(v)
    return v


def arith(op, a, b):
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    sa, sb = isinstance(a, S), isinstance(b, S)
    if not sa and not sb:
        a, b = _num(a), _num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return Fraction(a) / Fraction(b)
        if op == "//":
            return a // b
        if op == "%":
            return a % b
    ka, kb = kind(a), kind(b)
    if ka == "b":
        a, ka = (mk(z(a, "i"), "i")), "i"
    if kb == "b":
        b, kb = (mk(z(b, "i"), "i")), "i"
    if not isinstance(a, S):
        a = _num(a)
    if not isinstance(b, S):
        b = _num(b)
    k = "i" if (ka == "i" and kb == "i") else "r"
    # light algebraic folding keeps terms small
    if op in "+-":
        if not isinstance(b, S) and b == 0:
            return a if kind(a) == k else mk(z(a, k), k)
        if op == "+" and not isinstance(a, S) and a == 0:
            return b if kind(b) == k else mk(z(b, k), k)
        if op == "-" and isinstance(a, S) and isinstance(b, S) and a.e.eq(b.e):
            return 0 if k == "i" else Fraction(0)
    if op == "*":
        for u, v in ((a, b), (b, a)):
            if not isinstance(u, S):
                if u == 0:
                    return 0 if k == "i" else Fraction(0)
                if u == 1:
                    return v if kind(v) == k else mk(z(v, k), k)
    if op == "/":
        if not isinstance(b, S) and b == 1:
            return a if ka == "r" else mk(z(a, "r"), "r")
        if not isinstance(a, S) and a == 0:
            pass
        if not isinstance(b, S) and b == 0:
            raise Unsupported("division by literal zero")
        return mk(z(a, "r") / z(b, "r"), "r")
    if op == "+":
        return mk(z(a, k) + z(b, k), k)
    if op == "-":
        return mk(z(a, k) - z(b, k), k)
    if op == "*":
        return mk(z(a, k) * z(b, k), k)
    if op in ("//", "%"):
        return divmod_(op, a, b, k)
    raise Unsupported(op)


DIV = z3.Function("DIV", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("MOD", z3.IntSort(), z3.IntSort(), z3.IntSort())
SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())
PI = z3.Const("PI", z3.RealSort())


def divmod_(op, a, b, k):
    if k == "r":
        ra, rb = z(a, "r"), z(b, "r")
        fl = z3.ToInt(ra / rb)
        if op == "//":
            return mk(z3.ToReal(fl), "r")
        return mk(ra - rb * z3.ToReal(fl), "r")
    ia, ib = z(a, "i"), z(b, "i")
    if z3.is_int_value(ib):
        n = ib.as_long()
        if n == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if n > 0:
            return mk(z3.simplify(ia / ib if op == "//" else ia % ib), "i")
        q = -((-ia) / z3.IntVal(-n)) if False else None
        # floor division by a negative literal: a // n == (-a) // (-n)
        nn = z3.IntVal(-n)
        if op == "//":
            return mk((-ia) / nn, "i")
        return mk(-((-ia) % nn), "i")
    # symbolic modulus: must be positive (numpy/python floor semantics)
    if not CTX().provable(ib > 0):
        if not CTX().decide(ib > 0):
            raise Unsupported("modulus not known to be positive")
    ia, c = strip_multiples(ia, ib)
    q = CTX().known_quotient(ia, ib)
    if q is not None:
        return mk(z3.IntVal(q + c), "i") if op == "//" else simp(mk(ia - q * ib, "i"))
    return simp(mk(DIV(ia, ib) + c, "i")) if op == "//" else mk(MOD(ia, ib), "i")


def strip_multiples(a, n):
    """a = rest + c*n with the literal multiples of n removed."""
    a = z3.simplify(a)
    n = z3.simplify(n)
    terms = a.children() if z3.is_add(a) else [a]
    rest, c = [], 0
    for t in terms:
        if t.eq(n):
            c += 1
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(1).eq(n):
            c += t.arg(0).as_long()
        else:
            rest.append(t)
    if not c:
        return a, 0
    return z3.simplify(z3.Sum(rest)) if rest else z3.IntVal(0), c


def power(a, b):
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    bv = const_value(b) if isinstance(b, S) else b
    if bv is None:
        if const_value(a) == -1 and kind(b) == "i":
            m = arith("%", b, 2)
            return ite(m == 0, 1, -1)
        raise Unsupported("symbolic exponent")
    bv = _num(bv)
    if bv == int(bv) and -8 <= bv <= 16:
        n = int(bv)
        if n == 0:
            return 1 if kind(a) == "i" else Fraction(1)
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        if n < 0:
            return arith("/", 1, r)
        return r
    if bv == Fraction(1, 2):
        return sqrt(a)
    if bv == Fraction(-1, 2):
        return arith("/", 1, sqrt(a))
    raise Unsupported(f"exponent {bv}")


def sqrt(a):
    if not isinstance(a, S):
        a = _num(a)
        fr = Fraction(a)
        if fr >= 0:
            import math

            n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if n * n == fr.numerator and d * d == fr.denominator:
                return Fraction(n, d)
        a = S(z3.RealVal(fr), "r")
    return mk(SQRT(z3.simplify(z(a, "r"))), "r")


def sabs(a):
    if not isinstance(a, S):
        return abs(_num(a))
    if a.k == "b":
        return a
    return mk(z3.If(a.e >= 0, a.e, -a.e), a.k)


def floor(a, as_int=False):
    if not isinstance(a, S):
        import math

        v = math.floor(_num(a))
        return v if as_int else Fraction(v)
    if a.k == "i":
        return a if as_int else mk(z3.ToReal(a.e), "r")
    f = z3.simplify(z3.ToInt(a.e))
    return mk(f, "i") if as_int else mk(z3.ToReal(f), "r")


def to_int(a):
    """Python int(): truncation towards zero."""
    if not isinstance(a, S):
        return int(_num(a)) if not isinstance(a, (str, bytes)) else int(a)
    if a.k == "i":
        return a
    if a.k == "b":
        return mk(z(a, "i"), "i")
    # recognise ToReal(int) exactly
    e = z3.simplify(a.e)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return mk(e.arg(0), "i")
    if z3.is_rational_value(e):
        return int(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    c = CTX()
    if c.provable(e >= 0):
        return mk(z3.ToInt(e), "i")
    return mk(trunc_e(e), "i")


def cast(v, k):
    if k == "O":
        return v
    kv = kind(v)
    if kv == k:
        return v
    if not isinstance(v, S):
        v = _num(v)
        if k == "r":
            return Fraction(v)
        if k == "i":
            return int(v)
        return bool(v)
    if k == "i" and kv == "r":
        return to_int(v)
    return mk(z(v, k), k)


def compare(op, a, b):
    if b is None or a is None:
        return op == "!="
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    if not isinstance(a, S) and not isinstance(b, S):
        a, b = _num(a), _num(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        if op == "==":
            return mk(z3.simplify(z(a, "b") == z(b, "b")), "b")
        if op == "!=":
            return mk(z3.simplify(z(a, "b") != z(b, "b")), "b")
    k = "r" if "r" in (ka, kb) else "i"
    x, y = z(a, k), z(b, k)
    if op in ("<=", ">=", "==") and x.eq(y):
        return True
    if op in ("<", ">", "!=") and x.eq(y):
        return False
    e = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    if (not isinstance(a, S) or not isinstance(b, S)) or k == "i":
        es = z3.simplify(e)
        if z3.is_true(es):
            return True
        if z3.is_false(es):
            return False
    return S(e, "b")


def logic(op, a, b):
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    if op in ("and", "or") and not isinstance(a, S) and kind(a) == "b":
        if op == "and":
            return b if a else False
        return True if a else b
    if op in ("and", "or") and not isinstance(b, S) and kind(b) == "b":
        if op == "and":
            return a if b else False
        return True if b else a
    if kind(a) != "b" or kind(b) != "b":
        raise Unsupported("bitwise operation on integers")
    x, y = z(a, "b"), z(b, "b")
    if op == "and":
        return mk(z3.And(x, y), "b")
    if op == "or":
        return mk(z3.Or(x, y), "b")
    return mk(z3.simplify(z3.Xor(x, y)), "b")


def lnot(a):
    if isinstance(a, S):
        if z3.is_not(z(a, "b")):
            return mk(z(a, "b").arg(0), "b")
        return mk(z3.Not(z(a, "b")), "b")
    return not a


def land(*xs):
    r = True
    for x in xs:
        r = logic("and", r, x)
    return r


def lor(*xs):
    r = False
    for x in xs:
        r = logic("or", r, x)
    return r


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """Scalar if-then-else (no forking)."""
    if not isinstance(c, S):
        return a if c else b
    if a is b:
        return a
    ka, kb = kind(a), kind(b)
    if "O" in (ka, kb):
        if hasattr(a, "__pv_ite__"):
            return a.__pv_ite__(c, b)
        raise Unsupported(f"merging values of type {type(a).__name__}/{type(b).__name__}")
    k = "b" if ka == kb == "b" else ("r" if "r" in (ka, kb) else "i")
    x, y = z(a, k), z(b, k)
    if x.eq(y):
        return a if ka == k else mk(x, k)
    return mk(z3.If(z(c, "b"), x, y), k)


def smin(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return min(_num(a), _num(b))
    c = compare("<=", a, b)
    if isinstance(c, S):
        if CTX().provable(c.e):
            return a
        if CTX().provable(z3.Not(c.e)):
            return b
    return ite(c, a, b)


def smax(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return max(_num(a), _num(b))
    c = compare(">=", a, b)
    if isinstance(c, S):
        if CTX().provable(c.e):
            return a
        if CTX().provable(z3.Not(c.e)):
            return b
    return ite(c, a, b)


# --------------------------------------------------------------------------
# sums over symbolic ranges

_IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
_RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
SUMI = z3.Function("SUMI", _IA, z3.IntSort(), z3.IntSort(), z3.IntSort())
SUMR = z3.Function("SUMR", _RA, z3.IntSort(), z3.IntSort(), z3.RealSort())
_counter = [0]


def uid():
    _counter[0] += 1
    return _counter[0]


def mentions(e, syms):
    """Does the term mention one of the (const or function) declarations?"""
    ids = {s.decl().get_id() if isinstance(s, z3.ExprRef) else s.get_id() for s in syms}
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().get_id() in ids:
                return True
            st.extend(t.children())
    return False


def big_sum(lo, hi, body, k=None):
    """sum_{i=lo}^{hi-1} body(i); body gives scalars."""
    i = z3.Int(f"i!s{uid()}")
    v = body(S(i, "i"))
    k = k or kind(v)
    if k == "b":
        k = "i"
    e = z3.simplify(z(v, k))
    lo_, hi_ = z(lo, "i"), z(hi, "i")
    if not mentions(e, [i]):
        c = mk(e, k)
        n = mk(z3.simplify(hi_ - lo_), "i")
        return c * n
    i0 = z3.Int("i!sum")
    lam = z3.Lambda([i0], z3.substitute(e, (i, i0)))
    f = SUMI if k == "i" else SUMR
    return S(f(lam, z3.simplify(lo_), z3.simplify(hi_)), k)


def apply_lam(lam, i):
    return z3.simplify(z3.Select(lam, i))


# --------------------------------------------------------------------------
# axiom schemas

SCHEMAS = {}  # decl name -> function(*args of application) -> list of facts


def schema(decl, fn):
    SCHEMAS[decl.name()] = fn


def _ax_sqrt(t):
    s = SQRT(t)
    return [s >= 0, z3.Implies(t >= 0, s * s == t), z3.Implies(t > 0, s > 0), z3.Implies(t == 0, s == 0)]


def _ax_divmod(a, n):
    q, r = DIV(a, n), MOD(a, n)
    return [
        z3.Implies(n > 0, z3.And(a == n * q + r, r >= 0, r < n)),
        z3.Implies(z3.And(n > 0, a >= 0, a < n), z3.And(q == 0, r == a)),
        z3.Implies(z3.And(n > 0, a >= n, a < 2 * n), z3.And(q == 1, r == a - n)),
        z3.Implies(z3.And(n > 0, a < 0, a >= -n), z3.And(q == -1, r == a + n)),
    ]


schema(SQRT, _ax_sqrt)
schema(DIV, _ax_divmod)
schema(MOD, _ax_divmod)


_APPS = {}


def _special_apps(e):
    """All applications of SUM or schema functions in e (cached per formula)."""
    got = _APPS.get(e.get_id())
    if got is not None:
        return got[1]
    out = []
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _APPS.get(i)
        if c is not None:
            out += c[1]
            continue
        if z3.is_app(t):
            n = t.decl().name()
            ch = t.children()
            if n in ("SUMI", "SUMR"):
                out.append((n, t))
                st.extend(ch[1:])
            else:
                # schemas of fresh symbols ("name!uid") are registered later
                if n in SCHEMAS or ("!" in n and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    out.append((n, t))
                st.extend(ch)
    uniq, ids = [], set()
    for n, t in out:
        if t.get_id() not in ids:
            ids.add(t.get_id())
            uniq.append((n, t))
    _APPS[e.get_id()] = (e, uniq)
    return uniq


def collect_apps(exprs, wanted):
    """Applications (ground w.r.t. quantifiers) of the named functions."""
    out, seen = [], set()
    for e in exprs:
        for n, t in _special_apps(e):
            if n in wanted and t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
    return out


def expand(formulas, rounds=3, sum_rounds=2):
    """formulas + instances of axiom schemas; then sums abstracted to constants."""
    fs = list(formulas)
    done = set()
    keep = []
    for _ in range(rounds):
        new = []
        for t in collect_apps(fs, SCHEMAS):
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            keep.append(t)
            new += SCHEMAS[t.decl().name()](*t.children())
        if not new:
            break
        fs += new
    sums_done = set()
    for _ in range(sum_rounds):
        apps = collect_apps(fs, ("SUMI", "SUMR"))
        if len(apps) > MAX_SUM_APPS[0]:
            break
        new = _sum_axioms(apps, sums_done)
        if not new:
            break
        fs += new
        more = []
        for t in collect_apps(fs, SCHEMAS):
            if t.get_id() not in done:
                done.add(t.get_id())
                keep.append(t)
                more += SCHEMAS[t.decl().name()](*t.children())
        fs += more
    # abstract sums
    apps = collect_apps(fs, ("SUMI", "SUMR"))
    if apps:
        subs = []
        for t in apps:
            c = z3.Const(f"sum!{ckey(t)}", t.sort())
            subs.append((t, c))
        fs = [z3.substitute(f, *subs) for f in fs]
        # sums nested in arguments of other sums' bounds etc. are covered because all apps were listed
    return fs


def interval(e, depth=0):
    """Syntactic bounds (lo, hi) of a term, None for unknown."""
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f, f
    if depth > 12 or not z3.is_app(e):
        return None, None
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        a, b = interval(ch[1], depth + 1), interval(ch[2], depth + 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if k == z3.Z3_OP_ADD:
        bs = [interval(c, depth + 1) for c in ch]
        return (None if any(b[0] is None for b in bs) else sum(b[0] for b in bs),
                None if any(b[1] is None for b in bs) else sum(b[1] for b in bs))
    if k == z3.Z3_OP_MUL and len(ch) == 2 and (z3.is_int_value(ch[0]) or z3.is_rational_value(ch[0])):
        c = interval(ch[0])[0]
        b = interval(ch[1], depth + 1)
        lo, hi = (b if c >= 0 else (b[1], b[0]))
        return (None if lo is None else lo * c, None if hi is None else hi * c)
    if e.decl().name() in ("SUMI", "SUMR"):
        f = ch[0]
        if z3.is_quantifier(f):
            b = interval(f.body(), depth + 1)
            return (0 if b[0] is not None and b[0] >= 0 else None, 0 if b[1] is not None and b[1] <= 0 else None)
    if e.decl().name() == "SQRT":
        return 0, None
    return None, None


SUM_MODE = ["mono"]

_CKEY = {}
_CINT = {}
_AC = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


def ckey(e):
    """Structural key of a term up to the order of commutative operands
    (z3's simplifier orders them by creation, which differs between instances)."""
    got = _CKEY.get(e.get_id())
    if got is not None:
        return got[1]
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        i = t.get_id()
        if i in _CKEY:
            continue
        if z3.is_var(t):
            k = ("v", z3.get_var_index(t), t.sort().name())
        elif z3.is_quantifier(t):
            b = t.body()
            if not done:
                stack += [(t, True), (b, False)]
                continue
            k = ("q", t.is_lambda(), t.is_forall(), tuple(t.var_sort(j).name() for j in range(t.num_vars())), _CKEY[b.get_id()][1])
        else:
            ch = t.children()
            if not done and ch:
                stack.append((t, True))
                stack += [(c, False) for c in ch]
                continue
            d = t.decl()
            ks = [_CKEY[c.get_id()][1] for c in ch]
            if d.kind() in _AC:
                ks.sort()
            nm = t.sexpr() if not ch else d.name()
            k = ("a", nm, d.kind(), t.sort().name(), tuple(ks))
        _CKEY[i] = (t, _CINT.setdefault(k, len(_CINT)))
    return _CKEY[e.get_id()][1]


def same_fun(f, g):
    return f.eq(g) or ckey(f) == ckey(g)

MAX_SUM_APPS = [200]


def _sum_axioms(apps, done):
    new = []
    keyed = {}
    for t in apps:
        keyed.setdefault(t.decl().name(), []).append(t)
    full = SUM_MODE[0] == "full"

    def sk(*ts):
        return z3.Int("w!" + "_".join(str(t.get_id()) for t in ts))

    def once(tag, *ts):
        key = (tag,) + tuple(t.get_id() for t in ts)
        if key in done:
            return False
        done.add(key)
        return True

    for name, ts in keyed.items():
        for t in ts:
            f, lo, hi = t.children()
            lb, ub = interval(f.body()) if z3.is_quantifier(f) else (None, None)
            if once("u", t):
                new.append(z3.Implies(hi <= lo, t == 0))
                if lb is not None:
                    new.append(z3.Implies(lo <= hi, t >= (0 if lb == 0 else (hi - lo) * lb)))
                if ub is not None:
                    new.append(z3.Implies(lo <= hi, t <= (hi - lo) * ub))
                if lb is None or full:
                    w = sk(t)
                    new.append(z3.Or(t >= 0, z3.And(lo <= w, w < hi, apply_lam(f, w) < 0)))
                if full:
                    w2 = z3.Int(f"w0!{t.get_id()}")
                    new.append(z3.Or(t == 0, z3.And(lo <= w2, w2 < hi, apply_lam(f, w2) != 0)))
        for a in range(len(ts)):
            for b in range(a + 1, len(ts)):
                s, t = ts[a], ts[b]
                f, lo, hi = s.children()
                g, lo2, hi2 = t.children()
                if same_fun(f, g):
                    if not once("m", s, t):
                        continue
                    lb, ub = interval(f.body()) if z3.is_quantifier(f) else (None, None)
                    for (u, hu, v, hv) in ((s, hi, t, hi2), (t, hi2, s, hi)):
                        same = z3.And(lo == lo2, lo <= hu, hu < hv)
                        step = apply_lam(f, hu)
                        new.append(z3.Implies(z3.And(lo == lo2, lo <= hu, hv == hu + 1), v == u + step))
                        if lb is not None and lb >= 0:
                            new.append(z3.Implies(same, v >= u + step))
                        elif full:
                            w4 = z3.Int(f"wm!{u.get_id()}_{v.get_id()}")
                            new.append(z3.Implies(same, z3.Or(v >= u + step, z3.And(hu < w4, w4 < hv, apply_lam(f, w4) < 0))))
                    new.append(z3.Implies(z3.And(lo == lo2, hi == hi2), s == t))
                elif SUM_MODE[0] in ("full", "cong") and once("p", s, t):
                    w = sk(s, t)
                    new.append(z3.Or(s == t, lo != lo2, hi != hi2,
                                     z3.And(lo <= w, w < hi, apply_lam(f, w) != apply_lam(g, w))))
        if full and len(ts) <= 6:
            for a in range(len(ts)):
                for b in range(a + 1, len(ts)):
                    for c in range(len(ts)):
                        if c in (a, b):
                            continue
                        s, t, r = ts[a], ts[b], ts[c]
                        f, lo, hi = s.children()
                        g, lo2, hi2 = t.children()
                        h, lo3, hi3 = r.children()
                        if not (lo.eq(lo2) and lo.eq(lo3) and hi.eq(hi2) and hi.eq(hi3)):
                            continue
                        if not once("t", s, t, r):
                            continue
                        w = sk(s, t, r)
                        new.append(z3.Or(s + t == r, z3.And(lo <= w, w < hi,
                                         apply_lam(f, w) + apply_lam(g, w) != apply_lam(h, w))))
    return new


# --------------------------------------------------------------------------
# paths


class Ctx:
    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.facts = []  # z3 facts of this path
        self.frames = []  # inner exploration frames
        self.loopvars = []  # enclosing symbolic loop indices (z3 Int consts)
        self.journals = []  # stacks of write journals of symbolic loops
        self.depth = 0  # nesting of symbolic loops
        self.opts = opts
        self._solver = None
        self._nsolver = 0
        self.names = {}
        self.ghost = {}
        self.notes = []
        self.forced = []

    # -- solver for path feasibility (incremental)
    def _check(self, *extra, timeout=None):
        t0 = time.time()
        if self._solver is None or self._nsolver > len(self.facts):
            self._solver = z3.Solver()
            self._nsolver = 0
        s = self._solver
        while self._nsolver < len(self.facts):
            s.add(self.facts[self._nsolver])
            self._nsolver += 1
        s.set("timeout", timeout or self.opts.get("feas_timeout", 1000))
        r = s.check(*extra)
        STATS.queries += 1
        STATS.solver_time += time.time() - t0
        return r

    def assume(self, c):
        c = z(c, "b")
        if z3.is_true(c):
            return
        self.facts.append(c)

    def provable(self, c, timeout=400):
        c = z(c, "b") if not isinstance(c, z3.ExprRef) else c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.facts))
        cache = self.names.setdefault("prov", {})
        if key in cache and cache[key][0].eq(c) and cache[key][2] == (self.facts[-1].get_id() if self.facts else 0):
            return cache[key][1]
        r = self._check(z3.Not(c), *self._axioms(c), timeout=timeout) == z3.unsat
        cache[key] = (c, r, self.facts[-1].get_id() if self.facts else 0)
        return r

    def _axioms(self, c):
        """Axiom instances for the special functions in c."""
        if not has_special(c):
            return []
        return [a for a in expand([c], rounds=1)[1:] if not collect_apps([a], ("SUMI", "SUMR")) and not z3.is_quantifier(a)]

    def known_quotient(self, a, n):
        """Small integer q with a - q*n in [0,n) on this path, if provable."""
        for q in (0, 1, -1):
            if self.provable(z3.And(a >= q * n, a < (q + 1) * n)):
                return q
        return None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1] if self.frames else self
        if self.forced:
            v = self.forced.pop(0)
            self.facts.append(c if v else z3.Not(c))
            if self.frames:
                fr.conds.append(c if v else z3.Not(c))
            return bool(v)
        if len(fr.taken) < len(fr.prefix):
            v = fr.prefix[len(fr.taken)]
        else:
            ax = self._axioms(c)
            ft = self._check(c, *ax) != z3.unsat
            ff = self._check(z3.Not(c), *ax) != z3.unsat
            if ft and ff:
                fr.alts.append(fr.taken + [0])
                v = 1
            elif ft:
                v = 1
            elif ff:
                v = 0
            else:
                raise PathEnd("infeasible")
        fr.taken.append(v)
        lit = c if v else z3.Not(c)
        self.facts.append(lit)
        if fr is not self:
            fr.conds.append(lit)
        return bool(v)

    def choose(self, n):
        """Multiway branch without a condition (the caller adds the facts)."""
        fr = self.frames[-1] if self.frames else self
        if self.forced:
            return self.forced.pop(0)
        if len(fr.taken) < len(fr.prefix):
            v = fr.prefix[len(fr.taken)]
        else:
            v = 0
            for i in range(1, n):
                fr.alts.append(fr.taken + [i])
        fr.taken.append(v)
        return v

    def fresh(self, name, k):
        """Unknown value; a function of the enclosing loop indices."""
        sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
        nm = f"{name}!{self._uname()}"
        if self.loopvars:
            f = z3.Function(nm, *[z3.IntSort()] * len(self.loopvars), sort)
            return S(f(*self.loopvars), k)
        return S(z3.Const(nm, sort), k)

    def fresh_fun(self, name, nargs, k, argsorts=None):
        sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
        nm = f"{name}!{self._uname()}"
        lv = list(self.loopvars)
        asorts = argsorts or [z3.IntSort()] * nargs
        if not lv and not asorts:
            c = z3.Const(nm, sort)
            return lambda *a: S(c, k), c.decl()
        f = z3.Function(nm, *([z3.IntSort()] * len(lv) + asorts), sort)

        def call(*a):
            args = []
            for x, so in zip(a, asorts):
                args.append(z(x, "i" if so == z3.IntSort() else ("r" if so == z3.RealSort() else "b")))
            return S(f(*lv, *args), k)

        return call, f

    def _uname(self):
        return uid()

    # -- pure evaluation of all inner paths
    def inner(self, prefix):
        return InnerFrame(self, prefix)

    def merge_eval(self, fn):
        """Evaluate fn on all its paths; merge scalar results."""
        res = explore_inner(self, fn)
        exc = [(c, v) for c, v, e in res if e is not None]
        for (c, v, e) in res:
            if e is not None:
                if len(res) == 1:
                    raise e
                if self.decide(c):
                    raise e
        ok = [(c, v) for c, v, e in res if e is None]
        if not ok:
            raise PathEnd("no normal path")
        return merge_values(ok)


def has_special(e):
    return bool(collect_apps([e], SCHEMAS))


def conj(cs):
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


_HERE = __file__.rsplit("/", 1)[0]


def check_engine_fault(e):
    """An exception that no engine line raised on purpose is a fault of the engine,
    not of the verified code: the unit is then outside its reach."""
    if isinstance(e, (Unsupported, PathEnd)):
        return
    import linecache

    if isinstance(e, (TypeError, AttributeError, NameError, NotImplementedError, RecursionError)):
        # usually a gap of the engine; a real one is for the evaluation layer
        raise Unsupported(f"{type(e).__name__}: {e}") from e
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return
    fn = tb.tb_frame.f_code.co_filename
    if "/site-packages/z3/" in fn or (fn.startswith(_HERE) and "raise" not in linecache.getline(fn, tb.tb_lineno)):
        raise Unsupported(f"engine fault: {type(e).__name__}: {e} at {fn.rsplit('/', 1)[-1]}:{tb.tb_lineno}") from e


class InnerFrame:
    def __init__(self, ctx, prefix):
        self.ctx = ctx
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.conds = []

    def __enter__(self):
        self.nf = len(self.ctx.facts)
        self.ctx.frames.append(self)
        self._forced, self.ctx.forced = self.ctx.forced, []
        return self

    def __exit__(self, *exc):
        assert self.ctx.frames.pop() is self
        self.extra = self.ctx.facts[self.nf:]
        del self.ctx.facts[self.nf:]
        self.ctx._solver = None
        self.ctx.forced = self._forced
        return False


def explore_inner(ctx, fn):
    work = [[]]
    out = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > ctx.opts.get("max_inner", 256):
            raise Unsupported("too many inner paths")
        err = None
        val = None
        with ctx.inner(prefix) as fr:
            try:
                val = fn()
            except PathEnd:
                work += fr.alts
                continue
            except Exception as e:  # exception of the verified code
                check_engine_fault(e)
                err = e
        work += fr.alts
        out.append((conj(fr.conds), val, err))
    return out


def merge_values(pairs):
    """[(cond, value)] with exclusive, exhaustive conditions -> one value."""
    vals = [v for _, v in pairs]
    if len(vals) == 1:
        return vals[0]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    if all(isinstance(v, list) and len(v) == len(v0) for v in vals):
        return type(v0)(merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    if all(isinstance(v, dict) and v.keys() == v0.keys() for v in vals):
        return {kk: merge_values([(c, v[kk]) for c, v in pairs]) for kk in v0}
    if all(is_scalar(v) for v in vals):
        r = vals[-1]
        for c, v in reversed(pairs[:-1]):
            r = ite(S(c, "b"), v, r)
        return r
    if all(isinstance(v, str) for v in vals) and len(set(vals)) == 1:
        return v0
    if hasattr(v0, "__pv_merge__"):
        return v0.__pv_merge__(pairs)
    for v in vals:
        if hasattr(v, "__pv_merge__"):
            return v.__pv_merge__(pairs)
    if all(v is None for v in vals):
        return None
    raise Unsupported(f"cannot merge values {[type(v).__name__ for v in vals]}")


def subst_value(v, pairs):
    """Substitute z3 constants in a value."""
    if isinstance(v, S):
        return mk(z3.substitute(v.e, *pairs), v.k)
    if is_num(v) or v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, tuple):  # namedtuple
        return type(v)(*[subst_value(x, pairs) for x in v])
    if isinstance(v, list):
        return type(v)(subst_value(x, pairs) for x in v)
    if isinstance(v, dict):
        return type(v)({k: subst_value(x, pairs) for k, x in v.items()})
    if hasattr(v, "__pv_subst__"):
        return v.__pv_subst__(pairs)
    return v


def value_mentions(v, syms):
    if isinstance(v, S):
        return mentions(v.e, syms)
    if isinstance(v, (tuple, list)):
        return any(value_mentions(x, syms) for x in v)
    if isinstance(v, dict):
        return any(value_mentions(x, syms) for x in v.values())
    if hasattr(v, "__pv_mentions__"):
        return v.__pv_mentions__(syms)
    return False


_CTX = [None]


def CTX():
    c = _CTX[0]
    if c is None:
        raise Unsupported("symbolic value used outside an exploration")
    return c


class Outcome:
    def __init__(self, kind, value, ctx):
        self.kind = kind  # 'return' | 'raise'
        self.value = value
        self.ctx = ctx


def explore(fn, post, max_paths=400, time_limit=None, **opts):
    """Run fn on all paths; call post(outcome) at the end of each one."""
    work = [[]]
    n = 0
    t0 = time.time()
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise Unsupported(f"more than {max_paths} paths")
        if time_limit and time.time() - t0 > time_limit:
            raise Unsupported("time limit of the exploration")
        ctx = Ctx(prefix, opts)
        old, _CTX[0] = _CTX[0], ctx
        try:
            try:
                try:
                    val = fn()
                    out = Outcome("return", val, ctx)
                except Exception as e:
                    check_engine_fault(e)
                    out = Outcome("raise", e, ctx)
                post(out)
            except PathEnd:
                pass
        finally:
            _CTX[0] = old
        work += ctx.alts
    return n


# --------------------------------------------------------------------------
# obligations


class Obligation(dict):
    pass


def solve(formulas, timeout):
    """('unsat'|'sat'|'unknown', model, backend)"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    for f in formulas:
        s.add(f)
    r = s.check()
    STATS.queries += 1
    STATS.solver_time += time.time() - t0
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        return "sat", s.model(), "z3"
    t0 = time.time()
    # second strategy: nonlinear real arithmetic
    try:
        g = z3.Goal()
        g.add(*formulas)
        t = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt"), int(timeout))
        s2 = t.solver()
        s2.add(*formulas)
        r = s2.check()
        STATS.queries += 1
        STATS.solver_time += time.time() - t0
        if r == z3.unsat:
            return "unsat", None, "z3(tactic)"
        if r == z3.sat:
            return "sat", s2.model(), "z3(tactic)"
    except z3.Z3Exception:
        pass
    r = cvc5_check(formulas, timeout)
    if r == "unsat":
        return "unsat", None, "cvc5"
    return "unknown", None, "z3+cvc5"


def solve_quick(formulas, timeout):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*formulas)
    r = s.check()
    STATS.queries += 1
    STATS.solver_time += time.time() - t0
    if r == z3.unsat:
        return "unsat", None, "z3"
    return ("sat", s.model(), "z3") if r == z3.sat else ("unknown", None, "z3")


def cvc5_check(formulas, timeout):
    import subprocess
    import tempfile

    t0 = time.time()
    s = z3.Solver()
    s.add(*formulas)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
        f.write(txt)
        f.flush()
        try:
            p = subprocess.run(["cvc5", "--quiet", f"--tlimit={int(timeout)}", f.name],
                               capture_output=True, text=True, timeout=timeout / 1000 + 5)
            out = p.stdout.strip().splitlines()
        except (subprocess.TimeoutExpired, FileNotFoundError):
            out = []
    STATS.queries += 1
    STATS.solver_time += time.time() - t0
    return out[0] if out else "unknown"


INEXACT = {"SUMI", "SUMR", "SIN", "COS", "TAN", "EXP", "LOG", "ATAN2", "ATAN", "PI"}


def exact_theory(formulas):
    """A model is a counterexample only if every symbol in it is fully specified."""
    seen = set()
    stack = list(formulas)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            n = t.decl().name()
            if n in INEXACT or n.startswith(("stub!", "wr!", "any!", "max!", "min!")):
                return False
            stack.extend(t.children())
    return True


def prove(name, goal, hyps=(), timeout=20000, trust_model=True, model_info=None, sum_rounds=2, sums="mono", isolated=False):
    """Discharge facts(path) & hyps => goal."""
    ctx = CTX()
    SUM_MODE[0] = sums
    t0 = time.time()
    if goal is True or (isinstance(goal, S) and const_value(goal) is True):
        ob = Obligation(name=name, status="proved", backend="evaluation", time=0.0)
        STATS.obligations.append(ob)
        return True
    g = z(goal, "b") if not isinstance(goal, z3.ExprRef) else goal
    fs = ([] if isolated else list(ctx.facts)) + [z(h, "b") if not isinstance(h, z3.ExprRef) else h for h in hyps] + [z3.Not(g)]
    from . import ring
    be = ring.try_ring(g, fs[:-1], timeout)
    if be:
        STATS.obligations.append(Obligation(name=name, status="proved", backend=be, time=round(time.time() - t0, 3)))
        return True
    full = expand(fs, sum_rounds=sum_rounds)
    nl = ring.nonlinear(g)
    if nl:
        r, model, be = solve_quick(full, 2500)
        if r == "unknown":
            be = ring.try_nra(g, fs[:-1], timeout)
            if be:
                r = "unsat"
            else:
                r, model, be = solve(full, timeout)
    else:
        r, model, be = solve(full, timeout)
    status = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]
    if status == "refuted" and not trust_model:
        status, be = "unknown", be + " (imprecise path)"
    elif status == "refuted" and not exact_theory(fs):
        status, be = "failed", be + " (model of an abstraction)"
    ob = Obligation(name=name, status=status, backend=be, time=round(time.time() - t0, 3))
    if model is not None:
        ob["model"] = str(model)[:3000]
        if model_info:
            try:
                ob["inputs"] = model_info(model)
            except Exception as e:  # noqa
                ob["inputs_error"] = repr(e)
    STATS.obligations.append(ob)
    return status == "proved"


def reachable(name):
    """Vacuity guard: the current path must be satisfiable."""
    ctx = CTX()
    r, model, be = solve(expand(list(ctx.facts)), 10000)
    return r
