"""The numpy functions the verified code uses, over symbolic arrays.

Contract of each function: its numpy documentation, with floating point treated as
exact real arithmetic.
"""
import itertools
import types
from fractions import Fraction

import numpy as _np
import z3

from . import core
from .core import (CTX, S, Unsupported, big_sum, cast, compare, concrete_int, floor as sfloor, is_scalar, ite, kind,
                   kind_of_dtype, land, lnot, logic, lor, mk, smax, smin, sqrt as ssqrt, z, SCHEMAS, simp)
from .arrays import (read_cells, SArray, SMasked, SSeq, asarr, bcast_reader, bound_var, broadcast_shapes, broadcast_to, defined,
                     elementwise, full as mkfull, input_array, is_concrete_shape, join_kind, make, norm_dim, prod,
                     reduce_any, reduce_ext, reduce_sum, reshape as mkreshape, same_dim, truth, abs_, slice_bounds, Buffer)

R = z3.RealSort()
SIN = z3.Function("SIN", R, R)
COS = z3.Function("COS", R, R)
SCHEMAS["SIN"] = SCHEMAS["COS"] = lambda t: [SIN(t) * SIN(t) + COS(t) * COS(t) == 1]
SCHEMAS["PI"] = lambda: [core.PI > z3.RealVal("3.14159"), core.PI < z3.RealVal("3.1416")]


class _Names(types.SimpleNamespace):
    def __getattr__(self, name):
        raise Unsupported(f"numpy.{name}")


np = _Names()


def reg(*names):
    def d(f):
        for n in names:
            setattr(np, n, f)
        return f

    return d


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArray, _np.ndarray))


class ndarray(metaclass=_NdMeta):
    @staticmethod
    def flatten(a):
        return asarr(a).flatten()

    @staticmethod
    def reshape(a, *sh):
        return asarr(a).reshape(*sh)


np.ndarray = ndarray
np.newaxis = None
np.pi = S(core.PI, "r")
np.float64 = np.float_ = np.float32 = float
np.int64 = np.int32 = np.int_ = int
np.bool_ = bool
np.generic = _np.generic
np.number = _np.number
np.integer = _np.integer
np.floating = _np.floating
np.nan = float("nan")
np.inf = float("inf")
np.uint64 = int


def tup(shape):
    if is_scalar(shape):
        return (shape,)
    if isinstance(shape, SArray):
        return tuple(shape)
    return tuple(shape)


@reg("zeros")
def zeros(shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return mkfull(tup(shape), {"r": Fraction(0), "i": 0, "b": False, "O": 0}[k], k)


@reg("ones")
def ones(shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    return mkfull(tup(shape), {"r": Fraction(1), "i": 1, "b": True, "O": 1}[k], k)


@reg("full")
def full(shape, value, dtype=None):
    k = kind_of_dtype(dtype) if dtype is not None else kind(value)
    if isinstance(value, float) and value != value:
        return empty(shape)
    return mkfull(tup(shape), cast(value, k), k)


@reg("empty")
def empty(shape, dtype=float, **kw):
    k = kind_of_dtype(dtype)
    c = CTX()
    shape = tuple(norm_dim(d) for d in tup(shape))
    f, _ = c.fresh_fun("uninit", len(shape), k)
    return make(shape, k, lambda idx: f(*idx))


@reg("result_type")
def result_type(*a):
    ks = [asarr(x).k if isinstance(x, (SArray, S, list, tuple, int, float)) and not isinstance(x, type) else kind_of_dtype(x) for x in a]
    k = "r" if "r" in ks else ("i" if "i" in ks else "b")
    return {"r": float, "i": int, "b": bool}[k]


@reg("zeros_like")
def zeros_like(a, dtype=None):
    a = asarr(a)
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


@reg("ones_like")
def ones_like(a, dtype=None):
    a = asarr(a)
    return ones(a.shape, dtype if dtype is not None else a.dtype)


@reg("empty_like")
def empty_like(a, dtype=None):
    a = asarr(a)
    return empty(a.shape, dtype if dtype is not None else a.dtype)


@reg("full_like")
def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(a.shape, v, dtype if dtype is not None else a.dtype)


@reg("array")
def array(v, dtype=None, copy=True, ndmin=0):
    a = asarr(v, kind_of_dtype(dtype) if dtype is not None else None)
    if isinstance(v, SArray):
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return a


@reg("asarray", "ascontiguousarray", "asanyarray")
def asarray(v, dtype=None):
    return asarr(v, kind_of_dtype(dtype) if dtype is not None else None)


@reg("atleast_1d")
def atleast_1d(v):
    a = asarr(v)
    return a if a.ndim else mkreshape(a, (1,))


@reg("copy")
def copy(v):
    return asarr(v).copy()


@reg("ndim")
def ndim(v):
    return asarr(v).ndim


@reg("shape")
def shape(v):
    return asarr(v).shape


@reg("size")
def size(v):
    return asarr(v).size


@reg("isscalar")
def isscalar(v):
    return is_scalar(v)


@reg("arange")
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if isinstance(stop, Fraction) and stop.denominator == 1:
        stop = Fraction(stop)
    k = join_kind([kind(start), kind(stop), kind(step)])
    st = concrete_int(step)
    if k == "i" and st is not None and st > 0:
        n = stop - start
        if st != 1:
            n = (n + (st - 1)) // st
        n = norm_dim(n)
        if isinstance(n, int):
            n = max(n, 0)
        else:
            n = norm_dim(simp(smax(n, 0)))
        if dtype is not None and kind_of_dtype(dtype) == "r":
            k = "r"
        a = make((n,), k, lambda idx: start + idx[0] * st)
        a.affine = (start, st)
        return a
    if k == "r":
        n = core.arith("/", core.arith("-", stop, start), step)
        c = core.const_value(n) if isinstance(n, S) else n
        if c is not None:
            import math

            n = max(0, math.ceil(c))
        else:
            n = norm_dim(-sfloor(-n, True))
        return make((n,), "r", lambda idx: core.arith("+", start, core.arith("*", idx[0], step)))
    if k == "i":
        n = len(range(int(start), int(stop), int(step)))
        return make((n,), "i", lambda idx: start + idx[0] * step)
    raise Unsupported("arange")


@reg("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    start = start.at(()) if isinstance(start, SArray) and not start.ndim else start
    stop = stop.at(()) if isinstance(stop, SArray) and not stop.ndim else stop
    if not is_scalar(start) or not is_scalar(stop):
        raise Unsupported("linspace of arrays")
    num = num if isinstance(num, S) else int(num)
    div = num - 1 if endpoint else num
    if isinstance(div, int) and div == 0:
        return make((num,), "r", lambda idx: start)
    if isinstance(div, S):
        if not CTX().provable(z(compare("!=", div, 0), "b")):
            if CTX().decide(z(compare("==", div, 0), "b")):
                return make((num,), "r", lambda idx: start)
    step = core.arith("/", core.arith("-", stop, start), div)
    a = make((num,), "r", lambda idx: core.arith("+", start, core.arith("*", idx[0], step)))
    return (a, step) if retstep else a


def _concat(arrs, axis):
    arrs = [asarr(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    for a in arrs[1:]:
        for d in range(nd):
            if d != axis and not same_dim(a.shape[d], arrs[0].shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = join_kind([a.k for a in arrs])
    rds = [a.reader() for a in arrs]
    offs = [0]
    for a in arrs:
        offs.append(offs[-1] + a.shape[axis])
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]

    def fn(idx):
        i = idx[axis]
        res = None
        for j in reversed(range(len(arrs))):
            if isinstance(arrs[j].shape[axis], int) and arrs[j].shape[axis] == 0:
                continue
            sub = list(idx)
            sub[axis] = i - offs[j]
            if isinstance(i, int) and isinstance(offs[j], int):
                if i < offs[j]:
                    continue
                n = arrs[j].shape[axis]
                if isinstance(n, int) and i >= offs[j] + n:
                    continue
                v = rds[j](tuple(sub))
                if res is None or (isinstance(n, int)):
                    res = v
                    continue
            else:
                v = rds[j](tuple(sub))
            if res is None:
                res = v
            else:
                res = ite(compare("<", i, offs[j + 1]), v, res)
        return res

    return make(sh, k, fn)


@reg("concatenate")
def concatenate(arrs, axis=0):
    return _concat(list(arrs), axis)


@reg("append")
def append(a, b, axis=None):
    if axis is None:
        return _concat([asarr(a).ravel(), asarr(b).ravel()], 0)
    return _concat([a, b], axis)


@reg("vstack")
def vstack(arrs):
    return _concat([a if asarr(a).ndim > 1 else asarr(a)[None] for a in map(asarr, arrs)], 0)


@reg("hstack")
def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@reg("column_stack")
def column_stack(arrs):
    out = []
    for a in arrs:
        a = asarr(a)
        out.append(a[:, None] if a.ndim == 1 else a)
    return _concat(out, 1)


@reg("stack")
def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    axis = axis % (arrs[0].ndim + 1)
    key = [slice(None)] * arrs[0].ndim
    key.insert(axis, None)
    return _concat([a[tuple(key)] for a in arrs], axis)


@reg("roll")
def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            return mkreshape(roll(a.flatten(), shift, 0), a.shape).copy()
        axis = 0
    if isinstance(axis, tuple):
        for s_, x in zip(shift, axis):
            a = roll(a, s_, x)
        return a
    if axis < -a.ndim or axis >= a.ndim:
        raise ValueError("axis out of bounds")
    axis = axis % a.ndim
    n = a.shape[axis]
    rd = a.reader()

    def fn(idx):
        sub = list(idx)
        sub[axis] = (idx[axis] - shift) % n
        return rd(tuple(sub))

    if isinstance(n, S) and isinstance(shift, int) and CTX().provable(z(compare(">=", n, abs(shift)), "b")):
        def fn(idx):  # noqa: F811
            sub = list(idx)
            j = idx[axis] - shift
            if shift > 0:
                sub[axis] = ite(compare("<", j, 0), j + n, j)
            elif shift < 0:
                sub[axis] = ite(compare(">=", j, n), j - n, j)
            return rd(tuple(sub))

    return make(a.shape, a.k, fn)


@reg("flip")
def flip(a, axis=None):
    a = asarr(a)
    axes = range(a.ndim) if axis is None else [axis % a.ndim]
    key = [slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim)]
    return a[tuple(key)]


@reg("transpose")
def transpose(a, axes=None):
    a = asarr(a)
    return a.transpose(*axes) if axes else a.transpose()


@reg("reshape")
def reshape(a, shape, order="C"):
    return mkreshape(asarr(a), tup(shape))


@reg("ravel")
def ravel(a):
    return asarr(a).ravel()


@reg("squeeze")
def squeeze(a):
    return asarr(a).squeeze()


@reg("broadcast_to")
def _bt(a, shape):
    return broadcast_to(a, tup(shape))


@reg("sum")
def sum_(a, axis=None, keepdims=False, dtype=None):
    if is_scalar(a):
        return a
    if isinstance(a, (list, tuple)) and axis == 0 and not all(is_scalar(x) for x in a):
        r = None
        for x in a:
            r = x if r is None else r + x
        return r
    return reduce_sum(a, axis, keepdims)


@reg("mean")
def mean(a, axis=None):
    a = asarr(a)
    return a.mean(axis)


@reg("any")
def any_(a, axis=None):
    if is_scalar(a):
        return truth(a)
    return reduce_any(a, axis)


@reg("all")
def all_(a, axis=None):
    if is_scalar(a):
        return truth(a)
    if isinstance(a, SMasked):
        return a.all()
    return asarr(a).all(axis)


@reg("amax", "max")
def amax(a, axis=None):
    if is_scalar(a):
        return a
    return reduce_ext(asarr(a), "max", axis)


@reg("amin", "min")
def amin(a, axis=None):
    if is_scalar(a):
        return a
    return reduce_ext(asarr(a), "min", axis)


@reg("argmin")
def argmin(a, axis=None):
    a = asarr(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("argmin with axis")
    n = concrete_int(a.shape[0])
    if n is None:
        raise Unsupported("argmin over symbolic length")
    best, bi = a.at((0,)), 0
    for i in range(1, n):
        v = a.at((i,))
        c = compare("<", v, best)
        best, bi = ite(c, v, best), ite(c, i, bi)
    return bi


@reg("argmax")
def argmax(a, axis=None):
    return argmin(-asarr(a), axis)


def ew1(fn):
    def f(a, out=None, where=None):
        if out is not None or where is not None:
            raise Unsupported("ufunc out=/where=")
        return elementwise(fn, a)

    return f


np.floor = ew1(lambda a: sfloor(a))
np.ceil = ew1(lambda a: -sfloor(-a) if isinstance(a, S) else -sfloor(-a))
np.sqrt = ew1(ssqrt)
np.abs = np.absolute = np.fabs = ew1(abs_)
np.square = ew1(lambda a: a * a)
np.negative = ew1(lambda a: -a)


def _trig(f):
    def g(a):
        c = core.const_value(a) if isinstance(a, S) else core._num(a)
        if c is not None and c == 0:
            return Fraction(0) if f is SIN else Fraction(1)
        return mk(f(z3.simplify(z(a, "r"))), "r")

    return g


np.sin = ew1(_trig(SIN))
np.cos = ew1(_trig(COS))
np.isfinite = ew1(lambda a: True)
np.isnan = ew1(lambda a: False)
np.isinf = ew1(lambda a: False)
np.logical_not = ew1(lambda a: lnot(truth(a)))
np.sign = ew1(lambda a: ite(compare(">", a, 0), 1, ite(compare("<", a, 0), -1, 0)))
np.rint = np.round = ew1(lambda a: _round(a))
np.real = lambda a: a


def _round(a):
    if not isinstance(a, S):
        return Fraction(round(core._num(a)))
    raise Unsupported("round")


def ew2(fn):
    def f(a, b, out=None, **kw):
        if kw:
            raise Unsupported("ufunc keyword")
        r = elementwise(fn, a, b)
        if out is not None:
            out[...] = r
            return out
        return r

    return f


def _ar(sym):
    return lambda a, b: core.arith(sym, a, b)


np.add = ew2(_ar("+"))
np.subtract = ew2(_ar("-"))
np.multiply = ew2(_ar("*"))
np.divide = np.true_divide = ew2(_ar("/"))
np.floor_divide = ew2(_ar("//"))
np.remainder = np.mod = ew2(_ar("%"))
np.power = ew2(core.power)
np.maximum = ew2(smax)


def _accumulate(op):
    def acc(a, axis=0):
        a = asarr(a)
        if a.ndim != 1 or not isinstance(a.shape[0], int):
            raise Unsupported("accumulate over a symbolic length")
        out = []
        for i in range(a.shape[0]):
            v = a.at((i,))
            out.append(v if not out else op(out[-1], v))
        return make(a.shape, a.k, lambda idx: read_cells(_cells(out), idx))

    return acc


def _cells(vals):
    c = _np.empty((len(vals),), dtype=object)
    for i, v in enumerate(vals):
        c[i] = v
    return c


np.maximum.accumulate = _accumulate(smax)


def sorted_values(a):
    """values of a short vector in order (a sorting network of min/max)"""
    a = asarr(a)
    n = concrete_int(a.shape[0]) if a.ndim == 1 else None
    if n is None or n > 6 or a.k == "O":
        raise Unsupported("sort")
    v = [a.at((i,)) for i in range(n)]
    for i in range(n):
        for j in range(n - 1 - i):
            v[j], v[j + 1] = smin(v[j], v[j + 1]), smax(v[j], v[j + 1])
    return v


@reg("sort")
def sort(a, axis=-1):
    v = sorted_values(a)
    return make((len(v),), asarr(a).k, lambda idx: read_cells(_cells(v), idx))


def _sort_in_place(self, *a, **k):
    v = sorted_values(self)
    for i, x in enumerate(v):
        self[i] = x


SArray.sort = _sort_in_place
np.minimum = ew2(smin)
np.logical_and = ew2(lambda a, b: land(truth(a), truth(b)))
np.logical_or = ew2(lambda a, b: lor(truth(a), truth(b)))
np.logical_xor = ew2(lambda a, b: logic("xor", truth(a), truth(b)))
np.equal = ew2(lambda a, b: compare("==", a, b))
np.not_equal = ew2(lambda a, b: compare("!=", a, b))
np.less = ew2(lambda a, b: compare("<", a, b))
np.greater = ew2(lambda a, b: compare(">", a, b))
np.less_equal = ew2(lambda a, b: compare("<=", a, b))
np.greater_equal = ew2(lambda a, b: compare(">=", a, b))
np.hypot = ew2(lambda a, b: ssqrt(a * a + b * b))


@reg("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8):
    return elementwise(lambda x, y: compare("<=", abs_(x - y), core.arith("+", atol, core.arith("*", rtol, abs_(y)))), a, b)


@reg("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8):
    return all_(isclose(a, b, rtol, atol))


@reg("array_equal")
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or not all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return all_(a == b)


@reg("clip")
def clip(a, lo, hi):
    def f(x, l, h):
        if l is not None:
            x = smax(x, l)
        if h is not None:
            x = smin(x, h)
        return x

    return elementwise(f, a, lo, hi)


@reg("where")
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    return elementwise(lambda c_, x, y: ite(truth(c_), x, y), c, a, b)


@reg("meshgrid")
def meshgrid(*xs, indexing="xy", sparse=False):
    xs = [atleast_1d(x) for x in xs]
    n = len(xs)
    dims = [x.shape[0] for x in xs]
    order = list(range(n))
    if indexing == "xy" and n > 1:
        order[0], order[1] = 1, 0
    sh = [dims[o] for o in order]
    out = []
    for i, x in enumerate(xs):
        pos = order.index(i)
        rd = x.reader()
        out.append(make(sh, x.k, lambda idx, rd=rd, pos=pos: rd((idx[pos],))))
    return out


@reg("outer")
def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a[:, None] * b[None, :]


@reg("dot")
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(a * b)
    raise Unsupported("dot")


@reg("diff")
def diff(a, axis=-1):
    a = asarr(a)
    axis = axis % a.ndim
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[axis], k2[axis] = slice(1, None), slice(None, -1)
    return a[tuple(k1)] - a[tuple(k2)]


@reg("gradient")
def gradient(a, *varargs, axis=None, edge_order=1):
    a = asarr(a)
    if varargs or edge_order != 1 or a.ndim != 1:
        raise Unsupported("gradient with arguments")
    n = a.shape[0]
    rd = a.reader()
    if isinstance(n, int):
        if n < 2:
            raise ValueError("Shape of array too small to calculate a numerical gradient")
    elif not CTX().provable(z(compare(">=", n, 2), "b")):
        if CTX().decide(z(compare("<", n, 2), "b")):
            raise ValueError("Shape of array too small to calculate a numerical gradient")

    def fn(idx):
        i = idx[0]
        inner = core.arith("/", rd((i + 1,)) - rd((i - 1,)), 2) if not isinstance(i, int) or (0 < i and (not isinstance(n, int) or i < n - 1)) else None
        lo = rd((1,)) - rd((0,))
        hi = rd((n - 1,)) - rd((n - 2,))
        c0, c1 = compare("==", i, 0), compare("==", i, n - 1)
        if c0 is True:
            return lo
        if c1 is True:
            return hi
        return ite(c0, lo, ite(c1, hi, inner))

    return make((n,), "r", fn)


@reg("cumsum")
def cumsum(a, axis=None, out=None, dtype=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    rd = a.reader()
    n = a.shape[0]
    if isinstance(n, int):
        acc, vals = 0, []
        for i in range(n):
            acc = core.arith("+", acc, rd((i,)))
            vals.append(acc)
        r = asarr(vals, a.k if a.k != "b" else "i")
    else:
        r = make((n,), a.k if a.k != "b" else "i", lambda idx: big_sum(0, idx[0] + 1, lambda j: rd((j,))))
    if out is not None:
        out[...] = r
        return out
    return r


@reg("fromiter")
def fromiter(it, dtype=float, count=-1):
    k = kind_of_dtype(dtype)
    if isinstance(it, SSeq):
        return asarr(it, k)
    return asarr(list(it), k)


@reg("array_split")
def array_split(a, n, axis=0):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("array_split of a matrix")
    c = concrete_int(n)
    N = a.shape[0]
    if c is None:
        for t in range(1, 6):  # the path condition may fix it
            if CTX().provable(compare("==", n, t)):
                c = t
                break
        else:
            raise Unsupported("array_split into a symbolic number of parts")
    if c <= 0:
        raise ValueError("number sections must be larger than 0.")
    q = N // c
    r = N % c
    out = []
    start = 0
    for i in range(c):
        ln = q + ite(compare("<", i, r), 1, 0)
        ln = norm_dim(simp(ln) if isinstance(ln, S) else ln)
        rd = a.reader()
        st = start
        p = make((ln,), a.k, lambda idx, st=st, rd=rd: rd((st + idx[0],)))
        if a.affine is not None and a.affine[1] == 1:
            p.affine = (a.affine[0] + st, 1)
        out.append(p)
        start = start + ln
    return out


@reg("repeat")
def repeat(a, n, axis=None):
    a = asarr(a)
    if a.ndim == 0:
        return make((n,), a.k, lambda idx: a.at(()))
    raise Unsupported("repeat")


@reg("tile")
def tile(a, reps):
    raise Unsupported("tile")


@reg("indices")
def indices(shape):
    return [make(tup(shape), "i", lambda idx, d=d: idx[d]) for d in range(len(tup(shape)))]


@reg("atleast_2d")
def atleast_2d(a):
    a = asarr(a)
    while a.ndim < 2:
        a = a[None]
    return a


@reg("moveaxis")
def moveaxis(a, s, d):
    a = asarr(a)
    order = [i for i in range(a.ndim) if i != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


@reg("swapaxes")
def swapaxes(a, i, j):
    a = asarr(a)
    order = list(range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return a.transpose(*order)


@reg("take")
def take(a, i, axis=None):
    raise Unsupported("take")


@reg("expand_dims")
def expand_dims(a, axis):
    a = asarr(a)
    key = [slice(None)] * a.ndim
    key.insert(axis % (a.ndim + 1), None)
    return a[tuple(key)]


class _Mgrid:
    def __getitem__(self, key):
        rs = []
        for s in key if isinstance(key, tuple) else (key,):
            if s.step is not None:
                raise Unsupported("mgrid step")
            rs.append((s.start or 0, s.stop - (s.start or 0)))
        sh = [norm_dim(n) for _, n in rs]
        return asarr([make(sh, "i", lambda idx, d=d, st=st: idx[d] + st) for d, (st, _) in enumerate(rs)])


np.mgrid = _Mgrid()


class _Linalg(types.SimpleNamespace):
    def __getattr__(self, n):
        raise Unsupported(f"numpy.linalg.{n}")


np.linalg = _Linalg()
np.linalg.LinAlgError = _np.linalg.LinAlgError


def _det(a):
    a = asarr(a)
    n = a.shape[-1]
    if n == 2:
        e = lambda i, j: a[(Ellipsis, i, j)]
        return e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
    if n == 3:
        e = lambda i, j: a[(Ellipsis, i, j)]
        return (e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1))
                - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0))
                + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0)))
    raise Unsupported("det")


def _inv(a):
    a = asarr(a)
    n = a.shape[-1]
    if not isinstance(n, int):
        raise Unsupported("inv of symbolic size")
    e = lambda i, j: a[(Ellipsis, i, j)]
    det = _det(a)
    if n == 2:
        rows = [[e(1, 1) / det, -(e(0, 1) / det)], [-(e(1, 0) / det), e(0, 0) / det]]
    elif n == 3:
        def cof(i, j):
            r = [x for x in range(3) if x != i]
            c = [x for x in range(3) if x != j]
            m = e(r[0], c[0]) * e(r[1], c[1]) - e(r[0], c[1]) * e(r[1], c[0])
            return m if (i + j) % 2 == 0 else -m

        rows = [[cof(j, i) / det for j in range(3)] for i in range(3)]
    else:
        raise Unsupported("inv")
    lead = a.shape[:-2]
    els = [[asarr(x).reader() for x in r] for r in rows]

    def fn(idx):
        i, j = concrete_int(idx[-2]), concrete_int(idx[-1])
        if i is not None and j is not None:
            return els[i][j](idx[:-2])
        r = None
        for p in range(n):
            for q in range(n):
                v = els[p][q](idx[:-2])
                r = v if r is None else ite(land(compare("==", idx[-2], p), compare("==", idx[-1], q)), v, r)
        return r

    return make(tuple(lead) + (n, n), "r", fn)


np.linalg.det = _det
np.linalg.inv = _inv
np.linalg.norm = lambda a, axis=None: elementwise(ssqrt, reduce_sum(asarr(a) * asarr(a), axis))
