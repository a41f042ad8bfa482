"""Loops, conditionals and builtins of the verified code over symbolic values.

A for loop over a symbolic range is replaced by a summary of all its iterations,
computed from one execution of the real loop body at an arbitrary index k:
  * a variable whose value after the body equals its value before it is unchanged,
  * v_out = v_in + delta(k)  gives  v = v0 + sum_{j<k} delta(j)   (induction on k),
  * v_out independent of v_in gives v = out(k-1),
  * array writes at an index of the form k+c are inverted; other writes get a
    'last writer' function with its defining axioms,
  * anything else is left unconstrained (sound) and marks the path imprecise.
Exits (break, return, raise) split into 'no iteration exits' and 'first exit at k*'.
"""
import builtins as _b
from fractions import Fraction

import numpy as _np
import z3

from . import core
from .core import (CTX, PathEnd, S, Unsupported, big_sum, compare, concrete_int, conj, explore_inner, is_num,
                   is_scalar, ite, kind, land, lnot, lor, mentions, merge_values, mk, simp, subst_value, uid,
                   value_mentions, z)
from .arrays import (BOUND, Buffer, Event, Journal, SArray, SMasked, SSeq, asarr, bound_var, is_concrete_shape, make,
                     norm_dim, read_cells, truth)


class _Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BREAK = _Sentinel("BREAK")
UNBOUND = _Sentinel("UNBOUND")


class Ret:
    def __init__(self, value):
        self.value = value


def is_ret(r):
    return isinstance(r, Ret)


class Poison:
    """Value of a loop-local variable that the summary does not know."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"use of loop variable {object.__getattribute__(self, '_n')} outside its iteration")

    __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = __index__ = _bad
    __float__ = __int__ = __neg__ = __abs__ = __pow__ = __mod__ = __rmod__ = __and__ = __or__ = __xor__ = _bad
    __hash__ = object.__hash__

    def __eq__(self, o):
        self._bad()

    def __getattr__(self, n):
        if n.startswith("__pv"):
            raise AttributeError(n)
        self._bad()


def getvars(*fs):
    out = []
    for f in fs:
        try:
            out.append(f())
        except NameError:
            out.append(UNBOUND)
    return tuple(out)


# --------------------------------------------------------------------------
# containers with tracked mutation


def _touch(obj):
    c = core._CTX[0]
    if c is not None and c.journals:
        for j in c.journals:
            if getattr(obj, "_serial", 0) < j.serial:
                if j.symbolic:
                    raise Unsupported("list or dict of the surrounding code changed in a symbolic loop")
                if id(obj) not in j.lists:
                    j.lists[id(obj)] = (obj, obj._state())


def _mkserial():
    from .arrays import _serial

    return next(_serial)


class PList(list):
    def __init__(self, *a):
        super().__init__(*a)
        self._serial = _mkserial()

    def _state(self):
        return list(self)

    def _restore(self, st):
        list.__setitem__(self, _b.slice(None), st)

    def __getitem__(self, i):
        if isinstance(i, S):
            c = concrete_int(i)
            if c is not None:
                return list.__getitem__(self, c)
            from .arrays import check_index

            j = check_index(i, len(self))
            vals = list(self)
            r = vals[-1]
            for t in _b.reversed(_b.range(_b.len(vals) - 1)):
                cond = compare("==", j, t)
                r = merge_values([(z(cond, "b"), vals[t]), (z3.Not(z(cond, "b")), r)]) if isinstance(cond, S) else (vals[t] if cond else r)
            return r
        r = list.__getitem__(self, i)
        return PList(r) if isinstance(i, _b.slice) else r

    def __setitem__(self, i, v):
        _touch(self)
        if isinstance(i, S) and concrete_int(i) is None:
            from .arrays import check_index

            j = check_index(i, len(self))
            for t in _b.range(_b.len(self)):
                cond = compare("==", j, t)
                old = list.__getitem__(self, t)
                if cond is True:
                    list.__setitem__(self, t, v)
                elif cond is not False:
                    list.__setitem__(self, t, merge_values([(cond.e, v), (z3.Not(cond.e), old)]))
            return
        list.__setitem__(self, i, v)

    def __add__(self, o):
        return PList(list.__add__(self, list(o)))

    def __mul__(self, n):
        if isinstance(n, S) and concrete_int(n) is None:
            if _b.len(self) != 1:
                raise Unsupported("list repeated a symbolic number of times")
            x = self[0]
            return SSeq(n, lambda i: x)
        return PList(list.__mul__(self, _b.int(n)))

    __rmul__ = __mul__


for _n in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__delitem__", "__iadd__"):
    def _mut(self, *a, _n=_n, **k):
        _touch(self)
        return getattr(list, _n)(self, *a, **k)

    setattr(PList, _n, _mut)


class PDict(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._serial = _mkserial()

    def _state(self):
        return dict(self)

    def _restore(self, st):
        dict.clear(self)
        dict.update(self, st)

    def copy(self):
        return PDict(self)


for _n in ("__setitem__", "__delitem__", "pop", "update", "setdefault", "clear", "popitem"):
    def _mutd(self, *a, _n=_n, **k):
        _touch(self)
        return getattr(dict, _n)(self, *a, **k)

    setattr(PDict, _n, _mutd)


def setattr_(obj, name, v):
    c = core._CTX[0]
    if c is not None:
        for j in c.journals:
            if obj.__dict__.get("_pv_serial", 0) < j.serial if hasattr(obj, "__dict__") else True:
                raise Unsupported("attribute store inside a symbolic loop or merged expression")
    _b.setattr(obj, name, v)


globals()["setattr"] = setattr_


# --------------------------------------------------------------------------
# conditionals


class _SideEffect(Exception):
    pass


def _pure(fn):
    """Evaluate fn on all inner paths and merge; None if that is not possible."""
    c = CTX()

    def run():
        j = Journal()
        c.journals.append(j)
        try:
            return fn()
        finally:
            assert c.journals.pop() is j
            if j.saved or j.lists:
                j.rollback()
                run.bad = True

    run.bad = False
    res = explore_inner(c, run)
    if run.bad:
        return None
    return res


def and_(*fs):
    v = fs[0]()
    for i, f in enumerate(fs[1:]):
        if isinstance(v, S) and v.k == "b":
            return _bool_chain(v, fs[1 + i:], True)
        if not _truthy(v):
            return v
        v = f()
    return v


def or_(*fs):
    v = fs[0]()
    for i, f in enumerate(fs[1:]):
        if isinstance(v, S) and v.k == "b":
            return _bool_chain(v, fs[1 + i:], False)
        if _truthy(v):
            return v
        v = f()
    return v


def _bool_chain(v, rest, is_and):
    c = CTX()
    cond = v.e if is_and else z3.Not(v.e)

    def inner():
        if not c.decide(cond):
            raise PathEnd("short circuit")
        return (and_ if is_and else or_)(*rest)

    try:
        res = _pure(inner)
    except Unsupported:
        res = None
    ok = res is not None and all(e is None and is_scalar(x) and kind(x) == "b" for _, x, e in res)
    if ok and res:
        r = merge_values([(cd, x) for cd, x, _ in res])
        return land(v, r) if is_and else lor(v, r)
    if res == []:
        return False if is_and else True
    # fork
    if c.decide(v.e) == is_and:
        return (and_ if is_and else or_)(*rest)
    return not is_and


def not_(v):
    if isinstance(v, S):
        return lnot(truth(v))
    if isinstance(v, SSeq):
        return compare("==", v.n, 0)
    return not v


def _truthy(v):
    if isinstance(v, SSeq):
        return _b.bool(compare(">", v.n, 0))
    return _b.bool(v)


def ifexp(c, a, b):
    if not isinstance(c, S):
        return a() if _truthy(c) else b()
    ct = truth(c)
    if not isinstance(ct, S):
        return a() if ct else b()
    ctx = CTX()

    def inner():
        return a() if ctx.decide(ct.e) else b()

    try:
        res = _pure(inner)
        if res is not None and res and all(e is None and is_scalar(x) for _, x, e in res):
            return merge_values([(cd, x) for cd, x, _ in res])
    except Unsupported:
        pass
    return a() if ctx.decide(ct.e) else b()


# --------------------------------------------------------------------------
# iteration


class SymIter:
    def __init__(self, n, item):
        self.n = n
        self.item = item

    def __iter__(self):
        c = concrete_int(self.n)
        if c is None:
            raise Unsupported("iteration of symbolic length")
        return iter([self.item(i) for i in _b.range(c)])

    def __next__(self):
        raise Unsupported("next() on a symbolic iterator")


class SRange(SymIter):
    def __init__(self, start, stop, step=1):
        self.start, self.step = start, step
        st = concrete_int(step)
        if st is None:
            raise Unsupported("symbolic range step")
        n = stop - start if st > 0 else start - stop
        if abs(st) != 1:
            n = (n + abs(st) - 1) // abs(st)
        self.n = norm_dim(simp(n) if isinstance(n, S) else n)

        def item(k):
            if isinstance(start, _b.int) and start == 0 and st == 1:
                return k
            return simp(start + k * st) if isinstance(start + k * st, S) else start + k * st

        self.item = item

    def __len__(self):
        c = concrete_int(self.n)
        if c is None:
            raise Unsupported("len(range) of symbolic length")
        return c

    def __getitem__(self, i):
        return self.item(i)


def as_iter(it):
    """list-like or SymIter"""
    if isinstance(it, SymIter):
        return it
    if isinstance(it, SSeq):
        return SymIter(it.n, it.item) if concrete_int(it.n) is None else list(it)
    if isinstance(it, SArray):
        if not it.shape:
            raise TypeError("iteration over a 0-d array")
        if concrete_int(it.shape[0]) is None:
            return SymIter(it.shape[0], lambda k: _row(it, k))
        return [it[i] for i in _b.range(it.shape[0])]
    return it


def _row(a, k):
    v = a._view([k]) if False else None
    # index known to be in range
    from .arrays import Ax, Fix

    spec = []
    for sp in a.spec:
        if isinstance(sp, Fix):
            spec.append(sp)
        elif sp.a == 0:
            spec.append(Fix(sp.start + k * sp.step if not (isinstance(sp.start, _b.int) and sp.start == 0 and sp.step == 1) else k))
        else:
            spec.append(Ax(sp.a - 1, sp.start, sp.step))
    r = SArray(a.buf, spec, a.shape[1:])
    return r if r.ndim else r.at(())


def py_range(*a):
    a = [x.at(()) if isinstance(x, SArray) and not x.ndim else x for x in a]
    a = [concrete_int(x) if concrete_int(x) is not None else x for x in a]
    if any(is_scalar(x) and kind(x) == "r" for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if any(isinstance(x, S) for x in a):
        if _b.len(a) == 1:
            return SRange(0, a[0])
        r = SRange(*a)
        return _b.range(0) if False else r
    return _b.range(*a)


def py_len(x):
    if isinstance(x, SArray):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, (SSeq,)):
        return x.n
    if isinstance(x, SRange):
        return x.n
    if isinstance(x, SMasked):
        return x.n
    if hasattr(x, "__pv_len__"):
        return x.__pv_len__()
    return _b.len(x)


def py_enumerate(it, start=0):
    it = as_iter(it)
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda k: (k + start, it.item(k)))
    return _b.enumerate(it, start)


def py_zip(*its, strict=False):
    its = [as_iter(i) for i in its]
    if any(isinstance(i, SymIter) for i in its):
        its = [i if isinstance(i, SymIter) else _b.list(i) for i in its]
        n = None
        for i in its:
            m = i.n if isinstance(i, SymIter) else _b.len(i)
            n = m if n is None else core.smin(n, m)
        n = norm_dim(simp(n) if isinstance(n, S) else n)
        if isinstance(n, _b.int):
            return [tuple(_it_get(i, k) for i in its) for k in _b.range(n)]
        return SymIter(n, lambda k: tuple(_it_get(i, k) for i in its))
    return _b.zip(*its)


def _it_get(i, k):
    if isinstance(i, SymIter):
        return i.item(k)
    if isinstance(k, S):
        return PList(i)[k]
    return i[k]


def py_reversed(x):
    if isinstance(x, SymIter):
        n, item = x.n, x.item
        return SymIter(n, lambda k: item(n - 1 - k))
    if isinstance(x, (SArray, SSeq)):
        y = as_iter(x)
        if isinstance(y, SymIter):
            return py_reversed(y)
        return _b.reversed(y)
    return _b.reversed(x)


def py_list(x=()):
    x = as_iter(x)
    if isinstance(x, SymIter):
        return SSeq(x.n, x.item)
    return PList(x)


def py_tuple(x=()):
    x = as_iter(x)
    if isinstance(x, SymIter):
        raise Unsupported("tuple of symbolic length")
    return _b.tuple(x)


def py_map(f, *its):
    its = [as_iter(i) for i in its]
    if any(isinstance(i, SymIter) for i in its):
        zz = py_zip(*its)
        if isinstance(zz, SymIter):
            return SymIter(zz.n, lambda k: f(*zz.item(k)))
        return [f(*t) for t in zz]
    return _b.map(f, *its)


def comp(kindname, fn, it):
    it = as_iter(it)
    if isinstance(it, SymIter):
        n = it.n
        if concrete_int(n) is not None:
            return PList([fn(it.item(i)) for i in _b.range(concrete_int(n))])
        # evaluate once at an arbitrary index (pure), then substitute
        c = CTX()
        k = bound_var("c")
        nf = _b.len(c.facts)
        c.facts += [k >= 0, z3.IntVal(0) <= k, k < z(n, "i")]
        c.loopvars.append(k)
        try:
            res = _pure(lambda: fn(it.item(S(k, "i"))))
        finally:
            c.loopvars.pop()
            del c.facts[nf:]
            c._solver = None
        if res is None:
            raise Unsupported("comprehension with side effects over a symbolic range")
        exc = [(cd, e) for cd, _, e in res if e is not None]
        if exc:
            # an exception is raised iff some element raises
            from .arrays import defined

            cnd = defined("any", 0, n, lambda i: mk(z3.substitute(z3.Or(*[cd for cd, _ in exc]), (k, z(i, "i"))), "b"))
            if isinstance(cnd, S):
                if c.decide(cnd.e):
                    raise exc[0][1]
            elif cnd:
                raise exc[0][1]
        val = merge_values([(cd, v) for cd, v, e in res if e is None])
        return SSeq(n, lambda i: subst_value(val, [(k, z(i, "i"))]))
    return PList([fn(x) for x in it])


# --------------------------------------------------------------------------
# other builtins


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.int) or (isinstance(x, S) and x.k == "i")

    def __call__(cls, x=0, *a):
        if isinstance(x, SArray):
            if x.size == 1:
                x = x.at((0,) * x.ndim)
            else:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, S):
            return core.to_int(x)
        return _b.int(x, *a)


class pv_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.float, Fraction)) or (isinstance(x, S) and x.k == "r")

    def __call__(cls, x=0):
        if isinstance(x, SArray):
            if x.size == 1:
                x = x.at((0,) * x.ndim)
            else:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        if is_scalar(x):
            if isinstance(x, _b.float) and (x != x or x in (_b.float("inf"), -_b.float("inf"))):
                return x
            return core.cast(x, "r")
        return _b.float(x)


class pv_float(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.bool) or (isinstance(x, S) and x.k == "b")

    def __call__(cls, x=False):
        if isinstance(x, S):
            return truth(x)
        return _b.bool(x)


class pv_bool(metaclass=_BoolMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.list, SSeq))

    def __call__(cls, x=()):
        return py_list(x)


class pv_list(metaclass=_ListMeta):
    append = _b.list.append


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.tuple)

    def __call__(cls, x=()):
        return py_tuple(x)


class pv_tuple(metaclass=_TupleMeta):
    pass


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _b.dict)

    def __call__(cls, *a, **k):
        return PDict(*a, **k)


class pv_dict(metaclass=_DictMeta):
    pass


def py_abs(x):
    if isinstance(x, Fraction):
        return _b.abs(x)
    return _b.abs(x)


def py_max(*a, key=None, default=None):
    xs = a if _b.len(a) > 1 else a[0]
    if isinstance(xs, (SArray,)):
        return xs.max()
    xs = as_iter(xs)
    if isinstance(xs, SymIter):
        from .arrays import defined

        return defined("max", 0, xs.n, xs.item)
    xs = _b.list(xs)
    if any(isinstance(x, S) for x in xs) and key is None:
        r = xs[0]
        for x in xs[1:]:
            r = core.smax(r, x)
        return r
    kw = {"key": key} if key else {}
    if default is not None:
        kw["default"] = default
    return _b.max(xs, **kw)


def py_min(*a, key=None, default=None):
    xs = a if _b.len(a) > 1 else a[0]
    if isinstance(xs, (SArray,)):
        return xs.min()
    xs = as_iter(xs)
    if isinstance(xs, SymIter):
        from .arrays import defined

        return defined("min", 0, xs.n, xs.item)
    xs = _b.list(xs)
    if any(isinstance(x, S) for x in xs) and key is None:
        r = xs[0]
        for x in xs[1:]:
            r = core.smin(r, x)
        return r
    kw = {"key": key} if key else {}
    if default is not None:
        kw["default"] = default
    return _b.min(xs, **kw)


def py_sum(xs, start=0):
    xs = as_iter(xs)
    if isinstance(xs, SymIter):
        s = big_sum(0, xs.n, xs.item)
        return s if start == 0 else s + start
    r = start
    for x in xs:
        r = r + x
    return r


def py_any(xs):
    xs = as_iter(xs)
    if isinstance(xs, SymIter):
        from .arrays import defined

        return defined("any", 0, xs.n, lambda i: truth(xs.item(i)))
    r = False
    for x in xs:
        t = truth(x) if is_scalar(x) else _b.bool(x)
        if t is True:
            return True
        r = lor(r, t)
    return r


def py_all(xs):
    xs = as_iter(xs)
    if isinstance(xs, SymIter):
        return lnot(py_any(SymIter(xs.n, lambda k: lnot(truth(xs.item(k))))))
    r = True
    for x in xs:
        t = truth(x) if is_scalar(x) else _b.bool(x)
        if t is False:
            return False
        r = land(r, t)
    return r


def py_isinstance(x, t):
    if isinstance(t, _b.tuple):
        return any(py_isinstance(x, u) for u in t)
    if t is _b.int:
        return isinstance(x, pv_int)
    if t is _b.float:
        return isinstance(x, pv_float)
    if t is _b.list:
        return isinstance(x, pv_list)
    return isinstance(x, t)


def py_print(*a, **k):
    return None


def py_round(x, *a):
    if isinstance(x, S):
        raise Unsupported("round of a symbolic value")
    return _b.round(x, *a)


def py_sorted(x, key=None, reverse=False):
    x = as_iter(x)
    if isinstance(x, SymIter):
        raise Unsupported("sorted over a symbolic sequence")
    return PList(_b.sorted(x, key=key, reverse=reverse))


def py_iter(x):
    x = as_iter(x)
    return x if isinstance(x, SymIter) else _b.iter(x)


BUILTINS = dict(range=py_range, len=py_len, enumerate=py_enumerate, zip=py_zip, reversed=py_reversed, list=pv_list,
                tuple=pv_tuple, dict=pv_dict, map=py_map, int=pv_int, float=pv_float, bool=pv_bool, abs=py_abs,
                max=py_max, min=py_min, sum=py_sum, any=py_any, all=py_all, isinstance=py_isinstance, print=py_print,
                round=py_round, sorted=py_sorted, iter=py_iter)


# --------------------------------------------------------------------------
# loops

MAX_UNROLL = 400


def for_loop(it, body, get, set_, names, targets, line):
    it = as_iter(it)
    if isinstance(it, SymIter):
        n = concrete_int(it.n)
        if n is None:
            c = core._CTX[0]
            hook = c.opts.get("for_hook") if c is not None else None
            if hook is not None:
                h = hook(it, body, get, set_, names, line)
                if h is not NotImplemented:
                    return h
            return sym_for(it, body, get, set_, names, targets, line)
        it = [it.item(i) for i in _b.range(n)]
    cnt = 0
    for x in it:
        cnt += 1
        if cnt > MAX_UNROLL * 50:
            raise Unsupported("loop too long")
        r = body(x)
        if r is not None:
            return r
    return None


def while_loop(test, body, get, set_, names, line):
    c = core._CTX[0]
    hook = c.opts.get("while_hook") if c is not None else None
    if hook is not None:
        h = hook(test, body, get, set_, names, line)
        if h is not NotImplemented:
            return h
    limit = c.opts.get("while_limit", 40) if c is not None else 100000
    n = 0
    while True:
        t = test()
        if not _truthy(t):
            return None
        n += 1
        if n > limit:
            raise Unsupported(f"while loop at line {line} unrolled more than {limit} times")
        r = body()
        if r is not None:
            return r


class PathRes:
    __slots__ = ("cond", "status", "vals", "events", "exc", "extra")


def _run_body(ctx, k, n, item, body, get, set_, starts, havoc):
    """All paths of one iteration at index k."""
    out = []
    nf = len_(ctx.facts)
    ctx.facts += [k >= 0, k < z(n, "i")]
    ctx._solver = None
    ctx.loopvars.append(k)
    saved = [(b, b.state()) for b, _ in havoc]
    for b, fn in havoc:
        for j in ctx.journals:
            j.before_write(b)  # enclosing paths restore the state before the havoc
        b.cells, b.fn = None, fn

    def one():
        j = Journal(symbolic=True)
        ctx.journals.append(j)
        try:
            set_(starts)
            hook = ctx.opts.get("iter_hook")
            try:
                if hook:
                    hook("begin", S(k, "i"))
                st = body(item(S(k, "i")))
                vals = get()
                if hook:
                    hook("end", S(k, "i"))
                return (st, vals, _b.list(j.events), None)
            except Exception as e:
                core.check_engine_fault(e)
                return (None, None, _b.list(j.events), e)
        finally:
            while ctx.journals.pop() is not j:
                pass
            j.rollback()

    # memory havoc must survive the rollback of each path: journal saves havocked state
    try:
        res = explore_inner(ctx, one)
    finally:
        ctx.loopvars.pop()
        del ctx.facts[nf:]
        ctx._solver = None
        for b, st in saved:
            b.restore(st)
    for cond, val, err in res:
        if err is not None:
            raise err
        p = PathRes()
        st, vals, events, exc = val
        p.cond, p.vals, p.events, p.exc = cond, vals, events, exc
        p.status = "raise" if exc is not None else ("next" if st is None else ("break" if st is BREAK else "return"))
        out.append(p)
    return out


def len_(x):
    return _b.len(x)


def _same_val(a, b):
    if a is b:
        return True
    if isinstance(a, S) and isinstance(b, S):
        return a.k == b.k and a.e.eq(b.e)
    if is_num(a) and is_num(b):
        return kind(a) == kind(b) and a == b
    return False


def sym_for(it, body, get, set_, names, targets, line):
    ctx = CTX()
    key = (body.__code__, len_(ctx.loopvars))
    hints = ctx.names.setdefault("loop_hints", {})
    h = hints.get(key)
    if h is not None:
        v0 = get()
        try:
            return _sym_for(it, body, get, set_, names, targets, line, h, hints, key)
        except _BadHint:
            hints.pop(key, None)
            set_(v0)
    return _sym_for(it, body, get, set_, names, targets, line, None, hints, key)


class _BadHint(BaseException):
    """What an earlier visit of this loop learnt does not fit now: analyse afresh."""


def _own_fn(ctx, b, kv):
    d, off = b["dim"]
    old, call = b["old"], b["fn"]

    def own(idx):
        df = z3.simplify(z(idx[d], "i") - kv - off)
        if z3.is_int_value(df):
            if df.as_long() == 0:
                return old(idx)
        else:
            if ctx.provable(df == 0):
                return old(idx)
            if ctx.provable(df > 0):
                return old(idx)
        return call(idx)

    return own


def _sym_for(it, body, get, set_, names, targets, line, hint, hints, key):
    ctx = CTX()
    n = it.n
    v0 = get()
    pos = compare(">", n, 0)
    if isinstance(pos, S):
        if not ctx.provable(pos.e):
            if not ctx.decide(pos.e):
                return None
    elif not pos:
        return None
    if len_(ctx.loopvars) > 6:
        raise Unsupported("loops nested too deeply")
    kv = bound_var("k")
    k = S(kv, "i")
    nv = len_(names)
    tset = set(targets)
    starts = _b.list(v0)
    hava = {}  # index -> (array of unknown content, its function, kind)
    hav = {}  # index -> z3 const/func application used as unknown start value
    poison = set()
    bufs = {}  # id -> dict(buf, hfun decl, events)
    if hint is not None:
        for i, kk in hint["hav"].items():
            if starts[i] is UNBOUND or not is_scalar(starts[i]):
                raise _BadHint
            hav[i] = starts[i] = ctx_fresh(ctx, names[i], kk, kv)
        for i in hint["poison"]:
            poison.add(i)
            if starts[i] is not UNBOUND:
                starts[i] = Poison(names[i])
        for b, dim in hint["bufs"]:
            call, decl = _hfun(ctx, b, kv)
            e = bufs[id(b)] = dict(buf=b, fn=call, decl=decl, old=b.reader(), c=None)
            if dim is not None:
                e["dim"] = dim
                e["fn"] = _own_fn(ctx, e, kv)
    for rounds in _b.range(12):
        res = _run_body(ctx, kv, n, it.item, body, get, set_, starts, [(b["buf"], b["fn"]) for b in bufs.values()])
        new = False
        norm = [p for p in res if p.status == "next"]
        for i in _b.range(nv):
            if names[i] in tset or i in hav or i in poison:
                continue
            if i in hava:
                if not _carried_array(starts[i], [p.vals[i] for p in norm]):
                    raise Unsupported(f"variable {names[i]} changes shape or type in a loop")
                continue
            if all(_same_val(p.vals[i], starts[i]) for p in res if p.vals is not None):
                continue
            if starts[i] is UNBOUND:
                poison.add(i)
                continue  # assigned in the body only
            if is_scalar(starts[i]):
                kk = core_kind(starts[i], [p.vals[i] for p in norm])
                if kk is None:
                    poison.add(i)
                    starts[i] = Poison(names[i])
                else:
                    h = ctx_fresh(ctx, names[i], kk, kv)
                    hav[i] = h
                    starts[i] = h
            elif _carried_array(starts[i], [p.vals[i] for p in norm]):
                hava[i] = _harr(ctx, names[i], starts[i], [p.vals[i] for p in norm], kv)
                starts[i] = hava[i][0]
            else:
                poison.add(i)
                starts[i] = Poison(names[i])
            new = True
        for p in res:
            for ev in p.events:
                if any(ev.buf is a[0].buf for a in hava.values()):
                    raise Unsupported("carried array written in place")
                if id(ev.buf) not in bufs:
                    b = ev.buf
                    call, decl = _hfun(ctx, b, kv)
                    bufs[id(b)] = dict(buf=b, fn=call, decl=decl, old=b.reader(), c=None)
                    new = True
        for i in _b.list(hav):
            # kind promotion (int start, real increments)
            ks = {kind(p.vals[i]) for p in norm if is_scalar(p.vals[i])}
            if "r" in ks and hav[i].k == "i":
                h = ctx_fresh(ctx, names[i], "r", kv)
                hav[i] = starts[i] = h
                new = True
            if any(not is_scalar(p.vals[i]) for p in norm):
                raise Unsupported(f"variable {names[i]} changes type in a loop")
        if hint is not None:
            # everything learnt earlier must be needed, and nothing new found
            if new:
                raise _BadHint
            for i in hav:
                if all(_same_val(p.vals[i], starts[i]) for p in res if p.vals is not None):
                    raise _BadHint
            for i in poison:
                if starts[i] is not UNBOUND and all(p.vals[i] is starts[i] for p in res if p.vals is not None):
                    raise _BadHint
        if not new:
            break
    else:
        raise Unsupported("loop summary did not stabilise")

    # -- own-index knowledge for written buffers
    refined = False
    for b in bufs.values():
        evs = [ev for p in res for ev in p.events if ev.buf is b["buf"]]
        dim = _solve_dim(evs, kv)
        if hint is not None:
            had = b.setdefault("dim", None)
            if not evs or (dim is None) != (had is None) or (dim is not None and (dim[0] != had[0] or not dim[1].eq(had[1]))):
                raise _BadHint
            continue
        b["dim"] = dim
        if dim is not None:
            b["fn"] = _own_fn(ctx, b, kv)
            refined = True
    if not hava:
        hints[key] = {"hav": {i: h.k for i, h in hav.items()}, "poison": set(poison),
                      "bufs": [(b["buf"], b["dim"] if b["dim"] is None or z3.is_int_value(b["dim"][1]) else None) for b in bufs.values()]}

    # -- closed forms of the carried scalars
    def closed(res):
        norm = [p for p in res if p.status == "next"]
        outs = {}
        for i in hav:
            outs[i] = merge_values([(p.cond, p.vals[i]) for p in norm]) if norm else starts[i]
        unresolved = dict(hav)
        form = {}
        bufdecls = [b["decl"] for b in bufs.values()] + [a[1] for a in hava.values()]
        progress = True
        while unresolved and progress:
            progress = False
            for i in _b.list(unresolved):
                h = hav[i]
                others = [u.e for j, u in unresolved.items() if j != i]
                o = outs[i]
                oe = z3.simplify(z(o, h.k)) if is_scalar(o) else None
                hv = h.e
                if oe is None:
                    continue
                if mentions(oe, others) or _mentions_decl(oe, bufdecls):
                    continue
                if not mentions(oe, [hv]):
                    f = _last(v0[i], oe, h.k, kv)
                elif h.k == "b":
                    f = _bool_acc(ctx, v0[i], oe, hv, kv)
                    if f is None:
                        continue
                elif True:
                    parts = [(p.cond, simp_diff(p.vals[i], h)) for p in norm]
                    if any(mentions(z(d, "r") if kind(d) == "r" else z(d, "i"), [hv]) for _, d in parts):
                        d = None
                    else:
                        if any(mentions(c, [hv]) for c, _ in parts):
                            # the same increment on every continuing path: the conditions do not matter
                            d = parts[0][1] if all(_same_val(q, parts[0][1]) for _, q in parts) else None
                        else:
                            d = merge_values(parts)
                    if d is None:
                        continue
                    f = _acc(v0[i], d, h.k, kv)
                form[i] = f
                del unresolved[i]
                sub = [(hv, None)]
                st = f(k)
                for j in unresolved:
                    outs[j] = subst_value(outs[j], [(hv, z(st, h.k))])
                    for p in norm:
                        pass
                for p in res:
                    p.cond = z3.substitute(p.cond, (hv, z(st, h.k)))
                    if p.vals is not None:
                        p.vals = tuple(subst_value(x, [(hv, z(st, h.k))]) if is_scalar(x) else x for x in p.vals)
                progress = True
        return form, unresolved

    form, unresolved = closed(res)
    if hava:
        bufdecls = [b["decl"] for b in bufs.values()] + [h.e.decl() for i, h in unresolved.items()]
        if form:
            for i, f in form.items():
                starts[i] = f(k)
            res = _run_body(ctx, kv, n, it.item, body, get, set_, starts, [(b["buf"], b["fn"]) for b in bufs.values()])
        arr_form = {}
        for i, (a, decl, kk) in hava.items():
            arr_form[i] = _array_form(ctx, i, names[i], v0[i], a, decl, kk, kv, [p for p in res if p.status == "next"],
                                      bufdecls + [o[1] for j, o in hava.items() if j != i])
        for i, f in arr_form.items():
            starts[i] = f(k)
        refined = True
        form.update(arr_form)
    if form or refined:
        for i, f in form.items():
            starts[i] = f(k)
        hav2 = {i: hav[i] for i in unresolved}
        res = _run_body(ctx, kv, n, it.item, body, get, set_, starts, [(b["buf"], b["fn"]) for b in bufs.values()])
        if unresolved:
            hav_keep = dict(hav)
            hav.clear()
            hav.update(hav2)
            f2, un2 = closed(res)
            form.update(f2)
            unresolved = un2
            if f2:
                for i, f in f2.items():
                    starts[i] = f(k)
                hav.clear()
                hav.update({i: hav_keep[i] for i in un2})
                res = _run_body(ctx, kv, n, it.item, body, get, set_, starts, [(b["buf"], b["fn"]) for b in bufs.values()])
    if unresolved:
        ctx.ghost["imprecise"] = f"line {line}: {[names[i] for i in unresolved]}"
        for i in unresolved:
            h = hav[i]
            decl = h.e.decl()

            def f(kk, h=h):
                return mk(z3.substitute(h.e, (kv, z(kk, "i"))), h.k)

            form[i] = f

    exits = [p for p in res if p.status != "next"]
    norm = [p for p in res if p.status == "next"]

    def apply_until(m):
        """Effects of iterations 0..m-1 on memory."""
        for b in bufs.values():
            _apply_loop_writes(ctx, b, norm, kv, m, line)

    def set_state(m, last):
        vals = []
        for i in _b.range(nv):
            if i in form:
                vals.append(form[i](m))
            elif names[i] in tset or i in poison:
                vals.append(last(i))
            else:
                vals.append(v0[i])
        set_(vals)

    def last_of(m):
        def last(i):
            # value assigned in iteration m-1
            if not norm:
                return Poison(names[i])
            try:
                v = merge_values([(p.cond, p.vals[i]) for p in norm])
                if v is UNBOUND:
                    return UNBOUND
                return subst_value(v, [(kv, z(m - 1, "i"))])
            except Unsupported:
                return Poison(names[i])

        return last

    if not exits:
        if ctx.journals or True:
            pass
        apply_until(n)
        set_state(n, last_of(n))
        return None

    ex = z3.Or(*[p.cond for p in exits]) if len_(exits) > 1 else exits[0].cond
    q = z3.Int(f"q!x{uid()}")
    sel = ctx.choose(1 + len_(exits))
    if sel == 0:
        if not norm:
            raise PathEnd("every iteration exits")
        from .arrays import defined

        d = defined("any", 0, n, lambda i: mk(z3.substitute(ex, (kv, z(i, "i"))), "b"))
        f = lnot(d)
        ctx.assume(f)
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(n, "i")), z3.Not(z3.substitute(ex, (kv, q))))))
        if len_(ctx.frames):
            ctx.frames[-1].conds.append(z(f, "b"))
        apply_until(n)
        set_state(n, last_of(n))
        return None
    p = exits[sel - 1]
    ks = ctx.fresh("kx", "i")
    from .arrays import defined

    nn = z(n, "i")
    d = z(defined("any", 0, n, lambda i: mk(z3.substitute(ex, (kv, z(i, "i"))), "b")), "b")
    pk = z3.substitute(p.cond, (kv, ks.e))
    cs = [ks.e >= 0, ks.e < nn, pk,
          z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ks.e), z3.Not(z3.substitute(ex, (kv, q)))))]
    lv = _b.list(ctx.loopvars)
    # ks is the first exit of the loop, for all values of the enclosing indices
    defn = z3.Implies(d, z3.And(ks.e >= 0, ks.e < nn, z3.substitute(ex, (kv, ks.e)), cs[3]))

    def facts(*args):
        return [z3.substitute(defn, *zip(lv, args)) if lv else defn]

    core.SCHEMAS[ks.e.decl().name()] = facts
    ctx.assume(d)
    for c_ in cs:
        ctx.assume(c_)
    if ctx.frames:
        # inner frames need the condition of this choice as a closed formula
        ctx.frames[-1].conds.append(z3.And(d, pk))
    if ctx._check() == z3.unsat:
        raise PathEnd("exit infeasible")
    apply_until(ks)
    set_state(ks, lambda i: Poison(names[i]) if v0[i] is not UNBOUND else UNBOUND)
    return body(it.item(ks))


def ctx_fresh(ctx, name, k, kv):
    """Unknown start value of a carried variable: a function of the loop index."""
    sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
    lv = _b.list(ctx.loopvars) + [kv]
    f = z3.Function(f"h_{name}!{uid()}", *[z3.IntSort()] * len_(lv), sort)
    return S(f(*lv), k)


def _carried_array(start, vals):
    """A variable rebound in every iteration to an array of the same shape."""
    if not isinstance(start, SArray) or start.k == "O" or not start.ndim:
        return False
    for v in vals:
        if v is start:
            continue
        if not isinstance(v, SArray) or v.k == "O" or _b.len(v.shape) != _b.len(start.shape):
            return False
        for a, b in zip(v.shape, start.shape):
            e = compare("==", a, b)
            if e is not True and not (isinstance(e, S) and CTX().provable(e.e)):
                return False
    return True


def _harr(ctx, name, start, vals, kv):
    ks = {start.k} | {v.k for v in vals}
    kk = "b" if ks == {"b"} else ("r" if "r" in ks else "i")
    if "b" in ks and kk != "b":
        raise Unsupported("array changes between boolean and numeric in a loop")
    lv = _b.list(ctx.loopvars) + [kv]
    sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[kk]
    f = z3.Function(f"hA_{name}!{uid()}", *[z3.IntSort()] * (len_(lv) + start.ndim), sort)
    return make(start.shape, kk, lambda idx: S(f(*lv, *[z(i, "i") for i in idx]), kk)), f, kk


def _array_form(ctx, i, name, v0, a, decl, kk, kv, norm, bad):
    """Closed form of a carried array, element by element (the scalar rules at a generic index)."""
    pv = [bound_var("p") for _ in a.shape]
    idx = tuple(S(p, "i") for p in pv)
    hv = z(a.at(idx), kk)
    if not norm:
        raise Unsupported("no normal iteration")
    rng = [z3.And(p >= 0, p < z(d, "i")) for p, d in zip(pv, a.shape)]
    nf = len_(ctx.facts)
    ctx.facts += rng + [kv >= 0]
    ctx._solver = None
    ctx.loopvars += pv
    try:
        vals = [(p.cond, p.vals[i].at(idx)) for p in norm]
        o = merge_values(vals)
        oe = z3.simplify(z(o, kk))
        start = v0.at(idx)
    finally:
        del ctx.loopvars[_b.len(ctx.loopvars) - _b.len(pv):]
        del ctx.facts[nf:]
        ctx._solver = None
    if _mentions_decl(oe, bad):
        raise Unsupported(f"carried array {name} depends on other carried values")
    # the unknown may occur only at the same element
    mark = z3.Const(f"mark!{uid()}", hv.sort())
    om = z3.substitute(oe, (hv, mark))
    if _mentions_decl(om, [decl]):
        raise Unsupported(f"carried array {name} depends on its other elements")
    if not mentions(om, [mark]):
        f = _last(start, om, kk, kv)
    elif kk == "b":
        f = _bool_acc(ctx, start, om, mark, kv)
    else:
        d = [simp_diff(v if not isinstance(v, S) else mk(z3.substitute(v.e, (hv, mark)), v.k), S(mark, kk)) for _, v in vals]
        if any(isinstance(x, S) and mentions(x.e, [mark]) for x in d) or any(mentions(c, [hv, mark]) for c, _ in vals):
            f = None
        else:
            f = _acc(start, merge_values([(c, x) for (c, _), x in zip(vals, d)]), kk, kv)
    if f is None:
        raise Unsupported(f"carried array {name}: no closed form")

    def form(m):
        e = f(m)
        return make(v0.shape, kk, lambda ii: subst_value(e, [(p, z(x, "i")) for p, x in zip(pv, ii)]) if isinstance(e, S) else e)

    return form


def _bool_acc(ctx, v0, oe, hv, kv):
    """v_out = v_in or d(k), v_in and d(k), v_in xor d(k) by induction on k; None if neither."""
    if isinstance(oe, S):
        oe = oe.e
    t = z3.simplify(z3.substitute(oe, (hv, z3.BoolVal(True))))
    f = z3.simplify(z3.substitute(oe, (hv, z3.BoolVal(False))))
    from .arrays import defined

    def valid(e):
        if z3.is_true(e):
            return True
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Not(e))
        return s.check() == z3.unsat

    at = lambda e, j: mk(z3.substitute(e, (kv, z(j, "i"))), "b")
    if valid(t):
        return lambda m: lor(v0, defined("any", 0, m, lambda j: at(f, j)))
    if valid(z3.Not(f)):
        return lambda m: land(v0, lnot(defined("any", 0, m, lambda j: lnot(at(t, j)))))
    if valid(t == z3.Not(f)):
        def form(m):
            cnt = big_sum(0, m, lambda j: ite(at(f, j), 1, 0))
            odd = compare("==", core.arith("%", cnt, 2), 1)
            return mk(z(v0, "b") != z(odd, "b"), "b")
        return form
    return None


def _hfun(ctx, b, kv):
    lv = _b.list(ctx.loopvars) + [kv]
    nd = len_(b.shape)
    if b.k == "O":
        raise Unsupported("object array written in a symbolic loop")
    sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[b.k]
    f = z3.Function(f"hB!{uid()}", *[z3.IntSort()] * (len_(lv) + nd), sort)

    def call(idx):
        return S(f(*lv, *[z(i, "i") for i in idx]), b.k)

    return call, f


def _mentions_decl(e, decls):
    return mentions(e, decls) if decls else False


def core_kind(start, vals):
    ks = [kind(start)] + [kind(v) for v in vals if is_scalar(v)]
    if any(not is_scalar(v) for v in vals):
        return None
    if "O" in ks:
        return None
    if all(x == "b" for x in ks):
        return "b"
    return "r" if "r" in ks else "i"


def simp_diff(v, h):
    if h.k == "b":
        raise Unsupported("boolean accumulator")
    d = core.arith("-", v, h)
    if isinstance(d, S):
        return mk(z3.simplify(d.e, som=True), d.k)
    return d


def _acc(v0, d, k, kv):
    if not isinstance(d, S) or not mentions(d.e, [kv]):
        return lambda m: core.arith("+", v0, core.arith("*", d, m))

    def f(m):
        return core.arith("+", v0, big_sum(0, m, lambda j: subst_value(d, [(kv, z(j, "i"))])))

    return f


def _last(v0, oe, k, kv):
    def f(m):
        prev = mk(z3.simplify(z3.substitute(oe, (kv, z(m - 1, "i")))), k)
        z0 = compare("==", m, 0)
        if isinstance(z0, S) and CTX().provable(z3.Not(z0.e)):
            return prev
        if v0 is UNBOUND:
            return prev
        return ite(z0, v0, prev)

    return f


def _solve_dim(evs, kv):
    """(dim, offset): every write of iteration k has index k+offset in that dim."""
    if not evs:
        return None
    nd = len_(evs[0].buf.shape)
    for d in _b.range(nd):
        off = None
        ok = True
        for ev in evs:
            if d not in ev.fix:
                ok = False
                break
            e = z3.simplify(z(ev.fix[d], "i") - kv)
            if mentions(e, [kv]):
                ok = False
                break
            if off is None:
                off = e
            elif not off.eq(e):
                ok = False
                break
        if ok:
            return d, off
    return None


def _apply_loop_writes(ctx, b, norm, kv, m, line):
    buf = b["buf"]
    nd = len_(buf.shape)
    jv = [bound_var("j") for _ in _b.range(nd)]
    jidx = tuple(S(v, "i") for v in jv)
    evs_all = [ev for p in norm for ev in p.events if ev.buf is buf]
    if not evs_all:
        return
    k = S(kv, "i")
    decl = b["decl"]
    has_multi = any(ev.multi for ev in evs_all)
    if not has_multi:
        Ws, Vs = [], []
        for p in norm:
            W, V = False, None
            for ev in p.events:
                if ev.buf is not buf:
                    continue
                w, v = ev.wv(jidx)
                if w is False:
                    continue
                v = core.cast(v, buf.k)
                V = v if V is None or w is True else ite(w, v, V)
                W = lor(W, w)
            if V is None:
                continue
            Ws.append((p.cond, W))
            Vs.append((p.cond, V))
        if not Ws:
            return
        W = z3.Or(*[z3.And(c, z(w, "b")) for c, w in Ws])
        W = z3.simplify(W)
        V = Vs[-1][1]
        for c, v in _b.reversed(Vs[:-1]):
            V = ite(S(c, "b"), v, V)
        Ve = z(V, buf.k)
        if _b.len(Vs) < _b.len(norm) or True:
            pass
        clean = not mentions(W, [decl]) and not mentions(Ve, [decl])
        dim = b["dim"]
        fix = {}
        for d in _b.range(nd):
            es = []
            for ev in evs_all:
                if d in ev.fix:
                    e = z3.simplify(z(ev.fix[d], "i"))
                    es.append(e)
            if len_(es) == len_(evs_all) and all(e.eq(es[0]) for e in es):
                fix[d] = es[0]
        if dim is not None and clean:
            d, off = dim
            kstar = jv[d] - off
            Wf = z3.simplify(z3.And(kstar >= 0, kstar < z(m, "i"), z3.substitute(W, (kv, kstar))))
            Vf = mk(z3.simplify(z3.substitute(Ve, (kv, kstar))), buf.k)
            fix2 = {dd: mk(e, "i") for dd, e in fix.items() if dd != d and not mentions(e, [kv])}
            buf.write(Event(buf, _termfn(Wf, "b", jv), _termfn_v(Vf, jv), fix=fix2))
            return
        # element-wise accumulation over all iterations
        if dim is None:
            hB = b["decl"]
            own = z(b["fn"](jidx), buf.k)
            if buf.k in "ir":
                dlt = z3.simplify(Ve - own, som=True)
                if not mentions(dlt, [decl]) and not mentions(W, [decl]):
                    dd = ite(mk(W, "b"), mk(dlt, buf.k), 0 if buf.k == "i" else Fraction(0))
                    old = buf.reader()

                    def V2(idx, dd=dd, old=old):
                        sub = [(v, z(i, "i")) for v, i in zip(jv, idx)]
                        t = subst_value(dd, sub)
                        return old(idx) + big_sum(0, m, lambda q: subst_value(t, [(kv, z(q, "i"))]), k=buf.k)

                    buf.write(Event(buf, lambda idx: True, V2))
                    return
            if clean:
                mv = bound_var("kk")
                buf.write(Event(buf, _termfn(z3.substitute(W, (kv, mv)), "b", jv),
                                _termfn_v(mk(z3.substitute(Ve, (kv, mv)), buf.k), jv),
                                multi=[(mv, z3.IntVal(0), z(m, "i"))]))
                return
        _havoc(ctx, buf, line)
        return
    # data dependent writes of inner loops: one more quantified variable, and a selector
    # for the several write statements
    alts = []
    for p in norm:
        for ev in p.events:
            if ev.buf is buf:
                alts.append((p.cond, ev))
    for c, ev in alts:
        w, v = ev.wv(jidx)
        if mentions(z(w, "b"), [decl]) or value_mentions(v, [decl]) or mentions(c, [decl]):
            _havoc(ctx, buf, line)
            return
    nm = max(len_(ev.multi) for _, ev in alts)
    mv = bound_var("kk")
    inner = [bound_var("ki") for _ in _b.range(nm)]
    sv = bound_var("sel")
    W, V = z3.BoolVal(False), None
    los = None
    rngs = []
    for a, (c, ev) in _b.enumerate(alts):
        sub = [(kv, mv)]
        w, v = ev.wv(jidx)
        rn = []
        for t in _b.range(nm):
            if t < len_(ev.multi):
                cst, lo, hi = ev.multi[t]
                sub.append((cst, inner[t]))
                rn.append((lo, hi))
            else:
                rn.append((z3.IntVal(0), z3.IntVal(1)))
        rngc = z3.And(*[z3.And(z3.substitute(lo, *sub) <= inner[t], inner[t] < z3.substitute(hi, *sub)) for t, (lo, hi) in _b.enumerate(rn)]) if rn else z3.BoolVal(True)
        W = z3.Or(W, z3.And(sv == a, rngc, z3.substitute(c, *sub), z3.substitute(z(w, "b"), *sub)))
        vv = subst_value(core.cast(v, buf.k), sub)
        V = vv if V is None else ite(mk(sv == a, "b"), vv, V)
    BIG = z3.IntVal(10**9)
    multi = [(mv, z3.IntVal(0), z(m, "i"))]
    for t in _b.range(nm):
        multi.append((inner[t], z3.IntVal(0), z3.Int(f"unb!{uid()}")))
    # inner ranges are part of W; give them unconstrained upper ends by construction
    multi = [(mv, z3.IntVal(0), z(m, "i"))] + [(iv, iv, iv + 1) for iv in inner] + ([(sv, sv, sv + 1)])
    buf.write(Event(buf, _termfn(W, "b", jv), _termfn_v(V, jv), multi=multi))


def _havoc(ctx, buf, line):
    f, _ = ctx.fresh_fun("havoc", len_(buf.shape), buf.k)
    ctx.ghost["imprecise"] = f"line {line}: array content"
    buf.write(Event(buf, lambda idx: True, lambda idx: f(*idx)))


def _termfn(t, k, jv):
    def f(idx):
        return mk(z3.simplify(z3.substitute(t, *[(v, z(i, "i")) for v, i in zip(jv, idx)])), k)

    return f


def _termfn_v(v, jv):
    def f(idx):
        return subst_value(v, [(a, z(i, "i")) for a, i in zip(jv, idx)])

    return f


def last_iteration(mark=None):
    """while_hook: partial correctness of a while loop without an invariant.
    The state before the last iteration is arbitrary; only what the body does not write is kept."""

    def hook(test, body, get, set_, names, line):
        ctx = CTX()
        if not _truthy(test()):
            return None
        v0 = get()
        # what does the body write, on any path? (its effects are undone)
        if mark:
            mark("trial")

        def one():
            j = Journal(symbolic=True)
            ctx.journals.append(j)
            try:
                set_(v0)
                body()
                return get(), _b.list(j.events)
            finally:
                while ctx.journals.pop() is not j:
                    pass
                j.rollback()

        bufs, outs = [], []
        for cond, val, err in explore_inner(ctx, one):
            if err is not None:
                raise err
            outs.append(val[0])
            for ev in val[1]:
                if not any(ev.buf is b for b in bufs):
                    bufs.append(ev.buf)
        v1 = []
        for i in _b.range(len_(names)):
            ch = [o[i] for o in outs if not (o[i] is v0[i] or _same_val(o[i], v0[i]))]
            v1.append(ch[0] if ch else v0[i])
            if len_({type(c) for c in ch}) > 1:
                raise Unsupported("variable of several types in a while loop")
        set_(v0)
        vals = []
        for nm, a, b in zip(names, v0, v1):
            if a is UNBOUND or a is b or _same_val(a, b):
                vals.append(a)
            elif is_scalar(a) and is_scalar(b):
                vals.append(ctx.fresh(nm, core_kind(a, [b])))
            elif isinstance(a, SArray) and isinstance(b, SArray) and a.ndim == b.ndim and a.k == b.k != "O":
                from .arrays import input_array
                vals.append(input_array(f"w_{nm}!{uid()}", a.shape, a.k))
            else:
                vals.append(Poison(nm))
        for b in bufs:
            if b.k == "O":
                raise Unsupported("object array written in a while loop")
            sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[b.k]
            f = z3.Function(f"w!{uid()}", *[z3.IntSort()] * len_(b.shape), sort)
            for jj in ctx.journals:
                jj.before_write(b)
            b.cells, b.fn = None, (lambda idx, f=f, k=b.k: S(f(*[z(i, "i") for i in idx]), k))
        set_(vals)
        if mark:
            mark("last")
        r = body()
        if mark:
            mark("done")
        if r is None and _truthy(test()):
            raise PathEnd("not the last iteration")
        # name what the loop leaves (a definition, kept in ghost["exit_defs"]): later terms stay small
        defs = ctx.ghost.setdefault("exit_defs", [])

        def opaque(b):
            rd = b.reader()
            sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[b.k]
            f = z3.Function(f"x!{uid()}", *[z3.IntSort()] * len_(b.shape), sort)
            defs.append((f, rd))
            return lambda idx, f=f, k=b.k: S(f(*[z(i, "i") for i in idx]), k)

        for b in bufs:
            b.cells, b.fn = None, opaque(b)
        now = _b.list(get())
        for i, (a, b) in enumerate(zip(vals, now)):
            if isinstance(b, SArray) and b is not a and b.ndim and b.k != "O" and not any(b.buf is c for c in bufs):
                now[i] = make(b.shape, b.k, opaque(make(b.shape, b.k, b.reader()).buf))
        set_(now)
        return r

    return hook


def name_exit(ctx, bufs, get, set_, vals, info):
    """name what the loop leaves (a definition, kept in ghost["exit_defs"]): later terms stay small"""
    defs = ctx.ghost.setdefault("exit_defs", [])

    def opaque(shape, k, rd):
        sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
        f = z3.Function(f"x!{uid()}", *[z3.IntSort()] * len_(shape), sort)
        defs.append((f, rd))
        fn = lambda idx, f=f, k=k: S(f(*[z(i, "i") for i in idx]), k)
        info.append(("exit", fn, shape))
        return fn

    for b in bufs:
        b.cells, b.fn = None, opaque(b.shape, b.k, b.reader())
    now = _b.list(get())
    for i, (a, b) in enumerate(zip(vals, now)):
        if isinstance(b, SArray) and b is not a and b.ndim and b.k != "O" and not any(b.buf is c for c in bufs) and a is not UNBOUND:
            now[i] = make(b.shape, b.k, opaque(b.shape, b.k, make(b.shape, b.k, b.reader()).buf.reader()))
    set_(now)


def hoare(keep, loops):
    """for/while hook: the loop rule with the invariant 'the cells selected by keep(idx, shape) hold what they held
    at loop entry' for every array of rank >= 2 that the body writes or rebinds; everything else written is arbitrary.
    loops receives, per loop, the list of (entry reader, reader at the head of an arbitrary iteration, shape)."""

    def generic(step, more, get, set_, names, line, nonempty=False):
        ctx = CTX()
        v0 = get()

        def one():
            j = Journal(symbolic=True)
            ctx.journals.append(j)
            try:
                set_(v0)
                step()
                return get(), _b.list(j.events)
            finally:
                while ctx.journals.pop() is not j:
                    pass
                j.rollback()

        bufs, outs = [], []
        for cond, val, err in explore_inner(ctx, one):
            if err is not None:
                continue  # this path leaves the loop by an exception; the real execution below meets it again
            outs.append(val[0])
            for ev in val[1]:
                if not any(ev.buf is b for b in bufs):
                    bufs.append(ev.buf)
        set_(v0)
        info, vals = [], []
        kept = []  # (how to read the value now, entry reader, shape)

        def fresh(entry, shape, k, name):
            sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
            f = z3.Function(f"{name}!{uid()}", *[z3.IntSort()] * len_(shape), sort)
            g = lambda idx: S(f(*[z(i, "i") for i in idx]), k)
            if len_(shape) >= 2:
                # f is a name: its definition (the kept cells hold their entry value) is used by unfold
                f2 = z3.Function(f"{name}_any!{uid()}", *[z3.IntSort()] * len_(shape), sort)
                ctx.ghost.setdefault("exit_defs", []).append(
                    (f, lambda idx: ite(keep(idx, shape), entry(tuple(idx)), S(f2(*[z(i, "i") for i in idx]), k))))
            return g

        for i, nm in enumerate(names):
            a = v0[i]
            ch = [o[i] for o in outs if not (o[i] is a or _same_val(o[i], a))]
            if isinstance(a, SSeq) and ch and all(isinstance(x, SArray) for x in ch):
                a = asarr(a)  # a list that the first iteration turns into an array
            if a is UNBOUND or not ch:
                vals.append(a)
            elif all(is_scalar(x) for x in [a] + ch):
                vals.append(ctx.fresh(nm, core_kind(a, ch)))
            elif all(isinstance(x, SArray) and x.ndim == a.ndim and x.k == a.k != "O" for x in ch + [a]):
                entry = make(a.shape, a.k, a.reader()).buf.reader()
                fn = fresh(entry, a.shape, a.k, "l_" + nm)
                arr = make(a.shape, a.k, fn)
                vals.append(arr)
                if a.ndim >= 2:
                    info.append((entry, fn, a.shape))
                    kept.append((lambda i=i: get()[i], entry, a.shape))
            else:
                vals.append(Poison(nm))
        for b in bufs:
            if b.k == "O":
                raise Unsupported("object array written in a loop")
            shape, entry = b.shape, b.reader()
            fn = fresh(entry, shape, b.k, "l")
            for jj in ctx.journals:
                jj.before_write(b)
            b.cells, b.fn = None, fn
            if len_(shape) >= 2:
                info.append((entry, fn, shape))
                kept.append((lambda b=b: b, entry, shape))
        set_(vals)
        loops.append(info)
        if not more():
            if nonempty:  # what an arbitrary last iteration left in the variables it binds
                set_([(ctx.fresh(nm, core_kind(o[0], o)) if o and all(is_scalar(x) for x in o) else Poison(nm)) if a is UNBOUND and any(x is not UNBOUND for x in o) else a
                      for nm, a, o in zip(names, vals, [[x[i] for x in outs] for i in _b.range(len_(names))])])
            return None
        r = step()
        if r is not None:
            if not is_ret(r):
                name_exit(ctx, bufs, get, set_, vals, info)
            return r
        h = ctx.ghost.get("h")
        for cur, entry, shape in kept:
            x = cur()
            if not (isinstance(x, (SArray, Buffer)) and len_(x.shape) == len_(shape)):
                raise Unsupported("loop invariant: array of another shape")
            q = tuple(ctx.fresh("li", "i") for _ in shape)
            hy = [land(*[land(u >= 0, u < v) for u, v in zip(q, shape)]), keep(q, shape), *[u == v for u, v in zip(x.shape, shape)]]
            goal = unfold(x.reader()(q), ctx.ghost.get("exit_defs", [])) == entry(q)
            if core.solve_quick(core.expand(_b.list(ctx.facts) + [z(y, "b") for y in hy] + [lnot_z(goal)]), 3000)[0] != "unsat":
                raise Unsupported("loop invariant not kept")
            if h is not None:
                h.prove(f"loop keeps the boundary cells", goal, hy)
                h.prove(f"loop keeps the shape", land(*[u == v for u, v in zip(x.shape, shape)]))
        raise PathEnd("an arbitrary iteration")

    def while_hook(test, body, get, set_, names, line):
        return generic(body, lambda: _truthy(test()), get, set_, names, line)

    def for_hook(it, body, get, set_, names, line):
        ctx = CTX()

        def step():
            k = ctx.fresh("it", "i")
            ctx.assume(land(k >= 0, k < it.n))
            return body(it.item(k))

        return generic(step, lambda: _truthy(ctx.fresh("more", "b")), get, set_, names, line, ctx.decide(z(it.n, "i") >= 1) is True)

    return for_hook, while_hook


def lnot_z(g):
    return z(lnot(g), "b")


def unfold(e, defs):
    """replace the names of exit_defs by their definitions (applications at any index)"""
    if not isinstance(e, S):
        return e
    t = e.e
    for f, rd in reversed(defs):
        apps, st, seen = [], [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().eq(f):
                apps.append(x)
            st.extend(x.children())
        if apps:
            t = z3.substitute(t, *[(a, z(rd(tuple(S(c, "i") for c in a.children())), e.k)) for a in apps])
    return mk(t, e.k)


def lit(x):
    """a float literal as the exact rational it denotes (0.1 is one tenth)"""
    return Fraction(repr(x)) if _np.isfinite(x) else x
