"""Symbolic numpy arrays: views over buffers whose dimensions may be symbolic.

A buffer is either a block of cells (all dimensions concrete) or a function from
index tuples to scalars.  Writes are functional updates, so a value computed from
an array earlier is not changed by later writes.  Loops over symbolic ranges record
the writes of one arbitrary iteration as events (see loops.py).
"""
import itertools

import numpy as _np
import z3

from .core import (CTX, DType, S, Unsupported, big_sum, cast, collect_apps, concrete_int, const_value,
                   compare, implies, is_num, is_scalar, ite, kind, kind_of_dtype, land, lnot, logic, lor,
                   mentions, merge_values, mk, schema, simp, smax, smin, sqrt, subst_value, uid, z, SCHEMAS, _num,
                   value_mentions)
from . import core

_serial = itertools.count(1)
CELL_LIMIT = 6000

# constants that stand for bound variables (loop indices, summation indices)
BOUND = {}


def bound_var(name="i"):
    v = z3.Int(f"{name}!b{uid()}")
    BOUND[v.decl().get_id()] = v
    return v


def is_concrete_shape(shape):
    return all(isinstance(d, int) for d in shape)


def norm_dim(d):
    c = concrete_int(d)
    return c if c is not None else d


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


class Event:
    """One (possibly multi-element) write: W(idx), V(idx) terms over index constants."""

    def __init__(self, buf, W, V, fix=None, multi=()):
        self.buf, self.W, self.V = buf, W, V
        self.fix = fix or {}
        self.multi = tuple(multi)  # bound loop variables: (const, lo, hi) still to be resolved

    def wv(self, idx):
        return self.W(idx), self.V(idx)


class Journal:
    def __init__(self, symbolic=False):
        self.symbolic = symbolic
        self.serial = next(_serial)
        self.saved = {}  # id(buf) -> (buf, state)
        self.events = []
        self.lists = {}

    def before_write(self, buf):
        if buf.serial < self.serial and id(buf) not in self.saved:
            self.saved[id(buf)] = (buf, buf.state())

    def rollback(self):
        for buf, st in self.saved.values():
            buf.restore(st)
        for lst, st in self.lists.values():
            lst._restore(st)


class Buffer:
    def __init__(self, shape, k, fn=None, cells=None):
        self.shape = tuple(norm_dim(d) for d in shape)
        self.k = k
        self.serial = next(_serial)
        self.fn = fn
        self.cells = cells

    def state(self):
        return (self.fn, None if self.cells is None else self.cells.copy())

    def restore(self, st):
        self.fn, self.cells = st[0], (None if st[1] is None else st[1].copy())

    def reader(self):
        """Immutable snapshot of the content: idx -> scalar."""
        if self.cells is not None:
            cells = self.cells.copy()
            return lambda idx: read_cells(cells, idx)
        return self.fn

    def read(self, idx):
        if self.cells is not None:
            return read_cells(self.cells, idx)
        return self.fn(idx)

    def to_fn(self):
        if self.cells is not None:
            self.fn = self.reader()
            self.cells = None

    shared = None  # set when a reshaped copy stands for what may be a view in numpy

    def write(self, ev):
        if self.shared:
            raise Unsupported("write to an array that shares data with a reshaped view")
        if core._CTX[0] is not None:
            js = CTX().journals
            for j in js:
                j.before_write(self)
            if js and self.serial < js[-1].serial:
                js[-1].events.append(ev)
                if js[-1].symbolic:
                    self.to_fn()
        self.apply(ev)

    def apply(self, ev):
        kk = self.k
        if ev.multi:
            W, V = resolve_multi(ev)
        else:
            W, V = ev.W, ev.V
        if self.cells is not None:
            it = _np.ndindex(*self.cells.shape)
            for idx in it:
                w = W(idx)
                if w is False:
                    continue
                v = V(idx)
                if kk != "O":
                    v = cast(v, kk)
                self.cells[idx] = v if w is True else ite(w, v, self.cells[idx])
            return
        old = self.fn

        def fn(idx, W=W, V=V, old=old):
            w = W(idx)
            if w is False:
                return old(idx)
            v = V(idx)
            if kk != "O":
                v = cast(v, kk)
            if w is True:
                return v
            return ite(w, v, old(idx))

        self.fn = fn


def read_cells(cells, idx):
    cidx = []
    for d, i in enumerate(idx):
        c = concrete_int(i)
        cidx.append(c if c is not None else i)
    sym = [d for d, c in enumerate(cidx) if not isinstance(c, int)]
    if not sym:
        try:
            return cells[tuple(cidx)]
        except IndexError:
            # guarded read outside the block (value is irrelevant)
            cl = tuple(min(max(c, 0), n - 1) for c, n in zip(cidx, cells.shape))
            return cells[cl]
    res = None
    for combo in itertools.product(*[range(cells.shape[d]) for d in sym]):
        full = list(cidx)
        cond = True
        for d, c in zip(sym, combo):
            full[d] = c
            cond = land(cond, compare("==", idx[d], c))
        v = cells[tuple(full)] if all(0 <= full[d] < cells.shape[d] for d in range(len(full))) else None
        if v is None:
            continue
        res = v if res is None else ite(cond, v, res)
    if res is None:
        raise Unsupported("read from an empty array")
    return res


# --------------------------------------------------------------------------
# last-writer skolemisation of data dependent writes


def resolve_multi(ev):
    """W,V of an event quantified over loop variables: skolem 'last writer'."""
    buf = ev.buf
    nd = len(buf.shape)
    n = uid()
    ctx = CTX()
    lv = list(ctx.loopvars)
    idxv = [bound_var("j") for _ in range(nd)]
    sidx = tuple(S(v, "i") for v in idxv)
    Wt, Vt = z(ev.W(sidx), "b"), ev.V(sidx)
    kv = [m[0] for m in ev.multi]
    sorts = [z3.IntSort()] * (len(lv) + nd)
    written = z3.Function(f"wr!{n}", *sorts, z3.BoolSort())
    who = [z3.Function(f"who{i}!{n}", *sorts, z3.IntSort()) for i in range(len(kv))]

    def rng(vals, sub):
        cs = []
        for (v, lo, hi), x in zip(ev.multi, vals):
            cs += [z3.substitute(lo, *sub) <= x, x < z3.substitute(hi, *sub)]
        return z3.And(*cs)

    def facts(*args):
        la, ia = args[:len(lv)], args[len(lv):]
        base = list(zip(lv, la)) + list(zip(idxv, ia))
        ws = [w(*args) for w in who]
        s1 = base + list(zip(kv, ws))
        f1 = z3.Implies(written(*args), z3.And(rng(ws, s1), z3.substitute(Wt, *s1)))
        qs = [z3.Int(f"q!{n}_{i}") for i in range(len(kv))]
        s2 = base + list(zip(kv, qs))
        lex = z3.BoolVal(True)
        for q, w in reversed(list(zip(qs, ws))):
            lex = z3.Or(q < w, z3.And(q == w, lex))
        f2 = z3.ForAll(qs, z3.Implies(z3.And(rng(qs, s2), z3.substitute(Wt, *s2)), z3.And(written(*args), lex)))
        return [f1, f2]

    schema(written, facts)

    def W(idx):
        return S(written(*lv, *[z(i, "i") for i in idx]), "b")

    def V(idx):
        ii = [z(i, "i") for i in idx]
        args = lv + ii
        sub = list(zip(idxv, ii)) + [(k_, w(*args)) for k_, w in zip(kv, who)]
        return subst_value(Vt, sub)

    ev.skolem = dict(written=written, who=who, facts=facts, Wt=Wt, idxv=idxv, kv=kv, lv=lv)
    ctx.ghost.setdefault("multi", []).append((buf, ev))
    return W, V


# --------------------------------------------------------------------------
# existential / extremal reductions over symbolic ranges

_defs = {}


def _free_bound(exprs, exclude):
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            walk(t.body())
            return
        if z3.is_app(t):
            if t.num_args() == 0:
                did = t.decl().get_id()
                if did in BOUND and not any(t.eq(x) for x in exclude) and not any(t.eq(o) for o in out):
                    out.append(t)
            else:
                for c in t.children():
                    walk(c)

    for e in exprs:
        walk(e)
    return out


def defined(tag, lo, hi, body):
    """Application of a defined function for any/max/min of body over [lo,hi)."""
    s = bound_var("s")
    v = body(S(s, "i"))
    k = "b" if tag == "any" else kind(v)
    e = z3.simplify(z(v, k))
    lo_, hi_ = z3.simplify(z(lo, "i")), z3.simplify(z(hi, "i"))
    if tag == "any":
        if z3.is_false(e):
            return False
        if not mentions(e, [s]):
            return mk(z3.And(e, lo_ < hi_), "b")
    elif not mentions(e, [s]):
        return mk(e, k)
    fvs = _free_bound([e, lo_, hi_], [s])
    can = [z3.Int(f"canon!{i}") for i in range(len(fvs))]
    cs = z3.Int("canon!s")
    sub = list(zip(fvs, can)) + [(s, cs)]
    ce, clo, chi = [z3.simplify(z3.substitute(t, *sub)) for t in (e, lo_, hi_)]
    key = (tag, ce.get_id(), clo.get_id(), chi.get_id(), len(can))
    if key not in _defs:
        n = uid()
        sort = {"b": z3.BoolSort(), "i": z3.IntSort(), "r": z3.RealSort()}[k]
        f = z3.Function(f"{tag}!{n}", *[z3.IntSort()] * len(can), sort) if can else z3.Const(f"{tag}!{n}", sort)
        w = z3.Function(f"w{tag}!{n}", *[z3.IntSort()] * len(can), z3.IntSort()) if can else z3.Int(f"w{tag}!{n}")

        def app(d, args):
            return d(*args) if args else d

        def facts(*args):
            args = list(args)
            sb = list(zip(can, args))
            l, h = z3.substitute(clo, *sb) if sb else clo, z3.substitute(chi, *sb) if sb else chi
            bod = z3.substitute(ce, *sb) if sb else ce
            wv = app(w, args)
            t = app(f, args)
            q = z3.Int(f"q!{n}")
            bw, bq = z3.substitute(bod, (cs, wv)), z3.substitute(bod, (cs, q))
            if tag == "any":
                return [z3.Implies(t, z3.And(l <= wv, wv < h, bw)),
                        z3.ForAll([q], z3.Implies(z3.And(l <= q, q < h, bq), t))]
            cmp = (bq <= t) if tag == "max" else (bq >= t)
            return [z3.Implies(l < h, z3.And(l <= wv, wv < h, t == bw)),
                    z3.ForAll([q], z3.Implies(z3.And(l <= q, q < h), cmp))]

        SCHEMAS[f"{tag}!{n}"] = facts
        _defs[key] = (f, w, (ce, clo, chi))
    f, w, _ = _defs[key]
    return S(f(*fvs) if fvs else f, k)


# --------------------------------------------------------------------------
# array views


class Fix:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Ax:
    __slots__ = ("a", "start", "step")

    def __init__(self, a, start, step):
        self.a, self.start, self.step = a, start, step


def _sz(d):
    return d


class SArray:
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = object.__hash__

    def __init__(self, buf, spec=None, shape=None, affine=None):
        self.buf = buf
        self.spec = tuple(spec) if spec is not None else tuple(Ax(i, 0, 1) for i in range(len(buf.shape)))
        self.shape = tuple(norm_dim(d) for d in (shape if shape is not None else buf.shape))
        self.affine = affine

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"array attribute {n}")

    # -- attributes
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def dtype(self):
        return DType(self.buf.k)

    @property
    def k(self):
        return self.buf.k

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return self.ravel()

    def __repr__(self):
        return f"SArray{self.shape}:{self.buf.k}"

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        c = concrete_int(self.shape[0])
        if c is None:
            raise Unsupported("len() of an array with symbolic length")
        return c

    def __bool__(self):
        if all(d == 1 for d in self.shape if isinstance(d, int)) and is_concrete_shape(self.shape):
            return bool(self.at((0,) * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __iter__(self):
        n = concrete_int(self.shape[0])
        if n is None:
            raise Unsupported("iteration over an array of symbolic length outside a for statement")
        for i in range(n):
            yield self[i]

    # -- reading
    def _base(self, idx):
        out = []
        for sp in self.spec:
            if isinstance(sp, Fix):
                out.append(sp.e)
            else:
                i = idx[sp.a]
                if sp.step == 1:
                    out.append(i + sp.start if not (isinstance(sp.start, int) and sp.start == 0) else i)
                else:
                    out.append(sp.start + i * sp.step)
        return tuple(out)

    def at(self, idx):
        return self.buf.read(self._base(idx))

    def reader(self):
        rd = self.buf.reader()
        return lambda idx: rd(self._base(idx))

    def item(self, *a):
        if a:
            return self[a]
        return self.at((0,) * self.ndim)

    def tolist(self):
        return [x.tolist() if isinstance(x, SArray) else x for x in self]

    # -- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [asarr(k) if isinstance(k, (list, _np.ndarray, SSeq)) else k for k in key]
        return key

    def _view(self, key):
        """View for basic indexing; returns (view, None) or raises _Advanced."""
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        key2 = []
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError("only one ellipsis")
                seen = True
                key2 += [slice(None)] * (self.ndim - nspec)
            else:
                key2.append(k)
        nused = sum(1 for k in key2 if k is not None)
        if nused > self.ndim:
            raise IndexError("too many indices for array")
        key2 += [slice(None)] * (self.ndim - nused)
        newshape = []
        amap = {}  # old axis -> ('fix', e) or ('ax', newaxis, start, step)
        ax = 0
        for k in key2:
            if k is None:
                newshape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                start, length, step = slice_bounds(k, n)
                amap[ax] = ("ax", len(newshape), start, step)
                newshape.append(length)
            else:
                amap[ax] = ("fix", check_index(k, n))
            ax += 1
        spec = []
        for sp in self.spec:
            if isinstance(sp, Fix):
                spec.append(sp)
                continue
            m = amap[sp.a]
            if m[0] == "fix":
                spec.append(Fix(sp.start + m[1] * sp.step if sp.step != 1 else m[1] + sp.start))
            else:
                _, na, start, step = m
                if sp.step == 1:
                    st = start + sp.start
                else:
                    st = sp.start + start * sp.step
                spec.append(Ax(na, st, step * sp.step))
        return SArray(self.buf, spec, newshape)

    def _is_basic(self, key):
        return all(k is None or k is Ellipsis or isinstance(k, slice) or is_scalar(k) and kind(k) == "i"
                   or (isinstance(k, (int, _np.integer)) and not isinstance(k, bool)) for k in key)

    def __getitem__(self, key):
        key = self._norm_key(key)
        key = [_scalarish(k) for k in key]
        if self._is_basic(key):
            v = self._view(key)
            if v.ndim == 0 and not any(k is Ellipsis for k in key):
                return v.at(())
            return v
        key = _affine_to_slices(key)
        if self._is_basic(key):
            return self._view(key)
        return self._fancy_get(key)

    def _expand_key(self, key):
        n = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            n += k.ndim if isinstance(k, SArray) and k.k == "b" else 1
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
            else:
                out.append(k)
        m = 0
        for k in out:
            if k is None:
                continue
            m += k.ndim if isinstance(k, SArray) and k.k == "b" else 1
        out += [slice(None)] * (self.ndim - m)
        return out

    def _fancy_get(self, key):
        key = self._expand_key(key)
        masks = [k for k in key if isinstance(k, SArray) and k.k == "b"]
        if masks:
            if len(masks) == 1 and key[0] is masks[0] and all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
                m = masks[0]
                if self.ndim != m.ndim:
                    if m.ndim < self.ndim:
                        raise Unsupported("mask on leading axes")
                    raise IndexError("too many indices for array")
                return SMasked(self, m)
            # concrete mask
            key = [_mask_to_index(k) if isinstance(k, SArray) and k.k == "b" else k for k in key]
            if any(k is None for k in key):
                raise Unsupported("symbolic mask in a mixed index")
        # integer arrays
        arrs = [(i, asarr(k)) for i, k in enumerate(key) if isinstance(k, SArray)]
        pos = [i for i, _ in arrs]
        if any(k is None for k in key):
            raise Unsupported("newaxis with fancy index")
        bshape = broadcast_shapes([a.shape for _, a in arrs])
        # scalars mixed with arrays are broadcast too
        sc = [i for i, k in enumerate(key) if not isinstance(k, (SArray, slice))]
        allpos = sorted(pos + sc)
        contiguous = allpos == list(range(allpos[0], allpos[-1] + 1))
        first = allpos[0] if contiguous else 0
        shape, plan = [], []
        readers = {i: bcast_reader(a, bshape) for i, a in arrs}
        n_b = len(bshape)
        done = False
        slots = {}
        if not contiguous:
            shape += list(bshape)
            boff = 0
            done = True
        for i, k in enumerate(key):
            if isinstance(k, slice):
                start, length, step = slice_bounds(k, self.shape[i])
                slots[i] = ("s", len(shape), start, step)
                shape.append(length)
            else:
                if not done:
                    boff = len(shape)
                    shape += list(bshape)
                    done = True
                slots[i] = ("a",) if i in readers else ("c", check_index(k, self.shape[i]))
        rd = self.reader()
        dims = self.shape

        def fn(idx):
            b = idx[boff:boff + n_b]
            full = []
            for i in range(len(key)):
                sl = slots[i]
                if sl[0] == "s":
                    full.append(sl[2] + idx[sl[1]] * sl[3])
                elif sl[0] == "c":
                    full.append(sl[1])
                else:
                    v = readers[i](b)
                    n = dims[i]
                    neg = compare("<", v, 0)
                    full.append(ite(neg, v + n, v))
            return rd(tuple(full))

        return make(shape, self.k, fn)

    def __setitem__(self, key, value):
        key = self._norm_key(key)
        key = [_scalarish(k) for k in key]
        if not self._is_basic(key):
            key = _affine_to_slices(key)
        if self._is_basic(key):
            self._view(key)._assign(value)
            return
        key = self._expand_key(key)
        masks = [k for k in key if isinstance(k, SArray) and k.k == "b"]
        if len(masks) == 1:
            mi = next(i for i, q in enumerate(key) if q is masks[0])
            m = masks[0]
            others = [k for i, k in enumerate(key) if i != mi]
            # view with the mask axes full
            vkey = list(key)
            vkey[mi:mi + 1] = [slice(None)] * m.ndim
            if all(isinstance(k, slice) or is_scalar(k) for k in others):
                v = self._view(vkey)
                nbefore = sum(1 for k in key[:mi] if isinstance(k, slice))
                nafter = v.ndim - nbefore - m.ndim
                for a in range(m.ndim):
                    if not same_dim(m.shape[a], v.shape[nbefore + a]):
                        raise IndexError("boolean index did not match indexed array")
                mrd = m.reader()
                if isinstance(value, SMasked):
                    if not same_mask(value.mask, m) or nbefore or nafter:
                        raise Unsupported("assignment from a differently masked array")
                    vrd = value.reader()
                elif is_scalar(value) or (isinstance(value, SArray) and value.ndim == 0):
                    val = value if is_scalar(value) else value.at(())
                    vrd = lambda idx: val
                else:
                    raise Unsupported("masked assignment of an array")
                v._write(lambda idx: mrd(idx[nbefore:nbefore + m.ndim]), vrd)
                return
        # integer fancy assignment with concrete indices on one axis
        arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, SArray)]
        if len(arrs) == 1 and arrs[0][1].ndim == 1 and is_concrete_shape(arrs[0][1].shape):
            i, a = arrs[0]
            n = a.shape[0]
            # result axes: position of the fancy axis among slices
            pos = sum(1 for k in key[:i] if isinstance(k, slice))
            scal = [j for j, k in enumerate(key) if not isinstance(k, (slice, SArray))]
            allp = sorted(scal + [i])
            if allp != list(range(allp[0], allp[-1] + 1)):
                pos = 0
            else:
                pos = sum(1 for k in key[:allp[0]] if isinstance(k, slice))
            for t in range(n):
                k2 = list(key)
                k2[i] = a.at((t,))
                if is_scalar(value):
                    self._view(k2)._assign(value)
                else:
                    va = asarr(value)
                    view = self._view(k2)
                    nd = view.ndim + 1
                    if va.ndim < pos + 1 and va.ndim <= nd - pos - 1:
                        view._assign(va)
                        continue
                    vfull = broadcast_to(va, tuple(list(view.shape[:pos]) + [n] + list(view.shape[pos:])))
                    kk = [slice(None)] * nd
                    kk[pos] = t
                    view._assign(vfull[tuple(kk)])
            return
        raise Unsupported("fancy assignment")

    def _write(self, cond, val):
        """Write val(idx) where cond(idx), for view indices."""
        spec, shape = self.spec, self.shape
        fix = {}
        inv = {}
        for d, sp in enumerate(spec):
            if isinstance(sp, Fix):
                fix[d] = sp.e
            else:
                if sp.a in inv:
                    raise Unsupported("write to a diagonal view")
                inv[sp.a] = (d, sp)
        for a, n in enumerate(shape):
            if a not in inv and not (isinstance(n, int) and n == 1):
                raise Unsupported("write to a broadcast view")

        def vidx(b):
            conds = []
            idx = [0] * len(shape)
            for d, sp in enumerate(spec):
                if isinstance(sp, Fix):
                    conds.append(compare("==", b[d], sp.e))
            for a, (d, sp) in inv.items():
                if sp.step == 1:
                    i = b[d] - sp.start
                elif sp.step == -1:
                    i = sp.start - b[d]
                else:
                    i = (b[d] - sp.start) // sp.step
                    conds.append(compare("==", sp.start + i * sp.step, b[d]))
                i = simp(i) if isinstance(i, S) else i
                idx[a] = i
                if not (isinstance(sp.start, int) and sp.start == 0 and sp.step == 1 and same_dim(shape[a], self.buf.shape[d])):
                    conds.append(compare(">=", i, 0))
                    conds.append(compare("<", i, shape[a]))
            return land(*conds), tuple(idx)

        def W(b):
            c, idx = vidx(b)
            if c is False:
                return False
            return land(c, cond(idx))

        def V(b):
            c, idx = vidx(b)
            return val(idx)

        self.buf.write(Event(self.buf, W, V, fix=fix))

    def _assign(self, value):
        if isinstance(value, SArray) and value.buf is self.buf and _same_spec(value.spec, self.spec):
            return
        if isinstance(value, SMasked):
            raise Unsupported("assignment of a masked selection")
        if is_scalar(value) or (self.k == "O" and not isinstance(value, (SArray, _np.ndarray))):
            val = value
            if self.ndim == 0 or True:
                if self.buf.cells is not None and all(isinstance(sp, Fix) for sp in self.spec):
                    self._write(lambda idx: True, lambda idx: val)
                    return
                self._write(lambda idx: True, lambda idx: val)
                return
        va = asarr(value)
        rd = bcast_reader(va, self.shape, snapshot=True)
        self._write(lambda idx: True, rd)

    # -- shape changes
    def copy(self, order=None):
        return make(self.shape, self.k, self.reader())

    def astype(self, t, copy=True):
        k = kind_of_dtype(t)
        rd = self.reader()
        return make(self.shape, k, lambda idx: cast(rd(idx), k))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        spec = [sp if isinstance(sp, Fix) else Ax(inv[sp.a], sp.start, sp.step) for sp in self.spec]
        return SArray(self.buf, spec, [self.shape[a] for a in axes])

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return reshape(self.copy(), (-1,)).copy()

    def squeeze(self):
        key = tuple(0 if (isinstance(d, int) and d == 1) else slice(None) for d in self.shape)
        return self._view(list(key))

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, SMasked):
            return NotImplemented
        if not (is_scalar(o) or isinstance(o, (SArray, _np.ndarray, list, tuple, SSeq))):
            return NotImplemented
        return elementwise(op, o, self) if rev else elementwise(op, self, o)

    def _ibin(self, o, op):
        res = elementwise(op, self, o)
        if not all(same_dim(a, b) for a, b in zip(res.shape, self.shape)) or res.ndim != self.ndim:
            raise ValueError("non-broadcastable output operand")
        if self.k == "i" and res.k == "r":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self._assign(res)
        return self

    def __neg__(self):
        return elementwise(lambda a: -a, self)

    def __pos__(self):
        return self.copy()

    def __invert__(self):
        return elementwise(lambda a: lnot(a) if kind(a) == "b" else ~a, self)

    def __abs__(self):
        return elementwise(abs_, self)

    # -- reductions
    def sum(self, axis=None, keepdims=False, dtype=None):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None):
        s = reduce_sum(self, axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n if not isinstance(s, int) else core.arith("/", s, n)

    def any(self, axis=None):
        return reduce_any(self, axis)

    def all(self, axis=None):
        r = reduce_any(elementwise(lambda a: lnot(truth(a)), self), axis)
        return lnot(r) if is_scalar(r) else ~r

    def max(self, axis=None):
        return reduce_ext(self, "max", axis)

    def min(self, axis=None):
        return reduce_ext(self, "min", axis)

    # -- symbolic plumbing
    def __pv_subst__(self, pairs):
        rd = self.reader()
        shape = tuple(subst_value(d, pairs) for d in self.shape)
        if self.buf.cells is not None:
            if not any(value_mentions(c, [p[0] for p in pairs]) for c in self.buf.cells.ravel()) and \
               all(not isinstance(getattr(sp, "e", 0), S) and not isinstance(getattr(sp, "start", 0), S) for sp in self.spec):
                return self

        def fn(idx):
            # evaluate at fresh indices, substitute, then put the indices in
            js = [bound_var("t") for _ in idx]
            v = rd(tuple(S(j, "i") for j in js))
            v = subst_value(v, pairs)
            return subst_value(v, [(j, z(i, "i")) for j, i in zip(js, idx)])

        return make(shape, self.k, fn)

    def __pv_mentions__(self, syms):
        js = tuple(S(bound_var("t"), "i") for _ in self.shape)
        if self.buf.cells is not None and all(isinstance(d, int) for d in self.shape):
            return any(value_mentions(self.at(i), syms) for i in _np.ndindex(*self.shape))
        return value_mentions(self.at(js), syms)

    def __pv_merge__(self, pairs):
        arrs = [v for _, v in pairs]
        if not all(isinstance(v, SArray) for v in arrs) or any(v.ndim != self.ndim for v in arrs):
            raise Unsupported("merging arrays of different rank")
        for v in arrs:
            if not all(same_dim(a, b) for a, b in zip(v.shape, self.shape)):
                raise Unsupported("merging arrays of different shape")
        rds = [(c, v.reader()) for c, v in pairs]
        k = join_kind([v.k for v in arrs])
        return make(self.shape, k, lambda idx: merge_values([(c, r(idx)) for c, r in rds]))


def _same_spec(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, Fix):
            if not _same(x.e, y.e):
                return False
        elif x.a != y.a or not _same(x.start, y.start) or x.step != y.step:
            return False
    return True


def _same(a, b):
    if isinstance(a, S) and isinstance(b, S):
        return a.e.eq(b.e)
    return not isinstance(a, S) and not isinstance(b, S) and a == b


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if _same(a, b):
        return True
    c = compare("==", a, b)
    if not isinstance(c, S):
        return bool(c)
    return CTX().provable(c.e)


def same_mask(a, b):
    if a is b or (a.buf is b.buf and _same_spec(a.spec, b.spec)):
        return True
    js = tuple(S(bound_var("m"), "i") for _ in a.shape)
    x, y = a.at(js), b.at(js)
    c = compare("==", x, y) if is_scalar(x) and is_scalar(y) else False
    if c is True:
        return True
    return isinstance(c, S) and CTX().provable(c.e)


def _scalarish(k):
    if isinstance(k, SArray) and k.ndim == 0:
        return k.at(())
    if isinstance(k, (bool, _np.bool_)):
        raise Unsupported("boolean scalar index")
    if isinstance(k, slice):
        return slice(*[_scalarish(x) if isinstance(x, SArray) else x for x in (k.start, k.stop, k.step)])
    return k


def _affine_to_slices(key):
    out = []
    narr = sum(1 for k in key if isinstance(k, SArray))
    for k in key:
        if isinstance(k, SArray) and k.affine is not None and narr == 1 and k.ndim == 1:
            st, step = k.affine
            if step == 1:
                out.append(_AffSlice(st, k.shape[0]))
                continue
        out.append(k)
    return [slice(k.start, k.start + k.n, 1) if isinstance(k, _AffSlice) else k for k in out]


class _AffSlice:
    def __init__(self, start, n):
        self.start, self.n = start, n


def _mask_to_index(m):
    if not is_concrete_shape(m.shape) or m.ndim != 1:
        return None
    vals = [m.at((i,)) for i in range(m.shape[0])]
    if any(isinstance(v, S) for v in vals):
        return None
    return asarr([i for i, v in enumerate(vals) if v])


def check_index(i, n):
    if isinstance(i, (float,)) or (is_scalar(i) and kind(i) == "r"):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    ci, cn = concrete_int(i), concrete_int(n)
    if ci is not None and cn is not None:
        if ci < -cn or ci >= cn:
            raise IndexError(f"index {ci} is out of bounds for axis with size {cn}")
        return ci % cn if cn else ci
    ctx = CTX()
    lo = z(compare(">=", i, 0), "b")
    hi = z(compare("<", i, n), "b")
    if ci is not None and ci >= 0:
        pass
    if ctx.provable(lo):
        if ctx.provable(hi):
            return i
        if ctx.decide(hi):
            return i
        raise IndexError("index is out of bounds")
    nlo = z(compare(">=", i + n, 0), "b")
    if ctx.provable(z3.Not(lo)):
        if ctx.provable(nlo) or ctx.decide(nlo):
            return simp(i + n)
        raise IndexError("index is out of bounds")
    if ctx.decide(lo):
        if ctx.decide(hi):
            return i
        raise IndexError("index is out of bounds")
    if ctx.decide(nlo):
        return simp(i + n)
    raise IndexError("index is out of bounds")


def _clampb(v, n, neg_step=False):
    """Slice bound normalisation for possibly symbolic values."""
    cv, cn = concrete_int(v), concrete_int(n)
    if cv is not None and cn is not None:
        if cv < 0:
            cv += cn
        if neg_step:
            return max(-1, min(cv, cn - 1))
        return max(0, min(cv, cn))
    ctx = CTX()
    neg = compare("<", v, 0)
    if isinstance(neg, S):
        if ctx.provable(neg.e):
            v = v + n
        elif not ctx.provable(z3.Not(neg.e)):
            v = ite(neg, v + n, v)
    elif neg:
        v = v + n
    v = simp(v) if isinstance(v, S) else v
    lo, hi = (-1, n - 1) if neg_step else (0, n)
    return simp(smax(lo, smin(v, hi)))


def slice_bounds(s, n):
    step = 1 if s.step is None else concrete_int(s.step)
    if step is None:
        raise Unsupported("symbolic slice step")
    if step > 0:
        start = 0 if s.start is None else _clampb(s.start, n)
        stop = n if s.stop is None else _clampb(s.stop, n)
        ln = stop - start
        if step != 1:
            ln = (ln + step - 1) // step
    else:
        start = n - 1 if s.start is None else _clampb(s.start, n, True)
        stop = -1 if s.stop is None else _clampb(s.stop, n, True)
        ln = start - stop
        if step != -1:
            ln = (ln - step - 1) // (-step)
    ln = simp(ln) if isinstance(ln, S) else ln
    c = concrete_int(ln)
    if c is not None:
        return norm_dim(start), max(c, 0), step
    return norm_dim(start), norm_dim(simp(smax(ln, 0))), step


# --------------------------------------------------------------------------
# construction


def make(shape, k, fn):
    shape = tuple(norm_dim(d) for d in shape)
    if is_concrete_shape(shape) and prod(shape) <= CELL_LIMIT:
        cells = _np.empty(shape, dtype=object)
        for idx in _np.ndindex(*shape):
            v = fn(idx)
            cells[idx] = cast(v, k) if k != "O" and is_scalar(v) else v
        return SArray(Buffer(shape, k, cells=cells))
    if k == "O":
        return SArray(Buffer(shape, k, fn=fn))
    return SArray(Buffer(shape, k, fn=lambda idx: cast(fn(idx), k)))


def full(shape, value, k=None):
    if is_scalar(shape):
        shape = (shape,)
    return make(tuple(shape), k or kind(value), lambda idx: value)


def input_array(name, shape, k="r"):
    """Array of unknown content (a fresh function of the indices)."""
    shape = tuple(norm_dim(d) for d in shape)
    sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
    if is_concrete_shape(shape) and prod(shape) <= CELL_LIMIT:
        cells = _np.empty(shape, dtype=object)
        for idx in _np.ndindex(*shape):
            cells[idx] = S(z3.Const(f"{name}[{','.join(map(str, idx))}]", sort), k)
        return SArray(Buffer(shape, k, cells=cells))
    f = z3.Function(name, *[z3.IntSort()] * len(shape), sort)
    return SArray(Buffer(shape, k, fn=lambda idx: S(f(*[z(i, "i") for i in idx]), k)))


def join_kind(ks):
    if "O" in ks:
        return "O"
    if "r" in ks:
        return "r"
    if "i" in ks:
        return "i"
    return "b"


class SSeq:
    """List of symbolic length."""

    def __init__(self, n, fn):
        self.n = norm_dim(n)
        self.fn = fn

    def item(self, k):
        return self.fn(k)

    def __iter__(self):
        c = concrete_int(self.n)
        if c is None:
            raise Unsupported("iteration over a sequence of symbolic length")
        return iter([self.fn(i) for i in range(c)])

    def __len__(self):
        c = concrete_int(self.n)
        if c is None:
            raise Unsupported("len() of a sequence of symbolic length")
        return c

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, ln, step = slice_bounds(i, self.n)
            return SSeq(ln, lambda j: self.fn(start + j * step))
        return self.fn(check_index(i, self.n))

    def copy(self):
        return SSeq(self.n, self.fn)

    # a list combined with an array is an array
    def _bin(self, other, f):
        if not isinstance(other, SArray):
            raise Unsupported("operation on a list of symbolic length")
        return f(asarr(self), other)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __pv_subst__(self, pairs):
        return SSeq(subst_value(self.n, pairs), lambda i: subst_value(self.fn(i), pairs))


def asarr(v, k=None):
    if isinstance(v, SArray):
        return v if k is None or v.k == k else v.astype(DType(k))
    if isinstance(v, SMasked):
        raise Unsupported("masked selection used as an array")
    if is_scalar(v):
        kk = k or kind(v)
        return make((), kk, lambda idx: v)
    if isinstance(v, SSeq):
        e0 = v.item(S(bound_var("q"), "i"))
        if isinstance(e0, SArray):
            kk = k or e0.k
            return make((v.n,) + e0.shape, kk, lambda idx: v.item(idx[0]).at(idx[1:]))
        if not is_scalar(e0):
            raise Unsupported("array of objects of symbolic length")
        kk = k or kind(e0)
        return make((v.n,), kk, lambda idx: v.item(idx[0]))
    if isinstance(v, _np.ndarray):
        kk = k or {"f": "r", "i": "i", "u": "i", "b": "b", "O": "O"}.get(v.dtype.kind)
        if kk is None:
            raise Unsupported(f"array dtype {v.dtype}")
        return make(v.shape, kk, lambda idx: _pyval(v[tuple(int(i) for i in idx)]))
    if isinstance(v, (list, tuple)):
        items = list(v)
        if not items:
            return make((0,), k or "r", lambda idx: 0)
        if all(is_scalar(x) for x in items):
            kk = k or join_kind([kind(x) for x in items])
            return make((len(items),), kk, lambda idx: items[idx[0]] if isinstance(idx[0], int) else
                        read_cells(_objarr(items), idx))
        if any(x is None or isinstance(x, str) for x in items):
            return make((len(items),), "O", lambda idx: items[idx[0]])
        arrs = [asarr(x) for x in items]
        sh = arrs[0].shape
        for a in arrs:
            if a.ndim != len(sh) or not all(same_dim(p, q) for p, q in zip(a.shape, sh)):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        kk = k or join_kind([a.k for a in arrs])
        rds = [a.reader() for a in arrs]

        def fn(idx):
            c = concrete_int(idx[0])
            if c is not None:
                return rds[c](idx[1:]) if 0 <= c < len(rds) else rds[0 if c < 0 else -1](idx[1:])
            r = rds[-1](idx[1:])
            for i in reversed(range(len(rds) - 1)):
                r = ite(compare("==", idx[0], i), rds[i](idx[1:]), r)
            return r

        return make((len(items),) + tuple(sh), kk, fn)
    if hasattr(v, "__pv_array__"):
        return asarr(v.__pv_array__(), k)
    try:
        items = list(v)
    except TypeError:
        raise Unsupported(f"array from {type(v).__name__}")
    return asarr(items, k)


def _objarr(items):
    a = _np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a


def _pyval(x):
    if isinstance(x, _np.bool_):
        return bool(x)
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, _np.floating):
        return core.idealise(float(x))
    return x


# --------------------------------------------------------------------------
# broadcasting


def broadcast_shapes(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(nd):
        dims = [s[len(s) - nd + i] for s in shapes if len(s) - nd + i >= 0]
        big = [d for d in dims if not (isinstance(d, int) and d == 1)]
        if not big:
            out.append(1)
            continue
        r = big[0]
        for d in big[1:]:
            if not same_dim(r, d):
                if isinstance(r, int) and isinstance(d, int):
                    raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
                # a symbolic dimension may be 1
                one_d = compare("==", d, 1)
                one_r = compare("==", r, 1)
                if CTX().decide(z(compare("==", r, d), "b")):
                    continue
                if isinstance(one_d, S) and CTX().decide(one_d.e):
                    continue
                if isinstance(one_r, S) and CTX().decide(one_r.e):
                    r = d
                    continue
                raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
            if isinstance(d, int):
                r = d
        out.append(r)
    return tuple(out)


def bcast_reader(a, shape, snapshot=True):
    """Reader of array a broadcast to shape."""
    nd = len(shape)
    off = nd - a.ndim
    if off < 0:
        # leading ones may be dropped on assignment
        lead = a.shape[:-off]
        if all(isinstance(d, int) and d == 1 for d in lead):
            a = a[tuple([0] * (-off))] if a.ndim + off > 0 else asarr(a.at((0,) * a.ndim))
            if is_scalar(a):
                a = asarr(a)
            off = nd - a.ndim
        else:
            raise ValueError(f"could not broadcast input array from shape {a.shape} into shape {shape}")
    one = []
    for i, d in enumerate(a.shape):
        t = shape[off + i]
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif same_dim(d, t):
            one.append(False)
        elif isinstance(d, int) and isinstance(t, int):
            raise ValueError(f"could not broadcast input array from shape {a.shape} into shape {shape}")
        else:
            if CTX().decide(z(compare("==", d, t), "b")):
                one.append(False)
            elif CTX().decide(z(compare("==", d, 1), "b")):
                one.append(True)
            else:
                raise ValueError(f"could not broadcast input array from shape {a.shape} into shape {shape}")
    rd = a.reader()

    def fn(idx):
        return rd(tuple(0 if o else idx[off + i] for i, o in enumerate(one)))

    return fn


def broadcast_to(a, shape):
    a = asarr(a)
    return make(shape, a.k, bcast_reader(a, shape))


def elementwise(op, *args, k=None):
    if any(isinstance(a, SMasked) for a in args):
        ms = [a for a in args if isinstance(a, SMasked)]
        m = ms[0].mask
        for o in ms[1:]:
            if not same_mask(o.mask, m):
                raise Unsupported("operation on differently masked arrays")
        if any(isinstance(a, SArray) for a in args):
            raise Unsupported("operation on a masked selection and an array")
        bases = [a.base if isinstance(a, SMasked) else a for a in args]
        return SMasked(elementwise(op, *bases, k=k), m)
    arrs = [asarr(a) if not is_scalar(a) else a for a in args]
    if all(is_scalar(a) for a in arrs):
        return op(*arrs)
    shape = broadcast_shapes([a.shape for a in arrs if isinstance(a, SArray)])
    rds = []
    for a in arrs:
        if isinstance(a, SArray):
            rds.append(bcast_reader(a, shape))
        else:
            rds.append(lambda idx, a=a: a)

    def fn(idx):
        return op(*[r(idx) for r in rds])

    if not shape:
        return fn(())
    if k is None:
        probe = tuple(S(bound_var("p"), "i") for _ in shape)
        if is_concrete_shape(shape) and prod(shape) == 0:
            k = "r"
        elif is_concrete_shape(shape) and prod(shape) <= CELL_LIMIT:
            vals = {idx: fn(idx) for idx in _np.ndindex(*shape)}
            k = join_kind([kind(v) for v in vals.values()])
            return make(shape, k, lambda idx: vals[idx])
        else:
            k = kind(fn(probe))
    return make(shape, k, fn)


def _op(sym):
    def f(a, b):
        r = core.arith(sym, a, b)
        if r is NotImplemented:
            raise Unsupported(f"{sym} on {type(a).__name__}, {type(b).__name__}")
        return r

    return f


def _cmp(sym):
    return lambda a, b: compare(sym, a, b)


def truth(a):
    return a if kind(a) == "b" else compare("!=", a, 0)


def abs_(a):
    return core.sabs(a)


def _install():
    ops = {"add": _op("+"), "sub": _op("-"), "mul": _op("*"), "truediv": _op("/"), "floordiv": _op("//"),
           "mod": _op("%"), "pow": core.power,
           "and": lambda a, b: logic("and", a, b), "or": lambda a, b: logic("or", a, b),
           "xor": lambda a, b: logic("xor", a, b)}
    for name, op in ops.items():
        setattr(SArray, f"__{name}__", lambda self, o, op=op: self._bin(o, op))
        setattr(SArray, f"__r{name}__", lambda self, o, op=op: self._bin(o, op, True))
        setattr(SArray, f"__i{name}__", lambda self, o, op=op: self._ibin(o, op))
        setattr(SMasked, f"__{name}__", lambda self, o, op=op: elementwise(op, self, o))
        setattr(SMasked, f"__r{name}__", lambda self, o, op=op: elementwise(op, o, self))
    for name, sym in {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}.items():
        def f(self, o, sym=sym):
            if o is None or isinstance(o, str):
                return sym == "!="
            r = elementwise(_cmp(sym), self, o, k="b")
            return r

        setattr(SArray, f"__{name}__", f)
        setattr(SMasked, f"__{name}__", f)


class SMasked:
    """a[mask] with a symbolic mask: an unordered selection with known elements."""

    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, base, mask):
        self.base = base
        self.mask = mask
        self._n = None

    def reader(self):
        return self.base.reader()

    @property
    def n(self):
        if self._n is None:
            self._n = reduce_sum(elementwise(lambda m: ite(m, 1, 0), self.mask, k="i"), None)
        return self._n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1

    def __neg__(self):
        return elementwise(lambda a: -a, self)

    def __abs__(self):
        return elementwise(abs_, self)

    def sum(self, axis=None):
        return reduce_sum(elementwise(lambda v, m: ite(m, v, 0), self.base, self.mask), None)

    def any(self):
        return reduce_any(elementwise(lambda v, m: land(m, truth(v)), self.base, self.mask, k="b"), None)

    def all(self):
        return lnot(reduce_any(elementwise(lambda v, m: land(m, lnot(truth(v))), self.base, self.mask, k="b"), None))


_install()


# --------------------------------------------------------------------------
# reductions


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(a % nd for a in axis)
    return (axis % nd,)


def reduce_nd(a, axis, keepdims, red1):
    """Reduce axes one after another; red1(n, body) reduces one axis."""
    axes = _axes(axis, a.ndim)
    rd = a.reader()
    keep = [d for d in range(a.ndim) if d not in axes]

    def fn(idx):
        fixed = dict(zip(keep, idx))

        def rec(rem, cur):
            if not rem:
                return rd(tuple(cur[d] for d in range(a.ndim)))
            d, rest = rem[0], rem[1:]
            return red1(a.shape[d], lambda i: rec(rest, {**cur, d: i}))

        return rec(list(axes), fixed)

    if not keep:
        v = fn(())
        if keepdims:
            return make((1,) * a.ndim, kind(v), lambda idx: v)
        return v
    out = make([a.shape[d] for d in keep], _probe_kind(fn, [a.shape[d] for d in keep]), fn)
    if keepdims:
        sh, j = [], 0
        key = []
        for d in range(a.ndim):
            key.append(slice(None) if d in keep else None)
        out = out[tuple(key)]
    return out


def _probe_kind(fn, shape):
    if is_concrete_shape(shape):
        if prod(shape) == 0:
            return "r"
        return kind(fn((0,) * len(shape)))
    return kind(fn(tuple(S(bound_var("p"), "i") for _ in shape)))


def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, SMasked):
        return a.sum()
    a = asarr(a)

    def red1(n, body):
        if isinstance(n, int):
            r = 0
            for i in range(n):
                v = body(i)
                if kind(v) == "b":
                    v = cast(v, "i")
                r = core.arith("+", r, v)
            if n == 0 and a.k == "r":
                return core.Fraction(0)
            return r
        return big_sum(0, n, body)

    return reduce_nd(a, axis, keepdims, red1)


def reduce_any(a, axis=None):
    if isinstance(a, SMasked):
        return a.any()
    a = asarr(a)

    def red1(n, body):
        if isinstance(n, int):
            return lor(*[truth(body(i)) for i in range(n)])
        return defined("any", 0, n, lambda i: truth(body(i)))

    return reduce_nd(a, axis, False, red1)


def reduce_ext(a, which, axis=None):
    a = asarr(a)
    pick = smax if which == "max" else smin

    def red1(n, body):
        if isinstance(n, int):
            if n == 0:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = body(0)
            for i in range(1, n):
                r = pick(r, body(i))
            return r
        return defined(which, 0, n, body)

    return reduce_nd(a, axis, False, red1)


# --------------------------------------------------------------------------
# reshape


def reshape(a, shape):
    if is_scalar(shape):
        shape = (shape,)
    shape = [norm_dim(d) for d in shape]
    neg = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if neg:
        rest = prod([d for i, d in enumerate(shape) if i != neg[0]])
        tot = a.size
        if isinstance(rest, int) and rest == 1:
            shape[neg[0]] = tot
        elif isinstance(rest, int) and isinstance(tot, int):
            if tot % rest:
                raise ValueError("cannot reshape array")
            shape[neg[0]] = tot // rest
        elif isinstance(rest, int) and rest > 0:
            q = div_exact(z3.simplify(z(tot, "i"), som=True), rest)
            if q is None:
                if CTX().decide(z(compare("==", tot % rest, 0), "b")) is False:
                    raise ValueError("cannot reshape array")
                shape[neg[0]] = tot // rest
            else:
                shape[neg[0]] = norm_dim(S(z3.simplify(q), "i"))
        else:
            raise Unsupported("reshape -1 with symbolic sizes")
    shape = tuple(norm_dim(simp(d)) if isinstance(d, S) else d for d in shape)
    # identical shapes up to ones
    d1 = [(i, d) for i, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    d2 = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(d1) == len(d2) and all(same_dim(x, y) for (_, x), (_, y) in zip(d1, d2)):
        m = {i: j for (i, _), (j, _) in zip(d1, d2)}
        spec = []
        for sp in a.spec:
            if isinstance(sp, Fix):
                spec.append(sp)
            elif sp.a in m:
                spec.append(Ax(m[sp.a], sp.start, sp.step))
            else:
                spec.append(Fix(sp.start))
        return SArray(a.buf, spec, shape)
    if is_concrete_shape(a.shape) and is_concrete_shape(shape):
        if prod(a.shape) != prod(shape):
            raise ValueError(f"cannot reshape array of size {prod(a.shape)} into shape {shape}")
    elif not same_dim(a.size, prod(shape)):
        if CTX().decide(z(compare("==", a.size, prod(shape)), "b")) is False:
            raise ValueError(f"cannot reshape array of size {a.size} into shape {shape}")
    rd = a.reader()
    old = a.shape

    def fn(idx):
        # split / merge through the flat index, cancelling common trailing dims
        flat = None
        for i, d in zip(idx, shape):
            flat = i if flat is None else flat * d + i
        if flat is None:
            flat = 0
        return rd(unflatten(flat, old, idx, shape))

    r = make(shape, a.k, fn)
    r.buf.shared = a.buf.shared = True
    return r


def div_exact(e, c):
    """e / c when every monomial of e is a multiple of c, else None"""
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // c) if e.as_long() % c == 0 else None
    if z3.is_add(e):
        ps = [div_exact(x, c) for x in e.children()]
        return None if any(p is None for p in ps) else z3.Sum(ps)
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() % c == 0:
        return z3.IntVal(e.arg(0).as_long() // c) * z3.Product([e.arg(i) for i in range(1, e.num_args())])
    return None


def unflatten(flat, dims, idx, shape):
    """Index tuple of the flat position; exact cancellation when the shapes share structure."""
    # try to match groups of equal products from the right
    out = []
    nd = len(dims)
    if nd == 0:
        return ()
    # common trailing dims
    t = 0
    while t < min(len(dims), len(shape)) and same_dim(dims[nd - 1 - t], shape[len(shape) - 1 - t]):
        t += 1
    tail = tuple(idx[len(idx) - t:]) if t else ()
    hd = dims[:nd - t]
    hi, hs = idx[:len(idx) - t], shape[:len(shape) - t]
    if not hd:
        return tail
    flat = None
    for i, d in zip(hi, hs):
        flat = i if flat is None else flat * d + i
    if flat is None:
        flat = 0
    if len(hd) == 1:
        return (flat,) + tail
    res = []
    rem = flat
    for d in reversed(hd[1:]):
        res.append(rem % d)
        rem = rem // d
    res.append(rem)
    return tuple(reversed(res)) + tail


def fold(*a):
    return None
