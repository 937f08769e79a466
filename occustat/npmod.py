"""Models of NumPy arrays, scalars and functions (NumPy 2 semantics)."""
from fractions import Fraction
import itertools
from functools import cmp_to_key as _cmp_to_key
from . import terms as T
from .values import *
from .values import _KIND, _WEAK, _ORD
from .pymod import num_term, tb as to_bool_sc

CLS = {}
ONE, ZERO = T.num(1), T.num(0)
UNINIT = T.mk('uninit')
MAXN = 64


def _sorted_pick(r, pos):
    """Element at a position of a sorted axis."""
    if pos.op == 'num' and pos.args[0] == 0:
        return T.red('min', r.args[1], r.args[2], r.args[3])
    d = r.args[2]
    if d.op == 'num' and pos.op == 'num' and pos.args[0] == d.args[0] - 1:
        return T.red('max', r.args[1], r.args[2], r.args[3])
    if pos.op == 'add' and len(pos.args) == 2 and pos.args[0] is d and pos.args[1] is T.num(-1):
        return T.red('max', r.args[1], r.args[2], r.args[3])
    return T.mk('pick', r, pos)


T._CTORS['pick'] = _sorted_pick


def bt(t):
    """Truth term of a numeric or boolean term."""
    return t if T.is_bool(t) else T.not_(T.eq(t, ZERO))


def nt(t):
    return T.ite(t, ONE, ZERO) if T.is_bool(t) else t


def is1(d):
    return d.op == 'num' and d.args[0] == 1


def cnum(d):
    return int(d.args[0]) if d.op == 'num' else None


# ---------------------------------------------------------------- operands
def is_scalar(v):
    return isinstance(v, (int, Sc))


def operand(I, v):
    """Any array-like to int | Sc | Arr."""
    v = I.force(v)
    if isinstance(v, (int, Sc, Arr)):
        return v
    if isinstance(v, (Lst, tuple, Tup)):
        return asarray(I, v)
    if v is None or isinstance(v, (str, Str, Dct, Host, Inst, Fn, Native, Cls, Mod, SetV)):
        if isinstance(v, Host):
            g = v.get(I, '__array__')
            if g is not MISSING:
                return I.call(g, [])
        if isinstance(v, Inst):
            d, _ = v.cls.lookup('__array__')
            if d is not None:
                return operand(I, I.call(Bound(d, v), []))
        I.throw('TypeError', 'unsupported operand for a numpy function')
    raise Bail('array operand %r' % (v,))


def dims_of(v):
    return v.dims if isinstance(v, Arr) else ()


def at_of(v, ixs):
    """Element term of v broadcast to an array indexed by ixs (right aligned)."""
    if not isinstance(v, Arr):
        return term_of(v)
    off = len(ixs) - len(v.dims)
    return v.at([ZERO if is1(d) else ixs[off + j] for j, d in enumerate(v.dims)])


def sel_at(v, ixs):
    if not isinstance(v, Arr) or v.sel is None:
        return None
    off = len(ixs) - len(v.dims)
    return T.subst(v.sel, {a: (ZERO if is1(d) else ixs[off + j])
                           for j, (a, d) in enumerate(zip(v.ixs, v.dims))})


def broadcast(I, dimss):
    n = max(len(d) for d in dimss)
    out = []
    for j in range(n):
        cur = ONE
        for d in dimss:
            k = j - (n - len(d))
            if k < 0:
                continue
            x = d[k]
            if is1(x):
                continue
            if is1(cur):
                cur = x
            elif not I.dim_eq(cur, x):
                bad(I, cur, x)
        out.append(cur)
    return tuple(out)


def bad(I, a, b):
    if getattr(I, 'counted', False):
        # selections keep the axis they were taken from; a number of selected entries does not compare with it
        raise Bail('shapes that involve the number of selected entries')
    e = I.exc('ValueError', 'operands could not be broadcast together with shapes (%s) (%s)' % (T.show(a), T.show(b)))
    I.event('shape_error', a=a, b=b)
    raise PyRaise(e)


def mask_axes(v):
    """Axes along which a masked selection was compressed."""
    if v.sel is None:
        return ()
    f = T.free(v.sel)
    return tuple(j for j, x in enumerate(v.ixs) if x in f)


def common_sel(I, vals, dims, ixs):
    """Selection of an elementwise result."""
    sel = None
    for v in vals:
        s = sel_at(v, ixs)
        if s is None:
            continue
        if sel is None:
            sel = s
        elif sel is not s:
            raise Bail('operands selected by different masks')
    if sel is None:
        return None
    free = T.free(sel)
    for v in vals:
        if isinstance(v, Arr) and v.sel is None:
            off = len(ixs) - len(v.dims)
            for j, d in enumerate(v.dims):
                if not is1(d) and ixs[off + j] in free:
                    raise Bail('masked selection combined with an unmasked array')
    return sel


def elementwise(I, vals, f, dt, want_arr=False):
    dims = broadcast(I, [dims_of(v) for v in vals])
    arr = any(isinstance(v, Arr) for v in vals)
    if not dims and not (arr and want_arr):
        return Sc(f(*[at_of(v, ()) for v in vals]), dt)
    ixs = fresh_ixs(len(dims))
    sel = common_sel(I, vals, dims, ixs)
    body = f(*[at_of(v, ixs) for v in vals])
    r = new_arr(dims, ixs, body, strong(dt), None, I.site())
    r.sel = sel
    return r


# ---------------------------------------------------------------- casting
def cast_term(I, t, src, dst):
    src, dst = strong(src), strong(dst)
    if isinstance(dst, SmallInt) and src != 'b' and getattr(src, 'bits', 64) > dst.bits:
        I.event('narrow', src=src, dst='small', term=t)
        m, lo = T.num(2 ** dst.bits), T.num(2 ** (dst.bits - 1) if dst.signed else 0)
        t = cast_term(I, nt(t), src, 'i')
        r = T.sub(t, T.mul(m, T.fn('floor', T.div(T.add(t, lo), m))))
        if t.op == 'num':
            v, h = int(t.args[0]) + int(lo.args[0]), int(m.args[0])
            return T.num(v % h - int(lo.args[0]))
        return r
    if src == dst:
        return t
    if dst == 'b':
        return bt(t)
    t = nt(t)
    if dst == 'i':
        if src in ('b', 'i'):
            return t
        if t.op == 'num':
            return T.num(int(t.args[0]))
        return T.fn('trunc', t)
    if narrows(src, dst):
        I.event('narrow', src=src, dst=dst, term=t)
        return T.mk('cast', dst, t)
    if src == 'i' and dst == 'f4':
        I.event('narrow', src=src, dst=dst, term=t)
        return T.mk('cast', dst, t)
    return t


def can_same_kind(src, dst):
    ks, kd = _KIND[src], _KIND[dst]
    return ks <= kd


def astype(I, v, dt):
    if isinstance(v, Arr):
        ixs = fresh_ixs(v.ndim)
        r = new_arr(v.dims, ixs, cast_term(I, v.at(ixs), v.dt, dt), dt, None, I.site())
        r.sel = sel_at(v, ixs)
        return r
    return Sc(cast_term(I, term_of(v), dt_of(v), dt), dt)


DTNAMES = {'float': 'f', 'float64': 'f', 'f8': 'f', 'd': 'f', 'double': 'f', '<f8': 'f', '=f8': 'f', 'float_': 'f',
           'int': 'i', 'int64': 'i', 'i8': 'i', 'l': 'i', 'q': 'i', '<i8': 'i', 'intp': 'i', 'int_': 'i', 'int32': 'i',
           'i4': 'i', 'i': 'i', 'long': 'i', 'longlong': 'i',
           'uint': 'i', 'uint64': 'i', 'bool': 'b', '?': 'b', 'bool_': 'b', 'float32': 'f4', 'f4': 'f4', 'f': 'f4', 'single': 'f4',
           'float16': 'f4', 'half': 'f4', 'longdouble': 'g', 'g': 'g', 'float128': 'g', 'longfloat': 'g', 'f16': 'g',
           'object': 'O', 'O': 'O'}
SMALLINT = {n: small_int(8, n[0] == 'i') for n in ('int8', 'uint8', 'i1', 'u1')}
SMALLINT.update({n: small_int(16, n[0] == 'i') for n in ('int16', 'uint16', 'i2', 'u2')})
DTNAMES.update(SMALLINT)


def as_dtype(I, v):
    """dtype code, or None when v does not denote a dtype."""
    v = I.force(v)
    if isinstance(v, DType):
        return v.dt
    if isinstance(v, Cls):
        if 'dt' in v.flags:
            return v.flags['dt']
        b = I.builtins
        for n, d in (('float', 'f'), ('int', 'i'), ('bool', 'b'), ('object', 'O')):
            if v is b[n]:
                return d
        return None
    if isinstance(v, str):
        return DTNAMES.get(v)
    return None


def need_dtype(I, v):
    d = as_dtype(I, v)
    if d is None:
        if isinstance(v, str):
            if v in ('complex', 'complex128', 'c16', 'U', 'S', 'str'):
                raise Bail('dtype ' + v)
            I.throw('TypeError', 'data type %r not understood' % v)
        raise Bail('dtype %r' % (v,))
    return d


def dtype_call(I, d, args, kw):
    return to_dtype_value(I, d.dt, args)


def to_dtype_value(I, dt, args):
    if not args:
        return Sc(T.FALSE if dt == 'b' else ZERO, dt)
    v = I.force(args[0])
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: to_dtype_value(I, dt, [x]))
    if isinstance(v, str):
        try:
            return Sc(T.num(float(v)) if dt != 'i' else T.num(int(v)), dt)
        except ValueError as e:
            I.throw('ValueError', str(e))
    v = operand(I, v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = Sc(v.at(()), v.dt)
        else:
            return astype(I, v, dt)
    return astype(I, v, dt)


def dtype_attr(I, d, name):
    if name == 'name':
        return {'f': 'float64', 'g': 'longdouble', 'f4': 'float32', 'i': 'int64', 'b': 'bool', 'O': 'object'}[d.dt]
    if name == 'kind':
        return {'f': 'f', 'g': 'f', 'f4': 'f', 'i': 'i', 'b': 'b', 'O': 'O'}[d.dt]
    if name == 'char':
        return {'f': 'd', 'g': 'g', 'f4': 'f', 'i': 'l', 'b': '?', 'O': 'O'}[d.dt]
    if name == 'itemsize':
        return {'f': 8, 'g': 16, 'f4': 4, 'i': 8, 'b': 1, 'O': 8}[d.dt]
    if name == 'type':
        return cls_of(I, d.dt)
    if name == 'str':
        return {'f': '<f8', 'g': '<f16', 'f4': '<f4', 'i': '<i8', 'b': '|b1', 'O': '|O'}[d.dt]
    return MISSING


def cls_of(I, dt):
    return CLS[{'f': 'float64', 'g': 'longdouble', 'f4': 'float32', 'i': 'int64', 'b': 'bool_', 'O': 'object_'}[dt]]


# ---------------------------------------------------------------- conversion
def asarray(I, v, dtype=None, copy=None):
    v = I.force(v)
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: asarray(I, x, dtype, copy))
    r = _asarray(I, v)
    if dtype is not None and r.dt != dtype:
        return astype(I, r, dtype)
    if copy and r is v:
        return copy_of(I, r)
    return r


def copy_of(I, v):
    if v.sel is not None:
        return v
    ixs = fresh_ixs(v.ndim)
    return new_arr(v.dims, ixs, v.at(ixs), v.dt, None, I.site())


def _asarray(I, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (int, Sc)):
        return new_arr((), (), term_of(v), strong(dt_of(v)), None, I.site())
    if isinstance(v, SliceV) or v is None or isinstance(v, (Dct, Fn, Native, Cls, SetV, Inst)):
        if isinstance(v, Inst):
            d, _ = v.cls.lookup('__array__')
            if d is not None:
                return asarray(I, I.call(Bound(d, v), []))
        raise Bail('array of %r' % (v,))
    if isinstance(v, Host):
        g = v.get(I, '__array__')
        if g is not MISSING:
            return asarray(I, I.call(g, []))
        raise Bail('array of %r' % (v,))
    if isinstance(v, Lst) and v.kind != 'list':
        raise Bail('object array of a generator')
    if isinstance(v, (Lst, tuple, Tup)):
        return stack_items(I, list(v.items) if isinstance(v, (Lst, Tup)) else list(v), 0)
    raise Bail('array of %r' % (v,))


def pieces(I, items):
    """[(length term, at(position) -> operand, cond)] of list items."""
    out = []
    for it in items:
        if isinstance(it, Seg):
            if it.cond is not T.TRUE:
                if it.dim.op == 'num' and it.dim.args[0] == 1:
                    raise Bail('array of a conditionally built list')
                raise Bail('array of a filtered list')
            val = I.force(it.val)
            val = _elem_arr(I, val)
            out.append((it.dim, val, it.ix))
        elif type(it).__name__ == 'HoleItem':
            raise Bail('array of a list under construction')
        else:
            out.append((ONE, _elem_arr(I, it), None))
    return out


def _elem_arr(I, v):
    v = I.force(v)
    if isinstance(v, (int, Sc, Arr)):
        return v
    if isinstance(v, Choice):
        nums = all(isnum(x) for _, x in v.alts)
        if nums:
            r = v.alts[-1][1]
            for c, x in reversed(v.alts[:-1]):
                r = Sc(T.ite(c, num_term(x), num_term(r)), promote(dt_of(x), dt_of(r)))
            return r
        raise Bail('array of alternatives')
    if isinstance(v, (str, Str)) or v is None:
        raise Bail('array of strings or None')
    return asarray(I, v)


def stack_items(I, items, axis, names='stack'):
    """New axis from a sequence of equally shaped array-likes."""
    if not items:
        return new_arr((T.num(0),), fresh_ixs(1), ZERO, 'f', None, I.site())
    ps = pieces(I, items)
    sub = None
    for n, v, ix in ps:
        d = dims_of(v)
        if isinstance(v, Arr) and v.sel is not None:
            raise SelBail('stacking masked selections', v.sel, I.site())
        if sub is None:
            sub = d
        elif len(d) != len(sub) or not all(I.dim_eq(x, y) for x, y in zip(d, sub)):
            I.event('shape_error', a=sub, b=d)
            I.throw('ValueError', 'all input arrays must have the same shape')
        if ix is not None and any(ix in T.free(x) for x in d):
            I.throw('ValueError', 'inhomogeneous shape')
    if axis < 0:
        axis += len(sub) + 1
    dt = strong(promote(*[dt_of(v) for _, v, _ in ps]))
    total = I.norm_dim(T.add(*[n for n, _, _ in ps])) if len(ps) > 1 else ps[0][0]
    ixs = fresh_ixs(len(sub) + 1)
    p = ixs[axis]
    rest = ixs[:axis] + ixs[axis + 1:]
    body = None
    off = ZERO
    rows = []
    for n, v, ix in ps:
        t = at_exact(v, rest)
        t = cast_term(I, t, dt_of(v), dt)
        if ix is not None:
            t = T.subst(t, {ix: p if off is ZERO else T.add(p, T.neg(off))})
        rows.append((off, n, t))
        off = I.norm_dim(T.add(off, n))
    body = choose(I, rows, p)
    return new_arr(sub[:axis] + (total,) + sub[axis:], ixs, body, dt, None, I.site())


def at_exact(v, ixs):
    return v.at(ixs) if isinstance(v, Arr) else term_of(v)


def choose(I, rows, p):
    body = rows[-1][2]
    for off, n, t in reversed(rows[:-1]):
        c = T.eq(p, off) if is1(n) else T.lt(p, I.norm_dim(T.add(off, n)))
        body = T.ite(c, t, body)
    return body


def concatenate(I, items, axis, dtype=None):
    """Along an existing axis; items are list items (with runs)."""
    ps = pieces(I, items)
    if not ps:
        I.throw('ValueError', 'need at least one array to concatenate')
    parts = []
    for n, v, ix in ps:
        if not isinstance(v, Arr) or v.ndim == 0:
            I.throw('ValueError', 'zero-dimensional arrays cannot be concatenated')
        parts.append((n, v, ix))
    nd = parts[0][1].ndim
    if axis is None:
        parts = [(n, ravel(I, v), ix) for n, v, ix in parts]
        axis, nd = 0, 1
    ax = axis + nd if axis < 0 else axis
    if not 0 <= ax < nd:
        I.throw('ValueError', 'axis out of bounds')
    ref = parts[0][1].dims
    for n, v, ix in parts:
        if v.ndim != nd or not all(j == ax or I.dim_eq(x, y) for j, (x, y) in enumerate(zip(v.dims, ref))):
            I.event('shape_error', a=ref, b=v.dims)
            I.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    dt = dtype or promote(*[v.dt for _, v, _ in parts])
    ixs = fresh_ixs(nd)
    p = ixs[ax]
    off = ZERO
    rows = []
    for n, v, ix in parts:
        if v.sel is not None:
            raise SelBail('concatenating masked selections', v.sel, I.site())
        if ix is not None:
            if is1(v.dims[ax]):
                q = p if off is ZERO else T.add(p, T.neg(off))
                t = T.subst(v.at([ZERO if j == ax else x for j, x in enumerate(ixs)]), {ix: q})
                ln = n
            elif n.op == 'num':
                for j in range(int(n.args[0])):
                    vv = vsubst(v, {ix: T.num(j)})
                    t = vv.at([T.add(p, T.neg(off)) if k == ax and off is not ZERO else x for k, x in enumerate(ixs)])
                    rows.append((off, vv.dims[ax], cast_term(I, t, v.dt, dt)))
                    off = I.norm_dim(T.add(off, vv.dims[ax]))
                continue
            else:
                raise Bail('concatenation of a run of wide arrays')
        else:
            ln = v.dims[ax]
            t = v.at([(ZERO if is1(ln) else x if off is ZERO else T.add(x, T.neg(off))) if j == ax else x
                      for j, x in enumerate(ixs)])
        rows.append((off, ln, cast_term(I, t, v.dt, dt)))
        off = I.norm_dim(T.add(off, ln))
    dims = tuple(off if j == ax else d for j, d in enumerate(ref))
    return new_arr(dims, ixs, choose(I, rows, p), dt, None, I.site())


# ---------------------------------------------------------------- shape manipulation
def view(v, dims, ixs, old):
    """View of v whose element at ixs is v at the index terms `old`."""
    m = {a: b for a, b in zip(v.ixs, old) if a is not b}
    bix = tuple(T.subst(x, m) if m else x for x in v.bix)
    return Arr(dims, ixs, bix, v.buf, T.subst(v.sel, m) if v.sel is not None else None, v.ro)


def transpose(I, v, axes=None):
    if not isinstance(v, Arr):
        v = asarray(I, v)
    if axes is None:
        axes = tuple(reversed(range(v.ndim)))
    axes = [a + v.ndim if a < 0 else a for a in axes]
    if sorted(axes) != list(range(v.ndim)):
        I.throw('ValueError', "axes don't match array")
    return Arr([v.dims[a] for a in axes], [v.ixs[a] for a in axes], v.bix, v.buf, v.sel, v.ro)


def expand(I, v, axis):
    v = asarray(I, v)
    axs = [axis] if isinstance(axis, int) else list(axis)
    n = v.ndim + len(axs)
    axs = sorted(a + n if a < 0 else a for a in axs)
    dims, ixs = list(v.dims), list(v.ixs)
    for a in axs:
        dims.insert(a, ONE)
        ixs.insert(a, T.fresh_idx('u'))
    return Arr(dims, ixs, v.bix, v.buf, v.sel, v.ro)


def squeeze(I, v, axis=None):
    v = asarray(I, v)
    axs = [j for j, d in enumerate(v.dims) if is1(d)] if axis is None else \
        [a + v.ndim if a < 0 else a for a in ([axis] if isinstance(axis, int) else axis)]
    for a in axs:
        if not is1(v.dims[a]):
            I.throw('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
    keep = [j for j in range(v.ndim) if j not in axs]
    m = {v.ixs[a]: ZERO for a in axs}
    return Arr([v.dims[j] for j in keep], [v.ixs[j] for j in keep], [T.subst(b, m) for b in v.bix], v.buf,
               T.subst(v.sel, m) if v.sel is not None else None, v.ro)


def size_of(I, v):
    if isinstance(v, Arr):
        if v.sel is not None:
            return term_of(sel_count(I, v, every=True))
        r = ONE
        for d in v.dims:
            r = d if r is ONE else (r if is1(d) else I.norm_dim(T.mul(r, d)))
        return r
    return ONE


def reshape(I, v, shape, order='C'):
    v = asarray(I, v)
    if v.sel is not None:
        if len(shape) == 1 and v.ndim == 1:
            return v
        raise Bail('reshape of a masked selection')
    shape = [I.force(s) for s in shape]
    dims = []
    auto = None
    for j, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            if auto is not None:
                I.throw('ValueError', 'can only specify one unknown dimension')
            auto = j
            dims.append(None)
        else:
            dims.append(I.norm_dim(term_of(s)))
    if auto is not None:
        # cancel equal dimensions
        left = [d for d in v.dims if not is1(d)]
        for d in dims:
            if d is None or is1(d):
                continue
            for k, e in enumerate(left):
                if I.dim_eq(d, e):
                    left.pop(k)
                    break
            else:
                if all(x.op == 'num' for x in left) and d.op == 'num':
                    n = 1
                    for x in left:
                        n *= int(x.args[0])
                    if n % int(d.args[0]):
                        I.throw('ValueError', 'cannot reshape')
                    left = [T.num(n // int(d.args[0]))]
                else:
                    raise Bail('reshape to %s' % (dims,))
        r = ONE
        for x in left:
            r = x if r is ONE else I.norm_dim(T.mul(r, x))
        dims[auto] = r
    core = [j for j, d in enumerate(v.dims) if not is1(d)]
    ncore = [j for j, d in enumerate(dims) if not is1(d)]
    if len(core) == len(ncore) and all(I.dim_eq(v.dims[a], dims[b]) for a, b in zip(core, ncore)):
        # only axes of length one change: a view
        ixs = [T.fresh_idx('u') for _ in dims]
        m = {}
        for a, b in zip(core, ncore):
            ixs[b] = v.ixs[a]
        for j in range(v.ndim):
            if is1(v.dims[j]):
                m[v.ixs[j]] = ZERO
        return Arr(dims, ixs, [T.subst(b, m) for b in v.bix], v.buf, None, v.ro)
    if all(d.op == 'num' for d in v.dims) and all(d.op == 'num' for d in dims):
        return reshape_concrete(I, v, [int(d.args[0]) for d in dims], order)
    n0, n1 = size_of(I, v), ONE
    for d in dims:
        n1 = d if n1 is ONE else T.mul(n1, d)
    if not I.dim_eq(n0, n1):
        diff = T.add(n0, T.neg(n1))
        I.event('shape_error', a=v.dims, b=dims)
        I.throw('ValueError', 'cannot reshape array of size %s into shape %s' % (T.show(n0), [T.show(d) for d in dims]))
    # merging or splitting axes of unknown length
    if len(dims) == 1 and v.ndim == 2 and order == 'C':
        ix = T.fresh_idx()
        q = T.fn('floor', T.div(ix, v.dims[1]))
        return new_arr(dims, (ix,), v.at([q, T.add(ix, T.neg(T.mul(v.dims[1], q)))]), v.dt, ('view', v.buf), I.site())
    if len(dims) == 2 and v.ndim == 1 and order == 'C':
        i, j = T.fresh_idx(), T.fresh_idx()
        ix = v.ixs[0]
        q = T.fn('floor', T.div(ix, dims[1]))
        body = T.subst(v.body, {q: i, T.add(ix, T.neg(T.mul(dims[1], q))): j, ix: T.add(T.mul(dims[1], i), j)})
        return new_arr(dims, (i, j), body, v.dt, ('view', v.buf), I.site())
    raise Bail('reshape of %s to %s' % ([T.show(d) for d in v.dims], [T.show(d) for d in dims]))


def reshape_concrete(I, v, shape, order):
    n = 1
    for s in shape:
        n *= s
    old = [cnum(d) for d in v.dims]
    m = 1
    for s in old:
        m *= s
    if n != m:
        I.throw('ValueError', 'cannot reshape array of size %d into shape %s' % (m, shape))
    if n > 400:
        raise Bail('large concrete reshape')

    def unflat(p, dims):
        out = []
        for d in (reversed(dims) if order == 'C' else dims):
            out.append(p % d)
            p //= d
        return tuple(reversed(out)) if order == 'C' else tuple(out)
    ixs = fresh_ixs(len(shape))
    body = None
    for p in reversed(range(n)):
        src = unflat(p, old)
        dst = unflat(p, shape)
        t = v.at([T.num(i) for i in src])
        c = T.TRUE
        for i, d in zip(ixs, dst):
            c = T.and_(c, T.eq(i, T.num(d)))
        body = t if body is None else T.ite(c, t, body)
    return new_arr([T.num(s) for s in shape], ixs, body, v.dt, ('view', v.buf), I.site())


def ravel(I, v, order='C'):
    v = asarray(I, v)
    if v.ndim == 1:
        return v
    if v.ndim == 0:
        return Arr((ONE,), fresh_ixs(1), v.bix, v.buf)
    return reshape(I, v, [-1], order)


def broadcast_to(I, v, dims, ro=True):
    v = asarray(I, v)
    b = broadcast(I, [v.dims, dims])
    if len(b) != len(dims) or not all(I.dim_eq(x, y) for x, y in zip(b, dims)):
        I.throw('ValueError', 'cannot broadcast')
    ixs = fresh_ixs(len(dims))
    off = len(dims) - v.ndim
    r = view(v, dims, ixs, [ZERO if is1(d) else ixs[off + j] for j, d in enumerate(v.dims)])
    r.ro = ro
    return r


def shape_dims(I, s):
    s = I.force(s)
    if isinstance(s, (int, Sc)):
        s = (s,)
    its = list(s) if isinstance(s, tuple) else I.iterate(s)
    out = []
    for x in its:
        x = I.force(x)
        if isinstance(x, Arr) and x.ndim == 0:
            x = Sc(x.at(()), x.dt)
        if isinstance(x, Sc) and x.dt in ('f', 'pf', 'g', 'f4'):
            I.throw('TypeError', 'float object cannot be interpreted as an integer')
        if not isinstance(x, (int, Sc)):
            if isinstance(x, Choice):
                raise Bail('conditional shape')
            I.throw('TypeError', 'shape must be integers')
        if isinstance(x, int) and x < 0:
            I.throw('ValueError', 'negative dimensions are not allowed')
        out.append(I.norm_dim(term_of(x)))
    return tuple(out)


def shape_value(I, v):
    if isinstance(v, Arr):
        if v.sel is not None:
            ax = mask_axes(v)
            if v.ndim == 1:
                return (sel_count(I, v),)
            if len(ax) == 1:
                return tuple(sel_count(I, v) if j in ax else ival(d) for j, d in enumerate(v.dims))
            return (sel_count(I, v),)
        return tuple(ival(d) for d in v.dims)
    return ()


def sel_count(I, v, every=False):
    """Number of selected positions along the compressed axes."""
    I.counted = True
    ax = mask_axes(v)
    t = nt(v.sel)
    for j in ax:
        ix = T.fresh_idx()
        t = T.red('sum', ix, v.dims[j], T.subst(t, {v.ixs[j]: ix}))
    if every:
        for j, d in enumerate(v.dims):
            if j not in ax and not is1(d):
                t = T.mul(t, d)
    return Sc(t, 'pi')


# ---------------------------------------------------------------- indexing
def slice_params(I, s, n):
    """((start, step), length) of a slice of an axis of length n."""
    def val(x):
        x = I.force(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, Sc) and x.t.op == 'num':
            if x.dt in ('pf', 'f', 'g'):
                I.throw('TypeError', 'slice indices must be integers')
            return int(x.t.args[0])
        if isinstance(x, (int, type(None), Sc)):
            if isinstance(x, Sc) and x.dt in ('pf', 'f', 'g'):
                I.throw('TypeError', 'slice indices must be integers')
            return x
        if isinstance(x, Arr) and x.ndim == 0:
            return val(Sc(x.at(()), x.dt))
        I.throw('TypeError', 'slice indices must be integers or None')
    lo, hi, st = val(s.lo), val(s.hi), val(s.step)
    if st is None:
        st = 1
    if isinstance(st, Sc):
        raise Bail('symbolic slice step')
    if st == 0:
        I.throw('ValueError', 'slice step cannot be zero')
    nn = cnum(n)
    if nn is not None and not isinstance(lo, Sc) and not isinstance(hi, Sc):
        a, b, c = slice(lo, hi, st).indices(nn)
        return (T.num(a), c), T.num(len(range(a, b, c)))

    def pos(x):
        """Absolute position term, clipped to [0, n]."""
        if isinstance(x, int):
            t = T.num(x) if x >= 0 else I.norm_dim(T.add(n, T.num(x)))
            if x > 0 and I.decide(T.le(t, n)) is not True:
                raise Bail('slice bound against an axis of unknown length')
            if x < 0 and I.decide(T.le(ZERO, t)) is not True:
                if x == -1:
                    return t
                raise Bail('slice bound against an axis of unknown length')
            return t
        t = I.norm_dim(x.t)
        if I.dim_eq(t, n):
            return n
        return t
    if st == 1:
        a = ZERO if lo is None else pos(lo)
        b = n if hi is None else pos(hi)
        if a is ZERO:
            return (ZERO, 1), b
        return (a, 1), I.norm_dim(T.add(b, T.neg(a)))
    if st == -1 and lo in (None, -1) and hi is None:
        return (I.norm_dim(T.add(n, T.num(-1))), -1), n
    if st > 1 and lo in (None,) or (st > 1 and isinstance(lo, int)):
        if hi is None:
            a = 0 if lo is None else lo
            if a >= 0:
                cnt = T.fn('ceil', T.div(T.add(n, T.num(-a)), T.num(st)))
                return (T.num(a), st), cnt
    raise Bail('slice of an axis of unknown length')


def norm_ix(I, x, n):
    """Index term for an integer index of an axis of length n."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Sc) and x.t.op == 'num':
        x = int(x.t.args[0])
    nn = cnum(n)
    if isinstance(x, int):
        if nn is not None:
            if not -nn <= x < nn:
                I.throw('IndexError', 'index %d is out of bounds for axis of size %d' % (x, nn))
            return T.num(x % nn)
        need = T.lt(T.num(x), n) if x >= 0 else T.le(T.num(-x), n)
        d = I.decide(need)
        if d is False:
            I.throw('IndexError', 'index out of bounds')
        if d is None:
            I.pend(T.not_(need), I.exc('IndexError', 'index %d is out of bounds' % x))
        return T.num(x) if x >= 0 else I.norm_dim(T.add(n, T.num(x)))
    t = x.t
    if t.op == 'add' and any(isinstance(a, T.Term) and a.op == 'num' and a.args[0] < 0 for a in t.args):
        d = I.decide(T.lt(t, ZERO))
        if d is None and any(a.op == 'idx' for a in t.args):
            # may wrap around at the first positions
            return T.ite(T.lt(t, ZERO), I.norm_dim(T.add(n, t)), t)
        if d is True:
            return I.norm_dim(T.add(n, t))
    d = I.decide(T.lt(t, n))
    if d is False and t.op != 'idx':
        I.throw('IndexError', 'index out of bounds')
    return t


def expand_index(I, v, ix):
    """Index tuple with the ellipsis expanded and masks normalised."""
    ix = I.force(ix)
    if isinstance(ix, Lst):
        ix = asarray(I, ix)
    items = list(ix) if isinstance(ix, tuple) else [ix]
    items = [I.force(x) for x in items]
    out = []
    for x in items:
        if isinstance(x, (Lst, tuple)):
            x = asarray(I, x)
        if isinstance(x, Tup):
            x = asarray(I, x)
        if isinstance(x, Arr) and x.ndim == 0 and x.dt == 'i':
            x = Sc(x.at(()), 'i')
        if isinstance(x, Choice):
            raise Bail('conditional index')
        if isinstance(x, Sc) and x.dt in ('f', 'pf', 'g', 'f4'):
            I.throw('IndexError', 'only integers, slices and boolean arrays are valid indices')
        if isinstance(x, (str, Str)):
            I.throw('IndexError', 'only integers, slices and boolean arrays are valid indices')
        if isinstance(x, Host):
            I.throw('IndexError', 'only integers, slices and boolean arrays are valid indices')
        out.append(x)
    # index arrays from nonzero(): back to the mask
    nz = [x for x in out if isinstance(x, Arr) and x.sel is not None and x.dt == 'i']
    if nz:
        if len(nz) == 1 and nz[0].ndim == 1 and nz[0].body is nz[0].ixs[0]:
            m = nz[0]
            i = fresh_ixs(1)
            mk = new_arr(m.dims, i, T.subst(m.sel, {m.ixs[0]: i[0]}), 'b')
            out = [mk if x is m else x for x in out]
        elif len(nz) == len(out) and all(x.body is x.ixs[j] for j, x in enumerate(nz)) and \
                len(nz) == nz[0].ndim:
            m = nz[0]
            i = fresh_ixs(m.ndim)
            out = [new_arr(m.dims, i, T.subst(m.sel, dict(zip(m.ixs, i))), 'b')]
        else:
            raise Bail('index arrays from a mask')
    used = 0
    for x in out:
        if x is None or x is Ellipsis:
            continue
        used += x.ndim if isinstance(x, Arr) and x.dt == 'b' else 1
    if used > v.ndim:
        I.throw('IndexError', 'too many indices for array')
    if not any(x is Ellipsis for x in out):
        out.append(Ellipsis)
    res = []
    for x in out:
        if x is Ellipsis:
            res.extend([SliceV(None, None, None)] * (v.ndim - used))
        else:
            res.append(x)
    return res


def is_full(x):
    return isinstance(x, SliceV) and x.lo is None and x.hi is None and (x.step is None or x.step == 1)


def basic_view(I, v, items):
    """View for integers, slices and newaxis; arrays are left as full axes."""
    dims, ixs, old = [], [], []
    ax = 0
    fancy = []
    for x in items:
        if x is None:
            dims.append(ONE)
            ixs.append(T.fresh_idx('u'))
            continue
        if isinstance(x, Arr):
            k = x.ndim if x.dt == 'b' else 1
            fancy.append((len(dims), x))
            for _ in range(k):
                i = T.fresh_idx()
                dims.append(v.dims[ax])
                ixs.append(i)
                old.append(i)
                IXDIM[i] = v.dims[ax]
                ax += 1
            continue
        n = v.dims[ax]
        if isinstance(x, SliceV):
            (start, step), cnt = slice_params(I, x, n)
            i = T.fresh_idx()
            IXDIM[i] = cnt
            dims.append(cnt)
            ixs.append(i)
            if start is ZERO and step == 1:
                old.append(i)
            else:
                old.append(T.add(start, i if step == 1 else T.mul(T.num(step), i)))
        elif isinstance(x, (int, Sc)):
            if isinstance(x, Sc) and T.is_bool(x.t) or isinstance(x, bool):
                raise Bail('boolean scalar index')
            old.append(norm_ix(I, x, n))
        else:
            raise Bail('index %r' % (x,))
        ax += 1
    return view(v, dims, ixs, old), fancy


def scalar_of(v):
    return Sc(v.at(()), v.dt)


def simplify_pick(I, t):
    """elem at argmin -> min."""
    return t


def getitem(I, v, ix):
    if v.sel is not None:
        return sel_getitem(I, v, ix)
    # position of the extreme element
    if isinstance(ix, Sc) and ix.t.op == 'red' and ix.t.args[0] in ('argmin', 'argmax') and v.ndim == 1:
        _, j, d, b = ix.t.args
        if T.subst(v.body, {v.ixs[0]: j}) is b and I.dim_eq(d, v.dims[0]):
            return Sc(T.red(ix.t.args[0][3:], j, d, b), v.dt)
    items = expand_index(I, v, ix)
    r, fancy = basic_view(I, v, items)
    if not fancy:
        if not r.dims and not any(x is Ellipsis for x in (ix if isinstance(ix, tuple) else (ix,))):
            return scalar_of(r)
        return r
    if len(fancy) > 1:
        return multi_fancy(I, r, fancy)
    p, m = fancy[0]
    if m.dt == 'b':
        check_mask(I, r, p, m)
        cond = m.at(r.ixs[p:p + m.ndim])
        d = I.decide(cond) if cond is T.TRUE else None
        if m.ndim > 1 and m.ndim != r.ndim:
            raise Bail('partial multi-dimensional mask')
        ixs = fresh_ixs(r.ndim)
        body = r.at(ixs)
        out = new_arr(r.dims, ixs, body, r.dt, None, I.site())
        if cond is not T.TRUE:
            out.sel = T.subst(cond, dict(zip(r.ixs, ixs)))
        elif m.ndim > 1:
            return ravel(I, out)
        return out
    if m.dt != 'i':
        I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
    ixs = fresh_ixs(m.ndim)
    dims = r.dims[:p] + m.dims + r.dims[p + 1:]
    pos = gather_pos(I, m, ixs, r.dims[p])
    all_ix = r.ixs[:p] + (pos,) + r.ixs[p + 1:]
    new_ix = r.ixs[:p] + ixs + r.ixs[p + 1:]
    out = new_arr(dims, new_ix, r.at(all_ix), r.dt, None, I.site())
    return out


def gather_pos(I, m, ixs, n):
    t = m.at(ixs)
    if t.op == 'num' and t.args[0] < 0:
        return I.norm_dim(T.add(n, t))
    if any(x.op == 'num' and x.args[0] < 0 for x in T.walk(t)):
        return T.ite(T.lt(t, ZERO), T.add(n, t), t)
    return t


def multi_fancy(I, r, fancy):
    if all(m.dt == 'i' for _, m in fancy):
        ps = [p for p, _ in fancy]
        if ps == list(range(ps[0], ps[0] + len(ps))):
            dims = broadcast(I, [m.dims for _, m in fancy])
            ixs = fresh_ixs(len(dims))
            old = list(r.ixs)
            for p, m in fancy:
                off = len(dims) - m.ndim
                sub = [ZERO if is1(d) else ixs[off + j] for j, d in enumerate(m.dims)]
                old[p] = gather_pos(I, m, sub, r.dims[p])
            new_ix = r.ixs[:ps[0]] + ixs + r.ixs[ps[-1] + 1:]
            return new_arr(r.dims[:ps[0]] + dims + r.dims[ps[-1] + 1:], new_ix, r.at(old), r.dt, None, I.site())
    raise Bail('several index arrays')


def check_mask(I, r, p, m):
    if m.sel is not None:
        raise Bail('selected mask')
    for j, d in enumerate(m.dims):
        if not I.dim_eq(d, r.dims[p + j]):
            I.throw('IndexError', 'boolean index did not match indexed array')


def sel_getitem(I, v, ix):
    if isinstance(ix, tuple) and all(x is None or is_full(x) or x is Ellipsis for x in ix):
        items = expand_index(I, v, ix)
        r, _ = basic_view(I, v, items)
        return r
    if is_full(ix) or ix is Ellipsis:
        return v
    if isinstance(ix, Arr) and ix.sel is not None and ix.dt == 'b' and v.ndim == ix.ndim:
        ixs = fresh_ixs(v.ndim)
        if sel_at(v, ixs) is sel_at(ix, ixs):
            r = new_arr(v.dims, ixs, v.at(ixs), v.dt)
            r.sel = T.and_(sel_at(v, ixs), ix.at(ixs))
            return r
    raise Bail('indexing a masked selection')


def affine(e, ixs):
    """(view index, step, start) of an index expression, or None."""
    if e in ixs:
        return e, 1, ZERO
    parts = list(e.args) if e.op == 'add' else [e]
    v, step, rest = None, None, []
    for x in parts:
        if x in ixs:
            if v is not None:
                return None
            v, step = x, 1
        elif x.op == 'mul' and len(x.args) == 2 and x.args[0].op == 'num' and x.args[1] in ixs:
            if v is not None:
                return None
            v, step = x.args[1], int(x.args[0].args[0])
        elif T.free(x) & set(ixs):
            return None
        else:
            rest.append(x)
    if v is None:
        return None
    return v, step, T.add(*rest) if len(rest) > 1 else rest[0] if rest else ZERO


def store(I, v, val, mask=None, how='store'):
    """Write val (operand) to the view v, where mask(view ixs)."""
    if v.ro:
        I.throw('ValueError', 'assignment destination is read-only')
    buf = v.buf
    m, cond = {}, T.TRUE
    dim = dict(zip(v.ixs, v.dims))
    for b, n, e in zip(buf.ixs, buf.dims, v.bix):
        fr = T.free(e) & frozenset(v.ixs)
        if not fr:
            cond = T.and_(cond, T.eq(b, e))
            continue
        a = affine(e, v.ixs)
        if a is None:
            raise Bail('store through a complicated view')
        x, step, start = a
        if x in m:
            cond = T.and_(cond, T.eq(m[x], b) if step == 1 and start is ZERO else T.FALSE)
            continue
        if step == 1 and start is ZERO:
            m[x] = b
            if not I.dim_eq(dim[x], n):
                cond = T.and_(cond, T.lt(b, dim[x]))
        elif step in (1, -1):
            q = T.add(b, T.neg(start)) if step == 1 else T.add(start, T.neg(b))
            m[x] = q
            if not (I.dim_eq(dim[x], n)):
                cond = T.and_(cond, T.and_(T.le(ZERO, q), T.lt(q, dim[x])))
        else:
            k = cnum(dim[x])
            if k is None or k > MAXN:
                raise Bail('store with a stride')
            q = T.div(T.add(b, T.neg(start)), T.num(step))
            m[x] = q
            c = T.FALSE
            for j in range(k):
                c = T.or_(c, T.eq(b, T.add(start, T.num(step * j))))
            cond = T.and_(cond, c)
    for x in v.ixs:
        if x not in m:
            if not is1(dim[x]):
                raise Bail('store through a broadcast view')
            m[x] = ZERO
    pos = [m[x] for x in v.ixs]
    t = at_of(val, pos) if isinstance(val, Arr) else term_of(val)
    t = cast_term(I, t, dt_of(val), buf.dt)
    if mask is not None:
        cond = T.and_(cond, T.subst(mask, m))
    old = buf.c['body']
    I.event('mutate', buf=buf, how=how)
    I.assign(buf.c, 'body', T.ite(cond, t, old))


def fit(I, val, dims):
    """Check that val broadcasts to dims."""
    d = dims_of(val)
    d = tuple(d)
    while len(d) > len(dims) and is1(d[0]):
        d = d[1:]
        val = squeeze(I, val, 0)
    b = broadcast(I, [d, dims])
    if len(b) != len(dims) or not all(I.dim_eq(x, y) for x, y in zip(b, dims)):
        I.event('shape_error', a=d, b=dims)
        I.throw('ValueError', 'could not broadcast input array')
    return val


def setitem(I, v, ix, val):
    val = I.force(val)
    if isinstance(val, Choice):
        nums = all(isinstance(x, (int, Sc, Arr)) for _, x in val.alts)
        if not nums:
            raise Bail('store of alternatives')
        r = val.alts[-1][1]
        for c, x in reversed(val.alts[:-1]):
            r = where_(I, Sc(c, 'b'), x, r)
        val = r
    if v.sel is not None:
        raise Bail('store into a masked copy')
    if val is None:
        I.throw('TypeError', 'float() argument must be a string or a real number')
    val = operand(I, val)
    items = expand_index(I, v, ix)
    r, fancy = basic_view(I, v, items)
    if not fancy:
        if isinstance(val, Arr) and val.sel is not None:
            raise Bail('store of a masked selection')
        if isinstance(val, Arr) and val.ndim and not r.dims:
            if all(is1(d) for d in val.dims):
                val = Sc(val.at([ZERO] * val.ndim), val.dt)
            else:
                I.throw('ValueError', 'setting an array element with a sequence')
        store(I, r, fit(I, val, r.dims) if isinstance(val, Arr) else val)
        return
    if len(fancy) > 1:
        raise Bail('store with several index arrays')
    p, m = fancy[0]
    if m.dt == 'b':
        check_mask(I, r, p, m)
        cond = m.at(r.ixs[p:p + m.ndim])
        if isinstance(val, Arr) and val.ndim:
            if val.sel is not None:
                n = val.ndim
                ixs = r.ixs[len(r.ixs) - n:]
                if sel_at(val, r.ixs) is not cond:
                    raise Bail('store of a selection by another mask')
            else:
                if m.ndim == r.ndim and r.ndim > 1:
                    if not all(is1(d) for d in val.dims):
                        if cond is not T.TRUE or m.ndim != r.ndim:
                            raise Bail('masked store of an array')
                        if val.ndim > 1:
                            I.throw('TypeError', 'NumPy boolean array indexing assignment requires a 0 or 1-dimensional input')
                        size = ONE
                        for d in r.dims:
                            size = T.mul(size, d)
                        if not I.dim_eq(size, val.dims[0]):
                            I.throw('ValueError', 'NumPy boolean array indexing assignment shape mismatch')
                        val = reshape(I, val, tuple(Sc(d, 'i') if isinstance(d, T.Term) else d for d in r.dims))
                else:
                    off = r.ndim - val.ndim
                    if off < 0:
                        I.throw('ValueError', 'could not broadcast')
                    for j, d in enumerate(val.dims):
                        k = off + j
                        if is1(d):
                            continue
                        if k == p:
                            I.throw('ValueError', 'NumPy boolean array indexing assignment shape mismatch') \
                                if not cond is T.TRUE else None
                        if not I.dim_eq(d, r.dims[k]):
                            I.throw('ValueError', 'could not broadcast')
        store(I, r, val, cond)
        return
    if m.dt != 'i':
        I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
    # scatter: the index must be its own position or constant
    k = cnum(m.dims[0]) if m.ndim == 1 else None
    if k is not None and k <= MAXN:
        for j in range(k):
            pos = m.at([T.num(j)])
            sub = view(r, r.dims[:p] + r.dims[p + 1:], r.ixs[:p] + r.ixs[p + 1:], r.ixs[:p] + (pos,) + r.ixs[p + 1:])
            vv = val
            if isinstance(val, Arr) and val.ndim:
                q = val.ndim - (r.ndim - p)
                if q >= 0 and not is1(val.dims[q]):
                    vv = getitem(I, val, tuple([SliceV(None, None, None)] * q + [j]))
            store(I, sub, vv)
        return
    raise Bail('scatter store')


def rows(I, v):
    n = cnum(v.dims[0])
    if n is not None and n <= MAXN:
        return [getitem(I, v, j) for j in range(n)]
    ix = T.fresh_idx('k')
    IXDIM[ix] = v.dims[0]
    m = {v.ixs[0]: ix}
    sub = Arr(v.dims[1:], v.ixs[1:], [T.subst(b, m) for b in v.bix], v.buf, None, v.ro)
    if not sub.dims:
        return [Seg(v.dims[0], ix, Sc(sub.at(()), v.dt))]
    return [Seg(v.dims[0], ix, sub)]


# ---------------------------------------------------------------- ufuncs
def fdt(*dts):
    d = promote(*dts)
    d = strong(d)
    return 'f' if d in ('b', 'i') else d


def t_floor_div(a, b):
    return T.fn('floor', T.div(a, b)) if not (a.op == 'num' and b.op == 'num' and b.args[0] != 0) else \
        T.num(a.args[0] // b.args[0])


def t_mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return T.num(a.args[0] % b.args[0])
    return T.add(a, T.neg(T.mul(b, T.fn('floor', T.div(a, b)))))


def fold1(name, t):
    if t.op == 'num':
        import math
        q = t.args[0]
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round, 'abs': abs,
             'sign': lambda z: (z > 0) - (z < 0)}.get(name)
        if f:
            return T.num(Fraction(f(q)))
    return T.fn(name, t)


HALF = T.num(Fraction(1, 2))
U1 = {
    'exp': ('f', lambda x: T.fn('exp', x)),
    'expm1': ('f', lambda x: T.add(T.fn('exp', x), T.num(-1))),
    'exp2': ('f', lambda x: T.power(T.num(2), x)),
    'log': ('f', lambda x: T.fn('log', x)),
    'log1p': ('f', lambda x: T.fn('log', T.add(ONE, x))),
    'log2': ('f', lambda x: T.div(T.fn('log', x), T.fn('log', T.num(2)))),
    'log10': ('f', lambda x: T.div(T.fn('log', x), T.fn('log', T.num(10)))),
    'sqrt': ('f', lambda x: T.power(x, HALF)),
    'cbrt': ('f', lambda x: T.power(x, T.num(Fraction(1, 3)))),
    'sinh': ('f', lambda x: T.fn('sinh', x)),
    'cosh': ('f', lambda x: T.fn('cosh', x)),
    'tanh': ('f', lambda x: T.fn('tanh', x)),
    'sin': ('f', lambda x: T.app('sin', x)), 'cos': ('f', lambda x: T.app('cos', x)),
    'tan': ('f', lambda x: T.app('tan', x)), 'arctan': ('f', lambda x: T.app('arctan', x)),
    'arcsinh': ('f', lambda x: T.app('arcsinh', x)), 'arccosh': ('f', lambda x: T.app('arccosh', x)),
    'arctanh': ('f', lambda x: T.app('arctanh', x)),
    'arcsin': ('f', lambda x: T.app('arcsin', x)), 'arccos': ('f', lambda x: T.app('arccos', x)),
    'square': ('a', lambda x: T.mul(x, x)),
    'negative': ('n', lambda x: T.neg(x)), 'positive': ('a', lambda x: x),
    'abs': ('a', lambda x: fold1('abs', x)), 'absolute': ('a', lambda x: fold1('abs', x)),
    'fabs': ('f', lambda x: fold1('abs', x)),
    'sign': ('a', lambda x: fold1('sign', x)),
    'floor': ('a', lambda x: fold1('floor', x)), 'ceil': ('a', lambda x: fold1('ceil', x)),
    'trunc': ('a', lambda x: fold1('trunc', x)), 'rint': ('f', lambda x: fold1('round', x)),
    'reciprocal': ('r', lambda x: T.div(ONE, x)),
    'isnan': ('b', lambda x: T.fn('isnan', x)), 'isinf': ('b', lambda x: T.fn('isinf', x)),
    'isfinite': ('b', lambda x: T.fn('isfinite', x)),
    'logical_not': ('l', lambda x: T.not_(x)),
    'invert': ('v', lambda x: T.not_(x)),
    'signbit': ('b', lambda x: T.lt(x, ZERO)),
    'conjugate': ('a', lambda x: x), 'conj': ('a', lambda x: x), 'real': ('a', lambda x: x),
    'isneginf': ('b', lambda x: T.and_(T.fn('isinf', x), T.lt(x, ZERO))),
    'isposinf': ('b', lambda x: T.and_(T.fn('isinf', x), T.lt(ZERO, x))),
    'spacing': ('f', lambda x: T.app('spacing', x)),
}


def t_max(a, b):
    return T.ite(T.le(b, a), a, b)


def t_min(a, b):
    return T.ite(T.le(a, b), a, b)


def t_pow(a, b):
    return T.power(a, b)


U2 = {
    'add': ('a', T.add), 'subtract': ('a', T.sub), 'multiply': ('a', T.mul),
    'divide': ('f', T.div), 'true_divide': ('f', T.div),
    'power': ('p', t_pow), 'float_power': ('f', t_pow), 'pow': ('p', t_pow),
    'floor_divide': ('a', t_floor_div), 'mod': ('a', t_mod), 'remainder': ('a', t_mod),
    'fmod': ('a', lambda a, b: T.add(a, T.neg(T.mul(b, T.fn('trunc', T.div(a, b)))))),
    'maximum': ('a', t_max), 'fmax': ('a', t_max), 'minimum': ('a', t_min), 'fmin': ('a', t_min),
    'hypot': ('f', lambda a, b: T.power(T.add(T.mul(a, a), T.mul(b, b)), HALF)),
    'logaddexp': ('f', lambda a, b: T.fn('log', T.add(T.fn('exp', a), T.fn('exp', b)))),
    'logaddexp2': ('f', lambda a, b: T.div(T.fn('log', T.add(T.power(T.num(2), a), T.power(T.num(2), b))),
                                          T.fn('log', T.num(2)))),
    'less': ('b', T.lt), 'less_equal': ('b', T.le), 'greater': ('b', lambda a, b: T.lt(b, a)),
    'greater_equal': ('b', lambda a, b: T.le(b, a)), 'equal': ('b', T.eq),
    'not_equal': ('b', lambda a, b: T.not_(T.eq(a, b))),
    'logical_and': ('l', T.and_), 'logical_or': ('l', T.or_),
    'logical_xor': ('l', lambda a, b: T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b))),
    'bitwise_and': ('v', T.and_), 'bitwise_or': ('v', T.or_),
    'bitwise_xor': ('v', lambda a, b: T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b))),
    'copysign': ('f', lambda a, b: T.mul(T.fn('abs', a), T.ite(T.lt(b, ZERO), T.num(-1), ONE))),
    'heaviside': ('f', lambda a, b: T.ite(T.lt(a, ZERO), ZERO, T.ite(T.eq(a, ZERO), b, ONE))),
    'arctan2': ('f', lambda a, b: T.app('arctan2', a, b)),
    'ldexp': ('f', lambda a, b: T.mul(a, T.power(T.num(2), b))),
}
BINOP = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'FloorDiv': 'floor_divide',
         'Mod': 'mod', 'Pow': 'power', 'BitAnd': 'bitwise_and', 'BitOr': 'bitwise_or', 'BitXor': 'bitwise_xor'}
CMPOP = {'Lt': 'less', 'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal', 'Eq': 'equal', 'NotEq': 'not_equal'}


def kernel(I, name, dts):
    """(result dtype, term function) for operand dtypes."""
    kind, f = U1[name] if name in U1 else U2[name]
    if kind == 'f':
        d = fdt(*dts)
        return d, lambda *x: f(*[nt(t) for t in x])
    if kind == 'b':
        return 'b', lambda *x: f(*[nt(t) for t in x])
    if kind == 'l':
        return 'b', lambda *x: f(*[bt(t) for t in x])
    d = strong(promote(*dts))
    if kind == 'v':
        if d != 'b':
            if d == 'i':
                raise Bail('bitwise operation on integers')
            I.throw('TypeError', 'ufunc %r not supported for the input types' % name)
        return 'b', f
    if kind == 'n' or (name == 'subtract' and d == 'b'):
        if d == 'b':
            I.throw('TypeError', 'numpy boolean %s is not supported' % name)
    if d == 'b' and name in ('add', 'maximum', 'fmax'):
        return 'b', T.or_
    if d == 'b' and name in ('multiply', 'minimum', 'fmin'):
        return 'b', T.and_
    if d == 'b':
        if name in ('abs', 'absolute', 'positive', 'conjugate'):
            return 'b', f
        d = 'i'
    if kind == 'r' and d == 'i':
        return 'i', lambda x: T.fn('trunc', T.div(ONE, nt(x)))
    if kind == 'p':
        return d, lambda a, b: f(nt(a), nt(b))
    return d, lambda *x: f(*[nt(t) for t in x])


def dist(I, vals, go):
    """Resolve Choice operands."""
    vals = [I.force(v) for v in vals]
    for j, v in enumerate(vals):
        if isinstance(v, Choice):
            return I.distribute(v, lambda x: dist(I, vals[:j] + [x] + vals[j + 1:], go))
    return go(vals)


def ufunc(I, name, args, out=None, where=True, dtype=None, casting='same_kind', **kw):
    return dist(I, list(args), lambda vs: _ufunc(I, name, vs, out, where, dtype, casting))


def _ufunc(I, name, args, out=None, where=True, dtype=None, casting='same_kind'):
    nin = 1 if name in U1 else 2
    args = list(args)
    if len(args) == nin + 1:
        out = args.pop()
    if len(args) != nin:
        I.throw('TypeError', '%s() takes from %d to %d positional arguments' % (name, nin, nin + 1))
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    out = I.force(out)
    if out is not None and not isinstance(out, Arr):
        if isinstance(out, Choice):
            raise Bail('conditional out array')
        I.throw('TypeError', 'return arrays must be of ArrayType')
    args = [operand(I, a) for a in args]
    dts = [dt_of(a) for a in args]
    if 'O' in dts:
        raise Bail('object arrays')
    dt, f = kernel(I, name, dts)
    want = need_dtype(I, dtype) if dtype is not None else None
    if want is not None and dt != 'b' and want != dt:
        if want in ('f', 'g', 'f4') or want == dt:
            # operands are converted before the operation
            args = [astype(I, a, want) for a in args]
            dt, f = kernel(I, name, [want] * nin)
        elif want == 'i' and dt == 'b':
            dt = 'i'
        else:
            I.throw('TypeError', 'cannot cast ufunc %r' % name)
    if name in ('power', 'pow') and dt == 'i':
        b = args[1]
        neg = T.lt(b.at([ZERO if is1(d) else i for d, i in zip(b.dims, b.ixs)]) if isinstance(b, Arr) else term_of(b), ZERO)
        d = I.decide(neg)
        if d is True:
            I.throw('ValueError', 'Integers to negative integer powers are not allowed.')
        if d is None and not any(x.op == 'idx' for x in T.free(neg)):
            I.pend(neg, I.exc('ValueError', 'Integers to negative integer powers are not allowed.'))
    where = I.force(where)
    mask = None
    if where is not True:
        if isinstance(where, (int, Sc, Arr, Lst, tuple)):
            mask = operand(I, where)
            if dt_of(mask) not in ('b', 'pb'):
                I.throw('TypeError', "Cannot cast array data to dtype('bool') according to the rule 'safe'")
        else:
            raise Bail('where=%r' % (where,))
    vals = args + ([mask] if mask is not None else [])
    if 'raise' in I.fperr.values():
        fp_errors(I, name, args, mask, dt)
    if out is None:
        if mask is None:
            r = elementwise(I, vals, f, dt)
        else:
            r = elementwise(I, vals, lambda *x: T.ite(bt(x[-1]), f(*x[:-1]), UNINIT), dt)
        if dt in ('f', 'f4'):
            I.event('ufunc', name=name, dt=dt, dts=[strong(d) for d in dts],
                    term=r.body if isinstance(r, Arr) else r.t, operands=args)
        return r
    if not can_same_kind(dt, out.dt) and casting != 'unsafe':
        I.throw('TypeError', "Cannot cast ufunc %r output from %s to %s with casting rule 'same_kind'" % (name, dt, out.dt))
    dims = broadcast(I, [dims_of(v) for v in vals] + [out.dims])
    if len(dims) != out.ndim or not all(I.dim_eq(a, b) for a, b in zip(dims, out.dims)):
        I.event('shape_error', a=dims, b=out.dims)
        I.throw('ValueError', 'non-broadcastable output operand')
    ixs = fresh_ixs(out.ndim)
    if out.sel is not None or any(isinstance(v, Arr) and v.sel is not None for v in vals):
        if out.sel is None:
            raise Bail('masked selection stored in an unmasked array')
        common_sel(I, vals + [out], out.dims, ixs)
    body = f(*[at_of(v, ixs) for v in args])
    res = new_arr(out.dims, ixs, body, dt)
    mk = at_of(mask, out.ixs) if mask is not None else None
    if dt in ('f', 'f4'):
        I.event('ufunc', name=name, dt=dt, dts=[strong(d) for d in dts], term=body, operands=args)
    store(I, out, res, bt(mk) if mk is not None else None, how='ufunc %s out=' % name)
    return out


def fp_errors(I, name, args, mask, dt):
    """Exceptions of floating-point operations while numpy is told to raise them."""
    if dt not in ('f', 'f4', 'g'):
        return
    isnan = lambda t: T.not_(T.eq(t, t))
    isinf = lambda t: T.or_(T.eq(t, T.INF), T.eq(t, T.neg(T.INF)))
    finite = lambda t: T.and_(T.lt(t, T.INF), T.lt(T.neg(T.INF), t))
    vals = args + ([mask] if mask is not None else [])
    dims = broadcast(I, [dims_of(v) for v in vals])
    ixs = fresh_ixs(len(dims))
    ts = [nt(at_of(v, ixs)) for v in args]
    lim = T.num({'f4': 88, 'f': 709, 'g': 11356}[dt])
    conds = []
    if name in ('exp', 'sinh', 'cosh', 'expm1'):
        big = T.lt(lim, ts[0])
        if name in ('sinh', 'cosh'):
            big = T.or_(big, T.lt(ts[0], T.neg(lim)))
        conds.append(('over', 'overflow', T.and_(finite(ts[0]), big)))
        if name == 'exp':
            conds.append(('under', 'underflow', T.and_(finite(ts[0]), T.lt(ts[0], T.neg(T.add(lim, T.num(40)))))))
    elif name in ('divide', 'true_divide', 'reciprocal'):
        den = ts[-1]
        numr = ts[0] if len(ts) > 1 else ONE
        conds.append(('divide', 'divide by zero', T.and_(T.eq(den, ZERO), T.not_(T.eq(numr, ZERO)))))
        if len(ts) > 1:
            conds.append(('invalid', 'invalid value', T.or_(T.and_(T.eq(den, ZERO), T.eq(numr, ZERO)), T.and_(isinf(den), isinf(numr)))))
    elif name == 'multiply':
        a, b = ts
        conds.append(('invalid', 'invalid value', T.or_(T.and_(T.eq(a, ZERO), isinf(b)), T.and_(T.eq(b, ZERO), isinf(a)))))
    elif name in ('log', 'log2', 'log10'):
        conds.append(('divide', 'divide by zero', T.eq(ts[0], ZERO)))
        conds.append(('invalid', 'invalid value', T.lt(ts[0], ZERO)))
    elif name == 'sqrt':
        conds.append(('invalid', 'invalid value', T.lt(ts[0], ZERO)))
    elif name in ('add', 'subtract'):
        b = ts[1] if name == 'add' else T.neg(ts[1])
        conds.append(('invalid', 'invalid value', T.and_(isinf(ts[0]), T.eq(ts[0], T.neg(b)))))
    elif name == 'power':
        conds.append(('divide', 'divide by zero', T.and_(T.eq(ts[0], ZERO), T.lt(ts[1], ZERO))))
    for kind, what, c in conds:
        if I.fperr[kind] != 'raise':
            continue
        if mask is not None:
            c = T.and_(bt(at_of(mask, ixs)), c)
        for i, d in zip(reversed(ixs), reversed(dims)):
            if is1(d):
                c = T.subst(c, {i: ZERO})
            elif i in T.free(c):
                c = T.red('any', i, d, c)
        if I.decide(c) is True:
            I.throw('FloatingPointError', '%s encountered in %s' % (what, name))
        I.pend(c, I.exc('FloatingPointError', '%s encountered in %s' % (what, name)))


def scalar_op(I, op, a, b):
    da, db = dt_of(a), dt_of(b)
    weak = da in _WEAK and db in _WEAK
    ta, tb = num_term(a), num_term(b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and da in ('b', 'pb') and db in ('b', 'pb'):
        f = {'BitAnd': T.and_, 'BitOr': T.or_, 'BitXor': U2['bitwise_xor'][1]}[op]
        return Sc(f(bt(term_of(a)), bt(term_of(b))), 'pb' if weak else 'b')
    if weak:
        isint = da in ('pi', 'pb') and db in ('pi', 'pb')
        if op in ('Div', 'FloorDiv', 'Mod'):
            z = T.eq(tb, ZERO)
            d = I.decide(z)
            if d is True:
                I.throw('ZeroDivisionError', 'division by zero')
            if d is None:
                I.pend(z, I.exc('ZeroDivisionError', 'division by zero'))
        if op == 'Add':
            return Sc(T.add(ta, tb), 'pi' if isint else 'pf')
        if op == 'Sub':
            return Sc(T.sub(ta, tb), 'pi' if isint else 'pf')
        if op == 'Mult':
            return Sc(T.mul(ta, tb), 'pi' if isint else 'pf')
        if op == 'Div':
            return constfix(Sc(T.div(ta, tb), 'pf'))
        if op == 'FloorDiv':
            return Sc(t_floor_div(ta, tb), 'pi' if isint else 'pf')
        if op == 'Mod':
            return Sc(t_mod(ta, tb), 'pi' if isint else 'pf')
        if op == 'Pow':
            return constfix(Sc(T.power(ta, tb), 'pi' if isint and I.decide(T.le(ZERO, tb)) is not False else 'pf'))
        if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
            if not isint:
                I.throw('TypeError', 'unsupported operand type(s)')
            raise Bail('bit operation on symbolic integers')
        I.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    if op == 'MatMult':
        I.throw('ValueError', 'matmul: input operand does not have enough dimensions')
    if op not in BINOP:
        raise Bail('numpy scalar operator ' + op)
    r = _ufunc(I, BINOP[op], [a, b])
    return r


def constfix(s):
    return s


def binop(I, op, a, b):
    if op == 'MatMult':
        return matmul(I, a, b)
    if op not in BINOP:
        raise Bail('array operator ' + op)
    return _ufunc(I, BINOP[op], [a, b])


def unary(I, op, v):
    return _ufunc(I, {'USub': 'negative', 'UAdd': 'positive', 'Invert': 'invert'}[op], [v])


def compare(I, op, a, b):
    if op not in CMPOP:
        raise Bail('array comparison ' + op)
    for x in (a, b):
        if x is None or isinstance(x, (str, Str, Host, Fn, Cls, Inst, Dct)):
            if op in ('Eq', 'NotEq'):
                arr = a if isinstance(a, Arr) else b
                ixs = fresh_ixs(arr.ndim)
                return new_arr(arr.dims, ixs, T.FALSE if op == 'Eq' else T.TRUE, 'b')
            I.throw('TypeError', 'comparison not supported')
    try:
        return _ufunc(I, CMPOP[op], [a, b])
    except PyRaise as e:
        if op in ('Eq', 'NotEq') and e.exc.cls.name == 'ValueError':
            raise
        raise


def inplace(I, op, arr, val):
    val = I.force(val)
    if isinstance(val, Choice):
        r = binop_any(I, op, arr, val)
        if not can_same_kind(r.dt, arr.dt):
            I.throw('TypeError', 'Cannot cast ufunc output')
        store(I, arr, fit(I, r, arr.dims), how='in-place %s' % op)
        return arr
    if op == 'MatMult':
        r = matmul(I, arr, val)
        store(I, arr, fit(I, r, arr.dims), how='in-place matmul')
        return arr
    if arr.sel is not None:
        r = _ufunc(I, BINOP[op], [arr, val])
        if not can_same_kind(r.dt, arr.dt):
            I.throw('TypeError', 'Cannot cast ufunc output')
        return astype(I, r, arr.dt)
    if val is None or isinstance(val, (str, Str)):
        I.throw('TypeError', 'unsupported operand')
    _ufunc(I, BINOP[op], [arr, val], out=arr)
    return arr


def binop_any(I, op, a, b):
    return I.distribute(b, lambda x: _ufunc(I, BINOP[op], [a, x]))


# ---------------------------------------------------------------- reductions
def norm_axes(I, axis, nd):
    axis = I.force(axis)
    if axis is None:
        return tuple(range(nd))
    axs = axis if isinstance(axis, tuple) else tuple(axis.items) if isinstance(axis, Lst) else (axis,)
    out = []
    for a in axs:
        a = I.force(a)
        if isinstance(a, Sc) and a.t.op == 'num':
            a = int(a.t.args[0])
        if not isinstance(a, int):
            raise Bail('symbolic axis')
        if not -nd <= a < nd:
            e = I.exc('ValueError', 'axis %d is out of bounds for array of dimension %d' % (a, nd))
            raise PyRaise(e)
        out.append(a % nd if nd else 0)
    if len(set(out)) != len(out):
        I.throw('ValueError', 'duplicate value in axis')
    return tuple(out)


NEUTRAL = {'sum': ZERO, 'prod': ONE, 'min': T.INF, 'max': T.mk('mul', T.num(-1), T.INF), 'any': T.FALSE, 'all': T.TRUE}


def red_term(op, ix, d, body):
    """Reduction; short concrete axes are written out."""
    n = cnum(d)
    if n is not None and n <= 16 and op in ('sum', 'prod', 'any', 'all', 'min', 'max') and n > 0:
        ts = [T.subst(body, {ix: T.num(j)}) for j in range(n)]
        if op == 'sum':
            return T.add(*ts) if n > 1 else ts[0]
        if op == 'prod':
            return T.mul(*ts) if n > 1 else ts[0]
        r = ts[0]
        for t in ts[1:]:
            r = {'any': T.or_, 'all': T.and_, 'min': t_min, 'max': t_max}[op](r, t)
        return r
    if n == 0 and op in NEUTRAL:
        return NEUTRAL[op]
    if op in ('sum', 'prod') and ix not in T.free(body) and body.op == 'num':
        if op == 'sum':
            return T.mul(d, body)
        return T.power(body, d)
    return T.red(op, ix, d, body)


def reduce(I, op, v, axis=None, keepdims=False, dtype=None, out=None, where=True, initial=MISSING, ddof=0):
    v = I.force(v)
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: reduce(I, op, x, axis, keepdims, dtype, out, where, initial, ddof))
    if isinstance(v, (int, Sc)):
        v = asarray(I, v)
    else:
        v = operand(I, v)
        if not isinstance(v, Arr):
            v = asarray(I, v)
    if v.dt == 'O':
        raise Bail('object arrays')
    keepdims = I.force(keepdims)
    if where is not True and where is not None:
        w = asarray(I, operand(I, where))
        b = broadcast(I, [v.dims, w.dims])
        v = broadcast_to(I, v, b)
        ixs = fresh_ixs(v.ndim)
        c = bt(at_of(w, ixs))
        if v.sel is not None:
            raise Bail('where= on a selection')
        if op in ('sum', 'prod', 'any', 'all', 'count'):
            body = v.at(ixs)
            if op in ('any', 'count'):
                v2 = new_arr(v.dims, ixs, T.and_(c, bt(body)), 'b')
            elif op == 'all':
                v2 = new_arr(v.dims, ixs, T.or_(T.not_(c), bt(body)), 'b')
            else:
                v2 = new_arr(v.dims, ixs, T.ite(c, nt(body), NEUTRAL[op]), v.dt if v.dt != 'b' else 'i')
            return reduce(I, op, v2, axis, keepdims, dtype, out, True, initial, ddof)
        if op in ('min', 'max') and initial is not MISSING and isnum(initial):
            v2 = new_arr(v.dims, ixs, T.ite(c, nt(v.at(ixs)), num_term(initial)), v.dt)
            return reduce(I, op, v2, axis, keepdims, dtype, out, True, initial, ddof)
        if op == 'mean' and not (v.dt in ('b', 'i') and dtype is not None):
            tot = reduce(I, 'sum', v, axis, keepdims, dtype, None, where)
            cnt = reduce(I, 'count', new_arr(v.dims, ixs, T.TRUE, 'b'), axis, keepdims, None, None, where)
            return finish(I, _ufunc(I, 'divide', [tot, cnt]), out)
        if v.ndim > 1:
            raise Bail('%s with where=' % op)
        v2 = new_arr(v.dims, ixs, v.at(ixs), v.dt)
        v2.sel = c
        if op in ('min', 'max') and initial is MISSING:
            I.throw('ValueError', 'reduction operation %s does not have an identity' % op)
        r = reduce(I, op, v2, axis, keepdims, dtype, out, True, initial, ddof)
        return r
    axs = norm_axes(I, axis, v.ndim)
    if dtype is not None:
        dtype = need_dtype(I, dtype)
    src = v.dt
    # dtype of the result
    if op in ('sum', 'prod'):
        dt = dtype or ('i' if src == 'b' else src)
    elif op in ('mean', 'std', 'var'):
        dt = dtype or ('f' if src in ('b', 'i') else src)
    elif op in ('any', 'all'):
        dt = 'b'
    elif op in ('argmin', 'argmax', 'count'):
        dt = 'i'
    else:
        dt = src
    if op in ('min', 'max', 'argmin', 'argmax'):
        for a in axs:
            if cnum(v.dims[a]) == 0:
                I.throw('ValueError', 'zero-size array to reduction operation')
    if v.sel is not None:
        ma = mask_axes(v)
        if v.ndim == len(ma) and v.ndim > 1:       # flattened selection
            if axis is not None and axs != (0,) and len(axs) != v.ndim:
                I.throw('ValueError', 'axis out of bounds')
            axs = tuple(range(v.ndim)) if axis is None or axs == (0,) else axs
    if op in ('mean', 'std', 'var'):
        s = reduce(I, 'sum', astype(I, v, dt) if v.dt != dt else v, axis if v.sel is None else (axs if axis is not None else None),
                   True)
        n = ONE
        if v.sel is not None:
            cnt = v.sel
            for a in axs:
                ix = T.fresh_idx()
                cnt = red_term('sum', ix, v.dims[a], T.subst(nt(cnt) if a == axs[0] else cnt, {v.ixs[a]: ix}))
            n = nt(cnt)
            if T.free(n) & set(v.ixs):
                raise Bail('mean over part of a selection')
        else:
            for a in axs:
                n = v.dims[a] if n is ONE else T.mul(n, v.dims[a])
        mean = _ufunc(I, 'divide', [s, Sc(n, 'pi')])
        if op == 'mean':
            r = mean
        else:
            d = _ufunc(I, 'subtract', [v, mean])
            sq = _ufunc(I, 'multiply', [d, d])
            s2 = reduce(I, 'sum', sq, axs, True)
            dd = term_of(ddof) if isnum(ddof) else ZERO
            r = _ufunc(I, 'divide', [s2, Sc(T.add(n, T.neg(dd)) if dd is not ZERO else n, 'pi')])
            if op == 'std':
                r = _ufunc(I, 'sqrt', [r])
        if isinstance(r, Arr) and keepdims is not True:
            r = squeeze(I, r, axs)
            if not r.dims:
                r = scalar_of(r)
        return finish(I, r, out)
    ixs = fresh_ixs(v.ndim)
    body = v.at(ixs)
    sel = sel_at(v, ixs)
    if op == 'count':
        body = nt(bt(body))
        rop = 'sum'
    else:
        rop = op
    if rop in ('any', 'all'):
        body = bt(body)
    elif rop in ('sum', 'prod', 'min', 'max') and not (rop in ('min', 'max') and src == 'b'):
        body = nt(body)
        if rop in ('sum', 'prod'):
            body = cast_term(I, body, src if src != 'b' else 'i', dt)
    if src == 'b' and rop in ('min', 'max'):
        rop = 'all' if rop == 'min' else 'any'
    rest_sel = None
    if sel is not None:
        fr = T.free(sel)
        if any(ixs[a] in fr for a in axs):
            if any(ixs[j] in fr for j in range(v.ndim) if j not in axs) and not (v.ndim == len(mask_axes(v)) and where is True):
                pass
            if rop in NEUTRAL:
                if rop == 'any':
                    body = T.and_(sel, body)
                elif rop == 'all':
                    body = T.or_(T.not_(sel), body)
                else:
                    body = T.ite(sel, body, NEUTRAL[rop])
            else:
                raise Bail('%s of a masked selection' % op)
        else:
            rest_sel = sel
    if rop in ('argmin', 'argmax'):
        if axis is None and v.ndim > 1 or len(axs) != 1:
            if v.ndim != 1:
                raise Bail('argmin of a flattened array')
        a = axs[0]
        body = T.red(rop, ixs[a], v.dims[a], body)
    else:
        for a in reversed(axs):
            body = red_term(rop, ixs[a], v.dims[a], body)
    if initial is not MISSING and initial is not None:
        it = num_term(initial) if isnum(initial) else _bail('initial')
        body = {'sum': T.add, 'prod': T.mul, 'min': t_min, 'max': t_max, 'any': lambda x, y: T.or_(bt(x), y),
                'all': lambda x, y: T.and_(bt(x), y)}[rop](it, body)
    if keepdims is True:
        dims = tuple(ONE if j in axs else d for j, d in enumerate(v.dims))
        nix = tuple(T.fresh_idx('u') if j in axs else x for j, x in enumerate(ixs))
    elif keepdims is False or keepdims is None:
        dims = tuple(d for j, d in enumerate(v.dims) if j not in axs)
        nix = tuple(x for j, x in enumerate(ixs) if j not in axs)
    else:
        raise Bail('keepdims')
    if not dims:
        r = Sc(body, dt)
    else:
        r = new_arr(dims, nix, body, dt, None, I.site())
        r.sel = rest_sel
    if dt in ('f', 'f4') and op in ('sum', 'prod'):
        I.event('ufunc', name=op, dt=dt, dts=[src], term=body, operands=[v])
    return finish(I, r, out)


def _bail(m):
    raise Bail(m)


def finish(I, r, out):
    out = I.force(out)
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if not can_same_kind(dt_of(r), out.dt):
        I.throw('TypeError', 'Cannot cast output')
    store(I, out, fit(I, r, out.dims) if isinstance(r, Arr) else r, how='out=')
    return out


# ---------------------------------------------------------------- products
def einsum_like(I, operands, subs, outsub, dt=None):
    """General sum of products with index letters."""
    dim = {}
    ix = {}
    t = None
    for v, s in zip(operands, subs):
        if len(s) != len(dims_of(v)):
            I.throw('ValueError', 'einstein sum subscripts string does not match the operand')
        for l, d in zip(s, dims_of(v)):
            if l in dim:
                if is1(dim[l]) and not is1(d):
                    dim[l] = d
                elif not is1(d) and not I.dim_eq(dim[l], d):
                    bad(I, dim[l], d)
            else:
                dim[l] = d
                ix[l] = T.fresh_idx()
    for v, s in zip(operands, subs):
        if isinstance(v, Arr) and v.sel is not None:
            raise Bail('product of a masked selection')
        x = nt(v.at([ZERO if is1(d) else ix[l] for l, d in zip(s, v.dims)])) if isinstance(v, Arr) else nt(term_of(v))
        t = x if t is None else T.mul(t, x)
    for l in reversed([l for l in dim if l not in outsub]):
        t = red_term('sum', ix[l], dim[l], t)
    dt = dt or strong(promote(*[dt_of(v) for v in operands]))
    if dt in ('f', 'f4'):
        I.event('ufunc', name='einsum', dt=dt, dts=[strong(dt_of(v)) for v in operands], term=t, operands=operands)
    if not outsub:
        return Sc(t, dt)
    return new_arr([dim[l] for l in outsub], [ix[l] for l in outsub], t, dt, None, I.site())


def matmul(I, a, b):
    a, b = operand(I, a), operand(I, b)
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim == 0 or b.ndim == 0:
        I.throw('ValueError', 'matmul: Input operand does not have enough dimensions')
    if a.ndim == 1 and b.ndim == 1:
        return einsum_like(I, [a, b], ['i', 'i'], '')
    if a.ndim == 1 and b.ndim == 2:
        return einsum_like(I, [a, b], ['i', 'ij'], 'j')
    if a.ndim == 2 and b.ndim == 1:
        return einsum_like(I, [a, b], ['ij', 'j'], 'i')
    n = max(a.ndim, b.ndim) - 2
    L = 'ABCDEFG'[:n]
    return einsum_like(I, [a, b], [L[n - (a.ndim - 2):] + 'ij', L[n - (b.ndim - 2):] + 'jk'], L + 'ik')


def dot(I, a, b):
    a, b = operand(I, a), operand(I, b)
    if not isinstance(a, Arr) or not isinstance(b, Arr) or not a.ndim or not b.ndim:
        return _ufunc(I, 'multiply', [a, b])
    if b.ndim == 1:
        L = 'abcdefgh'[:a.ndim - 1]
        return einsum_like(I, [a, b], [L + 'z', 'z'], L)
    L, M = 'abcdefgh'[:a.ndim - 1], 'ijklmnop'[:b.ndim - 1]
    return einsum_like(I, [a, b], [L + 'z', M[:-1] + 'z' + M[-1]], L + M)


def einsum(I, a, k):
    spec = a[0]
    if not isinstance(spec, str):
        raise Bail('einsum operand lists')
    ops = [operand(I, x) for x in a[1:]]
    ops = [x if isinstance(x, Arr) else asarray(I, x) for x in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, outs = spec.split('->')
    else:
        lhs, outs = spec, None
    subs = lhs.split(',')
    if len(subs) != len(ops):
        I.throw('ValueError', 'more operands provided to einstein sum function than specified')
    if '...' in spec:
        n = max(o.ndim - (len(s) - 3) for s, o in zip(subs, ops) if '...' in s)
        ell = 'UVWXYZ'[:n]
        subs = [s.replace('...', ell[n - (o.ndim - (len(s) - 3)):]) if '...' in s else s for s, o in zip(subs, ops)]
        if outs is not None:
            outs = outs.replace('...', ell)
        else:
            outs = ell
            allc = ''.join(subs)
            outs = ell + ''.join(sorted(c for c in set(allc) - set(ell) if allc.count(c) == 1))
    if outs is None:
        allc = ''.join(subs)
        outs = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    r = einsum_like(I, ops, subs, outs)
    return finish(I, r, k.get('out'))


def outer(I, a, b, f='multiply'):
    a, b = asarray(I, operand(I, a)), asarray(I, operand(I, b))
    if f == 'multiply-ravel':
        a, b = ravel(I, a), ravel(I, b)
        f = 'multiply'
    x = a
    for _ in range(b.ndim):
        x = expand(I, x, x.ndim)
    return _ufunc(I, f, [x, b])


def tensordot(I, a, b, axes):
    a, b = asarray(I, operand(I, a)), asarray(I, operand(I, b))
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        g = lambda z: [z] if isinstance(z, int) else list(z if isinstance(z, tuple) else z.items)
        xa, xb = g(axes[0] if isinstance(axes, tuple) else axes.items[0]), g(axes[1] if isinstance(axes, tuple) else axes.items[1])
    xa = [x % a.ndim for x in xa]
    xb = [x % b.ndim for x in xb]
    la = ['abcdefgh'[i] for i in range(a.ndim)]
    lb = ['ijklmnop'[i] for i in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    out = [l for i, l in enumerate(la) if i not in xa] + [l for i, l in enumerate(lb) if i not in xb]
    return einsum_like(I, [a, b], [''.join(la), ''.join(lb)], ''.join(out))


# ---------------------------------------------------------------- selected functions
def where_(I, c, a, b):
    c, a, b = operand(I, c), operand(I, a), operand(I, b)
    dt = strong(promote(dt_of(a), dt_of(b)))
    r = elementwise(I, [c, a, b], lambda x, y, z: T.ite(bt(x), cast_term(I, y, dt_of(a), dt) if dt != 'b' else y,
                                                       cast_term(I, z, dt_of(b), dt) if dt != 'b' else z), dt)
    return r


def nonzero(I, v):
    v = asarray(I, operand(I, v))
    out = []
    for j in range(v.ndim):
        ixs = fresh_ixs(v.ndim)
        r = new_arr(v.dims, ixs, ixs[j], 'i')
        r.sel = bt(v.at(ixs))
        if r.sel is T.TRUE:
            r.sel = None
        out.append(r)
    return tuple(out)


def sort_(I, v, axis=-1):
    v = asarray(I, operand(I, v))
    if v.sel is not None or v.ndim == 0:
        raise Bail('sort')
    if axis is None:
        v = ravel(I, v)
        axis = -1
    a = axis % v.ndim
    ixs = fresh_ixs(v.ndim)
    j = T.fresh_idx()
    pos = ixs[a]
    r = T.red('sort', j, v.dims[a], v.at(ixs[:a] + (j,) + ixs[a + 1:]))
    return new_arr(v.dims, ixs, T.mk('pick', r, pos), v.dt, None, I.site())


def round_(I, v, nd=0):
    v = operand(I, v)
    d = dt_of(v)
    if d in ('i', 'pi', 'b', 'pb'):
        return v
    if nd in (None, 0):
        return elementwise(I, [v], lambda x: fold1('round', x), strong(d))
    p = T.power(T.num(10), T.num(nd)) if isinstance(nd, int) else _bail('round')
    return elementwise(I, [v], lambda x: T.div(T.fn('round', T.mul(x, p)), p), strong(d))


def clip(I, v, lo, hi, out=None):
    if lo is not None:
        v = ufunc(I, 'maximum', [v, lo])
    if hi is not None:
        v = ufunc(I, 'minimum', [v, hi])
    return finish(I, v, out)


def isclose(I, a, b, rtol=None, atol=None, equal_nan=False):
    a, b = operand(I, a), operand(I, b)
    rt = T.num(Fraction(1, 10**5)) if rtol is None else num_term(rtol)
    at = T.num(Fraction(1, 10**8)) if atol is None else num_term(atol)

    same_nan = equal_nan not in (None, False)
    if isinstance(equal_nan, Sc):
        raise Bail('equal_nan')
    special = lambda t: any(z.op in ('nan', 'inf') for z in T.walk(t))

    def f(x, y):
        x, y = nt(x), nt(y)
        sx, sy = special(x), special(y)
        if sx or sy:
            if sx and x.op == 'ite':
                return T.ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
            if sy and y.op == 'ite':
                return T.ite(y.args[0], f(x, y.args[1]), f(x, y.args[2]))
            infs = (T.INF, T.neg(T.INF))
            if x is T.NAN or y is T.NAN:
                return T.TRUE if x is y and same_nan else T.FALSE
            if (x in infs or not sx) and (y in infs or not sy):
                return T.TRUE if x is y else T.FALSE
            raise Bail('isclose of special values')
        if x is y:
            return T.TRUE
        if y.op == 'num' or x.op == 'num':
            return T.le(T.fn('abs', T.sub(x, y)), T.add(at, T.mul(rt, T.fn('abs', y))))
        p, q = (x, y) if x.id < y.id else (y, x)
        return T.eq(T.app('isclose', p, q, rt, at), ONE)
    return elementwise(I, [a, b], f, 'b')


def nan_to_num(I, v, copy=True, nan=None, posinf=None, neginf=None):
    o = v
    v = operand(I, v)
    d = strong(dt_of(v))
    big = T.sym('realmax')
    nan_t = ZERO if nan is None else num_term(nan)
    pi = big if posinf is None else num_term(posinf)
    ni = T.neg(big) if neginf is None else num_term(neginf)

    def f(x):
        return T.ite(T.fn('isnan', x), nan_t,
                     T.ite(T.and_(T.fn('isinf', x), T.lt(ZERO, x)), pi,
                           T.ite(T.and_(T.fn('isinf', x), T.lt(x, ZERO)), ni, x)))
    r = elementwise(I, [v], f, d)
    if copy is False and isinstance(o, Arr):
        store(I, o, r, how='nan_to_num')
        return o
    return r


def det(I, v):
    v = asarray(I, operand(I, v))
    if v.ndim < 2 or not I.dim_eq(v.dims[-1], v.dims[-2]):
        I.throw('ValueError', 'Last 2 dimensions of the array must be square')
    b = v.body
    r, c = v.ixs[-2], v.ixs[-1]
    keep = v.ixs[:-2]
    if cnum(v.dims[-1]) in (1, 2):
        r, c = None, None       # a sub-block: expanded, not the determinant of the operation
    dt = v.dt if v.dt in ('f', 'f4') else 'f'
    rr, cc = v.ixs[-2], v.ixs[-1]
    n = cnum(v.dims[-1])

    def go(b):
        if b.op == 'ite' and not {rr, cc} & set(T.free(b.args[0])):
            return T.ite(b.args[0], go(b.args[1]), go(b.args[2]))
        if b.op == 'elem' and len(b.args) >= 3 and {b.args[-1], b.args[-2]} == {r, c} and \
                not any({r, c} & set(T.free(x)) for x in b.args[1:-2]):
            return T.elem('det(%s)' % b.args[0], *b.args[1:-2])
        if n is None or n > 4:
            raise Bail('determinant')
        return det_expand([[T.subst(b, {rr: T.num(i), cc: T.num(j)}) for j in range(n)] for i in range(n)])
    t = go(b)
    if not keep:
        return Sc(t, dt)
    return new_arr(v.dims[:-2], keep, t, dt, None, I.site())


def det_expand(m):
    n = len(m)
    t = _det_expand(m, n >= 3)
    if n > 3 and t.op != 'elem':
        raise Bail('determinant')
    return t


def _det_expand(m, named):
    n = len(m)
    # determinant of a matrix of leaves elem(name, .., i, j)
    f = m[0][0]
    if named and f.op == 'elem' and len(f.args) >= 3:
        pre = f.args[:-2]
        if all(m[i][j].op == 'elem' and m[i][j].args[:-2] == pre and m[i][j].args[-2:] == (T.num(i), T.num(j))
               for i in range(n) for j in range(n)) or \
           all(m[i][j].op == 'elem' and m[i][j].args[:-2] == pre and m[i][j].args[-2:] == (T.num(j), T.num(i))
               for i in range(n) for j in range(n)):
            return T.elem('det(%s)' % pre[0], *pre[1:])
    if n == 1:
        return m[0][0]
    if n == 2:
        return T.sub(T.mul(m[0][0], m[1][1]), T.mul(m[0][1], m[1][0]))
    s = []
    for j in range(n):
        minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        x = T.mul(m[0][j], _det_expand(minor, False))
        s.append(x if j % 2 == 0 else T.neg(x))
    return T.add(*s)


def escape(I, arr, path):
    I.event('escape', buf=arr.buf, path=path)


# ---------------------------------------------------------------- attributes
def arr_attr(I, v, name):
    N = lambda f: Native('ndarray.' + name, f)
    if name == 'shape':
        return shape_value(I, v)
    if name == 'ndim':
        if v.sel is not None and len(mask_axes(v)) == v.ndim:
            return 1
        return v.ndim
    if name == 'size':
        return ival(size_of(I, v))
    if name == 'dtype':
        return DType(v.dt)
    if name == 'T':
        return transpose(I, v)
    if name == 'mT':
        return transpose(I, v, tuple(range(v.ndim - 2)) + (v.ndim - 1, v.ndim - 2))
    if name in ('real',):
        return v
    if name == 'imag':
        return full(I, v.dims, ZERO, v.dt)
    if name == 'flat':
        return Native('flat', lambda I, a, k: None, getitem=lambda I, ix: getitem(I, ravel(I, v), ix), iter=v)
    if name == 'itemsize':
        return dtype_attr(I, DType(v.dt), 'itemsize')
    if name == 'nbytes':
        return Sc(T.mul(size_of(I, v), T.num(dtype_attr(I, DType(v.dt), 'itemsize'))), 'pi')
    if name == 'base':
        return None if tuple(v.bix) == tuple(v.buf.ixs) else v
    if name == 'flags':
        h = Host('flags', None)

        def fget(I, attr):
            if attr == '__setattr__':
                def st(I, a, k):
                    if a[0] == 'writeable':
                        v.ro = a[1] is False
                    return None
                return Native('setattr', st)
            if attr in ('writeable', 'WRITEABLE'):
                return not v.ro
            own = tuple(v.bix) == tuple(v.buf.ixs)
            if attr in ('owndata', 'OWNDATA'):
                return own
            if attr in ('aligned', 'ALIGNED', 'behaved'):
                return True
            if attr in ('c_contiguous', 'C_CONTIGUOUS', 'contiguous') and own:
                return True
            if attr in ('f_contiguous', 'F_CONTIGUOUS', 'c_contiguous') and v.ndim <= 1 and own:
                return True
            if attr == '__getitem__':
                return Native('flags[]', lambda I, a, k: fget(I, {'O': 'OWNDATA', 'W': 'WRITEABLE', 'C': 'C_CONTIGUOUS'}.get(a[0], a[0])))
            raise Bail('flags.%s' % attr)
        h.get = fget
        return h
    if name in ('sum', 'prod', 'mean', 'min', 'max', 'any', 'all', 'argmin', 'argmax', 'std', 'var'):
        def f(I, a, k):
            k = dict(k)
            return do_reduce(I, name, [v] + list(a), k)
        return N(f)
    if name == 'ptp':
        return MISSING
    if name == 'copy':
        return N(lambda I, a, k: copy_of(I, v))
    if name in ('__copy__', '__deepcopy__'):
        return N(lambda I, a, k: copy_of(I, v))
    if name == 'astype':
        def f(I, a, k):
            d = need_dtype(I, a[0] if a else k.get('dtype'))
            if k.get('copy') is False and d == v.dt:
                return v
            return astype(I, v, d)
        return N(f)
    if name == 'reshape':
        def f(I, a, k):
            s = a
            if len(a) == 1 and not isinstance(I.force(a[0]), (int, Sc)):
                s = I.iterate(a[0])
            return reshape(I, v, s, k.get('order', 'C'))
        return N(f)
    if name == 'resize':
        raise Bail('ndarray.resize')
    if name == 'ravel':
        return N(lambda I, a, k: ravel(I, v, a[0] if a else k.get('order', 'C')))
    if name == 'flatten':
        return N(lambda I, a, k: copy_of(I, ravel(I, v, a[0] if a else k.get('order', 'C'))))
    if name == 'transpose':
        def f(I, a, k):
            if not a or a[0] is None:
                return transpose(I, v)
            return transpose(I, v, list(a[0]) if isinstance(a[0], tuple) else
                             list(a[0].items) if isinstance(a[0], Lst) else a)
        return N(f)
    if name == 'swapaxes':
        def f(I, a, k):
            p = list(range(v.ndim))
            i, j = a[0] % v.ndim, a[1] % v.ndim
            p[i], p[j] = p[j], p[i]
            return transpose(I, v, p)
        return N(f)
    if name == 'squeeze':
        return N(lambda I, a, k: squeeze(I, v, a[0] if a else k.get('axis')))
    if name == 'dot':
        return N(lambda I, a, k: dot(I, v, a[0]))
    if name in ('item', 'tolist'):
        def f(I, a, k):
            if name == 'item':
                if a:
                    r = getitem(I, v, a[0] if len(a) == 1 else tuple(a))
                    return weak(r)
                n = size_of(I, v)
                if n.op == 'num' and n.args[0] == 1:
                    return weak(Sc(v.at([ZERO] * v.ndim), v.dt))
                I.throw('ValueError', 'can only convert an array of size 1 to a Python scalar')
            return tolist(I, v)
        return N(f)
    if name == 'fill':
        def f(I, a, k):
            store(I, v, operand(I, a[0]), how='fill')
            return None
        return N(f)
    if name == 'round':
        return N(lambda I, a, k: round_(I, v, a[0] if a else k.get('decimals', 0)))
    if name == 'clip':
        return N(lambda I, a, k: clip(I, v, a[0] if a else k.get('min'), a[1] if len(a) > 1 else k.get('max'), k.get('out')))
    if name == 'nonzero':
        return N(lambda I, a, k: nonzero(I, v))
    if name in ('cumsum', 'cumprod'):
        return N(lambda I, a, k: cumul(I, name, v, a[0] if a else k.get('axis')))
    if name == 'take':
        return N(lambda I, a, k: take(I, v, a[0], a[1] if len(a) > 1 else k.get('axis')))
    if name == 'repeat':
        return N(lambda I, a, k: repeat(I, v, a[0], a[1] if len(a) > 1 else k.get('axis')))
    if name == 'sort':
        def f(I, a, k):
            s = sort_(I, v, a[0] if a else k.get('axis', -1))
            store(I, v, s, how='sort')
            return None
        return N(f)
    if name == 'argsort':
        return N(lambda I, a, k: argsort(I, v))
    if name in ('conj', 'conjugate'):
        return N(lambda I, a, k: v)
    if name == 'view':
        return N(lambda I, a, k: Arr(v.dims, v.ixs, v.bix, v.buf, v.sel, v.ro) if not a and not k else _bail('view'))
    if name == 'setflags':
        def f(I, a, k):
            w = k.get('write', a[0] if a else None)
            if w is not None:
                v.ro = w is False
            return None
        return N(f)
    if name in ('__len__',):
        return N(lambda I, a, k: I.py.length(I, v))
    if name == '__getitem__':
        return N(lambda I, a, k: getitem(I, v, a[0]))
    if name == '__setitem__':
        return N(lambda I, a, k: setitem(I, v, a[0], a[1]))
    if name == '__iter__':
        return N(lambda I, a, k: Lst(rows(I, v), 'gen'))
    if name == '__array__':
        return N(lambda I, a, k: v)
    if name == '__class__':
        return CLS['ndarray']
    if name in ('diagonal', 'trace', 'tobytes', 'searchsorted', 'put', 'partition', 'choose', 'compress', 'byteswap',
                'tofile', 'dump', 'ctypes', 'data', 'strides', 'argpartition'):
        raise Bail('ndarray.' + name)
    for pre in ('__',):
        if name.startswith(pre):
            op = name.strip('_')
            inv = {w: o for o, w in I.py.DUNDER.items()}
            if op in inv:
                return N(lambda I, a, k: I.binop(inv[op], v, a[0]))
            if op.startswith('r') and op[1:] in inv:
                return N(lambda I, a, k: I.binop(inv[op[1:]], a[0], v))
    return MISSING


def weak(s):
    if isinstance(s, Sc):
        return Sc(s.t, {'f': 'pf', 'f4': 'pf', 'i': 'pi', 'b': 'pb'}.get(s.dt, s.dt))
    return s


def tolist(I, v):
    if v.sel is not None:
        raise Bail('tolist of a selection')
    if v.ndim == 0:
        return weak(scalar_of(v))
    out = []
    for r in rows(I, v):
        if isinstance(r, Seg):
            out.append(Seg(r.dim, r.ix, weak(r.val) if isinstance(r.val, Sc) else tolist(I, r.val)))
        else:
            out.append(weak(r) if isinstance(r, Sc) else tolist(I, r))
    return Lst(out)


def set_arr_attr(I, v, name, val):
    if name == 'shape':
        r = reshape(I, v, shape_items(I, val))
        if r.buf is not v.buf:
            raise Bail('in-place reshape')
        v.dims, v.ixs, v.bix = r.dims, r.ixs, r.bix
        return
    raise Bail('ndarray.%s assignment' % name)


def shape_items(I, s):
    s = I.force(s)
    return [s] if isinstance(s, (int, Sc)) else I.iterate(s)


def sc_attr(I, s, name):
    weakdt = s.dt in _WEAK
    N = lambda f: Native('scalar.' + name, f)
    if name in ('real', 'imag'):
        return s if name == 'real' else Sc(ZERO, s.dt)
    if name == 'is_integer':
        return N(lambda I, a, k: Sc(T.eq(s.t, T.fn('floor', s.t)), 'pb'))
    if name in ('conjugate',):
        return N(lambda I, a, k: s)
    if name == '__class__':
        return I.py.type_of(I, s)
    if name in ('__abs__', '__neg__'):
        return N(lambda I, a, k: I.unary('USub', s) if name == '__neg__' else I.py.b_abs(I, [s], {}))
    if name.startswith('__') and name.endswith('__'):
        op = name.strip('_')
        inv = {w: o for o, w in I.py.DUNDER.items()}
        if op in inv:
            return N(lambda I, a, k: I.binop(inv[op], s, a[0]))
        if name in ('__float__', '__int__', '__bool__'):
            return N(lambda I, a, k: I.call(I.builtins[op], [s]))
    if weakdt:
        if name in ('numerator',):
            return s
        if name in ('bit_length', 'as_integer_ratio', 'hex', 'to_bytes'):
            raise Bail('number.' + name)
        return MISSING
    if name in ('flatten', 'ravel', 'reshape'):
        return arr_attr(I, asarray(I, s), name)
    r = arr_attr(I, asarray(I, s), name)
    if name in ('copy', 'astype', 'squeeze', 'transpose', 'round', 'clip', 'view'):
        def f(I, a, k):
            x = I.call(r, a, k)
            return scalar_of(x) if isinstance(x, Arr) and not x.dims else x
        return N(f)
    if name in ('T', 'mT'):
        return s
    if name in ('fill', 'sort', '__setitem__', '__iter__', '__len__', 'setflags', 'flags', 'resize', 'shape') and name != 'shape':
        return MISSING
    return r


# ---------------------------------------------------------------- creation and misc
def full(I, dims, t, dt, origin=None):
    ixs = fresh_ixs(len(dims))
    return new_arr(dims, ixs, t, dt, origin, I.site())


def cumul(I, name, v, axis):
    v = asarray(I, operand(I, v))
    if axis is None:
        v = ravel(I, v)
        axis = 0
    a = axis % v.ndim
    ixs = fresh_ixs(v.ndim)
    j = T.fresh_idx()
    op = 'sum' if name in ('cumsum', 'nancumsum') else 'prod'
    b = T.ite(T.le(j, ixs[a]), nt(v.at(ixs[:a] + (j,) + ixs[a + 1:])), NEUTRAL[op])
    dt = 'i' if v.dt == 'b' else v.dt
    return new_arr(v.dims, ixs, red_term(op, j, v.dims[a], b), dt, None, I.site())


def take(I, v, ind, axis=None):
    v = asarray(I, operand(I, v))
    if axis is None:
        v = ravel(I, v)
        axis = 0
    ind = operand(I, ind)
    a = axis % v.ndim
    return getitem(I, v, tuple([SliceV(None, None, None)] * a + [ind]))


def repeat(I, v, n, axis=None):
    v = asarray(I, operand(I, v))
    if axis is None:
        v = ravel(I, v)
        axis = 0
    a = axis % v.ndim
    n = I.force(n)
    if not isinstance(n, (int, Sc)):
        raise Bail('repeat with counts')
    ixs = fresh_ixs(v.ndim)
    d = v.dims[a]
    if is1(d):
        src = ZERO
        dn = I.norm_dim(term_of(n))
    else:
        dn = I.norm_dim(T.mul(d, term_of(n)))
        src = T.fn('floor', T.div(ixs[a], term_of(n)))
        if cnum(dn) is not None and isinstance(n, int):
            src = pick_const(ixs[a], [j // n for j in range(cnum(dn))])
    return new_arr(v.dims[:a] + (dn,) + v.dims[a + 1:], ixs, v.at(ixs[:a] + (src,) + ixs[a + 1:]), v.dt, None, I.site())


def pick_const(ix, vals):
    t = T.num(vals[-1])
    for j in reversed(range(len(vals) - 1)):
        t = T.ite(T.eq(ix, T.num(j)), T.num(vals[j]), t)
    return t


def tile(I, v, reps):
    v = asarray(I, operand(I, v))
    reps = shape_items(I, reps)
    while len(reps) < v.ndim:
        reps.insert(0, 1)
    while v.ndim < len(reps):
        v = expand(I, v, 0)
    ixs = fresh_ixs(v.ndim)
    dims, src = [], []
    for d, n, i in zip(v.dims, reps, ixs):
        n = I.force(n)
        if isinstance(n, int) and n == 1:
            dims.append(d)
            src.append(i)
        elif is1(d):
            dims.append(I.norm_dim(term_of(n)))
            src.append(ZERO)
        else:
            dn = I.norm_dim(T.mul(d, term_of(n)))
            dims.append(dn)
            if cnum(dn) is not None:
                src.append(pick_const(i, [j % cnum(d) for j in range(cnum(dn))]))
            else:
                src.append(t_mod(i, d))
    return new_arr(dims, ixs, v.at(src), v.dt, None, I.site())


def arange(I, a, k):
    a = [I.force(x) for x in a]
    dtype = k.get('dtype')
    start, step = 0, 1
    kk = {n: k[n] for n in ('start', 'stop', 'step') if n in k}
    if len(a) == 1 and 'stop' not in kk:
        stop = a[0]
    elif len(a) == 1:
        start, stop = a[0], kk['stop']
    elif len(a) >= 2:
        start, stop = a[0], a[1]
    else:
        start, stop = kk.get('start', 0), kk['stop']
    if len(a) >= 3:
        step = a[2]
    step = kk.get('step', step)
    if len(a) == 4:
        dtype = a[3]
    for x in (start, stop, step):
        if not isnum(x):
            if isinstance(x, Choice):
                raise Bail('arange of alternatives')
            I.throw('TypeError', 'unsupported operand for arange')
    ts, te, tp = num_term(start), num_term(stop), num_term(step)
    dt = need_dtype(I, dtype) if dtype is not None else strong(promote(dt_of(start), dt_of(stop), dt_of(step)))
    span = T.sub(te, ts) if not (ts.op == 'num' and ts.args[0] == 0) else te
    q = span if tp is ONE else T.div(span, tp)
    cnt = q
    if not (promote(dt_of(start), dt_of(stop), dt_of(step)) in ('i', 'pi') and tp is ONE):
        cnt = ceil_dim(I, q)
    cnt = I.norm_dim(cnt)
    if cnt.op == 'num' and cnt.args[0] < 0:
        cnt = ZERO
    if cnt.op == 'num' and cnt.args[0].denominator != 1:
        import math
        cnt = T.num(math.ceil(cnt.args[0]))
    ix = T.fresh_idx()
    x = ix if tp is ONE else T.mul(ix, tp)
    body = x if ts.op == 'num' and ts.args[0] == 0 else T.add(ts, x)
    r = new_arr((cnt,), (ix,), cast_term(I, body, promote(dt_of(start), dt_of(step)), dt), dt, None, I.site())
    return r


def ceil_dim(I, q):
    """ceil, dropped for values that are whole by construction."""
    if whole(q):
        return q
    if q.op == 'num':
        import math
        return T.num(math.ceil(q.args[0]))
    # split whole summands off
    if q.op == 'add':
        w = [x for x in q.args if whole(x)]
        f = [x for x in q.args if not whole(x)]
        if w and f:
            return T.add(T.fn('ceil', T.add(*f) if len(f) > 1 else f[0]), *w)
    return T.fn('ceil', q)


def whole(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in ('dim', 'idx', 'floor', 'ceil', 'trunc', 'round'):
        return True
    if t.op in ('add', 'mul'):
        return all(whole(x) for x in t.args)
    if t.op == 'ite':
        return whole(t.args[1]) and whole(t.args[2])
    return False


def linspace(I, a, k):
    names = ['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype']
    d = dict(zip(names, a))
    d.update(k)
    n = d.get('num', 50)
    n = I.force(n)
    if isinstance(n, Sc) and n.dt in ('f', 'pf', 'g'):
        I.throw('TypeError', "'float' object cannot be interpreted as an integer")
    nn = I.norm_dim(term_of(n))
    ix = T.fresh_idx()
    s, e = num_term(d['start']), num_term(d['stop'])
    div = T.add(nn, T.num(-1)) if d.get('endpoint', True) else nn
    div = I.norm_dim(div)
    step = T.div(T.sub(e, s), div)
    if div.op == 'num' and div.args[0] == 0:
        body = s
    else:
        body = T.ite(T.eq(div, ZERO), s, T.add(s, T.mul(ix, step))) if div.op != 'num' else T.add(s, T.mul(ix, step))
    dt = need_dtype(I, d['dtype']) if d.get('dtype') is not None else 'f'
    r = new_arr((nn,), (ix,), cast_term(I, body, 'f', dt), dt, None, I.site())
    if d.get('retstep'):
        return (r, Sc(step, 'f'))
    return r


def diff(I, v, n=1, axis=-1):
    v = asarray(I, operand(I, v))
    a = axis % v.ndim
    if n != 1:
        return diff(I, diff(I, v, n - 1, axis), 1, axis)
    ixs = fresh_ixs(v.ndim)
    hi = v.at(ixs[:a] + (T.add(ixs[a], ONE),) + ixs[a + 1:])
    dims = v.dims[:a] + (I.norm_dim(T.add(v.dims[a], T.num(-1))),) + v.dims[a + 1:]
    return new_arr(dims, ixs, T.sub(nt(hi), nt(v.at(ixs))), v.dt, None, I.site())


def gradient(I, a, k):
    v = asarray(I, operand(I, a[0]))
    ax = k.get('axis', -1 if v.ndim == 1 else None)
    if ax is None:
        raise Bail('gradient')
    p = ax % v.ndim
    ixs = fresh_ixs(v.ndim)
    g = lambda d: v.at(ixs[:p] + (T.add(ixs[p], T.num(d)),) + ixs[p + 1:])
    h = T.num(2)
    if len(a) > 1:
        x = operand(I, a[1])
        if isinstance(x, Arr):
            h = T.sub(x.at([T.add(ixs[p], ONE)]), x.at([T.add(ixs[p], T.num(-1))]))
        else:
            h = T.mul(T.num(2), num_term(x))
    return new_arr(v.dims, ixs, T.div(T.sub(g(1), g(-1)), h), fdt(v.dt), None, I.site())


def const_dim(d):
    return int(d.args[0]) if d.op == 'num' else None


def row_key(v, i):
    """The elements of row i, in order; None when there are too many."""
    ns = [const_dim(d) for d in v.dims[1:]]
    if any(n is None for n in ns):
        return None
    out = []
    for ix in itertools.product(*[range(n) for n in ns]):
        out.append(v.at((T.num(i),) + tuple(T.num(j) for j in ix)))
        if len(out) > 64:
            return None
    return out


def decided_order(I, keys):
    """(permutation that sorts, whether each differs from the one before) when every comparison is decided."""
    if any(k is None for k in keys):
        return None

    class Open(Exception):
        pass

    def cmp(a, b):
        for x, y in zip(a, b):
            if x is y:
                continue
            e = I.decide(T.eq(x, y))
            if e is True:
                continue
            lt = I.decide(T.lt(x, y))
            if lt is True:
                return -1
            if lt is False and (e is False or I.decide(T.lt(y, x)) is True):
                return 1
            raise Open
        return 0
    try:
        perm = sorted(range(len(keys)), key=_cmp_to_key(lambda i, j: cmp(keys[i], keys[j])))
        return perm, [j == 0 or cmp(keys[perm[j - 1]], keys[perm[j]]) != 0 for j in range(len(perm))]
    except Open:
        return None


def argsort(I, v):
    v = asarray(I, operand(I, v))
    if v.ndim != 1:
        raise Bail('argsort')
    n = const_dim(v.dims[0])
    if n is not None and n <= 8 and v.sel is None:
        o = decided_order(I, [row_key(v, i) for i in range(n)])
        if o is not None:
            return asarray(I, Lst(o[0]))
    ix = fresh_ixs(1)
    j = T.fresh_idx()
    r = T.red('argsort', j, v.dims[0], v.at([j]))
    return new_arr(v.dims, ix, T.mk('pick', r, ix[0]), 'i', None, I.site())


def do_reduce(I, op, a, k):
    a = list(a)
    k = dict(k)
    v = a[0]
    axis = a[1] if len(a) > 1 else k.pop('axis', None)
    rest = a[2:]
    if rest:
        names = {'sum': ['dtype', 'out', 'keepdims'], 'prod': ['dtype', 'out', 'keepdims'], 'mean': ['dtype', 'out', 'keepdims'],
                 'min': ['out', 'keepdims'], 'max': ['out', 'keepdims'], 'any': ['out', 'keepdims'], 'all': ['out', 'keepdims'],
                 'std': ['dtype', 'out', 'ddof', 'keepdims'], 'var': ['dtype', 'out', 'ddof', 'keepdims'],
                 'argmin': ['out'], 'argmax': ['out']}[op]
        for n, x in zip(names, rest):
            k[n] = x
    allowed = {'keepdims', 'dtype', 'out', 'where', 'initial', 'ddof'}
    for n in list(k):
        if n not in allowed:
            raise Bail('%s() got an unexpected keyword argument %r' % (op, n))
    if k.get('initial', 0) is None:
        k.pop('initial')
    return reduce(I, op, v, axis, **k)


def apply_along_axis(I, f, axis, v, extra, kw):
    v = asarray(I, operand(I, v))
    a = axis % v.ndim
    others = [j for j in range(v.ndim) if j != a]
    sub = Arr((v.dims[a],), (v.ixs[a],), v.bix, v.buf, None, v.ro)
    r = I.call(f, [sub] + extra, kw)
    if isinstance(r, (int, Sc)):
        return new_arr([v.dims[j] for j in others], [v.ixs[j] for j in others], term_of(r), strong(dt_of(r)), None, I.site())
    if isinstance(r, Arr) and r.ndim == 1:
        dims = [v.dims[j] for j in others]
        ixs = [v.ixs[j] for j in others]
        i = T.fresh_idx()
        dims.insert(a, r.dims[0])
        ixs.insert(a, i)
        return new_arr(dims, ixs, r.at([i]), r.dt, None, I.site())
    raise Bail('apply_along_axis')


def vectorize_call(I, f, args):
    vals = [operand(I, x) for x in args]
    dims = broadcast(I, [dims_of(v) for v in vals])
    ixs = fresh_ixs(len(dims))
    es = [Sc(at_of(v, ixs), strong(dt_of(v))) for v in vals]
    npc = len(I.pends)
    r = I.call(f, es)
    if isinstance(r, Choice):
        r = _elem_arr(I, r)
    if not isnum(r):
        raise Bail('vectorize result')
    if not dims:
        return r
    return new_arr(dims, ixs, term_of(r), strong(dt_of(r)), None, I.site())


# ---------------------------------------------------------------- the module
class _Args:
    """Bind positional/keyword arguments of a numpy function."""

    def __init__(self, I, fname, names, a, k):
        self.d = {}
        if len(a) > len(names):
            raise Bail('%s() takes at most %d positional arguments' % (fname, len(names)))
        for n, v in zip(names, a):
            self.d[n] = v
        for n, v in k.items():
            if n not in names:
                raise Bail('%s() got an unexpected keyword argument %r' % (fname, n))
            if n in self.d:
                I.throw('TypeError', '%s() got multiple values for argument %r' % (fname, n))
            self.d[n] = v
        self.fname = fname
        self.I = I

    def __call__(self, n, default=MISSING):
        v = self.d.get(n, default)
        if v is MISSING:
            self.I.throw('TypeError', "%s() missing required argument: '%s'" % (self.fname, n))
        return v


def seq_of(I, v, fname):
    v = I.force(v)
    if isinstance(v, Lst) and v.kind != 'list':
        if fname in ('stack', 'concatenate', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack'):
            I.throw('TypeError', 'arrays to %s must be passed as a "sequence" type such as list or tuple.' % fname)
    if isinstance(v, Choice):
        raise Bail('conditional sequence')
    return I.iterate(v)


def install(I):
    m = Mod('numpy')
    c = m.c
    I.npm = m
    obj = I.builtins['object']

    def mkcls(name, dt, *alias, bases=(obj,)):
        k = Cls(name, bases)
        k.flags['dt'] = dt
        k.flags['new'] = lambda I, cls, a, kw: to_dtype_value(I, dt, a)
        CLS[name] = k
        for n in (name,) + alias:
            c[n] = k
        return k
    generic = Cls('generic', (obj,))
    number = Cls('number', (generic,))
    integer = Cls('integer', (number,))
    floating = Cls('floating', (number,))
    c.update(generic=generic, number=number, integer=integer, signedinteger=integer, inexact=number, floating=floating)
    mkcls('bool_', 'b', 'bool', bases=(generic,))
    mkcls('int64', 'i', 'int_', 'intp', 'int32', 'uint64', 'uint32', 'longlong', 'intc', 'long',
          bases=(integer,))
    for n in ('int8', 'uint8', 'int16', 'uint16'):
        mkcls(n, SMALLINT[n], bases=(integer,))
    mkcls('float32', 'f4', 'single', 'float16', 'half', bases=(floating,))
    mkcls('float64', 'f', 'double', bases=(floating, I.builtins['float']))
    mkcls('longdouble', 'g', 'float128', bases=(floating,))
    mkcls('object_', 'O', bases=(generic,))
    nd = Cls('ndarray', (obj,))
    nd.flags['new'] = lambda I, cls, a, k: _bail('ndarray constructor')
    CLS['ndarray'] = c['ndarray'] = nd
    dtc = Cls('dtype', (obj,))
    dtc.flags['new'] = lambda I, cls, a, k: DType(need_dtype(I, a[0] if a else k['dtype']))
    CLS['dtype'] = c['dtype'] = dtc
    c['pi'] = Sc(T.sym('pi'), 'pf')
    c['e'] = Sc(T.fn('exp', ONE), 'pf')
    c['inf'] = Sc(T.INF, 'pf')
    c['nan'] = Sc(T.NAN, 'pf')
    c['newaxis'] = None
    c['__version__'] = '2.5.4'
    c['__name__'] = 'numpy'
    c['True_'] = Sc(T.TRUE, 'b')
    c['False_'] = Sc(T.FALSE, 'b')
    c['_NoValue'] = Ext('numpy._NoValue')

    def nat(name, f, **info):
        def g(I, a, k):
            return f(I, a, k)
        n = Native('numpy.' + name, g, **info)
        n.c['__name__'] = name
        c[name] = n
        return n

    # ufuncs
    def mk_ufunc(name):
        nin = 1 if name in U1 else 2

        def f(I, a, k):
            allowed = {'out', 'where', 'dtype', 'casting', 'order', 'subok', 'signature'}
            for n in k:
                if n not in allowed:
                    raise Bail('%s() got an unexpected keyword argument %r' % (name, n))
            return ufunc(I, name, a, **{n: v for n, v in k.items() if n in ('out', 'where', 'dtype', 'casting')})

        def attrs(I, o, attr):
            if attr == 'reduce' and name in ('add', 'multiply', 'minimum', 'maximum', 'fmin', 'fmax', 'logical_and', 'logical_or', 'logaddexp'):
                op = {'add': 'sum', 'multiply': 'prod', 'minimum': 'min', 'maximum': 'max', 'fmin': 'min', 'fmax': 'max',
                      'logical_and': 'all', 'logical_or': 'any'}.get(name)

                def red(I, a, k):
                    k = dict(k)
                    ar = list(a)
                    axis = ar[1] if len(ar) > 1 else k.pop('axis', 0)
                    k.pop('axis', None)
                    for n, x in zip(['dtype', 'out', 'keepdims', 'initial', 'where'], ar[2:]):
                        k[n] = x
                    x = operand(I, ar[0])
                    if op is None:
                        e = reduce(I, 'sum', ufunc(I, 'exp', [x]), axis, **k)
                        return ufunc(I, 'log', [e])
                    return reduce(I, op, x, axis, **k)
                return Native(name + '.reduce', red)
            if attr == 'outer' and nin == 2:
                return Native(name + '.outer', lambda I, a, k: outer(I, a[0], a[1], name))
            if attr == 'accumulate' and name in ('add', 'multiply'):
                return Native(name + '.accumulate', lambda I, a, k: cumul(I, 'cumsum' if name == 'add' else 'cumprod', a[0],
                                                                          a[1] if len(a) > 1 else k.get('axis', 0)))
            if attr == 'at':
                def at_(I, a, k):
                    cur = getitem(I, a[0], a[1])
                    setitem(I, a[0], a[1], ufunc(I, name, [cur] + list(a[2:])))
                    return None
                return Native(name + '.at', at_)
            if attr in ('nin', 'nout', 'nargs'):
                return {'nin': nin, 'nout': 1, 'nargs': nin + 1}[attr]
            if attr == 'identity':
                return {'add': 0, 'multiply': 1}.get(name)
            return MISSING
        nat(name, f, attrs=attrs, ufunc=name)
    for n in list(U1) + list(U2):
        mk_ufunc(n)
    c['bitwise_not'] = c['invert']

    # reductions
    for n, op in dict(sum='sum', prod='prod', mean='mean', min='min', amin='min', max='max', amax='max', any='any',
                      all='all', std='std', var='var', argmin='argmin', argmax='argmax').items():
        nat(n, (lambda op: lambda I, a, k: _np_reduce(I, op, a, k))(op))
    for n, op in dict(nansum='sum', nanprod='prod', nanmin='min', nanmax='max', nanmean='mean').items():
        nat(n, (lambda op: lambda I, a, k: _nan_reduce(I, op, a, k))(op))

    def _np_reduce(I, op, a, k):
        a = list(a)
        k = dict(k)
        if not a and 'a' in k:
            a = [k.pop('a')]
        x = I.force(a[0])
        if isinstance(x, Lst) and x.kind != 'list':
            if op == 'sum':
                return I.py.b_sum(I, [x], {})
            raise Bail('numpy.%s of a generator' % op)
        return do_reduce(I, op, a, k)

    def _nan_reduce(I, op, a, k):
        v = operand(I, a[0])
        ne = NEUTRAL.get(op)
        if ne is None:
            isn = ufunc(I, 'isnan', [v])
            return do_reduce(I, op, a, dict(k, where=ufunc(I, 'logical_not', [isn])))
        w = elementwise(I, [v], lambda x: T.ite(T.fn('isnan', x), ne, x), strong(dt_of(v)))
        return do_reduce(I, op, [w] + list(a[1:]), k)

    def count_nonzero(I, a, k):
        A = _Args(I, 'count_nonzero', ['a', 'axis', 'keepdims'], a, k)
        v = operand(I, A('a'))
        r = reduce(I, 'count', v, A('axis', None), A('keepdims', False))
        return weak(r) if isinstance(r, Sc) else r
    nat('count_nonzero', count_nonzero)

    def average(I, a, k):
        A = _Args(I, 'average', ['a', 'axis', 'weights', 'returned', 'keepdims'], a, k)
        v = asarray(I, operand(I, A('a')))
        w = A('weights', None)
        ax = A('axis', None)
        kd = A('keepdims', False)
        if w is None:
            return reduce(I, 'mean', v, ax, keepdims=kd)
        w = asarray(I, operand(I, w))
        if w.ndim == 1 and v.ndim > 1:
            if ax is None:
                I.throw('TypeError', 'Axis must be specified when shapes of a and weights differ.')
            for _ in range(v.ndim - 1 - (ax % v.ndim)):
                w = expand(I, w, w.ndim)
        elif w.ndim != v.ndim or not all(I.dim_eq(x, y) for x, y in zip(w.dims, v.dims)):
            I.throw('ValueError', 'Shape of weights must be consistent with shape of a')
        wb = broadcast_to(I, w, v.dims)
        num = reduce(I, 'sum', _ufunc(I, 'multiply', [v, wb]), ax, kd)
        den = reduce(I, 'sum', wb, ax, kd)
        z = den.body if isinstance(den, Arr) else den.t
        isz = T.eq(z, ZERO)
        d = I.decide(isz)
        if d is not False and not T.free(isz):
            I.pend(isz, I.exc('ZeroDivisionError', 'Weights sum to zero'))
        r = _ufunc(I, 'divide', [num, den])
        return (r, den) if A('returned', False) is True else r
    nat('average', average)
    nat('ptp', lambda I, a, k: ufunc(I, 'subtract', [do_reduce(I, 'max', a, k), do_reduce(I, 'min', a, k)]))

    # creation
    def creator(name, fill):
        def f(I, a, k):
            A = _Args(I, name, ['shape'] + (['fill_value'] if name == 'full' else []) + ['dtype', 'order', 'device', 'like'], a, k)
            dims = shape_dims(I, A('shape'))
            d = A('dtype', None)
            t = fill
            if name == 'full':
                fv = operand(I, A('fill_value'))
                if isinstance(fv, Arr):
                    dt = need_dtype(I, d) if d is not None else fv.dt
                    r = astype(I, copy_of(I, broadcast_to(I, fv, dims)), dt)
                    return r
                dt = need_dtype(I, d) if d is not None else strong(dt_of(fv))
                t = cast_term(I, term_of(fv), dt_of(fv), dt)
            else:
                dt = need_dtype(I, d) if d is not None else 'f'
                if dt == 'b' and t is not UNINIT:
                    t = T.TRUE if fill is ONE else T.FALSE
            return full(I, dims, t, dt)
        nat(name, f)
    for n, t in (('zeros', ZERO), ('ones', ONE), ('empty', UNINIT), ('full', None)):
        creator(n, t)

    def liker(name, fill):
        def f(I, a, k):
            A = _Args(I, name, ['a'] + (['fill_value'] if name == 'full_like' else []) + ['dtype', 'order', 'subok', 'shape', 'device'],
                      a, {('a' if n == 'prototype' else n): v for n, v in k.items()})
            v = operand(I, A('a'))
            dims = dims_of(v)
            if isinstance(v, Arr) and v.sel is not None:
                sel = v.sel
            else:
                sel = None
            if A('shape', None) is not None:
                dims = shape_dims(I, A('shape'))
            d = A('dtype', None)
            dt = need_dtype(I, d) if d is not None else strong(dt_of(v))
            t = fill
            if name == 'full_like':
                fv = operand(I, A('fill_value'))
                if isinstance(fv, Arr):
                    return astype(I, copy_of(I, broadcast_to(I, fv, dims)), dt)
                t = cast_term(I, term_of(fv), dt_of(fv), dt)
                if dt == 'i' and (t is T.INF or t is T.NAN or (t.op == 'trunc')):
                    I.throw('OverflowError', 'cannot convert float infinity to integer') if t.op == 'trunc' and \
                        t.args[0].op in ('inf', 'nan', 'mul') else None
            elif dt == 'b' and t is not UNINIT:
                t = T.TRUE if fill is ONE else T.FALSE
            r = full(I, dims, t, dt)
            if sel is not None:
                r.sel = T.subst(sel, dict(zip(v.ixs, r.ixs)))
            return r
        nat(name, f)
    for n, t in (('zeros_like', ZERO), ('ones_like', ONE), ('empty_like', UNINIT), ('full_like', None)):
        liker(n, t)

    def array(I, a, k):
        A = _Args(I, 'array', ['object', 'dtype', 'copy', 'order', 'subok', 'ndmin', 'like'], a, k)
        d = A('dtype', None)
        dt = need_dtype(I, d) if d is not None else None
        r = asarray(I, A('object'), dt, A('copy', True) is not False and A('copy', True) is not None)
        nm = A('ndmin', 0)
        while r.ndim < nm:
            r = expand(I, r, 0)
        return r
    nat('array', array)

    def as_array(I, a, k):
        A = _Args(I, 'asarray', ['a', 'dtype', 'order', 'device', 'copy', 'like'], a, k)
        d = A('dtype', None)
        return asarray(I, A('a'), need_dtype(I, d) if d is not None else None, A('copy', None) is True)
    for n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'asarray_chkfinite'):
        nat(n, as_array)
    nat('require', lambda I, a, k: as_array(I, a[:2], {}))

    def copy(I, a, k):
        v = asarray(I, a[0] if a else k['a'])
        return copy_of(I, v)
    nat('copy', copy)

    def fromiter(I, a, k):
        items = I.iterate(a[0])
        d = a[1] if len(a) > 1 else k.get('dtype')
        return astype(I, asarray(I, Lst(items)), need_dtype(I, d))
    nat('fromiter', fromiter)
    nat('arange', lambda I, a, k: arange(I, a, k))
    nat('linspace', lambda I, a, k: linspace(I, a, k))

    def eye(I, a, k):
        n = I.norm_dim(term_of(a[0]))
        mm = I.norm_dim(term_of(a[1])) if len(a) > 1 and a[1] is not None else n
        ixs = fresh_ixs(2)
        return new_arr((n, mm), ixs, T.ite(T.eq(ixs[0], ixs[1]), ONE, ZERO), 'f', None, I.site())
    nat('eye', eye)
    nat('identity', eye)

    def diag(I, a, k):
        v = asarray(I, operand(I, a[0]))
        if v.ndim == 1:
            ixs = fresh_ixs(2)
            return new_arr((v.dims[0], v.dims[0]), ixs, T.ite(T.eq(ixs[0], ixs[1]), v.at([ixs[0]]), ZERO), v.dt)
        if v.ndim == 2 and I.dim_eq(*v.dims):
            i = fresh_ixs(1)
            return new_arr(v.dims[:1], i, v.at([i[0], i[0]]), v.dt)
        raise Bail('diag')
    nat('diag', diag)

    # joining
    def _axis(I, x, default=0):
        x = I.force(x)
        if isinstance(x, Sc) and x.t.op == 'num':
            return int(x.t.args[0])
        return x

    def stack(I, a, k):
        A = _Args(I, 'stack', ['arrays', 'axis', 'out', 'dtype', 'casting'], a, k)
        its = seq_of(I, A('arrays'), 'stack')
        if not its:
            I.throw('ValueError', 'need at least one array to stack')
        r = stack_items(I, its, _axis(I, A('axis', 0)))
        if A('dtype', None) is not None:
            r = astype(I, r, need_dtype(I, A('dtype')))
        return finish(I, r, A('out', None))
    nat('stack', stack)

    def concat(I, a, k):
        A = _Args(I, 'concatenate', ['arrays', 'axis', 'out', 'dtype', 'casting'], a, k)
        d = A('dtype', None)
        return finish(I, concatenate(I, seq_of(I, A('arrays'), 'concatenate'), _axis(I, A('axis', 0)),
                                     need_dtype(I, d) if d is not None else None), A('out', None))
    nat('concatenate', concat)
    nat('concat', concat)

    def map_items(I, items, f):
        out = []
        for it in items:
            if isinstance(it, Seg):
                out.append(Seg(it.dim, it.ix, f(I.force(it.val)), it.cond))
            else:
                out.append(f(I.force(it)))
        return out

    def atleast(n):
        def f(v):
            v = asarray(I, operand(I, v))
            if n == 1:
                return v if v.ndim else expand(I, v, 0)
            if n == 2:
                return v if v.ndim >= 2 else expand(I, v, 0) if v.ndim == 1 else expand(I, expand(I, v, 0), 0)
            v = f2(v)
            return v if v.ndim >= 3 else expand(I, v, 2)
        f2 = atleast(2) if n == 3 else None
        return f
    at1, at2, at3 = atleast(1), atleast(2), atleast(3)
    for n, f in ((1, at1), (2, at2), (3, at3)):
        nat('atleast_%dd' % n, (lambda f: lambda I, a, k: f(a[0]) if len(a) == 1 else tuple(f(x) for x in a))(f))
    nat('vstack', lambda I, a, k: concatenate(I, map_items(I, seq_of(I, a[0] if a else k['tup'], 'vstack'), at2), 0))
    c['row_stack'] = c['vstack']

    def hstack(I, a, k):
        its = map_items(I, seq_of(I, a[0] if a else k['tup'], 'hstack'), at1)
        f0 = its[0].val if isinstance(its[0], Seg) else its[0]
        return concatenate(I, its, 0 if f0.ndim == 1 else 1)
    nat('hstack', hstack)

    def colify(v):
        v = asarray(I, operand(I, v))
        if v.ndim < 2:
            v = at1(v)
            return expand(I, v, 1)
        return v
    nat('column_stack', lambda I, a, k: concatenate(I, map_items(I, seq_of(I, a[0] if a else k['tup'], 'column_stack'), colify), 1))
    nat('dstack', lambda I, a, k: concatenate(I, map_items(I, seq_of(I, a[0], 'dstack'), at3), 2))

    def cr(name):
        def gi(I, ix):
            its = list(ix) if isinstance(ix, tuple) else [ix]
            if any(isinstance(x, (str, SliceV)) for x in its):
                raise Bail('np.%s_ with slices' % name)
            if name == 'c':
                return concatenate(I, map_items(I, its, lambda v: colify(v)), 1)
            its = map_items(I, its, at1)
            return concatenate(I, its, 0)
        c[name + '_'] = Native('numpy.%s_' % name, lambda I, a, k: I.throw('TypeError', 'not callable'), getitem=gi)
    cr('c')
    cr('r')

    def append(I, a, k):
        A = _Args(I, 'append', ['arr', 'values', 'axis'], a, k)
        x, y = asarray(I, operand(I, A('arr'))), asarray(I, operand(I, A('values')))
        if A('axis', None) is None:
            return concatenate(I, [ravel(I, x), ravel(I, y)], 0)
        return concatenate(I, [x, y], A('axis'))
    nat('append', append)

    def insert(I, a, k):
        A = _Args(I, 'insert', ['arr', 'obj', 'values', 'axis'], a, k)
        x = asarray(I, operand(I, A('arr')))
        ax = A('axis', None)
        if ax is None:
            x = ravel(I, x)
            ax = 0
        if not isinstance(A('obj'), int) or A('obj') != 0:
            raise Bail('insert')
        ax %= x.ndim
        vals = asarray(I, operand(I, A('values')))
        dims = x.dims[:ax] + (ONE,) + x.dims[ax + 1:]
        if vals.ndim == x.ndim - 1:
            vals = expand(I, vals, ax)
        vals = broadcast_to(I, vals, dims)
        return concatenate(I, [vals, x], ax)
    nat('insert', insert)

    # shapes
    def np_reshape(I, a, k):
        A = _Args(I, 'reshape', ['a', 'shape', 'order', 'newshape', 'copy'], a, k)
        return reshape(I, operand(I, A('a')), shape_items(I, A('shape', k.get('newshape'))), A('order', 'C'))
    nat('reshape', np_reshape)
    nat('ravel', lambda I, a, k: ravel(I, operand(I, a[0]), a[1] if len(a) > 1 else k.get('order', 'C')))
    nat('transpose', lambda I, a, k: transpose(I, operand(I, a[0]), None if len(a) < 2 and 'axes' not in k else
                                               shape_items(I, a[1] if len(a) > 1 else k['axes'])))
    nat('permute_dims', lambda I, a, k: transpose(I, operand(I, a[0]), shape_items(I, a[1])))
    nat('matrix_transpose', lambda I, a, k: arr_attr(I, operand(I, a[0]), 'mT'))

    def swapaxes(I, a, k):
        v = operand(I, a[0])
        return I.call(arr_attr(I, v, 'swapaxes'), a[1:])
    nat('swapaxes', swapaxes)

    def moveaxis(I, a, k):
        v = operand(I, a[0])
        s, d = a[1] if len(a) > 1 else k['source'], a[2] if len(a) > 2 else k['destination']
        if not isinstance(s, int) or not isinstance(d, int):
            raise Bail('moveaxis')
        p = [j for j in range(v.ndim) if j != s % v.ndim]
        p.insert(d % v.ndim, s % v.ndim)
        return transpose(I, v, p)
    nat('moveaxis', moveaxis)
    nat('expand_dims', lambda I, a, k: expand(I, operand(I, a[0]), (lambda x: x if isinstance(x, int) else tuple(I.iterate(x)))
                                              (I.force(a[1] if len(a) > 1 else k['axis']))))
    nat('squeeze', lambda I, a, k: squeeze(I, operand(I, a[0]), a[1] if len(a) > 1 else k.get('axis')))
    nat('broadcast_to', lambda I, a, k: broadcast_to(I, operand(I, a[0]), shape_dims(I, a[1] if len(a) > 1 else k['shape'])))

    def broadcast_arrays(I, a, k):
        vs = [asarray(I, operand(I, x)) for x in a]
        d = broadcast(I, [v.dims for v in vs])
        return tuple(broadcast_to(I, v, d) for v in vs)
    nat('broadcast_arrays', broadcast_arrays)

    def np_broadcast(I, a, k):
        vs = [asarray(I, operand(I, x)) for x in a]
        d = broadcast(I, [v.dims for v in vs])

        def get(I, n):
            if n == 'shape':
                return tuple(ival(x) for x in d)
            if n in ('ndim', 'nd'):
                return len(d)
            if n == 'size':
                r = ONE
                for x in d:
                    r = T.mul(r, x)
                return ival(r)
            return MISSING
        return Host('broadcast', get)
    nat('broadcast', np_broadcast)
    nat('broadcast_shapes', lambda I, a, k: tuple(ival(d) for d in broadcast(I, [shape_dims(I, x) for x in a])))
    nat('tile', lambda I, a, k: tile(I, a[0], a[1] if len(a) > 1 else k['reps']))
    nat('repeat', lambda I, a, k: repeat(I, a[0], a[1] if len(a) > 1 else k['repeats'], a[2] if len(a) > 2 else k.get('axis')))

    def flip(I, a, k):
        v = asarray(I, operand(I, a[0]))
        ax = a[1] if len(a) > 1 else k.get('axis')
        axs = norm_axes(I, ax, v.ndim)
        return getitem(I, v, tuple(SliceV(None, None, -1) if j in axs else SliceV(None, None, None) for j in range(v.ndim)))
    nat('flip', flip)
    nat('flipud', lambda I, a, k: flip(I, [a[0], 0], {}))
    nat('fliplr', lambda I, a, k: flip(I, [a[0], 1], {}))

    def roll(I, a, k):
        v = asarray(I, operand(I, a[0]))
        sh = a[1] if len(a) > 1 else k['shift']
        ax = a[2] if len(a) > 2 else k.get('axis', 0 if v.ndim == 1 else None)
        if ax is None or not isinstance(sh, int):
            raise Bail('roll')
        ax %= v.ndim
        ixs = fresh_ixs(v.ndim)
        return new_arr(v.dims, ixs, v.at(ixs[:ax] + (t_mod(T.add(ixs[ax], T.num(-sh)), v.dims[ax]),) + ixs[ax + 1:]), v.dt)
    nat('roll', roll)
    nat('shape', lambda I, a, k: shape_value(I, operand(I, a[0])))
    nat('ndim', lambda I, a, k: len(dims_of(operand(I, a[0]))))

    def np_size(I, a, k):
        v = operand(I, a[0])
        ax = a[1] if len(a) > 1 else k.get('axis')
        if ax is not None:
            return shape_value(I, v)[ax]
        return ival(size_of(I, v))
    nat('size', np_size)
    nat('meshgrid', lambda I, a, k: meshgrid(I, a, k))

    def meshgrid(I, a, k):
        vs = [asarray(I, operand(I, x)) for x in a]
        if len(vs) != 2:
            raise Bail('meshgrid')
        x, y = vs
        ij = k.get('indexing', 'xy') == 'ij'
        if ij:
            d = (x.dims[0], y.dims[0])
            return Lst([copy_of(I, broadcast_to(I, expand(I, x, 1), d)), copy_of(I, broadcast_to(I, expand(I, y, 0), d))])
        d = (y.dims[0], x.dims[0])
        return Lst([copy_of(I, broadcast_to(I, expand(I, x, 0), d)), copy_of(I, broadcast_to(I, expand(I, y, 1), d))])

    # products
    nat('dot', lambda I, a, k: finish(I, dot(I, a[0], a[1]), k.get('out')))
    nat('vdot', lambda I, a, k: dot(I, ravel(I, operand(I, a[0])), ravel(I, operand(I, a[1]))))
    nat('matmul', lambda I, a, k: finish(I, matmul(I, a[0], a[1]), k.get('out')))
    nat('outer', lambda I, a, k: finish(I, outer(I, a[0], a[1], 'multiply-ravel'), k.get('out', a[2] if len(a) > 2 else None)))
    nat('einsum', lambda I, a, k: einsum(I, a, k))
    nat('tensordot', lambda I, a, k: tensordot(I, a[0], a[1], a[2] if len(a) > 2 else k.get('axes', 2)))

    def inner(I, a, k):
        x, y = operand(I, a[0]), operand(I, a[1])
        if not isinstance(x, Arr) or not isinstance(y, Arr):
            return _ufunc(I, 'multiply', [x, y])
        L, M = 'abcdef'[:x.ndim - 1], 'ijklmn'[:y.ndim - 1]
        return einsum_like(I, [x, y], [L + 'z', M + 'z'], L + M)
    nat('inner', inner)

    # selection
    def where(I, a, k):
        if len(a) == 1:
            return nonzero(I, a[0])
        if len(a) != 3:
            I.throw('ValueError', 'either both or neither of x and y should be given')
        return dist(I, a, lambda v: where_(I, *v))
    nat('where', where)
    nat('nonzero', lambda I, a, k: nonzero(I, a[0]))
    nat('flatnonzero', lambda I, a, k: nonzero(I, ravel(I, operand(I, a[0])))[0])

    def argwhere(I, a, k):
        raise Bail('argwhere')
    nat('argwhere', argwhere)

    def select(I, a, k):
        A = _Args(I, 'select', ['condlist', 'choicelist', 'default'], a, k)
        cs, vs = I.iterate(A('condlist')), I.iterate(A('choicelist'))
        r = A('default', 0)
        for x, v in reversed(list(zip(cs, vs))):
            r = where_(I, x, v, r)
        return r
    nat('select', select)

    def piecewise(I, a, k):
        raise Bail('piecewise')
    nat('piecewise', piecewise)
    nat('clip', lambda I, a, k: clip(I, operand(I, a[0]), a[1] if len(a) > 1 else k.get('a_min', k.get('min')),
                                     a[2] if len(a) > 2 else k.get('a_max', k.get('max')), k.get('out')))
    nat('nan_to_num', lambda I, a, k: nan_to_num(I, *a, **k))

    def isclose_args(I, a, k):
        A = _Args(I, 'isclose', ['a', 'b', 'rtol', 'atol', 'equal_nan'], a, k)
        return isclose(I, A('a'), A('b'), A('rtol', None), A('atol', None), I.force(A('equal_nan', False)))
    nat('isclose', isclose_args)

    def allclose(I, a, k):
        r = isclose_args(I, a, k)
        return weak(reduce(I, 'all', r, None)) if isinstance(r, Arr) else weak(r)
    nat('allclose', allclose)

    def array_equal(I, a, k):
        x, y = asarray(I, operand(I, a[0])), asarray(I, operand(I, a[1]))
        if x.ndim != y.ndim or not all(I.dim_eq(p, q) for p, q in zip(x.dims, y.dims)):
            return False
        return weak(reduce(I, 'all', _ufunc(I, 'equal', [x, y]), None))
    nat('array_equal', array_equal)
    nat('array_equiv', array_equal)

    def testing(I):
        tm = Mod('numpy.testing')

        def chk(kind):
            def f(I, a, k):
                def go():
                    if kind == 'equal':
                        return array_equal(I, a[:2], {})
                    kw = dict(rtol=k.get('rtol', a[2] if len(a) > 2 else Sc(T.num(Fraction(1, 10**7)), 'pf')),
                              atol=k.get('atol', a[3] if len(a) > 3 else Sc(ZERO, 'pf')))
                    return allclose(I, a[:2], kw)
                r = I.truth(go())
                if r is False:
                    I.throw('AssertionError', 'Not equal')
                if r is not True:
                    I.pend(T.not_(r), I.exc('AssertionError', 'Not equal'))
                return None
            return f
        for n, kd in (('assert_allclose', 'close'), ('assert_array_equal', 'equal'), ('assert_equal', 'equal')):
            tm.c[n] = Native(n, chk(kd))
        tm.closed = True
        return tm
    I.extmods['numpy.testing'] = testing
    c['testing'] = testing(I)

    # sorting, searching
    nat('sort', lambda I, a, k: sort_(I, a[0], a[1] if len(a) > 1 else k.get('axis', -1)))
    nat('argsort', lambda I, a, k: argsort(I, a[0]))
    nat('take', lambda I, a, k: take(I, a[0], a[1], a[2] if len(a) > 2 else k.get('axis')))

    def take_along(I, a, k):
        raise Bail('take_along_axis')
    nat('take_along_axis', take_along)
    for n in ('cumsum', 'cumprod', 'nancumsum'):
        nat(n, (lambda n: lambda I, a, k: cumul(I, n, a[0], a[1] if len(a) > 1 else k.get('axis')))(n))
    nat('diff', lambda I, a, k: diff(I, a[0], a[1] if len(a) > 1 else k.get('n', 1), k.get('axis', -1)))
    nat('gradient', lambda I, a, k: gradient(I, a, k))
    nat('round', lambda I, a, k: round_(I, a[0], a[1] if len(a) > 1 else k.get('decimals', 0)))
    c['around'] = c['round']
    nat('fix', lambda I, a, k: ufunc(I, 'trunc', a))

    def copyto(I, a, k):
        A = _Args(I, 'copyto', ['dst', 'src', 'casting', 'where'], a, k)
        d, s = I.force(A('dst')), operand(I, A('src'))
        w = A('where', True)
        if not can_same_kind(dt_of(s), d.dt) and A('casting', 'same_kind') != 'unsafe':
            I.throw('TypeError', 'Cannot cast array data')
        mk = None
        if w is not True:
            mk = bt(at_of(operand(I, w), d.ixs))
        store(I, d, fit(I, s, d.dims) if isinstance(s, Arr) else s, mk, how='copyto')
        return None
    nat('copyto', copyto)

    def putmask(I, a, k):
        d, mk, s = I.force(a[0]), operand(I, a[1]), operand(I, a[2])
        if isinstance(s, Arr) and s.ndim and not all(I.dim_eq(x, y) for x, y in zip(s.dims, d.dims)):
            raise Bail('putmask')
        store(I, d, s, bt(at_of(mk, d.ixs)), how='putmask')
        return None
    nat('putmask', putmask)
    nat('place', lambda I, a, k: putmask(I, a, k))

    def fill_diagonal(I, a, k):
        raise Bail('fill_diagonal')
    nat('fill_diagonal', fill_diagonal)

    # function application
    nat('apply_along_axis', lambda I, a, k: apply_along_axis(I, a[0], a[1], a[2], list(a[3:]), k))

    def vectorize(I, a, k):
        f = a[0] if a else k['pyfunc']
        return Native('vectorized', lambda I, b, kw: vectorize_call(I, f, b))
    nat('vectorize', vectorize)

    def frompyfunc(I, a, k):
        raise Bail('frompyfunc')
    nat('frompyfunc', frompyfunc)

    # state
    FPK = ('divide', 'over', 'under', 'invalid')
    I.fperr = Cell({n: 'warn' for n in FPK})

    def fpmodes(I, a, k):
        m = dict(zip(('all',) + FPK, a))
        m.update(k)
        out = {}
        for n, v in m.items():
            v = I.force(v)
            if v is None:
                continue
            if n == 'call':
                raise Bail('numpy error call')
            if n not in FPK + ('all',):
                I.throw('TypeError', 'unexpected keyword argument %r' % n)
            if not isinstance(v, str):
                raise Bail('numpy error state %r' % (v,))
            if v not in ('ignore', 'warn', 'raise', 'call', 'print', 'log'):
                I.throw('ValueError', 'invalid error mode')
            if v == 'call' or v == 'log':
                raise Bail('numpy error state %r' % (v,))
            for q in (FPK if n == 'all' else (n,)):
                if n == 'all' and q in m and m[q] is not None:
                    continue
                out[q] = v
        return out

    def errstate(I, a, k):
        e = Inst(errcls)
        e.c['$modes'] = fpmodes(I, a, k)
        return e
    errcls = Cls('errstate', (obj,))

    def fpenter(I, a, k):
        I.assign(a[0].c, '$old', dict(I.fperr))
        for n, v in a[0].c['$modes'].items():
            I.assign(I.fperr, n, v)
        return a[0]

    def fpexit(I, a, k):
        for n, v in a[0].c['$old'].items():
            if I.fperr[n] != v:
                I.assign(I.fperr, n, v)
        return None

    def fpdecorate(I, a, k):
        me, f = a[0], a[1]

        def run(I, b, kw):
            fpenter(I, [me], {})
            try:
                return I.call(f, b, kw)
            finally:
                fpexit(I, [me], {})
        return Native('with errstate', run)
    errcls.c['__enter__'] = Native('enter', fpenter)
    errcls.c['__exit__'] = Native('exit', fpexit)
    errcls.c['__call__'] = Native('call', fpdecorate)
    nat('errstate', errstate)

    def seterr(I, a, k):
        d = Dct()
        for n in FPK:
            d.c[n] = I.fperr[n]
        for n, v in fpmodes(I, a, k).items():
            I.assign(I.fperr, n, v)
        return d
    nat('seterr', seterr)
    nat('geterr', seterr)
    nat('set_printoptions', lambda I, a, k: None)

    def finfo(I, a, k):
        d = as_dtype(I, a[0])
        if d is None:
            v = operand(I, a[0])
            d = strong(dt_of(v))
        import sys
        f = Inst(fcls)
        f.c.update(eps=Sc(T.num(Fraction(2) ** (-52 if d == 'f' else -63 if d == 'g' else -23)), d),
                   tiny=Sc(T.num(Fraction(2) ** (-1022 if d == 'f' else -16382 if d == 'g' else -126)), d),
                   max=Sc(T.sym('realmax:' + d), d), min=Sc(T.neg(T.sym('realmax:' + d)), d),
                   resolution=Sc(T.num(Fraction(1, 10 ** (15 if d == 'f' else 18))), d), dtype=DType(d))
        f.c['smallest_normal'] = f.c['tiny']
        return f
    fcls = Cls('finfo', (obj,))
    nat('finfo', finfo)
    nat('iinfo', lambda I, a, k: Inst(fcls, max=2**63 - 1, min=-2**63))

    # predicates on types
    def issubdtype(I, a, k):
        d, o = as_dtype(I, a[0]), I.force(a[1])
        if d is None:
            raise Bail('issubdtype')
        kc = cls_of(I, d)
        od = as_dtype(I, o)
        if isinstance(o, Cls) and 'dt' not in o.flags and od is None:
            return kc.issub(o)
        if isinstance(o, Cls) and o is I.builtins['float']:
            return d in ('f', 'f4', 'g') and d == 'f'
        return d == od
    nat('issubdtype', issubdtype)

    def result_type(I, a, k):
        ds = []
        for x in a:
            d = as_dtype(I, x)
            ds.append(d if d is not None else dt_of(operand(I, x)))
        return DType(strong(promote(*ds)))
    nat('result_type', result_type)
    nat('promote_types', result_type)
    nat('can_cast', lambda I, a, k: _bail('can_cast'))
    nat('isscalar', lambda I, a, k: isinstance(I.force(a[0]), (int, Sc, str, Str)))
    nat('iscomplexobj', lambda I, a, k: False)
    nat('isrealobj', lambda I, a, k: True)
    nat('isreal', lambda I, a, k: elementwise(I, [operand(I, a[0])], lambda x: T.TRUE, 'b'))
    nat('iterable', lambda I, a, k: not isnum(I.force(a[0])) and I.force(a[0]) is not None)

    def shares(I, a, k):
        raise Bail('shares_memory')
    nat('shares_memory', shares)
    nat('may_share_memory', shares)

    def unique(I, a, k):
        A = _Args(I, 'unique', ['ar', 'return_index', 'return_inverse', 'return_counts', 'axis', 'equal_nan', 'sorted'], a, k)
        v = asarray(I, operand(I, A('ar')))
        axis = A('axis', None)
        if v.sel is not None:
            raise Bail('unique of a selection')
        if axis is None:
            v = v if v.ndim == 1 else I.call(I.getattr(v, 'ravel'), [])
        elif axis not in (0, -v.ndim):
            raise Bail('unique along axis %r' % (axis,))
        n = const_dim(v.dims[0])
        if n is None or n > 64:
            raise Bail('unique values of an array of unknown size')
        keys = [row_key(v, i) for i in range(n)]
        o = decided_order(I, keys)
        if o is None:
            raise Bail('unique values are not decided')
        perm, new = o
        reps = [p for p, fresh in zip(perm, new) if fresh]
        out = [getitem(I, v, asarray(I, Lst(reps))) if reps else v]
        if A('return_index', False) is True:
            out.append(asarray(I, Lst(reps)))
        rank, r = {}, -1
        for p, fresh in zip(perm, new):
            r += fresh
            rank[p] = r
        if A('return_inverse', False) is True:
            out.append(asarray(I, Lst([rank[i] for i in range(n)])))
        if A('return_counts', False) is True:
            out.append(asarray(I, Lst([sum(x == j for x in rank.values()) for j in range(len(reps))])))
        return out[0] if len(out) == 1 else tuple(out)
    nat('unique', unique)

    # files
    def savetxt(I, a, k):
        names = ['fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments', 'encoding']
        A = _Args(I, 'savetxt', names, a, k)
        x = I.force(A('X'))
        x = asarray(I, x)
        d = {n: A.d.get(n) for n in names if n in A.d}
        I.event('savetxt', fname=I.force(A('fname')), arr=x, opts=d)
        return None
    nat('savetxt', savetxt)

    def save_other(name):
        def f(I, a, k):
            I.event('npsave', fname=a[0], how=name)
            return None
        return f
    for n in ('save', 'savez', 'savez_compressed'):
        nat(n, save_other(n))
    for n in ('loadtxt', 'genfromtxt', 'load', 'fromfile', 'fromstring'):
        nat(n, (lambda n: lambda I, a, k: Ext('numpy.%s()' % n))(n))

    # submodules
    la = Mod('numpy.linalg')
    la.c['det'] = Native('numpy.linalg.det', lambda I, a, k: det(I, a[0]))

    def slogdet(I, a, k):
        d = det(I, a[0])
        return (ufunc(I, 'sign', [d]), ufunc(I, 'log', [ufunc(I, 'abs', [d])]))
    la.c['slogdet'] = Native('numpy.linalg.slogdet', slogdet)
    la.c['LinAlgError'] = Cls('LinAlgError', (I.builtins['ValueError'],))
    la.c['LinAlgError'].flags = dict(I.builtins['ValueError'].flags)

    def multi_dot(I, a, k):
        its = I.iterate(a[0])
        r = its[0]
        for x in its[1:]:
            r = dot(I, r, x)
        return r
    la.c['multi_dot'] = Native('multi_dot', multi_dot)

    def norm(I, a, k):
        v = asarray(I, operand(I, a[0]))
        ax = k.get('axis', a[2] if len(a) > 2 else None)
        o = a[1] if len(a) > 1 else k.get('ord')
        if o not in (None, 2):
            raise Bail('norm')
        s = reduce(I, 'sum', _ufunc(I, 'multiply', [v, v]), ax, k.get('keepdims', False))
        return ufunc(I, 'sqrt', [s])
    la.c['norm'] = Native('norm', norm)
    c['linalg'] = la
    I.extmods['numpy.linalg'] = la
    rnd = Mod('numpy.random')
    rnd.dyn = lambda I, n: Ext('numpy.random.' + n)

    def rnd_get(I, n):
        return Native('numpy.random.' + n, lambda I, a, k: _bail('random numbers'))
    for n in ('rand', 'randn', 'random', 'normal', 'uniform', 'choice', 'permutation', 'default_rng', 'seed', 'randint'):
        rnd.c[n] = rnd_get(I, n)

    def shuffle(I, a, k):
        v = I.force(a[0])
        if isinstance(v, Arr):
            I.event('mutate', buf=v.buf, how='shuffle')
        raise Bail('random numbers')
    rnd.c['shuffle'] = Native('shuffle', shuffle)
    c['random'] = rnd
    I.extmods['numpy.random'] = rnd
    ty = Mod('numpy.typing')
    ty.c['NDArray'] = Ext('NDArray')
    ty.c['ArrayLike'] = Ext('ArrayLike')
    ty.c['DTypeLike'] = Ext('DTypeLike')
    c['typing'] = ty
    I.extmods['numpy.typing'] = ty
    ex = Mod('numpy.exceptions')
    for n, base in (('AxisError', 'ValueError'), ('VisibleDeprecationWarning', 'UserWarning')):
        k = Cls(n, (I.builtins[base],))
        k.flags = dict(I.builtins[base].flags)
        ex.c[n] = k
    c['exceptions'] = ex
    I.extmods['numpy.exceptions'] = ex
    # names of the installed NumPy; anything else is an AttributeError there
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'numpy_names.txt')) as fh:
        m.names = set(fh.read().split())

    def dyn(I, name):
        if name in m.names:
            raise Bail('numpy.%s is not modelled' % name)
        return MISSING
    m.dyn = dyn
    I.extmods['numpy'] = m
