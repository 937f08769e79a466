"""Models of the Python built-ins."""
import math
from fractions import Fraction
from . import terms as T
from .values import *
from .values import _KIND, _WEAK, _ORD

DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
          'LShift': 'lshift', 'RShift': 'rshift'}
CMP = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__', 'Eq': '__eq__', 'NotEq': '__ne__'}


# ---------------------------------------------------------------- types
def type_name(v):
    if isinstance(v, Inst):
        return v.cls.name
    if isinstance(v, Host):
        return v.name
    return type(v).__name__


def type_of(I, v):
    b = I.builtins
    if v is None:
        return b['$NoneType']
    if isinstance(v, bool):
        return b['bool']
    if isinstance(v, int):
        return b['int']
    if isinstance(v, (str, Str)):
        return b['str']
    if isinstance(v, bytes):
        return b['bytes']
    if isinstance(v, Sc):
        return {'pb': b['bool'], 'pi': b['int'], 'pf': b['float'], 'b': I.np.CLS['bool_'], 'i': I.np.CLS['int64'],
                'f4': I.np.CLS['float32'], 'f': I.np.CLS['float64'], 'g': I.np.CLS['longdouble']}.get(v.dt) or b['object']
    if isinstance(v, (tuple, Tup)):
        return b['tuple']
    if isinstance(v, Lst):
        return b['list'] if v.kind == 'list' else b['$generator']
    if isinstance(v, Dct):
        return b['$' + v.kind] if v.kind != 'dict' else b['dict']
    if isinstance(v, SetV):
        return b['set']
    if isinstance(v, Arr):
        return I.np.CLS['ndarray']
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, (Fn, Bound, Native)):
        return b['$function']
    if isinstance(v, Cls):
        return v.meta if isinstance(v.meta, Cls) else b['type']
    if isinstance(v, Host):
        return getattr(v, 'cls', None) or b['$host']
    if isinstance(v, Mod):
        return b['$module']
    if isinstance(v, SliceV):
        return b['slice']
    if isinstance(v, DType):
        return I.np.CLS['dtype']
    raise Bail('type of %r' % (v,))


def isinstance_(I, v, c):
    v = I.force(v)
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: isinstance_(I, x, c))
    c = I.force(c)
    if isinstance(c, tuple):
        rs = [isinstance_(I, v, x) for x in c]
        return any(r is True for r in rs)
    if isinstance(c, Lst):
        return isinstance_(I, v, tuple(c.items))
    if isinstance(c, DType):
        return isinstance(v, Sc) and v.dt == c.dt
    if isinstance(c, Cls):
        f = c.flags.get('instancecheck')
        if f is not None:
            return f(I, v)
        if isinstance(v, Ext):
            raise Bail('isinstance of external object')
        return type_of(I, v).issub(c)
    if isinstance(c, Ext):
        return False if isinstance(v, (int, str, Str, Sc, Arr, Lst, Dct, tuple, Host, type(None))) else _bail('isinstance')
    I.throw('TypeError', 'isinstance() arg 2 must be a type')


def _bail(m):
    raise Bail(m)


def numeric(v):
    return isinstance(v, (int, Sc))


# ---------------------------------------------------------------- truth, iteration
def opaque_bool(*key):
    return T.lt(T.num(0), T.sym('cond:' + repr(key)))


def truth(I, v):
    if v is None:
        return False
    if isinstance(v, (bool, int, str, bytes)):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Sc):
        if T.is_bool(v.t):
            return v.t
        if v.t is T.INF or v.t is T.NAN:
            return True
        return T.not_(T.eq(v.t, T.num(0)))
    if isinstance(v, Choice):
        r = T.FALSE
        for c, x in v.alts:
            t = I.truth(x)
            r = T.or_(r, T.and_(c, t if isinstance(t, T.Term) else (T.TRUE if t else T.FALSE)))
        return r
    if isinstance(v, Arr):
        if v.sel is None and all(d.op == 'num' and d.args[0] == 1 for d in v.dims):
            return truth(I, Sc(v.at([T.num(0)] * v.ndim), v.dt))
        if v.ndim and all(d.op == 'num' for d in v.dims) or True:
            I.throw('ValueError', 'The truth value of an array with more than one element is ambiguous')
    if isinstance(v, (Lst, SetV, Tup)):
        if isinstance(v, Lst) and v.kind != 'list':
            return True
        r = T.FALSE
        for it in v.items:
            if isinstance(it, Seg):
                x = T.lt(T.num(0), it.dim)
                if it.cond is not T.TRUE:
                    x = T.red('any', it.ix, it.dim, it.cond)
                r = T.or_(r, x)
            elif isinstance(it, HoleItem):
                return opaque_bool('nonempty', it.lst)
            else:
                return True
        return r
    if isinstance(v, Dct):
        return bool(v.c)
    if isinstance(v, Str):
        for p in v.parts:
            if isinstance(p, str) or 'nonempty' in p.facts:
                return True
        return opaque_bool('str', v.parts)
    if isinstance(v, Inst):
        d, _ = v.cls.lookup('__bool__')
        if d is not None:
            return I.truth(I.call(Bound(d, v), []))
        d, _ = v.cls.lookup('__len__')
        if d is not None:
            return I.truth(I.call(Bound(d, v), []))
        return True
    if isinstance(v, Host):
        g = v.get(I, '__bool__')
        return True if g is MISSING else g
    if isinstance(v, (Fn, Native, Cls, Bound, Mod, DType, SliceV)):
        return True
    if isinstance(v, Ext):
        return opaque_bool('ext', v.path)
    raise Bail('truth of %r' % (v,))


def iterate(I, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Lst):
        items = list(v.items)
        if v.kind != 'list':
            I.assign(v.c, 'items', ())     # iterators are consumed
        return items
    if isinstance(v, SetV):
        return list(v.items)
    if isinstance(v, Dct):
        return [k.v if isinstance(k, Key) else k for k in v.c]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.throw('TypeError', 'iteration over a 0-d array')
        if v.sel is not None:
            raise SelBail('iteration over a masked selection', v.sel, I.site())
        return I.np.rows(I, v)
    if isinstance(v, Inst):
        d, _ = v.cls.lookup('__iter__')
        if d is not None:
            return I.iterate(I.call(Bound(d, v), []))
        if 'enum_members' in v.cls.flags:
            pass
        I.throw('TypeError', '%r object is not iterable' % v.cls.name)
    if isinstance(v, Cls):
        if 'enum_members' in v.flags:
            return list(v.flags['enum_members'])
        I.throw('TypeError', 'type object is not iterable')
    if isinstance(v, Host):
        g = v.get(I, '__iter__')
        if g is not MISSING:
            return I.iterate(I.call(g, []))
        I.throw('TypeError', '%r object is not iterable' % v.name)
    if v is None or isinstance(v, (int, Sc, Fn, Native, Bound, Mod)):
        I.throw('TypeError', '%r object is not iterable' % type_name(v))
    raise Bail('iteration over %r' % (v,))


def length(I, v):
    v = I.force(v)
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: length(I, x))
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, (Lst, SetV, Tup)):
        if isinstance(v, Lst) and v.kind != 'list':
            I.throw('TypeError', 'object of type generator has no len()')
        n, tot = 0, []
        for it in v.items:
            if isinstance(it, Seg):
                tot.append(it.dim if it.cond is T.TRUE else
                           T.red('sum', it.ix, it.dim, T.ite(it.cond, T.num(1), T.num(0))))
            elif isinstance(it, HoleItem):
                tot.append(T.sym('len:' + str(it.lst)))
            else:
                n += 1
        if not tot:
            return n
        return ival(I.norm_dim(T.add(*(tot + [T.num(n)])) if n or len(tot) > 1 else tot[0]))
    if isinstance(v, Dct):
        return len(v.c)
    if isinstance(v, Arr):
        if not v.dims:
            I.throw('TypeError', 'len() of unsized object')
        if v.sel is not None:
            return I.np.sel_count(I, v)
        return ival(v.dims[0])
    if isinstance(v, Inst):
        d, _ = v.cls.lookup('__len__')
        if d is not None:
            return I.call(Bound(d, v), [])
        I.throw('TypeError', 'object of type %r has no len()' % v.cls.name)
    if isinstance(v, Cls) and 'enum_members' in v.flags:
        return len(v.flags['enum_members'])
    if isinstance(v, Host):
        g = v.get(I, '__len__')
        if g is not MISSING:
            return I.call(g, [])
    if v is None or isinstance(v, (int, Sc, Host, Fn)):
        I.throw('TypeError', 'object of type %r has no len()' % type_name(v))
    if isinstance(v, Str):
        return Sc(T.sym('len:' + repr(v.parts)), 'pi')
    raise Bail('len of %r' % (v,))


# ---------------------------------------------------------------- scalar arithmetic
def scalar_bin(I, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Div':
                if b == 0:
                    raise ZeroDivisionError
                return Sc(const_fold(Fraction(a, b)), 'pf')
            if op == 'Pow':
                if b >= 0:
                    return a ** b
                return Sc(const_fold(Fraction(a) ** b), 'pf')
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
        except ZeroDivisionError:
            I.throw('ZeroDivisionError', 'division by zero')
    return I.np.scalar_op(I, op, a, b)


def const_fold(fr):
    """Exact rational; recognised physical constants become symbols."""
    if fr.denominator == 1 and abs(fr.numerator) < 10**6:
        return T.num(fr)
    t = T.const(float(fr)) if abs(fr) > 0 and 1e-300 < abs(float(fr)) < 1e300 else T.num(fr)
    if t.op == 'num':
        return T.num(fr)
    return t


def binop(I, op, a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        return Ext('(%s %s %s)' % (getattr(a, 'path', type_name(a)), op, getattr(b, 'path', type_name(b))))
    if isinstance(a, Inst) or isinstance(b, Inst):
        if isinstance(a, Inst):
            d, _ = a.cls.lookup('__' + DUNDER[op] + '__')
            if d is not None:
                return I.call(Bound(d, a), [b])
        if isinstance(b, Inst):
            d, _ = b.cls.lookup('__r' + DUNDER[op] + '__')
            if d is not None:
                return I.call(Bound(d, b), [a])
        I.throw('TypeError', 'unsupported operand types')
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, Str, Dct, Host, Fn)) or isinstance(b, (str, Str, Dct, Host, Fn)):
            I.throw('TypeError', 'unsupported operand type(s)')
        return I.np.binop(I, op, a, b)
    if numeric(a) and numeric(b):
        return scalar_bin(I, op, a, b)
    if op == 'Add':
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return mkstr((a, b))
        if isinstance(a, (tuple, Tup)) and isinstance(b, (tuple, Tup)):
            its = iterate(I, a) + iterate(I, b)
            return Tup(its) if any(isinstance(x, Seg) for x in its) else tuple(its)
        if isinstance(a, Lst) and isinstance(b, Lst):
            return Lst(a.items + b.items)
    if op == 'Mult':
        if isinstance(b, (str, tuple, Lst)) and numeric(a):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
        if isinstance(a, Lst) and isinstance(b, int):
            return Lst(a.items * max(b, 0))
        if isinstance(a, Lst) and isinstance(b, Sc) and len(a.items) == 1 and not isinstance(a.items[0], Seg):
            return Lst([Seg(b.t, T.fresh_idx('r'), a.items[0])])
    if op == 'Mod' and isinstance(a, (str, Str)):
        return percent(I, a, b)
    if op == 'BitOr' and isinstance(a, (Dct,)) and isinstance(b, Dct):
        d = Dct()
        d.c = Cell(a.c)
        d.c.update(b.c)
        return d
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_op(I, op, a, b)
    if op == 'BitOr' and isinstance(a, Cls):
        return (a, b)
    if isinstance(a, Host) and isinstance(a.get(I, '__' + DUNDER[op] + '__'), V):
        return I.call(a.get(I, '__' + DUNDER[op] + '__'), [b])
    if isinstance(a, (Lst,)) and isinstance(b, (Sc,)) or isinstance(b, (Lst, tuple)) and isinstance(a, (Sc,)):
        # numpy scalar with a list broadcasts
        if (isinstance(a, Sc) and a.dt in ('i', 'f', 'g')) or (isinstance(b, Sc) and b.dt in ('i', 'f', 'g')):
            return I.np.binop(I, op, I.np.asarray(I, a) if isinstance(a, Lst) else a,
                              I.np.asarray(I, b) if not isinstance(b, Sc) else b)
    known = (type(None), int, str, Str, Sc, tuple, Lst, Dct, SetV, Fn, Native, Cls, Host, Tup)
    if isinstance(a, known) and isinstance(b, known):
        I.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    raise Bail('%s of %r and %r' % (op, a, b))


def percent(I, a, b):
    args = list(b) if isinstance(b, tuple) else [b]
    if isinstance(b, Dct):
        raise Bail('% with mapping')
    out, parts = [], a.parts if isinstance(a, Str) else (a,)
    import re
    for p in parts:
        if not isinstance(p, str):
            out.append(p)
            continue
        pos = 0
        for m in re.finditer(r'%(\d*\.?\d*)([sdrfgei%])', p):
            out.append(p[pos:m.start()])
            pos = m.end()
            if m.group(2) == '%':
                out.append('%')
            else:
                if not args:
                    I.throw('TypeError', 'not enough arguments for format string')
                out.append(fmt(I, args.pop(0), m.group(1) + m.group(2) if m.group(2) != 's' else None, -1))
        out.append(p[pos:])
    return mkstr(out)


def fmt(I, x, spec=None, conv=-1):
    x = I.force(x)
    if isinstance(x, Choice):
        return I.distribute(x, lambda y: fmt(I, y, spec, conv))
    if spec in ('', None, 'd', 's'):
        return to_str(I, x) if conv in (-1, 115) else repr_(I, x)
    if isinstance(x, (int, str)) and isinstance(spec, str):
        try:
            return format(x, spec)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    if isinstance(x, Sc):
        return Str((SymPart(('fmt', spec if isinstance(spec, str) else repr(spec), x.t)),))
    return Str((SymPart(('fmt', repr(spec), repr(x))),))


def to_str(I, x):
    x = I.force(x)
    if isinstance(x, Choice):
        return I.distribute(x, lambda y: to_str(I, y))
    if isinstance(x, (str, Str)):
        return x
    if x is None or isinstance(x, int):
        return str(x)
    if isinstance(x, Sc):
        if x.dt in ('pi', 'i'):
            return Str((SymPart(('int', x.t)),))
        return Str((SymPart(('float', x.t)),))
    if isinstance(x, Inst):
        for n in ('__str__', '__repr__'):
            d, k = x.cls.lookup(n)
            if d is not None and not isinstance(d, Native):
                return I.call(Bound(d, x), [])
        if 'path' in x.c:
            return x.c['path']
        if x.cls.flags.get('exc'):
            a = x.c.get('args', ())
            return to_str(I, a[0]) if isinstance(a, tuple) and len(a) == 1 else Str((SymPart('exc:%d' % x.id),))
    if isinstance(x, Cls):
        return "<class '%s'>" % x.name
    return Str((SymPart('str:%d:%s' % (id(x), type_name(x))),))


def repr_(I, x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, Str):
        return mkstr(("'", x, "'"))
    return to_str(I, x)


# ---------------------------------------------------------------- comparison
def val_eq(I, a, b):
    """True / False / condition term."""
    a, b = I.force(a), I.force(b)
    if a is b:
        return True
    if isinstance(a, Choice):
        return I.truth(a) if b is True else I.truth(I.distribute(a, lambda x: tb(val_eq(I, x, b))))
    if isinstance(b, Choice):
        return val_eq(I, b, a)
    if numeric(a) and numeric(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        ta, tb_ = term_of(a), term_of(b)
        if T.is_bool(ta) or T.is_bool(tb_):
            if ta is T.TRUE:
                return tb_
            if tb_ is T.TRUE:
                return ta
            if ta is T.FALSE:
                return T.not_(tb_)
            if tb_ is T.FALSE:
                return T.not_(ta)
            if T.is_bool(ta) and T.is_bool(tb_):
                return T.or_(T.and_(ta, tb_), T.and_(T.not_(ta), T.not_(tb_)))
        r = T.eq(ta, tb_)
        return r if I.decide(r) is None else I.decide(r)
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return str_eq(a, b)
    if isinstance(a, (tuple, Tup)) and isinstance(b, (tuple, Tup)):
        x, y = iterate(I, a), iterate(I, b)
        return seq_eq(I, x, y)
    if isinstance(a, Lst) and isinstance(b, Lst):
        return seq_eq(I, list(a.items), list(b.items))
    if isinstance(a, SetV) and isinstance(b, SetV):
        try:
            return set(a.items) == set(b.items)
        except TypeError:
            raise Bail('set comparison')
    if isinstance(a, Dct) and isinstance(b, Dct):
        if set(a.c) != set(b.c):
            return False
        return seq_eq(I, [a.c[k] for k in a.c], [b.c[k] for k in a.c])
    if isinstance(a, (Arr,)) or isinstance(b, Arr):
        o = b if isinstance(a, Arr) else a
        if isinstance(o, Arr) or numeric(o):
            return I.truth(I.np.compare(I, 'Eq', a, b))
        if o is None or isinstance(o, (str, Str)):
            # compared with each entry
            x = a if isinstance(a, Arr) else b
            return I.truth(I.np.new_arr(x.dims, x.ixs, T.FALSE, 'b', None, I.site()))
        raise Bail('array equality as condition')
    if isinstance(a, Inst):
        d, _ = a.cls.lookup('__eq__')
        if d is not None:
            return I.truth(I.call(Bound(d, a), [b]))
        return False
    if isinstance(a, DType) or isinstance(b, DType) or isinstance(a, Cls) or isinstance(b, Cls):
        da, db = I.np.as_dtype(I, a), I.np.as_dtype(I, b)
        return da is not None and da == db
    if isinstance(a, Ext) or isinstance(b, Ext):
        return opaque_bool('eq', getattr(a, 'path', repr(a)), getattr(b, 'path', repr(b)))
    return False


def tb(x):
    return x if isinstance(x, bool) else Sc(x, 'pb')


def seq_eq(I, x, y):
    if any(isinstance(i, Seg) for i in x + y):
        raise Bail('comparison of sequences of unknown length')
    if len(x) != len(y):
        return False
    r = T.TRUE
    for a, b in zip(x, y):
        e = val_eq(I, a, b)
        if e is False:
            return False
        if e is not True:
            r = T.and_(r, e)
    return True if r is T.TRUE else r


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa = a.parts if isinstance(a, Str) else (a,) if a else ()
    pb = b.parts if isinstance(b, Str) else (b,) if b else ()
    if pa == pb:
        return True
    # strip common prefix / suffix
    pa, pb = list(pa), list(pb)
    while pa and pb and pa[0] == pb[0]:
        pa.pop(0)
        pb.pop(0)
    while pa and pb and pa[-1] == pb[-1]:
        pa.pop()
        pb.pop()
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][len(pa[-1]) - n:] != pb[-1][len(pb[-1]) - n:]:
            return False
    if not pa and any(isinstance(p, str) or 'nonempty' in p.facts for p in pb):
        return False
    if not pb and any(isinstance(p, str) or 'nonempty' in p.facts for p in pa):
        return False
    return opaque_bool('streq', tuple(pa), tuple(pb))


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_same(I, a, b)
        if op == 'IsNot':
            r = (not r) if isinstance(r, bool) else T.not_(r)
        return tb(r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        if op == 'NotIn':
            r = (not r) if isinstance(r, bool) else T.not_(r)
        return tb(r)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op in ('Eq', 'NotEq') and (a is None or b is None or isinstance(a, (str, Str)) or isinstance(b, (str, Str))):
            x = a if isinstance(a, Arr) else b
            ix = fresh_ixs(x.ndim)
            return new_arr(x.dims, ix, T.FALSE if op == 'Eq' else T.TRUE, 'b')
        return I.np.compare(I, op, a, b)
    if op in ('Eq', 'NotEq'):
        r = val_eq(I, a, b)
        if op == 'NotEq':
            if isinstance(a, Inst):
                d, _ = a.cls.lookup('__ne__')
                if d is not None and not isinstance(d, Native):
                    return I.call(Bound(d, a), [b])
            r = (not r) if isinstance(r, bool) else T.not_(r)
        return tb(r)
    if numeric(a) and numeric(b):
        ta, tb_ = num_term(a), num_term(b)
        r = {'Lt': lambda: T.lt(ta, tb_), 'LtE': lambda: T.le(ta, tb_),
             'Gt': lambda: T.lt(tb_, ta), 'GtE': lambda: T.le(tb_, ta)}[op]()
        if r is T.TRUE or r is T.FALSE:
            return r is T.TRUE
        return Sc(r, 'pb')
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, (int, str)) for x in a + b):
        try:
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        except TypeError:
            I.throw('TypeError', 'ordering')
    if isinstance(a, Inst):
        d, _ = a.cls.lookup(CMP[op])
        if d is not None:
            return I.call(Bound(d, a), [b])
    if isinstance(a, SetV) and isinstance(b, SetV):
        x, y = set(a.items), set(b.items)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    if isinstance(a, Ext) or isinstance(b, Ext):
        return Sc(opaque_bool(op, getattr(a, 'path', repr(a)), getattr(b, 'path', repr(b))), 'pb')
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return Sc(opaque_bool(op, repr(a), repr(b)), 'pb')
    known = (type(None), int, str, Str, Sc, tuple, Lst, Dct, Fn, Cls)
    if isinstance(a, known) and isinstance(b, known):
        I.throw('TypeError', 'ordering not supported')
    raise Bail('comparison of %r and %r' % (a, b))


def num_term(v):
    t = term_of(v)
    if T.is_bool(t):
        return T.ite(t, T.num(1), T.num(0))
    return t


def is_same(I, a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, str, type(None))) or isinstance(b, (bool, int, str, type(None))):
        if type(a) is type(b) and a == b:
            return True
        if isinstance(a, Sc) and isinstance(b, bool) and T.is_bool(a.t):
            return a.t if b else T.not_(a.t)
        if isinstance(b, Sc) and isinstance(a, bool) and T.is_bool(b.t):
            return b.t if a else T.not_(b.t)
        return False
    if isinstance(a, Choice):
        return I.truth(I.distribute(a, lambda x: tb(is_same(I, x, b))))
    if isinstance(b, Choice):
        return is_same(I, b, a)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def contains(I, x, c):
    if isinstance(c, Dct):
        r = dict_find(I, c, x)
        if isinstance(r, tuple):
            return True
        if r is MISSING:
            I.missed.add((id(c.c), x if isinstance(x, (str, int)) else None))
            return False
        cond = T.FALSE
        for k, _ in r:
            cond = T.or_(cond, k)
        return cond
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (str, Str)) and isinstance(x, (str, Str)):
        return str_contains(I, x, c)
    if isinstance(c, Inst):
        d, _ = c.cls.lookup('__contains__')
        if d is not None:
            return I.truth(I.call(Bound(d, c), [x]))
        if c.cls.flags.get('namespace'):
            return x in c.c
    if isinstance(c, Arr):
        e = I.np.compare(I, 'Eq', c, x)
        return I.truth(I.np.reduce(I, 'any', e, None))
    if isinstance(c, Host):
        g = c.get(I, '__contains__')
        if g is not MISSING:
            return I.truth(I.call(g, [x]))
    if isinstance(c, Ext):
        return opaque_bool('in', repr(x), c.path)
    r = T.FALSE
    for it in I.iterate(c):
        if isinstance(it, Seg):
            e = val_eq(I, it.val, x)
            if e is False:
                continue
            r = T.or_(r, T.red('any', it.ix, it.dim, T.and_(it.cond, e if isinstance(e, T.Term) else T.TRUE)))
            continue
        e = val_eq(I, x, it)
        if e is True:
            return True
        if e is not False:
            r = T.or_(r, e)
    return r if r is not T.FALSE else False


def str_contains(I, x, s):
    parts = s.parts if isinstance(s, Str) else (s,)
    if isinstance(x, str):
        if any(isinstance(p, str) and x in p for p in parts):
            return True
        if len(x) == 1 and not any(isinstance(p, str) and x in p for p in parts):
            if all(isinstance(p, str) or (x == '.' and 'nodot' in p.facts) or (x == '/' and 'noslash' in p.facts)
                   for p in parts):
                return False
    return opaque_bool('instr', repr(x), parts)


# ---------------------------------------------------------------- dictionaries
def dkey(I, k):
    k = I.force(k)
    if isinstance(k, (Str,)):
        return k
    if k is None or isinstance(k, (int, str, bytes)):
        return k
    if isinstance(k, tuple) and all(isinstance(x, (int, str, type(None), Str)) for x in k):
        return k
    if isinstance(k, (Cls, Fn, Native, Mod, DType, Host)):
        return k
    if isinstance(k, Inst):
        if k.cls.lookup('__hash__')[0] is None and k.cls.lookup('__eq__')[0] is None:
            return k
        return Key(k)
    if isinstance(k, (Arr, Lst, Dct, SetV)):
        I.throw('TypeError', 'unhashable type: %r' % type_name(k))
    if isinstance(k, Sc) and k.t.op == 'num' and k.t.args[0].denominator == 1:
        return int(k.t.args[0])
    if isinstance(k, (Sc, tuple, Choice, Ext, Bound)):
        if isinstance(k, tuple):
            for x in k:
                if isinstance(x, (Arr, Lst, Dct)):
                    I.throw('TypeError', 'unhashable type')
        return Key(k)
    raise Bail('dictionary key %r' % (k,))


def dict_find(I, d, k):
    """(value,) | MISSING | [(cond, value), ...] for a symbolic key."""
    kk = dkey(I, k)
    if not isinstance(kk, (Key, Str)) and kk in d.c and not isinstance(kk, bool):
        return (d.c[kk],)
    if isinstance(kk, Str) and kk in d.c:
        return (d.c[kk],)
    alts = []
    for q, v in reversed(list(d.c.items())):
        if not isinstance(kk, (Key, Str)) and not isinstance(q, (Key, Str)):
            continue
        e = val_eq(I, q.v if isinstance(q, Key) else q, kk.v if isinstance(kk, Key) else kk)
        if e is True:
            if not alts:
                return (v,)
            alts.append((T.TRUE, v))
            break
        if e is not False:
            alts.append((e, v))
    if not alts and d.fill is not None and isinstance(kk, str):
        v = d.fill(kk)
        if v is not MISSING:
            return (v,)
    return alts or MISSING


def dict_get(I, d, k, default=MISSING):
    r = dict_find(I, d, k)
    if isinstance(r, tuple):
        v = r[0]
        if isinstance(v, Choice) and any(x is MISSING for _, x in v.alts):
            miss = T.FALSE
            for c, x in v.alts:
                if x is MISSING:
                    miss = T.or_(miss, c)
            dec = I.decide(miss)
            rest = [(c, x) for c, x in v.alts if x is not MISSING]
            val = rest[0][1] if len(rest) == 1 else Choice(rest)
            if dec is False:
                return val
            if default is MISSING:
                if dec is True:
                    I.throw('KeyError', k)
                I.pend(miss, I.exc('KeyError', k))
                return val
            return default if dec is True else I.choice([(miss, default), (T.TRUE, val)])
        return v
    if r is MISSING:
        I.missed.add((id(d.c), k if isinstance(k, (str, int)) else None))
        if default is not MISSING:
            return default
        if d.default is not None:
            v = I.call(d.default, [])
            dict_set(I, d, k, v)
            return v
        I.throw('KeyError', k)
    alts = list(r)
    if alts[-1][0] is not T.TRUE:
        rest = T.TRUE
        for c, _ in alts:
            rest = T.and_(rest, T.not_(c))
        if default is not MISSING:
            alts.append((T.TRUE, default))
        else:
            I.pend(rest, I.exc('KeyError', k))
    v = alts[-1][1]
    for c, x in reversed(alts[:-1]):
        v = I.join(c, x, v)
    return v


def dict_set(I, d, k, v):
    if d.kind == 'readonly':
        I.throw('TypeError', 'mappingproxy')
    kk = dkey(I, k)
    if isinstance(kk, Key):
        # overwrite a key known to be equal, else add
        for q in list(d.c):
            if isinstance(q, Key) and val_eq(I, q.v, kk.v) is True:
                kk = q
                break
    I.assign(d.c, kk, v)
    if d.kind == 'Counter':
        pass


def dict_update(I, d, o):
    o = I.force(o)
    if isinstance(o, Dct):
        for k, v in list(o.c.items()):
            I.assign(d.c, k, v)
    elif isinstance(o, (Lst, tuple)):
        for it in I.iterate(o):
            if isinstance(it, Seg):
                raise Bail('dict from run')
            a, b = I.iterate(it)
            dict_set(I, d, a, b)
    elif isinstance(o, Host) and o.get(I, 'keys') is not MISSING:
        for it in I.iterate(I.call(o.get(I, 'keys'), [])):
            if isinstance(it, Seg):
                raise Bail('dict from run')
            dict_set(I, d, it, I.call(o.get(I, '__getitem__'), [it]))
    else:
        raise Bail('dict update from %r' % (o,))


def update_or(I, cur, val):
    if isinstance(cur, Dct):
        dict_update(I, cur, val)
    else:
        I.assign(cur.c, 'items', tuple(dedup(I, list(cur.items) + I.iterate(val))))
    return cur


def dedup(I, items):
    out = []
    for it in items:
        if isinstance(it, Seg):
            raise Bail('set over an axis of unknown length')
        dup = False
        for o in out:
            e = val_eq(I, it, o)
            if e is True:
                dup = True
                break
            if e is not False:
                raise Bail('set with symbolic members')
        if not dup:
            out.append(it)
    return out


def set_op(I, op, a, b):
    def has(x, s):
        e = contains(I, x, Lst(s.items))
        if not isinstance(e, bool):
            raise Bail('set operation with symbolic members')
        return e
    if op == 'BitOr':
        return SetV(dedup(I, list(a.items) + list(b.items)))
    if op == 'BitAnd':
        return SetV([x for x in a.items if has(x, b)])
    if op == 'Sub':
        return SetV([x for x in a.items if not has(x, b)])
    if op == 'BitXor':
        return SetV([x for x in a.items if not has(x, b)] + [x for x in b.items if not has(x, a)])
    raise Bail('set ' + op)


# ---------------------------------------------------------------- items
def norm_index(I, i, n):
    """Index term for position i in a run of length term n."""
    if isinstance(i, Sc) and i.t.op == 'num' and i.t.args[0].denominator == 1:
        i = int(i.t.args[0])
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i >= 0:
            return T.num(i)
        return I.norm_dim(T.add(n, T.num(i)))
    return i.t


def getitem(I, o, ix):
    if isinstance(o, Arr):
        return I.np.getitem(I, o, ix)
    if isinstance(o, (Lst, Tup, tuple, str)):
        return seq_getitem(I, o, ix)
    if isinstance(o, Dct):
        return dict_get(I, o, ix)
    if isinstance(o, Inst):
        d, _ = o.cls.lookup('__getitem__')
        if d is not None:
            return I.call(Bound(d, o), [ix])
        I.throw('TypeError', '%r object is not subscriptable' % o.cls.name)
    if isinstance(o, Host):
        g = o.get(I, '__getitem__')
        if g is not MISSING:
            return I.call(g, [ix])
        I.throw('TypeError', '%r object is not subscriptable' % o.name)
    if isinstance(o, Ext):
        return Ext('%s[]' % o.path)
    if isinstance(o, Cls):
        if 'enum_members' in o.flags and isinstance(ix, str):
            if ix in o.c:
                return o.c[ix]
            I.throw('KeyError', ix)
        return o            # typing generics
    if isinstance(o, Str):
        return str_slice(I, o, ix)
    if isinstance(o, Native) and 'getitem' in o.info:
        return o.info['getitem'](I, ix)
    if o is None or isinstance(o, (int, Sc, Fn, Bound, Native)):
        I.throw('TypeError', 'object is not subscriptable')
    raise Bail('subscript of %r' % (o,))


def seq_getitem(I, o, ix):
    items = list(o.items) if isinstance(o, (Lst, Tup)) else o
    if isinstance(o, Lst) and o.kind != 'list':
        I.throw('TypeError', 'generator is not subscriptable')
    segs = not isinstance(items, str) and any(isinstance(x, (Seg, HoleItem)) for x in items)
    if isinstance(ix, Sc) and ix.t.op == 'num' and ix.t.args[0].denominator == 1 and ix.dt in ('pi', 'i'):
        ix = int(ix.t.args[0])
    if isinstance(ix, SliceV):
        g = [int(x.t.args[0]) if isinstance(x, Sc) and x.t.op == 'num' else x for x in (ix.lo, ix.hi, ix.step)]
        if not segs:
            if any(x is not None and not isinstance(x, int) for x in g):
                raise Bail('symbolic slice of a list')
            r = items[slice(*g)]
            return Lst(r) if isinstance(o, Lst) else tuple(r) if isinstance(o, Tup) else r
        if len(items) == 1 and items[0].cond is T.TRUE:
            s = items[0]
            lo, n = I.np.slice_params(I, SliceV(*g), s.dim)
            if lo is None:
                raise Bail('slice')
            start, step = lo
            k = T.fresh_idx('k')
            return Lst([Seg(n, k, vsubst(s.val, {s.ix: T.add(start, T.mul(T.num(step), k)) if step != 1 else
                                                 (T.add(start, k) if not (start.op == 'num' and start.args[0] == 0) else k)}))])
        if g == [None, None, None]:
            return Lst(items)
        if g[1] is None and g[2] is None and isinstance(g[0], int) and g[0] >= 0 and \
                not any(isinstance(x, Seg) for x in items[:g[0]]):
            return Lst(items[g[0]:])
        raise Bail('slice of a mixed list')
    if isinstance(ix, bool):
        ix = int(ix)
    if not segs:
        if isinstance(ix, int):
            try:
                return items[ix]
            except IndexError:
                I.throw('IndexError', 'index out of range')
        if isinstance(ix, Sc) and ix.dt in ('pi', 'i', 'pb', 'b'):
            if not items:
                I.throw('IndexError')
            t = num_term(ix)
            alts = [(T.eq(t, T.num(j)), x) for j, x in enumerate(items)]
            alts = [(c, x) for c, x in alts if I.decide(c) is not False]
            if not alts:
                I.throw('IndexError', 'index out of range')
            inr = T.and_(T.le(T.num(-len(items)), t), T.lt(t, T.num(len(items))))
            if I.decide(inr) is None and I.decide(alts[-1][0]) is not True:
                I.pend(T.not_(inr), I.exc('IndexError'))
            v = alts[-1][1]
            for c, x in reversed(alts[:-1]):
                v = I.join(c, x, v)
            return v
        if isinstance(ix, (str, Str, tuple, type(None), Arr, Lst)) or (isinstance(ix, Sc) and ix.dt in ('f', 'pf', 'g')):
            I.throw('TypeError', 'list indices must be integers or slices')
        raise Bail('sequence index %r' % (ix,))
    # runs
    if isinstance(ix, (int, Sc)):
        if any(isinstance(x, Seg) and x.cond is not T.TRUE for x in items) or any(isinstance(x, HoleItem) for x in items):
            raise Bail('index into a filtered list')
        if isinstance(ix, int) and ix < 0:
            j = -ix
            if j <= len(items) and not any(isinstance(x, Seg) for x in items[-j:]):
                return items[ix]
            if isinstance(items[-1], Seg):
                s = items[-1]
                return vsubst(s.val, {s.ix: I.norm_dim(T.add(s.dim, T.num(ix)))})
        if isinstance(ix, int) and not any(isinstance(x, Seg) for x in items[:ix + 1]):
            return items[ix]
        pre = 0
        while not isinstance(items[pre], Seg):
            pre += 1
        s = items[pre]
        t = term_of(ix)
        if pre:
            t = I.norm_dim(T.add(t, T.num(-pre))) if isinstance(ix, int) else T.add(t, T.num(-pre))
        if len(items) == pre + 1 or isinstance(ix, int):
            if pre and not isinstance(ix, int):
                raise Bail('symbolic index into a mixed list')
            inr = T.lt(t, s.dim)
            d = I.decide(inr)
            if d is False:
                I.throw('IndexError', 'list index out of range')
            if d is None and t.op == 'num':
                I.pend(T.not_(inr), I.exc('IndexError', 'list index out of range'))
            return vsubst(s.val, {s.ix: t})
    raise Bail('index of a mixed list')


def str_slice(I, s, ix):
    if isinstance(ix, SliceV) and ix.step is None:
        parts = list(s.parts)
        if ix.lo in (None, 0) and isinstance(ix.hi, int) and ix.hi < 0:
            n = -ix.hi
            if isinstance(parts[-1], str) and len(parts[-1]) >= n:
                return mkstr(parts[:-1] + [parts[-1][:-n]])
        if ix.hi is None and isinstance(ix.lo, int) and ix.lo >= 0:
            if isinstance(parts[0], str) and len(parts[0]) >= ix.lo:
                return mkstr([parts[0][ix.lo:]] + parts[1:])
    return Str((SymPart(('slice', repr(ix.__dict__ if isinstance(ix, SliceV) else ix), s.parts)),))


def list_range(I, items, ix):
    """The positions in `items` (runs count as one) a plain slice starts and ends at."""
    if ix.step not in (None, 1):
        raise Bail('slice with a step')
    if any(isinstance(x, HoleItem) or (isinstance(x, Seg) and x.cond is not T.TRUE) for x in items):
        raise Bail('slice of a filtered list')
    sizes = [x.dim if isinstance(x, Seg) else T.num(1) for x in items]
    offs = [T.num(0)]
    for n in sizes:
        offs.append(I.norm_dim(T.add(offs[-1], n)))

    def cut(p, default):
        if p is None:
            return default
        if isinstance(p, bool):
            p = int(p)
        if isinstance(p, int) and p < 0:
            j = len(items)
            while p < 0 and j > 0 and not isinstance(items[j - 1], Seg):
                j -= 1
                p += 1
            if p == 0 or j == 0:
                return j
            raise Bail('slice into a run')
        t = I.norm_dim(term_of(p))
        for j, x in enumerate(offs):
            if x is t:
                return j
        if I.decide(T.le(offs[-1], t)) is True:
            return len(items)
        raise Bail('slice into a run')
    return cut(ix.lo, 0), cut(ix.hi, len(items))


def setitem(I, o, ix, v):
    if isinstance(o, Arr):
        I.np.setitem(I, o, ix, v)
    elif isinstance(o, Dct):
        dict_set(I, o, ix, v)
    elif isinstance(o, Lst):
        items = list(o.items)
        if isinstance(ix, Sc) and ix.t.op == 'num':
            ix = int(ix.t.args[0])
        if isinstance(ix, SliceV):
            if ix.lo is None and ix.hi is None and ix.step is None:
                I.assign(o.c, 'items', tuple(I.iterate(v)))
                I.event('list_mutate', obj=o)
                return
            new = list(I.iterate(v))
            a, b = list_range(I, items, ix)
            items[a:max(a, b)] = new
            I.assign(o.c, 'items', tuple(items))
            I.event('list_mutate', obj=o)
            return
        if any(isinstance(x, (Seg, HoleItem)) for x in items):
            if len(items) == 1 and isinstance(items[0], Seg) and isinstance(ix, Sc) and items[0].cond is T.TRUE:
                # item store at a symbolic position: gated run
                s = items[0]
                k = T.fresh_idx('k')
                nv = I.join(T.eq(k, ix.t), v, vsubst(s.val, {s.ix: k}))
                I.assign(o.c, 'items', (Seg(s.dim, k, nv),))
                I.event('list_mutate', obj=o)
                return
            raise Bail('item assignment to a run')
        if isinstance(ix, int):
            try:
                items[ix] = v
            except IndexError:
                I.throw('IndexError', 'list assignment index out of range')
            I.assign(o.c, 'items', tuple(items))
            I.event('list_mutate', obj=o)
        elif isinstance(ix, Sc):
            I.assign(o.c, 'items', tuple(I.join(T.eq(ix.t, T.num(j)), v, x) for j, x in enumerate(items)))
            I.event('list_mutate', obj=o)
        else:
            raise Bail('list item assignment')
    elif isinstance(o, Inst):
        d, _ = o.cls.lookup('__setitem__')
        if d is None:
            I.throw('TypeError', 'item assignment')
        I.call(Bound(d, o), [ix, v])
    elif isinstance(o, Ext):
        I.event('extset', path=o.path)
    elif isinstance(o, (tuple, str, Str, type(None), int, Sc, Tup)):
        I.throw('TypeError', 'object does not support item assignment')
    else:
        raise Bail('item assignment to %r' % (o,))


def delitem(I, o, ix):
    o = I.force(o)
    if isinstance(o, Dct):
        k = dkey(I, ix)
        if isinstance(k, Key):
            raise Bail('del of a symbolic key')
        if k not in o.c:
            I.throw('KeyError', ix)
        I.assign(o.c, k, MISSING)
    elif isinstance(o, Lst):
        items = list(o.items)
        segs = any(isinstance(x, (Seg, HoleItem)) for x in items)
        if isinstance(ix, SliceV):
            if not segs and all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi, ix.step)):
                del items[slice(ix.lo, ix.hi, ix.step)]
            else:
                a, b = list_range(I, items, ix)
                del items[a:max(a, b)]
        elif segs:
            if ix == -1 and not isinstance(items[-1], (Seg, HoleItem)):
                del items[-1]
            elif isinstance(ix, int) and ix >= 0 and not any(isinstance(x, (Seg, HoleItem)) for x in items[:ix + 1]):
                del items[ix]
            else:
                raise Bail('del in a run')
        else:
            try:
                del items[ix]
            except IndexError:
                I.throw('IndexError')
        I.assign(o.c, 'items', tuple(items))
        I.event('list_mutate', obj=o)
    elif isinstance(o, Ext):
        pass
    else:
        raise Bail('del item')


# ---------------------------------------------------------------- attributes
def bind_attr(I, v, obj, cls):
    if isinstance(v, Fn):
        return Bound(v, obj)
    if isinstance(v, Native) and not v.info.get('static'):
        return Bound(v, obj)
    if isinstance(v, Static):
        return v.f
    if isinstance(v, ClsMethod):
        return Bound(v.f, cls)
    if isinstance(v, Prop):
        return I.call(v.fget, [obj])
    return v


def get_attr(I, o, name):
    if isinstance(o, Inst):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            d = Dct()
            d.c = o.c
            return d
        v, k = o.cls.lookup(name)
        if isinstance(v, Prop):
            if v.cached:
                if name in o.c:
                    return cell_value(I, o.c[name], name)
                r = I.call(v.fget, [o])
                I.assign(o.c, name, r)
                return r
            return I.call(v.fget, [o])
        if isinstance(v, Inst) and v.cls.lookup('__set__')[0] is not None:
            return I.call(Bound(v.cls.lookup('__get__')[0], v), [o, o.cls])
        if o.cls.flags.get('private'):
            # the model keeps its own state in the instance: only real attribute names are visible
            r = o.cls.flags['getattr'](I, o, name)
            if r is not MISSING:
                return r
            if name not in (lib_names(o.cls.name) or ()):
                return MISSING
        if name in o.c:
            return cell_value(I, o.c[name], name)
        if isinstance(v, Inst) and v.cls.lookup('__get__')[0] is not None:
            return I.call(Bound(v.cls.lookup('__get__')[0], v), [o, o.cls])
        if k is not None:
            return bind_attr(I, v, o, o.cls)
        g, _ = o.cls.lookup('__getattr__')
        if g is not None:
            return I.call(Bound(g, o), [name])
        h = o.cls.flags.get('getattr')
        if h is not None:
            return h(I, o, name)
        return MISSING
    if isinstance(o, Mod):
        if name in o.c:
            return cell_value(I, o.c[name], name)
        if name == '__dict__':
            d = Dct()
            d.c = o.c
            return d
        if o.path is None:
            dyn = getattr(o, 'dyn', None)
            if dyn is not None:
                return dyn(I, name)
            if getattr(o, 'closed', False):
                return MISSING
            if o.name + '.' + name in I.extmods:
                return I.load(o.name + '.' + name)
            return Ext(o.name + '.' + name)
        return MISSING
    if isinstance(o, Cls):
        v, k = o.lookup(name)
        if k is not None:
            if isinstance(v, Static):
                return v.f
            if isinstance(v, ClsMethod):
                return Bound(v.f, o)
            if isinstance(v, Inst) and v.cls.lookup('__get__')[0] is not None and 'enum' not in v.cls.flags and \
                    not v.cls.flags.get('enum_cls'):
                return I.call(Bound(v.cls.lookup('__get__')[0], v), [None, o])
            return v
        if name == '__name__' or name == '__qualname__':
            return o.name
        if name == '__mro__':
            return tuple(o.mro())
        if name == '__dict__':
            d = Dct({x: y for x, y in o.c.items() if not x.startswith('$')}, kind='mappingproxy')
            return d
        if name == '__bases__':
            return o.bases
        if name == '__subclasses__':
            raise Bail('__subclasses__')
        if name == '__module__':
            return o.mod.name if o.mod else 'builtins'
        if name == '__abstractmethods__':
            return SetV(sorted(abstract_methods(o)))
        if name == '__members__' and 'enum_members' in o.flags:
            d = Dct()
            for m in o.flags['enum_members']:
                d.c[m.c['name']] = m
            return d
        g = o.flags.get('clsattr')
        if g is not None:
            return g(I, o, name)
        if name == '__init__':
            return Native('object.__init__', lambda I, a, k: None)
        if name == '__new__':
            return Native('object.__new__', lambda I, a, k: Inst(a[0]))
        return MISSING
    if isinstance(o, Super):
        mro = (o.obj.cls if isinstance(o.obj, Inst) else o.obj).mro()
        i = mro.index(o.cls) if o.cls in mro else -1
        for k in mro[i + 1:]:
            if name in k.c:
                return bind_attr(I, k.c[name], o.obj, k)
        if name == '__init__':
            return Native('object.__init__', lambda I, a, k: None)
        if name == '__new__':
            return Native('object.__new__', lambda I, a, k: Inst(a[0]))
        if name == '__setattr__':
            return Native('setattr', lambda I, a, k: raw_set(I, o.obj, a[0], a[1]))
        if name == '__init_subclass__':
            return Native('init_subclass', lambda I, a, k: None)
        return MISSING
    if isinstance(o, Arr):
        return I.np.arr_attr(I, o, name)
    if isinstance(o, Sc):
        return I.np.sc_attr(I, o, name)
    if isinstance(o, bool) or isinstance(o, int):
        return I.np.sc_attr(I, Sc(T.num(int(o)), 'pi'), name)
    if isinstance(o, (str, Str)):
        return str_attr(I, o, name)
    if isinstance(o, Lst):
        return meth(I, LST, o, name, 'list')
    if isinstance(o, (tuple, Tup)):
        return meth(I, TUP, o, name, 'tuple')
    if isinstance(o, Dct):
        if o.kind == 'namespace':
            return o.c.get(name, MISSING)
        return meth(I, DCT, o, name, 'dict')
    if isinstance(o, SetV):
        return meth(I, SET, o, name, 'set')
    if isinstance(o, (Fn, Native)):
        if name in o.c:
            return o.c[name]
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return None
        if name == '__call__':
            return o
        if name == '__code__':
            return Ext('code')
        if isinstance(o, Native):
            m = o.info.get('attrs')
            if m:
                r = m(I, o, name)
                if r is not MISSING:
                    return r
        return MISSING
    if isinstance(o, Bound):
        if name == '__self__':
            return o.obj
        if name == '__func__':
            return o.fn
        return get_attr(I, o.fn, name)
    if isinstance(o, Host):
        return o.get(I, name)
    if isinstance(o, Ext):
        return Ext(o.path + '.' + name)
    if isinstance(o, DType):
        return I.np.dtype_attr(I, o, name)
    if isinstance(o, Prop):
        if name == 'setter':
            def setter(I, a, k):
                return Prop(o.fget, a[0])
            return Native('setter', setter)
        if name in ('getter', 'deleter'):
            return Native(name, lambda I, a, k: Prop(a[0] if name == 'getter' else o.fget, o.fset))
        return MISSING
    if isinstance(o, (Static, ClsMethod)):
        return get_attr(I, o.f, name)
    if isinstance(o, SliceV):
        return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(name, MISSING)
    if o is None:
        if name == '__class__':
            return I.builtins['$NoneType']
        return MISSING
    if isinstance(o, bytes):
        if name in ('decode', 'strip', 'rstrip', 'lstrip', 'split', 'splitlines', 'startswith', 'endswith', 'replace', 'partition',
                    'rpartition', 'find', 'index', 'count', 'lower', 'upper', 'hex', 'isdigit', 'rsplit'):
            def bm(I, a, k):
                try:
                    r = getattr(o, name)(*a, **k)
                except UnicodeDecodeError as e:
                    I.throw('UnicodeDecodeError', str(e))
                except LookupError as e:
                    I.throw('LookupError', str(e))
                except ValueError as e:
                    I.throw('ValueError', str(e))
                except TypeError as e:
                    I.throw('TypeError', str(e))
                return Lst(r) if isinstance(r, list) else r
            return Native(name, bm)
        return MISSING
    raise Bail('attribute %s of %r' % (name, o))


_LIB = {}


def lib_names(what):
    """Public attribute names of library types, recorded from the installed libraries."""
    if not _LIB:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib_names.txt')) as fh:
            for line in fh:
                k, _, v = line.partition(':')
                _LIB[k] = set(v.split())
    return _LIB.get(what)


_PUB = {'Molecule': 'Molecule', 'Atoms': 'Atoms', 'PointGroupAnalyzer': 'PointGroupAnalyzer', 'SymmOp': 'SymmOp'}


def check_modelled(I, o, name):
    """An attribute that the model does not know: an AttributeError only if the real object has none of that name."""
    real = None
    if isinstance(o, Arr):
        real = lib_names('ndarray')
    elif isinstance(o, Sc):
        real = {'pb': set(dir(bool)), 'pi': set(dir(int)), 'pf': set(dir(float)), 'b': lib_names('bool'), 'i': lib_names('int64'),
                'g': lib_names('longdouble')}.get(o.dt) or lib_names('float64')
    elif isinstance(o, DType):
        real = lib_names('dtype')
    elif isinstance(o, (bool, int)):
        real = set(dir(int))
    elif isinstance(o, bytes):
        real = set(dir(bytes))
    elif isinstance(o, (Fn, Native, Bound)):
        real = set(dir(check_modelled)) | {'__self__', '__func__', '__wrapped__'}
    elif isinstance(o, Cls):
        if o.mod is not None:
            real = {'__annotations__', '__doc__', '__dict__', '__call__', '__new__', '__init__', 'mro'} | set(dir(object))
            if any(k.mod is None and k.name not in ('object', 'ABC') for k in o.mro()):
                for k in o.mro():
                    if k.mod is None and k.name not in ('object', 'ABC', 'type'):
                        real |= builtin_names(k.name)
        else:
            real = builtin_names(o.name)
    elif isinstance(o, Inst):
        for k in o.cls.mro():
            if k.mod is None and k.name not in ('object', 'ABC'):
                real = (real or set()) | builtin_names(k.name)
    elif isinstance(o, Host):
        real = lib_names(_PUB.get(o.name, ''))
        if real is None and o.name in ('contribution',):
            real = set()
        elif real is None and not name.startswith('_'):
            raise Bail('%s.%s is not modelled' % (o.name, name))
    elif isinstance(o, Mod) and o.path is None:
        real = lib_names({'numpy.linalg': 'linalg', 'matplotlib.pyplot': 'pyplot'}.get(o.name, ''))
    if real and name in real:
        raise Bail('%s.%s is not modelled' % (type_name(o) if not isinstance(o, (Cls, Mod)) else o.name, name))


class _Any(set):
    """Names of a type that is not described: anything but protocol names may exist."""

    def __contains__(self, n):
        return not n.startswith('_')

    def __or__(self, o):
        return self

    __ror__ = __ior__ = __or__


def builtin_names(n):
    import builtins
    if n in ('Namespace', 'SimpleNamespace'):
        return set()
    t = getattr(builtins, n, None)
    if isinstance(t, type):
        return set(dir(t))
    lib = lib_names(n)
    return lib if lib is not None else _Any()


def cell_value(I, v, name):
    if isinstance(v, Choice) and any(x is MISSING for _, x in v.alts):
        miss = T.FALSE
        for c, x in v.alts:
            if x is MISSING:
                miss = T.or_(miss, c)
        d = I.decide(miss)
        if d is True:
            return MISSING
        if d is None:
            I.pend(miss, I.exc('AttributeError', name))
        alts = [(c, x) for c, x in v.alts if x is not MISSING]
        return alts[0][1] if len(alts) == 1 else Choice(alts)
    return v


def raw_set(I, o, name, v):
    I.assign(o.c, name, v)


def set_attr(I, o, name, v):
    if isinstance(o, Inst):
        p, _ = o.cls.lookup(name)
        if isinstance(p, Prop) and not p.cached:
            if p.fset is None:
                I.throw('AttributeError', "can't set attribute")
            I.call(p.fset, [o, v])
            return
        if isinstance(p, Inst):
            d, _ = p.cls.lookup('__set__')
            if d is not None:
                I.call(Bound(d, p), [o, v])
                return
        s, _ = o.cls.lookup('__setattr__')
        if s is not None:
            I.call(Bound(s, o), [name, v])
            return
        if o.cls.flags.get('frozen') and not getattr(o, 'building', False):
            I.throw('AttributeError', 'cannot assign to field')
        I.assign(o.c, name, v)
        I.event('attr_set', obj=o, name=name, value=v)
    elif isinstance(o, (Cls, Mod, Fn)):
        I.assign(o.c, name, v)
        I.event('attr_set', obj=o, name=name, value=v)
    elif isinstance(o, Arr):
        I.np.set_arr_attr(I, o, name, v)
    elif isinstance(o, Host):
        st = o.get(I, '__setattr__')
        if st is not MISSING:
            I.call(st, [name, v])
        else:
            I.event('host_set', obj=o, name=name, value=v)
    elif isinstance(o, Ext):
        I.event('extset', path=o.path + '.' + name, value=v)
    elif isinstance(o, Dct) and o.kind == 'namespace':
        I.assign(o.c, name, v)
    elif o is None or isinstance(o, (int, str, Str, tuple, Lst, Dct, Sc, Bound)):
        I.throw('AttributeError', 'cannot set attribute %r' % name)
    else:
        raise Bail('attribute assignment on %r' % (o,))


def abstract_methods(cls):
    out = set()
    for k in reversed(cls.mro()):
        for n, v in k.c.items():
            f = v
            if isinstance(f, Prop):
                f = f.fget
            while isinstance(f, (Static, ClsMethod)):
                f = f.f
            if isinstance(f, (Fn, Native)) and f.c.get('__isabstractmethod__') is True:
                out.add(n)
            else:
                out.discard(n)
    return out


def is_abc(cls):
    return any(k.flags.get('abc') or (isinstance(k.meta, Cls) and any(m.name == 'ABCMeta' for m in k.meta.mro()))
               for k in cls.mro())


def instantiate(I, cls, args, kw):
    nat = None
    for k in cls.mro():
        if 'new' in k.flags:
            nat = k.flags['new']
            break
        if k.node is not None and '__new__' in k.c:
            break
    if cls.flags.get('enum_members') is not None:
        for m in cls.flags['enum_members']:
            if val_eq(I, m.c['value'], args[0]) is True:
                return m
        I.throw('ValueError', 'not a valid enum value')
    if is_abc(cls):
        am = abstract_methods(cls)
        if am:
            I.throw('TypeError', "Can't instantiate abstract class %s with abstract methods %s" %
                    (cls.name, ', '.join(sorted(am))))
    if nat is not None and cls.node is None:
        o = nat(I, cls, args, kw)
        if 'init' in cls.flags:
            I.call(cls.flags['init'], [o] + list(args), kw)
        return o
    new, nk = cls.lookup('__new__')
    if new is not None and not isinstance(new, Native):
        f = new.f if isinstance(new, Static) else new
        o = I.call(f, [cls] + args, kw)
        if not (isinstance(o, Inst) and o.cls.issub(cls)):
            return o
    elif nat is not None:
        o = nat(I, cls, args, kw)
        if not isinstance(o, Inst):
            return o
    else:
        o = Inst(cls)
    init, k = cls.lookup('__init__')
    if init is not None:
        if cls.flags.get('frozen') or any(x.flags.get('frozen') for x in cls.mro()):
            o.building = True
        r = I.call(Bound(init, o), args, kw)
        if getattr(o, 'building', False):
            o.building = False
        if r is not None:
            I.throw('TypeError', '__init__() should return None')
    elif (args or kw) and nat is None:
        I.throw('TypeError', '%s() takes no arguments' % cls.name)
    return o


def make_enum(I, cls):
    members = []
    auto = 0
    for k, v in list(cls.c.items()):
        if k.startswith('_') or isinstance(v, (Fn, Static, ClsMethod, Prop, Native)):
            continue
        m = Inst(cls)
        if isinstance(v, Inst) and v.cls.name == '$auto':
            auto += 1
            v = auto
        elif isinstance(v, int):
            auto = v
        m.c['name'], m.c['value'] = k, v
        members.append(m)
        cls.c[k] = m
    cls.flags['enum_members'] = members
    cls.flags['enum_cls'] = True


# ---------------------------------------------------------------- methods
def meth(I, table, o, name, tname):
    f = table.get(name)
    if f is None:
        if name in ('__class__',):
            return type_of(I, o)
        if name in ('__len__',):
            return Native('len', lambda I, a, k: length(I, o))
        if name == '__iter__':
            return Native('iter', lambda I, a, k: o)
        if name == '__getitem__':
            return Native('getitem', lambda I, a, k: I.getitem(o, a[0]))
        if name == '__setitem__':
            return Native('setitem', lambda I, a, k: I.setitem(o, a[0], a[1]))
        if name == '__contains__':
            return Native('contains', lambda I, a, k: tb(contains(I, a[0], o)))
        if name in dir(__builtins__['list'] if isinstance(__builtins__, dict) else list) or \
                name in dir(dict) or name in dir(set):
            if name in dir({'list': list, 'tuple': tuple, 'dict': dict, 'set': set}[tname]):
                raise Bail('%s.%s' % (tname, name))
        return MISSING
    return Native('%s.%s' % (tname, name), lambda I, a, k: f(I, o, *a, **k))


def lst_set(I, l, items):
    I.assign(l.c, 'items', tuple(items))
    I.event('list_mutate', obj=l)


def lst_append(I, l, v):
    I.assign(l.c, 'items', l.items + (v,))
    I.event('list_mutate', obj=l)


def lst_extend(I, l, v):
    its = I.iterate(v)
    I.assign(l.c, 'items', l.items + tuple(its))
    I.event('list_mutate', obj=l)


def lst_insert(I, l, i, v):
    items = list(l.items)
    i = I.force(i)
    if isinstance(i, Sc) and i.t.op == 'num':
        i = int(i.t.args[0])
    if not isinstance(i, int):
        raise Bail('insert position')
    if any(isinstance(x, (Seg, HoleItem)) for x in items) and i != 0:
        raise Bail('insert into a run')
    items.insert(i, v)
    lst_set(I, l, items)


def lst_pop(I, l, i=-1):
    items = list(l.items)
    if not items:
        I.throw('IndexError', 'pop from empty list')
    if isinstance(items[i], (Seg, HoleItem)) or any(isinstance(x, Seg) and x.cond is not T.TRUE for x in items):
        raise Bail('pop from a run')
    v = items.pop(i)
    lst_set(I, l, items)
    return v


def lst_remove(I, l, v):
    items = list(l.items)
    for j, x in enumerate(items):
        if isinstance(x, (Seg, HoleItem)):
            raise Bail('remove from a run')
        e = val_eq(I, x, v)
        if e is True:
            del items[j]
            lst_set(I, l, items)
            return
        if e is not False:
            raise Bail('remove')
    I.throw('ValueError', 'list.remove(x): x not in list')


def lst_index(I, l, v, *r):
    for j, x in enumerate(l.items if not isinstance(l, tuple) else l):
        if isinstance(x, (Seg, HoleItem)):
            raise Bail('index in a run')
        e = val_eq(I, x, v)
        if e is True:
            return j
        if e is not False:
            raise Bail('index')
    I.throw('ValueError', 'not in list')


def lst_count(I, l, v):
    n = 0
    for x in (l if isinstance(l, tuple) else l.items):
        if isinstance(x, (Seg, HoleItem)):
            raise Bail('count in a run')
        e = val_eq(I, x, v)
        if e is True:
            n += 1
        elif e is not False:
            raise Bail('count')
    return n


def rev_items(I, items):
    out = []
    for x in reversed(list(items)):
        if isinstance(x, Seg):
            if x.cond is not T.TRUE:
                k = T.fresh_idx('k')
                p = T.add(x.dim, T.num(-1), T.neg(k))
                out.append(Seg(x.dim, k, vsubst(x.val, {x.ix: p}), T.subst(x.cond, {x.ix: p})))
                continue
            k = T.fresh_idx('k')
            out.append(Seg(x.dim, k, vsubst(x.val, {x.ix: T.add(x.dim, T.num(-1), T.neg(k))})))
        elif isinstance(x, HoleItem):
            raise Bail('reverse')
        else:
            out.append(x)
    return out


def lst_sort(I, l, key=None, reverse=False):
    lst_set(I, l, sorted_items(I, list(l.items), key, reverse))


def sorted_items(I, items, key=None, reverse=False):
    if any(isinstance(x, (Seg, HoleItem)) for x in items):
        raise Bail('sorting a sequence of unknown length')
    ks = [I.call(key, [x]) if key is not None else x for x in items]
    if all(isinstance(k, (int, str)) for k in ks) or \
            all(isinstance(k, tuple) and all(isinstance(y, (int, str)) for y in k) for k in ks):
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
        except TypeError:
            I.throw('TypeError', 'ordering')
        return [items[i] for i in order]
    if len(items) <= 1:
        return items
    if len(items) > 4:
        raise Bail('sorting symbolic values')
    # a bubble sort whose exchanges depend on the comparisons; equal keys stay in order
    items, ks = list(items), list(ks)
    for n in range(len(items) - 1, 0, -1):
        for i in range(n):
            a, b = (ks[i], ks[i + 1]) if not reverse else (ks[i + 1], ks[i])
            c = I.truth(I.compare('Lt', b, a))
            if isinstance(c, bool):
                c = T.TRUE if c else T.FALSE
            for l in (items, ks):
                l[i], l[i + 1] = I.join(c, l[i + 1], l[i]), I.join(c, l[i], l[i + 1])
    return items


LST = {
    'append': lst_append, 'extend': lst_extend, 'insert': lst_insert, 'pop': lst_pop, 'remove': lst_remove,
    'index': lst_index, 'count': lst_count,
    'clear': lambda I, l: lst_set(I, l, ()), 'copy': lambda I, l: Lst(l.items),
    'reverse': lambda I, l: lst_set(I, l, rev_items(I, l.items)),
    'sort': lst_sort,
    '__add__': lambda I, l, o: Lst(l.items + o.items),
}


def gen_close(I, l):
    return None


LST['close'] = gen_close


def gen_next(I, l, *d):
    items = list(l.items)
    if not items:
        if d:
            return d[0]
        I.throw('StopIteration')
    if isinstance(items[0], (Seg, HoleItem)):
        s = items[0]
        if isinstance(s, Seg) and s.cond is T.TRUE:
            k = T.fresh_idx('k')
            rest = Seg(I.norm_dim(T.add(s.dim, T.num(-1))), k, vsubst(s.val, {s.ix: T.add(k, T.num(1))}))
            I.assign(l.c, 'items', tuple([rest] + items[1:]))
            return vsubst(s.val, {s.ix: T.num(0)})
        if isinstance(s, Seg) and s.dim.op == 'num' and s.dim.args[0] == 1:
            first = vsubst(s.val, {s.ix: T.num(0)})
            c = T.subst(s.cond, {s.ix: T.num(0)})
            I.assign(l.c, 'items', tuple(items[1:]))
            return I.branch(c, lambda: first, lambda: gen_next(I, l, *d))
        raise Bail('next of a filtered run')
    I.assign(l.c, 'items', tuple(items[1:]))
    return items[0]


LST['__next__'] = gen_next
TUP = {'index': lst_index, 'count': lst_count}


def dct_items(I, d, what):
    out = []
    for k, v in d.c.items():
        k = k.v if isinstance(k, Key) else k
        if isinstance(v, Choice) and any(x is MISSING for _, x in v.alts):
            raise Bail('iteration over a conditionally filled dictionary')
        out.append(k if what == 'k' else v if what == 'v' else (k, v))
    return out


class KeysView(SetV):
    pass


def dct_setdefault(I, d, k, v=None):
    r = dict_find(I, d, k)
    if r is MISSING:
        dict_set(I, d, k, v)
        return v
    if isinstance(r, tuple):
        return r[0]
    raise Bail('setdefault with a symbolic key')


def dct_pop(I, d, k, *default):
    kk = dkey(I, k)
    if isinstance(kk, Key):
        raise Bail('pop of a symbolic key')
    if kk in d.c:
        v = dict_get(I, d, k, *default)
        I.assign(d.c, kk, MISSING)
        return v
    if default:
        return default[0]
    I.throw('KeyError', k)


def dct_update(I, d, *a, **kw):
    for o in a:
        dict_update(I, d, o)
    for k, v in kw.items():
        dict_set(I, d, k, v)


def dct_clear(I, d):
    for k in list(d.c):
        I.assign(d.c, k, MISSING)


def dct_copy(I, d):
    n = Dct(kind=d.kind)
    n.c = Cell(d.c)
    n.default = d.default
    return n


def dct_popitem(I, d, *a, **k):
    if not d.c:
        I.throw('KeyError')
    kk = list(d.c)[-1]
    v = d.c[kk]
    I.assign(d.c, kk, MISSING)
    return (kk, v)


DCT = {
    'items': lambda I, d: Lst(dct_items(I, d, 'i')), 'values': lambda I, d: Lst(dct_items(I, d, 'v')),
    'keys': lambda I, d: KeysView(dct_items(I, d, 'k')),
    'get': lambda I, d, k, default=None: dict_get(I, d, k, default),
    'setdefault': dct_setdefault, 'pop': dct_pop, 'update': dct_update, 'clear': dct_clear, 'copy': dct_copy,
    'popitem': dct_popitem, 'move_to_end': lambda I, d, k, last=True: None,
}

SET = {
    'add': lambda I, s, v: I.assign(s.c, 'items', tuple(dedup(I, list(s.items) + [v]))),
    'discard': lambda I, s, v: I.assign(s.c, 'items', tuple(x for x in s.items if val_eq(I, x, v) is not True)),
    'remove': lambda I, s, v: I.assign(s.c, 'items', tuple(x for x in s.items if val_eq(I, x, v) is not True)),
    'update': lambda I, s, *v: I.assign(s.c, 'items', tuple(dedup(I, list(s.items) + [y for x in v for y in I.iterate(x)]))),
    'union': lambda I, s, *v: SetV(dedup(I, list(s.items) + [y for x in v for y in I.iterate(x)])),
    'intersection': lambda I, s, v: set_op(I, 'BitAnd', s, SetV(I.iterate(v))),
    'difference': lambda I, s, v: set_op(I, 'Sub', s, SetV(I.iterate(v))),
    'symmetric_difference': lambda I, s, v: set_op(I, 'BitXor', s, SetV(I.iterate(v))),
    'issubset': lambda I, s, v: all(contains(I, x, Lst(I.iterate(v))) is True for x in s.items),
    'issuperset': lambda I, s, v: all(contains(I, x, s) is True for x in I.iterate(v)),
    'copy': lambda I, s: SetV(s.items),
}


# ---- strings
def str_attr(I, s, name):
    if name in ('__class__',):
        return I.builtins['str']
    if not hasattr(str, name):
        return MISSING
    return Native('str.' + name, lambda I, a, k: str_method(I, s, name, a, k))


def str_method(I, s, name, a, k):
    a = [I.force(x) for x in a]
    if any(isinstance(x, Choice) for x in a):
        i = next(i for i, x in enumerate(a) if isinstance(x, Choice))
        return I.distribute(a[i], lambda y: str_method(I, s, name, a[:i] + [y] + a[i + 1:], k))
    if name == 'join':
        its = I.iterate(a[0])
        if any(isinstance(x, Seg) for x in its):
            return Str((SymPart(('join', repr(s), repr(its))),))
        parts = []
        for i, x in enumerate(its):
            if i:
                parts.append(s)
            if not isinstance(x, (str, Str)):
                I.throw('TypeError', 'sequence item: expected str instance')
            parts.append(x)
        return mkstr(parts)
    if name == 'format':
        return str_format(I, s, a, k)
    if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) or
                                  (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a) and \
            all(isinstance(x, (str, int)) for x in k.values()):
        try:
            r = getattr(s, name)(*a, **k)
        except (ValueError, TypeError, LookupError) as e:
            I.throw(type(e).__name__, str(e))
        return Lst(r) if isinstance(r, list) else r
    if isinstance(s, str):
        s = Str((s,))
    if any(not isinstance(x, (str, int, Str, type(None), tuple)) for x in a):
        I.throw('TypeError', 'str.%s argument' % name)
    parts = s.parts
    if name in ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize'):
        if name in ('lower', 'upper', 'casefold'):
            nm = 'lower' if name == 'casefold' else name
            return mkstr(getattr(p, nm)() if isinstance(p, str) else
                         (p if isinstance(p.name, tuple) and p.name[0] == nm else SymPart((nm, p.name), p.facts)) for p in parts)
    if name in ('startswith', 'endswith'):
        pats = a[0] if isinstance(a[0], tuple) else (a[0],)
        res = []
        for q in pats:
            p = parts[0] if name == 'startswith' else parts[-1]
            if isinstance(q, str) and isinstance(p, str):
                if getattr(p, name)(q):
                    return True
                if len(p) >= len(q) or not getattr(q, name)(p):
                    res.append(False)
                    continue
            if isinstance(q, Str) and q.parts == parts[:len(q.parts)] and name == 'startswith':
                return True
            if isinstance(q, str) and not q:
                return True
            if isinstance(q, str) and len(q) == 1 and isinstance(p, SymPart) and 'nonempty' in p.facts and \
                    ((q == '.' and 'nodot' in p.facts) or (q == '/' and 'noslash' in p.facts)):
                res.append(False)
                continue
            res.append(opaque_bool(name, repr(q), parts))
        r = T.FALSE
        for x in res:
            if x is not False:
                r = T.or_(r, x)
        return tb(r) if r is not T.FALSE else False
    if name in ('rsplit', 'rpartition', 'split', 'partition') and a and isinstance(a[0], str) and len(a[0]) == 1:
        q = a[0]
        once = name.endswith('partition') or (len(a) > 1 and a[1] == 1) or k.get('maxsplit') == 1
        free = lambda p: (q not in p) if isinstance(p, str) else ((q == '.' and 'nodot' in p.facts) or
                                                                  (q == '/' and 'noslash' in p.facts))
        if once:
            seq = list(enumerate(parts))
            if name.startswith('r'):
                seq.reverse()
            hit = None
            for i, p in seq:
                if isinstance(p, str) and q in p:
                    j = p.rindex(q) if name.startswith('r') else p.index(q)
                    hit = (i, j)
                    break
                if not free(p):
                    hit = 'unknown'
                    break
            if hit is None:
                if name.endswith('split'):
                    return Lst([s])
                return ('', '', s) if name == 'rpartition' else (s, '', '')
            if hit != 'unknown':
                i, j = hit
                l = mkstr(list(parts[:i]) + [parts[i][:j]])
                r = mkstr([parts[i][j + 1:]] + list(parts[i + 1:]))
                return Lst([l, r]) if name.endswith('split') else (l, q, r)
            if name.endswith('partition'):
                return tuple(Str((SymPart((name, q, n, parts)),)) for n in range(3))
        elif all(isinstance(p, str) or free(p) for p in parts):
            out, cur = [], []
            for p in parts:
                if isinstance(p, str):
                    sp = p.split(q)
                    cur.append(sp[0])
                    for x in sp[1:]:
                        out.append(mkstr(cur))
                        cur = [x]
                else:
                    cur.append(p)
            out.append(mkstr(cur))
            return Lst(out)
        return SplitList(name, q, parts, once)
    if name in ('strip', 'rstrip', 'lstrip'):
        if not a:
            chars = ' \t\n\r\x0b\x0c'
        else:
            chars = a[0]
        def edge(p):
            return isinstance(p, str) and p
        left, right = parts[0], parts[-1]
        okl = isinstance(left, str) and left[0] not in chars
        okr = isinstance(right, str) and right[-1] not in chars
        if (name == 'lstrip' and okl) or (name == 'rstrip' and okr) or (name == 'strip' and okl and okr):
            return s
        if name == 'rstrip' and isinstance(chars, str) and isinstance(right, str):
            t = right.rstrip(chars)
            if t:
                return mkstr(list(parts[:-1]) + [t])
        return Str((SymPart((name, chars if a else None, parts)),))
    if name in ('removesuffix', 'removeprefix') and isinstance(a[0], str):
        p = parts[-1] if name == 'removesuffix' else parts[0]
        if isinstance(p, str):
            if name == 'removesuffix' and p.endswith(a[0]):
                return mkstr(list(parts[:-1]) + [p[:len(p) - len(a[0])]])
            if name == 'removeprefix' and p.startswith(a[0]):
                return mkstr([p[len(a[0]):]] + list(parts[1:]))
    if name in ('find', 'rfind', 'index', 'rindex', 'count', '__len__'):
        return Sc(T.sym('str.%s:%r' % (name, (repr(a), parts))), 'pi')
    if name.startswith('is'):
        return Sc(opaque_bool(name, parts), 'pb')
    if name == 'replace':
        old = a[0]
        if isinstance(old, str) and old and not str_may_contain(parts, old):
            return s
    if name in ('replace', 'translate', 'zfill', 'ljust', 'rjust', 'center', 'removesuffix', 'removeprefix', 'title',
                'capitalize', 'swapcase', 'expandtabs', 'encode'):
        return Str((SymPart((name, repr(a), parts)),))
    if name in ('split', 'rsplit', 'splitlines'):
        return SplitList(name, repr(a), parts, False)
    if name == '__contains__':
        return tb(str_contains(I, a[0], s))
    raise Bail('str.' + name)


def str_may_contain(parts, old):
    if len(parts) == 1 and isinstance(parts[0], str):
        return old in parts[0]
    if all(isinstance(p, str) or ('.' in old and 'nodot' in p.facts and False) for p in parts):
        return old in ''.join(parts)
    return True


def SplitList(name, q, parts, once):
    """Unknown split of a symbolic string: items are opaque pieces."""
    def get(I, attr):
        if attr == '__getitem__':
            def gi(I, a, k):
                ix = a[0]
                if isinstance(ix, SliceV):
                    return SplitList(name, (q, repr((ix.lo, ix.hi, ix.step))), parts, once)
                return Str((SymPart((name, q, once, ix if isinstance(ix, int) else repr(ix), parts)),))
            return Native('split[]', gi)
        if attr == '__len__':
            return Native('len', lambda I, a, k: Sc(T.sym('nsplit:%r' % ((name, q, parts),)), 'pi'))
        if attr == '__iter__':
            raise Bail('iteration over an unknown split')
        return MISSING
    return Host('list', get)


def str_format(I, s, a, k):
    import string
    if not isinstance(s, str):
        raise Bail('format of a symbolic string')
    out = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            base = field
            rest = ''
            for j, ch in enumerate(field):
                if ch in '.[':
                    base, rest = field[:j], field[j:]
                    break
            if base == '':
                v = a[auto]
                auto += 1
            elif base.isdigit():
                v = a[int(base)]
            else:
                v = k[base]
            if rest:
                if rest.startswith('.'):
                    for n in rest[1:].split('.'):
                        v = I.getattr(v, n)
                else:
                    raise Bail('format field')
            out.append(fmt(I, v, spec or None, -1 if not conv else ord(conv)))
    except IndexError:
        I.throw('IndexError', 'Replacement index out of range')
    except KeyError as e:
        I.throw('KeyError', str(e))
    return mkstr(out)


# ---------------------------------------------------------------- builtin functions
def seq_items(I, v):
    return I.iterate(v)


def b_range(I, a, k):
    a = [I.force(x) for x in a]
    for x in a:
        if not isinstance(x, (int, Sc)) or (isinstance(x, Sc) and x.dt in ('pf', 'f', 'g')):
            I.throw('TypeError', 'range() arguments must be integers')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if all(isinstance(x, int) or x.t.op == 'num' for x in (lo, hi, st)):
        f = lambda x: x if isinstance(x, int) else int(x.t.args[0])
        if f(st) == 0:
            I.throw('ValueError', 'range() arg 3 must not be zero')
        r = range(f(lo), f(hi), f(st))
        if len(r) <= 64:
            return Lst(list(r), 'list')
        # a long range is one run
        ix = T.fresh_idx('k')
        l = Lst([Seg(T.num(len(r)), ix, Sc(T.add(T.num(f(lo)), T.mul(T.num(f(st)), ix)), 'pi'))])
        l.range = f(lo) == 0 and f(st) == 1
        return l
    if isinstance(st, Sc) or st not in (1, -1):
        raise Bail('range with a step')
    if st == 1:
        n = I.norm_dim(T.add(term_of(hi), T.neg(term_of(lo))) if not (isinstance(lo, int) and lo == 0) else term_of(hi))
    else:
        n = I.norm_dim(T.add(term_of(lo), T.neg(term_of(hi))))
    ix = T.fresh_idx('k')
    v = ix if isinstance(lo, int) and lo == 0 and st == 1 else T.add(term_of(lo), ix if st == 1 else T.neg(ix))
    if n.op == 'num' and n.args[0] <= 0:
        return Lst([])
    l = Lst([Seg(n, ix, Sc(v, 'pi'))])
    l.range = True
    return l


def align(I, lists, strict=None):
    """Zip item lists into runs."""
    out = []
    ls = [list(l) for l in lists]
    while all(ls):
        heads = [l[0] for l in ls]
        if any(isinstance(h, HoleItem) for h in heads):
            raise Bail('zip with unknown prefix')
        segs = [h for h in heads if isinstance(h, Seg)]
        if not segs:
            out.append(tuple(l.pop(0) for l in ls))
            continue
        if any(s.cond is not T.TRUE for s in segs):
            if len(segs) == len(heads) == 1:
                s = ls[0].pop(0)
                out.append(Seg(s.dim, s.ix, (s.val,), s.cond))
                continue
            if len(segs) == len(heads) and all(s.ix is segs[0].ix and s.cond is segs[0].cond for s in segs):
                for l in ls:
                    l.pop(0)
                out.append(Seg(segs[0].dim, segs[0].ix, tuple(s.val for s in segs), segs[0].cond))
                continue
            raise Bail('zip of filtered runs')
        if len(segs) == len(heads) and all(I.dim_eq(s.dim, segs[0].dim) for s in segs):
            ix = T.fresh_idx('k')
            out.append(Seg(segs[0].dim, ix, tuple(vsubst(s.val, {s.ix: ix}) for s in segs)))
            for l in ls:
                l.pop(0)
            continue
        if len(segs) == len(heads) and all(len(l) == 1 for l in ls):
            # different lengths: the shortest decides
            n = segs[0].dim
            for s in segs[1:]:
                if not I.dim_eq(s.dim, n):
                    d = I.decide(T.lt(s.dim, n))
                    e = I.decide(T.le(n, s.dim))
                    if d is True:
                        n = s.dim
                    elif e is True:
                        pass
                    else:
                        n = T.ite(T.lt(s.dim, n), s.dim, n)
            ix = T.fresh_idx('k')
            out.append(Seg(n, ix, tuple(vsubst(s.val, {s.ix: ix}) for s in segs)))
            for l in ls:
                l.pop(0)
            continue
        # mixed concrete item and run: take one from each run
        row = []
        for l in ls:
            h = l[0]
            if isinstance(h, Seg):
                d = I.decide(T.lt(T.num(0), h.dim))
                if d is not True:
                    raise Bail('zip of run and items')
                row.append(vsubst(h.val, {h.ix: T.num(0)}))
                k = T.fresh_idx('k')
                rest = I.norm_dim(T.add(h.dim, T.num(-1)))
                l[0] = Seg(rest, k, vsubst(h.val, {h.ix: T.add(k, T.num(1))}))
                if rest.op == 'num' and rest.args[0] == 0:
                    l.pop(0)
            else:
                row.append(l.pop(0))
        out.append(tuple(row))
        if len(out) > 200:
            raise Bail('zip')
    return out


def star_call(I, f, a, k):
    """A native function called with *items of unknown number."""
    items = []
    for x in a:
        items.extend(x.items if isinstance(x, StarRun) else [x])
    if f.f is b_zip and not k:
        # zip(*rows): rows of a known width are turned into that many columns
        rows = [x.val if isinstance(x, Seg) else x for x in items]
        if all(isinstance(r, tuple) for r in rows) and len({len(r) for r in rows}) == 1:
            cols = [Tup([Seg(x.dim, x.ix, x.val[i], x.cond) if isinstance(x, Seg) else x[i] for x in items])
                    for i in range(len(rows[0]))]
            return Lst(cols, 'gen')
    if f.name in ('max', 'min') and items:
        return f.f(I, [Tup(items)], k)
    raise Bail('a call of %s with an unknown number of arguments' % f.name)


def b_zip(I, a, k):
    strict = k.get('strict', False)
    ls = [seq_items(I, x) for x in a]
    if strict is True:
        n = [length(I, Lst(l)) for l in ls]
        for x in n[1:]:
            e = val_eq(I, x, n[0])
            if e is False:
                I.throw('ValueError', 'zip() arguments have different lengths')
            if e is not True:
                I.pend(T.not_(e), I.exc('ValueError', 'zip() arguments have different lengths'))
    return Lst(align(I, ls), 'gen') if ls else Lst((), 'gen')


def b_enumerate(I, a, k):
    start = k.get('start', a[1] if len(a) > 1 else 0)
    out = []
    pos = start
    for it in seq_items(I, a[0]):
        if isinstance(it, Seg):
            if it.cond is not T.TRUE:
                if it.dim.op == 'num' and it.dim.args[0] == 1:
                    out.append(Seg(it.dim, it.ix, (pos, it.val), it.cond))
                    pos = binop(I, 'Add', pos, Sc(T.ite(T.subst(it.cond, {it.ix: T.num(0)}), T.num(1), T.num(0)), 'pi'))
                    continue
                raise Bail('enumerate of a filtered run')
            p = it.ix if isinstance(pos, int) and pos == 0 else T.add(it.ix, term_of(pos))
            out.append(Seg(it.dim, it.ix, (Sc(p, 'pi'), it.val)))
            pos = binop(I, 'Add', pos, ival(it.dim))
        elif isinstance(it, HoleItem):
            raise Bail('enumerate')
        else:
            out.append((pos, it))
            pos = binop(I, 'Add', pos, 1)
    return Lst(out, 'gen')


def b_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        rows = [Seg(x.dim, x.ix, (x.val,), x.cond) if isinstance(x, Seg) else (x,) for x in seq_items(I, a[1])]
    else:
        rows = align(I, [seq_items(I, x) for x in a[1:]])
    return Lst(comp_items(I, rows, lambda r: I.call(f, list(r))), 'gen')


def comp_items(I, rows, f, cond=None):
    """List items f(row) over rows (with runs); filtered by cond(row)."""
    acc = Lst()
    cell = {}

    def bind(v):
        cell['v'] = v

    def body():
        from .interp import NORMAL
        v = cell['v']

        def go():
            I.assign(acc.c, 'items', acc.items + (f(v),))
            return NORMAL
        if cond is None:
            return go()
        c = I.truth(cond(v))
        d = c if isinstance(c, bool) else I.decide(c)
        if d is True:
            return go()
        if d is False:
            return NORMAL
        return I.gated(c, go, lambda: NORMAL)
    from .interp import leaves
    o = I.run_items(rows, bind, body)
    if o != 'broke':
        for c, lf in leaves(o):
            if lf.kind == 'raise':
                I.pend(c, lf.v)
    return acc.items


def b_filter(I, a, k):
    f = a[0]
    return Lst(comp_items(I, seq_items(I, a[1]), lambda v: v,
                          (lambda v: v) if f is None else (lambda v: I.call(f, [v]))), 'gen')


def fold(I, items, f, init=MISSING):
    """Left fold with recurrence solving over runs."""
    cell = {}
    acc = init
    box = Scope(None, None, 'comp')
    from .interp import NORMAL
    items = list(items)
    if acc is MISSING:
        if not items:
            return MISSING
        h = items[0]
        if isinstance(h, Seg):
            if h.cond is not T.TRUE:
                raise Bail('fold of a filtered run without initial value')
            acc = vsubst(h.val, {h.ix: T.num(0)})
            k = T.fresh_idx('k')
            rest = I.norm_dim(T.add(h.dim, T.num(-1)))
            items = ([Seg(rest, k, vsubst(h.val, {h.ix: T.add(k, T.num(1))}))]
                     if not (rest.op == 'num' and rest.args[0] == 0) else []) + items[1:]
        else:
            acc = h
            items = items[1:]
    box.c['acc'] = acc

    def bind(v):
        cell['v'] = v

    def body():
        I.assign(box.c, 'acc', f(box.c['acc'], cell['v']))
        return NORMAL
    from .interp import leaves
    o = I.run_items(items, bind, body)
    if o != 'broke':
        for c, lf in leaves(o):
            if lf.kind == 'raise':
                I.pend(c, lf.v)
    return box.c['acc']


def b_sum(I, a, k):
    start = k.get('start', a[1] if len(a) > 1 else 0)
    return fold(I, seq_items(I, a[0]), lambda x, y: I.binop('Add', x, y), start)


def b_minmax(which):
    def f(I, a, k):
        key = k.get('key')
        if len(a) == 1:
            items = seq_items(I, a[0])
        else:
            items = list(a)
        if not items:
            if 'default' in k:
                return k['default']
            I.throw('ValueError', '%s() arg is an empty sequence' % which)
        if key is not None and not all(isinstance(x, (int, str)) for x in items):
            if len(items) == 1 and not isinstance(items[0], Seg):
                return items[0]
            if any(isinstance(x, Seg) for x in items):
                raise Bail('%s with key' % which)

            def step2(x, y):
                kx, ky = I.call(key, [x]), I.call(key, [y])
                c = I.truth(I.compare('Lt', ky, kx) if which == 'min' else I.compare('Gt', ky, kx))
                return y if c is True else x if c is False else I.join(c, y, x)
            return fold(I, items, step2)
        if all(isinstance(x, (int, str)) for x in items):
            try:
                return (min if which == 'min' else max)(items, key=(lambda z: I.call(key, [z])) if key else None)
            except TypeError:
                I.throw('TypeError', 'ordering')
        if len(items) == 1 and isinstance(items[0], Seg) and isnum(items[0].val) and items[0].cond is T.TRUE:
            s = items[0]
            return Sc(T.red(which, s.ix, s.dim, num_term(s.val)), dt_of(s.val))

        def step(x, y):
            c = I.truth(I.compare('Lt', y, x) if which == 'min' else I.compare('Gt', y, x))
            return y if c is True else x if c is False else I.join(c, y, x)
        return fold(I, items, step)
    return f


def b_anyall(which):
    def f(I, a, k):
        r = T.FALSE if which == 'any' else T.TRUE
        for it in seq_items(I, a[0]):
            if isinstance(it, Seg):
                c = I.truth(it.val)
                c = c if isinstance(c, T.Term) else (T.TRUE if c else T.FALSE)
                if which == 'any':
                    r = T.or_(r, T.red('any', it.ix, it.dim, T.and_(it.cond, c)))
                else:
                    r = T.and_(r, T.red('all', it.ix, it.dim, T.or_(T.not_(it.cond), c)))
                continue
            if isinstance(it, HoleItem):
                raise Bail(which)
            c = I.truth(it)
            if c is (which == 'any'):
                return which == 'any'
            if isinstance(c, T.Term):
                r = T.or_(r, c) if which == 'any' else T.and_(r, c)
        if r is T.TRUE or r is T.FALSE:
            return r is T.TRUE
        return Sc(r, 'pb')
    return f


def b_print(I, a, k):
    I.event('print', args=a, kw=k)
    return None


def b_int(I, cls, a, k):
    if not a:
        return 0
    v = I.force(a[0])
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: b_int(I, cls, [x], k))
    if isinstance(v, Arr) and v.ndim == 0 or isinstance(v, Arr) and all(d.op == 'num' and d.args[0] == 1 for d in v.dims):
        v = Sc(v.at([T.num(0)] * v.ndim), v.dt)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        try:
            return int(v, *(x for x in a[1:]))
        except ValueError as e:
            I.throw('ValueError', str(e))
    if isinstance(v, Str):
        if len(v.parts) == 1 and isinstance(v.parts[0], SymPart) and isinstance(v.parts[0].name, tuple) and \
                v.parts[0].name[0] == 'argfloat':
            I.throw('ValueError', 'invalid literal for int()')      # e.g. "250.5"
        return Sc(T.sym('int:' + repr(v.parts)), 'pi')
    if isinstance(v, Sc):
        if T.is_bool(v.t):
            return Sc(T.ite(v.t, T.num(1), T.num(0)), 'pi')
        if v.dt in ('pi', 'i'):
            return ival(v.t)
        if v.t.op == 'num':
            return int(v.t.args[0])
        return Sc(T.fn('trunc', v.t), 'pi')
    if isinstance(v, Inst):
        for n in ('__int__', '__index__'):
            d, _ = v.cls.lookup(n)
            if d is not None:
                return I.call(Bound(d, v), [])
    if v is None or isinstance(v, (Lst, tuple, Dct, Arr, Inst)):
        I.throw('TypeError', 'int() argument')
    raise Bail('int(%r)' % (v,))


def b_float(I, cls, a, k):
    if not a:
        return Sc(T.num(0), 'pf')
    v = I.force(a[0])
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: b_float(I, cls, [x], k))
    if isinstance(v, Arr):
        if not all(d.op == 'num' and d.args[0] == 1 for d in v.dims):
            I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        v = Sc(v.at([T.num(0)] * v.ndim), v.dt)
    if isinstance(v, str):
        try:
            return Sc(T.num(float(v)), 'pf')
        except ValueError as e:
            I.throw('ValueError', str(e))
    if isinstance(v, int):
        return Sc(T.num(int(v)), 'pf')
    if isinstance(v, Sc):
        return Sc(I.np.cast_term(I, num_term(v), v.dt, 'f'), 'pf')
    if isinstance(v, Str):
        if len(v.parts) == 1 and isinstance(v.parts[0], SymPart) and isinstance(v.parts[0].name, tuple) and \
                v.parts[0].name[0] == 'argfloat':
            return Sc(v.parts[0].name[1], 'pf')
        return Sc(T.sym('float:' + repr(v.parts)), 'pf')
    if v is None or isinstance(v, (Lst, tuple, Dct)):
        I.throw('TypeError', 'float() argument')
    raise Bail('float(%r)' % (v,))


def b_getattr(I, a, k):
    name = I.force(a[1])
    if isinstance(name, Choice):
        return I.distribute(name, lambda n: b_getattr(I, [a[0], n] + list(a[2:]), k))
    if not isinstance(name, str):
        if isinstance(name, Str):
            raise Bail('getattr with a symbolic name')
        I.throw('TypeError', 'attribute name must be string')
    if len(a) > 2:
        return I.getattr(a[0], name, a[2])
    return I.getattr(a[0], name)


def b_hasattr(I, a, k):
    o = I.force(a[0])
    if isinstance(o, Choice):
        return I.distribute(o, lambda x: b_hasattr(I, [x, a[1]], k))
    r, diff = I.collect(lambda: get_attr(I, o, a[1]))
    if isinstance(r, PyRaise):
        if r.exc.cls.name == 'AttributeError':
            return False
        raise r
    if isinstance(o, Ext):
        return Sc(opaque_bool('hasattr', o.path, a[1]), 'pb')
    return r is not MISSING


def b_abs(I, a, k):
    v = I.force(a[0])
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Sc):
        if v.t.op == 'num':
            return Sc(T.num(abs(v.t.args[0])), v.dt)
        return Sc(T.fn('abs', v.t), v.dt)
    if isinstance(v, Arr):
        return I.np.ufunc(I, 'abs', [v])
    I.throw('TypeError', 'bad operand type for abs()')


def b_round(I, a, k):
    v = I.force(a[0])
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if isinstance(v, int):
        return v
    if isinstance(v, Arr):
        return I.np.round_(I, v, nd)
    if isinstance(v, Sc):
        if nd in (None, 0):
            return Sc(T.fn('round', v.t), 'pi' if nd is None else v.dt)
        return Sc(T.app('round%s' % nd, v.t), v.dt)
    I.throw('TypeError', 'round')


def b_isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


def b_issubclass(I, a, k):
    c, d = I.force(a[0]), I.force(a[1])
    ds = d if isinstance(d, tuple) else (d,)
    if not isinstance(c, Cls):
        if isinstance(c, (Ext, DType)):
            raise Bail('issubclass')
        I.throw('TypeError', 'issubclass() arg 1 must be a class')
    return any(isinstance(x, Cls) and c.issub(x) for x in ds)


def b_len(I, a, k):
    return length(I, a[0])


def b_list(I, cls, a, k):
    return Lst(I.iterate(a[0])) if a else Lst()


def b_tuple(I, cls, a, k):
    if not a:
        return ()
    its = I.iterate(a[0])
    return Tup(its) if any(isinstance(x, (Seg, HoleItem)) for x in its) else tuple(its)


def b_dict(I, cls, a, k):
    d = Dct()
    for o in a:
        dict_update(I, d, o)
    for n, v in k.items():
        d.c[n] = v
    return d


def b_set(I, cls, a, k):
    return SetV(dedup(I, I.iterate(a[0]))) if a else SetV()


def b_str(I, cls, a, k):
    return to_str(I, a[0]) if a else ''


def b_bool(I, cls, a, k):
    if not a:
        return False
    c = I.truth(a[0])
    return c if isinstance(c, bool) else Sc(c, 'pb')


def b_type(I, cls, a, k):
    if len(a) == 1:
        v = I.force(a[0])
        if isinstance(v, Choice):
            return I.distribute(v, lambda x: b_type(I, cls, [x], k))
        return type_of(I, v)
    c = Cls(a[0], [x for x in a[1]], None, None)
    c.node = 'dynamic'
    for n, v in a[2].c.items():
        c.c[n] = v
    return c


def b_sorted(I, a, k):
    r = k.get('reverse', False)
    v = I.force(a[0])
    if isinstance(v, Arr) and k.get('key') is None:
        s = I.np.sort_(I, v)
        its = I.np.rows(I, s)
        return Lst(rev_items(I, its) if r else its)
    return Lst(sorted_items(I, I.iterate(v), k.get('key'), r))


def b_divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def b_pow(I, a, k):
    return I.binop('Pow', a[0], a[1])


def b_next(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Lst):
        return gen_next(I, v, *a[1:])
    if isinstance(v, Inst):
        return I.call(I.getattr(v, '__next__'), [])
    raise Bail('next(%r)' % (v,))


def b_iter(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Lst) and v.kind != 'list':
        return v
    return Lst(I.iterate(v), 'gen')


def b_callable(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (Fn, Native, Bound, Cls)):
        return True
    if isinstance(v, Inst):
        return v.cls.lookup('__call__')[0] is not None
    if isinstance(v, Host):
        return v.get(I, '__call__') is not MISSING
    return False


def b_vars(I, a, k):
    return I.getattr(a[0], '__dict__')


def b_super(I, cls, a, k):
    return Super(a[0], a[1])


def b_property(I, cls, a, k):
    return Prop(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))


def b_repr(I, a, k):
    return repr_(I, a[0])


def b_format(I, a, k):
    return fmt(I, a[0], a[1] if len(a) > 1 else None)


def b_dir(I, a, k):
    o = a[0]
    if isinstance(o, Mod):
        return Lst(sorted(x for x in o.c if isinstance(x, str)))
    if isinstance(o, Inst):
        names = set(o.c)
        for c in o.cls.mro():
            names |= set(c.c)
        return Lst(sorted(names))
    raise Bail('dir')


def b_open(I, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    I.event('open', path=a[0], mode=mode)
    f = Inst(I.builtins['$file'])
    f.c['path_'] = a[0]
    f.c['mode'] = mode
    if isinstance(mode, str) and ('r' in mode and '+' not in mode):
        f.c['reading'] = True
        if not getattr(I, 'files_exist', True):
            I.throw('FileNotFoundError', to_str(I, a[0]))
        cond = opaque_bool('openfails', repr(a[0]))
        if getattr(I, 'open_may_fail', False):
            I.pend(cond, I.exc('FileNotFoundError', 'open'))
    return f


EXC_TREE = """
BaseException
 SystemExit
 KeyboardInterrupt
 GeneratorExit
 Exception
  StopIteration
  ArithmeticError
   FloatingPointError
   OverflowError
   ZeroDivisionError
  AssertionError
  AttributeError
  BufferError
  EOFError
  ImportError
   ModuleNotFoundError
  LookupError
   IndexError
   KeyError
  MemoryError
  NameError
   UnboundLocalError
  OSError
   BlockingIOError
   ChildProcessError
   ConnectionError
   FileExistsError
   FileNotFoundError
   InterruptedError
   IsADirectoryError
   NotADirectoryError
   PermissionError
   ProcessLookupError
   TimeoutError
  ReferenceError
  RuntimeError
   NotImplementedError
   RecursionError
  SyntaxError
  SystemError
  TypeError
  ValueError
   UnicodeError
    UnicodeDecodeError
    UnicodeEncodeError
  Warning
   UserWarning
   DeprecationWarning
   RuntimeWarning
   FutureWarning
   PendingDeprecationWarning
"""


def make_builtins(I):
    b = {}
    obj = Cls('object')
    obj.flags['new'] = lambda I, cls, a, k: Inst(cls)
    b['object'] = obj

    def cls(name, new, key=None, bases=None):
        c = Cls(name, bases or (obj,))
        c.flags['new'] = new
        b[key or name] = c
        return c

    def exc_new(I, cls, a, k):
        e = Inst(cls, args=tuple(a))
        e.where = I.site()
        return e

    def exc_attr(I, o, name):
        if name == 'with_traceback':
            return Native(name, lambda I, a, k: o)
        if name == 'add_note':
            return Native(name, lambda I, a, k: None)
        if name in ('errno', 'strerror', 'filename', 'code', '__cause__', '__context__', '__traceback__', 'message'):
            if name in o.c:
                return o.c[name]
            if name == 'errno':
                return Sc(T.sym('errno:%d' % o.id), 'pi')
            if name == 'code':
                a = o.c.get('args', ())
                return a[0] if a else None
            if name == 'message':
                return MISSING
            return None
        return MISSING
    stack = []
    for line in EXC_TREE.strip('\n').splitlines():
        d = len(line) - len(line.lstrip())
        stack = stack[:d]
        c = Cls(line.strip(), [stack[-1]] if stack else [obj])
        c.flags['new'] = exc_new
        c.flags['exc'] = True
        c.flags['getattr'] = exc_attr

        def einit(I, a, k):
            if isinstance(a[0], Inst):
                I.assign(a[0].c, 'args', tuple(a[1:]))
            return None
        c.c['__init__'] = Native('exc.__init__', einit) if not stack else c.c.get('__init__')
        if c.c.get('__init__') is None:
            c.c.pop('__init__', None)
        b[c.name] = c
        stack.append(c)
    b['IOError'] = b['EnvironmentError'] = b['OSError']
    cls('int', b_int)
    cls('float', b_float)
    cls('bool', b_bool, bases=(b['int'],))
    cls('complex', lambda I, c, a, k: _bail('complex'))
    cls('str', b_str)
    cls('bytes', lambda I, c, a, k: _bail('bytes'))
    cls('list', b_list)
    cls('tuple', b_tuple)
    cls('dict', b_dict)
    cls('set', b_set)
    cls('frozenset', b_set)
    cls('type', b_type)
    cls('slice', lambda I, c, a, k: SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None))
    cls('super', b_super)
    cls('property', b_property)
    cls('range', lambda I, c, a, k: b_range(I, a, k))
    b['range'].flags['instancecheck'] = lambda I, v: False
    def fromkeys(I, a, k):
        v = a[1] if len(a) > 1 else None
        return b_dict(I, b['dict'], [Lst([(x, v) for x in I.iterate(a[0])])], {})

    def unbound(I, o, name):
        t = getattr(__import__('builtins'), o.name)
        if name == 'fromkeys' and o.name == 'dict':
            return Native('dict.fromkeys', fromkeys)
        if name in dir(object) or name in ('fromkeys', 'maketrans', 'fromhex', 'from_bytes'):
            return MISSING
        if not callable(getattr(t, name, None)):
            return MISSING

        def call(I, a, k):
            if not a:
                I.throw('TypeError', 'unbound method needs an argument')
            return I.call(I.getattr(a[0], name), list(a[1:]), k)
        return Native('%s.%s' % (o.name, name), call)
    for n in ('str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'int', 'float', 'bytes'):
        b[n].flags['clsattr'] = unbound
    for n in ('NoneType', 'generator', 'function', 'module', 'host', 'mappingproxy', 'defaultdict', 'OrderedDict', 'namespace',
              'Counter', 'readonly'):
        cls(n, lambda I, c, a, k: _bail('constructor'), '$' + n)
    for n in ('defaultdict', 'OrderedDict', 'Counter'):
        b['$' + n].bases = (b['dict'],)
    f = b['$file'] = Cls('file', (obj,))
    f.flags['new'] = lambda I, c, a, k: Inst(c)

    def fget(I, o, name):
        if name in ('write', 'writelines'):
            def w(I, a, k):
                I.event('fwrite', path=o.c['path_'], data=a[0])
                return None
            return Native('write', w)
        if name in ('read', 'readline'):
            return Native(name, lambda I, a, k: Str((SymPart(('content', repr(o.c['path_']))),)))
        if name == 'readlines':
            raise Bail('readlines')
        if name in ('close', 'flush', 'fileno', 'seek'):
            return Native(name, lambda I, a, k: None)
        if name == '__enter__':
            return Native(name, lambda I, a, k: o)
        if name == '__exit__':
            return Native(name, lambda I, a, k: None)
        if name == 'name':
            return o.c['path_']
        return MISSING
    f.flags['getattr'] = fget
    f.c['__enter__'] = Native('enter', lambda I, a, k: a[0])
    f.c['__exit__'] = Native('exit', lambda I, a, k: None)

    def f_iter(I, a, k):
        ix = T.fresh_idx('line')
        return Lst([Seg(T.dim('lines:' + repr(a[0].c['path_'])), ix,
                        Str((SymPart(('line', ix, repr(a[0].c['path_'])),),)))], 'gen')
    f.c['__iter__'] = Native('iter', f_iter)

    def nat(name, fn):
        b[name] = Native(name, fn)
    for n, fn in dict(zip=b_zip, enumerate=b_enumerate, map=b_map, filter=b_filter, sum=b_sum, min=b_minmax('min'),
                      max=b_minmax('max'), any=b_anyall('any'), all=b_anyall('all'), print=b_print, getattr=b_getattr,
                      hasattr=b_hasattr, abs=b_abs, round=b_round, isinstance=b_isinstance, issubclass=b_issubclass,
                      len=b_len, sorted=b_sorted, divmod=b_divmod, pow=b_pow, next=b_next, iter=b_iter,
                      callable=b_callable, vars=b_vars, repr=b_repr, format=b_format, dir=b_dir, open=b_open).items():
        nat(n, fn)
    nat('reversed', lambda I, a, k: Lst(rev_items(I, I.iterate(a[0])), 'gen'))
    nat('setattr', lambda I, a, k: I.setattr(a[0], a[1], a[2]))
    nat('delattr', lambda I, a, k: I.assign(a[0].c, a[1], MISSING))
    nat('id', lambda I, a, k: id(a[0]))
    nat('hash', lambda I, a, k: Sc(T.sym('hash:%r' % (a[0],)), 'pi') if dkey(I, a[0]) is not MISSING else None)
    nat('chr', lambda I, a, k: chr(a[0]))
    nat('ord', lambda I, a, k: ord(a[0]))
    nat('input', lambda I, a, k: Str((SymPart('stdin'),)))
    nat('exit', lambda I, a, k: I.throw('SystemExit', a[0] if a else 0))
    nat('quit', lambda I, a, k: I.throw('SystemExit', a[0] if a else 0))
    nat('staticmethod', lambda I, a, k: Static(a[0]))
    nat('classmethod', lambda I, a, k: ClsMethod(a[0]))
    nat('__import__', lambda I, a, k: I.load(a[0].split('.')[0]) if isinstance(a[0], str) else _bail('import'))
    b['NotImplemented'] = Ext('NotImplemented')
    b['Ellipsis'] = Ellipsis
    b['__name__'] = '__main__'
    b['__debug__'] = True
    return b
