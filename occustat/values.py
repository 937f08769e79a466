"""Abstract values of the interpreter."""
from . import terms as T

MISSING = type('Missing', (), {'__repr__': lambda s: '<unbound>'})()


class Bail(Exception):
    """The analysis cannot follow this construct: the obligation is undecided."""


class SelBail(Bail):
    """A masked selection (entries where sel) used where its length matters."""

    def __init__(self, msg, sel=None, site='?'):
        super().__init__(msg)
        self.sel, self.site = sel, site


class PyRaise(Exception):
    """The analysed program definitely raises here."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Cell(dict):
    """State of one object; the serial number tells objects created inside a
    gated region (whose state needs no merging) from older ones."""
    __slots__ = ('birth',)
    n = 0

    def __init__(self, *a):
        dict.__init__(self, *a)
        Cell.n += 1
        self.birth = Cell.n


class V:
    pass


class Sc(V):
    """Numeric scalar. dt: pb pi pf (weak python) / b i f4 f g (numpy) / O."""
    __slots__ = ('t', 'dt')

    def __init__(self, t, dt='pf'):
        self.t, self.dt = t, dt

    def __repr__(self):
        return '<%s %s>' % (self.dt, T.show(self.t))


class SymPart:
    """Unknown part of a string."""
    __slots__ = ('name', 'facts')

    def __init__(self, name, facts=()):
        self.name, self.facts = name, facts

    def __repr__(self):
        return '{%s}' % (self.name,)

    def __eq__(self, o):
        return isinstance(o, SymPart) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Str(V):
    """Abstract string: concatenation of concrete and symbolic parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, Str) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(tuple(out))


IXDIM = {}


class Buf:
    """Memory of an array."""
    __slots__ = ('dims', 'ixs', 'c', 'dt', 'origin', 'site')
    n = 0

    def __init__(self, dims, ixs, body, dt, origin=None, site=None):
        self.dims, self.ixs, self.dt = tuple(dims), tuple(ixs), dt
        self.c = Cell({'body': body})
        for i, d in zip(self.ixs, self.dims):
            IXDIM[i] = d
        self.origin = origin
        self.site = site


class Arr(V):
    """Array: a view (bix gives the buffer index of view element ixs) of a buffer."""
    __slots__ = ('dims', 'ixs', 'bix', 'buf', 'sel', 'ro')

    def __init__(self, dims, ixs, bix, buf, sel=None, ro=False):
        self.dims, self.ixs, self.bix, self.buf, self.sel = tuple(dims), tuple(ixs), tuple(bix), buf, sel
        self.ro = ro

    @property
    def dt(self):
        return self.buf.dt

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def body(self):
        b = self.buf
        if all(x is y for x, y in zip(self.bix, b.ixs)):
            return b.c['body']
        return T.subst(b.c['body'], dict(zip(b.ixs, self.bix)))

    def at(self, ix):
        """Body at the given index terms."""
        m = {a: b for a, b in zip(self.ixs, ix) if a is not b}
        b = self.buf
        bix = [T.subst(x, m) if m else x for x in self.bix]
        return T.subst(b.c['body'], {p: q for p, q in zip(b.ixs, bix) if p is not q})

    def __repr__(self):
        return 'Arr[%s] %s: %s' % (', '.join(T.show(d) for d in self.dims), self.dt, T.show(self.body))


def new_arr(dims, ixs, body, dt, origin=None, site=None):
    return Arr(dims, ixs, ixs, Buf(dims, ixs, body, dt, origin, site))


def fresh_ixs(n, hint='i'):
    return tuple(T.fresh_idx(hint) for _ in range(n))


class Seg:
    """A run of list items: val(ix) for ix < dim, kept where cond(ix)."""
    __slots__ = ('dim', 'ix', 'val', 'cond')

    def __init__(self, dim, ix, val, cond=T.TRUE):
        self.dim, self.ix, self.val, self.cond = dim, ix, val, cond

    def __repr__(self):
        return 'Seg{%s<%s%s}(%r)' % (T.show(self.ix), T.show(self.dim),
                                     '' if self.cond is T.TRUE else ' if ' + T.show(self.cond), self.val)


class StarRun:
    """Positional arguments given by *items with a number of items that is not known."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class HoleItem:
    """Unknown list prefix while solving a loop."""

    def __init__(self, lst):
        self.lst = lst


class Lst(V):
    def __init__(self, items=(), kind='list'):
        self.c = Cell({'items': tuple(items)})
        self.kind = kind
        self.origin = None

    @property
    def items(self):
        return self.c['items']

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.items))


class Tup(V):
    """Tuple containing abstract runs (plain tuples stay Python tuples)."""

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Dct(V):
    def __init__(self, items=None, kind='dict'):
        # ordered: key object -> (key, value); symbolic keys are wrapped
        self.c = Cell(items or {})
        self.kind = kind
        self.default = None
        self.fill = None        # (keys not listed) -> what reading them gives

    def __repr__(self):
        return 'Dct%r' % (self.c,)


class Key:
    """Symbolic dictionary key."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Key(%r)' % (self.v,)


class SetV(V):
    def __init__(self, items=()):
        self.c = Cell({'items': tuple(items)})

    @property
    def items(self):
        return self.c['items']


class SliceV(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Scope:
    def __init__(self, parent=None, mod=None, kind='func'):
        self.c = Cell()
        self.parent, self.mod, self.kind = parent, mod, kind
        self.globals_, self.nonlocals = set(), set()


class Mod(V):
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.c = Cell()

    def __repr__(self):
        return '<module %s>' % self.name


class Cls(V):
    def __init__(self, name, bases=(), mod=None, node=None):
        self.name, self.bases, self.mod, self.node = name, tuple(bases), mod, node
        self.c = Cell()
        self.meta = None
        self.flags = {}

    def mro(self):
        out = [self]
        seqs = [b.mro() for b in self.bases if isinstance(b, Cls)] + [list(b for b in self.bases if isinstance(b, Cls))]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for k in self.mro():
            if name in k.c:
                return k.c[name], k
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class Inst(V):
    n = 0

    def __init__(self, cls, **kw):
        self.cls = cls
        self.c = Cell(kw)
        Inst.n += 1
        self.id = Inst.n

    def __repr__(self):
        return '<%s object %s>' % (self.cls.name, {k: v for k, v in list(self.c.items())[:4]})


class Fn(V):
    def __init__(self, node, scope, mod, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.scope, self.mod, self.name = node, scope, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls
        self.c = Cell()

    def __repr__(self):
        return '<function %s>' % self.name


class Bound(V):
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Native(V):
    """Modelled function: f(interp, args, kwargs) -> value."""

    def __init__(self, name, f, **kw):
        self.name, self.f = name, f
        self.c = Cell()
        self.info = kw

    def __repr__(self):
        return '<native %s>' % self.name


class Prop(V):
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Static(V):
    def __init__(self, f):
        self.f = f


class ClsMethod(V):
    def __init__(self, f):
        self.f = f


class Super(V):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ext(V):
    """Unmodelled external object; operations are recorded, nothing is known."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path


class Host(V):
    """Object provided by a check: get(interp, attr) -> value or MISSING."""

    def __init__(self, name, get, key=None, subst=None):
        self.name, self.get, self.key, self.sub = name, get, key, subst
        self.twin = None

    def __repr__(self):
        return '<host %s>' % self.name


class Choice(V):
    """Gated join: value v where cond (first match)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Choice%r' % ([(T.show(c), v) for c, v in self.alts],)


class DType(V):
    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return 'dtype(%s)' % self.dt


class Dead(V):
    """Iterator already consumed / value never available."""


NUM = (int, bool, Sc)


def isnum(v):
    return isinstance(v, (int, Sc))


def term_of(v):
    if isinstance(v, bool):
        return T.TRUE if v else T.FALSE
    if isinstance(v, int):
        return T.num(v)
    if isinstance(v, Sc):
        return v.t
    raise Bail('not a number: %r' % (v,))


def dt_of(v):
    if isinstance(v, bool):
        return 'pb'
    if isinstance(v, int):
        return 'pi'
    if isinstance(v, (Sc, Arr)):
        return v.dt
    raise Bail('no dtype: %r' % (v,))


def ival(t):
    """Python int for an integral constant term, else a symbolic int."""
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    return Sc(t, 'pi')


class SmallInt(str):
    """The integer code 'i' with a width."""
    bits, signed = 64, True


def small_int(bits, signed=True):
    r = SmallInt('i')
    r.bits, r.signed = bits, signed
    return r


_ORD = {'b': 0, 'i': 1, 'f4': 2, 'f': 3, 'g': 4, 'O': 9}
_WEAK = {'pb': 'b', 'pi': 'i', 'pf': 'f'}
_KIND = {'b': 0, 'pb': 0, 'i': 1, 'pi': 1, 'f4': 2, 'f': 2, 'g': 2, 'pf': 2, 'O': 9}


def promote(*dts):
    """NumPy 2 promotion (weak Python scalars)."""
    strong = [d for d in dts if d in _ORD]
    weak = [d for d in dts if d in _WEAK]
    if not strong:
        return max(weak, key=lambda d: _KIND[d])
    r = strong[0]
    for d in strong[1:]:
        if {r, d} == {'i', 'f4'}:
            r = 'f'
        elif _ORD[d] > _ORD[r]:
            r = d
    for d in weak:
        if _KIND[d] > _KIND[r]:
            r = _WEAK[d]
    return r


def strong(dt):
    return _WEAK.get(dt, dt)


def narrows(src, dst):
    s, d = strong(src), strong(dst)
    return s in ('f', 'g') and d in ('f', 'f4') and _ORD[d] < _ORD[s]


def vsubst(v, m):
    """Substitute index terms inside a value (fresh copies of loop-private data)."""
    if not m or v is None or isinstance(v, (int, str, bytes, Fn, Cls, Native, Mod, Ext, DType)):
        return v
    if isinstance(v, Sc):
        return Sc(T.subst(v.t, m), v.dt)
    if isinstance(v, Arr):
        keys = frozenset(m)
        bodyfree = T.free(v.buf.c['body']) - frozenset(v.buf.ixs)
        dims = tuple(T.subst(d, m) for d in v.dims)
        bix = tuple(T.subst(b, m) for b in v.bix)
        buf = v.buf
        if bodyfree & keys or any(k.op != 'idx' for k in keys):
            buf = Buf(tuple(T.subst(d, m) for d in buf.dims), buf.ixs, T.subst(buf.c['body'], m), buf.dt,
                      buf.origin, buf.site)
        return Arr(dims, v.ixs, bix, buf, T.subst(v.sel, m) if v.sel is not None else None, v.ro)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Lst):
        items = tuple(isubst(x, m) for x in v.items)
        if all(a is b for a, b in zip(items, v.items)):
            return v
        return Lst(items, v.kind)
    if isinstance(v, Tup):
        return Tup(isubst(x, m) for x in v.items)
    if isinstance(v, Dct):
        d = Dct(kind=v.kind)
        ch = False
        for k, x in v.c.items():
            y = vsubst(x, m)
            ch |= y is not x
            d.c[k] = y
        return d if ch else v
    if isinstance(v, Choice):
        return Choice([(T.subst(c, m), vsubst(x, m)) for c, x in v.alts])
    if isinstance(v, Str):
        return v if not any(isinstance(p, SymPart) and isinstance(p.name, tuple) for p in v.parts) else \
            mkstr(tuple(psubst(p, m) for p in v.parts))
    if isinstance(v, Host):
        return v.sub(m) if v.sub else v
    if isinstance(v, Inst):
        n = None
        for k, x in v.c.items():
            y = vsubst(x, m)
            if y is not x:
                if n is None:
                    n = Inst(v.cls)
                    n.c = Cell(v.c)
                n.c[k] = y
        return n or v
    if isinstance(v, Bound):
        return Bound(v.fn, vsubst(v.obj, m))
    return v


def psubst(p, m):
    if isinstance(p, SymPart) and isinstance(p.name, tuple):
        r = tuple(T.subst(x, m) if isinstance(x, T.Term) else x for x in p.name)
        if r[0] == 'int' and r[1].op == 'num':
            return str(int(r[1].args[0]))
        return SymPart(r, p.facts)
    return p


def isubst(it, m):
    if isinstance(it, Seg):
        d, v, c = T.subst(it.dim, m), vsubst(it.val, m), T.subst(it.cond, m)
        if d is it.dim and v is it.val and c is it.cond:
            return it
        return Seg(d, it.ix, v, c)
    if isinstance(it, HoleItem):
        return it
    return vsubst(it, m)


def vfree(v):
    """Free index terms of a value."""
    if isinstance(v, Sc):
        return T.free(v.t)
    if isinstance(v, Arr):
        f = frozenset()
        for b in v.bix:
            f |= T.free(b)
        for d in v.dims:
            f |= T.free(d)
        return (f - frozenset(v.ixs)) | (T.free(v.buf.c['body']) - frozenset(v.buf.ixs))
    if isinstance(v, (tuple, Lst, Tup)):
        f = frozenset()
        for x in (v if isinstance(v, tuple) else v.items):
            if isinstance(x, Seg):
                f |= (vfree(x.val) | T.free(x.cond)) - {x.ix} | T.free(x.dim)
            elif not isinstance(x, HoleItem):
                f |= vfree(x)
        return f
    if isinstance(v, Dct):
        f = frozenset()
        for x in v.c.values():
            f |= vfree(x)
        return f
    if isinstance(v, Choice):
        f = frozenset()
        for c, x in v.alts:
            f |= T.free(c) | vfree(x)
        return f
    if isinstance(v, Str):
        f = frozenset()
        for p in v.parts:
            if isinstance(p, SymPart) and isinstance(p.name, tuple):
                for x in p.name:
                    if isinstance(x, T.Term):
                        f |= T.free(x)
        return f
    return frozenset()
