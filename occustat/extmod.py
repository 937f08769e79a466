"""Models of the standard library and of the external packages (ASE, pymatgen,
matplotlib) as far as an application of this kind uses them.

External objects are described by what their documentation promises: the frames of
an extended-XYZ file are elements of unknown arrays, the operations of a point group
are matrices with an unknown determinant, a figure is the list of what was drawn.
"""
import math
import posixpath
import re as _re
from . import terms as T
from .values import *
from .values import _KIND, _WEAK, _ORD
from . import pymod as P
from . import npmod as NP


def nat(mod, name, f, **kw):
    n = Native(mod.name + '.' + name, f, **kw)
    n.c['__name__'] = name
    mod.c[name] = n
    return n


def bind_args(I, fname, names, a, k, extra=False):
    d = {}
    if len(a) > len(names):
        raise Bail('%s() takes at most %d arguments' % (fname, len(names)))
    for n, v in zip(names, a):
        d[n] = v
    for n, v in k.items():
        if n in d:
            I.throw('TypeError', '%s() got multiple values for argument %r' % (fname, n))
        if n not in names and not extra and n != '$ext':
            raise Bail('%s() got an unexpected keyword argument %r' % (fname, n))
        d[n] = v
    return d


def native_class(I, name, methods=None, getattr_=None, bases=()):
    c = Cls(name, bases or (I.builtins['object'],))
    c.flags['new'] = lambda I, cls, a, k: Inst(cls)
    for n, f in (methods or {}).items():
        c.c[n] = Native(name + '.' + n, f)
    if getattr_:
        c.flags['getattr'] = getattr_
    return c


# ---------------------------------------------------------------- symbolic paths
def parts_of(s):
    return (s,) if isinstance(s, str) else s.parts


def fs(I, v):
    v = I.force(v)
    if isinstance(v, Inst) and 'path' in v.c:
        return v.c['path']
    if isinstance(v, (str, Str)):
        return v
    if isinstance(v, Inst):
        d, _ = v.cls.lookup('__fspath__')
        if d is not None:
            return I.call(Bound(d, v), [])
    if isinstance(v, Choice):
        raise Bail('path alternatives')
    if v is None or isinstance(v, (int, Sc, Lst, tuple, Arr)):
        I.throw('TypeError', 'expected str, bytes or os.PathLike object')
    raise Bail('path %r' % (v,))


def has_slash(p):
    if isinstance(p, str):
        return '/' in p
    return None if 'noslash' not in p.facts else False


def split_base(s):
    """(directory part with trailing slash or '', base name) or None if unknown."""
    parts = parts_of(s)
    for i in range(len(parts) - 1, -1, -1):
        h = has_slash(parts[i])
        if h is None:
            return None
        if h:
            j = parts[i].rindex('/')
            return mkstr(parts[:i] + (parts[i][:j + 1],)), mkstr((parts[i][j + 1:],) + parts[i + 1:])
    return '', s


def opaque(*key):
    return Str((SymPart(key),))


def splitext(s):
    if isinstance(s, str):
        return posixpath.splitext(s)
    sb = split_base(s)
    if sb is None:
        # the extension may still be determined by the last parts
        r = dot_split(parts_of(s))
        if r is None:
            return opaque('splitext0', s.parts), opaque('splitext1', s.parts)
        return r
    d, b = sb
    if isinstance(b, str):
        x, y = posixpath.splitext(b)
        return mkstr((d, x)), y
    r = dot_split(parts_of(b), whole=True)
    if r is None:
        return opaque('splitext0', s.parts), opaque('splitext1', s.parts)
    return mkstr((d, r[0])), r[1]


def dot_split(parts, whole=False):
    """Split at the last dot of a base name; None if unknown."""
    for i in range(len(parts) - 1, -1, -1):
        p = parts[i]
        if isinstance(p, str):
            k = p.rfind('.')
            sl = p.rfind('/')
            if sl > k:
                return mkstr(parts), ''
            if k >= 0:
                head = p[sl + 1:k]
                if head.strip('.'):
                    return mkstr(parts[:i] + (p[:k],)), mkstr((p[k:],) + parts[i + 1:])
                if sl >= 0:
                    return mkstr(parts), ''
                # leading characters come from earlier parts
                for q in reversed(parts[:i]):
                    if isinstance(q, str):
                        h = q[q.rfind('/') + 1:]
                        if h.strip('.'):
                            return mkstr(parts[:i] + (p[:k],)), mkstr((p[k:],) + parts[i + 1:])
                        if '/' in q:
                            return mkstr(parts), ''
                    else:
                        if 'name' in q.facts or {'nonempty', 'noslash', 'nodot'} <= set(q.facts):
                            return mkstr(parts[:i] + (p[:k],)), mkstr((p[k:],) + parts[i + 1:])
                        return None
                return (mkstr(parts), '') if whole else None
        elif not ('nodot' in p.facts and 'noslash' in p.facts):
            return None
    return (mkstr(parts), '') if whole else None


def basename(s):
    if isinstance(s, str):
        return posixpath.basename(s)
    sb = split_base(s)
    return sb[1] if sb is not None else opaque('basename', s.parts)


def dirname(s):
    if isinstance(s, str):
        return posixpath.dirname(s)
    sb = split_base(s)
    if sb is None:
        return opaque('dirname', s.parts)
    d = sb[0]
    if d == '':
        return ''
    if isinstance(d, str):
        return posixpath.dirname(d)
    last = d.parts[-1].rstrip('/')
    return mkstr(d.parts[:-1] + (last,))


def join(I, a, *rest):
    for b in rest:
        if isinstance(a, str) and isinstance(b, str):
            a = posixpath.join(a, b)
            continue
        pb = parts_of(b)[0]
        if isinstance(pb, str) and pb.startswith('/'):
            a = b
            continue
        if isinstance(pb, SymPart) and 'noslash' not in pb.facts and 'rel' not in pb.facts and a != '':
            a = opaque('pathjoin', parts_of(a), parts_of(b))
            continue
        if a == '':
            a = b
            continue
        pa = parts_of(a)[-1]
        if isinstance(pa, str):
            a = mkstr((a, b)) if pa.endswith('/') else mkstr((a, '/', b))
        elif 'nonempty' in pa.facts and ('noslash' in pa.facts or 'noslashend' in pa.facts):
            a = mkstr((a, '/', b))
        else:
            a = opaque('pathjoin', parts_of(a), parts_of(b))
    return a


def normpath(s):
    if isinstance(s, str):
        return posixpath.normpath(s)
    p = s.parts
    if isinstance(p[0], str) and p[0].startswith('./') and len(p[0]) > 2:
        return mkstr((p[0][2:],) + p[1:])
    return s


def install_os(I):
    m = Mod('os')
    pth = Mod('os.path')
    m.c['path'] = pth
    c = pth.c
    c['splitext'] = Native('splitext', lambda I, a, k: splitext(fs(I, a[0])))
    c['basename'] = Native('basename', lambda I, a, k: basename(fs(I, a[0])))
    c['dirname'] = Native('dirname', lambda I, a, k: dirname(fs(I, a[0])))
    c['split'] = Native('split', lambda I, a, k: (dirname(fs(I, a[0])), basename(fs(I, a[0]))))
    c['join'] = Native('join', lambda I, a, k: join(I, *[fs(I, x) for x in a]))
    c['normpath'] = Native('normpath', lambda I, a, k: normpath(fs(I, a[0])))

    def absolute(I, a, k):
        p = fs(I, a[0])
        if I.programs is not None and isinstance(p, str) and p.startswith('/'):
            return posixpath.normpath(p)        # no symbolic links in the directories of these scenarios
        return opaque('abspath', parts_of(p))
    for n in ('abspath', 'realpath'):
        c[n] = Native(n, absolute)
    c['expanduser'] = Native('expanduser', lambda I, a, k: opaque('expanduser', parts_of(fs(I, a[0]))))
    c['expandvars'] = Native('expandvars', lambda I, a, k: opaque('expandvars', parts_of(fs(I, a[0]))))
    c['relpath'] = Native('relpath', lambda I, a, k: opaque('relpath', parts_of(fs(I, a[0]))))
    for n in ('exists', 'isfile', 'isdir', 'lexists', 'islink', 'isabs', 'getsize', 'getmtime'):
        c[n] = Native(n, (lambda n: lambda I, a, k: Sc(P.opaque_bool(n, repr(fs(I, a[0]))), 'pb'))(n))
    c['sep'] = '/'
    c['extsep'] = '.'
    pth.closed = True
    m.c.update(sep='/', linesep='\n', name='posix', curdir='.', pardir='..', extsep='.', altsep=None, pathsep=':',
               devnull='/dev/null')
    env = Dct()
    env.c['PATH'] = '/usr/bin:/bin'
    env.c['HOME'] = '/home/user'
    env.c['GIT_DIR'] = '/elsewhere/.git'
    m.c['environ'] = env

    def getenv(I, a, k):
        return I.call(I.getattr(env, 'get'), a, k)
    m.c['getenv'] = Native('getenv', getenv)
    m.c['getcwd'] = Native('getcwd', lambda I, a, k: opaque('cwd'))
    m.c['fspath'] = Native('fspath', lambda I, a, k: fs(I, a[0]))
    m.c['PathLike'] = native_class(I, 'PathLike')
    m.c['SEEK_SET'] = 0
    for n in ('makedirs', 'mkdir', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'chdir', 'symlink', 'system', 'truncate'):
        m.c[n] = Native('os.' + n, (lambda n: lambda I, a, k: I.event('os', how=n, args=a) and None)(n))
    m.c['listdir'] = Native('listdir', lambda I, a, k: P._bail('directory listing'))
    m.dyn = lambda I, n: Ext('os.' + n)
    I.extmods['os'] = m
    I.extmods['os.path'] = pth
    I.extmods['posixpath'] = pth


def install_pathlib(I):
    m = Mod('pathlib')
    cls = native_class(I, 'Path')
    P_ = {}

    def mkp(s):
        o = Inst(cls)
        o.c['path'] = s
        return o

    def new(I, cl, a, k):
        s = ''
        for i, x in enumerate(a):
            s = fs(I, x) if i == 0 else join(I, s, fs(I, x))
        if isinstance(s, str):
            import pathlib
            s = str(pathlib.PurePosixPath(s))
        return mkp(s)
    cls.flags['new'] = new

    def get(I, o, name):
        s = o.c['path']
        base = basename(s)
        if name == 'name':
            return base
        if name == 'stem':
            return splitext(base)[0]
        if name == 'suffix':
            return splitext(base)[1]
        if name == 'parent':
            d = dirname(s)
            return mkp('.' if d == '' else d)
        if name in ('resolve', 'absolute', 'expanduser'):
            return Native(name, lambda I, a, k: mkp(opaque('abspath', parts_of(s))))
        if name in ('as_posix', '__str__', '__fspath__'):
            return Native(name, lambda I, a, k: s)
        if name == 'with_suffix':
            def ws(I, a, k):
                r = splitext(s)[0]
                return mkp(mkstr((r, a[0])))
            return Native(name, ws)
        if name == 'with_name':
            return Native(name, lambda I, a, k: mkp(join(I, dirname(s), a[0])))
        if name == 'with_stem':
            return Native(name, lambda I, a, k: mkp(join(I, dirname(s), mkstr((a[0], splitext(base)[1])))))
        if name in ('joinpath', '__truediv__'):
            return Native(name, lambda I, a, k: mkp(join(I, s, *[fs(I, x) for x in a])))
        if name in ('exists', 'is_file', 'is_dir', 'is_absolute'):
            return Native(name, lambda I, a, k: Sc(P.opaque_bool(name, repr(s)), 'pb'))
        if name in ('mkdir', 'touch', 'unlink', 'rename', 'replace'):
            return Native(name, lambda I, a, k: I.event('os', how=name, args=[o] + list(a)) and None)
        if name == 'open':
            return Native(name, lambda I, a, k: P.b_open(I, [s] + list(a), k))
        if name in ('write_text', 'write_bytes'):
            def wt(I, a, k):
                I.event('open', path=s, mode='w')
                I.event('fwrite', path=s, data=a[0])
            return Native(name, wt)
        if name in ('read_text', 'read_bytes'):
            return Native(name, lambda I, a, k: opaque('content', repr(s)))
        if name in ('parts', 'parents', 'suffixes', 'iterdir', 'glob'):
            raise Bail('Path.' + name)
        return MISSING
    cls.flags['getattr'] = get
    cls.c['__truediv__'] = Native('truediv', lambda I, a, k: mkp(join(I, a[0].c['path'], fs(I, a[1]))))
    cls.c['__rtruediv__'] = Native('rtruediv', lambda I, a, k: mkp(join(I, fs(I, a[1]), a[0].c['path'])))
    cls.c['__fspath__'] = Native('fspath', lambda I, a, k: a[0].c['path'])
    cls.c['cwd'] = Static(Native('cwd', lambda I, a, k: mkp(opaque('cwd'))))
    m.c['Path'] = m.c['PurePath'] = m.c['PosixPath'] = m.c['PurePosixPath'] = cls
    I.extmods['pathlib'] = m


# ---------------------------------------------------------------- functools & co
def install_misc(I):
    b = I.builtins
    ident = Native('decorator', lambda I, a, k: a[0])

    # functools
    m = Mod('functools')

    def wraps(I, a, k):
        w = a[0]

        def deco(I, b_, kk):
            f = b_[0]
            if isinstance(f, (Fn, Native)) and isinstance(w, (Fn, Native)):
                for n in ('__name__', '__doc__', '__isabstractmethod__'):
                    if n in w.c:
                        f.c[n] = w.c[n]
                f.c['__wrapped__'] = w
            return f
        return Native('wraps()', deco)
    nat(m, 'wraps', wraps)
    nat(m, 'update_wrapper', lambda I, a, k: a[0])

    def partial(I, a, k):
        f, pa, pk = a[0], list(a[1:]), dict(k)

        def call(I, a2, k2):
            kk = dict(pk)
            kk.update(k2)
            return I.call(f, pa + list(a2), kk)

        def attrs(I, o, n):
            return {'func': f, 'args': tuple(pa)}.get(n, MISSING)
        r = Native('partial', call, static=True, attrs=attrs)
        return r
    nat(m, 'partial', partial)

    def partialmethod(I, a, k):
        f, pa, pk = a[0], list(a[1:]), dict(k)

        def call(I, a2, k2):
            kk = dict(pk)
            kk.update(k2)
            return I.call(f, [a2[0]] + pa + list(a2[1:]), kk)
        return Native('partialmethod', call)
    nat(m, 'partialmethod', partialmethod)

    def reduce_(I, a, k):
        init = a[2] if len(a) > 2 else k.get('initial', MISSING)
        r = P.fold(I, I.iterate(a[1]), lambda x, y: I.call(a[0], [x, y], {}), init)
        if r is MISSING:
            I.throw('TypeError', 'reduce() of empty iterable with no initial value')
        return r
    nat(m, 'reduce', reduce_)

    def cache(I, a, k):
        if a and isinstance(a[0], (Fn, Native, Bound)):
            return memo(I, a[0])
        return Native('lru_cache()', lambda I, a2, k2: memo(I, a2[0]))

    def memo(I, f):
        store = Inst(b['object'], entries=())

        def call(I, a, k):
            key = (tuple(a), tuple(sorted(k.items(), key=lambda x: x[0])))
            for x in a:
                x = I.force(x)
                if isinstance(x, (Arr, Lst, Dct)):
                    I.throw('TypeError', 'unhashable type')
            for kk, v in store.c['entries']:
                if same_args(I, kk, key):
                    return v
            v = I.call(f, a, k)
            I.assign(store.c, 'entries', store.c['entries'] + ((key, v),))
            return v
        return Native('cached', call)
    nat(m, 'lru_cache', cache)
    nat(m, 'cache', cache)
    nat(m, 'cached_property', lambda I, a, k: Prop(a[0], None, True))
    nat(m, 'total_ordering', lambda I, a, k: a[0])
    nat(m, 'singledispatch', lambda I, a, k: P._bail('singledispatch'))
    nat(m, 'cmp_to_key', lambda I, a, k: P._bail('cmp_to_key'))
    I.extmods['functools'] = m

    # math
    m = Mod('math')
    m.c.update(pi=Sc(T.sym('pi'), 'pf'), inf=Sc(T.INF, 'pf'), nan=Sc(T.NAN, 'pf'), e=Sc(T.fn('exp', T.num(1)), 'pf'),
               tau=Sc(T.mul(T.num(2), T.sym('pi')), 'pf'))

    def mfn(name, npn):
        def f(I, a, k):
            args = []
            for x in a:
                x = I.force(x)
                if isinstance(x, Choice):
                    return I.distribute(x, lambda y: f(I, [y] + list(a[1:]), k))
                if isinstance(x, Arr):
                    x = P.b_float(I, None, [x], {})
                if x is None or isinstance(x, (str, Str, Lst, tuple, Dct)):
                    I.throw('TypeError', 'must be real number')
                args.append(x)
            r = NP._ufunc(I, npn, args)
            if isinstance(r, Sc):
                if name in ('floor', 'ceil', 'trunc'):
                    return ival(r.t)
                if name in ('isnan', 'isinf', 'isfinite'):
                    return Sc(r.t, 'pb') if r.t not in (T.TRUE, T.FALSE) else r.t is T.TRUE
                if name in ('log', 'log10', 'log2', 'sqrt') and r.t.op != 'num':
                    t = term_of(args[0])
                    bad = T.le(t, T.num(0)) if name != 'sqrt' else T.lt(t, T.num(0))
                    if I.decide(bad) is not False:
                        I.pend(bad, I.exc('ValueError', 'math domain error'))
                return Sc(r.t, 'pf')
            return r
        nat(m, name, f)
    for n in ('exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'floor',
              'ceil', 'trunc', 'fabs', 'isnan', 'isinf', 'isfinite', 'hypot', 'asinh', 'acosh', 'atanh', 'cbrt', 'exp2'):
        npn = {'asinh': 'arcsinh', 'acosh': 'arccosh', 'atanh': 'arctanh'}.get(n, n)
        if npn in NP.U1 or npn in NP.U2:
            mfn(n, npn)
    nat(m, 'pow', lambda I, a, k: P.b_float(I, None, [I.binop('Pow', P.b_float(I, None, [a[0]], {}), a[1])], {}))
    nat(m, 'fsum', lambda I, a, k: P.b_float(I, None, [P.b_sum(I, a, {})], {}))

    def mprod(I, a, k):
        return P.fold(I, I.iterate(a[0]), lambda x, y: I.binop('Mult', x, y), k.get('start', 1))
    nat(m, 'prod', mprod)

    def sumprod(I, a, k):
        z = P.b_zip(I, [a[0], a[1]], {})
        return P.b_sum(I, [P.b_map(I, [Native('m', lambda I, a, k: I.binop('Mult', a[0][0], a[0][1])), z], {})], {})
    nat(m, 'sumprod', sumprod)
    nat(m, 'isclose', lambda I, a, k: NP.isclose(I, a[0], a[1], k.get('rel_tol'), k.get('abs_tol')))
    nat(m, 'fmod', lambda I, a, k: P._bail('fmod'))
    nat(m, 'copysign', lambda I, a, k: P._bail('copysign'))
    nat(m, 'comb', lambda I, a, k: math.comb(a[0], a[1]) if all(isinstance(x, int) for x in a) else P._bail('comb'))
    nat(m, 'factorial', lambda I, a, k: math.factorial(a[0]) if isinstance(a[0], int) else P._bail('factorial'))
    nat(m, 'gcd', lambda I, a, k: math.gcd(*a) if all(isinstance(x, int) for x in a) else P._bail('gcd'))

    def modf(I, a, k):
        x = P.b_float(I, None, [a[0]], {})
        w = Sc(T.fn('trunc', x.t), 'pf') if x.t.op != 'num' else Sc(T.num(int(x.t.args[0])), 'pf')
        return (I.binop('Sub', x, w), w)
    nat(m, 'modf', modf)
    I.extmods['math'] = m

    # operator
    m = Mod('operator')
    for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('pow', 'Pow'), ('mod', 'Mod'),
                  ('floordiv', 'FloorDiv'), ('matmul', 'MatMult'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor')):
        nat(m, n, (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(op), static=True)
        nat(m, 'i' + n.rstrip('_'), (lambda op: lambda I, a, k: I.inplace(op, a[0], a[1]))(op), static=True)
    m.c['__mul__'], m.c['__add__'] = m.c['mul'], m.c['add']
    for n, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
        nat(m, n, (lambda op: lambda I, a, k: I.compare(op, a[0], a[1]))(op), static=True)
    nat(m, 'neg', lambda I, a, k: I.unary('USub', a[0]))
    nat(m, 'not_', lambda I, a, k: I.unary('Not', a[0]))
    nat(m, 'truth', lambda I, a, k: P.tb(I.truth(a[0])))
    nat(m, 'is_', lambda I, a, k: I.compare('Is', a[0], a[1]))
    nat(m, 'is_not', lambda I, a, k: I.compare('IsNot', a[0], a[1]))
    nat(m, 'contains', lambda I, a, k: I.compare('In', a[1], a[0]))
    nat(m, 'getitem', lambda I, a, k: I.getitem(a[0], a[1]))
    nat(m, 'setitem', lambda I, a, k: I.setitem(a[0], a[1], a[2]))

    def itemgetter(I, a, k):
        return Native('itemgetter()', lambda I, b_, kk: I.getitem(b_[0], a[0]) if len(a) == 1 else
                      tuple(I.getitem(b_[0], x) for x in a), static=True)
    nat(m, 'itemgetter', itemgetter)

    def dotted(I, o, n):
        for x in n.split('.'):
            o = I.getattr(o, x)
        return o

    def attrgetter(I, a, k):
        return Native('attrgetter()', lambda I, b_, kk: dotted(I, b_[0], a[0]) if len(a) == 1 else
                      tuple(dotted(I, b_[0], x) for x in a), static=True)
    nat(m, 'attrgetter', attrgetter)

    def methodcaller(I, a, k):
        return Native('methodcaller()', lambda I, b_, kk: I.call(I.getattr(b_[0], a[0]), list(a[1:]), k), static=True)
    nat(m, 'methodcaller', methodcaller)
    nat(m, 'index', lambda I, a, k: a[0])
    I.extmods['operator'] = m

    # itertools
    m = Mod('itertools')

    def chain(I, a, k):
        out = []
        for x in a:
            out.extend(I.iterate(x))
        return Lst(out, 'gen')

    def chain_from(I, a, k):
        its = I.iterate(a[0])
        out = []
        for it in its:
            if isinstance(it, Seg):
                raise Bail('chain over a run')
            out.extend(I.iterate(it))
        return Lst(out, 'gen')
    ch = nat(m, 'chain', chain, static=True)
    ch.c['from_iterable'] = Native('from_iterable', chain_from)

    def itrepeat(I, a, k):
        n = a[1] if len(a) > 1 else k.get('times', None)
        if n is None:
            return Lst([Seg(T.dim('inf'), T.fresh_idx('r'), a[0])], 'gen')
        if isinstance(n, int):
            return Lst([a[0]] * n, 'gen')
        return Lst([Seg(term_of(n), T.fresh_idx('r'), a[0])], 'gen')
    nat(m, 'repeat', itrepeat)

    def itcount(I, a, k):
        st = a[0] if a else k.get('start', 0)
        step = a[1] if len(a) > 1 else k.get('step', 1)
        ix = T.fresh_idx('c')
        return Lst([Seg(T.dim('inf'), ix, I.binop('Add', st, I.binop('Mult', Sc(ix, 'pi'), step)))], 'gen')
    nat(m, 'count', itcount)

    def starmap(I, a, k):
        rows = I.iterate(a[1])
        return Lst(P.comp_items(I, rows, lambda v: I.call(a[0], I.iterate(v))), 'gen')
    nat(m, 'starmap', starmap)

    def islice(I, a, k):
        v = Lst(I.iterate(a[0]))
        if len(a) == 2:
            s = SliceV(None, a[1], None)
        else:
            s = SliceV(a[1], a[2], a[3] if len(a) > 3 else None)
        return Lst(I.getitem(v, s).items, 'gen')
    nat(m, 'islice', islice)

    def product(I, a, k):
        its = [I.iterate(x) for x in a] * k.get('repeat', 1)
        if any(isinstance(y, Seg) for x in its for y in x):
            raise Bail('product over a run')
        import itertools
        return Lst([tuple(x) for x in itertools.product(*its)], 'gen')
    nat(m, 'product', product)

    def combos(name):
        def f(I, a, k):
            its = I.iterate(a[0])
            if any(isinstance(y, Seg) for y in its):
                raise Bail(name + ' over a run')
            import itertools
            return Lst([tuple(x) for x in getattr(itertools, name)(its, *a[1:])], 'gen')
        nat(m, name, f)
    for n in ('combinations', 'permutations', 'pairwise'):
        combos(n)
    nat(m, 'compress', lambda I, a, k: P.b_map(I, [Native('f', lambda I, x, k: x[0][0]), P.b_filter(
        I, [Native('g', lambda I, x, k: x[0][1]), P.b_zip(I, [a[0], a[1]], {})], {})], {}))

    def accumulate(I, a, k):
        its = I.iterate(a[0])
        f = a[1] if len(a) > 1 else k.get('func')
        out = []
        acc = k.get('initial')
        if any(isinstance(y, Seg) for y in its):
            raise Bail('accumulate over a run')
        if acc is not None:
            out.append(acc)
        for x in its:
            acc = x if acc is None else (I.call(f, [acc, x]) if f is not None else I.binop('Add', acc, x))
            out.append(acc)
        return Lst(out, 'gen')
    nat(m, 'accumulate', accumulate)

    def zip_longest(I, a, k):
        ls = [I.iterate(x) for x in a]
        if any(isinstance(y, Seg) for x in ls for y in x):
            return P.b_zip(I, a, {'strict': True})
        import itertools
        return Lst(list(itertools.zip_longest(*ls, fillvalue=k.get('fillvalue'))), 'gen')
    nat(m, 'zip_longest', zip_longest)
    nat(m, 'tee', lambda I, a, k: (lambda its: tuple(Lst(its, 'gen') for _ in range(a[1] if len(a) > 1 else 2)))(I.iterate(a[0])))
    m.dyn = lambda I, n: P._bail('itertools.' + n)
    I.extmods['itertools'] = m

    # abc
    m = Mod('abc')
    meta = Cls('ABCMeta', (b['type'],))
    m.c['ABCMeta'] = meta
    abc = Cls('ABC', (b['object'],))
    abc.flags['abc'] = True
    abc.flags['new'] = lambda I, cls, a, k: Inst(cls)
    m.c['ABC'] = abc

    def absm(I, a, k):
        f = a[0]
        if isinstance(f, (Fn, Native)):
            I.assign(f.c, '__isabstractmethod__', True)
        elif isinstance(f, Prop) and isinstance(f.fget, Fn):
            I.assign(f.fget.c, '__isabstractmethod__', True)
        elif isinstance(f, (Static, ClsMethod)) and isinstance(f.f, Fn):
            I.assign(f.f.c, '__isabstractmethod__', True)
        return f
    nat(m, 'abstractmethod', absm)

    def absp(I, a, k):
        absm(I, a, k)
        return Prop(a[0], None)
    nat(m, 'abstractproperty', absp)
    nat(m, 'abstractclassmethod', lambda I, a, k: ClsMethod(absm(I, a, k)))
    nat(m, 'abstractstaticmethod', lambda I, a, k: Static(absm(I, a, k)))
    I.extmods['abc'] = m

    # typing
    m = Mod('typing')
    nat(m, 'cast', lambda I, a, k: a[1])
    for n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override'):
        m.c[n] = ident
    nat(m, 'NewType', lambda I, a, k: Native('newtype', lambda I, x, k: x[0]))
    nat(m, 'TypeVar', lambda I, a, k: Ext('TypeVar'))
    m.c['TYPE_CHECKING'] = False
    gen = native_class(I, 'Generic')
    m.c['Generic'] = gen
    pr = native_class(I, 'Protocol')
    m.c['Protocol'] = pr
    nt = Cls('NamedTuple', (b['object'],))
    nt.flags['namedtuple'] = True
    nt.flags['new'] = lambda I, cls, a, k: make_tuple_inst(I, cls, a, k)
    m.c['NamedTuple'] = nt
    m.dyn = lambda I, n: Ext('typing.' + n)
    I.extmods['typing'] = m
    I.extmods['typing_extensions'] = m
    I.extmods['types'] = Mod('types')
    sn = native_class(I, 'SimpleNamespace')

    def sn_new(I, cls, a, k):
        o = Inst(cls)
        o.c.update(k)
        return o
    sn.flags['new'] = sn_new
    I.extmods['types'].c['SimpleNamespace'] = sn
    I.extmods['types'].c['MappingProxyType'] = Native('MappingProxyType', lambda I, a, k: a[0])

    # collections
    m = Mod('collections')

    def od(I, cls, a, k):
        d = P.b_dict(I, cls, a, k)
        return d
    m.c['OrderedDict'] = b['$OrderedDict']
    b['$OrderedDict'].flags['new'] = od

    def dd(I, cls, a, k):
        d = P.b_dict(I, cls, a[1:], k)
        d.kind = 'defaultdict'
        d.default = a[0] if a else None
        return d
    m.c['defaultdict'] = b['$defaultdict']
    b['$defaultdict'].flags['new'] = dd
    b['$Counter'].flags['new'] = lambda I, cls, a, k: P._bail('Counter')
    m.c['Counter'] = b['$Counter']
    nat(m, 'deque', lambda I, a, k: Lst(I.iterate(a[0]) if a else ()))

    def namedtuple(I, a, k):
        fields = I.force(a[1])
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        else:
            fields = I.iterate(fields)
        c = Cls(a[0], (nt,))
        c.c['$ann'] = list(fields)
        df = I.iterate(k['defaults']) if k.get('defaults') is not None else []
        for n, v in zip(fields[len(fields) - len(df):], df):
            c.c[n] = v
        c.flags['new'] = lambda I, cls, a, k: make_tuple_inst(I, cls, a, k)
        return c
    nat(m, 'namedtuple', namedtuple)
    nat(m, 'ChainMap', lambda I, a, k: P._bail('ChainMap'))
    I.extmods['collections'] = m
    ca = Mod('collections.abc')

    def isa(pred):
        return lambda I, v: pred(I, v)
    seqish = lambda I, v: isinstance(v, (tuple, Tup, str, Str)) or (isinstance(v, Lst) and v.kind == 'list')
    iterable = lambda I, v: isinstance(v, (tuple, Tup, Lst, Dct, SetV, str, Str, Arr)) or \
        (isinstance(v, Inst) and v.cls.lookup('__iter__')[0] is not None) or \
        (isinstance(v, Host) and v.get(I, '__iter__') is not MISSING) or \
        (isinstance(v, Cls) and 'enum_members' in v.flags)
    for n, pred in (('Sequence', seqish), ('Iterable', iterable), ('Collection', iterable), ('Sized', iterable),
                    ('Container', iterable),
                    ('MutableSequence', lambda I, v: isinstance(v, Lst) and v.kind == 'list'),
                    ('Mapping', lambda I, v: isinstance(v, Dct)), ('MutableMapping', lambda I, v: isinstance(v, Dct)),
                    ('Callable', lambda I, v: P.b_callable(I, [v], {})),
                    ('Iterator', lambda I, v: isinstance(v, Lst) and v.kind != 'list'),
                    ('Generator', lambda I, v: isinstance(v, Lst) and v.kind != 'list'),
                    ('Hashable', lambda I, v: not isinstance(v, (Lst, Dct, SetV, Arr))),
                    ('Set', lambda I, v: isinstance(v, SetV))):
        c = native_class(I, n)
        c.flags['instancecheck'] = pred
        ca.c[n] = c
    m.c['abc'] = ca
    ca.dyn = lambda I, n: Ext('collections.abc.' + n)
    I.extmods['collections.abc'] = ca
    tm = I.extmods['typing']
    for n in ('Sequence', 'Iterable', 'Mapping', 'MutableMapping', 'Callable', 'Iterator', 'Collection', 'Hashable', 'Sized'):
        tm.c[n] = ca.c[n]
    # numbers
    m = Mod('numbers')
    num_ = lambda I, v: isinstance(v, (int, Sc))
    for n, pred in (('Number', num_), ('Real', num_), ('Complex', num_),
                    ('Integral', lambda I, v: isinstance(v, int) or (isinstance(v, Sc) and v.dt in ('pi', 'pb', 'i')))):
        c = native_class(I, n)
        c.flags['instancecheck'] = pred
        m.c[n] = c
    I.extmods['numbers'] = m

    # enum
    m = Mod('enum')
    en = Cls('Enum', (b['object'],))
    en.flags['enum'] = True
    en.flags['getattr'] = lambda I, o, n: MISSING
    m.c['Enum'] = en
    for n in ('IntEnum', 'StrEnum', 'Flag', 'IntFlag'):
        k = Cls(n, (en,))
        k.flags['enum'] = True
        m.c[n] = k
    auto = Cls('$auto', (b['object'],))
    auto.flags['new'] = lambda I, cls, a, k: Inst(cls)
    m.c['auto'] = auto
    m.c['unique'] = ident
    I.extmods['enum'] = m

    # contextlib
    m = Mod('contextlib')
    sup = native_class(I, 'suppress')

    def sup_new(I, cls, a, k):
        o = Inst(cls)
        o.suppress = [I.force(x) for x in a]
        return o
    sup.flags['new'] = sup_new
    sup.c['__enter__'] = Native('enter', lambda I, a, k: None)

    def sup_exit(I, a, k):
        if a[1] is None:
            return False
        return any(a[1].issub(c) for c in a[0].suppress if isinstance(c, Cls))
    sup.c['__exit__'] = Native('exit', sup_exit)
    m.c['suppress'] = sup
    nc = native_class(I, 'nullcontext')

    def nc_new(I, cls, a, k):
        return Inst(cls, v=a[0] if a else None)
    nc.flags['new'] = nc_new
    nc.c['__enter__'] = Native('enter', lambda I, a, k: a[0].c['v'])
    nc.c['__exit__'] = Native('exit', lambda I, a, k: None)
    m.c['nullcontext'] = nc
    nat(m, 'contextmanager', lambda I, a, k: P._bail('generator context manager'))
    m.c['ContextDecorator'] = native_class(I, 'ContextDecorator')
    for n in ('redirect_stdout', 'redirect_stderr'):
        m.c[n] = nc
    cl = native_class(I, 'closing')
    cl.flags['new'] = nc_new
    cl.c['__enter__'] = nc.c['__enter__']
    cl.c['__exit__'] = nc.c['__exit__']
    m.c['closing'] = cl
    I.extmods['contextlib'] = m

    # copy
    m = Mod('copy')

    def deep(I, v, memo_=None):
        v = I.force(v)
        if isinstance(v, Arr):
            return NP.copy_of(I, v)
        if isinstance(v, Lst):
            return Lst([Seg(x.dim, x.ix, deep(I, x.val), x.cond) if isinstance(x, Seg) else deep(I, x) for x in v.items], v.kind)
        if isinstance(v, tuple):
            return tuple(deep(I, x) for x in v)
        if isinstance(v, Dct):
            d = Dct(kind=v.kind)
            d.default = v.default
            for k, x in v.c.items():
                d.c[k] = deep(I, x)
            return d
        if isinstance(v, Inst) and v.cls.node is not None:
            o = Inst(v.cls)
            for k, x in v.c.items():
                o.c[k] = deep(I, x)
            return o
        return twin(v)

    def twin(v):
        # a copy of an object of the caller's is another object
        if isinstance(v, Host) and v.twin is not None:
            return v.twin()
        return v

    def shallow(I, v):
        v = I.force(v)
        if isinstance(v, Arr):
            return NP.copy_of(I, v)
        if isinstance(v, Lst):
            return Lst(v.items, v.kind)
        if isinstance(v, Dct):
            return P.dct_copy(I, v)
        if isinstance(v, Inst):
            d, _ = v.cls.lookup('__copy__')
            if d is not None:
                return I.call(Bound(d, v), [])
            o = Inst(v.cls)
            o.c.update(v.c)
            return o
        return twin(v)
    nat(m, 'copy', lambda I, a, k: shallow(I, a[0]))
    nat(m, 'deepcopy', lambda I, a, k: deep(I, a[0]))
    I.extmods['copy'] = m

    # warnings, logging, sys, time
    m = Mod('warnings')

    def warn(I, a, k):
        I.event('warn', args=a)
    for n in ('warn', 'simplefilter', 'filterwarnings', 'resetwarnings', 'warn_explicit'):
        nat(m, n, warn)
    cw = native_class(I, 'catch_warnings')
    cw.c['__init__'] = Native('init', lambda I, a, k: None)
    cw.c['__enter__'] = Native('enter', lambda I, a, k: Lst())
    cw.c['__exit__'] = Native('exit', lambda I, a, k: None)
    m.c['catch_warnings'] = cw
    m.c['deprecated'] = Native('deprecated', lambda I, a, k: ident)
    I.extmods['warnings'] = m

    m = Mod('logging')
    lg = Host('Logger', lambda I, n: Native('log.' + n, lambda I, a, k: I.event('log', args=a) and None)
              if n != 'level' else 30)
    nat(m, 'getLogger', lambda I, a, k: lg)
    for n in ('basicConfig', 'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'captureWarnings'):
        nat(m, n, lambda I, a, k: I.event('log', args=a) and None)
    m.c.update(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
    m.c['NullHandler'] = Native('NullHandler', lambda I, a, k: Ext('handler'))
    m.dyn = lambda I, n: Ext('logging.' + n)
    I.extmods['logging'] = m

    m = Mod('sys')
    m.c['argv'] = Lst(['occuprob'])
    m.c['platform'] = 'linux'
    m.c['maxsize'] = 2 ** 63 - 1
    m.c['byteorder'] = 'little'
    m.c['version_info'] = (3, 12, 3, 'final', 0)
    m.c['version'] = '3.12.3'
    m.c['executable'] = '/usr/bin/python3'
    m.c['path'] = Lst([])
    md = Dct()
    m.c['modules'] = Ext('sys.modules')
    nat(m, 'exit', lambda I, a, k: I.throw('SystemExit', a[0] if a else 0))

    def exc_info(I, a, k):
        e = I.handling[-1] if I.handling else None
        return (e.cls if e else None, e, None)
    nat(m, 'exc_info', exc_info)
    nat(m, 'getrecursionlimit', lambda I, a, k: 1000)
    so = Host('stream', lambda I, n: Native('stream.' + n, lambda I, a, k: I.event('print', args=a, kw=k) and None))
    m.c['stdout'] = m.c['stderr'] = m.c['stdin'] = so
    m.c['float_info'] = Ext('sys.float_info')
    m.dyn = lambda I, n: Ext('sys.' + n)
    I.extmods['sys'] = m
    m = Mod('errno')
    m.c.update(ENOENT=2, EACCES=13, EEXIST=17, EPERM=1)
    I.extmods['errno'] = m

    # regular expressions
    m = Mod('re')

    def refn(name):
        def f(I, a, k):
            a = [I.force(x) for x in a]
            if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in k.values()):
                r = getattr(_re, name)(*a, **k)
                return remod(I, r)
            s = a[2] if name == 'sub' else a[1]
            if isinstance(s, Str):
                if name in ('sub',):
                    return opaque('re.sub', repr(a[:2]), s.parts)
                if name in ('search', 'match', 'fullmatch'):
                    return Choice([(P.opaque_bool('re', name, repr(a[0]), s.parts), omatch(I, a[0], s)), (T.TRUE, None)])
                return Ext('re.%s()' % name)
            if s is None or isinstance(s, (int, Sc, Lst)):
                I.throw('TypeError', 'expected string or bytes-like object')
            return Ext('re.%s()' % name)
        nat(m, name, f)

    def omatch(I, p, s):
        def get(I, n):
            if n == 'group':
                return Native('group', lambda I, a, k: opaque('re.group', repr(p), s.parts, repr(a)))
            if n == 'groups':
                return Native('groups', lambda I, a, k: P._bail('groups'))
            if n in ('start', 'end'):
                return Native(n, lambda I, a, k: Sc(T.sym('re.%s:%r' % (n, (p, s.parts))), 'pi'))
            return MISSING
        return Host('match', get)

    def remod(I, r):
        if isinstance(r, list):
            return Lst(r)
        if isinstance(r, (str, type(None), tuple)):
            return r

        def get(I, n):
            if n in ('group', 'groups', 'start', 'end', 'span'):
                return Native(n, lambda I, a, k: getattr(r, n)(*a))
            return MISSING
        return Host('match', get)
    for n in ('search', 'match', 'fullmatch', 'sub', 'split', 'findall', 'escape'):
        refn(n)

    def compile_(I, a, k):
        p = a[0]

        def get(I, n):
            if n in m.c:
                return Native('pattern.' + n, lambda I, b_, kk: I.call(m.c[n], [p] + list(b_), kk))
            return MISSING
        return Host('pattern', get)
    nat(m, 'compile', compile_)
    m.c.update(IGNORECASE=2, I=2, MULTILINE=8, VERBOSE=64)
    I.extmods['re'] = m

    # dataclasses
    m = Mod('dataclasses')
    fcls = native_class(I, '$field')

    def field(I, a, k):
        o = Inst(fcls)
        o.c['kw'] = dict(k)
        return o
    nat(m, 'field', field)

    def dataclass(I, a, k):
        def deco(cls):
            ann = []
            for kls in reversed(cls.mro()):
                for n in kls.c.get('$ann', ()):
                    if n not in ann:
                        ann.append(n)
            cls.flags['fields'] = ann
            if k.get('frozen') is True:
                cls.flags['frozen'] = True
            defaults = {}
            for n in ann:
                v, _ = cls.lookup(n)
                if _ is not None:
                    defaults[n] = v
                    if isinstance(v, Inst) and v.cls is fcls:
                        if 'default' in v.c['kw']:
                            I.assign(cls.c, n, v.c['kw']['default'])
                    elif isinstance(v, (Lst, Dct, SetV)):
                        I.throw('ValueError', 'mutable default for field is not allowed')

            def init(I, a2, k2):
                o = a2[0]
                pos = list(a2[1:])
                kw = dict(k2)
                for n in ann:
                    d = defaults.get(n, MISSING)
                    fk = d.c['kw'] if isinstance(d, Inst) and d.cls is fcls else {}
                    if fk.get('init') is not False and pos:
                        v = pos.pop(0)
                        if n in kw:
                            I.throw('TypeError', 'multiple values')
                    elif n in kw:
                        v = kw.pop(n)
                    elif isinstance(d, Inst) and d.cls is fcls:
                        if 'default' in fk:
                            v = fk['default']
                        elif 'default_factory' in fk:
                            v = I.call(fk['default_factory'], [])
                        else:
                            I.throw('TypeError', 'missing argument ' + n)
                    elif d is not MISSING:
                        v = d
                    else:
                        I.throw('TypeError', 'missing argument ' + n)
                    I.assign(o.c, n, v)
                if pos or kw:
                    I.throw('TypeError', 'unexpected arguments')
                pi, _ = o.cls.lookup('__post_init__')
                if pi is not None:
                    I.call(Bound(pi, o), [])
            if k.get('init') is not False and '__init__' not in cls.c:
                I.assign(cls.c, '__init__', Native('dataclass.__init__', init))
            return cls
        if a and isinstance(a[0], Cls):
            return deco(a[0])
        return Native('dataclass()', lambda I, b_, kk: deco(b_[0]))
    nat(m, 'dataclass', dataclass)

    def asdict(I, a, k):
        d = Dct()
        for n in a[0].cls.flags.get('fields', ()):
            d.c[n] = a[0].c[n]
        return d
    nat(m, 'asdict', asdict)
    nat(m, 'replace', lambda I, a, k: P._bail('dataclasses.replace'))
    nat(m, 'fields', lambda I, a, k: P._bail('dataclasses.fields'))
    I.extmods['dataclasses'] = m

    # csv
    m = Mod('csv')

    def writer(I, a, k):
        f = a[0]

        def get(I, n):
            if n in ('writerow', 'writerows'):
                return Native(n, lambda I, a, k: I.event('fwrite', path=f.c.get('path_') if isinstance(f, Inst) else None,
                                                         data=a[0]) and None)
            return MISSING
        return Host('writer', get)
    nat(m, 'writer', writer)
    m.dyn = lambda I, n: Ext('csv.' + n)
    I.extmods['csv'] = m
    for n in ('time', 'datetime', 'json', 'textwrap', 'shutil', 'tempfile', 'string', 'inspect', 'traceback', 'threading',
              'multiprocessing', 'importlib', 'platform', 'random', 'struct', 'pickle', 'io', 'weakref', 'gc'):
        m = Mod(n)
        m.dyn = (lambda n: lambda I, x: Ext(n + '.' + x))(n)
        I.extmods[n] = m
    # scipy
    m = Mod('scipy')
    m.dyn = lambda I, n: I.load('scipy.' + n) if 'scipy.' + n in I.extmods else Ext('scipy.' + n)
    I.extmods['scipy'] = m
    sp = Mod('scipy.special')

    def lse(I, a, k):
        raise Bail('logsumexp')
    nat(sp, 'logsumexp', lse)

    def softmax(I, a, k):
        x = NP.operand(I, a[0])
        ax = a[1] if len(a) > 1 else k.get('axis')
        e = NP._ufunc(I, 'exp', [x])
        return I.binop('Div', e, NP.reduce(I, 'sum', e, ax, True))
    nat(sp, 'softmax', softmax)
    sp.dyn = lambda I, n: P._bail('scipy.special.' + n)
    I.extmods['scipy.special'] = sp
    sc = Mod('scipy.constants')

    def const(v):
        return Sc(T.num(v), 'pf')
    sc.c.update(k=const(1.380649e-23), Boltzmann=const(1.380649e-23), h=const(6.62607015e-34), Planck=const(6.62607015e-34),
                e=const(1.602176634e-19), elementary_charge=const(1.602176634e-19), eV=const(1.602176634e-19),
                tera=const(1e12), pi=Sc(T.sym('pi'), 'pf'))
    I.extmods['scipy.constants'] = sc


def same_args(I, a, b):
    def eq(x, y):
        if x is y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        if isinstance(x, (int, str)) and type(x) is type(y):
            return x == y
        if isinstance(x, Sc) and isinstance(y, Sc):
            return x.t is y.t
        return False
    return eq(a, b)


def make_tuple_inst(I, cls, a, k):
    fields = []
    for kls in reversed(cls.mro()):
        for n in kls.c.get('$ann', ()):
            if n not in fields:
                fields.append(n)
    o = Inst(cls)
    pos = list(a)
    vals = []
    for n in fields:
        if pos:
            v = pos.pop(0)
        elif n in k:
            v = k[n]
        else:
            v, kk = cls.lookup(n)
            if kk is None:
                I.throw('TypeError', 'missing argument ' + n)
        vals.append(v)
        o.c[n] = v
    if pos or any(n not in fields for n in k):
        I.throw('TypeError', 'unexpected arguments')
    t = tuple(vals)
    cls.c.setdefault('__iter__', Native('iter', lambda I, a, k: tuple(a[0].c[n] for n in fields)))
    cls.c.setdefault('__getitem__', Native('getitem', lambda I, a, k: I.getitem(tuple(a[0].c[n] for n in fields), a[1])))
    cls.c.setdefault('__len__', Native('len', lambda I, a, k: len(fields)))
    if '_asdict' not in cls.c:
        def asd(I, a, k):
            d = Dct()
            for n in fields:
                d.c[n] = a[0].c[n]
            return d
        cls.c['_asdict'] = Native('_asdict', asd)
        cls.c['_fields'] = tuple(fields)

        def rep(I, a, k):
            o = Inst(cls)
            o.c.update(a[0].c)
            o.c.update(k)
            return o
        cls.c['_replace'] = Native('_replace', rep)
    return o


# ---------------------------------------------------------------- argparse
def install_argparse(I):
    b = I.builtins
    m = Mod('argparse')
    ns = native_class(I, 'Namespace')

    def ns_new(I, cls, a, k):
        o = Inst(cls)
        o.c.update(k)
        return o
    ns.flags['new'] = ns_new
    m.c['Namespace'] = ns
    ns.c['__contains__'] = Native('contains', lambda I, a, k: a[1] in a[0].c)
    for n in ('HelpFormatter', 'RawDescriptionHelpFormatter', 'ArgumentDefaultsHelpFormatter', 'RawTextHelpFormatter',
              'MetavarTypeHelpFormatter'):
        m.c[n] = native_class(I, n)
    for n, base in (('ArgumentTypeError', 'Exception'), ('ArgumentError', 'Exception')):
        c = Cls(n, (b[base],))
        c.flags = dict(b[base].flags)
        m.c[n] = c
    m.c['SUPPRESS'] = '==SUPPRESS=='
    m.c['REMAINDER'] = '...'
    m.c['OPTIONAL'], m.c['ZERO_OR_MORE'], m.c['ONE_OR_MORE'] = '?', '*', '+'
    bo = native_class(I, 'BooleanOptionalAction')
    m.c['BooleanOptionalAction'] = bo
    act = native_class(I, 'Action')
    m.c['Action'] = act
    m.c['FileType'] = Native('FileType', lambda I, a, k: P._bail('FileType'))
    par = Cls('ArgumentParser', (b['object'],))
    m.c['ArgumentParser'] = par

    def new(I, cls, a, k):
        return Inst(cls)
    par.flags['new'] = new
    NAMES = ['prog', 'usage', 'description', 'epilog', 'parents', 'formatter_class', 'prefix_chars', 'fromfile_prefix_chars',
             'argument_default', 'conflict_handler', 'add_help', 'allow_abbrev', 'exit_on_error']

    def init(I, a, k):
        o = a[0]
        d = bind_args(I, 'ArgumentParser', NAMES, a[1:], k)
        if d.get('prefix_chars', '-') != '-':
            raise Bail('argparse prefix_chars')
        acts = ()
        for p in I.iterate(d.get('parents') or ()):
            acts += p.c['$actions']
        I.assign(o.c, '$actions', acts)
        I.assign(o.c, '$cfg', d)
        I.assign(o.c, '$defaults', ())
        if d.get('add_help', True) is True:
            h = Inst(act)
            h.c.update(opts=('-h', '--help'), kind='help', dest='help', nargs=0, group=None, parser=o, kw={})
            I.assign(o.c, '$actions', acts + (h,))
        return None
    par.c['__init__'] = Native('ArgumentParser.__init__', init)
    par.flags['init'] = par.c['__init__']

    AK = ['action', 'nargs', 'const', 'default', 'type', 'choices', 'required', 'help', 'metavar', 'dest', 'version', 'deprecated']

    def add_argument(I, o, group, a, k):
        for n in k:
            if n not in AK:
                I.throw('TypeError', 'add_argument() got an unexpected keyword argument %r' % n)
        k = {n: I.force(v) for n, v in k.items()}
        names = [I.force(x) for x in a]
        if not all(isinstance(x, str) for x in names):
            raise Bail('argparse names')
        A = Inst(act)
        kind = k.get('action', 'store')
        if isinstance(kind, Cls):
            if kind is bo:
                kind = 'boolopt'
            else:
                raise Bail('custom argparse action')
        if kind not in ('store', 'store_true', 'store_false', 'store_const', 'append', 'append_const', 'count', 'version',
                        'help', 'extend', 'boolopt'):
            I.throw('ValueError', 'unknown action %r' % (kind,))
        opts = tuple(x for x in names if x.startswith('-'))
        if opts and len(opts) != len(names):
            I.throw('ValueError', 'invalid option string')
        if kind == 'boolopt':
            opts = opts + tuple('--no-' + x[2:] for x in opts if x.startswith('--'))
        if opts:
            dest = k.get('dest')
            if dest is None:
                longs = [x for x in opts if x.startswith('--')]
                dest = (longs[0] if longs else opts[0]).lstrip('-').replace('-', '_')
                if not dest:
                    I.throw('ValueError', 'dest= is required')
        else:
            if 'dest' in k and names:
                I.throw('TypeError', 'dest supplied twice for positional argument')
            if 'required' in k:
                I.throw('TypeError', "'required' is an invalid argument for positionals")
            dest = names[0] if names else k.get('dest')
            if group is not None and k.get('nargs') not in ('?', '*'):
                I.throw('ValueError', 'mutually exclusive arguments must be optional')
        flag = kind in ('store_true', 'store_false', 'store_const', 'append_const', 'count', 'version', 'help', 'boolopt')
        if kind in ('store_true', 'store_false'):
            for n in ('type', 'nargs', 'const', 'choices', 'metavar'):
                if n in k:
                    I.throw('TypeError', '%s action got an unexpected keyword argument %r' % (kind, n))
        if 'default' in k:
            default = k['default']
        elif o.c['$cfg'].get('argument_default') is not None and kind not in ('version', 'help'):
            default = o.c['$cfg']['argument_default']
        else:
            default = {'store_true': False, 'store_false': True}.get(kind)
        nargs = 0 if flag else k.get('nargs')
        conflict = {x for p in o.c['$actions'] for x in p.c['opts']}
        for x in opts:
            if x in conflict:
                I.throw(m.c['ArgumentError'], 'conflicting option string: ' + x)
        A.c.update(opts=opts, kind=kind, dest=dest, nargs=nargs, group=group, kw=k, default=default, type=k.get('type'),
                   const=k.get('const'), choices=k.get('choices'), required=k.get('required', False), name=dest, parser=o)
        I.assign(o.c, '$actions', o.c['$actions'] + (A,))
        I.event('add_argument', opts=opts, dest=dest, kw=k, group=group)
        return A
    par.c['add_argument'] = Native('add_argument', lambda I, a, k: add_argument(I, a[0], None, a[1:], k))
    grp = native_class(I, '_ArgumentGroup')
    mex = native_class(I, '_MutuallyExclusiveGroup')

    def add_group(I, a, k):
        g = Inst(grp)
        g.c['parser'] = a[0] if a[0].cls.issub(par) else a[0].c['parser']
        g.c['ex'] = None
        return g

    def add_mex(I, a, k):
        g = Inst(mex)
        g.c['parser'] = a[0] if a[0].cls.issub(par) else a[0].c['parser']
        g.c['required'] = k.get('required', False)
        g.c['ex'] = g
        return g
    for c in (par, grp):
        c.c['add_argument_group'] = Native('add_argument_group', add_group)
        c.c['add_mutually_exclusive_group'] = Native('add_mutually_exclusive_group', add_mex)
    for c in (grp, mex):
        c.c['add_argument'] = Native('add_argument', lambda I, a, k: add_argument(I, a[0].c['parser'], a[0].c['ex'], a[1:], k))
    par.c['add_subparsers'] = Native('add_subparsers', lambda I, a, k: P._bail('subparsers'))

    def set_defaults(I, a, k):
        I.assign(a[0].c, '$defaults', a[0].c['$defaults'] + tuple(k.items()))
        for A in a[0].c['$actions']:
            if A.c['dest'] in k:
                I.assign(A.c, 'default', k[A.c['dest']])
    par.c['set_defaults'] = Native('set_defaults', set_defaults)

    def error(I, a, k):
        I.event('cli_error', msg=a[1] if len(a) > 1 else k.get('message'))
        I.throw('SystemExit', 2)
    par.c['error'] = Native('error', error)
    par.c['exit'] = Native('exit', lambda I, a, k: I.throw('SystemExit', a[1] if len(a) > 1 else k.get('status', 0)))
    for n in ('print_help', 'print_usage'):
        par.c[n] = Native(n, lambda I, a, k: I.event('print', args=['usage'], kw={}) and None)
    for n in ('format_help', 'format_usage'):
        par.c[n] = Native(n, lambda I, a, k: opaque('usage'))
    par.c['register'] = Native('register', lambda I, a, k: None)

    def fail(I, msg):
        I.event('cli_error', msg=msg)
        I.throw('SystemExit', 2)

    def convert(I, A, tok):
        ty = A.c.get('type')
        if ty is None:
            v = tok
        elif isinstance(ty, (str, Str)):
            I.throw('ValueError', 'type is not callable')
        else:
            try:
                v = I.call(ty, [tok])
            except PyRaise as e:
                if e.exc.cls.name in ('ArgumentTypeError', 'TypeError', 'ValueError') or \
                        any(c.name in ('ArgumentTypeError', 'TypeError', 'ValueError') for c in e.exc.cls.mro()):
                    fail(I, 'invalid value')
                raise
        ch = A.c.get('choices')
        if ch is not None:
            r = P.contains(I, v, ch)
            if r is False:
                fail(I, 'invalid choice')
            if r is not True:
                I.pend(T.not_(r), I.exc('SystemExit', 2))
        return v

    def is_opt(tok):
        return isinstance(tok, str) and tok.startswith('-') and len(tok) > 1

    def parse(I, o, toks, known=False):
        acts = o.c['$actions']
        chars = o.c['$cfg'].get('fromfile_prefix_chars')
        if isinstance(chars, str) and any(isinstance(t, str) and t and t[0] in chars for t in toks):
            fail(I, 'arguments are read from another file')
        left = []
        table = {}
        for A in acts:
            for x in A.c['opts']:
                table[x] = A
        numlike = any(_re.match(r'^-\d+$|^-\d*\.\d+$', x) for x in table)
        vals = {}
        for A in acts:
            if A.c['kind'] in ('version', 'help'):
                continue
            if A.c.get('default') == '==SUPPRESS==':
                continue
            vals.setdefault(A.c['dest'], A.c.get('default'))
        for n, v in o.c['$defaults']:
            vals.setdefault(n, v)
        seen, nondefault = [], []
        positionals = [A for A in acts if not A.c['opts']]
        free = []
        i = 0

        def arglike(t):
            if not is_opt(t):
                return True
            return bool(_re.match(r'^-\d+$|^-\d*\.\d+$', t)) and not numlike

        def take(A, args, nd=True):
            if A not in seen:
                seen.append(A)
            if nd:
                for B in nondefault:
                    if B is not A and A.c['group'] is not None and B.c['group'] is A.c['group']:
                        fail(I, 'not allowed with argument')
                nondefault.append(A)
            kind = A.c['kind']
            if kind == 'store':
                vals[A.c['dest']] = args
            elif kind == 'store_true':
                vals[A.c['dest']] = True
            elif kind == 'store_false':
                vals[A.c['dest']] = False
            elif kind == 'store_const':
                vals[A.c['dest']] = A.c['const']
            elif kind in ('append', 'append_const', 'extend'):
                cur = vals.get(A.c['dest'])
                base = list(cur.items) if isinstance(cur, Lst) else []
                new = [A.c['const']] if kind == 'append_const' else list(args.items) if kind == 'extend' else [args]
                vals[A.c['dest']] = Lst(base + new)
            elif kind == 'count':
                vals[A.c['dest']] = (vals.get(A.c['dest']) or 0) + 1
            elif kind == 'version':
                I.event('version', text=A.c['kw'].get('version'))
                I.throw('SystemExit', 0)
            elif kind == 'help':
                I.throw('SystemExit', 0)

        rest_only = False
        while i < len(toks):
            t = toks[i]
            i += 1
            if t == '--' and not rest_only:
                rest_only = True
                continue
            if rest_only or arglike(t):
                free.append(t)
                continue
            explicit = None
            A = table.get(t)
            if A is None and '=' in t and t.split('=', 1)[0] in table:
                t, explicit = t.split('=', 1)
                A = table[t]
            if A is None and t.startswith('--') and o.c['$cfg'].get('allow_abbrev', True) is True:
                base, eq, val = t.partition('=')
                hits = {id(table[x]): table[x] for x in table if x.startswith(base)}
                if len(hits) == 1:
                    A = list(hits.values())[0]
                    explicit = val if eq else None
                elif len(hits) > 1:
                    fail(I, 'ambiguous option')
            if A is None and not t.startswith('--') and t[:2] in table:
                A = table[t[:2]]
                if A.c['nargs'] == 0:
                    toks = list(toks)
                    toks.insert(i, '-' + t[2:])
                    t = t[:2]
                else:
                    explicit = t[2:]
                    t = t[:2]
            if A is None:
                if known:
                    left.append(t)
                    continue
                fail(I, 'unrecognized arguments: ' + t)
            n = A.c['nargs']
            if A.c['kind'] == 'boolopt':
                if A not in seen:
                    seen.append(A)
                vals[A.c['dest']] = not t.startswith('--no-')
                continue
            if n == 0:
                if explicit is not None:
                    fail(I, 'ignored explicit argument')
                take(A, None)
                continue
            avail = []
            if explicit is not None:
                avail = [explicit]
            else:
                j = i
                while j < len(toks) and arglike(toks[j]) and toks[j] != '--':
                    avail.append(toks[j])
                    j += 1
            if n is None:
                if not avail:
                    fail(I, 'expected one argument')
                if explicit is None:
                    i += 1
                take(A, convert(I, A, avail[0]))
            elif isinstance(n, int):
                if len(avail) < n:
                    fail(I, 'expected %d arguments' % n)
                if explicit is None:
                    i += n
                take(A, Lst([convert(I, A, x) for x in avail[:n]]))
            elif n == '?':
                if avail:
                    if explicit is None:
                        i += 1
                    take(A, convert(I, A, avail[0]))
                else:
                    c = A.c['const']
                    take(A, convert(I, A, c) if isinstance(c, str) else c)
            elif n in ('*', '+'):
                if n == '+' and not avail:
                    fail(I, 'expected at least one argument')
                if explicit is None:
                    i += len(avail)
                take(A, Lst([convert(I, A, x) for x in avail]))
            else:
                raise Bail('nargs %r' % (n,))
        for j, A in enumerate(positionals):
            n = A.c['nargs']
            later = sum(1 if B.c['nargs'] is None else B.c['nargs'] if isinstance(B.c['nargs'], int) else
                        1 if B.c['nargs'] == '+' else 0 for B in positionals[j + 1:])
            if n is None:
                if not free:
                    fail(I, 'the following arguments are required')
                take(A, convert(I, A, free.pop(0)))
            elif isinstance(n, int):
                if len(free) < n:
                    fail(I, 'the following arguments are required')
                take(A, Lst([convert(I, A, free.pop(0)) for _ in range(n)]))
            elif n == '?':
                if len(free) > later:
                    take(A, convert(I, A, free.pop(0)))
                else:
                    d = A.c.get('default')
                    take(A, convert(I, A, d) if isinstance(d, str) else d, False)
            elif n in ('*', '+', '...'):
                c = max(0, len(free) - later)
                if n == '+' and not c:
                    fail(I, 'the following arguments are required')
                args = [convert(I, A, free.pop(0)) for _ in range(c)]
                if args or n == '+':
                    take(A, Lst(args))
                else:
                    d = A.c.get('default')
                    take(A, d if d is not None else Lst(), False)
            else:
                raise Bail('nargs %r' % (n,))
        if free and not known:
            fail(I, 'unrecognized arguments')
        for A in acts:
            if A.c['opts'] and A.c.get('required') is True and A not in seen:
                fail(I, 'the following arguments are required')
            if A not in seen and A.c['kind'] not in ('version', 'help') and isinstance(A.c.get('default'), str) and \
                    vals.get(A.c['dest']) is A.c.get('default') and A.c.get('type') is not None:
                vals[A.c['dest']] = convert(I, A, A.c['default'])
        groups = {id(A.c['group']): A.c['group'] for A in acts if A.c['group'] is not None}
        for g in groups.values():
            if g.c['required'] is True and not any(B.c['group'] is g for B in nondefault):
                fail(I, 'one of the arguments is required')
        r = Inst(ns)
        for n, v in vals.items():
            r.c[n] = v
        return (r, Lst(left + free)) if known else r

    def parse_args(I, a, k, known=False):
        d = bind_args(I, 'parse_args', ['args', 'namespace'], a[1:], k)
        if d.get('namespace') is not None:
            raise Bail('parse_args namespace')
        ar = d.get('args')
        if ar is None:
            ar = I.extmods['sys'].c['argv']
            toks = list(I.iterate(ar))[1:]
        else:
            toks = list(I.iterate(ar))
        if any(isinstance(x, Seg) for x in toks):
            raise Bail('symbolic command line')
        return parse(I, a[0], toks, known)
    par.c['parse_args'] = Native('parse_args', parse_args)
    par.c['parse_intermixed_args'] = par.c['parse_args']
    par.c['parse_known_args'] = Native('parse_known_args', lambda I, a, k: parse_args(I, a, k, True))

    def get_default(I, a, k):
        for A in a[0].c['$actions']:
            if A.c['dest'] == a[1]:
                return A.c.get('default')
        return None
    par.c['get_default'] = Native('get_default', get_default)
    par.flags['getattr'] = lambda I, o, n: Ext('parser.' + n) if n in ('prog', 'usage', 'formatter_class') else (
        o.c['$cfg'].get(n) if n in NAMES else MISSING)
    I.extmods['argparse'] = m
    for n in ('click', 'docopt', 'optparse', 'getopt'):
        I.extmods[n] = Mod(n)
        I.extmods[n].dyn = lambda I, x: P._bail('command-line library')


# ---------------------------------------------------------------- ASE
class AseFile:
    """What the analysed file contains: n frames; has(key, f) presence of info keys."""

    symbols = None

    def __init__(self, n, nfreq, natoms=None, freq='1d', missing=(), dts=None):
        self.n, self.nfreq, self.freq, self.missing = n, nfreq, freq, set(missing)
        self.natoms = natoms or T.dim('A')
        self.dts = dts or {}


NUMBERS = {'H': 1, 'C': 6, 'N': 7, 'O': 8, 'Cl': 17, 'Au': 79}


def atoms_host(I, f):
    A = I.ase
    key = ('atoms', f)

    def leaf(name, *ix):
        return T.elem(name, f, *ix)

    def info_value(k):
        if k == 'Energy':
            return Sc(leaf('E'), A.dts.get('E', 'pf'))
        if k == 'Multiplicity':
            return Sc(leaf('g'), A.dts.get('g', 'pi'))
        if k == 'Frequencies':
            if A.freq == '3x3':
                ix = fresh_ixs(2)
                return new_arr((T.num(3), T.num(3)), ix, leaf('nu', T.add(ix[0], T.mul(T.num(3), ix[1]))), A.dts.get('nu', 'f'),
                               ('info', f), 'frame')
            ix = fresh_ixs(1)
            return new_arr((A.nfreq,), ix, leaf('nu', ix[0]), A.dts.get('nu', 'f'), ('info', f), 'frame')
        return MISSING

    def present(k):
        v = info_value(k)
        if v is MISSING:
            return MISSING
        if f.op == 'num' and (k, int(f.args[0])) in A.missing:
            return MISSING
        return v

    def info_get(I, attr):
        if attr == '__getitem__':
            def gi(I, a, k):
                kk = I.force(a[0])
                if not isinstance(kk, str):
                    raise Bail('info key')
                v = present(kk)
                if v is MISSING:
                    I.throw('KeyError', kk)
                return v
            return Native('info[]', gi)
        if attr == 'get':
            def g(I, a, k):
                v = present(I.force(a[0]))
                return (a[1] if len(a) > 1 else k.get('default')) if v is MISSING else v
            return Native('info.get', g)
        if attr == 'pop':
            def g(I, a, k):
                v = present(I.force(a[0]))
                if v is MISSING:
                    if len(a) > 1:
                        return a[1]
                    I.throw('KeyError', a[0])
                return v
            return Native('info.pop', g)
        if attr == '__contains__':
            return Native('in', lambda I, a, k: present(I.force(a[0])) is not MISSING)
        if attr in ('keys', '__iter__'):
            return Native('keys', lambda I, a, k: Lst([x for x in ('Energy', 'Multiplicity', 'Frequencies')
                                                       if present(x) is not MISSING]))
        if attr == 'items':
            return Native('items', lambda I, a, k: Lst([(x, present(x)) for x in ('Energy', 'Multiplicity', 'Frequencies')
                                                        if present(x) is not MISSING]))
        if attr == 'copy':
            return Native('copy', lambda I, a, k: info)
        if attr == 'setdefault':
            return Native('setdefault', lambda I, a, k: a[1] if present(I.force(a[0])) is MISSING else present(I.force(a[0])))
        return MISSING
    info = Host('info', info_get, ('info', f), None)
    info.sub = lambda m: info if T.subst(f, m) is f else I.getattr(atoms_host(I, T.subst(f, m)), 'info')

    def symbols():
        if A.symbols:
            return Lst(list(A.symbols))
        ix = T.fresh_idx('a')
        return Lst([Seg(A.natoms, ix, Str((SymPart(('symbol', f, ix), ('nonempty',)),)))])

    def arr(name, dims, dt='f'):
        if A.symbols and name == 'atomic_numbers':
            return NP.asarray(I, Lst([NUMBERS[x] for x in A.symbols]))
        ix = fresh_ixs(len(dims))
        return new_arr(dims, ix, leaf(name, *ix), dt, ('ase', f), 'frame')

    def atom(j):
        def aget(I, attr):
            if A.symbols and j.op == 'num' and attr in ('symbol', 'number'):
                x = A.symbols[int(j.args[0])]
                return x if attr == 'symbol' else NUMBERS[x]
            if attr == 'symbol':
                return Str((SymPart(('symbol', f, j), ('nonempty',)),))
            if attr == 'number':
                return Sc(leaf('atomic_numbers', j), 'pi')
            if attr == 'position':
                ix = fresh_ixs(1)
                return new_arr((T.num(3),), ix, leaf('pos', j, ix[0]), 'f', ('ase', f), 'frame')
            if attr in ('x', 'y', 'z'):
                return Sc(leaf('pos', j, T.num('xyz'.index(attr))), 'f')
            if attr == 'mass':
                return Sc(leaf('masses', j), 'f')
            if attr == 'index':
                return ival(j)
            return MISSING
        at = Host('Atom', aget, ('atom', f, j), None)
        at.sub = lambda m: atoms_host(I, T.subst(f, m)).atom(T.subst(j, m))
        return at

    def get(I, attr):
        if attr == 'info':
            return info
        if attr == 'get_chemical_symbols':
            return Native(attr, lambda I, a, k: symbols())
        if attr == 'symbols':
            return symbols()
        if attr in ('positions',):
            return arr('pos', (A.natoms, T.num(3)))
        if attr == 'get_positions':
            def gp(I, a, k):
                w = bind_args(I, 'get_positions', ['wrap'], a, {x: y for x, y in k.items() if x == 'wrap'}).get('wrap', False)
                return arr('pos' if w in (False, None, 0) else 'wrapped', (A.natoms, T.num(3)))
            return Native(attr, gp)
        if attr == 'get_scaled_positions':
            return Native(attr, lambda I, a, k: arr('scaledpos', (A.natoms, T.num(3))))
        if attr in ('get_atomic_numbers', 'get_masses', 'get_initial_magnetic_moments', 'get_initial_charges'):
            return Native(attr, lambda I, a, k: arr(attr[4:], (A.natoms,), 'i' if 'numbers' in attr else 'f'))
        if attr == 'numbers':
            return arr('atomic_numbers', (A.natoms,), 'i')
        if attr == 'get_moments_of_inertia':
            def gm(I, a, k):
                v = a[0] if a else k.get('vectors', False)
                mo = arr('I', (T.num(3),))
                if v is True:
                    return (mo, arr('axes', (T.num(3), T.num(3))))
                return mo
            return Native(attr, gm)
        if attr == 'get_potential_energy':
            return Native(attr, lambda I, a, k: Sc(leaf('calc_energy'), 'f'))
        if attr == '__len__':
            return Native(attr, lambda I, a, k: ival(A.natoms))
        if attr == 'get_global_number_of_atoms':
            return Native(attr, lambda I, a, k: ival(A.natoms))
        if attr == 'copy':
            return Native(attr, lambda I, a, k: h)
        if attr in ('calc', 'cell', 'pbc', 'constraints'):
            return Ext('atoms.' + attr)
        if attr in ('get_center_of_mass',):
            return Native(attr, lambda I, a, k: arr('com', (T.num(3),)))
        if attr == '__iter__':
            if A.symbols:
                return Native(attr, lambda I, a, k: Lst([atom(T.num(j)) for j in range(len(A.symbols))]))
            ix = T.fresh_idx('a')
            return Native(attr, lambda I, a, k: Lst([Seg(A.natoms, ix, atom(ix))]))
        if attr == '__getitem__':
            def item(I, a, k):
                j = I.force(a[0])
                if isinstance(j, int) and not isinstance(j, bool) and j >= 0:
                    return atom(T.num(j))
                if isinstance(j, Sc) and j.dt in ('i', 'pi'):
                    return atom(j.t)
                raise Bail('selection of atoms')
            return Native(attr, item)
        if attr == 'arrays':
            d = Dct()
            d.c['numbers'] = arr('atomic_numbers', (A.natoms,), 'i')
            d.c['positions'] = arr('pos', (A.natoms, T.num(3)))
            return d
        if attr.startswith('set_') or attr in ('rattle', 'translate', 'center', 'rotate', 'wrap'):
            def mut(I, a, k):
                raise Bail('modification of the atoms')
            return Native(attr, mut)
        return MISSING
    h = Host('Atoms', get, key, None)
    h.sub = lambda m: h if T.subst(f, m) is f else atoms_host(I, T.subst(f, m))
    h.frame = f
    h.atom = atom
    h.merge = lambda I, c, o: atoms_host(I, T.ite(c, f, o.frame)) if hasattr(o, 'frame') and not A.missing else None
    return h


def install_ase(I):
    m = Mod('ase')
    io = Mod('ase.io')
    m.c['io'] = io
    I.ase = AseFile(T.dim('N'), T.dim('D'))

    def frames(I):
        n = I.ase.n
        if n.op == 'num' and n.args[0] <= 64:
            return Lst([atoms_host(I, T.num(i)) for i in range(int(n.args[0]))])
        ix = T.fresh_idx('f')
        IXDIM[ix] = n
        return Lst([Seg(n, ix, atoms_host(I, ix))])

    def select(I, ixv):
        ixv = I.force(ixv)
        if isinstance(ixv, str):
            if ':' in ixv:
                p = [int(x) if x else None for x in ixv.split(':')]
                p += [None] * (3 - len(p))
                ixv = SliceV(*p)
            else:
                ixv = int(ixv)
        fr = frames(I)
        if isinstance(ixv, SliceV):
            return I.getitem(fr, ixv)
        if isinstance(ixv, int):
            return I.getitem(fr, ixv)
        raise Bail('ase index')
    NM = ['filename', 'index', 'format', 'parallel', 'do_not_split_by_at_sign']

    def read(I, a, k):
        d = bind_args(I, 'read', NM, a, k, True)
        I.event('ase_read', path=I.force(d['filename']))
        ixv = d.get('index')
        return select(I, -1 if ixv is None else ixv)
    nat(io, 'read', read)

    def iread(I, a, k):
        d = bind_args(I, 'iread', NM, a, k, True)
        I.event('ase_read', path=I.force(d['filename']))
        ixv = d.get('index')
        r = select(I, ':' if ixv is None else ixv)
        return Lst(r.items, 'gen') if isinstance(r, Lst) else Lst([r], 'gen')
    nat(io, 'iread', iread)
    for n in ('write',):
        nat(io, n, lambda I, a, k: I.event('open', path=a[0], mode='w') and None)
    ex = Mod('ase.io.extxyz')

    def read_xyz(I, a, k):
        d = bind_args(I, 'read_xyz', ['fileobj', 'index', 'properties_parser'], a, k, True)
        I.event('ase_read', path=I.force(d['fileobj']))
        ixv = d.get('index', -1)
        r = select(I, ixv)
        return Lst(r.items if isinstance(r, Lst) else [r], 'gen')
    nat(ex, 'read_extxyz', read_xyz)
    nat(ex, 'read_xyz', read_xyz)
    m.c['Atoms'] = native_class(I, 'Atoms')
    I.extmods['ase'] = m
    I.extmods['ase.io'] = io
    I.extmods['ase.io.extxyz'] = ex
    for n in ('ase.units', 'ase.build', 'ase.data', 'ase.atoms'):
        x = Mod(n)
        x.dyn = (lambda n: lambda I, y: Ext(n + '.' + y))(n)
        I.extmods[n] = x


# ---------------------------------------------------------------- pymatgen
def install_pymatgen(I):
    def molecule(I, a, k):
        d = bind_args(I, 'Molecule', ['species', 'coords', 'charge', 'spin_multiplicity', 'validate_proximity',
                                      'site_properties', 'labels', 'charge_spin_check', 'properties'], a, k)
        return mol_host(I, I.force(d.get('species')), I.force(d.get('coords')))

    def mol_host(I, species, coords):
        def get(I, attr):
            if attr in ('get_centered_molecule', 'copy', 'get_sorted_structure'):
                return Native(attr, lambda I, a, k: h)
            if attr == 'species':
                return species
            if attr == 'cart_coords':
                return coords
            return MISSING
        h = Host('Molecule', get, None, None)
        h.mol = (species, coords)
        h.sub = lambda m: mol_host(I, vsubst(species, m), vsubst(coords, m))
        return h

    def analyzer(I, a, k):
        d = bind_args(I, 'PointGroupAnalyzer', ['mol', 'tolerance', 'eigen_tolerance', 'matrix_tolerance'], a, k)
        mol = I.force(d.get('mol'))
        if not (isinstance(mol, Host) and hasattr(mol, 'mol')):
            raise Bail('point group of %r' % (mol,))
        I.event('pointgroup', mol=mol.mol, opts={x: y for x, y in d.items() if x != 'mol'})
        return pga_host(I, mol)

    def frame_of(mol):
        """The frame symbols and positions belong to."""
        fs = []
        for x, name in zip(mol.mol, ('symbol', 'pos')):
            try:
                f, ok = (species_frame if name == 'symbol' else coords_frame)(I, x)
            except Bail:
                f = None
            fs.append(f)
        return fs

    def pga_host(I, mol):
        f1, f2 = frame_of(mol)
        if f1 is None:
            f1 = f2
        if f2 is None:
            f2 = f1
        if f1 is None and I.ase.symbols:
            f1 = f2 = T.num(0)
        if f1 is None:
            raise Bail('point group analysis of modified symbols or positions')
        key = (f1,) if f1 is f2 else (f1, f2)
        G = T.mk('dim', 'G') if I.nops is None else I.nops
        # number of operations depends on the frame
        def ops(I):
            ix = T.fresh_idx('op')
            if G.op == 'num':
                return Lst([op_host(I, key, T.num(i)) for i in range(int(G.args[0]))])
            return Lst([Seg(G, ix, op_host(I, key, ix))])

        def get(I, attr):
            if attr == 'get_symmetry_operations':
                return Native(attr, lambda I, a, k: ops(I))
            if attr == 'symmops':
                raise Bail('generators of the group only')
            if attr in ('sch_symbol',):
                return opaque('sch', key)
            if attr == 'get_pointgroup':
                return Native(attr, lambda I, a, k: group(I))
            if attr == 'get_rotational_symmetry_number':
                return Native(attr, lambda I, a, k: Sc(T.elem('rotnum', *key), 'pi'))
            return MISSING

        def group(I):
            def g(I, attr):
                if attr == '__iter__':
                    return Native('iter', lambda I, a, k: ops(I))
                if attr == '__len__':
                    return Native('len', lambda I, a, k: ival(G))
                if attr == 'sch_symbol':
                    return opaque('sch', key)
                return MISSING
            return Host('PointGroup', g)
        h = Host('PointGroupAnalyzer', get)
        h.sub = lambda m: pga_host(I, mol.sub(m))
        return h

    def op_host(I, key, g):
        def el(i, j):
            return Sc(T.elem('R4', *(key + (g, i, j))), 'pf')

        def nested():
            i, j = T.fresh_idx('r'), T.fresh_idx('c')
            return Lst([Seg(T.num(4), i, Lst([Seg(T.num(4), j, el(i, j))]))])

        def mat(n):
            ix = fresh_ixs(2)
            return new_arr((T.num(n), T.num(n)), ix, el(*ix).t, 'f', ('symmop',), 'pymatgen')

        def get(I, attr):
            if attr == 'as_dict':
                def ad(I, a, k):
                    d = Dct()
                    d.c['@module'] = 'pymatgen.core.operations'
                    d.c['@class'] = 'SymmOp'
                    d.c['matrix'] = Lst([Lst([el(T.num(i), T.num(j)) for j in range(4)]) for i in range(4)]) \
                        if False else nested()
                    d.c['tolerance'] = Sc(T.sym('optol'), 'pf')
                    return d
                return Native(attr, ad)
            if attr == 'affine_matrix':
                return mat(4)
            if attr == 'rotation_matrix':
                return mat(3)
            if attr == 'translation_vector':
                ix = fresh_ixs(1)
                return new_arr((T.num(3),), ix, el(ix[0], T.num(3)).t, 'f')
            if attr == 'inverse':
                raise Bail('inverse operation')
            return MISSING
        h = Host('SymmOp', get)
        h.sub = lambda m: op_host(I, tuple(T.subst(x, m) for x in key), T.subst(g, m))
        return h
    I.nops = None
    top = Mod('pymatgen')
    core = Mod('pymatgen.core')
    st = Mod('pymatgen.core.structure')
    sym = Mod('pymatgen.symmetry')
    an = Mod('pymatgen.symmetry.analyzer')
    for mod in (core, st):
        nat(mod, 'Molecule', molecule)
        nat(mod, 'IMolecule', molecule)
    nat(an, 'PointGroupAnalyzer', analyzer)
    top.c['core'], top.c['symmetry'] = core, sym
    core.c['structure'] = st
    sym.c['analyzer'] = an
    ioase = Mod('pymatgen.io.ase')
    ad = native_class(I, 'AseAtomsAdaptor')

    def get_molecule(I, a, k):
        at = I.force(a[0])
        if not (isinstance(at, Host) and at.name == 'Atoms'):
            raise Bail('get_molecule')
        return mol_host(I, I.call(at.get(I, 'get_chemical_symbols'), []), I.call(at.get(I, 'get_positions'), []))
    ad.c['get_molecule'] = Static(Native('get_molecule', get_molecule))
    ioase.c['AseAtomsAdaptor'] = ad
    pio = Mod('pymatgen.io')
    pio.c['ase'] = ioase
    top.c['io'] = pio
    for x in (top, core, st, sym, an, pio, ioase):
        I.extmods[x.name] = x


# ---------------------------------------------------------------- matplotlib
def install_mpl(I):
    b = I.builtins
    top = Mod('matplotlib')
    plt = Mod('matplotlib.pyplot')
    figm = Mod('matplotlib.figure')
    state = Inst(b['object'])
    I.plt = state
    fig_cls = Cls('Figure', (b['object'],))
    ax_cls = Cls('Axes', (b['object'],))
    line_cls = Cls('Line2D', (b['object'],))

    def new_line(I, x, y, label, kw):
        o = Inst(line_cls)
        o.c.update(x=x, y=y, label=label, kw=tuple(kw.items()))
        return o

    def line_attr(I, o, name):
        if name == 'set_label':
            return Native(name, lambda I, a, k: I.assign(o.c, 'label', a[0]))
        if name == 'set_data':
            def sd(I, a, k):
                I.assign(o.c, 'x', a[0])
                I.assign(o.c, 'y', a[1])
            return Native(name, sd)
        if name == 'set_visible':
            return Native(name, lambda I, a, k: I.assign(o.c, 'kw', o.c['kw'] + (('visible', a[0]),)))
        if name in ('remove',):
            raise Bail('line removed')
        if name.startswith('set_'):
            return Native(name, lambda I, a, k: I.assign(o.c, 'kw', o.c['kw'] + ((name[4:], a[0]),)) if a else None)
        if name == 'get_label':
            return Native(name, lambda I, a, k: o.c['label'])
        if name == 'get_color':
            return Native(name, lambda I, a, k: Ext('color'))
        return MISSING
    line_cls.flags['getattr'] = line_attr
    line_cls.flags['private'] = True

    def new_ax(I, fig):
        o = Inst(ax_cls)
        o.c.update(fig=fig, lines=Lst(), others=Lst(), xlim=None, ylim=None, xlabel=None, ylabel=None, legend=None, title=None)
        return o

    def new_fig(I, size):
        o = Inst(fig_cls)
        o.c.update(size=size, axes=(), open=True)
        I.event('fig_new', fig=o)
        return o

    def cur_fig(I):
        f = I.force(state.c.get('cur'))
        if f is None:
            f = new_fig(I, None)
            I.assign(state.c, 'cur', f)
            figs = state.c.get('figs', ())
            I.assign(state.c, 'figs', figs + ((('auto', max(fignums(figs), default=0) + 1), f),))
        if isinstance(f, Choice):
            raise Bail('current figure depends on a condition')
        return f

    def cur_ax(I, f=None):
        f = f or cur_fig(I)
        if not f.c['axes']:
            I.assign(f.c, 'axes', (new_ax(I, f),))
        return f.c['axes'][-1]

    def sizev(I, k):
        s = I.force(k.get('figsize'))
        return s

    def figure(I, a, k):
        names = ['num', 'figsize', 'dpi', 'facecolor', 'edgecolor', 'frameon', 'FigureClass', 'clear']
        d = bind_args(I, 'figure', names, a, k, True)
        num = I.force(d.get('num'))
        if isinstance(num, Inst) and num.cls is fig_cls:
            I.assign(state.c, 'cur', num)
            return num
        if num is not None:
            key = num if isinstance(num, (int, str)) else repr(num)
            for kk, f in state.c.get('figs', ()):
                if kk == key or (isinstance(key, int) and kk in (('user', key), ('auto', key))):
                    I.assign(state.c, 'cur', f)
                    if d.get('clear') is True:
                        clear_fig(I, f)
                    return f
        f = new_fig(I, sizev(I, d))
        figs = state.c.get('figs', ())
        if num is not None:
            if not isinstance(figs, tuple):
                raise Bail('figures opened conditionally')
            I.assign(state.c, 'figs', figs + ((key, f),))
        elif isinstance(figs, tuple):
            I.assign(state.c, 'figs', figs + ((('auto', max(fignums(figs), default=0) + 1), f),))
        I.assign(state.c, 'cur', f)
        return f

    def fignums(figs):
        out = []
        for n, f in figs:
            if isinstance(n, tuple):
                n = n[1]
            out.append(n if isinstance(n, int) else max(out, default=0) + 1)
        return out

    def clear_fig(I, f):
        I.assign(f.c, 'axes', ())

    def clear_ax(I, ax):
        I.assign(ax.c, 'lines', Lst())
        I.assign(ax.c, 'others', Lst())
        for n in ('xlim', 'ylim', 'xlabel', 'ylabel', 'legend', 'title'):
            I.assign(ax.c, n, None)

    def add_artist(I, ax, which, it):
        l = ax.c[which]
        I.assign(l.c, 'items', l.items + (it,))

    # drawing functions: f(I, ax, a, k)
    def as1(I, v):
        v = I.force(v)
        if isinstance(v, Choice):
            raise Bail('plotting alternatives')
        if v is None or isinstance(v, (str, Str)):
            I.throw('TypeError', 'plot argument')
        return NP.asarray(I, v)

    def plot(I, ax, a, k):
        a = [I.force(x) for x in a]
        groups = []
        i = 0
        while i < len(a):
            g = [a[i]]
            i += 1
            if i < len(a) and not isinstance(a[i], (str, Str)):
                g.append(a[i])
                i += 1
            f_ = None
            if i < len(a) and isinstance(a[i], (str, Str)):
                f_ = a[i]
                i += 1
            groups.append((g, f_))
        label = I.force(k.get('label'))
        kw = {n: v for n, v in k.items() if n not in ('label', 'data', 'scalex', 'scaley')}
        if k.get('data') is not None:
            raise Bail('plot data=')
        out = []
        for g, f_ in groups:
            x = as1(I, g[0]) if len(g) == 2 else None
            y = as1(I, g[-1])
            kk = dict(kw)
            if f_ is not None:
                kk['fmt'] = f_
            if x is not None and x.ndim and y.ndim and not I.dim_eq(x.dims[0], y.dims[0]):
                I.event('shape_error', a=x.dims, b=y.dims)
                I.throw('ValueError', 'x and y must have same first dimension')
            if y.ndim == 0:
                y = NP.expand(I, y, 0)
            if y.ndim > 2:
                I.throw('ValueError', 'x and y can be no greater than 2D')
            if y.ndim == 1:
                lb = label
                ln = new_line(I, x, y, lb, kk)
                add_artist(I, ax, 'lines', ln)
                out.append(ln)
            else:
                yt = NP.transpose(I, y)
                rows = NP.rows(I, yt)
                xr = NP.rows(I, NP.transpose(I, x)) if x is not None and x.ndim == 2 else None
                if xr is not None and not I.dim_eq(x.dims[1], y.dims[1]):
                    if not NP.is1(x.dims[1]):
                        I.throw('ValueError', 'x has and y has different number of columns')
                    x, xr = xr[0], None
                labs = None
                if isinstance(label, (Lst, tuple, Tup)):
                    labs = I.iterate(label) if not isinstance(label, tuple) else list(label)
                for j, r in enumerate(rows):
                    if isinstance(r, Seg):
                        lb = label
                        if labs is not None:
                            if len(labs) == 1 and isinstance(labs[0], Seg) and I.dim_eq(labs[0].dim, r.dim) and \
                                    labs[0].cond is T.TRUE:
                                lb = vsubst(labs[0].val, {labs[0].ix: r.ix})
                            else:
                                raise Bail('label list')
                        xx = vsubst(xr[0].val, {xr[0].ix: r.ix}) if xr is not None else x
                        ln = new_line(I, xx, r.val, lb, kk)
                        add_artist(I, ax, 'lines', Seg(r.dim, r.ix, ln))
                    else:
                        lb = label
                        if labs is not None:
                            if len(labs) != len(rows) or isinstance(labs[0], Seg):
                                I.throw('ValueError', 'label must be scalar or have the same length as the input data')
                            lb = labs[j]
                        ln = new_line(I, xr[j] if xr is not None else x, r, lb, kk)
                        add_artist(I, ax, 'lines', ln)
                        out.append(ln)
        return Lst(out)

    def other(name):
        def f(I, ax, a, k):
            add_artist(I, ax, 'others', (name, tuple(a), tuple(k.items())))
            return Ext(name + '()')
        return f

    def scatterlike(name):
        def f(I, ax, a, k):
            if len(a) >= 2 and name in ('scatter', 'step', 'errorbar', 'semilogy', 'semilogx', 'loglog', 'bar', 'stem'):
                kw = dict(k)
                lb = kw.pop('label', None)
                kw['style'] = name
                ln = new_line(I, as1(I, a[0]), as1(I, a[1]), lb, kw)
                add_artist(I, ax, 'lines', ln)
                return Ext(name + '()')
            raise Bail(name)
        return f

    def lim(which):
        def f(I, ax, a, k):
            lo = hi = MISSING
            a = [I.force(x) for x in a]
            ks = {n: I.force(v) for n, v in k.items()}
            for n in ('emit', 'auto'):
                ks.pop(n, None)
            l_, r_ = ('left', 'right') if which == 'xlim' else ('bottom', 'top')
            m_, M_ = which[0] + 'min', which[0] + 'max'
            if not a and not ks:
                cur = ax.c[which]
                if cur is None:
                    return (Sc(T.sym('auto_%s_lo' % which), 'f'), Sc(T.sym('auto_%s_hi' % which), 'f'))
                return tuple(cur)
            lo = ks.get(l_, ks.get(m_, MISSING))
            hi = ks.get(r_, ks.get(M_, MISSING))
            if a and len(a) == 1 and isinstance(a[0], (tuple, Lst, Arr)):
                its = I.iterate(a[0])
                if len(its) != 2 or any(isinstance(x, Seg) for x in its):
                    I.throw('ValueError', 'limits')
                lo, hi = its
            elif a:
                lo = a[0]
                if len(a) > 1:
                    hi = a[1]
            cur = ax.c[which] or (None, None)
            lo = cur[0] if lo is MISSING or lo is None else lo
            hi = cur[1] if hi is MISSING or hi is None else hi
            I.assign(ax.c, which, (lo, hi))
            return (lo, hi)
        return f

    def setter(n):
        def f(I, ax, a, k):
            I.assign(ax.c, n, a[0] if a else k.get(n, k.get('label')))
            return Ext(n)
        return f

    def legend(I, ax, a, k):
        I.assign(ax.c, 'legend', (tuple(a), tuple(k.items())))
        if a or 'labels' in k:
            labs = a[-1] if a else k['labels']
            labs = I.force(labs)
            if isinstance(labs, (Lst, tuple)):
                # labels given to the lines in order
                ln = ax.c['lines'].items
                ls = I.iterate(labs) if not isinstance(labs, tuple) else list(labs)
                if len(ls) == len(ln):
                    new = []
                    for p, q in zip(ln, ls):
                        if isinstance(p, Seg) and isinstance(q, Seg) and I.dim_eq(p.dim, q.dim):
                            v = new_line(I, p.val.c['x'], p.val.c['y'], vsubst(q.val, {q.ix: p.ix}), dict(p.val.c['kw']))
                            new.append(Seg(p.dim, p.ix, v, p.cond))
                        elif not isinstance(p, Seg) and not isinstance(q, Seg):
                            new.append(new_line(I, p.c['x'], p.c['y'], q, dict(p.c['kw'])))
                        else:
                            raise Bail('legend labels')
                    I.assign(ax.c['lines'].c, 'items', tuple(new))
                else:
                    raise Bail('legend labels')
        return Ext('legend')

    def axis(I, ax, a, k):
        v = I.force(a[0]) if a else None
        if isinstance(v, (Lst, tuple)):
            its = I.iterate(v)
            I.assign(ax.c, 'xlim', (its[0], its[1]))
            I.assign(ax.c, 'ylim', (its[2], its[3]))
            return v
        if isinstance(v, str) and v in ('tight', 'auto', 'image', 'scaled', 'square'):
            I.assign(ax.c, 'xlim', 'data' if v == 'tight' else None)
            I.assign(ax.c, 'ylim', None)
            return Ext('axis')
        if 'xmin' in k or 'xmax' in k:
            cur = ax.c['xlim'] or (None, None)
            I.assign(ax.c, 'xlim', (k.get('xmin', cur[0]), k.get('xmax', cur[1])))
        return Ext('axis')

    def margins(I, ax, a, k):
        z = lambda v: isinstance(v, int) and v == 0 or isinstance(v, Sc) and v.t.op == 'num' and v.t.args[0] == 0
        v = a[0] if a else k.get('x')
        if v is not None and z(v) and ax.c['xlim'] is None:
            I.assign(ax.c, 'xlim', 'data')
        return None

    def autoscale(I, ax, a, k):
        ax_ = k.get('axis', a[1] if len(a) > 1 else 'both')
        if ax_ in ('both', 'x'):
            t = k.get('tight', a[2] if len(a) > 2 else None)
            I.assign(ax.c, 'xlim', 'data' if t is True else None)
        return None

    def set_(I, ax, a, k):
        for n, v in k.items():
            if n in ('xlim', 'ylim'):
                lim(n)(I, ax, [v], {})
            elif n in ('xlabel', 'ylabel', 'title'):
                I.assign(ax.c, n, v)
        return None

    def lines_fn(name):
        return other(name)
    AX = {'plot': plot, 'legend': legend, 'axis': axis, 'margins': margins, 'autoscale': autoscale}
    for n in ('scatter', 'step', 'errorbar', 'semilogy', 'semilogx', 'loglog', 'bar', 'stem'):
        AX[n] = scatterlike(n)
    for n in ('hlines', 'vlines', 'axhline', 'axvline', 'axhspan', 'axvspan', 'text', 'annotate', 'fill_between', 'grid',
              'tick_params', 'minorticks_on', 'minorticks_off', 'locator_params', 'ticklabel_format', 'xticks', 'yticks',
              'set_xticks', 'set_yticks', 'set_xticklabels', 'set_yticklabels', 'set_axisbelow', 'set_facecolor',
              'set_prop_cycle', 'add_artist', 'box', 'set_position', 'label_outer', 'set_axis_on', 'set_aspect', 'set_title_',
              'figtext', 'axline'):
        AX[n] = other(n)
    PLT_AX = dict(AX)
    PLT_AX.update(xlim=lim('xlim'), ylim=lim('ylim'), xlabel=setter('xlabel'), ylabel=setter('ylabel'), title=setter('title'))
    AXM = dict(AX)
    AXM.update(set_xlim=lim('xlim'), set_ylim=lim('ylim'), set_xbound=lim('xlim'), set_xlabel=setter('xlabel'),
               set_ylabel=setter('ylabel'), set_title=setter('title'), set=set_, get_xlim=lim('xlim'), get_ylim=lim('ylim'),
               clear=lambda I, ax, a, k: clear_ax(I, ax), cla=lambda I, ax, a, k: clear_ax(I, ax))

    def ax_attr(I, o, name):
        if name in AXM:
            return Native('Axes.' + name, lambda I, a, k: AXM[name](I, o, a, k))
        if name == 'figure':
            return o.c['fig']
        if name in ('get_figure',):
            return Native(name, lambda I, a, k: o.c['fig'])
        if name in ('get_legend_handles_labels', 'get_lines'):
            raise Bail('axes.' + name)
        if name in ('spines', 'xaxis', 'yaxis', 'transAxes', 'transData', 'patch'):
            return Ext('axes.' + name)
        if name in ('twinx', 'twiny', 'inset_axes'):
            raise Bail('several axes')
        if name in ('remove', 'set_visible'):
            raise Bail('axes hidden')
        return MISSING
    ax_cls.flags['getattr'] = ax_attr
    ax_cls.flags['private'] = True

    def savefig(I, f, a, k):
        path = I.force(a[0] if a else k.get('fname'))
        axes = []
        for ax in f.c['axes']:
            axes.append(dict(lines=ax.c['lines'].items, others=ax.c['others'].items, xlim=ax.c['xlim'], ylim=ax.c['ylim'],
                             legend=ax.c['legend'], xlabel=ax.c['xlabel'], ylabel=ax.c['ylabel']))
        I.event('savefig', fig=f, path=path, axes=axes, size=f.c['size'], opts=dict(k))
        return None

    def fig_attr(I, o, name):
        if name == 'savefig':
            return Native(name, lambda I, a, k: savefig(I, o, a, k))
        if name in ('gca',):
            return Native(name, lambda I, a, k: cur_ax(I, o))
        if name in ('add_subplot', 'add_axes'):
            def add(I, a, k):
                if o.c['axes'] and name == 'add_subplot' and (not a or a[0] in (111,) or tuple(a) == (1, 1, 1)):
                    pass
                ax = new_ax(I, o)
                I.assign(o.c, 'axes', o.c['axes'] + (ax,))
                return ax
            return Native(name, add)
        if name == 'subplots':
            def sub(I, a, k):
                if any(x != 1 for x in a) or k.get('nrows', 1) != 1 or k.get('ncols', 1) != 1:
                    raise Bail('several axes')
                ax = new_ax(I, o)
                I.assign(o.c, 'axes', o.c['axes'] + (ax,))
                return ax
            return Native(name, sub)
        if name in ('clf', 'clear'):
            return Native(name, lambda I, a, k: clear_fig(I, o))
        if name == 'axes':
            return Lst(o.c['axes'])
        if name == 'set_size_inches':
            def ss(I, a, k):
                I.assign(o.c, 'size', a[0] if len(a) == 1 else (a[0], a[1]))
            return Native(name, ss)
        if name in ('set_figwidth', 'set_figheight'):
            raise Bail(name)
        if name == 'canvas':
            return Ext('canvas')
        if name in ('tight_layout', 'subplots_adjust', 'suptitle', 'legend', 'autofmt_xdate', 'set_tight_layout', 'set_dpi',
                    'set_layout_engine', 'set_facecolor', 'set_constrained_layout', 'supxlabel', 'supylabel', 'text',
                    'align_labels', 'show', 'draw'):
            return Native(name, lambda I, a, k: None)
        if name in ('number',):
            return Sc(T.sym('fignum'), 'pi')
        return MISSING
    fig_cls.flags['getattr'] = fig_attr
    fig_cls.flags['private'] = True

    def fig_new(I, cls, a, k):
        d = bind_args(I, 'Figure', ['figsize', 'dpi'], a, k, True)
        return new_fig(I, sizev(I, d))
    fig_cls.flags['new'] = fig_new
    figm.c['Figure'] = fig_cls

    def subplots(I, a, k):
        names = ['nrows', 'ncols']
        d = bind_args(I, 'subplots', names, a, k, True)
        if d.get('nrows', 1) != 1 or d.get('ncols', 1) != 1 or d.get('squeeze', True) is not True:
            raise Bail('several axes')
        f = figure(I, [], {n: v for n, v in d.items() if n in ('num', 'figsize', 'dpi', 'clear')})
        ax = new_ax(I, f)
        I.assign(f.c, 'axes', f.c['axes'] + (ax,))
        return (f, ax)
    nat(plt, 'figure', figure)
    nat(plt, 'subplots', subplots)
    for n in PLT_AX:
        nat(plt, n, (lambda n: lambda I, a, k: PLT_AX[n](I, cur_ax(I), a, k))(n))
    nat(plt, 'gca', lambda I, a, k: cur_ax(I))
    nat(plt, 'gcf', lambda I, a, k: cur_fig(I))

    def sca(I, a, k):
        I.assign(state.c, 'cur', a[0].c['fig'])
    nat(plt, 'sca', sca)

    def subplot(I, a, k):
        if a and tuple(a) not in ((111,), (1, 1, 1)):
            raise Bail('several axes')
        return cur_ax(I)
    nat(plt, 'subplot', subplot)
    nat(plt, 'axes', lambda I, a, k: I.call(I.getattr(cur_fig(I), 'add_axes'), a, k))
    nat(plt, 'savefig', lambda I, a, k: savefig(I, cur_fig(I), a, k))
    nat(plt, 'clf', lambda I, a, k: clear_fig(I, cur_fig(I)))
    nat(plt, 'cla', lambda I, a, k: clear_ax(I, cur_ax(I)))

    def close(I, a, k):
        w = I.force(a[0] if a else k.get('fig'))
        figs = state.c.get('figs', ())
        if w == 'all':
            I.assign(state.c, 'figs', ())
            I.assign(state.c, 'cur', None)
            return None
        f = state.c.get('cur') if w is None else w
        if isinstance(f, Inst):
            figs = tuple((n, g) for n, g in figs if g is not f)
        else:
            figs = tuple((n, g) for n, g in figs if n not in (f, ('auto', f), ('user', f)))
        I.assign(state.c, 'figs', figs)
        if not any(g is state.c.get('cur') for _, g in figs):
            I.assign(state.c, 'cur', figs[-1][1] if figs else None)
        return None
    nat(plt, 'close', close)
    for n in ('tight_layout', 'show', 'ion', 'ioff', 'draw', 'pause', 'subplots_adjust', 'suptitle', 'rc', 'switch_backend',
              'rcdefaults', 'set_cmap', 'colorbar_', 'setp', 'figlegend', 'sci'):
        nat(plt, n, lambda I, a, k: None)
    rp = Ext('rcParams')
    plt.c['rcParams'] = rp
    plt.c['style'] = Ext('style')
    plt.c['cm'] = Ext('cm')
    plt.c['Figure'] = fig_cls
    plt.c['Axes'] = ax_cls
    nat(plt, 'rc_context', lambda I, a, k: Ext('rc_context'))
    nat(plt, 'get_cmap', lambda I, a, k: Ext('cmap'))

    def get_fignums(I, a, k):
        figs = state.c.get('figs', ())
        if not isinstance(figs, tuple):
            raise Bail('figures opened conditionally')
        return Lst(fignums(figs))

    def fignum_exists(I, a, k):
        n = I.force(a[0])
        figs = state.c.get('figs', ())
        if not isinstance(figs, tuple) or not isinstance(n, (int, str)):
            raise Bail('figures opened conditionally')
        return n in [x for x, f in figs] or n in fignums(figs)
    nat(plt, 'get_fignums', get_fignums)
    nat(plt, 'get_figlabels', lambda I, a, k: Lst([n if isinstance(n, str) else '' for n, f in state.c.get('figs', ())]))
    nat(plt, 'fignum_exists', fignum_exists)
    plt.dyn = lambda I, n: P._bail('pyplot.' + n)
    nat(top, 'use', lambda I, a, k: None)
    top.c['rcParams'] = rp
    top.c['pyplot'] = plt
    top.c['figure'] = figm
    top.c['__version__'] = '3'
    I.extmods['matplotlib'] = top
    I.extmods['matplotlib.pyplot'] = plt
    I.extmods['pylab'] = plt
    I.extmods['matplotlib.figure'] = figm
    for n in ('matplotlib.cm', 'matplotlib.ticker', 'matplotlib.style', 'matplotlib.backends', 'matplotlib.colors',
              'matplotlib.lines'):
        x = Mod(n)
        x.dyn = (lambda n: lambda I, y: Ext(n + '.' + y))(n)
        I.extmods[n] = x
    ba = Mod('matplotlib.backends.backend_agg')
    nat(ba, 'FigureCanvasAgg', lambda I, a, k: Host('Canvas', lambda I, n: Native(
        n, lambda I, a2, k2: savefig(I, a[0], a2, k2)) if n in ('print_figure', 'print_png', 'print_svg') else MISSING))
    I.extmods['matplotlib.backends.backend_agg'] = ba
    x = Mod('mpl_toolkits')
    I.extmods['mpl_toolkits'] = x

    def user_figure(I):
        """A figure the calling program has open already, with a curve of its own."""
        f = new_fig(I, (Sc(T.sym('user_w'), 'f'), Sc(T.sym('user_h'), 'f')))
        ax = new_ax(I, f)
        f.c['axes'] = (ax,)
        ix = fresh_ixs(1)
        y = new_arr((T.dim('U'),), ix, T.elem('user_curve', ix[0]), 'f')
        ln = new_line(I, y, y, 'user', {})
        ax.c['lines'].c['items'] = (ln,)
        state.c['figs'] = ((('user', 1), f),)
        state.c['cur'] = f
        return f
    I.user_figure = user_figure


# ---------------------------------------------------------------- subprocess
def install_subprocess(I):
    """Other programs: I.programs(argv) gives the name of an OSError subclass with its errno, or (status, stdout, stderr)."""
    m = Mod('subprocess')
    I.programs = None
    m.c['PIPE'], m.c['STDOUT'], m.c['DEVNULL'] = -1, -2, -3
    exc = I.builtins['Exception']
    for n, base in (('SubprocessError', exc), ('CalledProcessError', None), ('TimeoutExpired', None)):
        c = Cls(n, (base or m.c['SubprocessError'],))
        c.flags = dict(exc.flags)
        m.c[n] = c

    def start(I, a, k):
        if I.programs is None:
            return None
        argv = a[0] if a else k.get('args')
        if isinstance(argv, str):
            argv = argv.split()
        elif isinstance(argv, (Lst, tuple)):
            argv = [fs(I, x) if isinstance(x, Inst) else x for x in (argv.items if isinstance(argv, Lst) else argv)]
        if not isinstance(argv, list) or not all(isinstance(x, str) for x in argv):
            I.throw('TypeError', 'expected str, bytes or os.PathLike object, not %r' % (argv,))
        I.event('run', argv=tuple(argv), opts=dict(k))
        r = I.programs(argv, k)
        if isinstance(r[0], str):
            e = I.exc(r[0], 'cannot run %s' % argv[0])
            e.c['errno'] = r[1]
            e.c['filename'] = argv[0]
            raise PyRaise(e)
        return r

    def texts(I, r, k):
        t = any(k.get(x) not in (None, False) for x in ('text', 'universal_newlines', 'encoding', 'errors'))
        piped = lambda n: k.get(n) == -1 or k.get('capture_output') is True

        def one(x, n):
            if not piped(n):
                return None
            if not t:
                return x
            try:
                return x.decode('utf-8', k.get('errors') or 'strict')
            except UnicodeDecodeError as e:
                I.throw('UnicodeDecodeError', str(e))
        return one(r[1], 'stdout'), one(r[2], 'stderr')

    def popen(I, a, k):
        r = start(I, a, k)
        if r is None:
            return Ext('subprocess.Popen()')
        state = Inst(I.builtins['object'], done=False)

        def communicate(I, a2, k2):
            I.assign(state.c, 'done', True)
            return texts(I, r, k)

        def stream(n):
            o = texts(I, r, k)[n]
            if o is None:
                return None
            rd = lambda I, nm: Native(nm, {'read': lambda I, a, k: o, 'readlines': lambda I, a, k: Lst(o.splitlines(True)),
                                           'readline': lambda I, a, k: (o.splitlines(True) or [o])[0],
                                           'close': lambda I, a, k: None}[nm]) if nm in ('read', 'readlines', 'readline', 'close') else MISSING
            return Host('pipe', rd)

        def wait(I, a2, k2):
            I.assign(state.c, 'done', True)
            return r[0]

        def get(I, n):
            if n == 'communicate':
                return Native(n, communicate)
            if n in ('wait', 'poll'):
                return Native(n, wait)
            if n == 'returncode':
                return r[0] if state.c['done'] else None
            if n in ('stdout', 'stderr'):
                return stream(0 if n == 'stdout' else 1)
            if n in ('kill', 'terminate', 'send_signal'):
                return Native(n, lambda I, a, k: None)
            if n == 'pid':
                return 4242
            if n == 'args':
                return a[0]
            return MISSING
        return proc(get)

    pcls = native_class(I, 'Popen')
    pcls.c['__enter__'] = Native('enter', lambda I, a, k: a[0])

    def pexit(I, a, k):
        I.call(I.getattr(a[0], 'wait'), [])
        return None
    pcls.c['__exit__'] = Native('exit', pexit)

    def proc(get):
        o = Inst(pcls)
        o.hostget = get
        return o

    def pget(I, o, n):
        return o.hostget(I, n)
    pcls.flags['getattr'] = pget
    pcls.flags['new'] = lambda I, cls, a, k: popen(I, a, k)
    m.c['Popen'] = pcls

    def failed(I, r, out, err, argv):
        e = Inst(m.c['CalledProcessError'], args=(r[0], argv))
        e.where = I.site()
        e.c.update(returncode=r[0], cmd=argv, output=out, stdout=out, stderr=err)
        raise PyRaise(e)

    def run(I, a, k):
        r = start(I, a, k)
        if r is None:
            return Ext('subprocess.run()')
        out, err = texts(I, r, k)
        argv = a[0] if a else k.get('args')
        if k.get('check') is True and r[0] != 0:
            failed(I, r, out, err, argv)

        def get(I, n):
            if n in ('stdout', 'stderr', 'returncode', 'args'):
                return {'stdout': out, 'stderr': err, 'returncode': r[0], 'args': argv}[n]
            if n == 'check_returncode':
                def cr(I, a, k):
                    if r[0] != 0:
                        failed(I, r, out, err, argv)
                return Native(n, cr)
            return MISSING
        return Host('completed', get)
    nat(m, 'run', run)

    def check_output(I, a, k):
        k = dict(k)
        k['stdout'] = -1
        k['check'] = True
        r = run(I, a, k)
        return r if isinstance(r, Ext) else r.get(I, 'stdout')
    nat(m, 'check_output', check_output)

    def call_(I, a, k):
        r = start(I, a, k)
        return Ext('subprocess.call()') if r is None else r[0]
    nat(m, 'call', call_)

    def check_call(I, a, k):
        r = run(I, a, {**k, 'check': True})
        return r if isinstance(r, Ext) else 0
    nat(m, 'check_call', check_call)

    def getstatus(I, a, k):
        r = start(I, a, k)
        if r is None:
            return Ext('subprocess.getstatusoutput()')
        return (r[0], r[1].decode('utf-8', 'replace').rstrip('\n'))
    nat(m, 'getstatusoutput', getstatus)
    m.c['STARTUPINFO'] = native_class(I, 'STARTUPINFO')
    m.c['STARTUPINFO'].c['dwFlags'] = 0
    m.c['STARTF_USESHOWWINDOW'] = 1
    m.dyn = lambda I, n: Ext('subprocess.' + n)
    I.extmods['subprocess'] = m
    sh = Mod('shutil')
    old = I.extmods.get('shutil')
    if old is not None:
        sh = old
    prev = sh.c.get('which')

    def which(I, a, k):
        if I.programs is None:
            return I.call(prev, a, k) if prev is not None else Ext('shutil.which()')
        r = I.programs([a[0], '--version'], {})
        return None if isinstance(r[0], str) else '/usr/bin/' + a[0]
    sh.c['which'] = Native('which', which)
    if old is None:
        sh.dyn = lambda I, n: Ext('shutil.' + n)
        I.extmods['shutil'] = sh


def install(I):
    install_misc(I)
    install_os(I)
    install_pathlib(I)
    install_argparse(I)
    install_ase(I)
    install_pymatgen(I)
    install_mpl(I)
    install_subprocess(I)


def species_frame(I, species):
    """(frame, whether these are all symbols or atomic numbers of that frame in order)"""
    t = None
    if isinstance(species, (Lst, Tup)) and len(species.items) == 1 and isinstance(species.items[0], Seg):
        s = species.items[0]
        if isinstance(s.val, Str) and len(s.val.parts) == 1 and not isinstance(s.val.parts[0], str):
            nm = s.val.parts[0].name
            if isinstance(nm, tuple) and nm[0] == 'symbol':
                return nm[1], nm[2] is s.ix and s.cond is T.TRUE and s.dim is I.ase.natoms
        if isinstance(s.val, Sc) and s.cond is T.TRUE and s.dim is I.ase.natoms:
            t, ix = s.val.t, s.ix
    elif isinstance(species, Arr) and species.ndim == 1:
        t, ix = species.body, species.ixs[0]
    if t is not None and t.op == 'elem' and t.args[0] == 'atomic_numbers':
        return t.args[1], t.args[2] is ix
    return None, False


def coords_frame(I, coords):
    """(frame, whether these are the positions of that frame up to a translation; None: not known)"""
    if isinstance(coords, Lst):
        coords = NP.asarray(I, coords)
    if not isinstance(coords, Arr) or coords.ndim != 2:
        return None, None
    t = coords.body
    fs = {x.args[1] for x in T.walk(t) if x.op == 'elem' and x.args[0] == 'pos'}
    if len(fs) != 1:
        return None, None
    f = fs.pop()
    pos = T.elem('pos', f, *coords.ixs)
    if t is pos:
        return f, True
    if t.op == 'add' and sum(a is pos for a in t.args) == 1 and \
            not any(coords.ixs[0] in T.free(a) for a in t.args if a is not pos):
        return f, True
    return f, False
