"""Common parts of the property checks: sessions, inputs, comparisons, obligations."""
import os
import pickle
import select
import signal
import sys
import time
import traceback
from fractions import Fraction as Fr
from . import terms as T
from . import nf as N
from . import witness as W
from .evalt import Evaluator, compare, showv, INF as VINF, NINF as VNINF, NAN as VNAN, UNINIT as VUN
from .nf import Undecided, POS, NONNEG, ALL, NEG, ZERO
from .values import *
from .interp import Interp, Source

REPO = os.environ.get('OCCUSTAT_REPO', '/repo')

VERSION_STUB = '''"""Stand-in for the version module in the checks that are not about versions."""


def get_versions():
    return {'version': '0+stub', 'full-revisionid': 'stub', 'dirty': False, 'error': None, 'date': None}
'''

DECL = {'T': NONNEG, 'nu': POS, 'g': POS, 's': POS, 'I': NONNEG, 'E': ALL, 'Z': POS, 'W': ALL, 'V': ALL, 'B': ALL,
        'rotnum': POS, 'k_B': POS, 'h': POS, 'q_e': POS}
ROW, COL = T.idx('n'), T.idx('m')
ROW2, COL2 = T.idx('n2'), T.idx('m2')


class Viol(Exception):
    """The property is broken: what, where."""

    def __init__(self, what, site='?', key=None):
        super().__init__(what)
        self.what, self.site, self.key = what, site, key


class AnchorMissing(Exception):
    """The documented entry point is not there (or the source does not parse)."""


class Timeout(Exception):
    pass


class OutOfMemory(Exception):
    pass


LIMIT = {'t': 0., 'mem': 2 << 30}


def memory():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def _alarm(sig, frm):
    if memory() > LIMIT['mem']:
        raise OutOfMemory()
    if time.time() > LIMIT['t']:
        raise Timeout()


# ---------------------------------------------------------------- dimensions
class Dims:
    def __init__(self, N='N', M='M', D='D', K='K', F='F'):
        mk = lambda x: T.dim(x) if isinstance(x, str) else x if isinstance(x, T.Term) else T.num(x)
        self.N, self.M, self.D, self.K, self.F = mk(N), mk(M), mk(D), mk(K), mk(F)

    def extra(self):
        return extra_sizes()

    def __repr__(self):
        return 'N=%s M=%s D=%s K=%s F=%s' % tuple(T.show(x) for x in (self.N, self.M, self.D, self.K, self.F))


SYM = Dims()
# an axis of length one is indexed by 0, not by ROW or COL: only for obligations that do not single out a row or column
UNIT = Dims(1, 1, 3, 3, 1)
SMALL = [Dims(2, 3, 2, 2, 2), Dims(3, 2, 1, 1, 3), Dims(2, 2, 2, 2, 2)]


_extra = []


_consts = {}


def source_constants():
    """Whole numbers in the source (also in strings, and 1/c, 1/(1-c) of fractions c) that may bound a size."""
    if REPO in _consts:
        return _consts[REPO]
    import ast
    import re
    cs = set()
    for name in ('partitionfunctions', 'superpositions', 'utils', 'io', 'cli'):
        try:
            with open(os.path.join(REPO, 'occuprob', name + '.py')) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                docs.add(x.value)
        for x in ast.walk(tree):
            if not isinstance(x, ast.Constant) or x in docs or isinstance(x.value, (bool, bytes, complex)) or x.value is None:
                continue
            v = x.value
            if isinstance(v, str):
                if len(v) <= 12:
                    cs.update(int(q) for q in re.findall(r'\d+', v) if 3 <= int(q) <= 10 ** 6)
            elif isinstance(v, (int, float)) and v == v and abs(v) <= 10 ** 6:
                v = abs(v)
                if v == int(v) and v >= 3:
                    cs.add(int(v))
                elif 0 < v < 1:
                    cs.update(int(q) for q in (1 / v, 1 / (1 - v)) if 3 <= q <= 10 ** 5)
    _consts[REPO] = sorted(cs)
    return _consts[REPO]


def extra_sizes():
    if not _extra:
        out = []
        for c in sorted({c + 1 for c in source_constants()} | {4, 5})[:30]:
            for i in range(4):
                v = [2, 2, 2, 2]
                v[i] = c
                if i != 3 or c < 65:
                    out.append(Dims(v[0], v[1], v[2], v[3], 2))
        _extra.extend(out)
    return _extra


def rowdim(ix, d):
    IXDIM[ix] = d
    return ix


# ---------------------------------------------------------------- sessions
_sources = {}


def source(overlay=None):
    key = tuple(sorted((overlay or {}).items()))
    if key not in _sources:
        _sources[key] = Source(REPO, dict(overlay or {}))
    return _sources[key]


VISITED = set()
SESSIONS = [0]


class Sess:
    """One abstract run of the package (module bodies evaluated, version stubbed)."""

    def __init__(self, dims=SYM, decl=None, stub=True, source_=None):
        ov = {os.path.join(REPO, 'occuprob', '_version.py'): VERSION_STUB} if stub else {}
        self.src = source_ or source(ov)
        self.dims = dims
        d = dict(DECL)
        d.update(decl or {})
        self.decl = d
        self.I = Interp(self.src, N.Ctx(d))
        SESSIONS[0] += 1
        self.contribs = {}
        self.log = []

    def done(self):
        VISITED.update(self.I.visited)

    # -- anchors
    def mod(self, name):
        I = self.I
        try:
            m = I.load(name)
        except SyntaxError as e:
            raise AnchorMissing('%s does not parse: %s' % (name, e))
        except PyRaise as e:
            raise Viol('importing %s raises %s' % (name, excname(e.exc)), getattr(e.exc, 'where', '?'))
        if not isinstance(m, Mod):
            raise AnchorMissing('module %s not found' % name)
        self.drop()
        return m

    def get(self, module, name):
        for mm in (module, 'occuprob'):
            if mm != 'occuprob' and self.src.path(mm) is None:
                continue
            v = self.mod(mm).c.get(name, MISSING)
            if v is not MISSING:
                return v
        raise AnchorMissing('%s.%s not found' % (module, name))

    def cls(self, name):
        return self.get('occuprob.superpositions' if name == 'SuperpositionApproximation' else 'occuprob.partitionfunctions',
                        name)

    def util(self, name):
        return self.get('occuprob.utils', name)

    def io(self, name):
        return self.get('occuprob.io', name)

    def cli(self, name):
        return self.get('occuprob.cli', name)

    # -- calls
    def drop(self):
        I = self.I
        I.pends, I.pc, I.pendbase = [], [], 0

    def call(self, f, *args, **kw):
        """Result and conditional exceptions of one call from outside."""
        I = self.I
        self.drop()
        try:
            r = I.call(f, list(args), kw)
            return r, I.pends
        finally:
            self.done()
            I.pends, I.pc, I.pendbase = [], [], 0
            I.stack = []
            I.depth = 0

    def meth(self, obj, name, *args, **kw):
        I = self.I
        self.drop()
        try:
            f = I.getattr(obj, name)
        except PyRaise as e:
            if e.exc.cls.name == 'AttributeError' and isinstance(obj, Inst) and obj.cls.lookup(name)[0] is None:
                raise AnchorMissing('%s has no %s' % (obj.cls.name, name))
            raise
        return self.call(f, *args, **kw)

    # -- inputs
    def arr(self, name, dims, dt='f', term=None):
        ix = fresh_ixs(len(dims))
        return new_arr(dims, ix, term(*ix) if term else T.elem(name, *ix), dt, ('input', name))

    def temperature(self, dt='f', name='T', dim=None):
        return self.arr(name, (dim if dim is not None else self.dims.M,), dt)

    def isomers(self, dt='f', nu=None):
        d = self.dims
        return {'E': self.arr('E', (d.N,), dt), 'g': self.arr('g', (d.N,), dt), 's': self.arr('s', (d.N,), dt),
                'I': self.arr('I', (d.N, T.num(3)), dt), 'nu': self.arr('nu', (d.N, d.D), nu or dt)}

    def build(self, which, inp):
        """Built-in contribution by letter."""
        c, args = {'e': ('ElectronicPF', ('E', 'g')), 'c': ('ClassicalHarmonicPF', ('nu',)),
                   'q': ('QuantumHarmonicPF', ('nu',)), 'r': ('RotationalPF', ('s', 'I'))}[which]
        o, p = self.call(self.cls(c), *[inp[a] for a in args])
        self.norm_raise(p, 'constructing ' + c)
        return o

    def sup(self, contribs, how='list'):
        o, p = self.call(self.cls('SuperpositionApproximation'))
        if contribs:
            if how == 'list':
                self.meth(o, 'add_partition_functions', Lst(contribs))
            else:
                for c in contribs:
                    self.meth(o, 'add_partition_functions', c)
        return o

    def norm_raise(self, pends, what, decl=None):
        """No conditional exception may be possible under the declared facts."""
        for cond, exc in pends:
            ctx = N.Ctx({**self.decl, **(decl or {})})
            try:
                r = Evaluator(ctx).run(cond)
                if all(v is False for _, v in r):
                    continue
            except Undecided:
                pass
            w = W.holds(cond, ctx.decl)
            if w:
                raise Viol('%s raises %s when %s (%s)' % (what, excname(exc), T.show(cond), w.split(' at ', 1)[-1]),
                           getattr(exc, 'where', '?'))
            raise Undecided('possible %s when %s' % (excname(exc), T.show(cond)))

    # -- opaque contributions
    def opaque(self, k, N_=None, names=('Z', 'W', 'V'), raising=None, lacking=(), values=None, dt='f', cached=False, mark='', lenient=None):
        """A contribution about which only the documented interface is known."""
        I = self.I
        n = N_ if N_ is not None else self.dims.N
        kt = T.num(k) if isinstance(k, int) else k
        store = {}
        sess = self

        def method(name, letter):
            def f(I, a, kw):
                if lenient == 'default' and raising and name in raising and not (a or kw):
                    # the failing method has a default for its temperature
                    i, j = fresh_ixs(2)
                    return new_arr((n, self.dims.M), (i, j), T.app(letter + mark, kt, i, T.elem('T', j)), dt,
                                   ('contribution', kt, letter), 'contribution')
                if len(a) + len(kw) != 1:
                    I.throw('TypeError', '%s() takes one argument' % name)
                t = I.force(a[0] if a else next(iter(kw.values())))
                sess.log.append((name, kt, t))
                if raising and name in raising:
                    e = raising[name]
                    if lenient != 'once' or not any(x[0] == name and x[1] is kt for x in sess.log[:-1]):
                        raise PyRaise(e)
                if not isinstance(t, Arr) or t.ndim != 1:
                    raise Bail('contribution called with something other than the temperature array: %r' % (t,))
                i, j = fresh_ixs(2)
                tt = t.at((j,))
                if values and letter in values:
                    body = values[letter](i, tt)
                else:
                    body = T.app(letter + mark, kt, i, tt)
                ck = (letter, t.buf, t.bix, T.show(tt))
                if cached and ck in store:
                    return store[ck]
                r = new_arr((n, t.dims[0]), (i, j), body, dt, ('contribution', kt, letter), 'contribution')
                store[ck] = r
                return r
            return Native(name, f)
        table = {'calc_part_func': 'Z', 'calc_part_func_w': 'W', 'calc_part_func_v': 'V'}

        def get(I, attr):
            if attr in table and attr not in lacking:
                return method(attr, table[attr])
            return MISSING
        h = Host('contribution', get, ('contribution', kt) if not mark else ('copy', kt), None)
        h.sub = lambda m: h if T.subst(kt, m) is kt else self.opaque(T.subst(kt, m), N_, names, raising, lacking, values, dt, cached, mark, lenient)
        # a copy of a contribution need not answer what the contribution itself does
        h.twin = lambda: self.opaque(kt, N_, names, raising, lacking, values, dt, cached, mark + 'copy', lenient)
        return h

    def opaques(self, kdim, **kw):
        """Items for a list of kdim opaque contributions."""
        if kdim.op == 'num' and kdim.args[0] <= 12:
            return [self.opaque(i, **kw) for i in range(int(kdim.args[0]))]
        k = T.fresh_idx('k')
        IXDIM[k] = kdim
        return [Seg(kdim, k, self.opaque(k, **kw))]

    def sup_opaque(self, kdim=None, **kw):
        o, p = self.call(self.cls('SuperpositionApproximation'))
        self.meth(o, 'add_partition_functions', Lst(self.opaques(kdim if kdim is not None else self.dims.K, **kw)))
        return o


def excname(e):
    n = e.cls.name if isinstance(e, Inst) else str(e)
    a = e.c.get('args') if isinstance(e, Inst) else None
    return '%s(%s)' % (n, ', '.join(str(x) for x in a)) if a else n


# ---------------------------------------------------------------- terms
def prodk(kdim, f):
    if kdim.op == 'num' and kdim.args[0] <= 12:
        return T.mul(T.num(1), *[f(T.num(i)) for i in range(int(kdim.args[0]))])
    k = T.fresh_idx('k')
    IXDIM[k] = kdim
    return T.red('prod', k, kdim, f(k))


def sumd(d, f):
    if d.op == 'num' and d.args[0] <= 12:
        return T.add(T.num(0), *[f(T.num(i)) for i in range(int(d.args[0]))])
    k = T.fresh_idx('q')
    IXDIM[k] = d
    return T.red('sum', k, d, f(k))


prodd = prodk


def map_leaves(t, fn, memo=None):
    """Rebuild t with fn applied to every elem/app/sym/idx/dim leaf (None: keep)."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    args = [map_leaves(a, fn, memo) if isinstance(a, T.Term) else a for a in t.args]
    r = T.rebuild(t, args)
    if t.op in ('elem', 'app', 'sym', 'idx', 'dim'):
        q = fn(r)
        if q is not None:
            r = q
    memo[t.id] = r
    return r


def same_ix(a, b):
    """Provably equal index terms."""
    if a is b:
        return True
    try:
        x, y = _ixev.run(a), _ixev.run(b)
        if len(x) == 1 and len(y) == 1:
            with N.using(_ixev.ctx):
                return N.equal(x[0][1], y[0][1])
    except Undecided:
        pass
    return False


_ixev = Evaluator(N.Ctx({}))


def tidy(t):
    """Index arithmetic written as one sum in a fixed order."""
    memo = {}

    def lin(x):
        """Linear form {base or None: factor}, or None."""
        if x.op == 'num':
            return {None: x.args[0]}
        if x.op in ('idx', 'dim'):
            return {x: Fr(1)}
        if x.op == 'add':
            d = {}
            for a in x.args:
                l = lin(a)
                if l is None:
                    return None
                for k, c in l.items():
                    d[k] = d.get(k, 0) + c
            return d
        if x.op == 'mul':
            d = {None: Fr(1)}
            for a in x.args:
                l = lin(a)
                if l is None:
                    return None
                if set(l) <= {None}:
                    d = {k: c * l.get(None, 0) for k, c in d.items()}
                elif set(d) <= {None}:
                    d = {k: c * d.get(None, 0) for k, c in l.items()}
                else:
                    return None
            return d
        return None

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if not any(isinstance(a, T.Term) for a in x.args):
                r = x
            else:
                l = lin(x) if x.op in ('add', 'mul') else None
                if l is not None:
                    ks = sorted((k for k in l if k is not None and l[k]), key=lambda k: k.id)
                    ps = [k if l[k] == 1 else T.mul(T.num(l[k]), k) for k in ks]
                    if l.get(None) or not ps:
                        ps.append(T.num(l.get(None, Fr(0))))
                    r = ps[0] if len(ps) == 1 else T.add(*ps)
                else:
                    r = T.rebuild(x, [go(a) if isinstance(a, T.Term) else a for a in x.args])
            memo[x.id] = r
        return r
    return go(t)


def alpha(t):
    """Bound indices renamed canonically (by nesting height)."""
    t = tidy(t)
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if not any(isinstance(a, T.Term) for a in x.args):
            r = (x, 0)
        elif x.op == 'red':
            op, ix, dm, body = x.args
            d, hd = go(dm)
            b, hb = go(body)
            new = T.idx('_h%d' % hb)
            if new not in IXDIM:
                IXDIM[new] = d
            r = (T.red(op, new, d, T.subst(b, {ix: new})), max(hd, hb + 1))
        else:
            h = 0
            args = []
            for a in x.args:
                if isinstance(a, T.Term):
                    a, ha = go(a)
                    h = max(h, ha)
                args.append(a)
            r = (T.rebuild(x, args), h)
        memo[x.id] = r
        return r
    return go(t)[0]


def at_T0(t, ix=COL):
    """The term at temperature zero (entry ix of T)."""
    def f(x):
        if x.op == 'elem' and x.args[0] == 'T' and same_ix(x.args[1], ix):
            return T.num(0)
    return map_leaves(t, f)


# ---------------------------------------------------------------- obligations over terms
def cases(t, ctx):
    return Evaluator(ctx).run(t)


def ctxof(decl=None, **kw):
    d = dict(DECL)
    d['T'] = POS
    d.update(decl or {})
    d.update(kw)
    return N.Ctx(d)


def prove_equal(got, want, ctx, what, site, assume=(), integers=('g', 's')):
    """got == want for all leaf values allowed by ctx: proved, or refuted by a separating assignment."""
    if got is want or alpha(got) is alpha(want):
        return
    for ix in free_small(got, want, 1):
        return prove_equal(T.subst(got, {ix: T.num(0)}), T.subst(want, {ix: T.num(0)}), ctx, what, site, assume, integers)
    why = None
    try:
        ev = Evaluator(ctx)
        bad = compare(ev.run(got), ev.run(want), ctx)
        if not bad:
            return
        why = 'normal forms differ where %r: %s vs %s' % (bad[0][0], showv(bad[0][1])[:400], showv(bad[0][2])[:400])
    except Undecided as e:
        why = 'normal form: %s' % e
    for ix in free_small(got, want, 6):
        for i in range(int(IXDIM[ix].args[0])):
            m = {ix: T.num(i)}
            prove_equal(T.subst(got, m), T.subst(want, m), ctx, what, site, assume, integers)
        return
    w = W.separate(got, want, ctx.decl, assume=assume, integers=integers)
    if w is None:
        w = W.separate(got, want, ctx.decl, assume=assume, integers=())
    if w:
        raise Viol('%s: computed %s expected %s; gives %s' % (what, short(got), short(want), w), site)
    raise Undecided('%s: %s' % (what, why))


def replace(t, old, new):
    """Every occurrence of the subterm old replaced."""
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x.id)
        if r is None:
            r = T.rebuild(x, [go(a) if isinstance(a, T.Term) else a for a in x.args]) if any(isinstance(a, T.Term) for a in x.args) else x
            memo[x.id] = r
        return r
    return go(t)


def free_small(got, want, limit):
    """Free indices of a known small range."""
    bound = {x.args[1] for t in (got, want) for x in T.walk(t) if x.op == 'red'}
    return [x for t in (got, want) for x in T.walk(t) if x.op == 'idx' and x not in bound and
            x in IXDIM and IXDIM[x].op == 'num' and IXDIM[x].args[0] <= limit][:1]


def short(t, n=260):
    s = T.show(t)
    return s if len(s) <= n else s[:n] + '...'


def prove_true(cond, ctx, what, site, assume=()):
    try:
        r = Evaluator(ctx).run(cond)
        if all(v is True for _, v in r):
            return
        why = 'not shown: %s' % short(cond)
    except Undecided as e:
        why = str(e)
    w = W.holds(T.not_(cond), ctx.decl, assume=assume)
    if w:
        raise Viol('%s fails: %s' % (what, w.split(' at ', 1)[-1]), site)
    raise Undecided('%s: %s' % (what, why))


def prove_finite(t, ctx, what, site, assume=()):
    """No NaN, infinity or uninitialised memory for any leaf values allowed by ctx."""
    try:
        r = Evaluator(ctx).run(t)
        if all(isinstance(v, (N.NF, bool)) for _, v in r):
            return
        why = 'special value %s' % [v for _, v in r if not isinstance(v, (N.NF, bool))][0]
    except Undecided as e:
        why = str(e)
    for tries in (200,):
        for k in range(tries):
            asg = W.Assign('fin:%d' % k, ctx.decl, W.MODES[k % len(W.MODES)])
            ev = W.Ev(asg, {})
            try:
                if not all(ev.run(c) is True for c in assume):
                    continue
                v = ev.run(t)
            except (W.NoValue, ArithmeticError, RecursionError):
                continue
            if not (isinstance(v, bool) or W.isnum(v)):
                raise Viol('%s is %s: %s' % (what, v, W.describe(asg, ev, v, 'a finite value')), site)
    raise Undecided('%s: %s' % (what, why))


def need_arr(v, what, ndim=None):
    """The array behind a result value."""
    if isinstance(v, Choice):
        raise Undecided('%s is a conditional value' % what)
    if v is None:
        raise Viol('%s is None' % what)
    if isinstance(v, (Sc, int)) and not isinstance(v, bool):
        if ndim:
            raise Viol('%s is a scalar instead of a %d-dimensional array' % (what, ndim))
        return v
    if not isinstance(v, Arr):
        if isinstance(v, (Ext, Host)):
            raise Undecided('%s is not modelled: %r' % (what, v))
        raise Viol('%s is not an array: %r' % (what, v))
    if v.sel is not None:
        w = W.holds(T.not_(v.sel), DECL)
        if w:
            raise Viol('%s is a selection that leaves out entries where not %s (%s)' % (what, short(v.sel), w.split(' at ', 1)[-1]), v.buf.site)
        raise Undecided('%s is a masked selection' % what)
    if ndim is not None and v.ndim != ndim:
        raise Viol('%s has %d dimensions instead of %d' % (what, v.ndim, ndim), v.buf.site)
    return v


def need_shape(s, v, dims, what):
    v = need_arr(v, what, len(dims))
    for a, b in zip(v.dims, dims):
        if not s.I.dim_eq(a, b):
            w = W.separate(a, b, {})
            if w:
                raise Viol('%s has shape (%s) instead of (%s)' % (what, ', '.join(map(T.show, v.dims)), ', '.join(map(T.show, dims))),
                           v.buf.site)
            raise Undecided('%s: shape (%s)' % (what, ', '.join(map(T.show, v.dims))))
    return v


def left_out(e, files, decl):
    """A masked selection used as data in one of the files: a violation when the mask can be false."""
    if e.sel is not None and any(f in e.site for f in files):
        w = W.holds(T.not_(e.sel), {**DECL, **decl})
        if w:
            raise Viol('entries are left out where not %s (%s)' % (short(e.sel), w.split(' at ', 1)[-1]), e.site)
    raise e


def root_bufs(buf, seen=None):
    """All buffers a buffer may share memory with."""
    seen = seen if seen is not None else []
    if any(b is buf for b in seen):
        return seen
    seen.append(buf)
    o = buf.origin
    if isinstance(o, tuple):
        for x in o[1:]:
            if isinstance(x, Buf):
                root_bufs(x, seen)
    return seen


def bufs_of(v, out=None, seen=None, depth=0):
    """Buffers reachable from a value."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if depth > 8 or id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Arr):
        for b in root_bufs(v.buf):
            out[id(b)] = b
    elif isinstance(v, (tuple, list)):
        for x in v:
            bufs_of(x, out, seen, depth + 1)
    elif isinstance(v, (Lst, Tup, SetV)):
        for x in v.items:
            bufs_of(x.val if isinstance(x, Seg) else x, out, seen, depth + 1)
    elif isinstance(v, Dct):
        for x in v.c.values():
            bufs_of(x, out, seen, depth + 1)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            bufs_of(x, out, seen, depth + 1)
    elif isinstance(v, (Inst, Mod, Cls)):
        for x in list(v.c.values()):
            bufs_of(x, out, seen, depth + 1)
    return out


# ---------------------------------------------------------------- check driver
class Ob:
    __slots__ = ('name', 'status', 'detail', 'site', 'key', 'domain', 'secs')

    def __init__(self, name):
        self.name, self.status, self.detail, self.site, self.key, self.domain, self.secs = name, None, '', '?', None, '', 0.

    def __repr__(self):
        return '%s [%s] %s' % (self.name, self.status, self.detail)


PRECISE = [False]
PRECISE_CHECKS = ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C19', 'C20')


class Run:
    """Collects the obligations of one check."""

    def __init__(self, pid, tier='quick', budget=600., per=90, known=(), patience=90.):
        self.pid, self.tier = pid, tier
        PRECISE[0] = pid in PRECISE_CHECKS
        self.obs = []
        self.t0 = time.time()
        self.budget, self.per = budget, per
        self.active = {}
        self.known, self.patience = known, patience
        self.base = SESSIONS[0]
        self.workers = int(os.environ.get('OCCUSTAT_JOBS') or min(8, os.cpu_count() or 1))
        self.anchor = []

    def ob(self, name, fn, *domains, key=None):
        """One obligation.  fn(dom) is tried on domains[0]; when undecided there, all domains of
        the fallback list domains[1] must be decided.  Without domains: fn().  Each obligation runs
        in a process of its own, so that neither its memory nor its caches outlive it."""
        o = Ob(name)
        o.key = key
        self.obs.append(o)
        if self.enough():
            o.status, o.detail = 'undecided', 'not examined: the check has found violations and used its share of time'
            return
        if self.workers <= 1:
            self.decide(o, fn, domains)
            return
        while len(self.active) >= self.workers:
            self.collect()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.decide(o, fn, domains)
                d = pickle.dumps((o.status, o.detail, o.site, o.key, o.domain, o.secs, VISITED, SESSIONS[0] - self.base))
                with os.fdopen(w, 'wb') as f:
                    f.write(d)
            finally:
                os._exit(0)
        os.close(w)
        self.active[r] = (pid, o, [])

    def enough(self):
        """A violation is known and deciding the rest would only add to the wait."""
        return time.time() - self.t0 > self.patience and any(o.status == 'violation' and o.key not in self.known for o in self.obs)

    def collect(self):
        """Waits for some running obligation."""
        rd, _, _ = select.select(list(self.active), [], [], 5)
        if self.enough():
            for r in list(self.active):
                if r not in rd:
                    pid, o, parts = self.active.pop(r)
                    os.close(r)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    o.status, o.detail = 'undecided', 'not finished: the check has found violations and used its share of time'
        for r in rd:
            pid, o, parts = self.active[r]
            x = os.read(r, 1 << 20)
            if x:
                parts.append(x)
                continue
            os.close(r)
            del self.active[r]
            os.waitpid(pid, 0)
            try:
                o.status, o.detail, o.site, o.key, o.domain, o.secs, vis, n = pickle.loads(b''.join(parts))
                VISITED.update(vis)
                SESSIONS[0] += n
            except Exception:
                o.status, o.detail = 'undecided', 'the process of this obligation ended without a result'

    def finish(self):
        while self.active:
            self.collect()

    def decide(self, o, fn, domains):
        name = o.name
        t = time.time()
        if not domains:
            self.attempt(o, fn, ())
        else:
            self.attempt(o, fn, (domains[0],))
            o.domain = repr(domains[0])
            if o.status == 'undecided' and len(domains) > 1:
                first = o.detail
                bad = None
                for d in domains[1]:
                    self.attempt(o, fn, (d,))
                    if o.status == 'violation':
                        o.domain = repr(d)
                        break
                    if o.status == 'undecided':
                        bad = o.detail
                if o.status != 'violation' and hasattr(domains[1][0], 'extra'):
                    # sizes on both sides of the integer constants of the source; a gap here is not held against the code
                    stop = time.time() + 0.6 * self.per
                    for d in domains[1][0].extra():
                        if time.time() > stop:
                            break
                        p = Ob(name)
                        self.attempt(p, fn, (d,), self.per / 6)
                        if p.status == 'violation':
                            o.status, o.detail, o.site, o.key, o.domain = p.status, p.detail, p.site, p.key, repr(d)
                            break
                if o.status != 'violation':
                    if bad is not None:
                        o.status, o.detail = 'undecided', '%s; on small sizes: %s' % (first, bad)
                    else:
                        o.status, o.detail = 'ok-small', 'general sizes undecided (%s)' % first
                        o.domain = ' / '.join(repr(d) for d in domains[1])
        o.secs = time.time() - t

    def attempt(self, o, fn, args, per=None):
        left = self.budget - (time.time() - self.t0)
        if left < 2:
            o.status, o.detail = 'undecided', 'time budget used up'
            return
        old = signal.signal(signal.SIGALRM, _alarm)
        if memory() > LIMIT['mem']:
            o.status, o.detail = 'undecided', 'memory budget used up'
            return
        # repeated: an alarm that lands in a handler of the code below is not lost
        LIMIT['t'] = time.time() + max(1., min(per or self.per, left))
        signal.setitimer(signal.ITIMER_REAL, 0.5, 0.5)
        try:
            r = fn(*args)
            o.status, o.detail = 'ok', r or ''
        except Viol as e:
            o.status, o.detail, o.site = 'violation', e.what, e.site or '?'
            if e.key:
                o.key = e.key
        except PyRaise as e:
            o.status = 'violation'
            o.detail, o.site = 'raises %s' % excname(e.exc), getattr(e.exc, 'where', '?')
        except AnchorMissing as e:
            o.status, o.detail = 'anchor', str(e)
        except (Undecided, Bail) as e:
            o.status, o.detail = 'undecided', '%s: %s' % (type(e).__name__, str(e)[:500])
        except Timeout:
            o.status, o.detail = 'undecided', 'time limit of this obligation'
        except (MemoryError, OutOfMemory):
            o.status, o.detail = 'undecided', 'memory limit of this obligation'
        except RecursionError:
            o.status, o.detail = 'undecided', 'term too deep'
        except Exception as e:          # a fault of the analyser is never a verdict
            tb = traceback.extract_tb(e.__traceback__)
            where = ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
            o.status, o.detail = 'undecided', 'internal %s: %s (%s)' % (type(e).__name__, str(e)[:300], where)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
