"""Refutation of term equality.

Two closed-form terms of the value graph whose normal forms differ are reported
as different only when some assignment of their leaves separates them: the terms
(never the program) are evaluated in exact/high-precision extended-real
arithmetic.  No separating assignment found means: not refuted, undecided.
"""
from decimal import Decimal, Context, Inexact, Overflow, Underflow, InvalidOperation, DivisionByZero, localcontext, \
    ROUND_FLOOR, ROUND_CEILING, ROUND_HALF_EVEN, ROUND_DOWN
from fractions import Fraction
import random
from . import terms as T
from .values import IXDIM

INF, NINF, NAN, UNINIT = 'inf', '-inf', 'nan', 'uninit'
CTX = Context(prec=50, Emax=10**17, Emin=-10**17, traps=[InvalidOperation, DivisionByZero, Overflow])
# for confirming a difference: rounding in a sum that cancels shrinks with the precision, a difference does not
FINE = Context(prec=130, Emax=10**17, Emin=-10**17, traps=[InvalidOperation, DivisionByZero, Overflow])
_ctx = [CTX]


class NoValue(Exception):
    pass


def D(x):
    if isinstance(x, Fraction):
        return _ctx[0].divide(Decimal(x.numerator), Decimal(x.denominator))
    return Decimal(x)


class Sorted(list):
    """Value of a sorted axis; only picked from."""


class Assign:
    """One pseudo-random assignment of all leaves."""

    def __init__(self, seed, decl, mode, dims=None, integers=(), sizes=(), consts=()):
        self.sizes = sizes
        self.consts = consts
        self.rng_seed = seed
        self.decl = decl
        self.mode = mode
        self.integers = integers
        self.vals = {}
        self.dims = dict(dims or {})

    def rnd(self, key):
        return random.Random('%s|%s' % (self.rng_seed, key))

    def dim(self, name):
        if name not in self.dims:
            r = self.rnd(('dim', name))
            if self.sizes and r.random() < (0.5 if self.mode == 'const' else 0.3) and max(self.dims.values(), default=0) < 65:
                self.dims[name] = r.choice(self.sizes)
            else:
                self.dims[name] = r.choice([1, 2, 2, 3])
        return self.dims[name]

    def leaf(self, name, key):
        if key in self.vals:
            return self.vals[key]
        r = self.rnd(key)
        s = self.decl.get(name, frozenset('-0+'))
        mode = self.mode
        if mode == 'unit':
            v = Decimal(r.randint(20, 300)) / 100
        elif mode == 'few':
            v = Decimal(r.choice([1, 1, 2, 3]))
        elif mode == 'small':
            v = Decimal(r.randint(1, 999)).scaleb(r.randint(-12, -3))
        elif mode == 'scale':
            # all elements of one quantity of the same order of magnitude
            v = (Decimal(r.randint(20, 300)) / 100).scaleb(self.rnd(('scale', name)).randint(-7, 7))
        elif mode == 'close':
            # nearly equal elements of one quantity
            q = self.rnd(('scale', name))
            v = (Decimal(q.randint(20, 300)) / 100).scaleb(q.randint(-2, 3))
            v += Decimal(r.randint(0, 999)).scaleb(-q.randint(3, 12))
        elif mode == 'big':
            v = Decimal(r.randint(1, 999)).scaleb(r.randint(0, 6))
        elif mode == 'const':
            # around the constants of the terms
            q = self.rnd(('const', name))
            q = r if q.random() < 0.5 else q
            v = q.choice(self.consts or [Decimal(1)])
            v = v * r.choice([Decimal(1), Decimal(1), Decimal(1), Decimal('0.5'), Decimal(2), Decimal('0.1'), Decimal(10),
                              Decimal('0.999999'), Decimal('1.000001')])
            if r.random() < 0.1:
                v = 1 / v
        else:
            v = Decimal(r.randint(1, 999)).scaleb(r.randint(-8, 5))
        if name in self.integers:
            if mode == 'const' and 2 <= v < 10 ** 9:
                v = v.to_integral_value() + r.choice([-1, 0, 1, 1])
            else:
                v = Decimal(r.randint(1, 4))
        opts = []
        if '+' in s:
            opts += [1, 1, 1]
        if '-' in s:
            opts += [-1, -1]
        if '0' in s and mode in ('few', 'mixed'):
            opts += [0]
        q = self.rnd(('sign', name))
        v = v * (q if q.random() < 0.4 else r).choice(opts or [0])
        self.vals[key] = v
        return v


def isnum(v):
    return isinstance(v, Decimal)


class Ev:
    def __init__(self, asg, env):
        self.a = asg
        self.env = env
        self.memo = {}
        self.steps = 0

    def key(self, t):
        fr = T.free(t)
        return (t.id,) + tuple(sorted((i.args[0], self.env.get(i, None)) for i in fr))

    def run(self, t):
        with localcontext(_ctx[0]):
            return self.ev(t)

    def ev(self, t):
        k = self.key(t)
        if k in self.memo:
            return self.memo[k]
        self.steps += 1
        if self.steps > 60000:
            raise NoValue('budget')
        m = getattr(self, 'e_' + t.op, None)
        if m is None:
            raise NoValue(t.op)
        v = m(t)
        self.memo[k] = v
        return v

    def num(self, v):
        if v is True:
            return Decimal(1)
        if v is False:
            return Decimal(0)
        return v

    def n(self, t):
        return self.num(self.ev(t))

    def e_num(self, t):
        return D(t.args[0])

    def e_sym(self, t):
        n = t.args[0]
        if n in self.a.vals:
            return self.a.vals[n]
        return self.a.leaf(n, n)

    def e_dim(self, t):
        return Decimal(self.a.dim(t.args[0]))

    def e_idx(self, t):
        v = self.env.get(t)
        if v is None:
            d = IXDIM.get(t)
            if d is None:
                raise NoValue('free index')
            n = self.n(d)
            if n < 1:
                raise NoValue('empty axis')
            v = self.a.rnd(('ix', t.args[0])).randint(0, int(n) - 1)
            self.env[t] = v
        return Decimal(v)

    def e_elem(self, t):
        ix = []
        for x in t.args[1:]:
            v = self.n(x)
            if not isnum(v):
                raise NoValue('index')
            ix.append(str(v.normalize()))
        return self.a.leaf(t.args[0], '%s[%s]' % (t.args[0], ','.join(ix)))

    def e_app(self, t):
        ix = []
        for x in t.args[1:]:
            if not isinstance(x, T.Term):
                ix.append(str(x))
                continue
            v = self.n(x)
            ix.append(v if not isnum(v) else '%.30e' % v)
        if NAN in ix and not str(t.args[0]).startswith('?'):
            return NAN
        return self.a.leaf(t.args[0], '%s(%s)' % (t.args[0], ','.join(ix)))

    def e_inf(self, t):
        return INF

    def e_nan(self, t):
        return NAN

    def e_uninit(self, t):
        return UNINIT

    def e_true(self, t):
        return True

    def e_false(self, t):
        return False

    def e_cast(self, t):
        return self.ev(t.args[1])

    # arithmetic
    def add2(self, a, b):
        if UNINIT in (a, b):
            return UNINIT
        if isnum(a) and isnum(b):
            return a + b
        if a == NAN or b == NAN:
            return NAN
        if isnum(a):
            return b
        if isnum(b):
            return a
        return a if a == b else NAN

    def sg(self, v):
        if isnum(v):
            return (v > 0) - (v < 0)
        return 1 if v == INF else -1

    def mul2(self, a, b):
        if UNINIT in (a, b):
            return UNINIT
        if isnum(a) and isnum(b):
            return a * b
        if a == NAN or b == NAN:
            return NAN
        s = self.sg(a) * self.sg(b)
        return INF if s > 0 else NINF if s < 0 else NAN

    def e_add(self, t):
        r = Decimal(0)
        for x in t.args:
            r = self.add2(r, self.n(x))
        return r

    def e_mul(self, t):
        r = Decimal(1)
        for x in t.args:
            r = self.mul2(r, self.n(x))
        return r

    def div2(self, a, b):
        if UNINIT in (a, b):
            return UNINIT
        if a == NAN or b == NAN:
            return NAN
        if isnum(b):
            if b == 0:
                s = self.sg(a)
                return NAN if s == 0 else INF if s > 0 else NINF
            if isnum(a):
                return a / b
            return a if b > 0 else (NINF if a == INF else INF)
        return Decimal(0) if isnum(a) else NAN

    def e_div(self, t):
        return self.div2(self.n(t.args[0]), self.n(t.args[1]))

    def e_pow(self, t):
        a, b = self.n(t.args[0]), self.n(t.args[1])
        if UNINIT in (a, b):
            return UNINIT
        if isnum(b) and b == 0 or isnum(a) and a == 1:
            return Decimal(1)
        if a == NAN or b == NAN:
            return NAN
        if isnum(a) and isnum(b):
            if b == b.to_integral_value() and abs(b) < 10000:
                if a == 0 and b < 0:
                    return INF
                return a ** int(b)
            if a < 0:
                return NAN
            if a == 0:
                return Decimal(0) if b > 0 else INF
            return self.exp(b * a.ln())
        if a == INF:
            return INF if self.sg(b) > 0 else Decimal(0)
        if a == NINF:
            if isnum(b) and b == b.to_integral_value():
                return Decimal(0) if b < 0 else NINF if int(b) % 2 else INF
            if isnum(b):
                return INF if b > 0 else Decimal(0)
            return INF if b == INF else Decimal(0)
        if abs(a) > 1:
            return INF if b == INF else Decimal(0)
        if abs(a) < 1:
            return Decimal(0) if b == INF else INF
        return Decimal(1)

    def exp(self, x):
        if not isnum(x):
            return {INF: INF, NINF: Decimal(0)}.get(x, x)
        if abs(x) > Decimal(10) ** 15:
            raise NoValue('exponent range')
        return x.exp()

    def e_exp(self, t):
        return self.exp(self.n(t.args[0]))

    def e_log(self, t):
        x = self.n(t.args[0])
        if not isnum(x):
            return {INF: INF, UNINIT: UNINIT}.get(x, NAN)
        if x < 0:
            return NAN
        return NINF if x == 0 else x.ln()

    def e_sinh(self, t):
        x = self.n(t.args[0])
        if not isnum(x):
            return x
        if abs(x) < Decimal('1e-12'):
            return x + x ** 3 / 6
        return (self.exp(x) - self.exp(-x)) / 2

    def e_cosh(self, t):
        x = self.n(t.args[0])
        if not isnum(x):
            return {NINF: INF}.get(x, x)
        return (self.exp(x) + self.exp(-x)) / 2

    def e_tanh(self, t):
        x = self.n(t.args[0])
        if not isnum(x):
            return {NINF: Decimal(-1), INF: Decimal(1)}.get(x, x)
        if abs(x) > 200:
            return Decimal(1) if x > 0 else Decimal(-1)
        if abs(x) < Decimal('1e-12'):
            return x - x ** 3 / 3
        a, b = self.exp(x), self.exp(-x)
        return (a - b) / (a + b)

    def e_abs(self, t):
        x = self.n(t.args[0])
        if not isnum(x):
            return {NINF: INF}.get(x, x)
        return abs(x)

    def e_sign(self, t):
        x = self.n(t.args[0])
        if x in (NAN, UNINIT):
            return x
        return Decimal(self.sg(x))

    def rnd_(self, t, mode):
        x = self.n(t.args[0])
        if not isnum(x):
            return x
        if abs(x) > Decimal(10) ** 40:
            return x
        return x.quantize(Decimal(1), rounding=mode)

    def e_floor(self, t):
        return self.rnd_(t, ROUND_FLOOR)

    def e_ceil(self, t):
        return self.rnd_(t, ROUND_CEILING)

    def e_trunc(self, t):
        return self.rnd_(t, ROUND_DOWN)

    def e_round(self, t):
        return self.rnd_(t, ROUND_HALF_EVEN)

    # logic
    def cmp(self, t):
        a, b = self.n(t.args[0]), self.n(t.args[1])
        if UNINIT in (a, b):
            raise NoValue('comparison of uninitialised memory')
        if a == NAN or b == NAN:
            return None
        rank = lambda v: (0, v) if isnum(v) else (1, 0) if v == INF else (-1, 0)
        x, y = rank(a), rank(b)
        return (x > y) - (x < y)

    def e_lt(self, t):
        return self.cmp(t) == -1

    def e_le(self, t):
        return self.cmp(t) in (-1, 0)

    def e_eq(self, t):
        return self.cmp(t) == 0

    def b(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if isnum(v):
            return v != 0
        return True

    def e_not(self, t):
        return not self.b(t.args[0])

    def e_and(self, t):
        return self.b(t.args[0]) and self.b(t.args[1])

    def e_or(self, t):
        return self.b(t.args[0]) or self.b(t.args[1])

    def e_ite(self, t):
        return self.ev(t.args[1] if self.b(t.args[0]) else t.args[2])

    def e_isnan(self, t):
        return self.ev(t.args[0]) == NAN

    def e_isinf(self, t):
        return self.ev(t.args[0]) in (INF, NINF)

    def e_isfinite(self, t):
        v = self.ev(t.args[0])
        return isinstance(v, bool) or isnum(v)

    def e_pick(self, t):
        r = self.ev(t.args[0])
        p = self.n(t.args[1])
        if not isinstance(r, Sorted) or not isnum(p) or not 0 <= p < len(r):
            raise NoValue('pick')
        return r[int(p)]

    def e_red(self, t):
        op, ix, dimt, body = t.args
        d = self.n(dimt)
        if not isnum(d) or d != d.to_integral_value() or d > 4000:
            raise NoValue('axis length')
        d = int(d)
        old = self.env.get(ix)
        vals = []
        try:
            for i in range(d):
                self.env[ix] = i
                vals.append(self.ev(body))
        finally:
            if old is None:
                self.env.pop(ix, None)
            else:
                self.env[ix] = old
        if op == 'any':
            return any(v if isinstance(v, bool) else v != 0 for v in vals)
        if op == 'all':
            return all(v if isinstance(v, bool) else v != 0 for v in vals)
        vals = [self.num(v) for v in vals]
        if op == 'sum':
            r = Decimal(0)
            for v in vals:
                r = self.add2(r, v)
            return r
        if op == 'prod':
            r = Decimal(1)
            for v in vals:
                r = self.mul2(r, v)
            return r
        if op == 'sort':
            if NAN in vals or UNINIT in vals:
                raise NoValue('sort')
            return Sorted(sorted(vals, key=lambda v: (0, v) if isnum(v) else (1, Decimal(0)) if v == INF else (-1, Decimal(0))))
        if op in ('argmin', 'argmax'):
            if not vals or UNINIT in vals or NAN in vals:
                raise NoValue(op)
            rank = lambda v: (0, v) if isnum(v) else (1, Decimal(0)) if v == INF else (-1, Decimal(0))
            ks = [rank(v) for v in vals]
            return Decimal(ks.index((min if op == 'argmin' else max)(ks)))
        if op in ('min', 'max'):
            if not vals:
                raise NoValue('empty')
            if UNINIT in vals:
                return UNINIT
            if NAN in vals:
                return NAN
            rank = lambda v: (0, v) if isnum(v) else (1, Decimal(0)) if v == INF else (-1, Decimal(0))
            return (min if op == 'min' else max)(vals, key=rank)
        raise NoValue('reduction ' + op)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = (Decimal(int(x)) if isinstance(x, bool) else x for x in (a, b))
    if isnum(a) and isnum(b):
        if a == b:
            return True
        with localcontext(CTX):
            return abs(a - b) <= Decimal('1e-9') * max(abs(a), abs(b))
    return a == b and a != UNINIT


MODES = ['unit', 'few', 'mixed', 'scale', 'big', 'const', 'small', 'close', 'few', 'scale', 'mixed', 'const']


def sizes_near(ts):
    """(axis lengths next to the numbers of the terms, those numbers)"""
    seen, cs, all_ = set(), set(), set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'num':
            v = abs(t.args[0])
            if v not in (0, 1, 2, -1):
                all_.add(v)
            if v == int(v) and 3 <= v <= 1000:
                cs.add(int(v))
            elif 0 < v < 1:
                cs.update(int(q) for q in (1 / v, 1 / (1 - v)) if 3 <= q <= 2000)
        st.extend(a for a in t.args if isinstance(a, T.Term))
    return sorted({x for c in cs for x in (c - 1, c, c + 1, 2 * c + 1) if x > 3}), [D(x) for x in sorted(all_)]


def separate(ta, tb, decl=None, tries=200, seed=1, assume=(), dims=None, integers=(), fixed=None):
    """Assignment under which the two terms differ (and all `assume` terms hold), or None."""
    sz, cn = sizes_near((ta, tb) + tuple(assume))
    for k in range(tries):
        asg = Assign('%s:%s' % (seed, k), decl or {}, MODES[k % len(MODES)], dims, integers, sz, cn)
        if fixed:
            asg.vals.update(fixed)
        ev = Ev(asg, {})
        try:
            if not all(ev.run(c) is True for c in assume):
                continue
            a = ev.run(ta)
            b = ev.run(tb)
        except (NoValue, InvalidOperation, Overflow, DivisionByZero, RecursionError):
            continue
        if not close(a, b) and not rounding(asg, ta, tb, a, b):
            return describe(asg, ev, a, b)
    return None


def rounding(asg, ta, tb, a, b):
    """The difference is due to the precision of this evaluation."""
    _ctx[0] = FINE
    try:
        ev = Ev(asg, {})
        x, y = ev.run(ta), ev.run(tb)
    except (NoValue, InvalidOperation, Overflow, DivisionByZero, RecursionError):
        return True
    finally:
        _ctx[0] = CTX
    if close(x, y):
        return True
    if not all(isnum(v) for v in (a, b, x, y)):
        return False
    with localcontext(FINE):
        return abs(x - y) < Decimal('1e-15') * abs(a - b)


def holds(cond, decl=None, tries=200, seed=1, assume=(), dims=None, integers=()):
    """Assignment under which the boolean term is true, or None."""
    return separate(T.ite(cond, T.num(1), T.num(0)), T.num(0), decl, tries, seed, assume, dims, integers)


def fmt(v):
    return '%.6g' % float(v) if isnum(v) and abs(v) < Decimal('1e300') else str(v)


def describe(asg, ev, a, b):
    parts = ['%s=%d' % (k, v) for k, v in sorted(asg.dims.items())]
    parts += ['%s=%d' % (k.args[0], v) for k, v in sorted(ev.env.items(), key=lambda q: q[0].args[0]) if '.' not in k.args[0]]
    parts += ['%s=%s' % (k, fmt(v)) for k, v in sorted(asg.vals.items())][:24]
    return '%s instead of %s at %s' % (fmt(a) if not isinstance(a, bool) else a, fmt(b) if not isinstance(b, bool) else b,
                                       ', '.join(parts))
