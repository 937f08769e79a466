"""Evaluation of value-graph terms into guarded cases of NF / IEEE values."""
from fractions import Fraction
from . import terms as T
from . import nf as N
from .nf import Undecided, ALL, POS, NEG, ZERO, NONNEG

INF, NINF, NAN, UNINIT = 'inf', '-inf', 'nan', 'uninit'
SPECIAL = (INF, NINF, NAN, UNINIT)


class Guard:
    """Conjunction of sign restrictions {canonical NF: signset}."""
    __slots__ = ('d', 'key')

    def __init__(self, d):
        self.d = d
        self.key = tuple(sorted((k.id, ''.join(sorted(v))) for k, v in d.items()))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key

    def __repr__(self):
        return ' & '.join('%s in {%s}' % (N.show(k), ''.join(sorted(v))) for k, v in self.d.items()) or 'always'


TRUEG = Guard({})


def gmerge(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if a.key == b.key:
        return a
    d = dict(a.d)
    for k, v in b.d.items():
        if k in d:
            v = v & d[k]
            if not v:
                return None
        d[k] = v
    g = Guard(d)
    return g if feasible(g) else None


_feas = {}


def feasible(g):
    key = (g.key, N.ctx().uid)
    r = _feas.get(key)
    if r is None:
        r = _feas[key] = _feasible(g)
    return r


def _feasible(g):
    eqs = equations(g)
    for k, v in g.d.items():
        if v == ZERO and not eqs:
            s = N.sign(k)
            if not (s & v):
                return False
            continue
        n = k
        if eqs:
            try:
                n = reduce_eqs(k, g)
            except Undecided:
                n = k
            if not n.t:
                if '0' not in v:
                    return False
                continue
        N._guards.append({kk: vv for kk, vv in g.d.items() if kk is not k})
        try:
            s = N.sign(n)
        finally:
            N._guards.pop()
        if not (s & v):
            return False
    return True


def equations(g):
    return [k for k, v in g.d.items() if v == ZERO]


_eqcache = {}


def eq_subst(g):
    """Substitution atom id -> NF solving the equations of g."""
    key = g.key
    r = _eqcache.get(key)
    if r is not None:
        return r
    mp = {}
    for p in equations(g):
        q = N.nsubst(p, mp) if mp else p
        best = None
        cands = sorted({a for m, _ in q.t for a, e in m.pw}, key=lambda a: _pref(a))
        for a in cands:
            if N._atoms[a].kind not in ('elem', 'sym', 'idx', 'app', 'sum', 'min'):
                continue
            s = N.solve(q, a)
            if s is not None:
                best = (a, s)
                break
        if best:
            a, s = best
            mp = {k: N.nsubst(v, {a: s}) for k, v in mp.items()}
            mp[a] = s
    _eqcache[key] = mp
    return mp


def _pref(a):
    at = N._atoms[a]
    return ({'elem': 0, 'app': 1, 'sym': 2, 'idx': 3, 'sum': 4, 'min': 5}.get(at.kind, 9), -len(at.free), a)


def reduce_eqs(n, g):
    mp = eq_subst(g)
    if mp and n.t:
        n = N.nsubst(n, mp)
    return n


def signg(n, g):
    if g.d:
        N._guards.append(g.d)
        try:
            if equations(g):
                n = reduce_eqs(n, g)
            return N.sign(n)
        finally:
            N._guards.pop()
    return N.sign(n)


def restrict(n, S, g):
    """Guard g plus sign(n) in S, or None."""
    if equations(g):
        n = reduce_eqs(n, g)
    N._guards.append(g.d)
    try:
        cur = N.sign(n)
    finally:
        N._guards.pop()
    S = S & cur
    if not S:
        return None
    if S == cur:
        return g
    q = N.strip_pos(n)
    q, flip = N.canon_lit(q)
    if flip:
        S = N.sneg(S)
    return gmerge(g, Guard({q: frozenset(S)}))


def split_sign(n, g):
    """[(sign char, guard)] for the feasible signs of n under g."""
    s = signg(n, g)
    if len(s) == 1:
        return [(next(iter(s)), g)]
    out = []
    for c in sorted(s):
        g2 = restrict(n, frozenset(c), g)
        if g2 is not None:
            out.append((c, g2))
    return out


def integral(x):
    """Integer-valued for all leaf values: sums of products of dimensions and indices with integer factors."""
    for m, k in x.t:
        if k != int(k):
            return False
        if m is N.M1:
            continue
        if m.ex is not None or not all(N._atoms[a].kind in ('dim', 'idx', 'bx') and e == int(e) and e > 0 for a, e in m.pw):
            return False
    return True


class Evaluator:
    """Evaluates terms in one fact context."""

    def __init__(self, ctx, assume=None):
        self.ctx = ctx
        self.memo = {}
        self.notes = []
        self.limit = 400

    def run(self, t):
        with N.using(self.ctx):
            return self.ev(t)

    # cases: list of (Guard, value)
    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            m = getattr(self, 'e_' + t.op, None)
            if m is None:
                raise Undecided('operation %s' % t.op)
            r = merge(m(t))
            if len(r) > self.limit:
                raise Undecided('too many cases')
            self.memo[t.id] = r
        return r

    def nfv(self, t):
        """Value that must be a single plain NF (used for indices and dims)."""
        r = self.ev(t)
        if len(r) == 1 and isinstance(r[0][1], N.NF):
            return r[0][1]
        raise Undecided('conditional index')

    def e_num(self, t):
        return [(TRUEG, N.const(t.args[0]))]

    def e_sym(self, t):
        return [(TRUEG, N.of_atom(N.atom('sym', t.args[0])))]

    def e_dim(self, t):
        return [(TRUEG, N.of_atom(N.atom('dim', t.args[0])))]

    def e_idx(self, t):
        return [(TRUEG, N.of_atom(N.atom('idx', t.args[0])))]

    def e_elem(self, t):
        combos = [(TRUEG, ())]
        for a in t.args[1:]:
            nxt = []
            for g, v in self.ev(a):
                if not isinstance(v, N.NF):
                    raise Undecided('index %s' % (v,))
                for g0, vs in combos:
                    g2 = gmerge(g0, g)
                    if g2 is not None:
                        nxt.append((g2, vs + (v,)))
            combos = nxt
        return [(g, N.of_atom(N.atom('elem', t.args[0], ix))) for g, ix in combos]

    def e_app(self, t):
        out = []
        for g, vs in self.product(t.args[1:]):
            if any(not isinstance(v, N.NF) for v in vs):
                if any(v == NAN for v in vs):
                    out.append((g, NAN))
                    continue
                vs = [v if isinstance(v, N.NF) else N.of_atom(N.atom('sym', 'special:%s' % v)) for v in vs]
            out.append((g, N.of_atom(N.atom('app', t.args[0], tuple(vs)))))
        return out

    def e_inf(self, t):
        return [(TRUEG, INF)]

    def e_nan(self, t):
        return [(TRUEG, NAN)]

    def e_uninit(self, t):
        return [(TRUEG, UNINIT)]

    def e_true(self, t):
        return [(TRUEG, True)]

    def e_false(self, t):
        return [(TRUEG, False)]

    def e_top(self, t):
        raise Undecided(str(t.args[0]))

    def e_hole(self, t):
        raise Undecided('unsolved loop recurrence')

    def e_cast(self, t):
        return self.ev(t.args[1])

    def product(self, ts):
        acc = [(TRUEG, [])]
        for t in ts:
            cs = self.ev(t)
            nxt = []
            for g, vs in acc:
                for g2, v in cs:
                    g3 = gmerge(g, g2)
                    if g3 is not None:
                        nxt.append((g3, vs + [v]))
            acc = nxt
            if len(acc) > self.limit:
                raise Undecided('too many cases')
        return acc

    def bin(self, a, b, f):
        out = []
        for g, (x, y) in self.product([a, b]):
            out.extend(f(g, x, y))
        return out

    def e_add(self, t):
        acc = self.ev(t.args[0])
        for a in t.args[1:]:
            cs = self.ev(a)
            nxt = []
            for g, x in acc:
                for g2, y in cs:
                    g3 = gmerge(g, g2)
                    if g3 is not None:
                        nxt.append((g3, v_add(x, y)))
            acc = merge(nxt)
        return acc

    def e_mul(self, t):
        acc = self.ev(t.args[0])
        for a in t.args[1:]:
            cs = self.ev(a)
            nxt = []
            for g, x in acc:
                for g2, y in cs:
                    g3 = gmerge(g, g2)
                    if g3 is not None:
                        nxt.extend(v_mul(g3, x, y))
            acc = merge(nxt)
        return acc

    def e_div(self, t):
        return self.bin(t.args[0], t.args[1], self.v_div)

    def v_div(self, g, x, y):
        x, y = tonum(x), tonum(y)
        if UNINIT in (x, y):
            return [(g, UNINIT)]
        if NAN in (x, y):
            return [(g, NAN)]
        if isinstance(y, N.NF):
            s = signg(y, g)
            if s == ZERO:
                if isinstance(x, N.NF):
                    return [(g2, NAN if c == '0' else (INF if c == '+' else NINF)) for c, g2 in split_sign(x, g)]
                return [(g, x)]
            if '0' in s and s != ALL and len(s) == 2 and not self.assume_nonzero(y):
                out = []
                for c, g2 in split_sign(y, g):
                    out.extend(self.v_div(g2, x, y))
                return out
            if isinstance(x, N.NF):
                return [(g, N.mul(x, N.inv(y)))]
            return [(g2, x if c == '+' else flip(x)) for c, g2 in split_sign(y, g) if c != '0']
        # y infinite
        if isinstance(x, N.NF):
            return [(g, N.ZERO_NF)]
        return [(g, NAN)]

    def assume_nonzero(self, y):
        return True

    def e_pow(self, t):
        return self.bin(t.args[0], t.args[1], self.v_pow)

    def v_pow(self, g, x, y):
        x, y = tonum(x), tonum(y)
        if UNINIT in (x, y):
            return [(g, UNINIT)]
        if isinstance(y, N.NF) and not y.t:
            return [(g, N.ONE)]
        if NAN in (x, y):
            return [(g, NAN)]
        if not isinstance(y, N.NF):
            raise Undecided('infinite exponent')
        if isinstance(x, N.NF):
            if N.is_const(y) and N.cval(y).denominator == 1 and N.cval(y) > 0:
                return [(g, N.powq(x, N.cval(y)))]
            out = []
            sx = signg(x, g)
            zero_possible = '0' in sx and (sx == ZERO or len(sx) == 2)
            if not zero_possible:
                if N.is_const(y) and N.cval(y).denominator != 1 and sx == NEG:
                    return [(g, NAN)]
                return [(g, N.power(x, y))]
            for c, g2 in split_sign(x, g):
                if c == '0':
                    for d, g3 in split_sign(y, g2):
                        out.append((g3, {'+': N.ZERO_NF, '0': N.ONE, '-': INF}[d]))
                else:
                    out.append((g2, N.power(x, y)))
            return out
        out = []
        for d, g3 in split_sign(y, g):
            if d == '-':
                out.append((g3, N.ZERO_NF))
            elif d == '0':
                out.append((g3, N.ONE))
            elif x == INF:
                out.append((g3, INF))
            else:
                if N.is_const(y) and N.cval(y).denominator == 1:
                    out.append((g3, INF if N.cval(y) % 2 == 0 else NINF))
                else:
                    out.append((g3, NAN))
        return out

    def un(self, t, f):
        out = []
        for g, x in self.ev(t.args[0]):
            x = tonum(x)
            if x in (NAN, UNINIT):
                out.append((g, x))
            else:
                out.extend(f(g, x))
        return out

    def e_exp(self, t):
        return self.un(t, lambda g, x: [(g, N.exp(x) if isinstance(x, N.NF) else INF if x == INF else N.ZERO_NF)])

    def e_log(self, t):
        def f(g, x):
            if not isinstance(x, N.NF):
                return [(g, INF if x == INF else NAN)]
            s = signg(x, g)
            if s == ZERO:
                return [(g, NINF)]
            if '0' in s and len(s) == 2:
                return [(g2, N.log(x) if c == '+' else NINF if c == '0' else NAN) for c, g2 in split_sign(x, g)]
            if s == NEG:
                return [(g, NAN)]
            return [(g, N.log(x))]
        return self.un(t, f)

    def e_sinh(self, t):
        return self.un(t, lambda g, x: [(g, N.scale(N.sub(N.exp(x), N.exp(N.scale(x, -1))), Fraction(1, 2))
                                         if isinstance(x, N.NF) else x)])

    def e_cosh(self, t):
        return self.un(t, lambda g, x: [(g, N.scale(N.add(N.exp(x), N.exp(N.scale(x, -1))), Fraction(1, 2))
                                         if isinstance(x, N.NF) else INF)])

    def e_tanh(self, t):
        def f(g, x):
            if not isinstance(x, N.NF):
                return [(g, N.const(1 if x == INF else -1))]
            if signg(x, g) == ZERO:
                return [(g, N.ZERO_NF)]
            a, b = N.exp(x), N.exp(N.scale(x, -1))
            return [(g, N.mul(N.sub(a, b), N.inv(N.add(a, b))))]
        return self.un(t, f)

    def e_abs(self, t):
        def f(g, x):
            if not isinstance(x, N.NF):
                return [(g, INF)]
            s = signg(x, g)
            if not (s - NONNEG):
                return [(g, x)]
            return [(g2, N.scale(x, -1) if c == '-' else x) for c, g2 in split_sign(x, g)]
        return self.un(t, f)

    def e_sign(self, t):
        def f(g, x):
            if not isinstance(x, N.NF):
                return [(g, N.const(1 if x == INF else -1))]
            return [(g2, N.const({'+': 1, '0': 0, '-': -1}[c])) for c, g2 in split_sign(x, g)]
        return self.un(t, f)

    def _opaque(self, name):
        def f(g, x):
            if not isinstance(x, N.NF):
                return [(g, x)]
            if N.is_const(x):
                import math
                v = N.cval(x)
                return [(g, N.const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                                     'round': round}[name](v)))]
            # integral constant shifts commute with floor/ceil
            sh = N.ZERO_NF
            if name in ('floor', 'ceil'):
                c = next((k for m, k in x.t if m is N.M1), 0)
                import math
                w = math.floor(c)
                if w:
                    sh = N.const(w)
                    x = N.sub(x, sh)
            if integral(x):
                return [(g, N.add(x, sh))]
            if name == 'trunc' and not (signg(x, g) - NONNEG):
                return self._opaque('floor')(g, N.add(x, sh))
            return [(g, N.add(sh, N.of_atom(N.atom('app', name, (x,)))))]
        return f

    def e_floor(self, t):
        return self.un(t, self._opaque('floor'))

    def e_ceil(self, t):
        return self.un(t, self._opaque('ceil'))

    def e_trunc(self, t):
        return self.un(t, self._opaque('trunc'))

    def e_round(self, t):
        return self.un(t, self._opaque('round'))

    # ---- conditions
    def cmp(self, t, want):
        def f(g, x, y):
            x, y = tonum(x), tonum(y)
            if UNINIT in (x, y):
                raise Undecided('comparison with uninitialised value')
            if NAN in (x, y):
                return [(g, False)]
            if isinstance(x, N.NF) and isinstance(y, N.NF):
                d = N.sub(x, y)
                return self.sign_cases(g, d, want)
            order = {NINF: 0, INF: 2}
            a = order.get(x, 1) if not isinstance(x, N.NF) else 1
            b = order.get(y, 1) if not isinstance(y, N.NF) else 1
            s = '0' if a == b else ('-' if a < b else '+')
            return [(g, s in want)]
        return self.bin(t.args[0], t.args[1], f)

    def sign_cases(self, g, d, want):
        s = signg(d, g)
        if not (s - want):
            return [(g, True)]
        if not (s & want):
            return [(g, False)]
        out = []
        g1 = restrict(d, frozenset(want), g)
        g2 = restrict(d, frozenset(s - want), g)
        if g1 is not None:
            out.append((g1, True))
        if g2 is not None:
            out.append((g2, False))
        return out

    def e_lt(self, t):
        return self.cmp(t, NEG)

    def e_le(self, t):
        return self.cmp(t, frozenset('-0'))

    def e_eq(self, t):
        return self.cmp(t, ZERO)

    def e_not(self, t):
        return [(g, not tobool(v)) for g, v in self.ev(t.args[0])]

    def e_and(self, t):
        out = []
        for g, v in self.ev(t.args[0]):
            if not self.tb(v):
                out.append((g, False))
            else:
                for g2, w in self.ev(t.args[1]):
                    g3 = gmerge(g, g2)
                    if g3 is not None:
                        out.append((g3, self.tb(w)))
        return out

    def e_or(self, t):
        out = []
        for g, v in self.ev(t.args[0]):
            if self.tb(v):
                out.append((g, True))
            else:
                for g2, w in self.ev(t.args[1]):
                    g3 = gmerge(g, g2)
                    if g3 is not None:
                        out.append((g3, self.tb(w)))
        return out

    def tb(self, v):
        return tobool(v)

    def e_isnan(self, t):
        return [(g, v == NAN) for g, v in self.ev(t.args[0])]

    def e_isinf(self, t):
        return [(g, v in (INF, NINF)) for g, v in self.ev(t.args[0])]

    def e_isfinite(self, t):
        return [(g, isinstance(v, (N.NF, bool))) for g, v in self.ev(t.args[0])]

    def e_ite(self, t):
        out = []
        for g, c in self.ev(t.args[0]):
            c2 = self.bool_cases(g, c)
            for g1, b in c2:
                for g2, v in self.ev(t.args[1] if b else t.args[2]):
                    g3 = gmerge(g1, g2)
                    if g3 is not None:
                        out.append((g3, v))
        return out

    def bool_cases(self, g, c):
        if isinstance(c, bool):
            return [(g, c)]
        if isinstance(c, N.NF):
            return [(g2, ch != '0') for ch, g2 in split_sign(c, g)]
        return [(g, True)]

    # ---- reductions
    def e_red(self, t):
        op, ix, dimt, body = t.args
        ixa = N.atom('idx', ix.args[0])
        dm = self.nfv(dimt)
        if op in ('argmin', 'argmax') and N.is_const(dm) and cval_int(dm) is not None and 1 <= cval_int(dm) <= 6:
            k = cval_int(dm)
            at = [T.subst(body, {ix: T.num(i)}) for i in range(k)]
            if op == 'argmax':
                at = [T.neg(x) for x in at]
            r = T.num(k - 1)
            for i in reversed(range(k - 1)):
                c = T.TRUE
                for j in range(k):
                    if j != i:
                        c = T.and_(c, T.le(at[i], at[j]) if j > i else T.lt(at[i], at[j]))
                r = T.ite(c, T.num(i), r)
            return self.ev(r)
        cases = self.ev(body)
        if op in ('any', 'all'):
            bc = []
            for g, v in cases:
                for g1, b in self.bool_cases(g, v):
                    if op == 'all':
                        b = not b
                    bc.append((g1, N.ONE if b else N.ZERO_NF))
            out = []
            for g, cnt in self.reduce_cases('sum', merge(bc), ixa, dm):
                for g2, b in self.sign_cases(g, cnt, POS):
                    out.append((g2, b if op == 'any' else not b))
            return out
        cases = [(g, tonum(v)) for g, v in cases]
        return self.reduce_cases(op, cases, ixa, dm)

    def reduce_cases(self, op, cases, ixa, dm):
        # split the guards into literals on the bound index and others
        glob = {}
        rows = []
        for g, v in cases:
            lo, gl = {}, {}
            for k, s in g.d.items():
                (lo if ixa.id in k.free else gl)[k] = s
            rows.append((Guard(gl), lo, v))
        gguards = [TRUEG]
        # partition the global space by full sign assignments of global literals
        lits = {}
        for gg, _, _ in rows:
            for k, s in gg.d.items():
                lits.setdefault(k, set()).add(s)
        for k, sets in lits.items():
            parts = _partition(sets)
            nxt = []
            for g in gguards:
                for s in parts:
                    g2 = restrict(k, s, g)
                    if g2 is not None:
                        nxt.append(g2)
            gguards = nxt
            if len(gguards) > 64:
                raise Undecided('too many global cases in a reduction')
        out = []
        for G in gguards:
            here = []
            for gg, lo, v in rows:
                if gmerge(G, gg) is not None:
                    here.append((lo, v))
            for g2, v in self.reduce_local(op, here, ixa, dm, G):
                out.append((g2, v))
        return out

    def reduce_local(self, op, rows, ixa, dm, G):
        feas = []
        for lo, v in rows:
            g = gmerge(G, Guard(lo))
            if g is None:
                continue
            if N.is_const(dm) or True:
                feas.append((lo, v, g))
        rows = feas
        if not rows:
            raise Undecided('no feasible case in reduction')
        if N.is_const(dm) and cval_int(dm) is not None and cval_int(dm) <= 8 and len(rows) > 1:
            return self.reduce_explicit(op, rows, ixa, cval_int(dm), G)
        vals = [v for _, v, _ in rows]
        if UNINIT in vals:
            return [(G, UNINIT)]
        if op == 'sum':
            if NAN in vals or (INF in vals and NINF in vals):
                return [(G, NAN)]
            if INF in vals:
                return [(G, INF)]
            if NINF in vals:
                return [(G, NINF)]
            return [(G, N.close_sum(self.pw(rows, G), ixa, dm))]
        if op == 'prod':
            if NAN in vals:
                return [(G, NAN)]
            zero = any(isinstance(v, N.NF) and signg(v, g) == ZERO for _, v, g in rows)
            infs = any(v in (INF, NINF) for v in vals)
            if zero and infs:
                return [(G, NAN)]
            if zero:
                if len(rows) == 1:
                    return [(G, N.ZERO_NF)]
                # zero iff some element is in a zero class: keep as product of brackets
                nz = [(lo, v, g) for lo, v, g in rows if not (isinstance(v, N.NF) and signg(v, g) == ZERO)]
                z = [(lo, N.ONE, g) for lo, v, g in rows if (isinstance(v, N.NF) and signg(v, g) == ZERO)]
                cnt = N.close_sum(self.pw([(lo, N.ZERO_NF, g) for lo, v, g in nz] + z, G), ixa, dm)
                out = []
                for c, g2 in split_sign(cnt, G):
                    if c == '0':
                        out.extend(self.reduce_local('prod', [(lo, v) for lo, v, g in nz], ixa, dm, g2))
                    else:
                        out.append((g2, N.ZERO_NF))
                return out
            if infs:
                if NINF in vals:
                    raise Undecided('product with -inf')
                return [(G, INF)]
            # log of a piecewise body is the piecewise log
            lg = [(lo, N.log(v), g) for lo, v, g in rows]
            return [(G, N.exp(N.close_sum(self.pw(lg, G), ixa, dm)))]
        if op in ('min', 'max'):
            if NAN in vals:
                return [(G, NAN)]
            if not all(isinstance(v, N.NF) for v in vals):
                lose = INF if op == 'min' else NINF
                rest = [r for r in rows if r[1] != lose]
                if len(rest) == 0:
                    return [(G, lose)]
                if any(not isinstance(r[1], N.NF) for r in rest):
                    return [(G, NINF if op == 'min' else INF)]
                raise Undecided('extremum over a conditional subset')
            body = self.pw(rows, G)
            if op == 'min':
                return [(G, N.close_min(body, ixa, dm))]
            return [(G, N.scale(N.close_min(N.scale(body, -1), ixa, dm), -1))]
        raise Undecided('reduction ' + op)

    def reduce_explicit(self, op, rows, ixa, k, G):
        """Axis of known small length: one element after the other."""
        acc = [(G, None)]
        for j in range(k):
            nxt = []
            for g, a in acc:
                for lo, v, _ in rows:
                    g2 = g
                    for p, s in lo.items():
                        q = N.nsubst(p, {ixa.id: N.const(j)})
                        g2 = restrict(q, s, g2) if q.t else (g2 if '0' in s else None)
                        if g2 is None:
                            break
                    if g2 is None:
                        continue
                    w = N.nsubst(v, {ixa.id: N.const(j)}) if isinstance(v, N.NF) else v
                    if a is None:
                        nxt.append((g2, w))
                    elif op == 'sum':
                        nxt.append((g2, v_add(a, w)))
                    elif op == 'prod':
                        nxt.extend(v_mul(g2, a, w))
                    else:
                        nxt.extend(v_minmax(g2, a, w, op))
            acc = merge(nxt)
            if len(acc) > self.limit:
                raise Undecided('too many cases')
        return acc

    def pw(self, rows, G):
        """Piecewise body over bound-index literals as one NF with Iverson brackets."""
        if len(rows) == 1:
            return rows[0][1]
        N._guards.append(G.d)
        try:
            tot = N.ZERO_NF
            for lo, v, g in rows:
                b = N.ONE
                for p, s in lo.items():
                    b = N.mul(b, N.iv_set(p, s))
                tot = N.add(tot, N.mul(b, v))
            return tot
        finally:
            N._guards.pop()


def cval_int(n):
    if N.is_const(n) and N.cval(n).denominator == 1:
        return int(N.cval(n))
    return None


def _partition(sets):
    """Coarsest partition of {-,0,+} compatible with the given subsets."""
    groups = {}
    for c in '-0+':
        sig = tuple(sorted(''.join(sorted(s)) for s in sets if c in s))
        groups.setdefault(sig, set()).add(c)
    return [frozenset(g) for g in groups.values()]


def tonum(v):
    if v is True:
        return N.ONE
    if v is False:
        return N.ZERO_NF
    return v


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, N.NF) and N.is_const(v):
        return N.cval(v) != 0
    if v in (INF, NINF, NAN):
        return True
    raise Undecided('truth of a number')


def flip(x):
    return {INF: NINF, NINF: INF}.get(x, x)


def v_add(x, y):
    x, y = tonum(x), tonum(y)
    if UNINIT in (x, y):
        return UNINIT
    if NAN in (x, y):
        return NAN
    if isinstance(x, N.NF):
        return N.add(x, y) if isinstance(y, N.NF) else y
    if isinstance(y, N.NF):
        return x
    return x if x == y else NAN


def v_mul(g, x, y):
    x, y = tonum(x), tonum(y)
    if UNINIT in (x, y):
        return [(g, UNINIT)]
    if NAN in (x, y):
        return [(g, NAN)]
    if isinstance(x, N.NF) and isinstance(y, N.NF):
        return [(g, N.mul(x, y))]
    if isinstance(x, N.NF):
        x, y = y, x
    if isinstance(y, N.NF):
        return [(g2, NAN if c == '0' else (x if c == '+' else flip(x))) for c, g2 in split_sign(y, g)]
    return [(g, INF if x == y else NINF)]


def v_minmax(g, x, y, op):
    if NAN in (x, y):
        return [(g, NAN)]
    if isinstance(x, N.NF) and isinstance(y, N.NF):
        out = []
        for c, g2 in split_sign(N.sub(x, y), g):
            small, large = (x, y) if c in '-0' else (y, x)
            out.append((g2, small if op == 'min' else large))
        return out
    order = {NINF: 0, INF: 2}
    a, b = (order.get(v, 1) if not isinstance(v, N.NF) else 1 for v in (x, y))
    lo, hi = (x, y) if a <= b else (y, x)
    return [(g, lo if op == 'min' else hi)]


def merge(cases):
    """Merge cases with equal values; drop distinctions made by p == 0 when the
    general value already gives the p == 0 value."""
    if len(cases) <= 1:
        return cases
    # identical guard+value
    seen = {}
    for g, v in cases:
        seen.setdefault((g.key, v.id if isinstance(v, N.NF) else v), (g, v))
    cases = list(seen.values())
    changed = True
    while changed and len(cases) > 1:
        changed = False
        for i in range(len(cases)):
            for j in range(i + 1, len(cases)):
                m = _try_merge(cases[i], cases[j])
                if m is not None:
                    cases = cases[:i] + cases[i + 1:j] + cases[j + 1:] + [m]
                    changed = True
                    break
            if changed:
                break
    return cases


def _try_merge(a, b):
    ga, va = a
    gb, vb = b
    if set(ga.d) != set(gb.d):
        return None
    diff = [k for k in ga.d if ga.d[k] != gb.d[k]]
    if len(diff) == 0:
        return a if _same(va, vb) else None
    if len(diff) > 1:
        return None
    k = diff[0]
    u = ga.d[k] | gb.d[k]
    if _same(va, vb):
        val = va
    elif isinstance(va, N.NF) and isinstance(vb, N.NF):
        val = None
        for (g1, v1), (g2, v2) in ((a, b), (b, a)):
            if g1.d[k] == ZERO:
                try:
                    if N.equal(reduce_eqs(v2, g1), reduce_eqs(v1, g1)):
                        val = v2
                        break
                except Undecided:
                    pass
        if val is None:
            return None
    else:
        return None
    d = dict(ga.d)
    full = N.sign(k)
    if u >= full:
        del d[k]
    else:
        d[k] = u
    return (Guard(d), val)


def _same(a, b):
    if isinstance(a, N.NF) and isinstance(b, N.NF):
        return a is b or N.equal(a, b)
    return a is b if isinstance(a, bool) or isinstance(b, bool) else a == b


def compare(ca, cb, ctx):
    """Compare two case lists; returns list of (guard, va, vb) where they differ."""
    bad = []
    with N.using(ctx):
        for ga, va in ca:
            for gb, vb in cb:
                g = gmerge(ga, gb)
                if g is None:
                    continue
                if va == UNINIT or vb == UNINIT:
                    bad.append((g, va, vb))
                    continue
                va2, vb2 = tonum(va) if not isinstance(vb, bool) else va, tonum(vb) if not isinstance(va, bool) else vb
                if isinstance(va2, N.NF) and isinstance(vb2, N.NF):
                    x, y = va2, vb2
                    if equations(g):
                        try:
                            x, y = reduce_eqs(x, g), reduce_eqs(y, g)
                        except Undecided:
                            pass
                    N._guards.append(g.d)
                    try:
                        ok = N.equal(x, y)
                    finally:
                        N._guards.pop()
                    if not ok:
                        bad.append((g, va, vb))
                elif va2 is not vb2 and va2 != vb2:
                    bad.append((g, va, vb))
    return bad


def showv(v):
    return N.show(v) if isinstance(v, N.NF) else str(v)
