"""Domains over the value graph.

* NF: a normal form for real-valued terms - generalised polynomials over atoms
  (array elements, symbols, sums over an axis, logs, irreducible polynomials with
  negative or fractional exponents, Iverson brackets) with an exponential factor
  in every monomial.  sinh/cosh/tanh/prod/sqrt/geometric means are all expressed
  through it, so algebraically equal formulas get equal forms.
* IEEE special values: inf, -inf, nan next to NF.
* Signs: subsets of {-,0,+} per normal form, from declared facts about inputs.
* Guarded cases: the value of a term is a list of (guard, value), the guard
  restricting signs of normal forms; conditions on an index bound by a
  reduction turn into Iverson brackets (no path of the program is enumerated).
"""
from fractions import Fraction
from . import terms as T

F0, F1 = Fraction(0), Fraction(1)
ALL = frozenset('-0+')
POS = frozenset('+')
NEG = frozenset('-')
ZERO = frozenset('0')
NONNEG = frozenset('0+')


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- atoms
_atoms = []
_atomtab = {}


class Atom:
    __slots__ = ('kind', 'p', 'id', 'free', 'level')


def atom(kind, *p):
    key = (kind,) + tuple(('n', x.id) if isinstance(x, NF) else ('m', x.id) if isinstance(x, Mono) else
                          ('a', x.id) if isinstance(x, Atom) else x for x in p)
    a = _atomtab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.p, a.id = kind, p, len(_atoms)
        fr = frozenset()
        lv = 0
        if kind == 'idx':
            fr = frozenset([a.id])
        if kind == 'bx':
            lv = p[0]
        for x in p:
            if isinstance(x, (NF, Mono, Atom)):
                fr |= x.free
                lv = max(lv, x.level)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (NF, Mono, Atom)):
                        fr |= y.free
                        lv = max(lv, y.level)
        a.free, a.level = fr, lv
        _atoms.append(a)
        _atomtab[key] = a
    return a


_monotab = {}


class Mono:
    __slots__ = ('pw', 'ex', 'id', 'free', 'level')


def mono(pw, ex):
    """pw: sorted tuple of (atom id, exponent); ex: NF exponent of e."""
    key = (pw, ex.id if ex is not None else -1)
    m = _monotab.get(key)
    if m is None:
        m = Mono()
        m.pw, m.ex = pw, ex
        m.id = len(_monotab)
        fr = frozenset()
        lv = 0
        for a, _ in pw:
            fr |= _atoms[a].free
            lv = max(lv, _atoms[a].level)
        if ex is not None:
            fr |= ex.free
            lv = max(lv, ex.level)
        m.free, m.level = fr, lv
        _monotab[key] = m
    return m


_nftab = {}


class NF:
    __slots__ = ('t', 'id', 'free', 'level')

    def __repr__(self):
        return show(self)


def nf(d):
    """d: dict mono id -> coefficient, monos given as Mono keys."""
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: x[0].id))
    key = tuple((m.id, c) for m, c in items)
    n = _nftab.get(key)
    if n is None:
        n = NF()
        n.t = items
        n.id = len(_nftab)
        fr = frozenset()
        lv = 0
        for m, _ in items:
            fr |= m.free
            lv = max(lv, m.level)
        n.free, n.level = fr, lv
        _nftab[key] = n
    return n


ZERO_NF = nf({})
M1 = mono((), None)
ONE = nf({M1: F1})


def const(c):
    return nf({M1: Fraction(c)})


def of_atom(a, e=F1):
    return nf({mono(((a.id, Fraction(e)),), None): F1})


def is_const(n):
    return not n.t or (len(n.t) == 1 and n.t[0][0] is M1)


def cval(n):
    return n.t[0][1] if n.t else F0


def add(*ns):
    d = {}
    for n in ns:
        for m, c in n.t:
            d[m] = d.get(m, F0) + c
    return nf(d)


def scale(n, c):
    c = Fraction(c)
    return nf({m: k * c for m, k in n.t})


def sub(a, b):
    return add(a, scale(b, -1))


_mulcache = {}


def mul(a, b):
    if a.id > b.id:
        a, b = b, a
    key = (a.id, b.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    acc = {}
    extra = []
    if len(a.t) * len(b.t) > 40000:
        raise Undecided('expression too large')
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            x = mono_mul(m1, m2)
            c = c1 * c2
            if isinstance(x, Mono):
                acc[x] = acc.get(x, F0) + c
            else:
                extra.append(scale(x, c))
    r = nf(acc)
    if extra:
        r = add(r, *extra)
    _mulcache[key] = r
    return r


def mono_mul(m1, m2):
    pw = dict(m1.pw)
    for a, e in m2.pw:
        pw[a] = pw.get(a, F0) + e
    ex = m1.ex
    if m2.ex is not None:
        ex = m2.ex if ex is None else add(ex, m2.ex)
        if not ex.t:
            ex = None
    return norm_mono(pw, ex)


def norm_mono(pw, ex):
    """-> Mono, or NF when something has to be expanded."""
    out = {}
    expand = []
    coef = F1
    iv = {}
    for a, e in pw.items():
        if e == 0:
            continue
        at = _atoms[a]
        if at.kind == 'poly':
            k = e.numerator // e.denominator
            if k >= 1:
                expand.append((at.p[0], k))
                e = e - k
            if e != 0:
                out[a] = e
        elif at.kind == 'iv':
            p = at.p[0].id
            if p in iv and iv[p] != a:
                return ZERO_NF
            iv[p] = a
            out[a] = F1
        elif at.kind == 'pnum':
            k = e.numerator // e.denominator
            coef *= at.p[0] ** k
            if e - k != 0:
                out[a] = e - k
        else:
            out[a] = e
    m = mono(tuple(sorted(out.items())), ex)
    if not expand and coef == 1:
        return m
    r = nf({m: coef})
    for p, k in expand:
        for _ in range(k):
            r = mul(r, p)
    return r


def mono_nf(pw, ex, c=F1):
    x = norm_mono(pw, ex)
    if isinstance(x, Mono):
        return nf({x: c})
    return scale(x, c)


def powi(n, k):
    if k < 0:
        return inv(powi(n, -k))
    r = ONE
    for _ in range(k):
        r = mul(r, n)
    return r


def _lead_sign(n):
    """Sign (+1/-1) of the structurally leading coefficient of n."""
    if not n.t:
        return 0
    return 1 if n.t[-1][1] > 0 else -1


def content(n):
    """n = c * mono * prim with prim's leading coefficient 1; -> (c, pw, ex, prim)."""
    ms = [m for m, _ in n.t]
    common = None
    for m in ms:
        d = {a: e for a, e in m.pw if _atoms[a].kind != 'iv'}
        if common is None:
            common = d
        else:
            for a in list(common):
                common[a] = min(common[a], d.get(a, F0))
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    # atoms absent from the first monomials but negative later are handled above;
    # those present early and absent later get min(e, 0)
    common = {a: e for a, e in common.items() if e != 0}
    lead = ms[0]
    for m in ms[1:]:
        x = m.ex or ZERO_NF
        y = lead.ex or ZERO_NF
        if x is not y and _lead_sign(sub(x, y)) > 0:
            lead = m
    ex = lead.ex
    ipw = {a: -e for a, e in common.items()}
    iex = scale(ex, -1) if ex is not None else None
    q = mul(n, mono_nf(ipw, iex))
    # leading coefficient
    if not q.t:
        return F0, {}, None, ZERO_NF
    c = q.t[-1][1]
    return c, common, ex, scale(q, 1 / c)


def inv(n):
    return powq(n, Fraction(-1))


def _factor(n):
    f = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def numpow(c, e):
    """c**e for rational c != 0, rational e."""
    if e.denominator == 1:
        return const(c ** int(e))
    if c < 0:
        return of_atom(atom('lit', c), e)
    r = ONE
    for p, k in _factor(c.numerator).items():
        r = mul(r, mono_nf({atom('pnum', Fraction(p)).id: e * k}, None))
    for p, k in _factor(c.denominator).items():
        r = mul(r, mono_nf({atom('pnum', Fraction(p)).id: -e * k}, None))
    return r


def powq(n, e):
    if e.denominator == 1 and e >= 0:
        return powi(n, int(e))
    if not n.t:
        raise Undecided('zero to a negative power')
    if len(n.t) == 1:
        m, c = n.t[0]
        return mul(numpow(c, e), mono_nf({a: x * e for a, x in m.pw},
                                         scale(m.ex, e) if m.ex is not None else None))
    c, pw, ex, prim = content(n)
    r = mul(numpow(c, e), mono_nf({a: x * e for a, x in pw.items()},
                                  scale(ex, e) if ex is not None else None))
    if len(prim.t) == 1:
        return mul(r, powq(prim, e))
    return mul(r, of_atom(atom('poly', prim), e))


def power(n, e):
    if is_const(e):
        return powq(n, cval(e))
    return exp(mul(e, log(n)))


def log_atom(a):
    return of_atom(atom('log', _atoms[a] if isinstance(a, int) else a))


def log(n):
    if not n.t:
        raise Undecided('log of zero')
    if len(n.t) == 1:
        m, c = n.t[0]
        r = lognum(c)
        for a, e in m.pw:
            at = _atoms[a]
            if at.kind == 'pnum':
                r = add(r, scale(lognum(at.p[0]), e))
            else:
                r = add(r, scale(log_atom(a), e))
        if m.ex is not None:
            r = add(r, m.ex)
        return r
    c, pw, ex, prim = content(n)
    if len(prim.t) == 1:
        return log(mul(mul(const(c), mono_nf(pw, ex)), prim))
    r = lognum(c)
    for a, e in pw.items():
        r = add(r, scale(log_atom(a), e))
    if ex is not None:
        r = add(r, ex)
    return add(r, log_atom(atom('poly', prim)))


def lognum(c):
    if c == 1:
        return ZERO_NF
    if c < 0:
        return of_atom(atom('lognum', c))
    r = ZERO_NF
    for p, k in _factor(c.numerator).items():
        r = add(r, scale(of_atom(atom('lognum', Fraction(p))), k))
    for p, k in _factor(c.denominator).items():
        r = add(r, scale(of_atom(atom('lognum', Fraction(p))), -k))
    return r


def exp(n):
    pw = {}
    rest = {}
    coef = ONE
    for m, c in n.t:
        if m.ex is None and len(m.pw) == 1 and m.pw[0][1] == 1:
            at = _atoms[m.pw[0][0]]
            if at.kind == 'log':
                b = at.p[0]
                pw[b.id] = pw.get(b.id, F0) + c
                continue
            if at.kind == 'lognum':
                coef = mul(coef, numpow(at.p[0], c))
                continue
        rest[m] = c
    ex = nf(rest)
    return mul(coef, mono_nf(pw, ex if ex.t else None))


# ---------------------------------------------------------------- substitution
def nsubst(n, mp, memo=None):
    """mp: atom id -> NF."""
    if memo is None:
        memo = {}
    r = memo.get(('n', n.id))
    if r is not None:
        return r
    r = ZERO_NF
    for m, c in n.t:
        r = add(r, scale(msubst(m, mp, memo), c))
    memo[('n', n.id)] = r
    return r


def msubst(m, mp, memo):
    r = memo.get(('m', m.id))
    if r is not None:
        return r
    r = ONE
    for a, e in m.pw:
        r = mul(r, powq_any(asubst(a, mp, memo), e))
    if m.ex is not None:
        r = mul(r, exp(nsubst(m.ex, mp, memo)))
    memo[('m', m.id)] = r
    return r


def powq_any(n, e):
    if not n.t and e < 0:
        raise Undecided('division by zero in substitution')
    return powq(n, e)


def asubst(aid, mp, memo):
    if aid in mp:
        return mp[aid]
    at = _atoms[aid]
    k = at.kind
    if k in ('sym', 'dim', 'idx', 'bx', 'pnum', 'lit', 'lognum'):
        return of_atom(at)
    r = memo.get(('a', aid))
    if r is not None:
        return r
    S = lambda x: nsubst(x, mp, memo)
    if k == 'elem':
        r = of_atom(atom('elem', at.p[0], tuple(S(x) for x in at.p[1])))
    elif k == 'app':
        r = of_atom(atom('app', at.p[0], tuple(S(x) for x in at.p[1])))
    elif k == 'sum':
        lv, dm, b = at.p
        i = _fresh_ix()
        body = nsubst(nsubst(nf({b: F1}), {atom('bx', lv).id: of_atom(i)}), mp, None if False else dict())
        r = close_sum(body, i, S(dm))
    elif k == 'min':
        lv, dm, b = at.p
        i = _fresh_ix()
        body = nsubst(nsubst(b, {atom('bx', lv).id: of_atom(i)}), mp, dict())
        r = close_min(body, i, S(dm))
    elif k == 'log':
        inner = asubst(at.p[0].id, mp, memo)
        r = log(inner)
    elif k == 'poly':
        r = S(at.p[0])
    elif k == 'iv':
        r = iverson(S(at.p[0]), at.p[1])
    else:
        raise Undecided('subst in ' + k)
    memo[('a', aid)] = r
    return r


_fi = [0]


def _fresh_ix():
    _fi[0] += 1
    return atom('idx', '$%d' % _fi[0])


# ---------------------------------------------------------------- reductions
def close_sum(n, ix, dm):
    """Sum over index atom ix in range(dm) of n (NF)."""
    if is_const(dm) and cval(dm).denominator == 1 and 0 <= cval(dm) <= 8:
        r = ZERO_NF
        for k in range(int(cval(dm))):
            r = add(r, nsubst(n, {ix.id: const(k)}))
        return r
    r = ZERO_NF
    for m, c in n.t:
        if ix.id not in m.free:
            r = add(r, mul(scale(dm, c), nf({m: F1})))
            continue
        out, inn, kron = {}, {}, None
        for a, e in m.pw:
            at = _atoms[a]
            if ix.id in at.free:
                inn[a] = e
                if at.kind == 'iv' and at.p[1] == '0':
                    s = solve(at.p[0], ix.id)
                    if s is not None:
                        kron = (a, s)
            else:
                out[a] = e
        xo = xi = None
        if m.ex is not None:
            o = nf({k: v for k, v in m.ex.t if ix.id not in k.free})
            i = nf({k: v for k, v in m.ex.t if ix.id in k.free})
            xo = o if o.t else None
            xi = i if i.t else None
        if kron:
            a, s = kron
            del inn[a]
            body = nsubst(mono_nf(inn, xi), {ix.id: s})
            r = add(r, scale(mul(mono_nf(out, xo), body), c))
            continue
        body = mono_nf(inn, xi)
        if len(body.t) != 1:
            r = add(r, scale(mul(mono_nf(out, xo), close_sum(body, ix, dm)), c))
            continue
        bm, bc = body.t[0]
        r = add(r, scale(mul(mono_nf(out, xo), sum_atom(bm, ix, dm)), c * bc))
    return r


def sum_atom(bm, ix, dm):
    lv = bm.level + 1
    b = nsubst(nf({bm: F1}), {ix.id: of_atom(atom('bx', lv))})
    if len(b.t) != 1 or b.t[0][1] != 1:
        # canonicalisation changed shape (leading term moved): fold the rest back
        r = ZERO_NF
        for m, c in b.t:
            r = add(r, scale(of_atom(atom('sum', lv, dm, m)), c))
        return r
    return of_atom(atom('sum', lv, dm, b.t[0][0]))


def open_sum(at, ix):
    lv, dm, b = at.p
    return nsubst(nf({b: F1}), {atom('bx', lv).id: of_atom(ix)})


def close_min(n, ix, dm):
    if ix.id not in n.free:
        return n
    if is_const(dm) and cval(dm) == 1:
        return nsubst(n, {ix.id: const(0)})
    ind = nf({m: c for m, c in n.t if ix.id not in m.free})
    dep = nf({m: c for m, c in n.t if ix.id in m.free})
    # positive common factor independent of the index
    c, pw, ex, prim = content(dep)
    opw = {a: e for a, e in pw.items() if ix.id not in _atoms[a].free and sign_atom(a) == POS}
    oex = ex if ex is not None and ix.id not in ex.free else None
    fac = mul(const(abs(c)), mono_nf(opw, oex))
    dep = mul(dep, inv(fac))
    lv = dep.level + 1
    b = nsubst(dep, {ix.id: of_atom(atom('bx', lv))})
    return add(ind, mul(fac, of_atom(atom('min', lv, dm, b))))


def open_min(at, ix):
    lv, dm, b = at.p
    return nsubst(b, {atom('bx', lv).id: of_atom(ix)})


def solve(p, aid):
    """p == 0 solved for atom aid (linear, constant coefficient); NF or None."""
    coef = F0
    rest = {}
    for m, c in p.t:
        if m.pw == ((aid, F1),) and m.ex is None:
            coef += c
        else:
            rest[m] = c
    r = nf(rest)
    if coef == 0:
        return None
    s = scale(r, Fraction(-1) / coef)
    if _mentions(s, aid):
        return None
    return s


def _mentions(n, aid):
    return any(a.id == aid for a in atoms_of(n))


def atoms_of(n, seen=None):
    """All atoms at any depth."""
    seen = {} if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, NF):
            for m, _ in x.t:
                st.append(m)
        elif isinstance(x, Mono):
            for a, _ in x.pw:
                st.append(_atoms[a])
            if x.ex is not None:
                st.append(x.ex)
        elif isinstance(x, Atom):
            if x.id in seen:
                continue
            seen[x.id] = x
            for y in x.p:
                if isinstance(y, (NF, Mono, Atom)):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, (NF, Mono, Atom)))
    return seen.values()


# ---------------------------------------------------------------- facts and signs
class Ctx:
    """Declared facts: sign of every leaf by name, plus literal facts."""
    count = 0

    def __init__(self, decl=None, lits=None, inhabited=True):
        self.decl = dict(decl or {})
        self.lits = dict(lits or {})       # canonical NF -> signset
        Ctx.count += 1
        self.uid = Ctx.count
        self.signcache = {}


_ctx = [Ctx()]


def ctx():
    return _ctx[-1]


class using:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        _ctx.append(self.c)
        return self.c

    def __exit__(self, *a):
        _ctx.pop()


def smul(a, b):
    r = set()
    for x in a:
        for y in b:
            if x == '0' or y == '0':
                r.add('0')
            else:
                r.add('+' if x == y else '-')
    return frozenset(r)


def sneg(a):
    return frozenset({'+': '-', '-': '+', '0': '0'}[x] for x in a)


def sadd(a, b):
    r = set()
    for x in a:
        for y in b:
            if x == '0':
                r.add(y)
            elif y == '0' or x == y:
                r.add(x)
            else:
                return ALL
    return frozenset(r)


def spow(s, e):
    if e.denominator != 1:
        return frozenset(s & NONNEG) or POS
    k = int(e)
    r = set()
    for x in s:
        if x == '0':
            if k > 0:
                r.add('0')
        elif x == '+':
            r.add('+')
        else:
            r.add('+' if k % 2 == 0 else '-')
    return frozenset(r) or POS


def sign_atom(aid):
    at = _atoms[aid]
    k = at.kind
    c = ctx()
    if k in ('elem', 'app', 'sym'):
        s = c.decl.get(at.p[0])
        if s is None:
            s = POS if at.p[0] in ('k_B', 'h') else ALL
        return lit_refine(of_atom(at), s)
    if k in ('dim', 'pnum'):
        return POS
    if k in ('idx', 'bx'):
        return NONNEG
    if k == 'sum':
        return sign_mono(at.p[2])
    if k == 'min':
        return sign(at.p[2])
    if k == 'lognum':
        return POS if at.p[0] > 1 else ALL
    if k == 'poly':
        return sign(at.p[0])
    if k == 'iv':
        return NONNEG
    return ALL


def sign_mono(m):
    s = POS
    for a, e in m.pw:
        s = smul(s, spow(sign_atom(a), e))
    return s


def lit_refine(n, s):
    c = ctx()
    if not c.lits and not _guards:
        return s
    key, flip = canon_lit(n)
    g = c.lits.get(key)
    if g is not None:
        s = s & (sneg(g) if flip else g)
    for gd in _guards:
        g = gd.get(key)
        if g is not None:
            s = s & (sneg(g) if flip else g)
    return s


_guards = []


def canon_lit(n):
    """Positive scale removed; orientation canonical. -> (NF, flipped)."""
    c = n.t[-1][1]
    if c == 1:
        return n, False
    return scale(n, 1 / c), c < 0


def strip_pos(n):
    """Divide n by its positive common monomial factor."""
    if len(n.t) < 1:
        return n
    c, pw, ex, prim = content(n)
    keep = {}
    for a, e in pw.items():
        if sign_atom(a) != POS:
            keep[a] = e
    return scale(mul(prim, mono_nf(keep, None)), c)


def sign(n, depth=0):
    if not n.t:
        return ZERO
    key = (n.id, tuple(id(g) for g in _guards))
    cache = ctx().signcache
    if not _guards and n.id in cache:
        return cache[n.id]
    s = _sign(n, depth)
    if not _guards:
        cache[n.id] = s
    return s


def _sign(n, depth):
    if len(n.t) == 1:
        m, c = n.t[0]
        s = sign_mono(m)
        if c < 0:
            s = sneg(s)
        return lit_refine(n, s) if len(m.pw) > 1 or m.ex is not None else s
    s = None
    for m, c in n.t:
        x = sign_mono(m)
        if c < 0:
            x = sneg(x)
        s = x if s is None else sadd(s, x)
    if s == ALL or len(s) > 1:
        s = lit_refine(n, s)
    if len(s) > 1:
        q = strip_pos(n)
        if q is not n:
            s2 = s
            if len(q.t) == 1:
                m, c = q.t[0]
                s2 = sign_mono(m)
                s2 = sneg(s2) if c < 0 else s2
            s = s & s2
            s = lit_refine(q, s)
            n2 = q
        else:
            n2 = n
        s = s & _lemma_exp(n2)
        if len(s) > 1:
            s = s & _lemma_min(n2)
        if len(s) > 1:
            s = s & _lemma_allpairs(n2)
        if len(s) > 1:
            s = lit_refine(n2, s)
    return s or ALL


def _lemma_exp(n):
    """c*(m1 - m2) where m1/m2 = exp(t): sign from the sign of t."""
    if len(n.t) != 2:
        return ALL
    (m1, c1), (m2, c2) = n.t
    if c1 != -c2:
        return ALL
    if m1.pw != m2.pw:
        return ALL
    t = sub(m1.ex or ZERO_NF, m2.ex or ZERO_NF)
    st = sign(t)
    base = smul(frozenset('+' if c1 > 0 else '-'), sign_mono(m1))
    return smul(base, st) if len(base) == 1 else ALL


def _lemma_min(n):
    """b(j) - min_i b(i) >= 0 (and every positive multiple, plus non-negatives)."""
    for m, c in n.t:
        if m.ex is None and len(m.pw) == 1 and m.pw[0][1] == 1:
            at = _atoms[m.pw[0][0]]
            if at.kind == 'min' and m is not None:
                k = -c
                rest = add(n, scale(of_atom(at), k))
                for cand in _cands(rest, at):
                    b = open_min_at(at, cand)
                    if sub(rest, scale(b, k)).id == ZERO_NF.id:
                        return NONNEG if k > 0 else frozenset('-0')
    return ALL


def _lemma_allpairs(n):
    return ALL


def open_min_at(at, jx):
    lv, dm, b = at.p
    return nsubst(b, {atom('bx', lv).id: jx})


def _cands(rest, at):
    names = [x for x in atoms_of(at.p[2]) if x.kind in ('elem', 'app')]
    bx = atom('bx', at.p[0])
    out = []
    for x in names:
        for y in atoms_of(rest):
            if y.kind == x.kind and y.p[0] == x.p[0]:
                for u, v in zip(x.p[1], y.p[1]):
                    if u is of_atom(bx) and v not in out:
                        out.append(v)
    return out


def iverson(p, s):
    """NF of the Iverson bracket [sign(p) in {s}] with s one of '-','0','+'."""
    allowed = sign(p)
    return iv_set(p, frozenset(s), allowed)


def iv_set(p, S, allowed=None):
    if allowed is None:
        allowed = sign(p)
    S = S & allowed
    if not S:
        return ZERO_NF
    if S == allowed:
        return ONE
    q, flip = canon_lit(strip_pos(p))
    if flip:
        S, allowed = sneg(S), sneg(allowed)
    elim = '-' if '-' in allowed else '0'
    if elim in S:
        return sub(ONE, iv_set(q, allowed - S, allowed))
    r = ZERO_NF
    for s in S:
        r = add(r, of_atom(atom('iv', q, s)))
    return r


# ---------------------------------------------------------------- zero test
def clear_denoms(n, rounds=12):
    for _ in range(rounds):
        worst = {}
        for m, _c in n.t:
            for a, e in m.pw:
                if _atoms[a].kind == 'poly' and e < 0:
                    k = -(e.numerator // e.denominator)
                    if e.denominator == 1:
                        worst[a] = max(worst.get(a, 0), int(-e))
                    else:
                        worst[a] = max(worst.get(a, 0), k)
        if not worst:
            return n
        f = ONE
        for a, k in worst.items():
            f = mul(f, nf({mono(((a, Fraction(k)),), None): F1}))
            # of_atom(poly)**k kept unexpanded: multiply exponents directly
        n = _mul_raw(n, worst)
    return n


def _mul_raw(n, worst):
    r = ZERO_NF
    for m, c in n.t:
        pw = dict(m.pw)
        for a, k in worst.items():
            pw[a] = pw.get(a, F0) + k
        r = add(r, mono_nf(pw, m.ex, c))
    return r


_zcache = {}


def is_zero(n, depth=0):
    if not n.t:
        return True
    k = (n.id, ctx().uid)
    if k in _zcache:
        return _zcache[k]
    r = _is_zero(n, depth)
    _zcache[k] = r
    return r


def _tiny(n):
    mx = max((abs(c) for _, c in n.t), default=F0)
    return mx


def _is_zero(n, depth):
    if depth > 6:
        return False
    big = _tiny(n)
    n = clear_denoms(n)
    if not n.t:
        return True
    # unify exponents that are equal although not identical
    exs = []
    for m, _ in n.t:
        if m.ex is not None and all(m.ex is not e for e in exs):
            exs.append(m.ex)
    if 1 < len(exs) + 1 <= 10:
        rep = {}
        base = [ZERO_NF] + exs
        for i in range(len(base)):
            for j in range(i + 1, len(base)):
                if base[j].id in rep:
                    continue
                if is_zero(sub(base[j], base[i]), depth + 1):
                    rep[base[j].id] = base[i]
        if rep:
            r = ZERO_NF
            for m, c in n.t:
                ex = m.ex
                if ex is not None and ex.id in rep:
                    ex = rep[ex.id]
                    ex = ex if ex.t else None
                r = add(r, mono_nf(dict(m.pw), ex, c))
            n = r
            if not n.t:
                return True
    # merge sums over the same axis with the same cofactor
    groups = {}
    loose = {}
    for m, c in n.t:
        sums = [a for a, e in m.pw if _atoms[a].kind == 'sum' and e == 1]
        if not sums:
            loose[m] = c
            continue
        a = min(sums, key=lambda z: (len([1 for mm, _ in n.t if any(z == q for q, _e in mm.pw)]), z))
        cof = mono(tuple((x, e) for x, e in m.pw if x != a), m.ex)
        groups.setdefault((cof.id, _atoms[a].p[1].id), []).append((cof, a, c))
    changed = False
    rest = loose
    for (cid, did), lst in groups.items():
        if len(lst) > 1:
            i = _fresh_ix()
            body = ZERO_NF
            for cof, a, c in lst:
                body = add(body, scale(open_sum(_atoms[a], i), c))
            if is_zero(body, depth + 1):
                changed = True
                continue
        for cof, a, c in lst:
            x = norm_mono(dict(list(cof.pw) + [(a, F1)]), cof.ex)
            if isinstance(x, Mono):
                rest[x] = rest.get(x, F0) + c
            else:
                return False
    n = nf(rest)
    if not n.t:
        return True
    if all(abs(c) <= Fraction(1, 10**9) * max(big, F1) for _, c in n.t) and big > 0 and \
            all(abs(c) <= Fraction(1, 10**9) * big for _, c in n.t):
        return True
    return False


def equal(a, b):
    if a is b:
        return True
    return is_zero(sub(a, b))


# ---------------------------------------------------------------- derivative
def deriv(n, aid):
    r = ZERO_NF
    for m, c in n.t:
        base = nf({m: c})
        for a, e in m.pw:
            d = aderiv(a, aid)
            if d.t:
                r = add(r, mul(scale(base, e), mul(d, of_atom(_atoms[a], F0 - 1))))
        if m.ex is not None:
            d = deriv(m.ex, aid)
            if d.t:
                r = add(r, mul(base, d))
    return r


def aderiv(a, aid):
    if a == aid:
        return ONE
    at = _atoms[a]
    if at.kind == 'sum':
        i = _fresh_ix()
        return close_sum(deriv(open_sum(at, i), aid), i, at.p[1])
    if at.kind == 'log':
        b = at.p[0]
        d = aderiv(b.id, aid)
        return mul(d, of_atom(b, -1)) if d.t else ZERO_NF
    if at.kind == 'poly':
        return deriv(at.p[0], aid)
    if aid in [x.id for x in atoms_of(of_atom(at))]:
        raise Undecided('derivative of ' + at.kind)
    return ZERO_NF


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if not n.t:
        return '0'
    if d > 8:
        return '...'
    out = []
    for m, c in n.t[:12]:
        fs = []
        if c != 1 or (not m.pw and m.ex is None):
            fs.append(str(c) if c.denominator < 10000 else '%.10g' % float(c))
        for a, e in m.pw:
            s = show_atom(_atoms[a], d + 1)
            fs.append(s if e == 1 else '%s^%s' % (s, e if e.denominator == 1 and e > 0 else '(%s)' % e))
        if m.ex is not None:
            fs.append('exp(%s)' % show(m.ex, d + 1))
        out.append('*'.join(fs))
    if len(n.t) > 12:
        out.append('...')
    return ' + '.join(out)


def show_atom(a, d):
    k = a.kind
    if k in ('sym', 'dim', 'idx'):
        return str(a.p[0])
    if k == 'bx':
        return '_%d' % a.p[0]
    if k in ('elem', 'app'):
        return '%s[%s]' % (a.p[0], ','.join(show(x, d) for x in a.p[1]))
    if k == 'sum':
        return 'sum{_%d<%s}(%s)' % (a.p[0], show(a.p[1], d), show(nf({a.p[2]: F1}), d))
    if k == 'min':
        return 'min{_%d<%s}(%s)' % (a.p[0], show(a.p[1], d), show(a.p[2], d))
    if k == 'log':
        return 'log(%s)' % show_atom(a.p[0], d)
    if k == 'lognum':
        return 'log(%s)' % a.p[0]
    if k == 'poly':
        return '(%s)' % show(a.p[0], d)
    if k == 'iv':
        return '[%s %s 0]' % (show(a.p[0], d), {'+': '>', '-': '<', '0': '=='}[a.p[1]])
    if k == 'pnum' or k == 'lit':
        return str(a.p[0])
    return k
