"""Checks of limits and invariances: T = 0, energy origin, temperature and isomer independence, shapes, dtypes, units."""
from fractions import Fraction
from .lib import *
from .checks_phys import (check, axes, builtin, query, TT, Emin, Zk, Wk, Vk, P_spec, COMBOS)

ECOMBOS = ['e', 'ec', 'eq', 'er', 'ecr', 'eqr']
METHS = (('calc_part_func', 'Z'), ('calc_part_func_w', 'W'), ('calc_part_func_v', 'V'))
TM = T.sym('Tm')


def obsarr(s, d, name='B'):
    ix = fresh_ixs(2)
    return new_arr((d.N, d.M), ix, T.elem(name, *ix), 'f', ('input', name))


def low(n, d):
    return T.le(T.elem('E', n), Emin(d))


# ---------------------------------------------------------------- C09
@check('C09')
def c09(run):
    ctx0 = ctxof(I=POS)

    def prob(d, which):
        axes(d)
        s = Sess(d)
        o = s.sup(builtin(s, which))
        v = need_shape(s, query(s, o, 'calc_probability', s.temperature()), (d.N, d.M), 'occupation probability')
        return s, o, v

    for w in ECOMBOS:
        def fin(d, w=w):
            s, o, v = prob(d, w)
            prove_finite(at_T0(v.at((ROW, COL))), ctx0, 'occupation probability at T = 0 (%s)' % w, v.buf.site)
        run.ob('%s: probability at T = 0 is finite' % w, fin, SYM, SMALL)

        def unocc(d, w=w):
            s, o, v = prob(d, w)
            p = at_T0(v.at((ROW, COL)))
            prove_equal(T.ite(low(ROW, d), T.num(0), p), T.num(0), ctx0,
                        'probability at T = 0 of an isomer above the lowest energy (%s)' % w, v.buf.site)
        run.ob('%s: only lowest isomers occupied at T = 0' % w, unocc, SYM, SMALL)

        def one(d, w=w):
            s, o, v = prob(d, w)
            z = query(s, o, 'calc_partition_functions', s.temperature())
            z = need_shape(s, z, (d.N, d.M), 'combined partition functions')
            p = at_T0(z.at((ROW, COL)))
            prove_true(T.le(T.num(0), p), ctx0, 'weight at T = 0 is non-negative (%s)' % w, v.buf.site)
            prove_true(T.or_(T.not_(low(ROW, d)), T.lt(T.num(0), p)), ctx0,
                       'weight at T = 0 of a lowest isomer is positive (%s)' % w, v.buf.site)
        run.ob('%s: weights at T = 0 are non-negative, positive for the lowest' % w, one, SYM, SMALL)

        def share(d, w=w):
            s, o, v = prob(d, w)
            z = need_shape(s, query(s, o, 'calc_partition_functions', s.temperature()), (d.N, d.M), 'combined partition functions')
            z1 = at_T0(z.at((ROW, COL)))
            prove_equal(at_T0(v.at((ROW, COL))), T.div(z1, sumd(d.N, lambda i: T.subst(z1, {ROW: i}))), ctx0,
                        'probability at T = 0 (%s)' % w, v.buf.site)
        run.ob('%s: probability at T = 0 is the share of the weight' % w, share, SYM, SMALL)

        def avg(d, w=w):
            s, o, v = prob(d, w)
            a = query(s, o, 'calc_ensemble_average', s.temperature(), obsarr(s, d))
            a = need_shape(s, a, (T.num(1), d.M), 'ensemble average')
            prove_finite(at_T0(a.at((T.num(0), COL))), ctx0, 'ensemble average at T = 0 (%s)' % w, a.buf.site)
        run.ob('%s: ensemble average at T = 0 is finite' % w, avg, SYM, SMALL)

        def cv(d, w=w):
            s, o, v = prob(d, w)
            a = query(s, o, 'calc_heat_capacity', s.temperature())
            a = need_shape(s, a, (T.num(1), d.M), 'heat capacity')
            prove_finite(at_T0(a.at((T.num(0), COL))), ctx0, 'heat capacity at T = 0 (%s)' % w, a.buf.site)
        run.ob('%s: heat capacity at T = 0 is finite' % w, cv, SYM, SMALL)

    def m(n, j):
        t = T.elem('I', n, T.num(j))
        return T.ite(T.lt(T.num(0), t), t, T.num(1))
    weight = {'e': lambda d, n: T.elem('g', n),
              'c': lambda d, n: T.div(T.num(1), prodd(d.D, lambda j: T.elem('nu', n, j))),
              'r': lambda d, n: T.div(T.power(T.mul(*[m(n, j) for j in range(3)]), T.num(Fraction(1, 2))), T.elem('s', n))}
    for w in ECOMBOS:
        if 'q' in w:
            continue

        def limit(d, w=w):
            """Ratio of the probabilities of two lowest isomers = ratio of the T -> 0 limits of the weights."""
            s, o, v = prob(d, w)
            z = query(s, o, 'calc_partition_functions', s.temperature())
            z = need_shape(s, z, (d.N, d.M), 'combined partition functions')
            p1, p2 = at_T0(z.at((ROW, COL))), at_T0(z.at((ROW2, COL)))
            f = lambda n: T.mul(*[weight[x](d, n) for x in w])
            both = T.and_(low(ROW, d), low(ROW2, d))
            prove_equal(T.ite(both, T.mul(p1, f(ROW2)), T.num(0)), T.ite(both, T.mul(p2, f(ROW)), T.num(0)), ctxof(I=POS),
                        'ratio of the T = 0 weights of two lowest isomers (%s)' % w, z.buf.site)
            prove_equal(T.ite(low(ROW, d), T.num(0), p1), T.num(0), ctxof(),
                        'weight at T = 0 of an isomer above the lowest energy (%s)' % w, z.buf.site)
        run.ob('%s: T = 0 weights are the T -> 0 limit' % w, limit, SYM, SMALL)

    def qlimit():
        """Lowest isomers of different zero-point energy: only the smaller one stays occupied as T -> 0."""
        d = Dims(2, 'M', 1)
        axes(d)
        s = Sess(d)
        c = builtin(s, 'q')[0]
        z = need_shape(s, query(s, c, 'calc_part_func', s.temperature()), (d.N, d.M), 'partition function')
        ctx = ctxof()
        z1, z2 = at_T0(z.at((T.num(0), COL))), at_T0(z.at((T.num(1), COL)))
        try:
            v = [x for t in (z1, z2) for _, x in Evaluator(ctx).run(t)]
        except Undecided as e:
            raise Undecided('quantum partition function at T = 0: %s' % e)
        if all(isinstance(x, N.NF) and N.is_const(x) for x in v) and len({N.cval(x) for x in v}) == 1 and N.cval(v[0]) > 0:
            raise Viol('the quantum vibrational partition function at T = 0 is the same constant %s for every isomer, so two isomers '
                       'of lowest energy are equally occupied at T = 0 whatever their zero-point energies; the T -> 0 limit occupies '
                       'only the one of lower zero-point energy' % N.cval(v[0]), z.buf.site, 'quantum-T0-ignores-zero-point')
        hi = T.lt(T.elem('nu', T.num(0), T.num(0)), T.elem('nu', T.num(1), T.num(0)))
        prove_equal(T.ite(hi, z2, T.num(0)), T.num(0), ctx, 'quantum weight at T = 0 of the isomer of higher zero-point energy',
                    z.buf.site)
    run.ob('eq: T = 0 probabilities are the T -> 0 limit', qlimit, key='quantum-T0-limit')

    def qcommon(d):
        """At T = 0 the quantum vibrational factor is finite and positive for the isomers that stay occupied."""
        axes(d)
        s = Sess(d)
        c = builtin(s, 'q')[0]
        z = need_shape(s, query(s, c, 'calc_part_func', s.temperature()), (d.N, d.M), 'partition function')
        prove_finite(at_T0(z.at((ROW, COL))), ctxof(), 'quantum partition function at T = 0', z.buf.site)
        prove_true(T.lt(T.num(0), at_T0(z.at((ROW, COL)))), ctxof(), 'quantum partition function at T = 0 is positive', z.buf.site)
    run.ob('quantum vibrational factor at T = 0 is finite and positive', qcommon, SYM, SMALL)

    def rcommon(d):
        """With moments that may vanish the rotational factor is finite and positive at T = 0, so the above carries over."""
        axes(d)
        s = Sess(d)
        c = builtin(s, 'r')[0]
        for m, _ in METHS:
            z = need_shape(s, query(s, c, m, s.temperature()), (d.N, d.M), m)
            prove_finite(at_T0(z.at((ROW, COL))), ctxof(), 'rotational %s at T = 0' % m, z.buf.site)
            if m == 'calc_part_func':
                prove_true(T.lt(T.num(0), at_T0(z.at((ROW, COL)))), ctxof(), 'rotational partition function at T = 0 is positive',
                           z.buf.site)
    run.ob('rotational factor at T = 0 is finite and positive for vanishing moments', rcommon, SYM, SMALL)

    for w in ECOMBOS:
        for q in ('calc_probability', 'calc_heat_capacity', 'calc_ensemble_average'):
            def other(d, w=w, q=q):
                axes(d)
                s = Sess(d)
                o = s.sup(builtin(s, w))
                T_ = s.temperature()
                a = (obsarr(s, d),) if q == 'calc_ensemble_average' else ()
                v = need_arr(query(s, o, q, T_, *a), q, 2)
                row = T.num(0) if v.ndim == 2 and q != 'calc_probability' else ROW
                independent(v.at((row, COL)), ctxof(T1=NONNEG, T2=NONNEG, Tm=POS, I=POS), '%s (%s)' % (q, w), v.buf.site)
            run.ob('%s: a T = 0 entry does not affect other entries of %s' % (w, q), other, SYM, SMALL)


# ---------------------------------------------------------------- C11
M2 = T.dim('M2')


def independent(t, ctx, what, site):
    """The (.., COL) entry depends on T[COL] only: same value for another array T2 of another length M2 that
    holds the same temperature at another position."""
    def rep(name, col, sub=None):
        def f(x):
            if x.op == 'elem' and x.args[0] == 'T':
                if x.args[1] is col or same_ix(x.args[1], col):
                    return TM
                return T.ite(T.eq(x.args[1], col), TM, T.elem(name, x.args[1]))
            if x.op == 'elem' and x.args[0] == 'B':
                if x.args[2] is col or same_ix(x.args[2], col):
                    return T.app('Bm', x.args[1])
                return T.ite(T.eq(x.args[2], col), T.app('Bm', x.args[1]), T.elem('B_' + name, *x.args[1:]))
        return f
    a = map_leaves(t, rep('T1', COL))
    concrete = IXDIM[COL].op == 'num'
    IXDIM[COL2] = M2 if not concrete else T.num(int(IXDIM[COL].args[0]) + 1)
    t2 = T.subst(t, {COL: COL2})
    if not concrete and IXDIM[COL].op == 'dim':
        md = IXDIM[COL]
        t2 = map_leaves(t2, lambda x: M2 if x is md else None)
    b = map_leaves(t2, rep('T2', COL2))
    if a is b:
        return
    d = {'B_T1': ALL, 'B_T2': ALL, 'Bm': ALL}
    prove_equal(a, b, N.Ctx({**ctx.decl, **d}), '%s at one temperature, computed with two different temperature arrays' % what, site)


@check('C11')
def c11(run):
    ctx = ctxof(T1=NONNEG, T2=NONNEG, Tm=NONNEG, I=POS)
    # two sizes only in the general case: concrete lengths cannot express "another length"
    for w in 'ecqr':
        for meth, l in METHS:
            def f(d, w=w, meth=meth):
                axes(d)
                s = Sess(d)
                v = need_arr(query(s, builtin(s, w)[0], meth, s.temperature()), meth, 2)
                independent(v.at((ROW, COL)), ctx, '%s of %s' % (meth, w), v.buf.site)
            run.ob('contribution %s: %s' % (w, meth), f, SYM, SMALL)
    cases_ = [('opaque', None)] + [('built-in ' + w, w) for w in COMBOS]
    for nm, w in cases_:
        for q in ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity'):
            def f(d, w=w, q=q):
                axes(d)
                s = Sess(d)
                o = s.sup_opaque() if w is None else s.sup(builtin(s, w))
                a = (obsarr(s, d),) if q == 'calc_ensemble_average' else ()
                v = need_arr(query(s, o, q, s.temperature(), *a), q, 2)
                row = ROW if q in ('calc_partition_functions', 'calc_probability') else T.num(0)
                independent(v.at((row, COL)), ctx, q, v.buf.site)
            run.ob('%s: %s' % (nm, q), f, SYM, SMALL)

    def lengths(w, q):
        """Concrete arrays of different lengths sharing one temperature give the same entry."""
        def f():
            def val(M, at):
                d = Dims(2, M, 2, 2)
                axes(d)
                s = Sess(d)
                o = s.sup_opaque() if w is None else s.sup(builtin(s, w))
                ix = fresh_ixs(1)
                T_ = new_arr((d.M,), ix, T.ite(T.eq(ix[0], T.num(at)), TM, T.elem('T%d' % M, ix[0])), 'f', ('input', 'T'))
                a = ()
                if q == 'calc_ensemble_average':
                    bx = fresh_ixs(2)
                    a = (new_arr((d.N, d.M), bx, T.ite(T.eq(bx[1], T.num(at)), T.app('Bm', bx[0]), T.elem('B%d' % M, *bx)), 'f',
                                 ('input', 'B')),)
                v = need_arr(query(s, o, q, T_, *a), q, 2)
                row = T.num(1) if q in ('calc_partition_functions', 'calc_probability') else T.num(0)
                return v.at((row, T.num(at))), v.buf.site
            ref, _ = val(1, 0)
            for M, at in ((2, 0), (2, 1), (3, 1)):
                t, site = val(M, at)
                if t is ref:
                    continue
                prove_equal(t, ref, ctxof(T2=NONNEG, T3=NONNEG, Tm=NONNEG, Bm=ALL, B2=ALL, B3=ALL),
                            '%s at one temperature, entry %d of an array of length %d' % (q, at, M), site)
        return f
    for w in (None, 'ecr', 'eqr'):
        for q in ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity'):
            run.ob('%s: %s, arrays of length 1, 2, 3' % (w or 'opaque', q), lengths(w, q))


# ---------------------------------------------------------------- C10
CSYM = T.sym('c')


def shiftE(t):
    return map_leaves(t, lambda x: T.add(x, CSYM) if x.op == 'elem' and x.args[0] == 'E' else None)


@check('C10')
def c10(run):
    decl = dict(c=ALL, I=POS)
    for at in ('T > 0', 'T = 0'):
        for meth, l in METHS:
            def f(d, meth=meth, at=at):
                axes(d)
                s = Sess(d)
                v = need_arr(query(s, builtin(s, 'e')[0], meth, s.temperature()), meth, 2)
                t = v.at((ROW, COL))
                t = at_T0(t) if at == 'T = 0' else t
                prove_equal(t, shiftE(t), ctxof(**decl), 'electronic %s with all energies shifted by c' % meth, v.buf.site)
            run.ob('electronic %s, %s' % (meth, at), f, SYM, SMALL)
        for w in ECOMBOS:
            for q in ('calc_probability', 'calc_heat_capacity', 'calc_ensemble_average'):
                def f(d, w=w, q=q, at=at):
                    axes(d)
                    s = Sess(d)
                    o = s.sup(builtin(s, w))
                    a = (obsarr(s, d),) if q == 'calc_ensemble_average' else ()
                    v = need_arr(query(s, o, q, s.temperature(), *a), q, 2)
                    t = v.at((ROW if q == 'calc_probability' else T.num(0), COL))
                    t = at_T0(t) if at == 'T = 0' else t
                    prove_equal(t, shiftE(t), ctxof(**decl), '%s with all energies shifted by c (%s)' % (q, w), v.buf.site)
                run.ob('%s of %s, %s' % (q, w, at), f, SYM, SMALL)

    def args(d):
        axes(d)
        s = Sess(d)
        n = 0
        c = builtin(s, 'e')[0]
        o = s.sup([c])
        T_ = s.temperature()
        vals = [query(s, c, m, T_) for m, _ in METHS]
        vals += [query(s, o, q, T_) for q in ('calc_probability', 'calc_heat_capacity')]
        for v in vals:
            v = need_arr(v, 'result')
            for ix in ((ROW, COL), (T.num(0), COL)):
                for x in T.walk(v.at(ix)):
                    if x.op in ('exp', 'sinh', 'cosh', 'tanh', 'pow') and any(y.op == 'elem' and y.args[0] == 'E' for y in T.walk(x)):
                        if x.op == 'pow' and not any(y.op == 'elem' and y.args[0] == 'E' for y in T.walk(x.args[1])):
                            continue
                        arg = x.args[1] if x.op == 'pow' else x.args[0]
                        n += 1
                        prove_equal(arg, shiftE(arg), ctxof(**decl), 'argument of %s with all energies shifted by c' % x.op, v.buf.site)
                        if x.op == 'exp':
                            prove_true(T.le(arg, T.num(0)), ctxof(), 'exponent of a Boltzmann factor is at most zero', v.buf.site)
        return '%d exponential arguments' % n
    run.ob('exponents are relative to the lowest energy and never positive', args, SYM, SMALL)
    for at in ('T > 0', 'T = 0'):
        def bounds(d, at=at):
            axes(d)
            s = Sess(d)
            v = need_arr(query(s, builtin(s, 'e')[0], 'calc_part_func', s.temperature()), 'partition function', 2)
            t = v.at((ROW, COL))
            t = at_T0(t) if at == 'T = 0' else t
            g = T.elem('g', ROW)
            prove_true(T.le(T.num(0), t), ctxof(), 'electronic partition function >= 0', v.buf.site)
            prove_true(T.le(t, g), ctxof(), 'electronic partition function <= multiplicity', v.buf.site)
            prove_equal(T.ite(low(ROW, d), t, T.num(0)), T.ite(low(ROW, d), g, T.num(0)), ctxof(),
                        'electronic partition function of a lowest isomer is its multiplicity', v.buf.site)
        run.ob('0 <= electronic partition function <= multiplicity, reached by the lowest isomer, %s' % at, bounds, SYM, SMALL)


# ---------------------------------------------------------------- C12
ROWPOS = {'E': 0, 'g': 0, 's': 0, 'I': 0, 'nu': 0, 'B': 0}
APPPOS = {'Z': 1, 'W': 1, 'V': 1}


def symmetric_in_rows(t, ndim):
    """Syntactic proof: isomer axis indices are only the row itself or bound by a full, symmetric reduction."""
    okidx = {ROW}
    sub = T.walk(t)
    for x in sub:
        if x.op == 'red' and x.args[2] is ndim and x.args[0] in ('sum', 'prod', 'min', 'max', 'any', 'all'):
            okidx.add(x.args[1])
    isrow = set(okidx)
    for x in sub:
        if x.op == 'elem':
            p = ROWPOS.get(x.args[0])
            ix = x.args[1:]
        elif x.op == 'app':
            p = APPPOS.get(x.args[0])
            ix = x.args[1:]
        elif x.op == 'red':
            ix, p = (x.args[1],), 0
            if x.args[1] not in okidx:
                p = None
            # children: dimension and body, visited on their own
            for a in (x.args[2], x.args[3]):
                if a.op == 'idx' and a in isrow:
                    return False
            continue
        else:
            for a in T.children(x):
                if a.op == 'idx' and a in isrow:
                    return False
            continue
        for i, a in enumerate(ix):
            if not isinstance(a, T.Term):
                continue
            if i == p:
                if a not in isrow:
                    return False
            elif any(y in isrow for y in T.walk(a) if y.op == 'idx'):
                return False
    return True


def permute(t, pi):
    def f(x):
        if x.op == 'elem':
            p, off = ROWPOS.get(x.args[0]), 1
        elif x.op == 'app':
            p, off = APPPOS.get(x.args[0]), 1
        else:
            return None
        if p is None:
            return None
        a = list(x.args)
        i = a[off + p]
        if i.op == 'num':
            a[off + p] = T.num(pi[int(i.args[0])])
        else:
            r = T.num(pi[len(pi) - 1])
            for j in range(len(pi) - 1):
                r = T.ite(T.eq(i, T.num(j)), T.num(pi[j]), r)
            a[off + p] = r
        return T.mk(x.op, *a)
    return map_leaves(t, f)


@check('C12')
def c12(run):
    decl = dict(I=NONNEG)

    def equivariance(name, get, rowed):
        """get(s) -> array"""
        def general(d):
            axes(d)
            s = Sess(d)
            v = need_arr(get(s, d), name, 2)
            t = v.at((ROW if rowed else T.num(0), COL))
            if not symmetric_in_rows(t, d.N):
                raise Undecided('not syntactically symmetric')

        def concrete(d):
            axes(d)
            s = Sess(d)
            v = need_arr(get(s, d), name, 2)
            n = int(d.N.args[0])
            perms = {tuple([n - 1] + list(range(1, n - 1)) + [0]) if n > 1 else (0,), tuple(list(range(1, n)) + [0]),
                     tuple([1, 0] + list(range(2, n))) if n > 1 else (0,)}
            for pi in perms:
                for r in (range(n) if rowed else (0,)):
                    a = permute(v.at((T.num(r), COL)), pi)
                    b = v.at((T.num(pi[r] if rowed else 0), COL))
                    if a is b:
                        continue
                    for c in (dict(T=POS), dict(T=ZERO)):
                        prove_equal(a, b, ctxof(**decl, **c), '%s with the isomers permuted as %s, row %d' % (name, pi, r), v.buf.site)
        doms = [Dims(2, 2, 2, 2), Dims(3, 1, 2, 2), Dims(5, 1, 1, 1)]

        def f(d):
            (general if d is SYM else concrete)(d)
        run.ob(name, f, SYM, doms)

    for w in 'ecqr':
        for meth, l in METHS:
            equivariance('contribution %s: %s' % (w, meth),
                         lambda s, d, w=w, meth=meth: query(s, builtin(s, w)[0], meth, s.temperature()), True)
    for w in [None] + ['e', 'c', 'q', 'r', 'ecr', 'eqr']:
        for q in ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity'):
            def get(s, d, w=w, q=q):
                o = s.sup_opaque() if w is None else s.sup(builtin(s, w))
                a = (obsarr(s, d),) if q == 'calc_ensemble_average' else ()
                return query(s, o, q, s.temperature(), *a)
            equivariance('%s: %s' % (w or 'opaque', q), get, q in ('calc_partition_functions', 'calc_probability'))

    def own(w, meth):
        """Row r uses the data of isomer r only (and, for energies, the minimum)."""
        def f():
            n = 3
            d = Dims(n, 1, 2)
            axes(d)
            s = Sess(d)
            v = need_arr(query(s, builtin(s, w)[0], meth, s.temperature()), meth, 2)
            for r in range(n):
                t = v.at((T.num(r), COL))

                def world(tag, low_):
                    def g(x):
                        if x.op != 'elem' or x.args[0] not in ROWPOS:
                            return None
                        i = x.args[1]
                        if i.op != 'num':
                            raise Undecided('symbolic row index %s' % T.show(i))
                        i = int(i.args[0])
                        if x.args[0] == 'E':
                            e0 = T.sym('E0')
                            if i == low_:
                                return e0
                            if i == r:
                                return T.add(e0, T.app('de', T.num(r)))
                            return T.add(e0, T.app('de' + tag, T.num(i)))
                        if i != r:
                            return T.app(x.args[0] + tag, *x.args[1:])
                    return map_leaves(t, g)
                lows = [i for i in range(n) if i != r]
                dd = {k + tag: DECL[k] for k in ROWPOS for tag in ('a', 'b')}
                dd.update(E0=ALL, de=NONNEG, dea=NONNEG, deb=NONNEG, Ia=NONNEG, Ib=NONNEG)
                for la, lb in ((lows[0], lows[0]), (lows[0], lows[1])):
                    a, b = world('a', la), world('b', lb)
                    if a is b:
                        continue
                    for c in (dict(T=POS), dict(T=ZERO)):
                        prove_equal(a, b, ctxof(**dd, **decl, **c), '%s of row %d under changed data of the other isomers' % (meth, r),
                                    v.buf.site)
        return f
    for w in 'ecqr':
        for meth, l in METHS:
            run.ob('contribution %s: %s uses only the row\'s own data' % (w, meth), own(w, meth))


# ---------------------------------------------------------------- C13
@check('C13')
def c13(run):
    doms = [SYM] + [Dims(n, m, k, 2) for n, m, k in ((1, 1, 1), (1, 3, 1), (3, 1, 2), (2, 2, 3), (3, 3, 1), (3, 2, 6))]
    for d in doms:
        nm = 'any N, M, D' if d is SYM else repr(d)[:-8]
        for w in 'ecqr':
            for meth, l in METHS:
                def f(d, w=w, meth=meth):
                    axes(d)
                    s = Sess(d)
                    need_shape(s, query(s, builtin(s, w)[0], meth, s.temperature()), (d.N, d.M), '%s of %s' % (meth, w))
                run.ob('contribution %s: %s, %s' % (w, meth, nm), f, d)
        for w in [None] + (COMBOS if d is SYM else ['e', 'ecr', 'eqr']):
            for q in ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity'):
                def f(d, w=w, q=q):
                    axes(d)
                    s = Sess(d)
                    o = s.sup_opaque() if w is None else s.sup(builtin(s, w))
                    a = (obsarr(s, d),) if q == 'calc_ensemble_average' else ()
                    v = query(s, o, q, s.temperature(), *a)
                    need_shape(s, v, (d.N if q in ('calc_partition_functions', 'calc_probability') else T.num(1), d.M), q)
                run.ob('%s: %s, %s' % (w or 'opaque', q, nm), f, d)


# ---------------------------------------------------------------- C19
@check('C19')
def c19(run):
    KINDS = [('all integer', dict(T='i', E='i', g='i', s='i', I='i', nu='i')),
             ('integer temperatures', dict(T='i')),
             ('integer data', dict(E='i', g='i', s='i', I='i', nu='i')),
             ('integer frequencies', dict(nu='i')), ('integer energies', dict(E='i')), ('integer multiplicities', dict(g='i')),
             ('integer symmetry orders', dict(s='i')), ('integer moments', dict(I='i'))]

    def inputs(s, kinds):
        d = s.dims
        k = lambda n: kinds.get(n, 'f')
        return {'E': s.arr('E', (d.N,), k('E')), 'g': s.arr('g', (d.N,), k('g')), 's': s.arr('s', (d.N,), k('s')),
                'I': s.arr('I', (d.N, T.num(3)), k('I')), 'nu': s.arr('nu', (d.N, d.D), k('nu'))}, s.temperature(k('T'))

    USES = {'e': 'ETg', 'c': ('nu', 'T'), 'q': ('nu', 'T'), 'r': 'sIT'}
    for nm, kinds in KINDS:
        for w in 'ecqr':
            if not any(k in USES[w] for k in kinds):
                continue
            for meth, l in METHS:
                def f(d, w=w, meth=meth, kinds=kinds):
                    axes(d)
                    out = []
                    for kd in (kinds, {}):
                        s = Sess(d)
                        inp, T_ = inputs(s, kd)
                        c = s.build(w, inp)
                        out.append(need_shape(s, query(s, c, meth, T_), (d.N, d.M), meth))
                    a, b = out
                    if strong(a.dt) in 'ib':
                        raise Viol('%s of %s has integer type for %s' % (meth, w, nm), a.buf.site)
                    for z in (False, True):
                        x, y = a.at((ROW, COL)), b.at((ROW, COL))
                        if z:
                            x, y = at_T0(x), at_T0(y)
                        prove_equal(x, y, ctxof(I=NONNEG), '%s with integer inputs' % meth, a.buf.site, integers=('g', 's', 'E', 'T', 'nu', 'I'))
                run.ob('%s: contribution %s, %s' % (nm, w, meth), f, SYM, SMALL)
        if nm in ('all integer', 'integer temperatures', 'integer data'):
            for w in ('e', 'ecr', 'eqr'):
                for q in ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity'):
                    def f(d, w=w, q=q, kinds=kinds):
                        axes(d)
                        out = []
                        for kd in (kinds, {}):
                            s = Sess(d)
                            inp, T_ = inputs(s, kd)
                            o = s.sup([s.build(x, inp) for x in w])
                            a = ()
                            if q == 'calc_ensemble_average':
                                a = (s.arr('B', (d.N, d.M), 'i' if kd.get('E') else 'f'),)
                            out.append(need_arr(query(s, o, q, T_, *a), q, 2))
                        a, b = out
                        if strong(a.dt) in 'ib':
                            raise Viol('%s has integer type for %s' % (q, nm), a.buf.site)
                        row = ROW if q in ('calc_partition_functions', 'calc_probability') else T.num(0)
                        for z in (False, True):
                            x, y = a.at((row, COL)), b.at((row, COL))
                            if z:
                                x, y = at_T0(x), at_T0(y)
                            prove_equal(x, y, ctxof(I=POS), '%s with integer inputs' % q, a.buf.site,
                                        integers=('g', 's', 'E', 'T', 'nu', 'I'))
                    run.ob('%s: %s of %s' % (nm, q, w), f, SYM, SMALL)

    for nm, td, ed in (('integer temperatures', 'i', 'f'), ('integer energies', 'f', 'i'), ('all integer', 'i', 'i')):
        def beta(d, td=td):
            axes(d)
            out = []
            for t in (td, 'f'):
                s = Sess(d)
                v, p = s.call(s.util('calc_beta'), s.temperature(t))
                s.norm_raise(p, 'calc_beta')
                out.append(need_shape(s, v, (d.M,), 'calc_beta'))
            for z in (False, True):
                x, y = [a.at((COL,)) for a in out]
                x, y = (at_T0(x), at_T0(y)) if z else (x, y)
                prove_equal(x, y, ctxof(), 'calc_beta of integer temperatures', out[0].buf.site, integers=('T',))
        if td == 'i':
            run.ob('%s: calc_beta' % nm, beta, SYM, SMALL)

        def expo(d, td=td, ed=ed):
            axes(d)
            out = []
            for t, e in ((td, ed), ('f', 'f')):
                s = Sess(d)
                v, p = s.call(s.util('calc_exponent'), s.arr('E', (d.N,), e), s.temperature(t))
                s.norm_raise(p, 'calc_exponent')
                out.append(need_shape(s, v, (d.N, d.M), 'calc_exponent'))
            for z in (False, True):
                x, y = [a.at((ROW, COL)) for a in out]
                x, y = (at_T0(x), at_T0(y)) if z else (x, y)
                prove_equal(x, y, ctxof(), 'calc_exponent with integer inputs', out[0].buf.site, integers=('T', 'E'))
        run.ob('%s: calc_exponent' % nm, expo, SYM, SMALL)

    def gmean(d):
        axes(d)
        out = []
        for k in ('i', 'f'):
            s = Sess(d)
            v, p = s.call(s.util('calc_geometric_mean'), s.arr('nu', (d.N, d.D), k))
            s.norm_raise(p, 'calc_geometric_mean')
            out.append(need_shape(s, v, (d.N,), 'geometric mean'))
        prove_equal(out[0].at((ROW,)), out[1].at((ROW,)), ctxof(nu=NONNEG), 'geometric mean of integers', out[0].buf.site, integers=('nu',))
    run.ob('geometric mean of integers', gmean, SYM, SMALL)


# ---------------------------------------------------------------- C20
@check('C20')
def c20(run):
    def beta(d):
        axes(d)
        s = Sess(d)
        v, p = s.call(s.util('calc_beta'), s.temperature())
        s.norm_raise(p, 'calc_beta')
        v = need_shape(s, v, (d.M,), 'calc_beta')
        prove_equal(v.at((COL,)), T.div(T.num(1), T.mul(T.KB, TT)), ctxof(), 'inverse temperature', v.buf.site)
        z = at_T0(v.at((COL,)))
        prove_equal(z, T.INF, ctxof(), 'inverse temperature at T = 0', v.buf.site)
    run.ob('calc_beta', beta, SYM, SMALL)

    def expo(d):
        axes(d)
        s = Sess(d)
        v, p = s.call(s.util('calc_exponent'), s.arr('E', (d.N,)), s.temperature())
        s.norm_raise(p, 'calc_exponent')
        v = need_shape(s, v, (d.N, d.M), 'calc_exponent')
        t, e = v.at((ROW, COL)), T.elem('E', ROW)
        prove_equal(t, T.div(e, T.mul(T.KB, TT)), ctxof(), 'exponent', v.buf.site)
        z = at_T0(t)
        for sg, want in ((POS, T.INF), (NEG, T.neg(T.INF)), (ZERO, T.num(0))):
            prove_equal(z, want, ctxof(E=sg), 'exponent at T = 0', v.buf.site)
        prove_equal(t, T.num(0), ctxof(E=ZERO), 'exponent of zero energy', v.buf.site)
    run.ob('calc_exponent', expo, SYM, SMALL)

    CODATA = {'k_B': Fraction('8.617333262145e-5'), 'h': Fraction('4.135667696923859e-3')}

    def consts():
        """Every float literal close to a multiple of k_B or h (or their quotients) matches it to 5e-9."""
        from . import extmod
        s = Sess(SYM)
        seen = set()
        used = set()
        for m in ('occuprob.utils', 'occuprob.partitionfunctions', 'occuprob.superpositions', 'occuprob.io', 'occuprob.cli'):
            s.mod(m)
        T_ = s.temperature()
        for w in 'ecqr':
            c = builtin(s, w)[0]
            for meth, _ in METHS:
                v = need_arr(query(s, c, meth, T_), meth, 2)
                for x in T.walk(v.at((ROW, COL))):
                    if x.op == 'sym' and x.args[0] in CODATA:
                        used.add(x.args[0])
        n = 0
        for val, name, exact, site in constants_seen(s):
            n += 1
            dev = abs(Fraction(repr(val)) / exact - 1)
            if dev > Fraction(5, 10 ** 9):
                raise Viol('constant %r deviates from the CODATA 2018 value of %s by %.2e' % (val, name, float(dev)), site)
            seen.add(name)
        if used != set(CODATA):
            raise Viol('formulas use the physical constants %s instead of k_B and h' % (sorted(used) or 'none'),
                       'occuprob/partitionfunctions.py')
        return '%d constants recognised: %s' % (n, ', '.join(sorted(seen)))
    run.ob('physical constants are the CODATA 2018 values', consts)

    # dimensions: energy scaled by a, temperature by b, frequency by c, k_B by a/b, h by a/c; moments by p
    sc = {'E': T.sym('ua'), 'T': T.sym('ub'), 'nu': T.sym('uc')}

    def rescale(t):
        def f(x):
            if x.op == 'elem' and x.args[0] in sc:
                return T.mul(sc[x.args[0]], x)
            if x.op == 'sym' and x.args[0] == 'k_B':
                return T.div(T.mul(x, sc['E']), sc['T'])
            if x.op == 'sym' and x.args[0] == 'h':
                return T.div(T.mul(x, sc['E']), sc['nu'])
        return map_leaves(t, f)

    for w in 'ecqr':
        for meth, l in METHS:
            def dimless(d, w=w, meth=meth):
                axes(d)
                s = Sess(d)
                v = need_arr(query(s, builtin(s, w)[0], meth, s.temperature()), meth, 2)
                n = 0
                for x in T.walk(v.at((ROW, COL))):
                    if x.op in ('exp', 'sinh', 'cosh', 'tanh'):
                        if any(y.op == 'log' for y in T.walk(x.args[0])):
                            continue        # exp(mean(log(..))): a power, not a Boltzmann factor
                        n += 1
                        a = x.args[0]
                        prove_equal(rescale(a), a, ctxof(ua=POS, ub=POS, uc=POS), 'argument of %s under a change of units' % x.op,
                                    v.buf.site)
                return '%d arguments' % n
            run.ob('contribution %s %s: arguments are dimensionless' % (w, meth), dimless, SYM, SMALL)


def constants_seen(s):
    out, seen = [], set()
    base = {'k_B': Fraction('8.617333262145e-5'), 'h': Fraction('4.135667696923859e-3')}
    base['q_e'] = Fraction('1.602176634e-19')
    base['q_e k_B'], base['q_e h'] = Fraction('1.380649e-23'), Fraction('6.62607015e-34')
    base['1/k_B'] = 1 / base['k_B']
    base['h/k_B'] = base['h'] / base['k_B']
    base['k_B/h'] = base['k_B'] / base['h']
    vals = [(e['value'], e['site']) for e in s.I.events if e['kind'] == 'literal']
    vals += [(x, 'constant computed by the source') for x in T.seen_consts]
    for v, site in vals:
        if isinstance(v, Fraction):
            v = float(v)
        if not isinstance(v, float) or v != v or abs(v) == float('inf') or v == 0:
            continue
        import math
        a = Fraction(repr(abs(v)))
        for name, b in base.items():
            for m in (1, 2, Fraction(1, 2)):
                r = float(a / (b * m))
                if r <= 0 or r == float('inf'):
                    continue
                k = round(math.log10(r))
                if k % 3 == 0 and abs(k) <= 15:
                    ex = b * m * Fraction(10) ** k
                    # near miss: same leading digits, so meant to be this constant
                    if abs(float(a / ex) - 1) < 2e-3 and (v, name) not in seen:
                        if a.denominator <= 10 ** 3 and a.numerator <= 10 ** 4:
                            continue        # a plain short number
                        seen.add((v, name))
                        out.append((v if v > 0 else -v, name, ex, site))
    return out


# ---------------------------------------------------------------- C32
@check('C32')
def c32(run):
    def mean(s, d):
        v, p = s.call(s.util('calc_geometric_mean'), s.arr('nu', (d.N, d.D)))
        s.norm_raise(p, 'calc_geometric_mean', dict(nu=NONNEG))
        return need_shape(s, v, (d.N,), 'geometric mean')

    def spec(d, n):
        return T.power(prodd(d.D, lambda j: T.elem('nu', n, j)), T.div(T.num(1), d.D))

    def pos(d):
        axes(d)
        s = Sess(d)
        v = mean(s, d)
        prove_equal(v.at((ROW,)), spec(d, ROW), ctxof(), 'geometric mean of positive entries', v.buf.site)
    run.ob('positive entries: D-th root of the product', pos, SYM, SMALL)
    for D in (1, 2, 3, 5):
        def con(d, D=D):
            axes(d)
            s = Sess(d)
            v = mean(s, d)
            prove_equal(v.at((ROW,)), spec(d, ROW), ctxof(nu=NONNEG), 'geometric mean', v.buf.site)
        run.ob('non-negative entries, %d columns' % D, con, Dims(D=D), [Dims(1, 1, D), Dims(2, 2, D), Dims(3, 3, D)])

        for z in range(D):
            def zero(d, z=z):
                axes(d)
                s = Sess(d)
                v = mean(s, d)
                t = map_leaves(v.at((ROW,)), lambda x: T.num(0) if x.op == 'elem' and x.args[0] == 'nu' and x.args[1] is ROW and
                               same_ix(x.args[2], T.num(z)) else None)
                prove_equal(t, T.num(0), ctxof(nu=NONNEG), 'geometric mean of a row with a zero', v.buf.site)
            run.ob('entry %d of %d is zero: the mean is zero' % (z, D), zero, Dims(D=D), [Dims(2, 2, D)])
