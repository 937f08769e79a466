"""Checks of the numerical laws: the value graph of every query against its documented closed form."""
from .lib import *

REG = {}


def check(pid):
    def d(f):
        REG[pid] = f
        return f
    return d


def axes(d):
    for a, x in ((ROW, d.N), (ROW2, d.N), (COL, d.M), (COL2, d.M)):
        IXDIM[a] = x


TT = T.elem('T', COL)
COMBOS = ['e', 'c', 'q', 'r', 'ec', 'eq', 'er', 'cr', 'qr', 'ecr', 'eqr']


def query(s, o, name, *args, what=None):
    v, p = s.meth(o, name, *args)
    s.norm_raise(p, what or name)
    if PRECISE[0]:
        single_precision(s, what or name)
    return v


def single_precision(s, what):
    """Closed forms and exact invariances do not survive rounding an input to seven digits."""
    for e in s.I.events:
        if e['kind'] == 'narrow' and e['dst'] == 'f4' and e['src'] in ('f', 'g', 'i') and 'occuprob.' in e['site']:
            t = e.get('term')
            if t is None or any(x.op in ('elem', 'app', 'sym') for x in T.walk(t)):
                raise Viol('%s: a value computed from the inputs is narrowed to single precision' % what, e['site'])


def pf_terms(s, o, T_):
    """(Z, W, V) terms of a contribution at (ROW, COL)."""
    out = []
    for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
        v = need_arr(query(s, o, m, T_), m, 2)
        out.append((v.at((ROW, COL)), v.buf.site))
    return out


def builtin(s, which, dt='f', nu=None):
    inp = s.isomers(dt, nu)
    return [s.build(w, inp) for w in which]


# ---------------------------------------------------------------- C01
def Zk(k, n, m=COL):
    return T.app('Z', k, n, T.elem('T', m))


def Wk(k, n, m=COL):
    return T.app('W', k, n, T.elem('T', m))


def Vk(k, n, m=COL):
    return T.app('V', k, n, T.elem('T', m))


def P_spec(d, n=ROW, K=None, z=None):
    K = K if K is not None else d.K
    z = z or (lambda a: prodk(K, lambda k: Zk(k, a)))
    return T.div(z(n), sumd(d.N, z))


@check('C01')
def c01(run):
    def opaque(how, K):
        def f(d):
            axes(d)
            s = Sess(d)
            kd = d.K if K is None else T.num(K)
            if how == 'list':
                o = s.sup_opaque(kd)
            else:
                o = s.sup([s.opaque(i) for i in range(K)], 'each')
            v = need_arr(query(s, o, 'calc_probability', s.temperature()), 'occupation probability', 2)
            prove_equal(v.at((ROW, COL)), P_spec(d, K=kd), ctxof(), 'occupation probability', v.buf.site)
        return f
    run.ob('any number K of opaque contributions', opaque('list', None), SYM, SMALL)
    for K in (1, 2, 3):
        run.ob('%d opaque contributions registered one by one' % K, opaque('each', K), SYM, SMALL)

    def twice(d):
        axes(d)
        s = Sess(d)
        h = s.opaque(0)
        o = s.sup([h, h])
        v = need_arr(query(s, o, 'calc_probability', s.temperature()), 'occupation probability', 2)
        z = lambda a: T.power(Zk(T.num(0), a), T.num(2))
        prove_equal(v.at((ROW, COL)), P_spec(d, z=z), ctxof(), 'probability with a contribution registered twice', v.buf.site)
    run.ob('the same contribution twice counts twice', twice, SYM, SMALL)

    def comb(which, user):
        def f(d):
            axes(d)
            s = Sess(d)
            T_ = s.temperature()
            cs = builtin(s, which)
            zs = [need_arr(query(s, c, 'calc_part_func', T_), 'partition function', 2) for c in cs]
            if user:
                cs = cs + [s.opaque(0)]
            o = s.sup(cs)
            v = need_arr(query(s, o, 'calc_probability', T_), 'occupation probability', 2)

            def z(a):
                fs = [x.at((a, COL)) for x in zs]
                if user:
                    fs.append(Zk(T.num(0), a))
                return T.mul(T.num(1), *fs)
            prove_equal(v.at((ROW, COL)), P_spec(d, z=z), ctxof(I=POS), 'occupation probability', v.buf.site)
        return f
    for w in COMBOS:
        run.ob('built-in contributions %s' % w, comb(w, False), SYM, SMALL)
    for w in ('e', 'q', 'ecr'):
        run.ob('built-in contributions %s and a user-defined one' % w, comb(w, True), SYM, SMALL)


# ---------------------------------------------------------------- C02
@check('C02')
def c02(run):
    def obs(s, d, body=None):
        ix = fresh_ixs(2)
        return new_arr((d.N, d.M), ix, body(*ix) if body else T.elem('B', *ix), 'f', ('input', 'B'))

    def general(d):
        axes(d)
        s = Sess(d)
        o = s.sup_opaque()
        v = query(s, o, 'calc_ensemble_average', s.temperature(), obs(s, d))
        v = need_shape(s, v, (T.num(1), d.M), 'ensemble average')
        z = lambda a: prodk(d.K, lambda k: Zk(k, a))
        spec = sumd(d.N, lambda a: T.mul(T.elem('B', a, COL), P_spec(d, a)))
        prove_equal(v.at((T.num(0), COL)), spec, ctxof(), 'ensemble average', v.buf.site)
    run.ob('average over opaque contributions', general, SYM, SMALL)

    def builtins(which):
        def f(d):
            axes(d)
            s = Sess(d)
            o = s.sup(builtin(s, which))
            T_ = s.temperature()
            p = need_arr(query(s, o, 'calc_probability', T_), 'occupation probability', 2)
            v = query(s, o, 'calc_ensemble_average', T_, obs(s, d))
            v = need_shape(s, v, (T.num(1), d.M), 'ensemble average')
            spec = sumd(d.N, lambda a: T.mul(T.elem('B', a, COL), p.at((a, COL))))
            prove_equal(v.at((T.num(0), COL)), spec, ctxof(I=POS), 'ensemble average', v.buf.site)
        return f
    for w in ('e', 'c', 'q', 'er', 'qr'):
        run.ob('average over built-in contributions %s' % w, builtins(w), SYM, SMALL)

    def masked(special, n):
        def f():
            d = Dims(n, 2, 1, 1)
            axes(d)
            s = Sess(d)
            zero = lambda i, tt: T.ite(T.eq(i, T.num(0)), T.num(0), T.app('Z', T.num(0), i, tt))
            c = s.opaque(0, values={'Z': zero})
            o = s.sup([c])
            B = obs(s, d, lambda i, j: T.ite(T.eq(i, T.num(0)), special, T.elem('B', i, j)))
            v = query(s, o, 'calc_ensemble_average', s.temperature(), B)
            v = need_shape(s, v, (T.num(1), d.M), 'ensemble average')
            z = [Zk(T.num(0), T.num(i)) for i in range(1, n)]
            spec = T.div(T.add(T.num(0), *[T.mul(T.elem('B', T.num(i), COL), z[i - 1]) for i in range(1, n)]), T.add(T.num(0), *z))
            prove_equal(v.at((T.num(0), COL)), spec, ctxof(),
                        'ensemble average with an unoccupied isomer whose observable is %s' % T.show(special), v.buf.site)
        return f
    for sp, nm in ((T.INF, '+inf'), (T.mul(T.num(-1), T.INF), '-inf'), (T.num(5), 'finite')):
        for n in (2, 3):
            run.ob('an unoccupied isomer with %s observable contributes nothing (N=%d)' % (nm, n), masked(sp, n))

    def infocc():
        d = Dims(2, 2, 1, 1)
        axes(d)
        s = Sess(d)
        o = s.sup([s.opaque(0)])
        B = obs(s, d, lambda i, j: T.ite(T.eq(i, T.num(0)), T.INF, T.elem('B', i, j)))
        v = need_shape(s, query(s, o, 'calc_ensemble_average', s.temperature(), B), (T.num(1), d.M), 'ensemble average')
        prove_equal(v.at((T.num(0), COL)), T.INF, ctxof(), 'ensemble average with an occupied isomer of infinite observable', v.buf.site)
    run.ob('an occupied isomer with infinite observable gives an infinite average', infocc)


# ---------------------------------------------------------------- C03
def C_spec(d, P, w, v):
    E = lambda f: sumd(d.N, lambda a: T.mul(f(a), P(a)))
    return T.sub(T.add(E(v), E(lambda a: T.power(w(a), T.num(2)))), T.power(E(w), T.num(2)))


@check('C03')
def c03(run):
    def opaque(K):
        def f(d):
            axes(d)
            s = Sess(d)
            kd = d.K if K is None else T.num(K)
            o = s.sup_opaque(kd)
            v = query(s, o, 'calc_heat_capacity', s.temperature())
            v = need_shape(s, v, (T.num(1), d.M), 'heat capacity')
            spec = C_spec(d, lambda a: P_spec(d, a, K=kd), lambda a: sumd(kd, lambda k: Wk(k, a)),
                          lambda a: sumd(kd, lambda k: Vk(k, a)))
            prove_equal(v.at((T.num(0), COL)), spec, ctxof(), 'heat capacity', v.buf.site)
        return f
    run.ob('any number K of opaque contributions', opaque(None), SYM, SMALL)
    for K in (1, 2, 3):
        run.ob('%d opaque contributions' % K, opaque(K), SYM, SMALL)

    def comb(which):
        def f(d):
            axes(d)
            s = Sess(d)
            T_ = s.temperature()
            cs = builtin(s, which)
            arrs = {}
            for nm in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
                arrs[nm] = [need_arr(query(s, c, nm, T_), nm, 2) for c in cs]
            o = s.sup(cs)
            v = query(s, o, 'calc_heat_capacity', T_)
            v = need_shape(s, v, (T.num(1), d.M), 'heat capacity')
            z = lambda a: T.mul(T.num(1), *[x.at((a, COL)) for x in arrs['calc_part_func']])
            w = lambda a: T.add(T.num(0), *[x.at((a, COL)) for x in arrs['calc_part_func_w']])
            u = lambda a: T.add(T.num(0), *[x.at((a, COL)) for x in arrs['calc_part_func_v']])
            spec = C_spec(d, lambda a: P_spec(d, a, z=z), w, u)
            prove_equal(v.at((T.num(0), COL)), spec, ctxof(I=POS), 'heat capacity', v.buf.site)
        return f
    for w in COMBOS:
        run.ob('built-in contributions %s' % w, comb(w), SYM, SMALL)


# ---------------------------------------------------------------- ratio laws (C04-C07)
def ratio_law(run, name, letter, spec, ctx_kw, positive=True, at0=False, doms=(SYM, SMALL)):
    """The contribution's Z is proportional to spec(n) with a factor common to all isomers, and positive."""
    def get(d):
        axes(d)
        s = Sess(d)
        c = builtin(s, letter)[0]
        v = need_arr(query(s, c, 'calc_part_func', s.temperature()), 'partition function', 2)
        t1, t2 = v.at((ROW, COL)), v.at((ROW2, COL))
        if at0:
            t1, t2 = at_T0(t1), at_T0(t2)
        return s, v, t1, t2

    def ratio(d):
        s, v, t1, t2 = get(d)
        prove_equal(T.mul(t1, spec(d, ROW2)), T.mul(t2, spec(d, ROW)), ctxof(**ctx_kw),
                    '%s: ratio of the partition functions of two isomers' % name, v.buf.site)
    run.ob('%s: ratio of two isomers' % name, ratio, *doms)

    def pos(d):
        s, v, t1, t2 = get(d)
        prove_true(T.lt(T.num(0), t1), ctxof(**ctx_kw), '%s: partition function is positive' % name, v.buf.site)
        prove_finite(t1, ctxof(**ctx_kw), '%s: partition function' % name, v.buf.site)
    if positive:
        run.ob('%s: positive and finite' % name, pos, *doms)


def Emin(d):
    i = T.fresh_idx('e')
    IXDIM[i] = d.N
    return T.red('min', i, d.N, T.elem('E', i))


@check('C04')
def c04(run):
    boltz = lambda d, n: T.mul(T.elem('g', n), T.fn('exp', T.neg(T.div(T.sub(T.elem('E', n), Emin(d)), T.mul(T.KB, TT)))))
    ratio_law(run, 'T > 0', 'e', boltz, dict(T=POS))

    def zero(d):
        axes(d)
        s = Sess(d)
        c = builtin(s, 'e')[0]
        v = need_arr(query(s, c, 'calc_part_func', s.temperature()), 'partition function', 2)
        t1, t2 = at_T0(v.at((ROW, COL))), at_T0(v.at((ROW2, COL)))
        low = lambda n: T.le(T.elem('E', n), Emin(d))
        ctx = ctxof()
        prove_equal(T.ite(low(ROW), T.num(0), t1), T.num(0), ctx, 'T = 0: partition function of an isomer above the lowest energy',
                    v.buf.site)
        both = T.and_(low(ROW), low(ROW2))
        prove_equal(T.ite(both, T.mul(t1, T.elem('g', ROW2)), T.num(0)), T.ite(both, T.mul(t2, T.elem('g', ROW)), T.num(0)), ctx,
                    'T = 0: ratio of two isomers of lowest energy', v.buf.site)
        prove_true(T.or_(T.not_(low(ROW)), T.lt(T.num(0), t1)), ctx, 'T = 0: partition function of a lowest isomer is positive',
                   v.buf.site)
    run.ob('T = 0: only the lowest isomers, weighted by multiplicity', zero, SYM, SMALL)


@check('C05')
def c05(run):
    spec = lambda d, n: T.div(T.num(1), prodd(d.D, lambda j: T.elem('nu', n, j)))
    ratio_law(run, 'any T >= 0', 'c', spec, dict(T=NONNEG))
    for D in (1, 2, 3, 4, 6):
        ratio_law(run, '%d modes' % D, 'c', spec, dict(T=NONNEG), doms=(Dims(D=D), [Dims(2, 2, D), Dims(3, 1, D)]))


@check('C06')
def c06(run):
    x = lambda n, j: T.div(T.mul(T.H, T.elem('nu', n, j)), T.mul(T.num(2), T.KB, TT))
    spec = lambda d, n: prodd(d.D, lambda j: T.div(T.num(1), T.mul(T.num(2), T.fn('sinh', x(n, j)))))
    ratio_law(run, 'T > 0', 'q', spec, dict(T=POS))
    for D in (1, 2, 3):
        ratio_law(run, 'T > 0, %d modes' % D, 'q', spec, dict(T=POS), doms=(Dims(D=D), [Dims(2, 2, D), Dims(3, 1, D)]))


@check('C07')
def c07(run):
    def m(n, j):
        t = T.elem('I', n, T.num(j))
        return T.ite(T.lt(T.num(0), t), t, T.num(1))
    spec = lambda d, n: T.div(T.power(T.mul(*[m(n, j) for j in range(3)]), T.num(T_HALF)), T.elem('s', n))
    ratio_law(run, 'general moments, T > 0', 'r', spec, dict(T=POS, I=POS))
    ratio_law(run, 'general moments, T >= 0', 'r', spec, dict(T=NONNEG, I=POS))
    ratio_law(run, 'moments that may vanish', 'r', spec, dict(T=POS, I=NONNEG))
    for j in range(3):
        def f(d, j=j):
            axes(d)
            s = Sess(d)
            c = builtin(s, 'r')[0]
            v = need_arr(query(s, c, 'calc_part_func', s.temperature()), 'partition function', 2)
            lin = lambda t, n: map_leaves(t, lambda q: T.num(0) if q.op == 'elem' and q.args[0] == 'I' and q.args[1] is n and
                                          same_ix(q.args[2], T.num(j)) else None)
            t1, t2 = lin(v.at((ROW, COL)), ROW), v.at((ROW2, COL))
            others = [k for k in range(3) if k != j]
            s1 = T.div(T.power(T.mul(*[T.elem('I', ROW, T.num(k)) for k in others]), T.num(T_HALF)), T.elem('s', ROW))
            s2 = spec(d, ROW2)
            prove_equal(T.mul(t1, s2), T.mul(t2, s1), ctxof(T=POS, I=POS),
                        'linear isomer (moment %d is zero) against a nonlinear one' % j, v.buf.site)
        run.ob('vanishing moment %d of one isomer is left out' % j, f, SYM, SMALL)


from fractions import Fraction
T_HALF = Fraction(1, 2)


# ---------------------------------------------------------------- C08
@check('C08')
def c08(run):
    x = lambda n, j: T.div(T.mul(T.H, T.elem('nu', n, j)), T.mul(T.num(2), T.KB, TT))
    de = lambda d, n: T.sub(T.elem('E', n), Emin(d))
    W_ = {'e': lambda d, n: T.neg(T.div(de(d, n), T.mul(T.KB, TT))),
          'r': lambda d, n: T.num(Fraction(-3, 2)),
          'c': lambda d, n: T.neg(d.D),
          'q': lambda d, n: T.neg(sumd(d.D, lambda j: T.div(x(n, j), T.fn('tanh', x(n, j)))))}
    V_ = {'e': lambda d, n: T.num(0),
          'r': lambda d, n: T.num(Fraction(3, 2)),
          'c': lambda d, n: d.D,
          'q': lambda d, n: sumd(d.D, lambda j: T.power(T.div(x(n, j), T.fn('sinh', x(n, j))), T.num(2)))}
    names = {'e': 'electronic', 'r': 'rotational', 'c': 'classical vibrational', 'q': 'quantum vibrational'}
    for which in 'ercq':
        for meth, spec, nm in (('calc_part_func_w', W_, 'first'), ('calc_part_func_v', V_, 'second')):
            def f(d, which=which, meth=meth, spec=spec, nm=nm):
                axes(d)
                s = Sess(d)
                c = builtin(s, which)[0]
                v = need_arr(query(s, c, meth, s.temperature()), '%s derivative term' % nm, 2)
                prove_equal(v.at((ROW, COL)), spec[which](d, ROW), ctxof(I=NONNEG), '%s %s derivative term' % (names[which], nm),
                            v.buf.site)
            run.ob('%s %s derivative term' % (names[which], nm), f, SYM, SMALL)

    def selfcheck():
        """The closed forms above are the derivatives of the documented ln Z (normal-form differentiation)."""
        ctx = ctxof()
        d = Dims(D=1)
        lnz = {'e': W_['e'](d, ROW), 'r': T.mul(T.num(Fraction(3, 2)), T.fn('log', TT)),
               'c': T.mul(T.num(1), T.fn('log', T.div(T.mul(T.KB, TT), T.mul(T.H, T.elem('nu', ROW, T.num(0)))))),
               'q': T.neg(T.fn('log', T.mul(T.num(2), T.fn('sinh', x(ROW, T.num(0))))))}
        with N.using(ctx):
            ev = Evaluator(ctx)
            ta = N.atom('elem', 'T', (ev.nfv(COL),))
            for which in lnz:
                nf = ev.nfv(lnz[which])
                w = N.scale(N.mul(N.of_atom(ta), N.deriv(nf, ta.id)), Fraction(-1))
                ww = ev.nfv(W_[which](d, ROW))
                # V = beta^2 dW/dbeta with betaW = w:  beta^2 d(w/beta)/dbeta = beta dw/dbeta - w
                v = N.sub(N.scale(N.mul(N.of_atom(ta), N.deriv(w, ta.id)), Fraction(-1)), w)
                vv = ev.nfv(V_[which](d, ROW))
                if not N.equal(w, ww) or not N.equal(v, vv):
                    raise Undecided('specification of %s is inconsistent' % which)
    run.ob('specification self-check: derivative terms derived from ln Z', selfcheck)
