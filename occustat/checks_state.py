"""Checks of state, effects and protocol: purity, registration, empty and failing contributions, precision, extension."""
from .lib import *
from .checks_phys import (check, axes, builtin, query, Zk, P_spec, prodk)
from .checks_inv import METHS, obsarr

QUERIES = ('calc_partition_functions', 'calc_probability', 'calc_ensemble_average', 'calc_heat_capacity')
QNAME = {'calc_partition_functions': 'partition functions', 'calc_probability': 'occupation probability',
         'calc_ensemble_average': 'ensemble average', 'calc_heat_capacity': 'heat capacity'}


def qargs(s, d, q):
    return (obsarr(s, d),) if q == 'calc_ensemble_average' else ()


# ---------------------------------------------------------------- C14
def snapshot(bufs):
    return [(b, b.c['body']) for b in bufs]


def unchanged(snap, ctx, what, s):
    for b, body in snap:
        now = b.c['body']
        if now is body:
            continue
        m = dict(zip(b.ixs, [T.idx('p%d' % i) for i in range(len(b.ixs))]))
        for x, dm in zip(m.values(), b.dims):
            IXDIM[x] = dm
        site = next((e['site'] for e in reversed(s.I.events) if e['kind'] == 'mutate' and e.get('buf') is b), b.site)
        prove_equal(T.subst(now, m), T.subst(body, m), ctx_mut(), '%s after the call' % (what % name_of(b)), site)


def name_of(b):
    o = b.origin
    if isinstance(o, tuple) and o and o[0] == 'input':
        return {'T': 'the temperature array', 'T2': 'the temperature array', 'E': 'the energies', 'g': 'the multiplicities', 's': 'the symmetry orders',
                'I': 'the moments', 'nu': 'the frequencies', 'B': 'the observable'}.get(o[1], 'input %s' % (o[1],))
    return 'stored data'


def same_result(a, b, ctx, what):
    a, b = need_arr(a, what, 2), need_arr(b, what, 2)
    if strong(a.dt) != strong(b.dt):
        raise Viol('%s has type %s instead of %s' % (what, a.dt, b.dt), a.buf.site)
    for n, r in (('row', ROW),) if a.dims[0].op != 'num' else (('row', T.num(i)) for i in range(int(a.dims[0].args[0]))):
        prove_equal(a.at((r, COL)), b.at((r, COL)), ctx, what, a.buf.site)


def ctx14():
    return ctxof(I=POS, T2=NONNEG, poison=ALL)


def ctx_mut():
    """A store counts whatever the values are, so none of them is assumed to be positive."""
    return ctxof(T=NONNEG, T2=NONNEG, I=NONNEG, nu=NONNEG, Z=NONNEG, E=ALL, g=ALL, s=ALL, poison=ALL)


def move(v):
    """The caller changes the temperatures in place."""
    v.buf.c['body'] = T.elem('T2', *v.buf.ixs)


def poison(v):
    """The caller overwrites the array it got."""
    b = v.buf
    b.c['body'] = T.app('poison', *b.ixs) if b.ixs else T.sym('poison')


@check('C14')
def c14(run):
    def second(s, kind):
        d = s.dims
        ix = fresh_ixs(1)
        if kind == 'other':
            t = T.elem('T2', ix[0])
        elif kind == 'first':
            t = T.ite(T.eq(ix[0], T.num(0)), T.elem('T', ix[0]), T.elem('T2', ix[0]))
        elif kind == 'reversed':
            t = T.elem('T', T.sub(T.sub(d.M, T.num(1)), ix[0]))
        elif kind == 'middle':
            t = T.ite(T.eq(ix[0], T.num(1)), T.elem('T2', ix[0]), T.elem('T', ix[0]))
        else:
            t = T.ite(T.eq(ix[0], T.sub(d.M, T.num(1))), T.elem('T', ix[0]), T.elem('T2', ix[0]))
        return new_arr((d.M,), ix, t, 'f', ('input', 'T2'))

    # inputs and stored data after construction and every query
    for w in 'ecqr':
        for nu in ('f', 'g', 'i') if w in 'cq' else ('f', 'i'):
            def contrib(d, w=w, nu=nu):
                axes(d)
                s = Sess(d)
                inp = s.isomers(nu if w not in 'cq' else 'f', nu)
                T_ = s.temperature('i' if nu == 'i' else 'f')
                arrs = list(inp.values()) + [T_]
                snap = snapshot([a.buf for a in arrs])
                c = s.build(w, inp)
                unchanged(snap, ctx14(), '%s', s)
                stored = snapshot(bufs_of(c).values())
                res = {}
                for rnd in (0, 1):
                    for meth, l in METHS:
                        v = need_arr(query(s, c, meth, T_), meth, 2)
                        unchanged(snap, ctx14(), '%s', s)
                        unchanged(stored, ctx14(), '%s of the contribution', s)
                        if rnd:
                            same_result(v, res[meth], ctx14(), '%s asked a second time' % meth)
                        else:
                            res[meth] = v
            run.ob('contribution %s (%s data): inputs and stored data unchanged, repeatable' % (w, nu), contrib, SYM, SMALL + [UNIT])

        for kind in ('other', 'first', 'last', 'reversed', 'middle'):
            def inter(d, w=w, kind=kind):
                """q1(T1), q2(T2), q1(T2), q1(T1): as if asked alone."""
                axes(d)
                for m1, _ in METHS:
                    for m2, _ in METHS:
                        s = Sess(d)
                        inp = s.isomers()
                        c = s.build(w, inp)
                        Ta, Tb = s.temperature(), second(s, kind)
                        a1 = need_arr(query(s, c, m1, Ta), m1, 2)
                        ba = a1.at((ROW, COL))
                        query(s, c, m2, Tb)
                        b1 = need_arr(query(s, c, m1, Tb), m1, 2)
                        a2 = need_arr(query(s, c, m1, Ta), m1, 2)
                        fresh = s.build(w, inp)
                        fb = need_arr(query(s, fresh, m1, Tb), m1, 2)
                        ctx = ctx14()
                        if a1.at((ROW, COL)) is not ba:
                            prove_equal(a1.at((ROW, COL)), ba, ctx, 'array returned by %s, after later calls' % m1, a1.buf.site)
                        prove_equal(a2.at((ROW, COL)), ba, ctx, '%s asked again after other temperatures' % m1, a2.buf.site)
                        prove_equal(b1.at((ROW, COL)), fb.at((ROW, COL)), ctx, '%s after calls with other temperatures' % m1, b1.buf.site)
            if kind == 'other':
                run.ob('contribution %s: interleaved calls (%s temperatures)' % (w, kind), inter, SYM, SMALL[:2])
            else:
                for dd in SMALL[:2] if kind != 'middle' else SMALL[:1]:
                    run.ob('contribution %s: interleaved calls (%s temperatures), %r' % (w, kind, dd), inter, dd)

        def moved(d, w=w):
            """The caller changes its temperature array between two calls."""
            axes(d)
            for m1, _ in METHS:
                for m2, _ in METHS:
                    s = Sess(d)
                    inp = s.isomers()
                    c = s.build(w, inp)
                    T_ = s.temperature()
                    query(s, c, m1, T_)
                    move(T_)
                    x = need_arr(query(s, c, m2, T_), m2, 2)
                    fb = need_arr(query(s, s.build(w, inp), m2, second(s, 'other')), m2, 2)
                    prove_equal(x.at((ROW, COL)), fb.at((ROW, COL)), ctx14(),
                                '%s after the caller changed the temperatures in place' % m2, x.buf.site)
        run.ob('contribution %s: temperatures changed in place between calls' % w, moved, SYM, SMALL[:2])

        def own(d, w=w):
            """The caller may overwrite what it got; T_ may be changed by the caller between calls."""
            axes(d)
            for m1, _ in METHS:
                s = Sess(d)
                inp = s.isomers()
                c = s.build(w, inp)
                T_ = s.temperature()
                ref = {m: need_arr(query(s, c, m, T_), m, 2).at((ROW, COL)) for m, _ in METHS}
                v = need_arr(query(s, c, m1, T_), m1, 2)
                snap = snapshot([a.buf for a in inp.values()] + [T_.buf])
                poison(v)
                unchanged(snap, ctx14(), '%s, when the caller writes to the returned array,', s)
                for m2, _ in METHS:
                    x = need_arr(query(s, c, m2, T_), m2, 2)
                    prove_equal(x.at((ROW, COL)), ref[m2], ctx14(),
                                '%s after the caller wrote to the array returned by %s' % (m2, m1), v.buf.site)
        run.ob('contribution %s: returned arrays share no memory with stored data' % w, own, SYM, SMALL[:2])

    # superpositions
    def sup_of(s, w):
        inp = s.isomers()
        if w.startswith('o'):
            return s.sup([s.opaque(i, cached=True) for i in range(int(w[1:]))]), inp
        return s.sup([s.build(x, inp) for x in w]), inp
    for w in ('o1', 'o2', 'o3', 'e', 'q', 'c', 'r', 'ecr', 'eqr'):
        nm = '%s opaque contributions returning their own arrays' % w[1:] if w[0] == 'o' else 'built-in %s' % w
        for q in QUERIES:
            def keep(d, w=w, q=q):
                axes(d)
                s = Sess(d)
                o, inp = sup_of(s, w)
                T_ = s.temperature()
                a = qargs(s, d, q)
                snap = snapshot([x.buf for x in list(inp.values()) + [T_] + list(a)])
                stored = snapshot(bufs_of(o).values())
                v1 = need_arr(query(s, o, q, T_, *a), q, 2)
                rows = ROW if q in QUERIES[:2] else T.num(0)
                b1 = v1.at((rows, COL))
                unchanged(snap, ctx14(), '%s', s)
                unchanged(stored, ctx14(), '%s', s)
                for q2 in QUERIES:
                    query(s, o, q2, T_, *(a if q2 == q else qargs(s, d, q2)))
                    unchanged(snap, ctx14(), '%s', s)
                    unchanged(stored, ctx14(), '%s', s)
                    v2 = need_arr(query(s, o, q, T_, *a), q, 2)
                    prove_equal(v2.at((rows, COL)), b1, ctx14(), '%s asked again after %s' % (q, q2), v2.buf.site)
                    if v1.at((rows, COL)) is not b1:
                        prove_equal(v1.at((rows, COL)), b1, ctx14(), 'array returned by %s, after %s' % (q, q2), v1.buf.site)
            run.ob('%s: %s leaves inputs, contributions and results alone' % (nm, q), keep, SYM, SMALL[:2])

            def other(d, w=w, q=q):
                axes(d)
                for kind in ('other', 'moved') if d.M.op != 'num' else ('other', 'moved', 'first', 'last', 'reversed', 'middle'):
                    if kind == 'middle' and d.M.args[0] < 3:
                        continue
                    s = Sess(d)
                    o, inp = sup_of(s, w)
                    Ta, Tb = s.temperature(), second(s, kind if kind != 'moved' else 'other')
                    a = qargs(s, d, q)
                    rows = ROW if q in QUERIES[:2] else T.num(0)
                    v1 = need_arr(query(s, o, q, Ta, *a), q, 2).at((rows, COL))
                    if kind == 'moved':
                        move(Ta)
                        if a:
                            a[0].buf.c['body'] = T.elem('B2', *a[0].buf.ixs)
                        v2 = need_arr(query(s, o, q, Ta, *a), q, 2).at((rows, COL))
                        want = map_leaves(v1, lambda x: Tb.at((x.args[1],)) if x.op == 'elem' and x.args[0] == 'T' else
                                          T.elem('B2', *x.args[1:]) if x.op == 'elem' and x.args[0] == 'B' else None)
                        prove_equal(v2, want, ctxof(I=POS, T2=POS, B2=ALL), '%s after the caller changed its arrays in place' % q, o.cls.name)
                        continue
                    v2 = need_arr(query(s, o, q, Tb, *a), q, 2).at((rows, COL))
                    want = map_leaves(v1, lambda x: Tb.at((x.args[1],)) if x.op == 'elem' and x.args[0] == 'T' else None)
                    prove_equal(v2, want, ctxof(I=POS, T2=POS), '%s with other temperatures after a first call' % q, o.cls.name)
                    v3 = need_arr(query(s, o, q, Ta, *a), q, 2).at((rows, COL))
                    prove_equal(v3, v1, ctxof(I=POS, T2=POS), '%s with the first temperatures again' % q, o.cls.name)
            for dd in [SYM] + SMALL[:2]:
                run.ob('%s: %s with other temperatures in between, %s' % (nm, q, 'any size' if dd is SYM else repr(dd)), other, dd)

            def writes(d, w=w, q=q):
                axes(d)
                s = Sess(d)
                o, inp = sup_of(s, w)
                T_ = s.temperature()
                a = qargs(s, d, q)
                rows = ROW if q in QUERIES[:2] else T.num(0)
                ref = {}
                for q2 in QUERIES:
                    r2 = ROW if q2 in QUERIES[:2] else T.num(0)
                    ref[q2] = need_arr(query(s, o, q2, T_, *(a if a and q2 == q else qargs(s, d, q2))), q2, 2).at((r2, COL))
                v = need_arr(query(s, o, q, T_, *a), q, 2)
                snap = snapshot([x.buf for x in list(inp.values()) + [T_] + list(a)])
                poison(v)
                unchanged(snap, ctx14(), '%s, when the caller writes to the returned array,', s)
                for q2 in QUERIES:
                    r2 = ROW if q2 in QUERIES[:2] else T.num(0)
                    x = need_arr(query(s, o, q2, T_, *(a if a and q2 == q else qargs(s, d, q2))), q2, 2)
                    prove_equal(x.at((r2, COL)), ref[q2], ctx14(), '%s after the caller wrote to the array returned by %s' % (q2, q),
                                v.buf.site)
            if w[0] != 'o':
                run.ob('%s: array returned by %s shares no memory with stored data' % (nm, q), writes, SYM, SMALL[:2])

    for nm, sp in (('infinite', T.INF), ('minus infinite', T.neg(T.INF)), ('undefined', T.NAN)):
        for w in ('o1', 'e', 'qr'):
            def inf(d, sp=sp, w=w):
                axes(d)
                s = Sess(d)
                o, inp = sup_of(s, w)
                ix = fresh_ixs(2)
                B = new_arr((d.N, d.M), ix, T.ite(T.and_(T.eq(ix[0], T.num(0)), T.eq(ix[1], T.num(0))), sp, T.elem('B', *ix)), 'f', ('input', 'B'))
                T_ = s.temperature()
                snap = snapshot([x.buf for x in list(inp.values()) + [T_, B]])
                before = B.buf.c['body']
                query(s, o, 'calc_ensemble_average', T_, B)
                now = B.buf.c['body']
                if now is not before:
                    put = {i: T.num(0) for i in B.buf.ixs}
                    if T.subst(now, put) is not sp:
                        W_ = T.subst(now, put)
                        e = next((e['site'] for e in reversed(s.I.events) if e['kind'] == 'mutate' and e.get('buf') is B.buf), B.buf.site)
                        try:
                            r = W.Ev(W.Assign('c14', ctx_mut().decl, 'mixed'), {}).run(W_)
                        except (W.NoValue, ArithmeticError):
                            raise Undecided('observable after the call: %s' % short(W_))
                        if str(r) != {'infinite': 'inf', 'minus infinite': '-inf', 'undefined': 'nan'}[nm]:
                            raise Viol('the observable given (an %s entry) is changed to %s by the call' % (nm, r), e)
                else:
                    unchanged(snap, ctx14(), '%s', s)
            run.ob('%s: %s entry of the observable stays' % (w, nm), inf, SMALL[0])

    def registered():
        s = Sess(Dims(2, 2, 2, 2))
        hs = [s.opaque(i) for i in range(3)]
        o = s.sup(hs)
        T_ = s.temperature()
        for q in QUERIES:
            query(s, o, q, T_, *qargs(s, s.dims, q))
            part(s, o, T_, [0, 1, 2], 'after %s' % q)
    run.ob('queries do not change the registered contributions', registered)

    def order(w):
        def f():
            s = Sess(Dims(2, 2, 2, 2))
            inp = s.isomers()
            cs = [s.build(x, inp) for x in w]
            for how in ('list', 'each'):
                o = s.sup(cs, how)
                T_ = s.temperature()
                for q in QUERIES:
                    query(s, o, q, T_, *qargs(s, s.dims, q))
                    lst = o.c.get('partition_functions')
                    if not isinstance(lst, (Lst, Tup)):
                        raise Undecided('registered contributions %r' % (lst,))
                    if len(lst.items) != len(cs) or any(x is not y for x, y in zip(lst.items, cs)):
                        raise Viol('after %s the registered contributions are %s instead of %s' % (
                            q, [x.cls.name if isinstance(x, Inst) else '?' for x in lst.items], [x.cls.name for x in cs]), o.cls.name)
        return f
    for w in ('rqe', 'ecr', 'cre', 'qe', 'rr'):
        run.ob('queries leave the built-in contributions %s as registered' % w, order(w))

    def held(w, q):
        def f(d):
            axes(d)
            s = Sess(d)
            if w in 'ecqr' and q in [m for m, _ in METHS]:
                o = s.build(w, s.isomers())
                v = query(s, o, q, s.temperature())
            else:
                o, inp = sup_of(s, w)
                v = query(s, o, q, s.temperature(), *qargs(s, d, q))
            v = need_arr(v, q, 2)
            kept = bufs_of(o)
            if any(id(b) in kept for b in root_bufs(v.buf)):
                raise Viol('the array returned by %s shares memory with data stored in the %s' % (q, o.cls.name), v.buf.site)
        return f
    for w in 'ecqr':
        for q, _ in METHS:
            run.ob('contribution %s: the array returned by %s is not stored' % (w, q), held(w, q), SYM, SMALL[:2])
    for w in ('o1', 'o2', 'eqr'):
        for q in QUERIES:
            run.ob('%s: the array returned by %s is not stored' % (w, q), held(w, q), SYM, SMALL[:2])

    for f, args in (('calc_beta', 'T'), ('calc_exponent', 'ET'), ('calc_geometric_mean', 'n')):
        def util(d, f=f, args=args):
            axes(d)
            s = Sess(d)
            mk = {'T': lambda: s.temperature(), 'E': lambda: s.arr('E', (d.N,)), 'n': lambda: s.arr('nu', (d.N, d.D))}
            a = [mk[x]() for x in args]
            snap = snapshot([x.buf for x in a])
            v, p = s.call(s.util(f), *a)
            s.norm_raise(p, f, dict(nu=NONNEG))
            unchanged(snap, ctxof(nu=NONNEG), '%s', s)
        run.ob('%s leaves its arguments alone' % f, util, SYM, SMALL + [UNIT])


# ---------------------------------------------------------------- C15
def part(s, o, T_, want, what, ordered=True):
    """Exactly the contributions `want` (opaque numbers) take part, in order."""
    s.log.clear()
    v = query(s, o, 'calc_partition_functions', T_)
    v = need_arr(v, 'combined partition functions %s' % what, 2)
    r = ROW if v.dims[0].op != 'num' else T.num(int(v.dims[0].args[0]) - 1)
    spec = T.mul(T.num(1), *[Zk(T.num(k), r) for k in want])
    prove_equal(v.at((r, COL)), spec, ctxof(), 'product over the contributions %s' % what, v.buf.site)
    lst = o.c.get('partition_functions')
    if isinstance(lst, (Lst, Tup)) and not any(isinstance(x, Seg) for x in lst.items):
        got = [int(x.key[1].args[0]) if isinstance(x, Host) and isinstance(x.key, tuple) and x.key[0] == 'contribution' else '?' for x in
               lst.items]
    else:
        got = [int(k.args[0]) for m, k, t in s.log if m == 'calc_part_func']
    if got != list(want):
        raise Viol('contributions taking part %s: %s instead of %s' % (what, got, list(want)), o.cls.name)


@check('C15')
def c15(run):
    D0 = Dims(2, 'M', 1, 2)

    def scen(name, steps):
        """steps: ints (single) or lists (list of ints)"""
        def f():
            axes(D0)
            s = Sess(D0)
            o, p = s.call(s.cls('SuperpositionApproximation'))
            hs = {}
            T_ = s.temperature()
            want = []
            for st in steps:
                mk = lambda i: hs.setdefault(i, s.opaque(i))
                if isinstance(st, int):
                    r, p = s.meth(o, 'add_partition_functions', mk(st))
                    want.append(st)
                else:
                    r, p = s.meth(o, 'add_partition_functions', Lst([mk(i) for i in st]))
                    want += st
                s.norm_raise(p, 'add_partition_functions')
                if want:
                    part(s, o, T_, want, 'after registering %s' % (steps[:steps.index(st) + 1],))
        run.ob(name, f)
    scen('one by one', [0, 1, 2])
    scen('one by one, not in index order', [2, 0, 1])
    scen('as a list', [[0, 1, 2]])
    scen('as two lists', [[1, 0], [3, 2]])
    scen('list, then single', [[0, 1], 2])
    scen('single, then list', [0, [1, 2]])
    scen('single, list, single, list', [3, [1, 2], 0, [4, 5]])
    scen('list of one', [[0]])
    scen('empty list', [[], [0], []])
    scen('the same contribution twice', [0, 0])
    scen('the same contribution twice in a list', [[0, 1, 0]])
    scen('the same contribution singly and in a list', [1, [0, 1], 1])
    scen('the same contribution singly, then in a list', [0, [0, 1]])
    scen('the same contribution twice in a row in a list', [[0, 0]])
    scen('the same contribution in a row, list after list', [[1, 0], [0], 0])
    scen('many', [[0, 1, 2, 3], 4, [5, 6, 7]])

    def symbolic(d):
        axes(d)
        s = Sess(d)
        o = s.sup_opaque(d.K)
        T_ = s.temperature()
        v = need_arr(query(s, o, 'calc_partition_functions', T_), 'combined partition functions', 2)
        prove_equal(v.at((ROW, COL)), prodk(d.K, lambda k: Zk(k, ROW)), ctxof(), 'product over a list of K contributions', v.buf.site)
    run.ob('a list of any length K', symbolic, SYM, SMALL + [UNIT])

    def twolists(d):
        axes(d)
        s = Sess(d)
        o, p = s.call(s.cls('SuperpositionApproximation'))
        K2 = d.K
        a = s.opaques(d.K)
        b = s.opaques(K2, values={'Z': lambda i, t: T.app('Z2', i, t)}) if d.K.op != 'num' else [s.opaque(9)]
        s.meth(o, 'add_partition_functions', Lst(a))
        s.meth(o, 'add_partition_functions', s.opaque(100))
        s.meth(o, 'add_partition_functions', Lst([s.opaque(101)]))
        v = need_arr(query(s, o, 'calc_partition_functions', s.temperature()), 'combined partition functions', 2)
        spec = T.mul(prodk(d.K, lambda k: Zk(k, ROW)), Zk(T.num(100), ROW), Zk(T.num(101), ROW))
        prove_equal(v.at((ROW, COL)), spec, ctxof(), 'product over a list, a single and a list', v.buf.site)
    run.ob('a list of any length, a single one and a list', twolists, SYM, SMALL + [UNIT])

    def later():
        axes(D0)
        s = Sess(D0)
        o, p = s.call(s.cls('SuperpositionApproximation'))
        lst = Lst([s.opaque(0), s.opaque(1)])
        T_ = s.temperature()
        s.meth(o, 'add_partition_functions', lst)
        for op, args in (('append', [s.opaque(7)]), ('pop', [0]), ('clear', [])):
            r, p = s.meth(lst, op, *args)
            part(s, o, T_, [0, 1], 'after the caller changed its list (%s)' % op)
        s.meth(o, 'add_partition_functions', s.opaque(2))
        part(s, o, T_, [0, 1, 2], 'after one more registration')
        if len(lst.items) != 0:
            raise Viol('registering changes the list passed in earlier: it has %d items' % len(lst.items), o.cls.name)
    run.ob('later changes to the list passed in', later)

    def passed():
        axes(D0)
        s = Sess(D0)
        o, p = s.call(s.cls('SuperpositionApproximation'))
        hs = [s.opaque(0), s.opaque(1)]
        lst = Lst(list(hs))
        s.meth(o, 'add_partition_functions', lst)
        s.meth(o, 'add_partition_functions', s.opaque(2))
        s.meth(o, 'add_partition_functions', Lst([s.opaque(3)]))
        if [x is h for x, h in zip(lst.items, hs)] != [True, True] or len(lst.items) != 2:
            raise Viol('registering contributions changes the list passed in by the caller', o.cls.name)
        # the same list again: registered a second time
        s.meth(o, 'add_partition_functions', lst)
        part(s, o, s.temperature(), [0, 1, 2, 3, 0, 1], 'after registering the same list again')
    run.ob('the list passed in is not changed; registering it again counts again', passed)

    def instances(how):
        def f():
            axes(D0)
            s = Sess(D0)
            o1, p = s.call(s.cls('SuperpositionApproximation'))
            o2, p = s.call(s.cls('SuperpositionApproximation'))
            T_ = s.temperature()
            add = lambda o, *ks: s.meth(o, 'add_partition_functions', Lst([s.opaque(k) for k in ks])) if how == 'list' else \
                [s.meth(o, 'add_partition_functions', s.opaque(k)) for k in ks]
            add(o1, 0, 1)
            v, p = s.meth(o2, 'calc_partition_functions', T_)
            if v is not None:
                raise Viol('a new approximation object answers %r after registrations with another one' % (v,), o2.cls.name)
            add(o2, 2)
            part(s, o1, T_, [0, 1], 'of the first object')
            part(s, o2, T_, [2], 'of the second object')
            add(o1, 3)
            o3, p = s.call(s.cls('SuperpositionApproximation'))
            add(o3, 4, 5)
            part(s, o1, T_, [0, 1, 3], 'of the first object')
            part(s, o2, T_, [2], 'of the second object')
            part(s, o3, T_, [4, 5], 'of an object created later')
        return f
    run.ob('objects have their own contributions (lists)', instances('list'))
    run.ob('objects have their own contributions (single)', instances('each'))

    def shared():
        """One list registered with two objects; further registrations stay apart."""
        axes(D0)
        s = Sess(D0)
        o1, p = s.call(s.cls('SuperpositionApproximation'))
        o2, p = s.call(s.cls('SuperpositionApproximation'))
        T_ = s.temperature()
        lst = Lst([s.opaque(0), s.opaque(1)])
        s.meth(o1, 'add_partition_functions', lst)
        s.meth(o2, 'add_partition_functions', lst)
        s.meth(o1, 'add_partition_functions', s.opaque(2))
        part(s, o1, T_, [0, 1, 2], 'of the first object')
        part(s, o2, T_, [0, 1], 'of the second object sharing the list passed in')
    run.ob('one list registered with two objects', shared)

    def between():
        """Queries between registrations use the set registered so far."""
        axes(D0)
        s = Sess(D0)
        o, p = s.call(s.cls('SuperpositionApproximation'))
        T_ = s.temperature()
        s.meth(o, 'add_partition_functions', s.opaque(0))
        for q in QUERIES:
            query(s, o, q, T_, *qargs(s, D0, q))
        s.meth(o, 'add_partition_functions', Lst([s.opaque(1)]))
        part(s, o, T_, [0, 1], 'after queries between registrations')
        v = need_arr(query(s, o, 'calc_probability', T_), 'occupation probability', 2)
        z = lambda a: T.mul(Zk(T.num(0), a), Zk(T.num(1), a))
        prove_equal(v.at((T.num(1), COL)), P_spec(D0, T.num(1), z=z), ctxof(),
                    'occupation probability after a registration following queries', v.buf.site)
    run.ob('registrations after queries take part in later queries', between)

    def builtins_():
        axes(D0)
        s = Sess(D0)
        inp = s.isomers()
        T_ = s.temperature()
        cs = [s.build(x, inp) for x in 'ecr']
        o1, o2 = s.sup(cs, 'list'), s.sup(cs, 'each')
        zs = [need_arr(query(s, c, 'calc_part_func', T_), 'partition function', 2) for c in cs]
        for o in (o1, o2):
            v = need_arr(query(s, o, 'calc_partition_functions', T_), 'combined partition functions', 2)
            for r in (T.num(0), T.num(1)):
                prove_equal(v.at((r, COL)), T.mul(*[z.at((r, COL)) for z in zs]), ctxof(I=POS), 'product over built-in contributions',
                            v.buf.site)
    run.ob('built-in contributions as a list and one by one', builtins_)


# ---------------------------------------------------------------- C16
@check('C16')
def c16(run):
    def f(d, q, setup, tdt, obs):
        axes(d)
        s = Sess(d)
        o, p = s.call(s.cls('SuperpositionApproximation'))
        if setup == 'empty list':
            s.meth(o, 'add_partition_functions', Lst([]))
        elif setup == 'asked before':
            for q2 in QUERIES:
                s.meth(o, q2, s.temperature(), *qargs(s, d, q2))
        elif setup == 'another object has contributions':
            s.sup([s.opaque(0), s.opaque(1)])
        a = ()
        if q == 'calc_ensemble_average':
            a = {'array': lambda: (obsarr(s, d),), 'row': lambda: (s.arr('B', (T.num(1), d.M)),),
                 'vector': lambda: (s.arr('B', (d.N,)),), 'None': lambda: (None,),
                 'integer': lambda: (s.arr('B', (d.N, d.M), 'i'),)}[obs]()
        T_ = s.temperature(tdt)
        try:
            v, p = s.meth(o, q, T_, *a)
        except PyRaise as e:
            raise Viol('%s of an object without contributions raises %s' % (QNAME[q], excname(e.exc)), getattr(e.exc, 'where', '?'))
        s.norm_raise(p, '%s of an object without contributions' % QNAME[q])
        if isinstance(v, Choice):
            raise Undecided('conditional answer')
        if v is not None:
            raise Viol('%s of an object without contributions is %s instead of None' % (QNAME[q], repr(v)[:200]),
                       v.buf.site if isinstance(v, Arr) else o.cls.name)
    for q in QUERIES:
        for setup in ('new', 'empty list', 'asked before', 'another object has contributions'):
            for obs in ('array', 'row', 'vector', 'None', 'integer') if q == 'calc_ensemble_average' else ('',):
                for tdt in ('f', 'i'):
                    run.ob('%s, %s object, %s temperatures%s' % (QNAME[q], setup, {'f': 'float', 'i': 'integer'}[tdt],
                                                                 obs and ', observable ' + obs),
                           lambda d, q=q, setup=setup, tdt=tdt, obs=obs: f(d, q, setup, tdt, obs), SYM,
                           [Dims(1, 1, 1), Dims(2, 3, 1), Dims(2, 2, 2)])
                    for M in (0, 1):
                        run.ob('%s, %s object, %s temperatures%s, grid of %d' % (QNAME[q], setup, {'f': 'float', 'i': 'integer'}[tdt],
                                                                                 obs and ', observable ' + obs, M),
                               lambda q=q, setup=setup, tdt=tdt, obs=obs, M=M: f(Dims(2, M, 1), q, setup, tdt, obs))


# ---------------------------------------------------------------- C17
EXC = ['ValueError', 'TypeError', 'AttributeError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'FloatingPointError',
       'OverflowError', 'ArithmeticError', 'RuntimeError', 'NotImplementedError', 'LookupError', 'AssertionError', 'MemoryError',
       'OSError', 'Exception']


@check('C17')
def c17(run):
    def raises(s, o, q, T_, d, what, cls=None):
        a = ()
        if q == 'calc_ensemble_average':
            a = (s.arr('B', (T.num(2), d.M)),)
        try:
            v, p = s.meth(o, q, T_, *a)
        except PyRaise as e:
            if cls is not None and not e.exc.cls.issub(cls):
                raise Viol('%s: %s raises %s instead of %s' % (what, QNAME[q], excname(e.exc), cls.name),
                           getattr(e.exc, 'where', '?'))
            return
        if p:
            for cond, exc in p:
                try:
                    r = Evaluator(ctxof()).run(cond)
                except Undecided:
                    raise Undecided('conditional exception')
                if all(x is True for _, x in r) and (cls is None or exc.cls.issub(cls)):
                    return
            raise Undecided('conditional exception')
        raise Viol('%s: %s answers %s instead of raising' % (what, QNAME[q], repr(v)[:160]),
                   v.buf.site if isinstance(v, Arr) else o.cls.name)

    for sizes in ((3, 2), (2, 3), (2, 1), (1, 2), (3, 3, 2), (2, 2, 1), (1, 2, 2), (2, 3, 2), (4, 2)):
        for q in QUERIES:
            for M in (2, 1, 3):
                def mism(sizes=sizes, q=q, M=M):
                    d = Dims(2, M, 1)
                    s = Sess(d)
                    o = s.sup([s.opaque(i, N_=T.num(n)) for i, n in enumerate(sizes)])
                    raises(s, o, q, s.temperature(), d, 'contributions for %s isomers' % (sizes,))
                run.ob('contributions for %s isomers, %d temperatures: %s' % (sizes, M, QNAME[q]), mism)

    def builtin_mismatch(a, b, q):
        def f():
            s = Sess(Dims(3, 2, 1))
            c1 = s.build(a, s.isomers())
            s.dims = Dims(2, 2, 1)
            c2 = s.build(b, s.isomers())
            o = s.sup([c1, c2])
            raises(s, o, q, s.temperature(), s.dims, 'built-in contributions %s for 3 and %s for 2 isomers' % (a, b))
        return f
    for a, b in (('e', 'c'), ('q', 'e'), ('r', 'q'), ('c', 'r')):
        for q in QUERIES:
            run.ob('built-in contributions %s for 3 and %s for 2 isomers: %s' % (a, b, QNAME[q]), builtin_mismatch(a, b, q))

    TOUCH = {'calc_part_func': QUERIES, 'calc_part_func_w': QUERIES[3:], 'calc_part_func_v': QUERIES[3:]}
    for meth, qs in TOUCH.items():
        for q in qs:
            for K, pos in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
                for ename in EXC if (K, pos) in ((1, 0), (2, 0), (2, 1)) else ('ValueError', 'RuntimeError'):
                    def rais(meth=meth, q=q, K=K, pos=pos, ename=ename):
                        d = Dims(2, 2, 1)
                        s = Sess(d)
                        ecls = s.I.builtins[ename]
                        exc, _ = s.call(ecls, Str(('evaluation failed',)) if not isinstance('x', str) else 'evaluation failed')
                        o = s.sup([s.opaque(i, raising={meth: exc} if i == pos else None) for i in range(K)])
                        raises(s, o, q, s.temperature(), d, 'contribution %d of %d raises %s in %s' % (pos + 1, K, ename, meth), ecls)
                    run.ob('contribution %d of %d raises %s in %s: %s' % (pos + 1, K, ename, meth, QNAME[q]), rais)
            for how in ('default', 'once'):
                for K, pos in ((1, 0), (2, 0), (2, 1)):
                    for ename in ('TypeError', 'ValueError', 'RuntimeError', 'FloatingPointError', 'AttributeError'):
                        def again(meth=meth, q=q, K=K, pos=pos, ename=ename, how=how):
                            d = Dims(2, 2, 1)
                            s = Sess(d)
                            ecls = s.I.builtins[ename]
                            exc, _ = s.call(ecls, 'evaluation failed')
                            o = s.sup([s.opaque(i, raising={meth: exc} if i == pos else None, lenient=how) for i in range(K)])
                            raises(s, o, q, s.temperature(), d, 'contribution %d of %d raises %s in %s%s' % (
                                pos + 1, K, ename, meth, ' the first time' if how == 'once' else ', whose temperature has a default'), ecls)
                        run.ob('contribution %d of %d raises %s in %s (%s): %s' % (pos + 1, K, ename, meth, how, QNAME[q]), again)
            for K, pos in ((1, 0), (2, 1)):
                def lack(meth=meth, q=q, K=K, pos=pos):
                    d = Dims(2, 2, 1)
                    s = Sess(d)
                    o = s.sup([s.opaque(i, lacking=(meth,) if i == pos else ()) for i in range(K)])
                    raises(s, o, q, s.temperature(), d, 'contribution %d of %d has no %s' % (pos + 1, K, meth),
                           s.I.builtins['AttributeError'])
                run.ob('contribution %d of %d has no %s: %s' % (pos + 1, K, meth, QNAME[q]), lack)

    def symbolic(q):
        def f():
            """N and N2 unknown and different."""
            d = Dims()
            s = Sess(d)
            o = s.sup([s.opaque(0), s.opaque(1, N_=T.dim('N2'))])
            try:
                v, p = s.meth(o, q, s.temperature(), *((s.arr('B', (d.N, d.M)),) if q == 'calc_ensemble_average' else ()))
            except PyRaise:
                return
            diff = T.not_(T.eq(d.N, T.dim('N2')))
            for cond, exc in p:
                try:
                    if all(x is True for _, x in Evaluator(ctxof()).run(T.or_(T.not_(diff), cond))):
                        return
                except Undecided:
                    pass
            raise Undecided('not shown to raise for all N != N2')
        return f

    def isolated():
        """After a failure the object still answers, and the failure repeats."""
        d = Dims(2, 2, 1)
        for q in QUERIES:
            s = Sess(d)
            exc, _ = s.call(s.I.builtins['ValueError'], 'evaluation failed')
            o = s.sup([s.opaque(0), s.opaque(1, raising={'calc_part_func': exc})])
            for _ in range(2):
                raises(s, o, q, s.temperature(), d, 'contribution 2 of 2 raises ValueError, asked repeatedly', s.I.builtins['ValueError'])
    run.ob('the error is raised every time', isolated)


# ---------------------------------------------------------------- C18
def nu_dep(t):
    return any(x.op == 'elem' and x.args[0] == 'nu' for x in T.walk(t))


def t_dep(t):
    return any(x.op == 'elem' and x.args[0] == 'T' for x in T.walk(t))


def narrow_events(s, start, what):
    n = 0
    for e in s.I.events[start:]:
        if e['kind'] == 'narrow':
            n += 1
            t = e.get('term')
            if e['src'] == 'g' and (t is None or nu_dep(t)):
                raise Viol('%s: an extended-precision value is narrowed to %s' % (what, {'f': 'double', 'f4': 'single'}.get(e['dst'], e['dst'])),
                           e['site'])
        elif e['kind'] == 'ufunc':
            n += 1
            t = e.get('term')
            if e['dt'] in ('f', 'f4', 'pf') and t is not None and nu_dep(t) and t_dep(t):
                raise Viol('%s: %s of the frequencies and temperature is evaluated in double precision' % (what, e['name']), e['site'])
    return n


@check('C18')
def c18(run):
    for nu in ('f', 'f4', 'i', 'g'):
        for tdt in ('f', 'i'):
            for meth, l in METHS:
                def f(d, nu=nu, tdt=tdt, meth=meth):
                    axes(d)
                    s = Sess(d)
                    inp = s.isomers('f', nu)
                    c = s.build('q', inp)
                    T_ = s.temperature(tdt)
                    start = len(s.I.events)
                    v = need_arr(query(s, c, meth, T_), meth, 2)
                    if strong(v.dt) != 'g':
                        raise Viol('quantum %s has type %s instead of long double for %s frequencies' % (meth, v.dt, nu), v.buf.site)
                    n = narrow_events(s, start, 'quantum %s' % meth)
                    return '%d operations' % n
                run.ob('quantum %s, %s frequencies, %s temperatures' % (meth, nu, tdt), f, SYM, SMALL + [UNIT])
            for w in ('q', 'eq', 'qe', 'qr', 'eqr', 'qo', 'oq'):
                for q in QUERIES[:2]:
                    def g(d, nu=nu, tdt=tdt, w=w, q=q):
                        axes(d)
                        s = Sess(d)
                        inp = s.isomers('f', nu)
                        o = s.sup([s.build(x, inp) if x != 'o' else s.opaque(0) for x in w])
                        T_ = s.temperature(tdt)
                        start = len(s.I.events)
                        v = need_arr(query(s, o, q, T_), q, 2)
                        if strong(v.dt) != 'g':
                            raise Viol('%s of %s has type %s instead of long double' % (QNAME[q], w, v.dt), v.buf.site)
                        n = narrow_events(s, start, '%s of %s' % (QNAME[q], w))
                        return '%d operations' % n
                    run.ob('%s of %s, %s frequencies, %s temperatures' % (QNAME[q], w, nu, tdt), g, SYM, SMALL + [UNIT])
    from . import checks_io
    for freq in ('1d', '3x3'):
        def load(freq=freq):
            s, v = checks_io.load(freq=freq)
            checks_io.loader_dtype(s, v)
        run.ob('frequencies read from a file (%s)' % freq, load)


# ---------------------------------------------------------------- C29
USER = '''
from occuprob.partitionfunctions import *
from occuprob import partitionfunctions as _pf
import numpy as np

PartitionFunction = _pf.PartitionFunction


class Mix:
    def calc_part_func(self, temperature):
        return 2. * np.ones((self.n, temperature.size))

    def calc_part_func_w(self, temperature):
        return 3. * np.ones((self.n, temperature.size))

    def calc_part_func_v(self, temperature):
        return 5. * np.ones((self.n, temperature.size))


class Duck(Mix):
    n = 2


class Renamed:
    """Another name of the argument."""
    n = 2

    def calc_part_func(self, temps):
        return 2. * np.ones((self.n, temps.size))

    def calc_part_func_w(self, temps):
        return 3. * np.ones((self.n, temps.size))

    def calc_part_func_v(self, temps):
        return 5. * np.ones((self.n, temps.size))


class Slotted(Mix):
    __slots__ = ('n',)

    def __init__(self):
        self.n = 2


class Static:
    @staticmethod
    def calc_part_func(temperature):
        return 2. * np.ones((2, temperature.size))

    @staticmethod
    def calc_part_func_w(temperature):
        return 3. * np.ones((2, temperature.size))

    @staticmethod
    def calc_part_func_v(temperature):
        return 5. * np.ones((2, temperature.size))


class Attributes:
    def __init__(self):
        self.calc_part_func = lambda t: 2. * np.ones((2, t.size))
        self.calc_part_func_w = lambda t: 3. * np.ones((2, t.size))
        self.calc_part_func_v = lambda t: 5. * np.ones((2, t.size))


class Proxy:
    def __init__(self):
        self._inner = Duck()

    def __getattr__(self, name):
        return getattr(self._inner, name)


class Falsy(Duck):
    def __bool__(self):
        return False


class Alike(Duck):
    """Equal to everything, therefore unhashable."""
    __hash__ = None

    def __eq__(self, other):
        return True


class Integer:
    def calc_part_func(self, temperature):
        return np.full((2, temperature.size), 2)

    def calc_part_func_w(self, temperature):
        return np.full((2, temperature.size), 3)

    def calc_part_func_v(self, temperature):
        return np.full((2, temperature.size), 5)


class View:
    """Results that are views of other arrays."""
    n = 2

    def calc_part_func(self, temperature):
        return 2. * np.ones((temperature.size, self.n)).T

    def calc_part_func_w(self, temperature):
        return np.full((self.n + 1, temperature.size), 3.)[1:]

    def calc_part_func_v(self, temperature):
        return np.transpose(np.full((temperature.size, self.n), 5.))


class ReadOnly:
    """Results that cannot be written to."""
    n = 2

    def calc_part_func(self, temperature):
        return np.broadcast_to(2., (self.n, temperature.size))

    def calc_part_func_w(self, temperature):
        return np.broadcast_to(3., (self.n, temperature.size))

    def calc_part_func_v(self, temperature):
        return np.broadcast_to(5., (self.n, temperature.size))


class Keeping(Mix):
    """Results that are kept and given again."""
    n = 2

    def __init__(self):
        self.kept = {}

    def calc_part_func(self, temperature):
        if 0 not in self.kept:
            self.kept[0] = super().calc_part_func(temperature)
        return self.kept[0]

    def calc_part_func_w(self, temperature):
        if 1 not in self.kept:
            self.kept[1] = super().calc_part_func_w(temperature)
        return self.kept[1]

    def calc_part_func_v(self, temperature):
        if 2 not in self.kept:
            self.kept[2] = super().calc_part_func_v(temperature)
        return self.kept[2]


class Callable(Duck):
    def __call__(self, *args):
        raise RuntimeError('not to be called')


class Full(PartitionFunction):
    def __init__(self, n):
        self.n = n

    def calc_part_func(self, temperature):
        return 2. * np.ones((self.n, temperature.size))

    def calc_part_func_w(self, temperature):
        return 3. * np.ones((self.n, temperature.size))

    def calc_part_func_v(self, temperature):
        return 5. * np.ones((self.n, temperature.size))


class Bare(PartitionFunction):
    pass
'''
for _c in range(1, 7):
    USER += '\n\nclass Part%d(PartitionFunction):\n    n = 2\n' % _c
    for _i, (_m, _) in enumerate(METHS):
        if _c >> _i & 1:
            USER += '\n    def %s(self, temperature):\n        return np.ones((2, temperature.size))\n' % _m


def usermod(text=USER):
    p = os.path.join(REPO, 'occuprob', '_occustat_user.py')
    return source({os.path.join(REPO, 'occuprob', '_version.py'): VERSION_STUB, p: text})


@check('C29')
def c29(run):
    def sess(d):
        s = Sess(d, source_=usermod())
        s.mod('occuprob.partitionfunctions')
        return s, s.mod('occuprob._occustat_user')

    def refused(name, get):
        def f():
            s, m = sess(Dims(2, 2, 1))
            c = get(s, m)
            try:
                v, p = s.call(c)
            except PyRaise as e:
                if e.exc.cls.name != 'TypeError':
                    raise Viol('instantiating %s raises %s instead of TypeError' % (name, excname(e.exc)), getattr(e.exc, 'where', '?'))
                return
            raise Viol('%s can be instantiated' % name, c.name)
        run.ob('%s is refused' % name, f)
    refused('the base class', lambda s, m: s.cls('PartitionFunction'))
    refused('a subclass defining none of the methods', lambda s, m: m.c['Bare'])
    for c in range(1, 7):
        have = [mm for i, (mm, _) in enumerate(METHS) if c >> i & 1]
        refused('a subclass defining only %s' % ', '.join(have), lambda s, m, c=c: m.c['Part%d' % c])

    for cname, args, how in (('Full', (2,), 'list'), ('Duck', (), 'list'), ('Full', (2,), 'each'), ('Duck', (), 'each')):
        for q in QUERIES:
            def f(cname=cname, args=args, q=q, how=how):
                d = Dims(2, 'M', 1)
                axes(d)
                s, m = sess(d)
                c, p = s.call(m.c[cname], *args)
                o = s.sup([c], how)
                v = need_arr(query(s, o, q, s.temperature(), *qargs(s, d, q)), q, 2)
                want = {'calc_partition_functions': T.num(2), 'calc_probability': T.num(Fr(1, 2)),
                        'calc_ensemble_average': T.div(T.add(T.elem('B', T.num(0), COL), T.elem('B', T.num(1), COL)), T.num(2)),
                        'calc_heat_capacity': T.num(5)}[q]
                prove_equal(v.at((T.num(0), COL)), want, ctxof(), '%s with a user-defined contribution' % QNAME[q], v.buf.site)
            run.ob('%s contribution%s: %s' % ({'Full': 'user-defined subclass', 'Duck': 'user-defined unrelated class'}[cname],
                                              '' if how == 'list' else ' registered by itself', QNAME[q]), f)

    for cname, what in (('Renamed', 'whose argument has another name'), ('Slotted', 'with slots'), ('Static', 'with static methods'),
                        ('Attributes', 'with functions as attributes'), ('Proxy', 'that delegates'), ('Falsy', 'that is false'),
                        ('Alike', 'that is unhashable and equal to everything'), ('Integer', 'returning integers'), ('Callable', 'that is callable'),
                        ('View', 'returning views'), ('ReadOnly', 'returning read-only arrays'), ('Keeping', 'giving the same arrays again')):
        for q in QUERIES:
            for how in ('list', 'each'):
                def f(cname=cname, q=q, how=how, what=what):
                    """Two of them: factors 2 * 2, sums 3 + 3 and 5 + 5."""
                    d = Dims(2, 'M', 1)
                    axes(d)
                    s, m = sess(d)
                    cs = [s.call(m.c[cname])[0] for _ in range(2)]
                    o = s.sup(cs, how)
                    T_ = s.temperature()
                    if cname == 'Keeping':
                        for q2 in QUERIES:
                            query(s, o, q2, T_, *qargs(s, d, q2))
                    v = need_arr(query(s, o, q, T_, *qargs(s, d, q)), q, 2)
                    want = {'calc_partition_functions': T.num(4), 'calc_probability': T.num(Fr(1, 2)),
                            'calc_ensemble_average': T.div(T.add(T.elem('B', T.num(0), COL), T.elem('B', T.num(1), COL)), T.num(2)),
                            'calc_heat_capacity': T.num(10)}[q]
                    prove_equal(v.at((T.num(0), COL)), want, ctxof(), '%s with two objects %s' % (QNAME[q], what), v.buf.site)
                run.ob('two objects %s%s: %s' % (what, '' if how == 'list' else ', one by one', QNAME[q]), f)

    for K in (1, 2):
        for mix in ('', 'e', 'q'):
            for q in QUERIES:
                def duck(d, K=K, mix=mix, q=q, how='list'):
                    axes(d)
                    s = Sess(d)
                    inp = s.isomers()
                    T_ = s.temperature()
                    bs = [s.build(x, inp) for x in mix]
                    zs = [need_arr(query(s, b, 'calc_part_func', T_), 'partition function', 2) for b in bs]
                    o = s.sup(bs + [s.opaque(i) for i in range(K)], how)
                    v = need_arr(query(s, o, q, T_, *qargs(s, d, q)), q, 2)
                    if q == 'calc_probability':
                        z = lambda a: T.mul(T.num(1), *([x.at((a, COL)) for x in zs] + [Zk(T.num(i), a) for i in range(K)]))
                        prove_equal(v.at((ROW, COL)), P_spec(d, z=z), ctxof(), 'probability with objects unrelated to the base class',
                                    v.buf.site)
                run.ob('%d unrelated objects with built-in [%s]: %s' % (K, mix, QNAME[q]), duck, SYM, SMALL[:2])
                if q == 'calc_probability':
                    run.ob('%d unrelated objects with built-in [%s] registered one by one: %s' % (K, mix, QNAME[q]),
                           lambda d, f=duck: f(d, how='each'), SYM, SMALL[:2])

    for w, cn in (('e', 'ElectronicPF'), ('c', 'ClassicalHarmonicPF'), ('q', 'QuantumHarmonicPF'), ('r', 'RotationalPF')):
        def built(d, w=w, cn=cn):
            s = Sess(d)
            c = builtin(s, w)[0]
            base = s.cls('PartitionFunction')
            for meth, _ in METHS:
                f, k = c.cls.lookup(meth)
                if f is None or k is base:
                    raise Viol('%s does not define %s' % (cn, meth), cn)
                need_shape(s, query(s, c, meth, s.temperature()), (d.N, d.M), '%s of %s' % (meth, cn))
        run.ob('%s provides all three methods' % cn, built, SYM, SMALL[:2])


from fractions import Fraction as Fr


# ---------------------------------------------------------------- C31
@check('C31')
def c31(run):
    def scen(name, k1, k2, expect):
        """Key sets; expect: False or None (element-wise)."""
        def f(d):
            axes(d)
            s = Sess(d)
            mk = lambda pre, ks: Dct({k: s.arr(pre + k, (d.N, d.M) if k != 'b' else (d.N,)) for k in ks})
            v, p = s.call(s.util('compare_numpy_dictionaries'), mk('x', k1), mk('y', k2))
            s.norm_raise(p, 'comparison')
            for alt in ([v] if not isinstance(v, Choice) else []):
                pass
            t = truth(s, v)
            if expect is False:
                want = T.FALSE
            else:
                want = T.TRUE
                for k in k1:
                    dims = (d.N, d.M) if k != 'b' else (d.N,)
                    want = T.and_(want, closes(dims, 'x' + k, 'y' + k))
            ok = {x + k: ALL for x in 'xy' for k in 'abc'}
            same(t, want, ok, 'comparison of dictionaries with keys %s and %s' % (sorted(k1), sorted(k2)), v)
        run.ob(name, f, SYM, [Dims(1, 1, 1), Dims(2, 2, 1), Dims(2, 1, 1)])

    def truth(s, v):
        if isinstance(v, Choice):
            t = T.FALSE
            for c, x in v.alts:
                t = T.or_(t, T.and_(c, truth(s, x)))
            return t
        if v is True or v is False:
            return T.TRUE if v else T.FALSE
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, Arr) and v.ndim == 0:
            return v.at(())
        raise Viol('the comparison answers %r instead of true or false' % (v,), 'compare_numpy_dictionaries')

    def closes(dims, a, b):
        ixs = [T.fresh_idx('q') for _ in dims]
        for i, dd in zip(ixs, dims):
            IXDIM[i] = dd
        x, y = T.elem(a, *ixs), T.elem(b, *ixs)
        r = T.eq(T.app('isclose', x, y, RT, AT), T.num(1))
        for i, dd in reversed(list(zip(ixs, dims))):
            if dd.op == 'num':
                e = T.TRUE
                for k in range(int(dd.args[0])):
                    e = T.and_(e, T.subst(r, {i: T.num(k)}))
                r = e
            else:
                r = T.red('all', i, dd, r)
        return r
    RT, AT = T.num(Fr(1, 10 ** 5)), T.num(Fr(1, 10 ** 8))

    def expand(t):
        """isclose as its definition: for the witness step."""
        if t.op == 'app' and t.args[0] == 'isclose':
            _, x, y, r, a = t.args
            x, y = expand(x), expand(y)
            return T.ite(T.le(T.fn('abs', T.sub(x, y)), T.add(a, T.mul(r, T.fn('abs', y)))), T.num(1), T.num(0))
        if not any(isinstance(a, T.Term) for a in t.args):
            return t
        return T.rebuild(t, [expand(a) if isinstance(a, T.Term) else a for a in t.args])

    def same(t, want, decl, what, v):
        if t is want:
            return
        if not any(x.op in ('elem', 'app', 'sym', 'dim') and not (x.op == 'app' and x.args[0] == 'isclose') for y in (t, want) for x in T.walk(y)):
            ev = W.Ev(W.Assign('closed', {}, 'mixed'), {})
            a, b = ev.run(expand(t)), ev.run(expand(want))
            if bool(a) != bool(b):
                raise Viol('%s: answers %s instead of %s' % (what, bool(a), bool(b)), 'compare_numpy_dictionaries')
            return
        ctx = ctxof(isclose=NONNEG, **decl)
        try:
            a = Evaluator(ctx).run(T.ite(t, T.num(1), T.num(0)))
            b = Evaluator(ctx).run(T.ite(want, T.num(1), T.num(0)))
            if not compare(a, b, ctx):
                return
        except Undecided:
            pass
        x, y = T.ite(expand(t), T.num(1), T.num(0)), T.ite(expand(want), T.num(1), T.num(0))
        w = W.separate(x, y, decl, tries=400) or nearwitness(x, y, decl)
        if w:
            raise Viol('%s: answers %s (1: true, 0: false)' % (what, w), 'compare_numpy_dictionaries')
        raise Undecided(what)

    def nearwitness(x, y, decl):
        """Assignments in which the second dictionary equals the first, or differs from it in one element slightly or clearly."""
        for eps in (Fr(0), Fr(1, 10 ** 12), Fr(1, 10 ** 6), Fr(1, 10 ** 4), Fr(1, 100), Fr(1)):
            for only in (None, 'a', 'b', 'c'):
                for pos in (0, 1):
                    def tie(z):
                        if z.op == 'elem' and z.args[0][0] == 'y':
                            k = z.args[0][1:]
                            base = T.elem('x' + k, *z.args[1:])
                            if only is None and eps == 0:
                                return base
                            if only != k:
                                return base
                            return T.ite(T.eq(z.args[1], T.num(pos)), T.add(base, T.num(eps)), base)
                    w = W.separate(map_leaves(x, tie), map_leaves(y, tie), decl, tries=24)
                    if w:
                        return w + ' (second dictionary equal to the first%s)' % (
                            ' except an element of %r larger by %s' % (only, float(eps)) if only and eps else '')
        return None

    def special(name, first, second, expect):
        """Arrays of given entries (None: any number, the same on both sides)."""
        for keys in ('a', 'ba', 'ab'):
            def f(keys=keys):
                s = Sess(Dims(1, 1, 1))

                def arr(pre, vals):
                    ix = fresh_ixs(1)
                    t = T.elem('x', ix[0])
                    for j, v in enumerate(vals):
                        if v is not None:
                            t = T.ite(T.eq(ix[0], T.num(j)), v, t)
                    return new_arr((T.num(len(vals)),), ix, t, 'f', ('input', pre))
                plain = [None, None]
                a, b = (Dct({k: arr(pre + k, vals if k == 'a' else plain) for k in keys}) for pre, vals in (('x', first), ('y', second)))
                try:
                    v, p = s.call(s.util('compare_numpy_dictionaries'), a, b)
                except PyRaise as e:
                    if expect is None:
                        return
                    raise Viol('%s: raises %s' % (name, excname(e.exc)), getattr(e.exc, 'where', '?'))
                if p and expect is None:
                    return
                s.norm_raise(p, 'comparison')
                same(truth(s, v), T.TRUE if expect else T.FALSE, {'x': ALL}, '%s (keys %s)' % (name, ', '.join(keys)), v)
            run.ob('%s (keys %s)' % (name, ', '.join(keys)), f)
    N_ = None
    def one_off(n, j, by):
        """Long arrays of numbers that differ in one entry, or in none (by = 0)."""
        def f():
            s = Sess(Dims(1, 1, 1))

            def arr(pre, d):
                ix = fresh_ixs(1)
                return new_arr((T.num(n),), ix, T.ite(T.eq(ix[0], T.num(j)), T.num(1 + d), T.num(1)), 'f', ('input', pre))
            v, p = s.call(s.util('compare_numpy_dictionaries'), Dct({'a': arr('x', 0)}), Dct({'a': arr('y', by)}))
            s.norm_raise(p, 'comparison')
            same(truth(s, v), T.FALSE if by else T.TRUE, {}, 'arrays of %d ones, entry %d larger by %s' % (n, j, by), v)
        run.ob('%d entries, entry %d differs by %s' % (n, j, by), f)
    for n in sorted({4, 50, 2000} | {k * c + 1 for c in source_constants() if c <= 5000 for k in (1, 2)}):
        for j in {0, n // 2, n - 1}:
            for by in (0, Fr(1, 2), Fr(-1, 2), Fr(1, 1000)):
                one_off(n, j, by)
    special('NaN on both sides', [T.NAN, N_], [T.NAN, N_], False)
    special('NaN on both sides, last', [N_, N_, T.NAN], [N_, N_, T.NAN], False)
    special('NaN on the left', [N_, T.NAN], [N_, N_], False)
    special('NaN on the right', [N_, N_], [T.NAN, N_], False)
    special('infinity on both sides', [T.INF, N_], [T.INF, N_], True)
    special('infinity against a number', [T.INF, N_], [N_, N_], False)
    special('number against infinity', [N_, N_], [N_, T.INF], False)
    special('infinities of opposite sign', [T.INF, N_], [T.neg(T.INF), N_], False)
    special('two entries against three', [N_, N_], [N_, N_, N_], None)
    special('three entries against two', [N_, N_, N_], [N_, N_], None)
    special('five entries against four', [N_] * 5, [N_] * 4, None)

    def alike(name, mk, expect):
        def f():
            s = Sess(Dims(1, 1, 1))
            a, b = mk(s)
            v, p = s.call(s.util('compare_numpy_dictionaries'), a, b)
            s.norm_raise(p, 'comparison')
            same(truth(s, v), T.TRUE if expect else T.FALSE, {'x': ALL, 'y': ALL}, name, v)
        run.ob(name, f)

    def nums(pre, *vals):
        ix = fresh_ixs(1)
        t = T.elem(pre, ix[0])
        for j, v in enumerate(vals):
            if v is not None:
                t = T.ite(T.eq(ix[0], T.num(j)), v, t)
        return new_arr((T.num(len(vals)),), ix, t, 'f', ('input', pre))

    def itself(*vals):
        def mk(s):
            d = Dct({'a': nums('x', *vals), 'b': nums('y', N_)})
            return d, d
        return mk

    def shared(*vals):
        def mk(s):
            a, b = nums('x', *vals), nums('y', N_)
            return Dct({'a': a, 'b': b}), Dct({'b': b, 'a': a})
        return mk

    def keyed(k1, k2):
        def mk(s):
            return tuple(Dct({k: nums('x', N_, N_) for k in ks}) for ks in (k1, k2))
        return mk
    for nm, mk in (('a dictionary and itself', itself), ('dictionaries of the same arrays', shared)):
        alike(nm, mk(N_, N_), True)
        alike(nm + ', with an infinity', mk(T.INF, N_), True)
        alike(nm + ', with NaN', mk(N_, T.NAN), False)
        alike(nm + ', all NaN', mk(T.NAN, T.NAN), False)
    alike('numbers as keys', keyed((1, 2), (2, 1)), True)
    alike('numbers against texts as keys', keyed((1, 2), ('1', '2')), False)
    alike('numbers against texts as keys, one', keyed(('1',), (1,)), False)
    alike('other numbers as keys', keyed((1, 2), (1, 3)), False)
    alike('keys that differ in case', keyed(('a', 'B'), ('a', 'b')), False)
    alike('keys that differ in a space', keyed(('a',), ('a ',)), False)
    alike('empty text as a key', keyed(('', 'a'), ('a',)), False)
    alike('one key more, the first empty', keyed(('a',), ('', 'a')), False)

    scen('one key', 'a', 'a', None)
    scen('two keys', 'ab', 'ab', None)
    scen('three keys', 'abc', 'abc', None)
    scen('keys in another order', 'ab', 'ba', None)
    scen('three keys in another order', 'abc', 'cab', None)
    scen('key missing on the right', 'ab', 'a', False)
    scen('key missing on the left', 'a', 'ab', False)
    scen('first key missing on the right', 'ab', 'b', False)
    scen('same number of keys, one different', 'ab', 'ac', False)
    scen('disjoint keys', 'a', 'c', False)
    scen('empty against non-empty', '', 'a', False)
    scen('non-empty against empty', 'a', '', False)
    scen('both empty', '', '', None)
