"""Checks of the file loader, the command line and the plots, on models of ASE, pymatgen, argparse and Matplotlib."""
from fractions import Fraction as Fr
from . import extmod as X
from . import npmod as NP
from .lib import *
from .checks_phys import check, axes, query

GP = {'e': 'E', 's': 'S', 'c': 'C', 'q': 'Q', 'r': 'R'}


# ---------------------------------------------------------------- loader
def ase_session(F='F', D='D', freq='1d', missing=(), dts=None, ops=None, symbols=None):
    d = Dims(N=F, F=F, D=9 if freq == '3x3' else D)
    s = Sess(d)
    s.I.ase = X.AseFile(d.F, d.D, T.num(len(symbols)) if symbols else T.dim('A'), freq, missing, dts)
    s.I.ase.symbols = symbols
    s.I.nops = ops
    return s


FILE = {'E': ALL, 'nu': ALL, 'g': ALL}      # what a file may hold


def load(F='F', D='D', freq='1d', missing=(), dts=None, path='dir/isomers.xyz', ops=None):
    s = ase_session(F, D, freq, missing, dts, ops)
    f = s.io('load_properties_from_extxyz')
    s.start = len(s.I.events)
    try:
        v, p = s.call(f, path)
    except SelBail as e:
        left_out(e, ('occuprob.io:',), FILE)
    s.norm_raise(p, 'loading a complete file', FILE)
    return s, v


def entry(s, v, key, dims):
    if not isinstance(v, Dct):
        raise Viol('the loader returns %r instead of a dictionary' % (v,), 'load_properties_from_extxyz')
    x = v.c.get(key, MISSING)
    if x is MISSING:
        raise Viol('the loader result has no entry %r (has %s)' % (key, sorted(map(str, v.c))), 'load_properties_from_extxyz')
    if isinstance(x, Lst):
        raise Undecided('entry %r is a list' % key)
    return need_shape(s, x, dims, 'entry %r' % key)


def loader_dtype(s, v):
    x = entry(s, v, 'frequencies', (s.dims.F, s.dims.D))
    if strong(x.dt) != 'g':
        raise Viol('frequencies read from a file have type %s instead of long double' % x.dt, x.buf.site)
    for e in s.I.events[s.start:]:
        if e['kind'] == 'narrow' and e['src'] == 'g':
            raise Viol('frequencies read from a file are narrowed to %s' % e['dst'], e['site'])


def ngroup(f):
    return T.app('G', f)


def sym_spec(ng, *key):
    """Number of proper rotations of frame key's point group."""
    return sumd(ng, lambda o: T.ite(T.lt(T.num(0), T.elem('det(R4)', *(key + (o,)))), T.num(1), T.num(0)))


FR = T.idx('fr')
JX = T.idx('jx')


def frame_axes(d):
    IXDIM[FR] = d.F
    IXDIM[JX] = d.D


def frames_of(t, names=('E', 'g', 'nu', 'I', 'det(R4)', 'R4', 'pos')):
    return {x.args[1] for x in T.walk(t) if x.op == 'elem' and x.args[0] in names}


@check('C21')
def c21(run):
    def field(key, spec, extra=()):
        def f(d, freq='1d', dts=None):
            s, v = load(d.F, d.D, freq, dts=dts)
            frame_axes(s.dims)
            dims = {'energy': (s.dims.F,), 'multiplicity': (s.dims.F,), 'frequencies': (s.dims.F, s.dims.D),
                    'moments': (s.dims.F, T.num(3))}[key]
            x = entry(s, v, key, dims)
            for e in s.I.events[s.start:]:
                if e['kind'] == 'narrow' and e['dst'] in ('f4', 'small') and 'occuprob.io' in e['site']:
                    raise Viol('values read from the file are narrowed to %s' % {'f4': 'single precision'}.get(e['dst'], 'a small integer'), e['site'])
            ix = (FR, JX)[:len(dims)]
            if key == 'moments':
                for j in range(3):
                    prove_equal(x.at((FR, T.num(j))), T.elem('I', FR, T.num(j)), ctxof(FILE, I=NONNEG, F=POS), 'entry %r' % key, x.buf.site)
                return
            if key == 'frequencies' and s.dims.D.op == 'num':
                for j in range(int(s.dims.D.args[0])):
                    prove_equal(x.at((FR, T.num(j))), T.elem('nu', FR, T.num(j)), ctxof(FILE), 'entry %r, mode %d' % (key, j), x.buf.site)
                return
            prove_equal(x.at(ix), spec(*ix), ctxof(FILE), 'entry %r' % key, x.buf.site)
        return f

    class FD:
        def __init__(self, F, D):
            self.F, self.D = F, D

        def extra(self):
            for c in source_constants():
                yield FD(c + 1, 1)
                yield FD(1, c + 1)

        def __repr__(self):
            return 'frames=%s modes=%s' % (self.F, self.D)
    small = [FD(1, 1), FD(2, 2), FD(3, 1), FD(2, 6)]
    specs = {'energy': lambda f: T.elem('E', f), 'multiplicity': lambda f: T.elem('g', f),
             'frequencies': lambda f, j: T.elem('nu', f, j), 'moments': None}
    for key, sp in specs.items():
        run.ob('%s, any number of frames' % key, field(key, sp), FD('F', 'D'), small)
        for d in small:
            run.ob('%s, %r' % (key, d), field(key, sp), d)
        for dt in ('pi', 'i'):
            run.ob('%s, integer values in the file (%s)' % (key, dt),
                   lambda d, key=key, sp=sp, dt=dt: field(key, sp)(d, dts={'E': 'pi', 'g': 'pi', 'nu': 'i'}), FD('F', 'D'), small)
    for d in (FD('F', 9), FD(1, 9), FD(2, 9)):
        run.ob('nine frequencies per frame (read as a 3 by 3 table), %r' % d,
               lambda d=d: field('frequencies', specs['frequencies'])(d, '3x3'))

    def symmetry(d):
        s, v = load(d.F, d.D)
        frame_axes(s.dims)
        x = entry(s, v, 'symmetry', (s.dims.F,))
        t = x.at((FR,))
        if s.dims.F.op == 'num':
            for i in range(int(s.dims.F.args[0])):
                frame_is(T.subst(t, {FR: T.num(i)}), T.num(i), x.buf.site)
        else:
            frame_is(t, FR, x.buf.site)

    def frame_is(t, i, site):
        fr = frames_of(t)
        if not fr:
            raise Viol('the symmetry order does not depend on the frame: %s' % short(t), site)
        for y in fr:
            if not same_ix(y, i):
                w = W.separate(y, i, {})
                if w:
                    raise Viol('symmetry order of frame %s computed from frame %s' % (T.show(i), T.show(y)), site)
                raise Undecided('frame index %s' % T.show(y))
    run.ob('symmetry order is that of the same frame', symmetry, FD('F', 'D'), small)
    for d in small:
        run.ob('symmetry order is that of the same frame, %r' % d, symmetry, d)

    def symmetry_value(d):
        """The stored order is the one calc_symmetry_order gives for that frame."""
        s, v = load(d.F, d.D)
        x = entry(s, v, 'symmetry', (s.dims.F,))
        for i in range(d.F):
            r, p = s.call(s.io('calc_symmetry_order'), X.atoms_host(s.I, T.num(i)))
            s.norm_raise(p, 'calc_symmetry_order')
            want = r.at(()) if isinstance(r, Arr) else term_of(r)
            prove_equal(x.at((T.num(i),)), want, ctxof(**{'det(R4)': ALL}), 'entry \'symmetry\' of frame %d' % i, x.buf.site)
    for d in small:
        run.ob('symmetry order is the value of calc_symmetry_order, %r' % d, symmetry_value, d)

    def whole(d):
        s, v = load(d.F, d.D, path='some dir/mols.extxyz')
        reads = [e for e in s.I.events[s.start:] if e['kind'] == 'ase_read']
        for e in reads:
            if e['path'] != 'some dir/mols.extxyz':
                raise Viol('reads %r instead of the file given' % (e['path'],), e['site'])
        if not reads:
            raise Undecided('the file is not read through ASE')
        want = {'energy', 'multiplicity', 'frequencies', 'moments', 'symmetry'}
        if set(v.c) != want:
            raise Viol('the loader result has the entries %s instead of %s' % (sorted(map(str, v.c)), sorted(want)), reads[0]['site'])
    run.ob('the file given is read; five entries', whole, FD('F', 'D'), small)

    def state():
        """A second file does not see the first one's frames, and the first result stays."""
        s, v = load(2, 2)
        s.I.ase = X.AseFile(T.num(3), T.num(2), T.dim('A'))
        w, p = s.call(s.io('load_properties_from_extxyz'), 'other.xyz')
        frame_axes(Dims(F=3, D=2))
        for k, dims in (('energy', (T.num(3),)), ('frequencies', (T.num(3), T.num(2)))):
            x = entry(s, w, k, dims)
            for i in range(3):
                ix = (T.num(i),) if k == 'energy' else (T.num(i), T.num(1))
                prove_equal(x.at(ix), T.elem('E' if k == 'energy' else 'nu', *ix), ctxof(FILE), 'entry %r of a second file' % k, x.buf.site)
        entry(s, v, 'energy', (T.num(2),))
    run.ob('a second file is read on its own', state)

    for F in (1, 2, 3):
        for key in ('Energy', 'Multiplicity', 'Frequencies'):
            for fs in [[i] for i in range(F)] + ([list(range(F))] if F > 1 else []):
                def miss(F=F, key=key, fs=fs):
                    s = ase_session(F, 2, missing=[(key, i) for i in fs])
                    f = s.io('load_properties_from_extxyz')
                    try:
                        v, p = s.call(f, 'isomers.xyz')
                    except PyRaise as e:
                        if e.exc.cls.name == 'SystemExit':
                            return
                        return
                    if p:
                        raise Undecided('conditional exception')
                    raise Viol('a file of %d frames whose frame %s has no %s is loaded: %s' % (F, fs, key, repr(v)[:200]), f.name)
                run.ob('%d frames, %s missing in frame %s: loading fails' % (F, key, fs), miss)


# ---------------------------------------------------------------- C22
@check('C22')
def c22(run):
    def term(ops, symbols=None):
        s = ase_session(1, 2, ops=T.num(ops) if ops is not None else None, symbols=symbols)
        f = s.io('calc_symmetry_order')
        start = len(s.I.events)
        v, p = s.call(f, X.atoms_host(s.I, T.num(0)))
        dets = lambda sg: (lambda t: map_leaves(t, lambda x: sg(x) if x.op == 'elem' and str(x.args[0]).startswith('det(') else None))
        if isinstance(v, Choice):
            raise Undecided('conditional value')
        t = v.at(()) if isinstance(v, Arr) else term_of(v)
        return s, t, p, start

    def geometry():
        s, t, p, start = term(None)
        evs = [e for e in s.I.events[start:] if e['kind'] == 'pointgroup']
        if not evs:
            raise Undecided('no point-group detection found')
        for e in evs:
            sp, co = e['mol']
            f, ok = X.species_frame(s.I, sp)
            if not ok:
                if f is None and not (isinstance(sp, (Lst, Tup, tuple)) and
                                      all(isinstance(x.val if isinstance(x, Seg) else x, str) for x in getattr(sp, 'items', sp))):
                    raise Undecided('species %r' % (sp,))
                raise Viol('the point group is detected from species other than all chemical symbols of the molecule in order', e['site'])
            if X.coords_frame(s.I, co)[1] is True:
                continue
            if isinstance(co, (Lst, Tup, tuple)):
                co = NP.asarray(s.I, co)
            co = need_shape(s, co, (s.I.ase.natoms, T.num(3)), 'coordinates')
            a = T.idx('atom')
            IXDIM[a] = s.I.ase.natoms
            for j in range(3):
                prove_equal(co.at((a, T.num(j))), T.elem('pos', T.num(0), a, T.num(j)), ctxof(pos=ALL), 'coordinate %d' % j, e['site'])
        for k, v in evs[-1]['opts'].items():
            pass
    run.ob('the point group is detected from all symbols and positions', geometry)

    def molecule(symbols):
        def f():
            s, t, p, start = term(2, symbols)
            evs = [e for e in s.I.events[start:] if e['kind'] == 'pointgroup']
            if not evs:
                raise Undecided('no point-group detection found')
            n = len(symbols)
            for e in evs:
                sp, co = e['mol']
                if isinstance(sp, (Arr, Lst, Tup, tuple)):
                    sp = s.I.iterate(sp)
                got = [int(x.t.args[0]) if isinstance(x, Sc) and x.t.op == 'num' else x for x in sp]
                if not all(isinstance(x, (str, int)) for x in got):
                    raise Undecided('species %r' % (got,))
                if got not in (list(symbols), [X.NUMBERS[x] for x in symbols]):
                    raise Viol('the point group of %s is detected from the species %s' % (list(symbols), got), e['site'])
                if X.coords_frame(s.I, co)[1] is True:
                    continue
                if isinstance(co, (Lst, Tup, tuple)):
                    co = NP.asarray(s.I, co)
                co = need_shape(s, co, (T.num(n), T.num(3)), 'coordinates')
                for a in range(n):
                    for j in range(3):
                        prove_equal(co.at((T.num(a), T.num(j))), T.elem('pos', T.num(0), T.num(a), T.num(j)), ctxof(pos=ALL),
                                    'coordinate %d of atom %d' % (j, a), e['site'])
        return f
    for symbols in (('Au',), ('H', 'H'), ('O', 'C'), ('H', 'Cl', 'H'), ('O', 'H', 'H'), ('H', 'O', 'H', 'O'), ('Au', 'Au', 'Au', 'C'),
                    ('H', 'C', 'H', 'H', 'H'), ('N', 'Cl', 'H', 'H', 'Cl', 'O')):
        run.ob('the point group of the molecule %s' % ''.join(symbols), molecule(symbols))

    def unroll(t):
        """Sums over the operations of the group, written out."""
        if not any(isinstance(a, T.Term) for a in t.args):
            return t
        if t.op == 'red' and t.args[0] == 'sum' and t.args[2].op == 'num':
            return T.add(T.num(0), *[T.subst(unroll(t.args[3]), {t.args[1]: T.num(i)}) for i in range(int(t.args[2].args[0]))])
        return T.rebuild(t, [unroll(a) if isinstance(a, T.Term) else a for a in t.args])

    patterns = []
    for n in (1, 2, 3, 4):
        for m in range(2 ** n):
            patterns.append([1 if m >> i & 1 else -1 for i in range(n)])
    patterns += [[1] * 6, [1] * 6 + [-1] * 6, [-1, 1] * 4, [1, 1, -1, -1, 1, 1, -1, -1], [1] * 12 + [-1] * 12]
    EPS = [Fr(0), Fr(1, 10 ** 9), Fr(-1, 10 ** 9), Fr(1, 10 ** 13), Fr(-1, 10 ** 13)]

    def count(pat, eps):
        def f():
            s, t, p, start = term(len(pat))
            vals = [Fr(x) * (1 + eps) for x in pat]

            def put(t):
                def g(x):
                    if x.op == 'elem' and str(x.args[0]).startswith('det('):
                        i = x.args[-1]
                        if i.op == 'num':
                            return T.num(vals[int(i.args[0])])
                        r = T.num(vals[-1])
                        for k in range(len(vals) - 1):
                            r = T.ite(T.eq(i, T.num(k)), T.num(vals[k]), r)
                        return r
                    if x.op == 'app' and x.args[0] == 'isclose':
                        a, b, rt, at = x.args[1:]
                        return T.ite(T.le(T.fn('abs', T.sub(a, b)), T.add(at, T.mul(rt, T.fn('abs', b)))), T.num(1), T.num(0))
                return map_leaves(unroll(t), g)
            for cond, exc in p:
                if W.holds(put(cond), {}):
                    raise Viol('raises %s for determinants %s' % (excname(exc), pat), getattr(exc, 'where', '?'))
            t2 = put(t)
            if any(x.op == 'elem' for x in T.walk(t2)):
                raw = sorted({x.args[0] for x in T.walk(t2) if x.op == 'elem'})
                raise Undecided('the count depends on %s' % raw)
            prove_equal(t2, T.num(sum(x > 0 for x in pat)), ctxof(), 'symmetry order for operations of determinants %s' % pat,
                        'calc_symmetry_order')
        return f
    for pat in patterns:
        for eps in EPS[:1] if len(pat) > 3 else EPS:
            run.ob('operations of determinants %s%s' % (pat, ' (1 %+.0e)' % float(eps) if eps else ''), count(pat, eps))

    def general():
        s, t, p, start = term(None)
        s.norm_raise(p, 'calc_symmetry_order')
        reds = [x for x in T.walk(t) if x.op == 'red' and x.args[0] == 'sum']
        if len(reds) != 1:
            raise Undecided('count is not one sum')
        r = reds[0]
        body = map_leaves(r.args[3], lambda x: T.sym('detop') if x.op == 'elem' and str(x.args[0]).startswith('det(') else None)
        for v, want in ((1, 1), (-1, 0)):
            b = map_leaves(body, lambda x: T.num(v) if x is T.sym('detop') else None)
            prove_equal(b, T.num(want), ctxof(), 'contribution of an operation of determinant %+d' % v, 'calc_symmetry_order')
        prove_equal(t, r, ctxof(**{'det(R4)': ALL}), 'the count over all operations', 'calc_symmetry_order')
    run.ob('a group of any order: each operation counts iff it is proper', general)


# ---------------------------------------------------------------- command line
class Cli:
    pass


def run_cli(args, F=2, D=2, dts=None, freq='1d', infile='dir/isomers.xyz', put_in=True, sess=None, env=None):
    """One abstract run of the command."""
    R = Cli()
    s = sess or ase_session(F, D, freq, dts=dts)
    R.s = s
    main = s.cli('main')
    I = s.I
    I.load('sys')
    if env is not None:
        I.extmods['os'].c['environ'].fill = lambda k: env
    I.extmods['sys'].c['argv'] = Lst(['occuprob'] + list(args) + ([infile] if put_in else []))
    R.start = len(I.events)
    R.out0 = len(I.stdout) if hasattr(I, 'stdout') else 0
    R.exit = None
    R.exc = None
    try:
        try:
            v, p = s.call(main)
        except SelBail as e:
            left_out(e, ('occuprob.cli:', 'occuprob.io:'), {})
        s.norm_raise(p, 'the command')
    except PyRaise as e:
        if e.exc.cls.name == 'SystemExit':
            a = e.exc.c.get('args')
            a = a[0] if isinstance(a, (tuple, list)) and a else None
            R.exit = 0 if a is None else a
        else:
            R.exc = e
    R.events = I.events[R.start:]
    R.tables = []
    R.images = [e for e in R.events if e['kind'] == 'savefig']
    modes = {}
    R.writes = []
    for e in R.events:
        if e['kind'] == 'open':
            modes[repr(e['path'])] = e.get('mode')
            if isinstance(e.get('mode'), str) and set(e['mode']) & set('wax+'):
                R.writes.append(e)
        if e['kind'] == 'savetxt':
            f = e['fname']
            mode = 'w'
            if isinstance(f, Inst):
                path = f.c.get('path_', f.c.get('path'))
                if path is None:
                    raise Undecided('table written to %r' % (f,))
                mode = modes.get(repr(path), 'w')
            else:
                path = f
            if isinstance(mode, str) and 'a' in mode:
                raise Viol('the table is appended to an existing file', e['site'])
            R.tables.append((path, e['arr'], e))
            R.writes.append(e)
        if e['kind'] in ('fwrite', 'npsave', 'os', 'savefig'):
            R.writes.append(e)
    return R


def ok_run(R):
    if R.exc is not None:
        raise Viol('the command raises %s' % excname(R.exc.exc), getattr(R.exc.exc, 'where', '?'))
    if R.exit not in (None, 0):
        msg = [e.get('msg') for e in R.events if e['kind'] == 'cli_error']
        raise Viol('the command exits with status %s %s' % (R.exit, msg), 'occuprob.cli')
    if R.exit == 0:
        pass


def two_tables(R):
    ok_run(R)
    odd = [e for e in R.writes if e['kind'] in ('fwrite', 'npsave', 'os')]
    if odd:
        raise Undecided('files written by %s at %s' % (odd[0]['kind'], odd[0]['site']))
    for e in R.writes:
        always(e, DECL)
    if len(R.tables) != 2:
        raise Viol('%d tables are written instead of 2: %s' % (len(R.tables), [str(p) for p, a, e in R.tables]), 'occuprob.cli')
    out = {}
    for p, a, e in R.tables:
        k = last_text(p)
        if k.endswith('_C.dat'):
            out['C'] = (p, a, e)
        elif k.endswith('_P.dat'):
            out['P'] = (p, a, e)
        else:
            raise Viol('table named %s' % show_path(p), e['site'])
    if set(out) != {'C', 'P'}:
        raise Viol('tables written: %s' % [show_path(p) for p, a, e in R.tables], 'occuprob.cli')
    return out


def always(e, decl):
    """The event happens on every path."""
    c = T.TRUE
    for x in e['pc']:
        c = T.and_(c, x)
    if c is T.TRUE:
        return
    w = W.holds(T.not_(c), decl)
    if w:
        raise Viol('%s is written only when %s (not with %s)' % (show_path(e.get('path') or e.get('fname')), short(c), w.split(' at ', 1)[-1]), e['site'])
    raise Undecided('%s under the condition %s' % (e['kind'], short(c)))


def last_text(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Str):
        q = p.parts[-1]
        return q if isinstance(q, str) else ''
    if isinstance(p, Inst) and 'path' in p.c:
        return last_text(p.c['path'])
    raise Undecided('path %r' % (p,))


def show_path(p):
    if isinstance(p, Inst) and 'path' in p.c:
        p = p.c['path']
    if isinstance(p, Str):
        return ''.join(q if isinstance(q, str) else '<%s>' % (q.name,) for q in p.parts)
    return str(p)


def norm_path(p):
    if isinstance(p, Inst) and 'path' in p.c:
        return p.c['path']
    return p


MROW = T.idx('mr')
FCOL = T.idx('fc')


def expected(s, flags, Tbody, M):
    """Heat capacity and probability arrays for the flags through the API, on the temperatures Tbody(m)."""
    props, p = s.call(s.io('load_properties_from_extxyz'), 'dir/isomers.xyz')
    pr = props.c
    cs = []
    d = s.dims

    def make(name, *args):
        o, p = s.call(s.cls(name), *args)
        s.norm_raise(p, name)
        cs.append(o)
    for f in flags:
        if f == 'e':
            ix = fresh_ixs(1)
            make('ElectronicPF', pr['energy'], new_arr((d.F,), ix, T.num(1), 'f'))
        elif f == 's':
            make('ElectronicPF', pr['energy'], pr['multiplicity'])
        elif f == 'c':
            make('ClassicalHarmonicPF', pr['frequencies'])
        elif f == 'q':
            make('QuantumHarmonicPF', pr['frequencies'])
        elif f == 'r':
            make('RotationalPF', pr['symmetry'], pr['moments'])
    o = s.sup(cs)
    ix = fresh_ixs(1)
    T_ = new_arr((M,), ix, Tbody(ix[0]), 'f', ('input', 'T'))
    C = need_arr(query(s, o, 'calc_heat_capacity', T_), 'heat capacity', 2)
    P = need_arr(query(s, o, 'calc_probability', T_), 'occupation probability', 2)
    return C, P


FLAGSETS = [a + b + c for a in ('', 'e', 's') for b in ('', 'c', 'q') for c in ('', 'r')]
CTXC = lambda **kw: ctxof(I=POS, **{'det(R4)': POS, **kw})


def g_positive(t):
    """Symmetry orders are counted operations; the identity is proper, so every determinant sum is positive: replace the count by a symbol."""
    def f(x):
        return None
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'red' and x.args[0] == 'sum' and any(y.op == 'elem' and str(y.args[0]).startswith('det(') for y in T.walk(x)) and \
                    not any(y.op == 'elem' and y.args[0] in ('E', 'nu', 'I', 'g') for y in T.walk(x)):
                fr = frames_of(x, ('det(R4)',))
                if len(fr) == 1:
                    r = T.elem('s', fr.pop())
            if r is None:
                if not any(isinstance(a, T.Term) for a in x.args):
                    r = x
                else:
                    r = T.rebuild(x, [go(a) if isinstance(a, T.Term) else a for a in x.args])
            memo[x.id] = r
        return r
    return go(t)


def compare_tables(R, flags, Tbody, M, what, F):
    tb = two_tables(R)
    s = R.s
    C, P = expected(s, flags, Tbody, M)
    IXDIM[MROW] = M
    IXDIM[FCOL] = s.dims.F
    for k, cols, arr in (('C', 1, C), ('P', F, P)):
        p, a, e = tb[k]
        nc = T.num(cols) if isinstance(cols, int) else s.dims.F
        a = need_shape(s, a, (M, s.I.norm_dim(T.add(T.num(1), nc))), 'table %s' % show_path(p))
        prove_equal(a.at((MROW, T.num(0))), Tbody(MROW), CTXC(), 'first column of %s (%s)' % (show_path(p), what), e['site'])
        tb_ = tidy(Tbody(MROW))
        for c in range(cols) if isinstance(cols, int) else (FCOL,):
            ct = T.num(c) if isinstance(c, int) else c
            got, want = (tidy(g_positive(x)) for x in (a.at((MROW, T.add(T.num(1), ct))), arr.at((ct, MROW))))
            if alpha(got) is alpha(want):
                continue
            g2, w2 = replace(got, tb_, T.elem('T', MROW)), replace(want, tb_, T.elem('T', MROW))
            what_ = 'column %s of %s (%s)' % (c + 1 if isinstance(c, int) else 'of any isomer', show_path(p), what)
            if MROW in T.free(strip_T(g2)) or MROW in T.free(strip_T(w2)):
                prove_equal(got, want, CTXC(), what_, e['site'])
            else:
                prove_equal(g2, w2, CTXC(T=NONNEG), what_, e['site'])


def strip_T(t):
    """The term with the temperature leaf T[mr] replaced by a symbol."""
    return replace(t, T.elem('T', MROW), T.sym('T_'))


def nothing_written(R, what):
    if R.writes:
        raise Viol('%s: a file is written (%s)' % (what, show_path(R.writes[0].get('path') or R.writes[0].get('fname'))), R.writes[0]['site'])


def printed(R):
    return [e for e in R.events if e['kind'] in ('print', 'log', 'warn')] or (hasattr(R.s.I, 'stdout') and len(R.s.I.stdout) > R.out0)


class FD:
    def __init__(self, F, D):
        self.F, self.D = F, D

    def __repr__(self):
        return '%d isomers, %d modes' % (self.F, self.D)


def Sized():
    """Small sizes, and sizes next to the numbers of the source."""
    cs = [c for c in sorted(source_constants()) if c <= 300]
    return [FD(1, 1), FD(2, 3)] + [FD(1, c + 1) for c in cs] + [FD(c + 1, 1) for c in cs]


@check('C23')
def c23(run):
    grid = lambda m: m
    for fl in FLAGSETS:
        variants = [[('-' + x) for x in fl]]
        if fl:
            variants.append([('-' + x) for x in fl.upper()])
        for av in variants:
            def f(fl=fl, av=av):
                R = run_cli(av)
                if not fl:
                    ok_run(R)
                    nothing_written(R, 'without flags')
                    if not printed(R):
                        raise Viol('without flags no message is printed', 'occuprob.cli')
                    return
                compare_tables(R, fl, grid, T.num(501), ' '.join(av), 2)
            run.ob('flags %s' % (' '.join(av) or '(none)'), f)
    for fl in ('e', 's', 'ecr', 'sqr', 'c', 'qr'):
        for F, D, dts in ((1, 1, None), (3, 2, None), (2, 2, {'E': 'pi', 'g': 'pi', 'nu': 'i'}), (2, 1, {'g': 'pf'})):
            def f(fl=fl, F=F, D=D, dts=dts):
                R = run_cli(['-' + x for x in fl], F, D, dts)
                compare_tables(R, fl, grid, T.num(501), 'flags %s, %d isomers' % (fl, F), F)
            run.ob('flags %s, %d isomers, %d modes%s' % (fl, F, D, ', integer values' if dts and 'E' in dts else ''), f)
    for fl in [x for x in FLAGSETS if x]:
        def f(dom, fl=fl):
            F, D = ('F', 'D') if dom is SYM else (dom.F, dom.D)
            R = run_cli(['-' + x for x in fl], F, D)
            compare_tables(R, fl, grid, T.num(501), 'flags %s, %s' % (fl, 'any number of isomers and modes' if dom is SYM else
                                                                      '%s isomers, %s modes' % (F, D)), F)
        run.ob('flags %s, any number of isomers and modes' % fl, f, SYM, Sized())
    # the contributions do not depend on the other options
    OPTS = [(['--plot'], 0, 501), (['--max_temp', '5'], 0, 6), (['--min_temp', '300', '--max_temp', '900'], 300, 601),
            (['--out_file', 'o/x', '--plot', '--plot_format', 'png', '--size', '3', '4', '--min_temp', '2', '--max_temp', '40'], 2, 39)]
    for c in source_constants():
        if c not in (500, 3, 4, 6, 8):
            OPTS += [(['--max_temp', str(c + 1)], 0, c + 2), (['--min_temp', str(c + 1), '--max_temp', str(c + 3)], c + 1, 3)]
    for av, lo, n in OPTS:
        for fl in [x for x in FLAGSETS if x] if len(av) != 2 or av in (['--max_temp', '5'], ) else ('sqr', 'ecr'):
            def f(fl=fl, av=av, lo=lo, n=n):
                R = run_cli(['-' + x for x in fl] + av, 2, 1)
                compare_tables(R, fl, lambda m: T.add(T.num(lo), m), T.num(n), 'flags %s, %s' % (fl, ' '.join(av)), 2)
            run.ob('flags %s with %s' % (fl, ' '.join(av)), f)
    for av in (['--plot'], ['--min_temp', '10', '--max_temp', '20'], ['--out_file', 'x/y']):
        def f(av=av):
            R = run_cli(av)
            ok_run(R)
            nothing_written(R, 'without flags (%s)' % ' '.join(av))
            if not printed(R):
                raise Viol('without flags no message is printed', 'occuprob.cli')
        run.ob('no flags with %s' % ' '.join(av), f)


# ---------------------------------------------------------------- C24
def sig_arr(a):
    ix = [T.idx('sg%d' % i) for i in range(a.ndim)]
    for i, d in zip(ix, a.dims):
        IXDIM[i] = d
    if a.ndim == 2 and a.dims[1].op == 'num':
        return (a.dims, tuple(alpha(a.at((ix[0], T.num(c)))) for c in range(int(a.dims[1].args[0]))))
    return (a.dims, alpha(a.at(ix)))


def num_of(v):
    """A concrete number, or the term."""
    if isinstance(v, Sc):
        try:
            r = Evaluator(ctxof()).run(v.t)
            if len(r) == 1 and isinstance(r[0][1], N.NF) and N.is_const(r[0][1]):
                return N.cval(r[0][1])
        except Undecided:
            pass
        return v.t
    if isinstance(v, int):
        return Fr(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return num_of(Sc(v.at(()), v.dt))
    return v


def size_of(e):
    crop = e.get('opts', {}).get('bbox_inches')
    if isinstance(crop, Choice):
        raise Undecided('cropping of the image depends on a condition')
    if crop is not None:
        raise Viol('the image is cropped when it is saved: it does not have the size of the figure', e['site'])
    sz = e['size']
    if isinstance(sz, Choice):
        raise Undecided('figure size depends on a condition')
    if isinstance(sz, (Lst, Tup)):
        return tuple(num_of(x) for x in sz.items)
    if isinstance(sz, tuple):
        return tuple(num_of(x) for x in sz)
    if isinstance(sz, Arr) and sz.ndim == 1 and sz.dims[0].op == 'num':
        return tuple(num_of(Sc(sz.at((T.num(i),)), sz.dt)) for i in range(int(sz.dims[0].args[0])))
    if sz is None:
        return None
    raise Undecided('figure size %r' % (sz,))


def lines_of(e, fresh=True):
    """Flat list of the lines of the image."""
    out = []
    for ax in e['axes']:
        out += list(ax['lines'])
    return out


@check('C24')
def c24(run):
    E = ['-e']

    def tables(R, flags='e', lo=0, n=501, F=2):
        compare_tables(R, flags, lambda m: T.add(T.num(lo), m), T.num(n), 'arguments', F)

    def same_results(a, b, what):
        """Both runs write the same tables (names and values)."""
        ta, tb = two_tables(a), two_tables(b)
        for k in 'CP':
            if norm_path(ta[k][0]) != norm_path(tb[k][0]):
                raise Viol('%s: table %s instead of %s' % (what, show_path(ta[k][0]), show_path(tb[k][0])), ta[k][2]['site'])
            x, y = sig_arr(ta[k][1]), sig_arr(tb[k][1])
            if x == y:
                continue
            if len(x[0]) != len(y[0]) or any(not a.s.I.dim_eq(p, q) for p, q in zip(x[0], y[0])):
                raise Viol('%s: table %s has shape %s instead of %s' % (what, k, [T.show(z) for z in x[0]], [T.show(z) for z in y[0]]),
                           ta[k][2]['site'])
            for p, q in zip(x[1], y[1]):
                prove_equal(g_positive(p), g_positive(q), CTXC(), '%s: table %s' % (what, k), ta[k][2]['site'])

    for fl in 'scqr':
        def f(fl=fl):
            same_results(run_cli(['-' + fl.upper()]), run_cli(['-' + fl]), '-%s against -%s' % (fl.upper(), fl))
        run.ob('-%s is -%s' % (fl.upper(), fl), f)
    run.ob('-E is -e', lambda: same_results(run_cli(['-E']), run_cli(['-e']), '-E against -e'))
    for av, bv in ((['-eqr'], ['-e', '-q', '-r']), (['-r', '-e'], ['-e', '-r']), (['-SQ'], ['-s', '-q']), (['-rCE'], ['-e', '-c', '-r']),
                   (['-e', '-e'], ['-e']), (['-s', '-S'], ['-s']), (['-c', '-C'], ['-c']), (['-qq'], ['-q']), (['-r', '-e', '-r'], ['-e', '-r']),
                   (['-e', '-r', '-R', '-R'], ['-e', '-r']), (['-C', '-c', '-C'], ['-c']), (['-s', '-Q', '-r', '-q', '-s'], ['-s', '-q', '-r']),
                   (['-e', '--max_temp', '9', '--max_temp', '500'], ['-e']), (['-e', '--', ], ['-e'])):
        run.ob('%s is %s' % (' '.join(av), ' '.join(bv)), lambda av=av, bv=bv: same_results(run_cli(av), run_cli(bv), ' '.join(av)))
    run.ob('input file before the options', lambda: same_results(run_cli(['dir/isomers.xyz', '-e', '-r'], put_in=False), run_cli(['-e', '-r']),
                                                                'input file first'))

    def rejected(av, what, **kw):
        def f():
            R = run_cli(av, **kw)
            if R.exc is not None:
                raise Viol('%s: %s instead of a usage error' % (what, excname(R.exc.exc)), getattr(R.exc.exc, 'where', '?'))
            if R.exit in (None, 0):
                raise Viol('%s is accepted' % what, 'occuprob.cli')
            nothing_written(R, what)
        run.ob('%s is rejected' % what, f)
    for a, b in (('e', 's'), ('c', 'q')):
        for x in (a, a.upper()):
            for y in (b, b.upper()):
                rejected(['-' + x, '-' + y], '-%s with -%s' % (x, y))
                rejected(['-' + y, '-r', '-' + x], '-%s with -%s and -r' % (y, x))
    rejected(['-e'], 'a missing input file', put_in=False)
    rejected(['-e', 'other.xyz'], 'a second input file')
    rejected(['-e', '--min_temp', 'abc'], 'a lower temperature that is no number')
    rejected(['-e', '--max_temp', 'abc'], 'an upper temperature that is no number')
    rejected(['-e', 'in.xyz', '--size', '8'], 'a size of one number', put_in=False)
    rejected(['-e', '--size', '8', 'x'], 'a size that is no number')
    rejected(['-e', '--nonsense'], 'an unknown option')
    rejected(['-e', '-x'], 'an unknown short option')
    rejected(['-e', '--nonsense', '5'], 'an unknown option with a value')
    rejected(['-e', 'in.xyz', '--size', '1', '2', '3', '--plot'], 'a size of three numbers', put_in=False)

    def accepted_pair(av):
        def f():
            ok_run(run_cli(av))
        return f
    for a in 'es':
        for b in 'cq':
            run.ob('-%s with -%s is accepted' % (a, b), accepted_pair(['-' + a, '-' + b]))

    def environment(value):
        def f():
            R = run_cli(E, env=value)
            tables(R)
            images(R, [], (8, 6), 'environment')
            R = run_cli(E + ['--plot'], env=value)
            tables(R)
            images(R, [x + 'svg' for x in I0], (8, 6), 'environment')
        return f
    # defaults, against explicit values
    def default():
        R = run_cli(E)
        tables(R)
        if R.images:
            raise Viol('an image is written without --plot', R.images[0]['site'])
    run.ob('default temperatures 0 to 500 K, no images', default)
    for av in (['--min_temp', '0'], ['--max_temp', '500'], ['--min_temp=0', '--max_temp=500.0'], ['--plot_format', 'svg'],
               ['--size', '8', '6']):
        run.ob('default is %s' % ' '.join(av), lambda av=av: same_results(run_cli(E + av), run_cli(E), ' '.join(av)))

    def images(R, names, size, what):
        ok_run(R)
        got = sorted(show_path(e['path']) for e in R.images)
        if got != sorted(names):
            raise Viol('%s: images %s instead of %s' % (what, got, sorted(names)), R.images[0]['site'] if R.images else 'occuprob.cli')
        for e in R.images:
            sz = size_of(e)
            if sz is None or list(sz) != [Fr(x) if not isinstance(x, T.Term) else x for x in size]:
                raise Viol('%s: image size %s instead of %s' % (what, [str(x) for x in sz or ()], [str(x) for x in size]), e['site'])
            for o in ('format',):
                f = e['opts'].get(o)
                if isinstance(f, str) and not show_path(e['path']).lower().endswith('.' + f.lower()):
                    raise Viol('%s: image %s is written in format %s' % (what, show_path(e['path']), f), e['site'])
    I0 = ['dir/isomers_C.', 'dir/isomers_P.']

    def plot_default():
        R = run_cli(E + ['--plot'])
        tables(R)
        images(R, [x + 'svg' for x in I0], (8, 6), '--plot')
    run.ob('--plot: SVG images of 8 by 6 inches, tables as without', plot_default)
    for fmt in ('png', 'PDF', 'Svg', 'jpeg', 'EPS'):
        def pf(fmt=fmt):
            R = run_cli(E + ['--plot', '--plot_format', fmt])
            tables(R)
            images(R, [x + fmt.lower() for x in I0], (8, 6), '--plot_format ' + fmt)
        run.ob('--plot_format %s changes the image format only' % fmt, pf)

        def pf0(fmt=fmt):
            R = run_cli(E + ['--plot_format', fmt])
            tables(R)
            if R.images:
                raise Viol('--plot_format without --plot writes an image', R.images[0]['site'])
        run.ob('--plot_format %s without --plot writes no image' % fmt, pf0)
    for sz in (('3', '4'), ('10.5', '2'), ('6', '8'), ('0.5', '.8'), ('2e1', '120')):
        def size(sz=sz):
            R = run_cli(E + ['--plot', '--size'] + list(sz) + ['--plot_format', 'svg'])
            tables(R)
            images(R, [x + 'svg' for x in I0], [Fr(x) for x in sz], '--size ' + ' '.join(sz))
        run.ob('--size %s changes the image size only' % ' '.join(sz), size)

        def size0(sz=sz):
            R = run_cli(E + ['--size'] + list(sz) + ['--plot_format', 'svg'])
            tables(R)
            if R.images:
                raise Viol('--size without --plot writes an image', R.images[0]['site'])
        run.ob('--size %s without --plot writes no image' % ' '.join(sz), size0)
    for av, lo, n in ((['--min_temp', '10'], 10, 491), (['--max_temp', '20'], 0, 21), (['--min_temp', '100', '--max_temp', '300'], 100, 201),
                      (['--min_temp', '12.5', '--max_temp', '20.5'], Fr(25, 2), 9), (['--max_temp', '10.7'], 0, 11),
                      (['--min_temp', '5.', '--max_temp', '5'], 5, 1), (['--max_temp', '1e3'], 0, 1001)):
        for pl in ([], ['--plot']):
            def tm(av=av, lo=lo, n=n, pl=pl):
                R = run_cli(E + av + pl)
                tables(R, lo=lo, n=n)
                images(R, [x + 'svg' for x in I0] if pl else [], (8, 6), ' '.join(av))
            run.ob('%s changes the temperatures only%s' % (' '.join(av), ' (plot)' if pl else ''), tm)
    for pl in ([], ['--plot']):
        def out(pl=pl):
            R = run_cli(E + ['--out_file', 'res/run1'] + pl)
            tables(R)
            tb = two_tables(R)
            for k in 'CP':
                if show_path(tb[k][0]) != 'res/run1_%s.dat' % k:
                    raise Viol('--out_file res/run1: table %s' % show_path(tb[k][0]), tb[k][2]['site'])
            images(R, ['res/run1_C.svg', 'res/run1_P.svg'] if pl else [], (8, 6), '--out_file')
        run.ob('--out_file changes the file names only%s' % (' (plot)' if pl else ''), out)
    for fl in ('s', 'c', 'q', 'r', 'sqr'):
        def other(fl=fl):
            R = run_cli(['-' + x for x in fl] + ['--plot', '--max_temp', '30'])
            tables(R, fl, 0, 31)
            images(R, [x + 'svg' for x in I0], (8, 6), 'flags ' + fl)
        run.ob('options together with flags %s' % fl, other)

    for value in ('17', '1', 'png', ''):
        run.ob('environment variables set to %r change nothing' % value, environment(value))

    def version():
        R = run_cli(['--version'], put_in=False)
        if R.exc is not None or R.exit not in (0,):
            raise Viol('--version does not exit normally', 'occuprob.cli')
        nothing_written(R, '--version')
    run.ob('--version exits normally', version)

    def infile():
        for nm in ('a.xyz', '/abs/dir/b.extxyz', '@a.xyz', '+b.xyz', 'x=1.xyz', '17'):
            R = run_cli(E, infile=nm)
            ok_run(R)
            rd = [e for e in R.events if e['kind'] == 'ase_read']
            if not rd:
                raise Undecided('input not read through ASE')
            if any(show_path(e['path']) != nm for e in rd):
                raise Viol('reads %s instead of %s' % (show_path(rd[0]['path']), nm), rd[0]['site'])
    run.ob('the positional argument is the input file', infile)


# ---------------------------------------------------------------- C25
@check('C25')
def c25(run):
    def fmt_ok(e):
        """The text format keeps the numbers and the line structure."""
        import re
        f = e['opts'].get('fmt')
        fs = [f] if isinstance(f, str) else list(f.items) if isinstance(f, (Lst, Tup)) else list(f) if isinstance(f, tuple) else []
        for f in fs:
            if not isinstance(f, str):
                continue
            for prec, kind in re.findall(r'%[-+ #0]*\d*(?:\.(\d+))?l?([a-zA-Z])', f):
                if kind in 'dixXobc':
                    raise Viol('tables are written with format %s, which drops the fraction' % f, e['site'])
                if kind in 'fF' and (not prec or int(prec) < 16):
                    raise Viol('tables are written with format %s, in which small values are lost' % f, e['site'])
                if kind in 'eEgG' and (not prec or int(prec) < 10):
                    raise Viol('tables are written with format %s, which keeps few digits' % f, e['site'])
        for o in ('header', 'footer'):
            h = e['opts'].get(o)
            if isinstance(h, Str) or (isinstance(h, str) and h):
                raise Viol('a %s line is written besides the lines of the temperatures' % o, e['site'])
        d = e['opts'].get('delimiter')
        if isinstance(d, str) and (not d or not d.isspace() or '\n' in d):
            raise Viol('columns are separated by %r' % d, e['site'])
        d = e['opts'].get('newline')
        if isinstance(d, str) and d not in ('\n', '\r\n'):
            raise Viol('lines are ended by %r' % d, e['site'])

    for fl in ('e', 'c', 'q', 'r', 'sqr', 'ecr'):
        for F in (1, 2, 3):
            def f(fl=fl, F=F):
                R = run_cli(['-' + x for x in fl] + ['--min_temp', '2', '--max_temp', '12'], F, 2 if F < 3 else 1)
                compare_tables(R, fl, lambda m: T.add(T.num(2), m), T.num(11), 'flags %s, %d isomers' % (fl, F), F)
                for k, (p, a, e) in two_tables(R).items():
                    fmt_ok(e)
                if R.images:
                    raise Viol('an image is written without --plot', R.images[0]['site'])
            run.ob('tables, flags %s, %d isomers' % (fl, F), f)

        def fs(dom, fl=fl):
            F, D = ('F', 'D') if dom is SYM else (dom.F, dom.D)
            R = run_cli(['-' + x for x in fl] + ['--min_temp', '2', '--max_temp', '12'], F, D)
            compare_tables(R, fl, lambda m: T.add(T.num(2), m), T.num(11), 'flags %s, %s' % (
                fl, 'any number of isomers and modes' if dom is SYM else '%s isomers, %s modes' % (F, D)), F)
        run.ob('tables, flags %s, any number of isomers and modes' % fl, fs, SYM, Sized())

        def f0(fl=fl):
            R = run_cli(['-' + x for x in fl], 2, 1)
            compare_tables(R, fl, lambda m: m, T.num(501), 'flags %s, from 0 K' % fl, 2)
        run.ob('tables from 0 K, flags %s' % fl, f0)

    def shape():
        R = run_cli(['-e', '-r'], 'F', 'D')
        tb = two_tables(R)
        need_shape(R.s, tb['C'][1], (T.num(501), T.num(2)), 'heat-capacity table')
        need_shape(R.s, tb['P'][1], (T.num(501), T.add(T.num(1), R.s.dims.F)), 'probability table')
    run.ob('table shapes for any number of isomers', shape)

    def plots(R, F, n, ctx):
        """Images and tables of the run hold the same numbers."""
        tb = two_tables(R)
        if len(R.images) != 2:
            raise Viol('%d images instead of 2' % len(R.images), R.images[0]['site'] if R.images else 'occuprob.cli')
        IXDIM[MROW] = T.num(n)
        left = dict(tb)
        for e in R.images:
            nm = show_path(e['path'])
            k = [k for k in left if nm.rsplit('.', 1)[0].endswith('_' + k)]
            if not k:
                raise Viol('images written: %s' % [show_path(x['path']) for x in R.images], e['site'])
            p, a, te = left.pop(k[0])
            ls = lines_of(e)
            want = 1 if k[0] == 'C' else F
            a = need_shape(R.s, a, (T.num(n), T.num(1 + want)), 'table %s' % show_path(p))
            if any(isinstance(x, Seg) for x in ls):
                raise Undecided('a run of lines')
            if len(ls) != want:
                raise Viol('image %s shows %d curves instead of %d' % (nm, len(ls), want), e['site'])
            for i, ln in enumerate(ls):
                x, y = ln.c['x'], ln.c['y']
                if x is None:
                    raise Viol('image %s: curve %d has no temperatures' % (nm, i), e['site'])
                x, y = (need_shape(R.s, v, (T.num(n),), '%s of a curve of %s' % (w, nm)) for v, w in ((x, 'temperatures'), (y, 'values')))
                prove_equal(x.at((MROW,)), a.at((MROW, T.num(0))), ctx, 'image %s, curve %d: temperatures' % (nm, i), e['site'])
                prove_equal(g_positive(y.at((MROW,))), g_positive(a.at((MROW, T.num(1 + i)))), ctx,
                            'image %s, curve %d: values against the table' % (nm, i), e['site'])

    for fl in ('e', 'qr', 'sc'):
        for F in (1, 2, 3):
            def g(fl=fl, F=F):
                R = run_cli(['-' + x for x in fl] + ['--plot', '--min_temp', '2', '--max_temp', '12'], F, 1)
                compare_tables(R, fl, lambda m: T.add(T.num(2), m), T.num(11), 'flags %s with --plot, %d isomers' % (fl, F), F)
                plots(R, F, 11, CTXC())
            run.ob('plots show the numbers of the tables, flags %s, %d isomers' % (fl, F), g)

    def stubbed(F):
        """A session in which the two quantities are arbitrary arrays."""
        s = ase_session(F, 1)
        k = s.cls('SuperpositionApproximation')

        def stub(name, rows, body):
            def f(I, a, kw):
                ts = [I.force(x) for x in list(a) + list(kw.values())]
                ts = [x for x in ts if isinstance(x, Arr)]
                if len(ts) != 1 or ts[0].ndim != 1 or ts[0].sel is not None:
                    raise Bail('%s of something else' % name)
                ix = fresh_ixs(2)
                return new_arr((rows, ts[0].dims[0]), ix, body(*ix), 'g', ('input', name))
            s.I.assign(k.c, name, Native(name, f))
        s.drop()
        stub('calc_heat_capacity', T.num(1), lambda i, m: T.elem('Hc', m))

        def prob(i, m):
            x = T.elem('Pp', i, m)
            return T.div(x, T.add(T.num(1), x))
        stub('calc_probability', s.dims.F, prob)
        return s

    big = sorted({c * k + 1 for c in source_constants() if 20 <= c <= 10 ** 5 for k in (1, 2)} | {3000})
    for F, n in [(1, 11), (2, 11), (3, 501)] + [(1, n) for n in big]:
        def h(F=F, n=n):
            R = run_cli(['-e', '--plot', '--max_temp', str(n - 1)], F, 1, sess=stubbed(F))
            plots(R, F, n, CTXC(Hc=NONNEG, Pp=NONNEG))
        run.ob('plots show the numbers of the tables whatever these are, %d isomers, %d temperatures' % (F, n), h)

    def order():
        """Two runs in one process do not mix."""
        R1 = run_cli(['-e', '--plot', '--max_temp', '10'], 2, 1)
        t1 = {k: sig_arr(a) for k, (p, a, e) in two_tables(R1).items()}
        R2 = run_cli(['-e', '--plot', '--max_temp', '10'], 2, 1, sess=R1.s)
        t2 = {k: sig_arr(a) for k, (p, a, e) in two_tables(R2).items()}
        for k in 'CP':
            for x, y in zip(t1[k][1], t2[k][1]):
                prove_equal(x, y, CTXC(), 'table %s of a second run' % k, 'occuprob.cli')
        for e in R2.images:
            if len([x for x in lines_of(e)]) != (1 if '_C.' in show_path(e['path']) else 2):
                raise Viol('image %s of a second run shows %d curves' % (show_path(e['path']), len(lines_of(e))), e['site'])
    run.ob('a second run in the same process gives the same tables and images', order)


# ---------------------------------------------------------------- C26
@check('C26')
def c26(run):
    P_ = lambda n, *f: SymPart((n,), f)

    def names(infile, out, prefix, fmt, what):
        def f():
            av = ['-e', '--plot', '--max_temp', '3'] + (['--plot_format', fmt] if fmt else []) + (['--out_file', out] if out is not None else [])
            R = run_cli(av, infile=infile)
            tb = two_tables_any(R)
            want = sorted(repr(mkstr((prefix, '_%s.%s' % (k, x)))) for k in 'CP' for x in ('dat',))
            got = sorted(repr(norm_path(p)) for p, a, e in tb)
            chk(R, got, want, tb[0][2]['site'], 'tables', what)
            want = sorted(repr(mkstr((prefix, '_%s.%s' % (k, (fmt or 'svg').lower())))) for k in 'CP')
            got = sorted(repr(norm_path(e['path'])) for e in R.images)
            chk(R, got, want, R.images[0]['site'] if R.images else 'occuprob.cli', 'images', what)
            for p, a, e in tb:
                w = T.num(2) if '_C.dat' in repr(p) else T.num(3)
                need_shape(R.s, a, (T.num(4), w), 'table %s' % show_path(p))
        return f

    def two_tables_any(R):
        ok_run(R)
        odd = [e for e in R.writes if e['kind'] in ('fwrite', 'npsave')]
        if odd:
            raise Undecided('files written by %s' % odd[0]['kind'])
        if len(R.tables) != 2:
            raise Viol('%d tables are written instead of 2' % len(R.tables), 'occuprob.cli')
        return R.tables

    def chk(R, got, want, site, kind, what):
        if got != want:
            if any('pathjoin' in x or 'splitext' in x or 'abspath' in x or 'dirname' in x for x in got):
                raise Undecided('%s: %s' % (kind, got))
            raise Viol('%s: %s named %s instead of %s' % (what, kind, got, want), site)

    # symbolic: any directory, any base name, any extension
    # stem: no slash; not empty, not only dots.  ext: no slash, no dot.
    d, stem, ext = P_('dir', 'nonempty', 'noslashend'), P_('stem', 'nonempty', 'noslash', 'name'), P_('ext', 'nonempty', 'noslash', 'nodot')
    anyp = P_('prefix', 'nonempty')
    sym = [('any file name in the current directory', Str((stem, '.', ext)), Str((stem,))),
           ('any file name in any directory', Str((d, '/', stem, '.', ext)), Str((d, '/', stem))),
           ('any absolute directory', Str(('/', d, '/', stem, '.', ext)), Str(('/', d, '/', stem))),
           ('a name with further dots', Str((d, '/', stem, '.', P_('e0', 'nonempty', 'noslash', 'nodot'), '.', ext)),
            Str((d, '/', stem, '.', P_('e0', 'nonempty', 'noslash', 'nodot')))),
           ('any directory with a dot', Str((d, '.d/', stem, '.', ext)), Str((d, '.d/', stem)))]
    conc = [('iso.xyz', 'iso'), ('dir/iso.xyz', 'dir/iso'), ('./iso.xyz', './iso'), ('../iso.xyz', '../iso'), ('a.b/iso.xyz', 'a.b/iso'),
            ('a.b/iso', 'a.b/iso'), ('iso', 'iso'), ('/abs/p.q/iso.xyz', '/abs/p.q/iso'), ('run.1/c60.v2.xyz', 'run.1/c60.v2'),
            ('.hidden/iso.extxyz', '.hidden/iso'), ('dir/.xyz', 'dir/.xyz'), ('x.xyz/x.xyz', 'x.xyz/x'), ('isomers.xyz.xyz', 'isomers.xyz'),
            ('xyz.xyz', 'xyz'), ('a/b/c/d.e.f', 'a/b/c/d.e'), ('C_P.dat.xyz', 'C_P.dat'), ('my mol.xyz', 'my mol'), ('Data/MOL.XYZ', 'Data/MOL'),
            ('zyx.xyz', 'zyx'), ('../../iso', '../../iso'), ('./a', './a'), ('dir_C/iso_P.xyz', 'dir_C/iso_P')]

    def grouped(name, symbolic, cs):
        """Symbolic, or else every concrete sample."""
        def f(dom):
            if dom is SYM:
                symbolic()
            else:
                cs[dom.i]()

        class One:
            def __init__(self, i):
                self.i = i

            def __repr__(self):
                return 'sample %d' % self.i
        run.ob(name, f, SYM, [One(i) for i in range(len(cs))])
    concs = [names(i, None, p, None, 'input %s' % i) for i, p in conc]
    for nm, i, p in sym:
        grouped('%s' % nm, names(i, None, p, None, nm), concs)
    for (i, p), f in zip(conc, concs):
        run.ob('input %s' % i, f)
    outs = ['res/run1', 'run1', 'out.v2', 'a.b/c.d', './x', '../up/y', '/abs/z', 'name.xyz', 'dir.d/n', 'UPPER/Name', 'p_C', 'trailing.', 'sp ace/q', 'x.dat']
    cs = [names('in/isomers.xyz', o, o, None, '--out_file %s' % o) for o in outs]
    grouped('any --out_file, any input', names(Str((d, '/', stem, '.', ext)), Str((anyp,)), Str((anyp,)), None, 'any --out_file'), cs)
    for o, f in zip(outs, cs):
        run.ob('--out_file %s' % o, f)
    for fmt in ('png', 'PNG', 'Pdf', 'SVG', 'jpeg', 'jpg', 'TIFF', 'tif', 'svgz', 'eps', 'PS', 'WebP', '.PNG'):
        run.ob('--plot_format %s' % fmt, names('dir.x/Mol.A.xyz', None, 'dir.x/Mol.A', fmt, '--plot_format %s' % fmt))
        run.ob('--plot_format %s with --out_file' % fmt, names('dir.x/Mol.A.xyz', 'Out.D/R', 'Out.D/R', fmt, '--plot_format %s' % fmt))


# ---------------------------------------------------------------- C27
@check('C27')
def c27(run):
    def argf(t):
        return Str((SymPart(('argfloat', t), ('nonempty',)),))

    def grid(R):
        tb = two_tables(R)
        out = []
        for k in 'CP':
            p, a, e = tb[k]
            out.append((show_path(p), a, e))
        return out

    def concrete(lo, hi, flags=('-e',)):
        def f():
            lo_, hi_ = Fr(lo), Fr(hi)
            n = int((hi_ - lo_) // 1) + 1
            R = run_cli(list(flags) + ['--min_temp', lo, '--max_temp', hi, '--plot'], 1, 1)
            IXDIM[MROW] = T.num(n)
            for p, a, e in grid(R):
                a = need_shape(R.s, a, (T.num(n), T.num(2)), 'table %s for temperatures %s to %s' % (p, lo, hi))
                prove_equal(a.at((MROW, T.num(0))), T.add(T.num(lo_), MROW), CTXC(), 'temperatures of %s for %s to %s' % (p, lo, hi), e['site'])
        return f
    for lo, hi in (('0', '500'), ('0', '1'), ('0', '0'), ('10', '10'), ('10', '20'), ('0', '10.5'), ('0', '10.999'), ('0.5', '10.5'),
                   ('0.5', '10'), ('0.25', '3.5'), ('99.5', '100'), ('99.5', '100.4'), ('99.5', '100.6'), ('1', '1.5'), ('300', '1000'), ('2.75', '7.25'),
                   ('0', '0.5'), ('0.125', '0.875'), ('273.15', '373.15'), ('0', '2000'), ('250', '250.75')):
        if lo == '273.15':
            continue            # differences of such decimals round in binary; see C33
        run.ob('%s K to %s K' % (lo, hi), concrete(lo, hi))

    for fl in FLAGSETS:
        if fl and fl != 'e':
            for lo, hi in (('0', '5'), ('2.5', '9')):
                run.ob('flags %s: %s K to %s K' % (fl, lo, hi), concrete(lo, hi, ['-' + x for x in fl]))

    def symbolic(extra):
        def f():
            """min_temp = a, max_temp = a + K + r with 0 <= r < 1: K + 1 temperatures a + m."""
            a, r = T.sym('a'), T.sym('rem')
            K = T.dim('K')
            hi = T.add(a, K, r)
            s = ase_session(1, 1)
            s.I.facts.decl.update({'a': NONNEG, 'rem': NONNEG})
            R = run_cli(['-e', '--min_temp', argf(a), '--max_temp', argf(hi)], 1, 1, sess=s)
            ok_run(R)
            asm = (T.lt(r, T.num(1)),)
            for p, arr, e in grid(R):
                n = arr.dims[0]
                decl = dict(a=NONNEG, rem=NONNEG)
                if need_arr(arr, 'table').ndim != 2:
                    raise Viol('table %s has %d dimensions' % (p, arr.ndim), e['site'])
                w = W.separate(n, T.add(K, T.num(1)), {**DECL, **decl}, assume=asm)
                if w:
                    raise Viol('number of temperatures for min_temp = a, max_temp = a + K + rem: %s' % w, e['site'])
                IXDIM[MROW] = T.add(K, T.num(1))
                t = arr.at((MROW, T.num(0)))
                prove_equal(t, T.add(a, MROW), ctxof(**decl), 'temperatures of %s' % p, e['site'], assume=asm)
                nr = T.subst(n, {r: T.num(0)})
                prove_equal(nr, T.add(K, T.num(1)), ctxof(**decl), 'number of temperatures of a whole number of kelvin', e['site'])
        return f
    run.ob('any limits: K + 1 temperatures min_temp + m', symbolic(None))

    def empty(lo, hi):
        def f():
            """No temperature lies in the range: none may be evaluated."""
            R = run_cli(['-e', '--min_temp', lo, '--max_temp', hi], 2, 1)
            for p, a, e in R.tables:
                a = need_arr(a, 'table %s' % show_path(p))
                n = a.dims[0]
                if n.op == 'num' and n.args[0] > 0 or n.op != 'num' and W.separate(n, T.num(0), DECL):
                    raise Viol('%s temperatures are evaluated for --min_temp %s --max_temp %s' % (T.show(n), lo, hi), e['site'])
        return f
    for lo, hi in (('20', '10'), ('500', '0'), ('10.5', '10'), ('10', '9.75')):
        run.ob('no temperature between %s K and %s K' % (lo, hi), empty(lo, hi))

    # whole ranges on both sides of the constants of the source
    for c in source_constants():
        for lo, hi in ((0, c + 1), (c + 1, c + 2), (0, c), (c, c)):
            run.ob('%s K to %s K' % (lo, hi), concrete(str(lo), str(hi)))


# ---------------------------------------------------------------- C28
@check('C28')
def c28(run):
    def call(s, d, results='y', labels=None, size=None, path='img.svg', M=None, more=None, prefix=''):
        f = s.io('plot_results')
        ix = fresh_ixs(2)
        n = d.N
        res = new_arr((n, d.M), ix, T.elem(results, *ix), 'f', ('input', results))
        jx = fresh_ixs(1)
        T_ = new_arr((d.M,), jx, T.add(T.sym('t0'), T.mul(T.sym('dt'), jx[0])), 'f', ('input', 'T'))
        kw = dict(more or {})
        if labels is not None:
            kw['labels'] = Lst(list(labels))
        if size is not None:
            kw['size'] = size
        start = len(s.I.events)
        v, p = s.call(f, res, T_, path, **kw)
        s.norm_raise(p, 'plot_results')
        ev = s.I.events[start:]
        return res, T_, ev

    def saved(ev, path):
        sv = [e for e in ev if e['kind'] == 'savefig']
        if len(sv) != 1:
            raise Viol('%d images are saved instead of one' % len(sv), sv[0]['site'] if sv else 'plot_results')
        if show_path(sv[0]['path']) != path:
            raise Viol('the image is saved to %s instead of %s' % (show_path(sv[0]['path']), path), sv[0]['site'])
        return sv[0]

    def verify(s, d, res, T_, ev, path, labels, size, results='y'):
        e = saved(ev, path)
        always(e, {**DECL, results: ALL, 't0': NONNEG, 'dt': POS})
        new = [x['fig'] for x in ev if x['kind'] == 'fig_new']
        if not any(f is e['fig'] for f in new):
            raise Viol('the image saved is not a figure opened by this call', e['site'])
        sz = size_of(e)
        if sz is None or list(sz) != list(size):
            raise Viol('figure size %s instead of %s' % ([str(x) for x in sz or ()], [str(x) for x in size]), e['site'])
        if len(e['axes']) != 1:
            raise Viol('the image has %d axes' % len(e['axes']), e['site'])
        ax = e['axes'][0]
        check_lines(s, d, ax['lines'], res, T_, labels, e['site'], results)
        fin = e['fig'].c['axes']
        if fin and (len(fin) != 1 or fin[0].c['lines'].items != ax['lines'] or fin[0].c['others'].items != ax['others']):
            if len(fin[0].c['lines'].items) > len(ax['lines']) or len(fin[0].c['others'].items) > len(ax['others']):
                raise Viol('something is drawn after the image is saved', e['site'])
        if len(fin) == 1 and fin[0].c['lines'].items == ax['lines']:
            for k in ('xlim', 'ylim', 'xlabel', 'ylabel', 'legend'):
                if ax[k] is None and fin[0].c[k] is not None:
                    raise Viol('the %s is set after the image is saved' % k, e['site'])
        xl = ax['xlim']
        if xl is None or xl[0] is None or xl[1] is None:
            raise Viol('the horizontal axis is not limited to the temperature range', e['site'])
        ctx = ctxof(t0=NONNEG, dt=POS, y=ALL, y2=ALL)
        t = lambda m: T.add(T.sym('t0'), T.mul(T.sym('dt'), m))
        for got, want, nm in ((xl[0], t(T.num(0)), 'lower'), (xl[1], t(T.sub(d.M, T.num(1))), 'upper')):
            got = got.at(()) if isinstance(got, Arr) else term_of(got)
            prove_equal(got, want, ctx, '%s limit of the horizontal axis' % nm, e['site'])
        vis = [k for ln in flat(ax['lines']) for k, v in ln.c['kw'] if k == 'visible' and v is False]
        if vis:
            raise Viol('curves are made invisible', e['site'])
        return e

    def flat(ls):
        return [x.val if isinstance(x, Seg) else x for x in ls]

    def conditional(ls, results, site):
        for x in ls:
            if isinstance(x, Seg) and x.cond is not T.TRUE:
                if x.dim.op == 'dim':
                    IXDIM[x.ix] = x.dim
                w = W.holds(T.and_(T.not_(x.cond), T.lt(T.num(0), x.dim)), {**DECL, results: ALL, 't0': NONNEG, 'dt': POS})
                if w:
                    raise Viol('a row is drawn only when %s (not with %s)' % (short(x.cond), w.split(' at ', 1)[-1]), site)

    def check_lines(s, d, ls, res, T_, labels, site, results):
        ctx = ctxof(t0=NONNEG, dt=POS, **{results: ALL})
        n = None
        if d.N.op == 'num':
            n = int(d.N.args[0])
            conditional(ls, results, site)
            if any(isinstance(x, Seg) for x in ls):
                raise Undecided('a run of lines')
            if len(ls) != n:
                raise Viol('%d curves are drawn for %d rows' % (len(ls), n), site)
            rows = [(T.num(i), ln) for i, ln in enumerate(ls)]
        else:
            conditional(ls, results, site)
            if len(ls) != 1 or not isinstance(ls[0], Seg) or ls[0].cond is not T.TRUE:
                raise Undecided('lines %r' % (ls,))
            if not s.I.dim_eq(ls[0].dim, d.N):
                w = W.separate(ls[0].dim, d.N, {})
                if w:
                    raise Viol('number of curves drawn: %s' % w, site)
                raise Undecided('number of curves %s' % T.show(ls[0].dim))
            IXDIM[ls[0].ix] = d.N
            rows = [(ls[0].ix, ls[0].val)]
        mx = T.idx('mx')
        IXDIM[mx] = d.M
        done = set()
        for i, ln in rows:
            if ln.c['x'] is None:
                raise Viol('a curve is drawn without temperatures', site)
            x = need_shape(s, ln.c['x'], (d.M,), 'abscissa of a curve')
            y = need_shape(s, ln.c['y'], (d.M,), 'ordinate of a curve')
            prove_equal(x.at((mx,)), T_.at((mx,)), ctx, 'abscissa of row %s' % T.show(i), site)
            prove_equal(y.at((mx,)), res.at((i, mx)), ctx, 'ordinate of row %s' % T.show(i), site)
            lb = ln.c['label']
            if labels is None:
                if lb is not None and not (isinstance(lb, str) and lb.startswith('_')):
                    raise Viol('row %s has the label %r though no labels are given' % (T.show(i), lb), site)
            elif n is not None:
                if lb != labels[int(i.args[0])]:
                    raise Viol('row %s has the label %r instead of %r' % (T.show(i), lb, labels[int(i.args[0])]), site)
            else:
                if repr(lb) != repr(vsubst(labels[0].val, {labels[0].ix: i})):
                    raise Viol('row %s has the label %r' % (T.show(i), lb), site)

    def symlabels(d):
        ix = T.fresh_idx('l')
        IXDIM[ix] = d.N
        return [Seg(d.N, ix, Str((SymPart(('lab', ix), ('nonempty',)),)))]

    def labs(d):
        return symlabels(d) if d.N.op != 'num' else ['lab%d' % i for i in range(int(d.N.args[0]))]
    ANY = Dims(M=T.add(T.num(1), T.dim('M')))
    DOM = [ANY, Dims(1, 3), Dims(2, 2), Dims(3, 4), Dims(2, 1)]
    DOM += [Dims(c + 1, 2) for c in source_constants() if c <= 60] + [Dims(1, k * c + 1) for c in source_constants() for k in (1, 2) if k * c >= 5]
    wh = (Sc(T.num(3), 'pf'), Sc(T.num(7), 'pf'))
    for d in DOM:
        nm = 'any number of rows and temperatures' if d is ANY else '%s rows, %s temperatures' % (T.show(d.N), T.show(d.M))
        for lab in (False, True):
            for size in (None, 'tuple', 'list'):
                def f(d=d, lab=lab, size=size):
                    s = Sess(d)
                    l = labs(d) if lab else None
                    sz = None if size is None else (wh if size == 'tuple' else Lst(list(wh)))
                    res, T_, ev = call(s, d, labels=l, size=sz, path='o/img.svg')
                    verify(s, d, res, T_, ev, 'o/img.svg', l, (8, 6) if size is None else (3, 7))
                run.ob('%s, %s, %s' % (nm, 'labels' if lab else 'no labels', 'size given (%s)' % size if size else 'default size'), f)

        def second(d=d):
            """A second call, after a first one."""
            for first_lab in (False, True):
                for second_lab in (False, True):
                    s = Sess(d)
                    l = labs(d)
                    call(s, d, 'y', labels=l if first_lab else None, path='a.svg')
                    res, T_, ev = call(s, d, 'y2', labels=l if second_lab else None, size=wh, path='b.svg')
                    verify(s, d, res, T_, ev, 'b.svg', l if second_lab else None, (3, 7), 'y2')
        run.ob('a second call shows only its own rows: %s' % nm, second)

        def samesize(d=d):
            s = Sess(d)
            for k in range(3):
                res, T_, ev = call(s, d, 'y' if k == 0 else 'y2', path='same.svg', more=dict(
                    ylabel='Y', ylims=(Sc(T.num(0), 'pf'), Sc(T.num(1), 'pf')), linewidth=3, hline_pos=Lst([0, 1])))
                verify(s, d, res, T_, ev, 'same.svg', None, (8, 6), 'y' if k == 0 else 'y2')
        run.ob('three calls with the same path and size: %s' % nm, samesize)

        def user(d=d):
            """The calling program has a figure of its own open."""
            s = Sess(d)
            s.io('plot_results')
            uf = s.I.user_figure(s.I)
            res, T_, ev = call(s, d, labels=labs(d), path='c.svg')
            e = verify(s, d, res, T_, ev, 'c.svg', labs(d) if d.N.op == 'num' else e_labels(ev), (8, 6)) if d.N.op == 'num' else saved(ev, 'c.svg')
            if e['fig'] is uf:
                raise Viol('the result is drawn into the figure the caller has open', e['site'])
            if len(uf.c['axes']) != 1 or len(uf.c['axes'][0].c['lines'].items) != 1 or uf.c['axes'][0].c['others'].items:
                raise Viol('the result is drawn into the figure the caller has open', e['site'])
        run.ob('with a figure of the caller open: %s' % nm, user)

    def repeated(pattern, lab):
        """Rows that are the same, or not in increasing order: each is drawn."""
        def f():
            d = Dims(len(pattern), 3)
            s = Sess(d)
            l = labs(d) if lab else None
            i, m = fresh_ixs(2)
            level = T.num(pattern[-1])
            for j in range(len(pattern) - 1):
                level = T.ite(T.eq(i, T.num(j)), T.num(pattern[j]), level)
            res = new_arr((d.N, d.M), (i, m), T.add(T.elem('y', m), T.mul(T.sym('dt'), level)), 'f', ('input', 'y'))
            jx = fresh_ixs(1)
            T_ = new_arr((d.M,), jx, T.add(T.sym('t0'), T.mul(T.sym('dt'), jx[0])), 'f', ('input', 'T'))
            start = len(s.I.events)
            v, p = s.call(s.io('plot_results'), res, T_, 'img.svg', **({'labels': Lst(l)} if lab else {}))
            s.norm_raise(p, 'plot_results')
            verify(s, d, res, T_, s.I.events[start:], 'img.svg', l, (8, 6))
        return f
    for pattern in ((0, 0), (1, 0), (0, 1, 0), (2, 2, 1), (0, 0, 0)):
        for lab in (False, True):
            run.ob('rows in the order %s%s' % (pattern, ', labels' if lab else ''), repeated(pattern, lab))

    for path in ('out', 'a.b/out', 'out.', 'x.y.png', '.svg', 'A.SVG', '/tmp/new dir/P.pdf', 'results_P.jpeg'):
        def saving(path=path):
            d = Dims(2, 3)
            s = Sess(d)
            res, T_, ev = call(s, d, labels=labs(d), path=path)
            verify(s, d, res, T_, ev, path, labs(d), (8, 6))
        run.ob('saved to %r' % path, saving)

    for opt in ({'ylabel': 'Y'}, {'ylims': (Sc(T.num(0), 'pf'), Sc(T.num(1), 'pf'))}, {'linewidth': 3}, {'hline_pos': Lst([0, 1])}):
        def g(opt=opt):
            d = Dims(2, 3)
            s = Sess(d)
            l = labs(d)
            res, T_, ev = call(s, d, labels=l, size=wh, path='d.svg', more=opt)
            verify(s, d, res, T_, ev, 'd.svg', l, (3, 7))
        run.ob('with option %s' % list(opt)[0], g)


def e_labels(ev):
    return None
