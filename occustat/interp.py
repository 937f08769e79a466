"""Abstract interpreter for the Python subset used in scientific code.

The program is never executed: its syntax tree is evaluated over abstract values
(value-graph terms for numbers and array elements).  Conditions that are not
decided by the declared facts produce gated joins (if-then-else terms), loops
over axes of unknown length are summarised by solving their recurrences.
"""
import ast
import os
import builtins as _b
from fractions import Fraction
from . import terms as T
from . import nf as N
from .evalt import Evaluator
from .values import *
from .values import _KIND, _WEAK, _ORD


class Out:
    __slots__ = ('kind', 'v', 'a', 'b')

    def __init__(self, kind, v=None, a=None, b=None):
        self.kind, self.v, self.a, self.b = kind, v, a, b


NORMAL = Out('normal')


def leaves(o, cond=T.TRUE):
    if o.kind == 'cond':
        return leaves(o.a, T.and_(cond, o.v)) + leaves(o.b, T.and_(cond, T.not_(o.v)))
    return [(cond, o)]


def kinds(o):
    if o.kind == 'cond':
        return kinds(o.a) | kinds(o.b)
    return {o.kind}


def mkcond(c, a, b):
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if a is b:
        return a
    return Out('cond', c, a, b)


def replace_leaf(o, kind, new):
    if o.kind == 'cond':
        return mkcond(o.v, replace_leaf(o.a, kind, new), replace_leaf(o.b, kind, new))
    return new if o.kind == kind else o


class Source:
    """The analysed tree: parsed modules of the package."""

    def __init__(self, root='/repo', overlay=None):
        self.root = root
        self.overlay = overlay or {}
        self.trees = {}

    def path(self, mod):
        p = os.path.join(self.root, *mod.split('.'))
        for q in (p + '.py', os.path.join(p, '__init__.py')):
            if q in self.overlay or os.path.isfile(q):
                return q
        return None

    def text(self, path):
        if path in self.overlay:
            return self.overlay[path]
        with open(path, encoding='utf-8') as f:
            return f.read()

    def tree(self, mod):
        if mod not in self.trees:
            p = self.path(mod)
            if p is None:
                self.trees[mod] = None
            else:
                self.trees[mod] = (ast.parse(self.text(p), p), p)
        return self.trees[mod]


PKG = 'occuprob'


def same_term(a, b):
    if a is b:
        return True
    from .lib import alpha
    return alpha(a) is alpha(b)


def same_value(a, b):
    """Identical representation (terms are shared)."""
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return same_term(a.t, b.t) and a.dt == b.dt
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) != len(b.dims) or any(x is not y for x, y in zip(a.dims, b.dims)) or a.dt != b.dt or a.sel or b.sel:
            return False
        ixs = [T.fresh_idx('u') for _ in a.dims]
        return same_term(a.at(ixs), b.at(ixs))
    if isinstance(a, (Tup, Lst)) and type(a) is type(b):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str)) and type(a) is type(b):
        return a == b
    return False


class Interp:
    def __init__(self, source, facts=None, steps=400000):
        self.src = source
        self.facts = facts or N.Ctx({'T': N.NONNEG, 'nu': N.NONNEG, 'g': N.POS})
        self.ev = Evaluator(self.facts)
        self.trail = []
        self.pc = []
        self.pends = []
        self.pendbase = 0
        self.stack = []
        self.events = []
        self.missed = set()
        self.modules = {}
        self.visited = set()        # functions analysed
        self.decided = {}
        self.steps = steps
        self.depth = 0
        self.joinmap = {}
        self.stdout = []
        from . import pymod, npmod, extmod
        self.py = pymod
        self.np = npmod
        self.builtins = pymod.make_builtins(self)
        self.extmods = {}
        npmod.install(self)
        extmod.install(self)

    # ------------------------------------------------------------ state
    def assign(self, c, k, v):
        self.trail.append((c, k, c.get(k, MISSING)))
        if v is MISSING:
            c.pop(k, None)
        else:
            c[k] = v

    def undo(self, mark, born=None):
        diff = {}
        while len(self.trail) > mark:
            c, k, old = self.trail.pop()
            if born is not None and getattr(c, 'birth', 0) > born:
                continue        # created in the region: only reachable if it ran
            key = (id(c), k)
            if key not in diff:
                diff[key] = (c, k, c.get(k, MISSING))
            if old is MISSING:
                c.pop(k, None)
            else:
                c[k] = old
        return diff

    def collect(self, f, cond=None):
        """Run f under cond; returns (value or PyRaise, state diff); state restored."""
        mark = len(self.trail)
        born = Cell.n
        npc = len(self.pc)
        if cond is not None:
            self.pc.append(cond)
        try:
            r = f()
        except PyRaise as e:
            r = e
        finally:
            del self.pc[npc:]
        return r, self.undo(mark, born)

    def apply(self, diff):
        for c, k, v in diff.values():
            self.assign(c, k, v)

    def merge_diffs(self, c, d1, d2):
        for key in list(d1) + [k for k in d2 if k not in d1]:
            cell, k, _ = d1.get(key) or d2.get(key)
            cur = cell.get(k, MISSING)
            v1 = d1[key][2] if key in d1 else cur
            v2 = d2[key][2] if key in d2 else cur
            self.assign(cell, k, self.join(c, v1, v2, cell=True))

    def branch(self, c, f1, f2):
        """Gated execution of two thunks returning values."""
        d = self.decide(c)
        if d is True:
            return f1()
        if d is False:
            return f2()
        r1, d1 = self.collect(f1, c)
        r2, d2 = self.collect(f2, T.not_(c))
        self.merge_diffs(c, d1, d2)
        if isinstance(r1, PyRaise) and isinstance(r2, PyRaise):
            if r1.exc is not r2.exc:
                self.pend(c, r1.exc)
            raise r2
        if isinstance(r1, PyRaise):
            self.pend(c, r1.exc)
            return r2
        if isinstance(r2, PyRaise):
            self.pend(T.not_(c), r2.exc)
            return r1
        return self.join(c, r1, r2)

    def pend(self, cond, exc):
        """Conditional exception of the current statement."""
        full = cond
        for p in self.pc[self.pendbase:]:
            full = T.and_(p, full)
        if self.decide(full) is False:
            return
        self.pends.append((full, exc))
        self.pc.append(T.not_(cond))

    def bound_dt(self, a, b):
        return promote(a, b)

    def join(self, c, a, b, cell=False):
        if a is b or c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if a is None and b is None:
            return None
        if isinstance(a, T.Term) and isinstance(b, T.Term):     # buffer bodies
            return T.ite(c, a, b)
        if type(a) is type(b) and isinstance(a, (str, int, bool)) and a == b:
            return a
        if isnum(a) and isnum(b):
            ta, tb = term_of(a), term_of(b)
            da, db = dt_of(a), dt_of(b)
            if T.is_bool(ta) == T.is_bool(tb):
                return Sc(T.ite(c, ta, tb), da if da == db else promote(da, db))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.sel is None and b.sel is None and \
                len(a.dims) == len(b.dims) and all(self.dim_eq(x, y) for x, y in zip(a.dims, b.dims)):
            if a.buf is b.buf and a.bix == tuple(T.subst(y, dict(zip(b.ixs, a.ixs))) for y in b.bix):
                return a
            ixs = fresh_ixs(a.ndim)
            return new_arr(a.dims, ixs, T.ite(c, a.at(ixs), b.at(ixs)),
                           a.dt if a.dt == b.dt else promote(a.dt, b.dt), ('join', a.buf, b.buf), self.site())
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b) and not cell:
                return tuple(self.join(c, x, y) for x, y in zip(a, b))
            if len(a) == len(b) and all(self.joinable(x, y) for x, y in zip(a, b)):
                return tuple(self.join(c, x, y) for x, y in zip(a, b))
            if cell:
                # list contents: guarded items
                n = 0
                while n < len(a) and n < len(b) and a[n] is b[n]:
                    n += 1
                if n == len(b) and len(a) == n + 1:
                    return a[:n] + (self.guard_item(a[n], c),)
                if n == len(a) and len(b) == n + 1:
                    return b[:n] + (self.guard_item(b[n], T.not_(c)),)
                if len(a) == len(b) == n + 1:
                    return a[:n] + (self.guard_item(a[n], c), self.guard_item(b[n], T.not_(c)))
                return a[:n] + tuple(self.guard_item(x, c) for x in a[n:]) + \
                    tuple(self.guard_item(x, T.not_(c)) for x in b[n:])
        if isinstance(a, Str) and isinstance(b, Str) and a == b:
            return a
        if isinstance(a, Host) and isinstance(b, Host) and getattr(a, 'merge', None) and getattr(b, 'merge', None):
            r = a.merge(self, c, b)
            if r is not None:
                return r
        if isinstance(a, Lst) and isinstance(b, Lst) and a.kind == b.kind and len(a.items) == len(b.items) and \
                not any(isinstance(x, (Seg, HoleItem)) for x in a.items + b.items):
            return Lst([self.join(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        return self.choice([(c, a), (T.TRUE, b)])

    def joinable(self, x, y):
        return x is y or (isnum(x) and isnum(y)) or (isinstance(x, Arr) and isinstance(y, Arr)) or \
            (isinstance(x, (str, Str)) and isinstance(y, (str, Str)))

    def guard_item(self, it, c):
        if isinstance(it, Seg):
            return Seg(it.dim, it.ix, it.val, T.and_(c, it.cond))
        if isinstance(it, HoleItem):
            raise Bail('conditional list prefix')
        return Seg(T.num(1), T.fresh_idx('u'), it, c)

    def choice(self, alts):
        out = []
        rem = T.TRUE
        for c, v in alts:
            g = T.and_(rem, c)
            if isinstance(v, Choice):
                for c2, v2 in v.alts:
                    out.append((T.and_(g, c2), v2))
            else:
                out.append((g, v))
            rem = T.and_(rem, T.not_(c))
        out = [(c, v) for c, v in out if self.decide(c) is not False]
        # merge equal alternatives
        res = []
        for c, v in out:
            for i, (c2, v2) in enumerate(res):
                if v2 is v or (type(v) is type(v2) and isinstance(v, (str, int)) and v == v2):
                    res[i] = (T.or_(c2, c), v2)
                    break
            else:
                res.append((c, v))
        if len(res) == 1:
            return res[0][1]
        return Choice(res)

    def force(self, v):
        """Resolve a Choice under the current path condition."""
        if isinstance(v, Choice):
            alts = [(c, x) for c, x in v.alts if self.decide(c) is not False]
            if len(alts) == 1:
                return alts[0][1]
            if not alts:
                raise Bail('no feasible alternative')
            if len(alts) != len(v.alts):
                return Choice(alts)
        return v

    def distribute(self, v, f):
        """Apply f to every alternative of a Choice and join the results."""
        v = self.force(v)
        if not isinstance(v, Choice):
            return f(v)
        alts = v.alts

        def go(i):
            if i == len(alts) - 1:
                return f(alts[i][1])
            return self.branch(alts[i][0], lambda: f(alts[i][1]), lambda: go(i + 1))
        return go(0)

    # ------------------------------------------------------------ facts
    def decide(self, t):
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        for p in self.pc:
            r = self.from_pc(p, t)
            if r is not None:
                return r
        o = t.op
        if o == 'not':
            r = self.decide(t.args[0])
            return None if r is None else not r
        if o == 'and':
            a, b = self.decide(t.args[0]), self.decide(t.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if o == 'or':
            a, b = self.decide(t.args[0]), self.decide(t.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        r = self.decided.get(t.id, 0)
        if r == 0:
            r = None
            try:
                cs = self.ev.run(t)
                vals = {v for _, v in cs if isinstance(v, bool)}
                if len(vals) == 1 and all(isinstance(v, bool) for _, v in cs):
                    r = vals.pop()
            except (N.Undecided, RecursionError):
                r = None
            self.decided[t.id] = r
        return r

    def from_pc(self, p, t):
        if p is t:
            return True
        if p.op == 'not' and p.args[0] is t:
            return False
        if p.op == 'and':
            for q in p.args:
                r = self.from_pc(q, t)
                if r is not None:
                    return r
        if p.op == 'not' and p.args[0].op == 'or':
            for q in p.args[0].args:
                r = self.from_pc(T.not_(q), t)
                if r is not None:
                    return r
        return None

    def dim_eq(self, a, b):
        if a is b:
            return True
        if a.op == 'num' and b.op == 'num':
            return a.args[0] == b.args[0]
        try:
            x, y = self.ev.run(a), self.ev.run(b)
            if len(x) == 1 and len(y) == 1:
                with N.using(self.facts):
                    return N.equal(x[0][1], y[0][1])
        except (N.Undecided, AttributeError):
            pass
        return False

    def norm_dim(self, t):
        """Simplify a dimension term."""
        if t.op in ('num', 'dim'):
            return t
        try:
            x = self.ev.run(t)
            if len(x) == 1 and isinstance(x[0][1], N.NF):
                n = x[0][1]
                if N.is_const(n):
                    return T.num(N.cval(n))
                if len(n.t) == 1 and n.t[0][1] == 1 and n.t[0][0].ex is None and len(n.t[0][0].pw) == 1 and \
                        n.t[0][0].pw[0][1] == 1:
                    at = N._atoms[n.t[0][0].pw[0][0]]
                    if at.kind == 'dim':
                        return T.dim(at.p[0])
        except N.Undecided:
            pass
        return t

    # ------------------------------------------------------------ reporting
    def site(self):
        for fr in reversed(self.stack):
            return '%s:%s in %s' % fr
        return '?'

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['site'] = self.site()
        kw['pc'] = tuple(self.pc)
        kw['loops'] = tuple(getattr(self, 'loops', ()))
        self.events.append(kw)
        return kw

    def exc(self, name, msg=''):
        cls = self.builtins.get(name) if isinstance(name, str) else name
        e = Inst(cls, args=(msg,) if msg != '' else ())
        e.where = self.site()
        return e

    def throw(self, name, msg=''):
        raise PyRaise(self.exc(name, msg))

    # ------------------------------------------------------------ modules
    nofile = None       # None: any directory; a path; '': no __file__ at all

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] == PKG and self.src.path(name):
            if '.' in name:
                par = self.load(name.rsplit('.', 1)[0])
            tree, path = self.src.tree(name)
            m = Mod(name, path)
            self.modules[name] = m
            m.c['__name__'] = name
            if self.nofile:
                m.c['__file__'] = self.nofile + '/' + os.path.basename(path)
            elif self.nofile is None:
                m.c['__file__'] = Str((SymPart('pkgdir'), '/' + os.path.basename(path)))
            m.c['__doc__'] = ast.get_docstring(tree)
            m.c['__package__'] = name if path.endswith('__init__.py') else name.rsplit('.', 1)[0]
            sc = Scope(None, m, 'module')
            sc.c = m.c
            self.stack.append((name, 0, '<module>'))
            try:
                o = self.exec_block(tree.body, sc)
            finally:
                self.stack.pop()
            for cnd, lf in leaves(o):
                if lf.kind == 'raise':
                    if cnd is T.TRUE:
                        del self.modules[name]
                        raise PyRaise(lf.v)
                    self.pend(cnd, lf.v)
            if '.' in name:
                p, c = name.rsplit('.', 1)
                self.assign(self.modules[p].c, c, m)
            return m
        if name in self.extmods:
            m = self.extmods[name]
            if not isinstance(m, Mod):
                m = m(self)
                self.extmods[name] = m
            self.modules[name] = m
            return m
        if name.split('.')[0] == PKG:
            self.throw('ModuleNotFoundError', 'No module named %r' % name)
        top = name.split('.')[0]
        if '.' in name and top in self.extmods:
            par = self.load(name.rsplit('.', 1)[0])
            v = par.c.get(name.rsplit('.', 1)[1]) if isinstance(par, Mod) else None
            if v is not None:
                return v
        return Ext(name)

    def import_name(self, name):
        """Returns the value `import a.b` binds for a (after loading a.b)."""
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            m = self.load('.'.join(parts[:i]))
        return m

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for i, s in enumerate(stmts):
            o = self.exec_stmt(s, sc)
            if o is NORMAL:
                continue
            if 'normal' not in kinds(o):
                return o
            ncond = T.FALSE
            for c, lf in leaves(o):
                if lf.kind == 'normal':
                    ncond = T.or_(ncond, c)
            rest = stmts[i + 1:]
            if not rest:
                return o
            r, diff = self.collect(lambda: self.exec_block(rest, sc), ncond)
            if isinstance(r, PyRaise):
                r = Out('raise', r.exc)
            self.merge_diffs(ncond, diff, {})
            return replace_leaf(o, 'normal', r)
        return NORMAL

    def exec_stmt(self, s, sc):
        self.steps -= 1
        if self.steps < 0:
            raise Bail('analysis budget exhausted')
        saved = self.pends, self.pendbase
        npc = len(self.pc)
        self.pends, self.pendbase = [], npc
        if self.stack:
            m, _, f = self.stack[-1]
            self.stack[-1] = (m, s.lineno, f)
        mark = len(self.trail)
        born = Cell.n
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Bail('statement %s' % type(s).__name__)
            try:
                o = m(s, sc)
            except PyRaise as e:
                o = Out('raise', e.exc)
            if self.pends:
                # effects after the first conditional raise happen only without it
                for c, e in reversed(self.pends):
                    o = mkcond(c, Out('raise', e), o)
                ok = T.TRUE
                for c, e in self.pends:
                    ok = T.and_(ok, T.not_(c))
                diff = self.undo(mark, born)
                del self.pc[npc:]
                self.merge_diffs(ok, diff, {})
            return o
        finally:
            del self.pc[npc:]
            self.pends, self.pendbase = saved

    def s_Expr(self, s, sc):
        self.eval(s.value, sc)
        return NORMAL

    def s_Pass(self, s, sc):
        return NORMAL

    def s_Global(self, s, sc):
        sc.globals_.update(s.names)
        return NORMAL

    def s_Nonlocal(self, s, sc):
        sc.nonlocals.update(s.names)
        return NORMAL

    def s_Return(self, s, sc):
        return Out('ret', self.eval(s.value, sc) if s.value is not None else None)

    def s_Break(self, s, sc):
        return Out('break')

    def s_Continue(self, s, sc):
        return Out('cont')

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.bind(t, v, sc)
        return NORMAL

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.bind(s.target, self.eval(s.value, sc), sc)
        if sc.kind == 'class' and isinstance(s.target, ast.Name):
            ann = sc.c.setdefault('$ann', [])
            ann.append(s.target.id)
        return NORMAL

    def s_AugAssign(self, s, sc):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            v = self.inplace(op, cur, self.eval(s.value, sc))
            self.store_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, sc)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(op, cur, self.eval(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, sc)
            ix = self.eval_index(t.slice, sc)
            cur = self.getitem(obj, ix)
            v = self.inplace(op, cur, self.eval(s.value, sc))
            self.setitem(obj, ix, v)
        else:
            raise Bail('augmented target')
        return NORMAL

    def inplace(self, op, cur, val):
        cur = self.force(cur)
        if isinstance(cur, Choice):
            return self.distribute(cur, lambda x: self.inplace(op, x, val))
        if isinstance(cur, Arr):
            return self.np.inplace(self, op, cur, val)
        if isinstance(cur, Lst) and op == 'Add':
            self.py.lst_extend(self, cur, val)
            return cur
        if isinstance(cur, Lst) and op == 'Mult':
            r = self.binop(op, cur, val)
            self.assign(cur.c, 'items', r.items)
            return cur
        if isinstance(cur, Inst):
            d, _ = cur.cls.lookup('__i' + self.py.DUNDER[op] + '__')
            if d is not None:
                return self.call(Bound(d, cur), [val])
        if isinstance(cur, (Dct, SetV)) and op == 'BitOr':
            return self.py.update_or(self, cur, val)
        return self.binop(op, cur, val)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = self.scope_of(t.id, sc)
                if t.id not in d:
                    self.throw('NameError', t.id)
                self.assign(d, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                self.py.delitem(self, self.eval(t.value, sc), self.eval_index(t.slice, sc))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if t.attr not in o.c:
                    self.throw('AttributeError', t.attr)
                self.assign(o.c, t.attr, MISSING)
        return NORMAL

    def s_Assert(self, s, sc):
        c = self.truth(self.eval(s.test, sc))
        if c is True:
            return NORMAL
        e = self.exc('AssertionError')
        if c is False:
            return Out('raise', e)
        self.pend(T.not_(c), e)
        return NORMAL

    def s_Raise(self, s, sc):
        if s.exc is None:
            for e in reversed(self.handling):
                return Out('raise', e)
            return Out('raise', self.exc('RuntimeError', 'No active exception to reraise'))
        v = self.force(self.eval(s.exc, sc))
        if s.cause is not None:
            self.eval(s.cause, sc)
        if isinstance(v, Cls):
            v = self.call(v, [])
        if isinstance(v, Ext):
            v = self.exc('Exception', v.path)
        if not isinstance(v, Inst):
            return Out('raise', self.exc('TypeError', 'exceptions must derive from BaseException'))
        if not hasattr(v, 'where'):
            v.where = self.site()
        return Out('raise', v)

    handling = ()

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.import_name(a.name)
            if a.asname:
                self.store_name(a.asname, m, sc)
            else:
                self.store_name(a.name.split('.')[0], self.load(a.name.split('.')[0]), sc)
        return NORMAL

    def s_ImportFrom(self, s, sc):
        base = s.module or ''
        if s.level:
            pkg = sc_mod(sc).c.get('__package__') or ''
            parts = pkg.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base == '__future__':
            return NORMAL
        m = self.import_name(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Mod):
                    names = m.c.get('__all__')
                    if isinstance(names, Lst):
                        names = list(names.items)
                    elif names is None:
                        names = [k for k in m.c if not k.startswith('_')]
                    for n in names:
                        if n not in m.c:
                            self.throw('AttributeError', 'module has no attribute ' + str(n))
                        self.store_name(n, m.c[n], sc)
                continue
            v = MISSING
            if isinstance(m, Mod):
                v = m.c.get(a.name, MISSING)
                if v is MISSING and m.path is None and getattr(m, 'dyn', None):
                    v = m.dyn(self, a.name)
            elif isinstance(m, Ext):
                v = Ext(m.path + '.' + a.name)
            if v is MISSING:
                sub = base + '.' + a.name
                if self.src.path(sub) and sub.split('.')[0] == PKG:
                    v = self.load(sub)
                elif sub in self.extmods:
                    v = self.load(sub)
                elif isinstance(m, Mod) and m.path is None and not getattr(m, 'closed', False):
                    v = Ext(sub)
                else:
                    self.throw('ImportError', 'cannot import name %r from %r' % (a.name, base))
            self.store_name(a.asname or a.name, v, sc)
        return NORMAL

    def s_FunctionDef(self, s, sc):
        f = self.make_fn(s, sc)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, sc), [f])
        self.store_name(s.name, f, sc)
        return NORMAL

    s_AsyncFunctionDef = None

    def make_fn(self, s, sc):
        a = s.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = {k.arg: self.eval(d, sc) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        enc = sc
        while enc is not None and enc.kind == 'class':
            enc = enc.parent
        f = Fn(s, enc, sc_mod(sc), getattr(s, 'name', '<lambda>'), defaults, kwd)
        f.qual = (sc.c.get('$qual', '') + '.' if sc.kind == 'class' else '') + f.name
        if isinstance(s, ast.FunctionDef):
            f.c['__name__'] = s.name
            f.c['__doc__'] = ast.get_docstring(s)
        f.c['__module__'] = sc_mod(sc).name
        return f

    def s_ClassDef(self, s, sc):
        bases = [self.force(self.eval(b, sc)) for b in s.bases]
        body = Scope(sc, sc_mod(sc), 'class')
        body.c['$qual'] = s.name
        cls = Cls(s.name, [b for b in bases if isinstance(b, Cls)], sc_mod(sc), s)
        for b in bases:
            if not isinstance(b, Cls):
                cls.flags['unknown_base'] = repr(b)
        ckw = {}
        for kw in s.keywords:
            v = self.eval(kw.value, sc)
            if kw.arg == 'metaclass':
                cls.meta = v
            elif kw.arg is not None:
                ckw[kw.arg] = v
        body.clsobj = cls
        o = self.exec_block(s.body, body)
        if o is not NORMAL:
            if kinds(o) == {'raise'}:
                return o
            raise Bail('conditional class body')
        for k, v in body.c.items():
            if k in ('$qual',):
                continue
            cls.c[k] = v
            f = v
            while isinstance(f, (Static, ClsMethod, Prop)):
                f = f.f if not isinstance(f, Prop) else f.fget
            if isinstance(f, Fn):
                f.cls = cls
        cls.c['__name__'] = s.name
        cls.c.setdefault('__doc__', ast.get_docstring(s))
        for k, v in list(cls.c.items()):
            if isinstance(v, Inst):
                sn, _ = v.cls.lookup('__set_name__')
                if sn is not None:
                    self.call(Bound(sn, v), [cls, k])
        for b in cls.mro()[1:]:
            if '__init_subclass__' in b.c:
                hook = b.c['__init_subclass__']
                while isinstance(hook, (ClsMethod, Static)):
                    hook = hook.f
                self.call(hook, [cls], ckw)
                break
        if any(b.flags.get('enum') for b in cls.mro()[1:]):
            self.py.make_enum(self, cls)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, sc), [v])
        self.store_name(s.name, v, sc)
        return NORMAL

    def s_If(self, s, sc):
        c = self.truth(self.eval(s.test, sc))
        d = c if isinstance(c, bool) else self.decide(c)
        if d is True:
            return self.exec_block(s.body, sc)
        if d is False:
            return self.exec_block(s.orelse, sc)
        return self.gated(c, lambda: self.exec_block(s.body, sc), lambda: self.exec_block(s.orelse, sc))

    def s_Match(self, s, sc):
        """Desugared to an if chain over the value of the subject."""
        r = _match.get(s)
        if r is None:
            name = '$match%d' % s.lineno
            subj = ast.Name(name, ast.Load())
            chain = []
            for case in reversed(s.cases):
                tests = match_tests(case.pattern, subj)
                if case.guard is not None:
                    tests.append(case.guard)
                test = tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests) if tests else ast.Constant(True)
                chain = [ast.If(test, case.body, chain)]
            for st in chain:
                for x in ast.walk(st):
                    if not hasattr(x, 'lineno'):
                        x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = s.lineno, 0, s.lineno, 0
            r = _match[s] = (name, chain)
        name, chain = r
        self.bind(ast.Name(name, ast.Store()), self.eval(s.subject, sc), sc)
        return self.exec_block(chain, sc)

    def gated(self, c, f1, f2):
        """Gated execution of two thunks returning outcomes."""
        r1, d1 = self.collect(f1, c)
        r2, d2 = self.collect(f2, T.not_(c))
        if isinstance(r1, PyRaise):
            r1 = Out('raise', r1.exc)
        if isinstance(r2, PyRaise):
            r2 = Out('raise', r2.exc)
        k1, k2 = kinds(r1), kinds(r2)
        if k1 == {'raise'} and 'raise' not in k2:
            # the state of an aborted path is observed by handlers only
            pass
        self.merge_diffs(c, d1, d2)
        return mkcond(c, r1, r2)

    def s_While(self, s, sc):
        for n in range(400):
            c = self.truth(self.eval(s.test, sc))
            d = c if isinstance(c, bool) else self.decide(c)
            if d is None:
                raise Bail('while loop with symbolic condition')
            if not d:
                return self.exec_block(s.orelse, sc)
            o = self.exec_block(s.body, sc)
            ks = kinds(o)
            if ks <= {'normal', 'cont'}:
                continue
            if ks == {'break'}:
                return NORMAL
            if ks <= {'ret', 'raise'}:
                return o
            raise Bail('conditional exit from while loop')
        raise Bail('while loop bound')

    def s_For(self, s, sc):
        items = self.iterate(self.eval(s.iter, sc))
        o = self.run_items(items, lambda v: self.bind(s.target, v, sc), lambda: self.exec_block(s.body, sc))
        if o is NORMAL:
            return self.exec_block(s.orelse, sc) if s.orelse else NORMAL
        if o == 'broke':
            return NORMAL
        return o

    def run_items(self, items, bind, body):
        for n, it in enumerate(items):
            if isinstance(it, Seg):
                if it.dim.op == 'num' and it.dim.args[0] == 1 and it.cond is not T.TRUE:
                    # conditional single item
                    v = vsubst(it.val, {it.ix: T.num(0)})

                    def one():
                        bind(v)
                        return body()
                    o = self.gated(it.cond, one, lambda: NORMAL)
                else:
                    o = self.sym_loop(it, bind, body)
            else:
                bind(it)
                o = body()
            ks = kinds(o)
            if ks <= {'normal', 'cont'}:
                continue
            if ks == {'break'}:
                return 'broke'
            if ks <= {'ret', 'raise'}:
                return o
            # mixed: the remaining iterations run only where the loop goes on
            ncond = T.FALSE
            bcond = T.FALSE
            for c, lf in leaves(o):
                if lf.kind in ('normal', 'cont'):
                    ncond = T.or_(ncond, c)
                if lf.kind == 'break':
                    bcond = T.or_(bcond, c)
            r, diff = self.collect(lambda: self.run_items(items[n + 1:], bind, body), ncond)
            if isinstance(r, PyRaise):
                r = Out('raise', r.exc)
            self.merge_diffs(ncond, diff, {})
            if r == 'broke':
                r = NORMAL
            o = replace_leaf(o, 'cont', r)
            o = replace_leaf(o, 'normal', r)
            return replace_leaf(o, 'break', NORMAL)
        return NORMAL

    # ---- loops over an axis of unknown length
    loops = ()
    missed = frozenset()

    def sym_loop(self, seg, bind, body):
        """Summarise `for v in seg: body` by solving the recurrences of the state."""
        ix = T.fresh_idx('k')
        val = vsubst(seg.val, {seg.ix: ix})
        cond = T.subst(seg.cond, {seg.ix: ix})
        dim = seg.dim

        def once():
            old = self.loops
            self.loops = old + ((ix, dim),)
            try:
                if cond is T.TRUE:
                    bind(val)
                    return body()

                def one():
                    bind(val)
                    return body()
                return self.gated(cond, one, lambda: NORMAL)
            finally:
                self.loops = old
        nev = len(self.events)
        outer, self.missed = self.missed, set()
        r, diff = self.collect(once)
        missed, self.missed = self.missed, outer | self.missed
        del self.events[nev:]
        if isinstance(r, PyRaise):
            raise r
        if not kinds(r) <= {'normal', 'cont', 'raise'}:
            raise Bail('early exit from a loop of unknown length')
        # holes for the state carried around the loop
        mods = [(c, k, v) for c, k, v in diff.values() if v is not c.get(k, MISSING)]
        peel = [1 for c, k, v in mods if v is not None and
                (c.get(k, MISSING) is None or (isinstance(c.get(k, MISSING), bool) and isinstance(v, bool)))]
        for c, k, v in mods:
            if c.get(k, MISSING) is MISSING and isinstance(k, (Key, Str)):
                raise Bail('dictionary filled in a loop of unknown length')
            if c.get(k, MISSING) is MISSING and (id(c), k) in missed:
                peel = [1]
        if peel:
            return self.peel_loop(seg, bind, body)
        holes = {}
        mark = len(self.trail)
        kdt = {}
        for c, k, v in mods:
            v0 = c.get(k, MISSING)
            h = self.make_hole(v0, v, ix)
            if h is not None:
                holes[(id(c), k)] = (v0, h)
                self.assign(c, k, h[1])
        r, diff2 = self.collect(once)
        self.undo(mark)
        if isinstance(r, PyRaise):
            raise r
        for key, (c, k, v) in diff2.items():
            if key not in diff and v is not c.get(k, MISSING):
                raise Bail('loop state changes shape')
        news = []
        for key, (c, k, v) in diff2.items():
            v0 = c.get(k, MISSING)
            if v is v0:
                continue
            if key in holes:
                news.append((c, k, self.solve(holes[key][1], v0, v, ix, dim, cond)))
            elif v0 is MISSING or not self.has_hole(v):
                if k == 'items' and isinstance(v, tuple):
                    raise Bail('list rebuilt in loop')
                if cond is not T.TRUE:
                    if v0 is MISSING:
                        continue
                    raise Bail('conditional last value')
                if self.has_hole(v):
                    # loop-local that mentions carried state: dead after the loop
                    news.append((c, k, MISSING))
                else:
                    news.append((c, k, self.last(v, ix, dim)))
            else:
                raise Bail('loop-carried state of kind %s' % type(v0).__name__)
        for c, k, v in news:
            self.assign(c, k, v)
        out = NORMAL
        for c, lf in leaves(r):
            if lf.kind == 'raise':
                if T.has_top(c):
                    raise Bail('exception depends on loop state')
                any_ = T.red('any', ix, dim, c) if ix in T.free(c) else c
                e = lf.v
                if c is T.TRUE:
                    raise PyRaise(e)
                self.pend(any_, e)
        return out

    def last(self, v, ix, dim):
        return vsubst(v, {ix: self.norm_dim(T.add(dim, T.num(-1)))})

    def peel_loop(self, seg, bind, body):
        """First iteration separately (accumulators starting as None)."""
        first = vsubst(seg.val, {seg.ix: T.num(0)})
        if seg.cond is not T.TRUE:
            raise Bail('peeling a filtered loop')
        bind(first)
        o = body()
        if not kinds(o) <= {'normal', 'cont'}:
            raise Bail('early exit in the first iteration')
        rest = self.norm_dim(T.add(seg.dim, T.num(-1)))
        k = T.fresh_idx('k')
        if rest.op == 'num' and rest.args[0] == 0:
            return NORMAL
        s2 = Seg(rest, k, vsubst(seg.val, {seg.ix: T.add(k, T.num(1))}))
        return self.sym_loop(s2, bind, body)

    def make_hole(self, v0, v1, ix):
        if v0 is MISSING:
            return None
        h = T.mk('hole', T.fresh_idx('h').args[0])
        if isinstance(v0, T.Term):          # buffer body: index terms filled in by the caller
            name = T.fresh_idx('h').args[0]
            fr = sorted((x for x in T.free(v0) | T.free(v1) if x is not ix), key=lambda x: x.args[0])
            return ('term', T.mk('hole', name, *fr))
        if isnum(v0) and isnum(v1):
            d0, d1 = dt_of(v0), dt_of(v1)
            return ('num', Sc(h, d0 if d0 == d1 else promote(d0, d1)))
        if isnum(v0) and isinstance(v1, Arr):
            # scalar accumulator broadcast to an array by the first iteration
            hh = T.mk('hole', h.args[0], *v1.ixs)
            return ('arr', new_arr(v1.dims, v1.ixs, hh, v1.dt))
        if isinstance(v0, Arr) and isinstance(v1, Arr):
            if len(v0.dims) > len(v1.dims):
                raise Bail('array accumulator changes rank')
            hh = T.mk('hole', h.args[0], *v1.ixs)
            return ('arr', new_arr(v1.dims, v1.ixs, hh, promote(v0.dt, v1.dt)))
        if isinstance(v0, tuple) and isinstance(v1, tuple):
            return ('items', (HoleItem(h.args[0]),))
        if isinstance(v0, Str) or isinstance(v0, str):
            return None
        return None

    def has_hole(self, v):
        if isinstance(v, T.Term):
            return any(x.op == 'hole' for x in T.walk(v))
        if isinstance(v, Sc):
            return self.has_hole(v.t)
        if isinstance(v, Arr):
            return self.has_hole(v.body) or any(self.has_hole(b) for b in v.bix)
        if isinstance(v, tuple):
            return any(isinstance(x, HoleItem) or self.has_hole(x) for x in v)
        if isinstance(v, Seg):
            return self.has_hole(v.val) or self.has_hole(v.cond)
        if isinstance(v, (Lst, SetV, Tup)):
            return self.has_hole(tuple(v.items))
        if isinstance(v, Choice):
            return any(self.has_hole(x) or self.has_hole(c) for c, x in v.alts)
        if isinstance(v, Dct):
            return any(self.has_hole(x) for x in v.c.values())
        return False

    def solve(self, hole, v0, v, ix, dim, cond):
        kind = hole[0]
        if kind == 'items':
            if not v or not isinstance(v[0], HoleItem) or any(self.has_hole(x) for x in v[1:]):
                raise Bail('list changed other than by appending')
            new = v[1:]
            if not new:
                return v0
            if len(new) > 1:
                raise Bail('several appends per iteration')
            it = new[0]
            c = T.TRUE
            if isinstance(it, Seg):
                if it.dim.op == 'num' and it.dim.args[0] == 1:
                    c = it.cond
                    it = vsubst(it.val, {it.ix: T.num(0)})
                else:
                    raise Bail('nested runs')
            if v0 and c is T.TRUE and not isinstance(v0[-1], (Seg, HoleItem)):
                # a peeled first iteration
                if same_value(vsubst(it, {ix: T.num(-1)}), v0[-1]):
                    k2 = T.fresh_idx('k')
                    return v0[:-1] + (Seg(self.norm_dim(T.add(dim, T.num(1))), k2,
                                          vsubst(it, {ix: T.add(k2, T.num(-1))})),)
            return v0 + (Seg(dim, ix, it, c),)
        if kind == 'num':
            if isinstance(v, Arr):
                raise Bail('accumulator changes rank in loop')
            if not isnum(v):
                raise Bail('accumulator changes type in loop')
            t = self.solve_term(term_of(v), hole[1].t, term_of(v0), ix, dim)
            d0, d1 = dt_of(v0), dt_of(v)
            return Sc(t, d1 if d0 == d1 else promote(d0, d1))
        if kind == 'term':
            h = hole[1]
            t = self.solve_term(v, h, v0, ix, dim)
            return t
        if kind == 'arr':
            if not isinstance(v, Arr):
                raise Bail('accumulator changes type in loop')
            hv = hole[1]
            if len(v.dims) != len(hv.dims):
                raise Bail('accumulator changes shape in loop')
            h = T.mk('hole', hv.buf.c['body'].args[0], *v.ixs)
            if isnum(v0):
                b0 = term_of(v0)
            else:
                off = len(v.dims) - len(v0.dims)
                b0 = v0.at([T.num(0) if v0.dims[j].op == 'num' and v0.dims[j].args[0] == 1 else v.ixs[off + j]
                            for j in range(len(v0.dims))])
            t = self.solve_term(v.body, h, b0, ix, dim)
            return new_arr(v.dims, v.ixs, t, promote(dt_of(v0), v.dt))
        raise Bail('loop state')

    def solve_term(self, new, h, init, ix, dim):
        if new is h:
            return init
        f = self.classify(new, h, ix)
        if f is None:
            raise Bail('recurrence not solved: %s' % T.show(new)[:200])
        op, g = f
        if op == 'store':
            c, val, bases = g
            m = {}
            conds = T.TRUE
            b, e = bases          # base index expr == ix (e solved for ix)
            val = T.subst(val, {ix: e})
            val = self.fill(val, h, init)
            if any(x.op == 'hole' and x.args[0] == h.args[0] for x in T.walk(val)):
                raise Bail('store depends on other positions')
            rng = T.and_(T.le(T.num(0), e), T.lt(e, dim))
            return T.ite(T.and_(self.range_true(rng, e, dim), T.subst(c, {ix: e})), val, init)
        if op == 'last':
            return T.subst(g, {ix: self.norm_dim(T.add(dim, T.num(-1)))})
        if op == 'keep':
            return init
        if op in ('sum', 'prod') and T.subst(g, {ix: T.num(-1)}) is init:
            # the initial value is the term of a peeled first iteration
            k2 = T.fresh_idx('k')
            return T.red(op, k2, self.norm_dim(T.add(dim, T.num(1))), T.subst(g, {ix: T.add(k2, T.num(-1))}))
        if op == 'sum':
            return T.add(init, T.red('sum', ix, dim, g)) if not (init.op == 'num' and init.args[0] == 0) else \
                T.red('sum', ix, dim, g)
        if op == 'prod':
            return T.mul(init, T.red('prod', ix, dim, g)) if not (init.op == 'num' and init.args[0] == 1) else \
                T.red('prod', ix, dim, g)
        if op in ('min', 'max'):
            r = T.red(op, ix, dim, g)
            return T.ite(T.le(init, r) if op == 'min' else T.le(r, init), init, r)
        if op == 'any':
            return T.or_(init, T.red('any', ix, dim, g))
        if op == 'all':
            return T.and_(init, T.red('all', ix, dim, g))
        raise Bail('recurrence')

    def range_true(self, rng, e, dim):
        if e.op == 'idx':
            d = self.ixdim.get(e)
            if d is not None and self.dim_eq(d, dim):
                return T.TRUE
        return rng

    @property
    def ixdim(self):
        return IXDIM

    def fill(self, t, h, init):
        """Replace the hole at its own position by the initial value."""
        return T.subst(t, {h: init})

    def mentions(self, t, h):
        return any(x.op == 'hole' and x.args[0] == h.args[0] for x in T.walk(t))

    def classify(self, new, h, ix):
        """-> (op, operand) such that new = h op operand."""
        M = lambda t: self.mentions(t, h)
        if new is h:
            return ('keep', None)
        if any(x.op == 'hole' and x.args[0] != h.args[0] for x in T.walk(new)):
            return None
        if not M(new):
            return ('last', new)
        o = new.op
        if o == 'add':
            hs = [a for a in new.args if M(a)]
            rest = [a for a in new.args if not M(a)]
            if len(hs) == 1:
                if hs[0] is h:
                    return ('sum', T.add(*rest) if len(rest) > 1 else rest[0])
                f = self.classify(hs[0], h, ix)
                if f and f[0] == 'sum':
                    return ('sum', T.add(f[1], *rest))
            return None
        if o == 'mul':
            hs = [a for a in new.args if M(a)]
            rest = [a for a in new.args if not M(a)]
            if len(hs) == 1:
                r = T.mul(*rest) if len(rest) > 1 else rest[0]
                if hs[0] is h:
                    return ('prod', r)
                f = self.classify(hs[0], h, ix)
                if f and f[0] == 'prod':
                    return ('prod', T.mul(f[1], r))
            return None
        if o == 'div' and not M(new.args[1]):
            inv = T.div(T.num(1), new.args[1])
            if new.args[0] is h:
                return ('prod', inv)
            f = self.classify(new.args[0], h, ix)
            if f and f[0] == 'prod':
                return ('prod', T.mul(f[1], inv))
            return None
        if o == 'cast':
            f = self.classify(new.args[1], h, ix)
            return f
        if o == 'or':
            a, b = new.args
            if a is h and not M(b):
                return ('any', b)
            if b is h and not M(a):
                return ('any', a)
        if o == 'and':
            a, b = new.args
            if a is h and not M(b):
                return ('all', b)
            if b is h and not M(a):
                return ('all', a)
        if o == 'ite':
            c, a, b = new.args
            if not M(c):
                st = self.store_cond(c, ix)
                if st is not None and b is h:
                    rest, base = st
                    return ('store', (rest, a, base))
                st = self.store_cond(T.not_(c), ix)
                if st is not None and a is h:
                    rest, base = st
                    return ('store', (rest, b, base))
                fa, fb = self.classify(a, h, ix), self.classify(b, h, ix)
                if fa is None or fb is None:
                    return None
                neutral = {'sum': T.num(0), 'prod': T.num(1), 'any': T.FALSE, 'all': T.TRUE}
                for op in ('sum', 'prod', 'any', 'all'):
                    if {fa[0], fb[0]} <= {op, 'keep'}:
                        return (op, T.ite(c, fa[1] if fa[0] == op else neutral[op],
                                          fb[1] if fb[0] == op else neutral[op]))
                return None
            if c.op in ('lt', 'le'):
                x, y = c.args
                if {x, y} == {a, b} and h in (a, b):
                    other = a if b is h else b
                    if M(other):
                        return None
                    small_is_a = x is a
                    return ('min' if small_is_a else 'max', other)
            if c.op == 'not':
                return self.classify(T.ite(c.args[0], b, a), h, ix)
            if c is h and T.is_bool(a) and T.is_bool(b):
                if a is h or a is T.TRUE:
                    return ('any', b) if not M(b) else None
                if b is h or b is T.FALSE:
                    return ('all', a) if not M(a) else None
        return None

    def store_cond(self, c, ix):
        """c == rest & (e == ix) -> (rest, (base, e))."""
        conj = []

        def flat(x):
            if x.op == 'and':
                flat(x.args[0])
                flat(x.args[1])
            else:
                conj.append(x)
        flat(c)
        for x in conj:
            if x.op == 'eq':
                for a, b in (x.args, x.args[::-1]):
                    e = self.solve_ix(a, b, ix)
                    if e is not None:
                        rest = T.TRUE
                        for y in conj:
                            if y is not x:
                                rest = T.and_(rest, y)
                        return rest, (None, e)
        return None

    def solve_ix(self, a, b, ix):
        """Solve a == b for ix where b is ix, or ix + const."""
        if ix in T.free(a):
            return None
        if b is ix:
            return a
        if b.op == 'add' and ix in b.args and all(x is ix or ix not in T.free(x) for x in b.args) and \
                sum(1 for x in b.args if x is ix) == 1:
            return T.add(a, *[T.neg(x) for x in b.args if x is not ix])
        return None

    # ---- try / with
    def s_Try(self, s, sc):
        # effects of a partly executed body stay visible to the handlers
        try:
            o = self.try_body(s, sc)
        except PyRaise as e:
            if not s.finalbody:
                raise
            o = Out('raise', e.exc)
        if s.finalbody:
            f = self.exec_block(s.finalbody, sc)
            if f is not NORMAL:
                if 'normal' not in kinds(f):
                    return f
                return replace_leaf(f, 'normal', o)
        return o

    def try_body(self, s, sc):
        try:
            o = self.exec_block(s.body, sc)
        except PyRaise as e:
            o = Out('raise', e.exc)
        return self.after_body(o, s, sc)

    def after_body(self, o, s, sc):
        if o.kind == 'cond':
            return self.gated(o.v, lambda: self.after_body(o.a, s, sc), lambda: self.after_body(o.b, s, sc))
        if o.kind == 'normal':
            return self.exec_block(s.orelse, sc) if s.orelse else o
        if o.kind != 'raise':
            return o
        e = o.v
        for h in s.handlers:
            m = self.matches(e, h, sc)
            if m is None:
                raise Bail('cannot resolve the exception classes of a handler')
            if m:
                self.event('caught', exc=e, handler=h)
                old = self.handling
                self.handling = tuple(old) + (e,)
                try:
                    if h.name:
                        self.store_name(h.name, e, sc)
                    return self.exec_block(h.body, sc)
                finally:
                    self.handling = old
        return o

    def matches(self, e, h, sc):
        if h.type is None:
            return True
        t = self.force(self.eval(h.type, sc))
        ts = t if isinstance(t, tuple) else (t,)
        res = False
        for c in ts:
            c = self.force(c)
            if isinstance(c, Cls):
                if e.cls.issub(c):
                    return True
            else:
                res = None
        return res

    def s_With(self, s, sc):
        return self.with_items(list(s.items), s.body, sc)

    def with_items(self, items, body, sc):
        if not items:
            return self.exec_block(body, sc)
        it = items[0]
        m = self.force(self.eval(it.context_expr, sc))
        if isinstance(m, Inst) and m.cls.lookup('__enter__')[0] is not None:
            v = self.call(self.getattr(m, '__enter__'), [])
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, sc)
            try:
                o = self.with_items(items[1:], body, sc)
            except PyRaise as e:
                o = Out('raise', e.exc)
            return self.exit_out(m, o)
        if isinstance(m, (Ext, Native, Host)) or m is None:
            if it.optional_vars is not None:
                self.bind(it.optional_vars, Ext('ctx'), sc)
            return self.with_items(items[1:], body, sc)
        raise Bail('context manager %r' % (m,))

    def exit_out(self, m, o):
        """The outcome of a with body, after __exit__."""
        if o.kind == 'cond':
            return self.gated(o.v, lambda: self.exit_out(m, o.a), lambda: self.exit_out(m, o.b))
        if o.kind != 'raise':
            self.call(self.getattr(m, '__exit__'), [None, None, None])
            return o
        r = self.truth(self.call(self.getattr(m, '__exit__'), [o.v.cls, o.v, None]))
        if r is True:
            self.event('caught', exc=o.v, handler=None)
            return NORMAL
        if r is not False:
            raise Bail('a context manager that may swallow the exception')
        return o

    # ------------------------------------------------------------ binding
    def bind(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if isinstance(v, Choice):
                alts = [x for _, x in v.alts]
                if all(isinstance(x, tuple) and len(x) == len(alts[0]) for x in alts):
                    v = tuple(self.choice([(c, x[i]) for c, x in v.alts]) for i in range(len(alts[0])))
            items = self.iterate(v)
            if any(isinstance(x, Seg) for x in items):
                raise Bail('unpacking a sequence of unknown length')
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                rest = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.bind(e, x, sc)
                self.bind(t.elts[i].value, Lst(items[i:len(items) - rest]), sc)
                for e, x in zip(t.elts[i + 1:], items[len(items) - rest:]):
                    self.bind(e, x, sc)
                return
            if len(items) != len(t.elts):
                self.throw('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.bind(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.eval_index(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, sc)
        else:
            raise Bail('binding target')

    def scope_of(self, name, sc):
        if name in sc.globals_:
            return sc_mod(sc).c
        if name in sc.nonlocals:
            p = sc.parent
            while p is not None and name not in p.c:
                p = p.parent
            if p is not None:
                return p.c
        return sc.c

    def store_name(self, name, v, sc):
        if sc.kind == 'comp' and False:
            pass
        self.assign(self.scope_of(name, sc), name, v)

    def lookup(self, name, sc):
        v = self.find(name, sc)
        if v is MISSING:
            self.throw('UnboundLocalError' if sc.kind == 'func' and name in getattr(sc, 'locals', ()) else 'NameError',
                       "name '%s' is not defined" % name)
        if isinstance(v, Choice) and any(x is MISSING for _, x in v.alts):
            miss = T.FALSE
            for c, x in v.alts:
                if x is MISSING:
                    miss = T.or_(miss, c)
            d = self.decide(miss)
            if d is True:
                self.throw('UnboundLocalError', name)
            if d is None:
                self.pend(miss, self.exc('UnboundLocalError', name))
            alts = [(c, x) for c, x in v.alts if x is not MISSING]
            return alts[0][1] if len(alts) == 1 else Choice(alts)
        return self.force(v)

    def find(self, name, sc):
        s = sc
        if name in sc.globals_:
            s = None
        first = True
        while s is not None:
            if s.kind == 'func' and name in getattr(s, 'locals', ()) and name not in s.c and \
                    name not in s.globals_ and name not in s.nonlocals:
                return MISSING
            if name in s.c and (s.kind != 'class' or first):
                return s.c[name]
            if s.kind != 'comp':
                first = False
            s = s.parent
        m = sc_mod(sc)
        if name in m.c:
            return m.c[name]
        return self.builtins.get(name, MISSING)

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        self.steps -= 1
        if self.steps < 0:
            raise Bail('analysis budget exhausted')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Bail('expression %s' % type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            self.event('literal', value=v, node=e)
            return Sc(T.num(v), 'pf')
        if isinstance(v, complex):
            raise Bail('complex number')
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.kind == 'comp':
            s = s.parent
        self.store_name(e.target.id, v, s)
        return v

    def e_Tuple(self, e, sc):
        items = self.elts(e.elts, sc)
        if any(isinstance(x, Seg) for x in items):
            return Tup(items)
        return tuple(items)

    def e_List(self, e, sc):
        return Lst(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return SetV(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, sc))
                self.py.dict_update(self, d, o)
            else:
                kk = self.eval(k, sc)
                self.py.dict_set(self, d, kk, self.eval(v, sc))
        return d

    def e_Lambda(self, e, sc):
        f = self.make_fn(e, sc)
        return f

    def e_IfExp(self, e, sc):
        c = self.truth(self.eval(e.test, sc))
        if c is True:
            return self.eval(e.body, sc)
        if c is False:
            return self.eval(e.orelse, sc)
        return self.branch(c, lambda: self.eval(e.body, sc), lambda: self.eval(e.orelse, sc))

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], sc)
            if i == len(e.values) - 1:
                return v
            return self.distribute(v, lambda v: step(v, i))

        def step(v, i):
            c = self.truth(v)
            if isinstance(c, bool):
                return go(i + 1) if c == is_and else v
            if is_and:
                return self.branch(c, lambda: go(i + 1), lambda: self.falsy(v))
            return self.branch(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def falsy(self, v):
        if isinstance(v, Sc) and T.is_bool(v.t):
            return False
        return v

    def e_UnaryOp(self, e, sc):
        v = self.force(self.eval(e.operand, sc))
        op = type(e.op).__name__
        return self.unary(op, v)

    def unary(self, op, v):
        if isinstance(v, Choice):
            return self.distribute(v, lambda x: self.unary(op, x))
        if op == 'Not':
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else Sc(T.not_(c), 'pb')
        if isinstance(v, Arr):
            return self.np.unary(self, op, v)
        if isinstance(v, (int, Sc)):
            if isinstance(v, int):
                return -v if op == 'USub' else ~v if op == 'Invert' else +v
            if op == 'USub':
                return Sc(T.neg(v.t), v.dt if v.dt not in ('pb', 'b') else 'pi')
            if op == 'UAdd':
                return v
            if op == 'Invert' and (v.dt == 'b'):
                return Sc(T.not_(v.t), 'b')
        if isinstance(v, Inst):
            d, _ = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if d is not None:
                return self.call(Bound(d, v), [])
        if isinstance(v, Ext):
            return Ext('%s(%s)' % (op, v.path))
        if isinstance(v, (type(None), str, Str, tuple, Lst, Dct)):
            self.throw('TypeError', 'bad operand type for unary operator')
        raise Bail('unary %s on %r' % (op, v))

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Choice):
            return self.distribute(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return self.distribute(b, lambda x: self.binop(op, a, x))
        return self.py.binop(self, op, a, b)

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = None

        def go(left, i):
            right = self.eval(e.comparators[i], sc)
            r = self.compare(type(e.ops[i]).__name__, left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            if c is False:
                return r
            if c is True:
                return go(right, i + 1)
            return self.branch(c, lambda: go(right, i + 1), lambda: False)
        return go(left, 0)

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Choice):
            return self.distribute(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.distribute(b, lambda x: self.compare(op, a, x))
        return self.py.compare(self, op, a, b)

    def e_Call(self, e, sc):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and \
                self.find('super', sc) is self.builtins.get('super'):
            s = sc
            while s is not None and not hasattr(s, 'selfobj'):
                s = s.parent
            if s is None:
                raise Bail('super() outside a method')
            return Super(s.fn.cls, s.selfobj)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars', 'globals') and not e.args:
            if e.func.id == 'globals':
                d = Dct()
                d.c = sc_mod(sc).c
                return d
            d = Dct()
            d.c = Cell(sc.c)
            return d
        f = self.eval(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                its = self.iterate(self.eval(a.value, sc))
                if any(isinstance(x, Seg) for x in its):
                    args.append(StarRun(its))
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a, sc))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                v = self.force(v)
                if isinstance(v, Dct):
                    for kk, vv in v.c.items():
                        if not isinstance(kk, str):
                            raise Bail('symbolic keyword')
                        kw[kk] = vv
                elif isinstance(v, Ext):
                    kw['$ext'] = v
                else:
                    raise Bail('** of %r' % (v,))
            else:
                if k.arg in kw:
                    self.throw('TypeError', 'multiple values for keyword argument ' + k.arg)
                kw[k.arg] = v
        if self.stack:
            m, _, fn = self.stack[-1]
            self.stack[-1] = (m, e.lineno, fn)
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.force(f)
        if isinstance(f, Choice):
            return self.distribute(f, lambda x: self.call(x, args, kw))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Native):
            if any(isinstance(a, StarRun) for a in args):
                return self.py.star_call(self, f, list(args), kw)
            return f.f(self, list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, Cls):
            return self.py.instantiate(self, f, list(args), kw)
        if isinstance(f, DType):
            return self.np.dtype_call(self, f, list(args), kw)
        if isinstance(f, (Static, ClsMethod)):
            return self.call(f.f, args, kw)
        if isinstance(f, Inst):
            c, _ = f.cls.lookup('__call__')
            if c is not None:
                return self.call(Bound(c, f), args, kw)
            self.throw('TypeError', '%r object is not callable' % f.cls.name)
        if isinstance(f, Host):
            g = f.get(self, '__call__')
            if g is not MISSING:
                return self.call(g, args, kw)
            self.throw('TypeError', 'object is not callable')
        if isinstance(f, Ext):
            return self.ext_call(f, args, kw)
        if f is None or isinstance(f, (str, Str, int, tuple, Lst, Dct, Arr, Sc, Mod)):
            self.throw('TypeError', 'object is not callable')
        raise Bail('call of %r' % (f,))

    def ext_call(self, f, args, kw):
        self.event('extcall', path=f.path, args=args, kw=kw)
        for a in list(args) + list(kw.values()):
            if isinstance(a, Arr):
                self.np.escape(self, a, f.path)
        return Ext(f.path + '()')

    def call_fn(self, f, args, kw):
        node = f.node
        a = node.args
        if any(isinstance(x, StarRun) for x in args):
            # starred run of unknown length: only into *args
            flat = []
            for x in args:
                if isinstance(x, StarRun):
                    flat.extend(x.items)
                else:
                    flat.append(x)
            args = flat
        sc = Scope(f.scope, f.mod, 'func')
        sc.fn = f
        sc.locals = fn_locals(node)
        pos = [x.arg for x in a.posonlyargs + a.args]
        if args and f.cls is not None and pos and not any(isinstance(x, Seg) for x in args[:1]):
            sc.selfobj = args[0]
        kw = dict(kw)
        kw.pop('$ext', None)
        n = min(len(args), len(pos))
        if any(isinstance(x, Seg) for x in args[:n]):
            raise Bail('starred call with unknown length')
        for k, v in zip(pos, args):
            sc.c[k] = v
        extra = args[n:]
        if a.vararg:
            sc.c[a.vararg.arg] = Tup(extra) if any(isinstance(x, Seg) for x in extra) else tuple(extra)
        elif extra:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in pos[len(a.posonlyargs):] or k in kwonly:
                if k in sc.c:
                    self.throw('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                sc.c[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            d = Dct()
            d.c.update(rest)
            sc.c[a.kwarg.arg] = d
        elif rest:
            self.throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, next(iter(rest))))
        nd = len(f.defaults)
        for i, k in enumerate(pos):
            if k not in sc.c:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw('TypeError', '%s() missing required argument %r' % (f.name, k))
                sc.c[k] = f.defaults[j]
        for k in kwonly:
            if k not in sc.c:
                if k not in f.kwdefaults:
                    self.throw('TypeError', '%s() missing keyword argument %r' % (f.name, k))
                sc.c[k] = f.kwdefaults[k]
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Bail('recursion too deep')
        self.stack.append((f.mod.name, node.lineno, getattr(f, 'qual', f.name)))
        self.visited.add((f.mod.name, getattr(f, 'qual', f.name)))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, sc)
            gen = is_gen(node)
            if gen:
                sc.yields = Lst((), 'gen')
            o = self.exec_block(node.body, sc)
        finally:
            self.depth -= 1
            self.stack.pop()
        v = self.outcome_value(o)
        return sc.yields if gen else v

    def outcome_value(self, o):
        rets, raises = [], []
        for c, lf in leaves(o):
            if lf.kind == 'raise':
                raises.append((c, lf.v))
            elif lf.kind == 'ret':
                rets.append((c, lf.v))
            elif lf.kind == 'normal':
                rets.append((c, None))
            else:
                raise Bail('stray ' + lf.kind)
        if not rets:
            for c, e in raises[:-1]:
                self.pend(c, e)
            raise PyRaise(raises[-1][1])
        for c, e in raises:
            self.pend(c, e)
        v = rets[-1][1]
        for c, x in reversed(rets[:-1]):
            v = self.join(c, x, v)
        return v

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value is not None else None
        s = sc
        while not hasattr(s, 'yields'):
            s = s.parent
        self.assign(s.yields.c, 'items', s.yields.items + (v,))
        return None

    def e_YieldFrom(self, e, sc):
        its = self.iterate(self.eval(e.value, sc))
        s = sc
        while not hasattr(s, 'yields'):
            s = s.parent
        self.assign(s.yields.c, 'items', s.yields.items + tuple(its))
        return None

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def getattr(self, o, name, default=MISSING):
        o = self.force(o)
        if isinstance(o, Choice):
            return self.distribute(o, lambda x: self.getattr(x, name, default))
        v = self.py.get_attr(self, o, name)
        if v is MISSING:
            self.py.check_modelled(self, o, name)
            if default is not MISSING:
                return default
            self.throw('AttributeError', '%s has no attribute %r' % (self.py.type_name(o), name))
        return v

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Choice):
            self.distribute(o, lambda x: self.setattr(x, name, v))
            return
        self.py.set_attr(self, o, name, v)

    def eval_index(self, s, sc):
        return self.eval(s, sc)

    def e_Slice(self, e, sc):
        g = lambda x: self.eval(x, sc) if x is not None else None
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        return self.getitem(o, self.eval_index(e.slice, sc))

    def getitem(self, o, ix):
        o = self.force(o)
        if isinstance(o, Choice):
            return self.distribute(o, lambda x: self.getitem(x, ix))
        ix = self.force(ix)
        if isinstance(ix, Choice):
            return self.distribute(ix, lambda x: self.getitem(o, x))
        return self.py.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        o = self.force(o)
        if isinstance(o, Choice):
            self.distribute(o, lambda x: self.setitem(x, ix, v))
            return
        self.py.setitem(self, o, self.force(ix), v)

    def e_Starred(self, e, sc):
        raise Bail('starred expression')

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, sc)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, sc)
                parts.append(self.py.fmt(self, x, spec, v.conversion))
        return mkstr(parts)

    def e_ListComp(self, e, sc):
        return Lst(self.comp(e.generators, lambda s: self.eval(e.elt, s), sc))

    def e_GeneratorExp(self, e, sc):
        return Lst(self.comp(e.generators, lambda s: self.eval(e.elt, s), sc), 'gen')

    def e_SetComp(self, e, sc):
        return SetV(self.py.dedup(self, self.comp(e.generators, lambda s: self.eval(e.elt, s), sc)))

    def e_DictComp(self, e, sc):
        items = self.comp(e.generators, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), sc)
        d = Dct()
        for it in items:
            if isinstance(it, Seg):
                raise Bail('dictionary over an axis of unknown length')
            self.py.dict_set(self, d, it[0], it[1])
        return d

    def comp(self, gens, elt, sc):
        s = Scope(sc, sc_mod(sc), 'comp')
        acc = Lst()

        def rec(i):
            if i == len(gens):
                self.assign(acc.c, 'items', acc.items + (elt(s),))
                return NORMAL
            g = gens[i]
            src = self.iterate(self.eval(g.iter, s if i else sc))

            def body():
                def conds(j):
                    if j == len(g.ifs):
                        return rec(i + 1)
                    c = self.truth(self.eval(g.ifs[j], s))
                    d = c if isinstance(c, bool) else self.decide(c)
                    if d is True:
                        return conds(j + 1)
                    if d is False:
                        return NORMAL
                    return self.gated(c, lambda: conds(j + 1), lambda: NORMAL)
                return conds(0)
            o = self.run_items(src, lambda v: self.bind(g.target, v, s), body)
            if o is not NORMAL and o != 'broke':
                for c, lf in leaves(o):
                    if lf.kind == 'raise':
                        self.pend(c, lf.v)
            return NORMAL
        rec(0)
        return acc.items

    # ------------------------------------------------------------ helpers
    def truth(self, v):
        """True, False or a condition term."""
        v = self.force(v)
        r = self.py.truth(self, v)
        if isinstance(r, T.Term):
            d = self.decide(r)
            return r if d is None else d
        return r

    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, Choice):
            alts = v.alts
            ls = [(c, self.iterate(x)) for c, x in alts]
            n = {len(l) for _, l in ls}
            if len(n) == 1 and not any(isinstance(y, Seg) for _, l in ls for y in l):
                return [self.choice([(c, l[i]) for c, l in ls]) for i in range(n.pop())]
            out = []
            for c, l in ls:
                out.extend(self.guard_item(x, c) for x in l)
            return out
        return self.py.iterate(self, v)


def sc_mod(sc):
    return sc.mod


_loc = {}


_match = {}


def match_tests(p, subj):
    """Test expressions (with bindings) equivalent to matching the expression subj against pattern p."""
    if isinstance(p, ast.MatchValue):
        return [ast.Compare(subj, [ast.Eq()], [p.value])]
    if isinstance(p, ast.MatchSingleton):
        return [ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])]
    if isinstance(p, ast.MatchAs):
        out = match_tests(p.pattern, subj) if p.pattern is not None else []
        if p.name:
            out.append(ast.List([ast.NamedExpr(ast.Name(p.name, ast.Store()), subj)], ast.Load()))
        return out
    if isinstance(p, ast.MatchOr):
        alts = [match_tests(q, subj) for q in p.patterns]
        alts = [a[0] if len(a) == 1 else ast.BoolOp(ast.And(), a) if a else ast.Constant(True) for a in alts]
        return [ast.BoolOp(ast.Or(), alts)]
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        name = lambda n: ast.Name(n, ast.Load())
        out = [ast.Call(name('isinstance'), [subj, ast.Tuple([name('list'), name('tuple')], ast.Load())], []),
               ast.Compare(ast.Call(name('len'), [subj], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
        for i, q in enumerate(p.patterns):
            out += match_tests(q, ast.Subscript(subj, ast.Constant(i), ast.Load()))
        return out
    if isinstance(p, ast.MatchMapping) and p.rest is None:
        out = [ast.Call(ast.Name('isinstance', ast.Load()), [subj, ast.Name('dict', ast.Load())], [])]
        for k, q in zip(p.keys, p.patterns):
            out.append(ast.Compare(k, [ast.In()], [subj]))
            out += match_tests(q, ast.Subscript(subj, k, ast.Load()))
        return out
    if isinstance(p, ast.MatchClass) and not p.patterns:
        out = [ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])]
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            out += match_tests(q, ast.Attribute(subj, a, ast.Load()))
        return out
    raise Bail('pattern %s' % type(p).__name__)


def fn_locals(node):
    r = _loc.get(node)
    if r is None:
        names = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        skip = set()
        if not isinstance(node, ast.Lambda):
            st = list(node.body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, ast.Lambda):
                    continue
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.NamedExpr):
                            names.add(y.target.id)
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        names.add((al.asname or al.name).split('.')[0])
                if isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    skip.update(x.names)
                if isinstance(x, ast.Match):
                    names.add('$match%d' % x.lineno)
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    names.add(x.name)
                st.extend(ast.iter_child_nodes(x))
        r = _loc[node] = names - skip
    return r


_gen = {}


def is_gen(node):
    r = _gen.get(node)
    if r is None:
        r = False
        st = list(node.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(x))
        _gen[node] = r
    return r
