"""Value graph: hash-consed scalar terms in index notation.

An abstract array is (dims, index names, body) where body is one of these terms;
a term describes the value of ONE element as a function of the array's axis
indices and of the leaves (elements of input arrays, symbols).  Building a term
performs no algebra: it records the operations the source performs, so that the
domains evaluated over the graph (normal form, IEEE special values, signs,
units, index dependence) all see the same program.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ('op', 'args', 'id', '_free', '_h')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Term) else ('#', a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_table)
        t._free = None
        _table[key] = t
    return t


def isnum(t):
    return t.op == 'num'


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Fraction):
        if (x.numerator > 99999 or x.numerator < -99999 or x.denominator > 99999) and x.numerator:
            return folded(x)
        return mk('num', x)
    if isinstance(x, int):
        return mk('num', Fraction(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return mk('mul', num(-1), INF)
        return const(x)
    raise TypeError(x)


# Physical constants are recognised by value (CODATA 2018/2014 within 1e-6), so
# the analysis follows them through renaming, folding and other spellings.
KB_VAL = 8.617333262145e-5      # eV/K
H_VAL = 4.135667696923859e-3    # eV/THz
_REL = 1e-6


def folded(x):
    """A constant computed by the source: exact, or a recognised physical constant."""
    try:
        f = float(x)
    except OverflowError:
        return mk('num', x)
    if f == 0 or abs(f) > 1e300:
        return mk('num', x)
    t = const(f)
    if t.op == 'num':
        return mk('num', x)
    seen_consts.append(x)
    return t


seen_consts = []


def const(x):
    """A float literal: exact decimal fraction, or a recognised constant."""
    if x != 0:
        a = abs(x)
        for val, term in _CONSTS:
            r = a / val
            if 1e-40 < r < 1e40:
                import math
                e = round(math.log10(r))
                for mul_ in (1.0, 2.0, 0.5):
                    e = round(math.log10(r / mul_))
                    base = val * mul_ * 10.0 ** e
                    if abs(a / base - 1) < _REL and e % 3 == 0 and abs(e) <= 15:
                        t = term()
                        c = Fraction(mul_) * Fraction(10) ** e
                        if x < 0:
                            c = -c
                        return t if c == 1 else mk('mul', mk('num', c), t)
    return mk('num', Fraction(repr(float(x))))


def _div(a, b):
    return mk('div', a, b)


TRUE = mk('true')
FALSE = mk('false')
INF = mk('inf')
NAN = mk('nan')
KB = mk('sym', 'k_B')
H = mk('sym', 'h')
QE = mk('sym', 'q_e')
_CONSTS = [(KB_VAL, lambda: KB), (H_VAL, lambda: H),
           (1.602176634e-19, lambda: QE), (1.380649e-23, lambda: mk('mul', KB, QE)),
           (6.62607015e-34, lambda: mk('mul', mk('num', Fraction(1, 10 ** 12)), H, QE)),
           (1 / KB_VAL, lambda: _div(mk('num', Fraction(1)), KB)),
           (H_VAL / KB_VAL, lambda: _div(H, KB))]


def sym(name):
    return mk('sym', name)


def dim(name):
    return mk('dim', name)


_fresh = [0]


def fresh_idx(hint='i'):
    _fresh[0] += 1
    return mk('idx', '%s.%d' % (hint, _fresh[0]))


def idx(name):
    return mk('idx', name)


def elem(name, *ix):
    return mk('elem', name, *ix)


def app(name, *args):
    return mk('app', name, *args)


def top(reason=''):
    return mk('top', reason)


def add(*a):
    if all(isnum(x) for x in a):
        return num(sum((x.args[0] for x in a), Fraction(0)))
    return mk('add', *a)


def mul(*a):
    if all(isnum(x) for x in a):
        r = Fraction(1)
        for x in a:
            r *= x.args[0]
        return num(r)
    return mk('mul', *a)


def neg(a):
    if isnum(a):
        return num(-a.args[0])
    return mk('mul', num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if isnum(a) and isnum(b) and b.args[0] != 0:
        return num(a.args[0] / b.args[0])
    return mk('div', a, b)


def power(a, b):
    if isnum(a) and isnum(b) and b.args[0].denominator == 1 and \
            (a.args[0] != 0 or b.args[0] >= 0) and abs(b.args[0]) < 64:
        return num(a.args[0] ** int(b.args[0]))
    return mk('pow', a, b)


def fn(op, a):
    return mk(op, a)


def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk('lt', a, b)


def le(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return mk('le', a, b)


def eq(a, b):
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b and a.op in ('idx', 'dim'):
        return TRUE
    return mk('eq', a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk('and', a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk('or', a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', c, a, b)


def red(op, ix, dimt, body):
    """op in sum, prod, min, max, any, all; ix is an idx term bound in body."""
    return mk('red', op, ix, dimt, body)


def children(t):
    return [a for a in t.args if isinstance(a, Term)]


_BOOL = {'true', 'false', 'lt', 'le', 'eq', 'not', 'and', 'or', 'isnan', 'isinf', 'isfinite'}


def is_bool(t):
    if t.op in _BOOL:
        return True
    if t.op == 'red':
        return t.args[0] in ('any', 'all')
    if t.op == 'ite':
        return is_bool(t.args[1])
    return False


def free(t):
    """Free index names of a term."""
    if t._free is None:
        if t.op == 'idx':
            f = frozenset([t])
        elif t.op == 'red':
            f = (free(t.args[3]) - {t.args[1]}) | free(t.args[2])
        else:
            f = frozenset().union(*[free(a) for a in t.args if isinstance(a, Term)])
        t._free = f
    return t._free


def subst(t, m, memo=None):
    """Substitute terms for index terms (or any leaf terms) in t."""
    if memo is None:
        memo = {}
    if not m:
        return t
    return _subst(t, m, memo, frozenset(k for k in m))


def _subst(t, m, memo, keys):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not any(isinstance(a, Term) for a in t.args):
        r = t
    elif t.op == 'red':
        # bound indices are always globally fresh, so no capture can occur
        r = rebuild(t, [_subst(a, m, memo, keys) if isinstance(a, Term) else a for a in t.args])
    else:
        r = rebuild(t, [_subst(a, m, memo, keys) if isinstance(a, Term) else a for a in t.args])
    memo[t.id] = r
    return r


_CTORS = {'add': add, 'mul': mul, 'div': div, 'pow': power, 'lt': lt, 'le': le, 'eq': eq,
          'not': not_, 'and': and_, 'or': or_, 'ite': ite}


def rebuild(t, args):
    if all(x is y for x, y in zip(args, t.args)) and len(args) == len(t.args):
        return t
    c = _CTORS.get(t.op)
    if c:
        return c(*args)
    return mk(t.op, *args)


def walk(t, seen=None):
    """All distinct subterms."""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(children(x))
    return seen.values()


def has_top(t):
    return any(x.op in ('top', 'hole') for x in walk(t))


def top_reason(t):
    for x in walk(t):
        if x.op == 'top':
            return str(x.args[0])
        if x.op == 'hole':
            return 'unsolved loop recurrence'
    return None


_INFIX = {'add': ' + ', 'mul': '*', 'div': '/', 'pow': '**', 'lt': ' < ', 'le': ' <= ',
          'eq': ' == ', 'and': ' & ', 'or': ' | '}


def show(t, depth=0):
    if depth > 14:
        return '...'
    o = t.op
    s = lambda a: show(a, depth + 1) if isinstance(a, Term) else str(a)
    if o == 'num':
        f = t.args[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if o in ('sym', 'dim'):
        return t.args[0]
    if o == 'idx':
        return t.args[0]
    if o == 'elem':
        return '%s[%s]' % (t.args[0], ','.join(s(a) for a in t.args[1:]))
    if o == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if o in _INFIX:
        return '(' + _INFIX[o].join(s(a) for a in t.args) + ')'
    if o == 'red':
        return '%s{%s<%s}(%s)' % (t.args[0], s(t.args[1]), s(t.args[2]), s(t.args[3]))
    if o == 'ite':
        return 'if(%s ? %s : %s)' % tuple(s(a) for a in t.args)
    if o in ('true', 'false', 'inf', 'nan'):
        return o
    return '%s(%s)' % (o, ', '.join(s(a) for a in t.args))
