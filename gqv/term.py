"""Hash-consed symbolic floating-point expressions ("R" terms).

An R term records, node for node, the floating-point operations the code performs; nothing is simplified when a
term is built, so that the rounding behaviour stays visible.  Its *ideal* meaning is the real number obtained by
doing every operation exactly; `err.py` bounds the distance between that and the machine result.
"""
import struct
from fractions import Fraction
import z3
from . import dog

_tab = {}
_n = [0]


class R:
    __slots__ = ('op', 'a', 'id', '_hash')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, R) else (('z', x.get_id()) if isinstance(x, z3.AstRef) else x) for x in a)
    r = _tab.get(key)
    if r is None:
        r = R()
        r.op = op
        r.a = a
        r.id = ('R', _n[0])
        _n[0] += 1
        _tab[key] = r
    return r


def fbits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bitsf(x):
    return struct.unpack('<d', struct.pack('<Q', x & (2**64-1)))[0]


def const(x):
    if isinstance(x, R):
        return x
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return mk('q', Fraction(x))
    if x != x or x in (float('inf'), float('-inf')):
        return mk('special', fbits(x))
    return mk('c', fbits(x))


def cval(r):
    """Fraction value of a constant node, or None"""
    if r.op == 'c':
        return Fraction(bitsf(r.a[0]))
    if r.op == 'q':
        return r.a[0]
    return None


def var(name):
    return mk('v', name)


def app(f, *args):
    return mk('app', f, *[const(x) for x in args])


def i2r(e):
    if isinstance(e, int):
        return mk('q', Fraction(e))
    return mk('i2r', e)


def show(r, d=0):
    o = r.op
    if o == 'c':
        return repr(bitsf(r.a[0]))
    if o == 'q':
        return str(r.a[0])
    if o == 'special':
        return repr(bitsf(r.a[0]))
    if o == 'v':
        return r.a[0]
    if d > 40:
        return '…'
    if o == 'app':
        return r.a[0] + '(' + ', '.join(show(x, d+1) for x in r.a[1:]) + ')'
    if o == 'i2r':
        return 'real(%s)' % str(r.a[0]).replace('\n', ' ')
    if o in '+-*/':
        return '(' + show(r.a[0], d+1) + ' ' + o + ' ' + show(r.a[1], d+1) + ')'
    if o == 'sum':
        f = r.a[0]
        return 'Sum[%s<%s](%s)' % (f.t, f.T, '; '.join(show(g, d+1) for _, g in f.cases))
    if o == 'ite':
        return 'ite(%s, %s, %s)' % (str(r.a[0]).replace('\n', ' '), show(r.a[1], d+1), show(r.a[2], d+1))
    return o + '(' + ', '.join(show(x, d+1) if isinstance(x, R) else str(x) for x in r.a) + ')'


class Fam:
    """sum_{0<=t<T} ite-cases g(t): cases = [(list of z3 Bool over t, R)] (conditions are exclusive)"""
    _k = [0]

    def __init__(self, t, T, cases):
        self.t = t
        self.T = T
        self.cases = cases
        Fam._k[0] += 1
        self.k = Fam._k[0]

    def __hash__(self):
        return self.k

    def __eq__(self, o):
        return self is o


def fsum(f):
    return mk('sum', f)


# ------------------------------------------------------------------ traversal helpers
def walk(r, seen=None):
    """post-order over distinct nodes (does not enter sums)"""
    if seen is None:
        seen = set()
    stack = [(r, False)]
    while stack:
        x, done = stack.pop()
        if done:
            yield x
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        for y in x.a:
            if isinstance(y, R) and y.id not in seen:
                stack.append((y, False))


def contains(r, leaf):
    for x in walk(r):
        if x is leaf:
            return True
        if x.op == 'sum':
            for _, g in x.a[0].cases:
                if contains(g, leaf):
                    return True
    return False


def zsub(e, m):
    """substitute in z3 expr; m: list of (from,to)"""
    if not m or not isinstance(e, z3.AstRef):
        return e
    return z3.substitute(e, *m)


def subst(r, rm=None, zm=None, memo=None):
    """rm: dict R.id -> R ; zm: list of (z3 from, z3 to)"""
    rm = rm or {}
    zm = zm or []
    memo = {} if memo is None else memo
    for x in list(walk(r)):
        if x.id in memo:
            continue
        if x.id in rm:
            memo[x.id] = rm[x.id]
            continue
        if not x.a or x.op in ('c', 'q', 'v', 'special'):
            memo[x.id] = x
            continue
        if x.op == 'sum':
            f = x.a[0]
            m2 = [(a, b) for a, b in zm if not a.eq(f.t)]
            nf = Fam(f.t, zsub(f.T, m2), [([zsub(c, m2) for c in cs], subst(g, rm, m2)) for cs, g in f.cases])
            same = all(a[1] is b[1] and all(p.eq(q) for p, q in zip(a[0], b[0])) for a, b in zip(f.cases, nf.cases)) and (
                nf.T is f.T or (isinstance(f.T, z3.AstRef) and f.T.eq(nf.T)))
            memo[x.id] = x if same else fsum(nf)
            continue
        na = []
        ch = False
        for y in x.a:
            if isinstance(y, R):
                z = memo[y.id]
            elif isinstance(y, z3.AstRef):
                z = zsub(y, zm)
                if z.eq(y):
                    z = y
            else:
                z = y
            ch |= z is not y
            na.append(z)
        memo[x.id] = mk(x.op, *na) if ch else x
    return memo[r.id]


def lin(r, A, memo=None):
    """r == k*A + g with k rational const; returns (k,g) or None. A is a leaf."""
    memo = {} if memo is None else memo
    if r is A:
        return (Fraction(1), None)
    if not contains(r, A):
        return (Fraction(0), r)
    if r.op in '+-':
        a = lin(r.a[0], A)
        b = lin(r.a[1], A)
        if a is None or b is None:
            return None
        s = 1 if r.op == '+' else -1
        k = a[0] + s * b[0]
        g1, g2 = a[1], b[1]
        if g2 is None:
            g = g1
        elif g1 is None:
            g = g2 if s == 1 else mk('neg', g2)
        else:
            g = mk(r.op, g1, g2)
        return (k, g)
    if r.op == 'neg':
        a = lin(r.a[0], A)
        if a is None:
            return None
        return (-a[0], mk('neg', a[1]) if a[1] is not None else None)
    if r.op == '*':
        for i in (0, 1):
            c = cval(r.a[i])
            if c is not None:
                a = lin(r.a[1-i], A)
                if a is None:
                    return None
                return (a[0]*c, mk('*', a[1], r.a[i]) if a[1] is not None else None)
    return None


# ------------------------------------------------------------------ z3 translation
class Z:
    """Translate R terms to z3 reals.  Integers are relaxed to reals (i2r(e) becomes e over Real variables) when
    relax=True; uninterpreted applications become uninterpreted functions (or fresh reals if ufree)."""

    def __init__(self, relax=False, cap=None):
        self.cap = cap         # terms of a higher degree are not translated, but stand for themselves
        self.deg = {}
        self.memo = {}
        self.relax = relax
        self.ufs = {}
        self.side = []
        self.specials = {}

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *([z3.RealSort()]*(n+1)))
        return self.ufs[k]

    def int(self, e):
        if not self.relax:
            return z3.ToReal(e)
        return relax_int(e)

    def __call__(self, r):
        if isinstance(r, float):
            r = const(r)
        memo = self.memo
        if r.id in memo:
            return memo[r.id]
        for x in list(walk(r)):
            if x.id in memo:
                continue
            o = x.op
            if self.cap is not None:
                d = [self.deg.get(y.id, 0) for y in x.a if isinstance(y, R)]
                d = sum(d) if o in '*/' else 0 if o in 'cq' else max(d, default=1) if o in ('+', '-', 'neg', 'abs', 'ite') else 1
                if d > self.cap:
                    self.deg[x.id] = 1
                    memo[x.id] = z3.Real('opaque_%d' % x.id[1])
                    continue
                self.deg[x.id] = d
            if o == 'c' or o == 'q':
                z = qv(cval(x))
            elif o == 'v':
                z = z3.Real(x.a[0])
            elif o == 'special':
                z = z3.Real('special_%x' % x.a[0])
            elif o == '+':
                z = memo[x.a[0].id] + memo[x.a[1].id]
            elif o == '-':
                z = memo[x.a[0].id] - memo[x.a[1].id]
            elif o == '*':
                z = memo[x.a[0].id] * memo[x.a[1].id]
            elif o == '/':
                z = memo[x.a[0].id] / memo[x.a[1].id]
            elif o == 'neg':
                z = -memo[x.a[0].id]
            elif o == 'abs':
                y = memo[x.a[0].id]
                z = z3.If(y >= 0, y, -y)
            elif o == 'i2r':
                z = self.int(x.a[0])
            elif o == 'ite':
                c = x.a[0]
                z = z3.If(c if not self.relax else relax_bool(c), memo[x.a[1].id], memo[x.a[2].id])
            elif o == 'app':
                z = self.uf(x.a[0], len(x.a)-1)(*[memo[y.id] for y in x.a[1:]])
            elif o == 'sum':
                z = z3.Real('sum_%d' % x.a[0].k)
            elif o == 'elem':
                z = self.uf('elem_%s' % x.a[0], 1)(self.int(x.a[1]))
            else:
                z = z3.Real('opaque_%d' % x.id[1])
            memo[x.id] = z
        return memo[r.id]


def qv(f):
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


_rl = {}
_atoms = {}     # name -> the integer expression behind a relaxed atom


def relax_int(e):
    """z3 Int expr -> Real expr with Int constants replaced by Real constants of the same name."""
    k = e.get_id()
    if k in _rl and _rl[k][0].eq(e):
        return _rl[k][1]
    d = e.decl().kind()
    if z3.is_int_value(e):
        r = z3.RealVal(e.as_long())
    elif d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        r = z3.Real(e.decl().name())
    elif d == z3.Z3_OP_ADD:
        r = z3.Sum([relax_int(c) for c in e.children()])
    elif d == z3.Z3_OP_SUB:
        c = [relax_int(x) for x in e.children()]
        r = c[0]
        for x in c[1:]:
            r = r - x
    elif d == z3.Z3_OP_MUL:
        r = None
        for x in e.children():
            r = relax_int(x) if r is None else r * relax_int(x)
    elif d == z3.Z3_OP_UMINUS:
        r = -relax_int(e.children()[0])
    elif d == z3.Z3_OP_ITE:
        c = e.children()
        r = z3.If(relax_bool(c[0]), relax_int(c[1]), relax_int(c[2]))
    else:
        # a quotient, remainder, ...: a real number of its own
        r = z3.Real('atom!%d' % k)
        _atoms[r.decl().name()] = e
    _rl[k] = (e, r)
    return r


def relax_bool(b):
    d = b.decl().kind()
    if z3.is_true(b) or z3.is_false(b):
        return b
    ch = b.children()
    if d == z3.Z3_OP_NOT:
        return z3.Not(relax_bool(ch[0]))
    if d == z3.Z3_OP_AND:
        return z3.And([relax_bool(c) for c in ch])
    if d == z3.Z3_OP_OR:
        return z3.Or([relax_bool(c) for c in ch])
    if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(ch[0]):
        a, c = relax_int(ch[0]), relax_int(ch[1])
        return {z3.Z3_OP_LE: lambda: a <= c, z3.Z3_OP_LT: lambda: a < c, z3.Z3_OP_GE: lambda: a >= c,
                z3.Z3_OP_GT: lambda: a > c, z3.Z3_OP_EQ: lambda: a == c, z3.Z3_OP_DISTINCT: lambda: a != c}[d]()
    return b


# ------------------------------------------------------------------ numeric evaluation
def frac(x):
    if hasattr(x, '_mpf_'):
        s, m, e, _ = x._mpf_
        return Fraction((-1) ** s * int(m)) * Fraction(2) ** e
    return Fraction(x)


def zev(e, env):
    """evaluate z3 Int/Bool expr under env: name -> int"""
    if isinstance(e, (int, bool)):
        return e
    subs = []
    for v in zvars(e):
        n = v.decl().name()
        if n in env:
            x = env[n]
            subs.append((v, z3.IntVal(int(x)) if z3.is_int(v) else (z3.BoolVal(bool(x)) if z3.is_bool(v) else qv(frac(x)))))
    r = z3.simplify(z3.substitute(e, *subs)) if subs else z3.simplify(e)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    raise KeyError(str(r))


def int_atoms(e):
    """names of the atoms relax_int introduces for the integer expression e"""
    return [v.decl().name() for v in zvars(relax_int(e)) if v.decl().name() in _atoms]


_zv = {}


def zvars(e):
    k = e.get_id()
    if k in _zv and _zv[k][0].eq(e):
        return _zv[k][1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        st.extend(x.children())
    r = list(out.values())
    _zv[k] = (e, r)
    return r


def ev(r, env, apps, arith=None, maxsum=4096):
    """evaluate R with arithmetic of python numbers (Fraction, float, mpf).  env: name -> number (ints for z3 vars,
    numbers for 'v'); apps: name -> callable; arith: conversion for constants."""
    cv = arith or (lambda q: q)
    memo = {}
    for x in walk(r):
        o = x.op
        if o == 'c' or o == 'q':
            v = cv(cval(x))
        elif o == 'v':
            v = env[x.a[0]]
        elif o == '+':
            v = memo[x.a[0].id] + memo[x.a[1].id]
        elif o == '-':
            v = memo[x.a[0].id] - memo[x.a[1].id]
        elif o == '*':
            v = memo[x.a[0].id] * memo[x.a[1].id]
        elif o == '/':
            v = memo[x.a[0].id] / memo[x.a[1].id]
        elif o == 'neg':
            v = -memo[x.a[0].id]
        elif o == 'abs':
            v = abs(memo[x.a[0].id])
        elif o == 'i2r':
            v = cv(Fraction(zev(x.a[0], env)))
        elif o == 'ite':
            v = memo[x.a[1].id] if zev(x.a[0], env) else memo[x.a[2].id]
        elif o == 'app':
            v = apps[x.a[0]](*[memo[y.id] for y in x.a[1:]])
        elif o == 'elem':
            v = apps['elem'](x.a[0], zev(x.a[1], env))
        elif o == 'f32':
            v = cv(Fraction(struct.unpack('<f', struct.pack('<f', float(memo[x.a[0].id])))[0]))
        elif o == 'sum':
            f = x.a[0]
            T = zev(f.T, env)
            if T > maxsum:
                raise OverflowError
            v = cv(Fraction(0))
            for i in range(T):
                e2 = dict(env)
                e2[f.t.decl().name()] = i
                for cs, g in f.cases:
                    if all(zev(c, e2) for c in cs):
                        v = v + ev(g, e2, apps, arith, maxsum)
                        break
        else:
            raise KeyError(o)
        memo[x.id] = v
    return memo[r.id]
