"""C16 C17 C18 (and parts of C20, C21): rules built from the eigen decomposition of the Jacobi matrix.

The eigen-solver of nalgebra is replaced by its contract (M = Q diag(lambda) Q^T, Q orthogonal): the matrix the code builds is
recorded as terms over alpha and beta and has to be the Jacobi matrix of the weight function; the pairs returned have to be
(lambda_j, mu_0 q_0j^2) in ascending order.  The Golub-Welsch theorem then gives exactness to degree 2n-1."""
import itertools
import math
import time
from fractions import Fraction
import mpmath
import z3
from . import core, term, sweep, leg
from .term import R, const, mk, var
from .exec import Unsupported
from .gauss import eig_handlers, EIG
from .grid import Bad
from .sweep import padd, pmul, pconst, pvar

AL, BE = z3.Real('al'), z3.Real('be')
al, be = var('al'), var('be')
BIG = 10**100
NPAR = {'her': 0, 'lag': 1, 'jac': 2}
TOL = Fraction(1, 10**14)


# ---------------------------------------------------------------------------------------- reference
class PX:
    """polynomial fraction in al, be"""

    def __init__(self, n, d=None):
        self.n, self.d = n, d or pconst(1)

    @staticmethod
    def of(x):
        return x if isinstance(x, PX) else PX(pconst(Fraction(x)))

    def __add__(self, o):
        o = PX.of(o)
        return PX(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))
    __radd__ = __add__

    def __sub__(self, o):
        o = PX.of(o)
        return PX(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1), pmul(self.d, o.d))

    def __mul__(self, o):
        o = PX.of(o)
        return PX(pmul(self.n, o.n), pmul(self.d, o.d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = PX.of(o)
        return PX(pmul(self.n, o.d), pmul(self.d, o.n))


def ref_a(rule, i, a, b):
    if rule == 'her':
        return 0 * a
    if rule == 'lag':
        return a + (2 * i + 1)
    if i == 0:
        return (b - a) / (a + b + 2)
    s = a + b + 2 * i
    return (b * b - a * a) / (s * (s + 2))


def ref_b2(rule, i, a, b):
    """square of the off-diagonal element (i, i+1)"""
    k = i + 1
    if rule == 'her':
        return 0 * a + Fraction(k, 2)
    if rule == 'lag':
        return k * (a + k)
    s = a + b + 2 * k
    if i == 0:
        return 4 * (a + 1) * (b + 1) / (s * s * (s + 1))
    return 4 * k * (a + k) * (b + k) * (a + b + k) / (s * s * (s + 1) * (s - 1))


DK = (2.4857408913875355e-5, 1.0514237858172197, -3.4568709722201625, 4.512277094668948, -2.9828522532357664, 1.056397115771267,
      -1.9542877319164587e-1, 1.709705434044412e-2, -5.719261174043057e-4, 4.633994733599057e-6, -2.7199490848860772e-9)
GR, GC = 10.900511, 1.8603827342052657


def lanczos(x, reflected):
    """the approximation of Pugh (2004) for Gamma(x) as a term; pinned here, compared with mpmath by tools/legref.py"""
    C = lambda v: const(float(v))
    if reflected:
        s = C(DK[0])
        for k in range(1, 11):
            s = mk('+', s, mk('/', C(DK[k]), mk('-', C(k), x)))
        p = term.app('pow', mk('/', mk('+', mk('-', C(0.5), x), C(GR)), C(math.e)), mk('-', C(0.5), x))
        return mk('/', C(math.pi), mk('*', mk('*', mk('*', term.app('sin', mk('*', C(math.pi), x)), s), C(GC)), p))
    s = C(DK[0])
    for k in range(1, 11):
        s = mk('+', s, mk('/', C(DK[k]), mk('+', x, C(k - 1))))
    p = term.app('pow', mk('/', mk('+', mk('-', x, C(0.5)), C(GR)), C(math.e)), mk('-', x, C(0.5)))
    return mk('*', mk('*', s, C(GC)), p)


def scales(rule, base):
    """acceptable forms of mu_0 on a path"""
    one = const(1.0)
    if rule == 'her':
        return [const(Fraction(mpmath.nstr(mpmath.sqrt(mpmath.pi), 40)))]
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*base)

    def gammas(x, z):
        out = []
        if s.check(z < term.qv(Fraction(1, 2))) == z3.unsat:
            out.append(lanczos(x, False))
        elif s.check(z >= term.qv(Fraction(1, 2))) == z3.unsat:
            out.append(lanczos(x, True))
        else:
            out += [lanczos(x, False), lanczos(x, True)]
        return out + [term.app('gamma', x)]
    if rule == 'lag':
        return gammas(mk('+', al, one), AL + 1)
    ab = mk('+', al, be)
    out = []
    for g in itertools.product(gammas(mk('+', al, one), AL + 1), gammas(mk('+', be, one), BE + 1), gammas(mk('+', ab, const(2.0)), AL + BE + 2)):
        out.append(mk('/', mk('*', mk('*', term.app('pow', const(2.0), mk('+', ab, one)), g[0]), g[1]), g[2]))
    return out


def mu0(rule, a, b):
    if rule == 'her':
        return mpmath.sqrt(mpmath.pi)
    if rule == 'lag':
        return mpmath.gamma(a + 1)
    return mpmath.power(2, a + b + 1) * mpmath.gamma(a + 1) * mpmath.gamma(b + 1) / mpmath.gamma(a + b + 2)


_ref = {}


def mp_rule(rule, n, a, b):
    """nodes and weights by the eigen decomposition in 40 digits"""
    k = (rule, n, a, b)
    if k not in _ref:
        mpmath.mp.dps = 40
        A, B = mpmath.mpf(a), mpmath.mpf(b)
        m = mpmath.zeros(n)
        for i in range(n):
            m[i, i] = ref_a(rule, i, A, B) if rule != 'her' else 0
            if i + 1 < n:
                b2 = mpmath.mpf(i + 1) / 2 if rule == 'her' else ref_b2(rule, i, A, B)
                m[i, i + 1] = m[i + 1, i] = mpmath.sqrt(b2)
        e, q = mpmath.eigsy(m)
        s = mu0(rule, A, B)
        _ref[k] = sorted((e[i], s * q[0, i] ** 2) for i in range(n))
    return _ref[k]


def np_rule(rule, n, a, b):
    import numpy as np
    if n <= 12:
        r = mp_rule(rule, n, a, b)
        return [float(x) for x, _ in r], [float(w) for _, w in r], float(mu0(rule, mpmath.mpf(a), mpmath.mpf(b)))
    d = np.array([float(ref_a(rule, i, a, b)) if rule != 'her' else 0.0 for i in range(n)])
    e = np.sqrt(np.array([float((i + 1) / 2 if rule == 'her' else ref_b2(rule, i, a, b)) for i in range(n - 1)]))
    m = np.diag(d) + np.diag(e, 1) + np.diag(e, -1)
    x, q = np.linalg.eigh(m)
    s = float(mu0(rule, mpmath.mpf(a), mpmath.mpf(b)))
    return [float(t) for t in x], [float(t) for t in s * q[0] ** 2], s


# largest differences on the unchanged tree for degrees up to 258: nodes 9e-15, weights 4e-15 (Hermite), 4e-12
NTOL, WTOL = 1e-12, 3e-11


@core.timed
def native_gw(nat, rule, n, a, b, what='all'):
    """-> (text, commands, key or None) or None"""
    cmd = ('call', 'h_' + rule, (n, a, b), ())
    r = nat.calls([cmd])[0]
    nm = {'her': 'GaussHermite::new(%d)' % n, 'lag': 'GaussLaguerre::new(%d, %r)' % (n, a), 'jac': 'GaussJacobi::new(%d, %r, %r)' % (n, a, b)}[rule]
    if r.bad:
        return nm + ' panics', [cmd], None
    x, w = r.tag(1), r.tag(2)
    if len(x) != n:
        return '%s has %d pairs' % (nm, len(x)), [cmd], None
    xr, wr, s = np_rule(rule, n, a, b)
    sp = max(1.0, abs(xr[0]), abs(xr[-1])) if rule != 'jac' else 1.0
    kf = None
    if what != 'sorted':
        for i in range(n):
            if not abs(x[i] - xr[i]) <= NTOL * sp:
                v = '%s: node %d is %r instead of %r' % (nm, i, x[i], xr[i]), [cmd]
                if rule == 'jac' and n % 2 and n >= 3 and i == n // 2 and x[i] == 0 and a != b:
                    kf = v + ('jacobi-odd-middle-node',)
                    continue
                return v + (None,)
            if not abs(w[i] - wr[i]) <= (NTOL if rule == 'her' else WTOL) * s:
                return '%s: weight %d is %r instead of %r' % (nm, i, w[i], wr[i]), [cmd], None
    else:
        bad = sup_bad(rule, n, a, b, x, w, nm)
        if bad:
            return bad[0], [cmd], bad[1]
    return kf


def sup_bad(rule, n, a, b, x, w, nm):
    kf = None
    for i in range(n):
        if not (w[i] > 0 and math.isfinite(w[i])):
            return '%s: weight %d is %r' % (nm, i, w[i]), None
        lo, hi = {'her': (-math.inf, math.inf), 'lag': (0.0, math.inf), 'jac': (-1.0, 1.0)}[rule]
        if not lo < x[i] < hi:
            return '%s: node %d is %r' % (nm, i, x[i]), None
        if i and not x[i] >= x[i - 1]:
            t = '%s: node %d is %r after %r' % (nm, i, x[i], x[i - 1])
            if rule == 'jac' and n % 2 and n >= 3 and a != b and n // 2 in (i, i - 1) and x[n // 2] == 0:
                kf = t, 'jacobi-odd-middle-node'
                continue
            return t, None
    return kf


ABS = {'her': [(0.0, 0.0)],
       'lag': [(a, 0.0) for a in (0.0, -0.5, 0.5, -0.75, 1.0, 2.5, -0.99, 7.0, 20.0, 60.0, -0.25, 0.1, 100.0, 33.7, 12.3, 75.4, 120.6, 3.3, 1e-3, -0.9, 1e-9, 5.5)],
       'jac': [(a, b) for a in (0.25, -0.5, 0.0, 0.5, -0.75, 1.0, 3.5, -0.25, 12.0, 33.7, 1e-3, 6.3) for b in (0.75, -0.5, 0.0, 0.5, -0.75, 1.0, 2.5, -0.25, 20.0, 41.3, 1e-3, 7.2)]}


def confirm_gw(chk, nat, rule, env, done, what='all'):
    """env: dict(ns=[..], ab=[(a, b), ..])"""
    t0 = time.time()
    ns = [n for n in env.get('ns', []) if n <= 300]
    ab = [t for t in env.get('ab', []) if all(-1 < v < 60 for v in t)]
    todo = [(n, t) for n in ns[:4] for t in ab[:10] + ABS[rule]] + [(n, t) for n in (1, 2, 3, 4, 5, 8, 11, 16, 21, 40, 101) for t in ab[:4] + ABS[rule]]
    todo += [(n, t) for n in list(range(6, 50)) + [64, 99, 100, 128, 150, 200] for t in ABS[rule][:1 if rule == 'jac' else 2]]
    if what == 'sorted':           # the order the eigen solver leaves behind depends on the degree
        todo = [(n + d, ABS[rule][0]) for n in ns[:2] for d in range(20) if n > 40] + todo
    for n, (a, b) in todo:
        if time.time() - t0 > 90 or chk.left() < 60:
            break
        if rule == 'jac' and a + b > 140:
            continue
        v = native_gw(nat, rule, n, a, b, what)
        if v and v[2] is None:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


# ---------------------------------------------------------------------------------------- terms as polynomial fractions
class Quot:
    """terms over al, be, with square roots as variables; collects what must not vanish or be negative"""

    def __init__(self, chk, base):
        self.chk, self.base = chk, base
        self.memo = {}
        self.roots = {}        # var -> (num, den)
        self.okden = set()
        self.s = z3.Solver()
        self.s.set('timeout', 10000)
        self.s.add(*base)

    def zp(self, p):
        ts = []
        for m, c in p.items():
            t = term.qv(c)
            for v, e in m:
                for _ in range(e):
                    t = t * z3.Real(v)
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def ask(self, *conds, nl=False):
        t0 = time.time()
        if nl:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', 10000)
            s.add(*self.base, *conds)
            r = s.check()
            m = s.model() if r == z3.sat else None
        else:
            self.s.push()
            self.s.add(*conds)
            r = self.s.check()
            m = self.s.model() if r == z3.sat else None
            self.s.pop()
        self.chk.stats.queries += 1
        self.chk.stats.time += time.time() - t0
        if r == z3.unknown and not nl:
            return self.ask(*conds, nl=True)
        return r, m

    def nonzero(self, x):
        """x is a denominator"""
        if x.id in self.okden:
            return
        if x.op in '*/':
            for y in x.a:
                self.nonzero(y)
        elif x.op == 'neg':
            self.nonzero(x.a[0])
        else:
            n, d = self.q(x)
            self.chk.obligations += 1
            if not n:
                raise Bad('division by zero', None)
            if not (len(n) == 1 and () in n):
                r, m = self.ask(self.zp(n) == 0)
                if r == z3.sat:
                    raise Bad('division by zero: %s' % term.show(x)[:100], m)
                if r != z3.unsat:
                    raise Unsupported('denominator undecided: ' + term.show(x)[:100])
            self.chk.discharged += 1
        self.okden.add(x.id)

    def nonneg(self, x):
        """x is under a square root"""
        self.chk.obligations += 1
        if self.sign(x):
            self.chk.discharged += 1
            return
        n, d = self.q(x)
        r, m = self.ask(self.zp(pmul(n, d)) < 0)
        if r == z3.sat:
            raise Bad('square root of a negative number: %s' % term.show(x)[:100], m)
        if r != z3.unsat:
            raise Unsupported('sign undecided: ' + term.show(x)[:100])
        self.chk.discharged += 1

    def sign(self, x):
        """products and quotients of nonnegative factors"""
        if x.op in '*/':
            return all(self.sign(y) for y in x.a)
        n, d = self.q(x)
        return self.ask(self.zp(pmul(n, d)) < 0)[0] == z3.unsat

    def q(self, x):
        for y in term.walk(x):
            if y.id not in self.memo:
                self.memo[y.id] = self.q1(y)
        return self.memo[x.id]

    def q1(self, x):
        c = term.cval(x)
        if c is not None:
            return pconst(c), pconst(1)
        a = [self.memo[y.id] for y in x.a if isinstance(y, R)]
        if x.op == 'v':
            return pvar(x.a[0]), pconst(1)
        if x.op == 'neg':
            return pmul(a[0][0], pconst(-1)), a[0][1]
        if x.op in '+-':
            s = 1 if x.op == '+' else -1
            if a[0][1] == a[1][1]:
                return padd(a[0][0], a[1][0], s), a[0][1]
            return padd(pmul(a[0][0], a[1][1]), pmul(a[1][0], a[0][1]), s), pmul(a[0][1], a[1][1])
        if x.op == '*':
            return pmul(a[0][0], a[1][0]), pmul(a[0][1], a[1][1])
        if x.op == '/':
            self.nonzero(x.a[1])
            return pmul(a[0][0], a[1][1]), pmul(a[0][1], a[1][0])
        if x.op == 'app' and x.a[0] == 'sqrt':
            v = 'sq%d' % x.id[1]
            self.nonneg(x.a[1])
            self.roots[v] = a[0]
            return pvar(v), pconst(1)
        raise Unsupported('%s in a matrix element' % (x.a[0] if x.op == 'app' else x.op))

    def elim(self, n, d):
        """remove even powers of square roots"""
        while True:
            vs = {v for p in (n, d) for m in p for v, e in m if v in self.roots}
            vs = [v for v in vs if all(dict(m).get(v, 0) % 2 == 0 for p in (n, d) for m in p)]
            if not vs:
                return n, d
            v = max(vs, key=lambda t: int(t[2:]))
            un, ud = self.roots[v]
            k = max(dict(m).get(v, 0) // 2 for p in (n, d) for m in p)
            out = []
            for p in (n, d):
                r = {}
                for m, c in p.items():
                    e = dict(m).get(v, 0) // 2
                    t = {tuple(t for t in m if t[0] != v): c}
                    for _ in range(e):
                        t = pmul(t, un)
                    for _ in range(k - e):
                        t = pmul(t, ud)
                    r = padd(r, t)
                out.append(r)
            n, d = out

    def equal(self, x, want, square, what):
        """x (or x^2) == want up to rounding"""
        self.chk.obligations += 1
        n, d = self.q(x)
        if square:
            n, d = pmul(n, n), pmul(d, d)
        n, d = self.elim(n, d)
        l, r = pmul(n, want.d), pmul(want.n, d)
        df = padd(l, r, -1)
        if not df:
            # identical polynomials; the solver agrees on the factors it is given
            if len(l) < 60 and self.ask(self.zp(l) != self.zp(r))[0] == z3.sat:
                raise Unsupported('inconsistent polynomials')
            self.chk.discharged += 1
            return
        m = None
        z, w = self.zp(df), self.zp(r)
        sq = [z3.Real(v) * z3.Real(v) * self.zp(b) == self.zp(a) for v, (a, b) in self.roots.items()]
        t = term.qv(TOL)
        if all(len(p) <= 1 and () in p for p in (df,)) and (not r or (len(r) == 1 and () in r)):
            lim = max(abs(r.get((), Fraction(0))), Fraction(1) if not r else 0) * TOL
            if abs(df[()]) <= lim:
                self.chk.discharged += 1
                return
            raise Bad('%s is %s' % (what, term.show(x)[:120]), None)
        res, m = self.ask(*sq, z3.Or(*[z3.And(s1 * w >= 0, s2 * z > t * s1 * w) for s1 in (1, -1) for s2 in (1, -1)]), nl=True)
        if res == z3.unsat:
            self.chk.discharged += 1
            return
        if res == z3.sat:
            raise Bad('%s is %s' % (what, term.show(x)[:160]), m)
        raise Unsupported('%s undecided: %s' % (what, term.show(x)[:120]))


def realval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    return float(x.as_fraction())


class PShim:
    """what sweep.Sweep needs of a path"""

    def __init__(self, chk, envs):
        self.chk, self.envs = chk, envs

    def models(self):
        return self.envs

    def norm(self, r):
        return r

    def linear(self, e):
        return None


class Env(dict):
    def __missing__(self, k):
        import hashlib
        h = int(hashlib.sha256(k.encode()).hexdigest()[:8], 16)
        self[k] = mpmath.mpf(h % 7919 + 1) / 8000
        return self[k]


class GPath:
    def __init__(self, chk, rule, n, o):
        self.chk, self.rule, self.n, self.o = chk, rule, n, o
        self.pc = o.st.pc
        self.base = [c for c in o.st.pc if not any(v.decl().name().startswith(('lam', 'q_')) for v in term.zvars(c))]
        self.mat = {(e[1], e[2]): const(e[4]) for e in o.st.trace if e[0] == 'mat'}
        tr = core.flat(o.st.trace)
        self.x = [const(v) for t, v in tr if t == 1]
        self.w = [const(v) for t, v in tr if t == 2]
        self.par = [(t, const(v)) for t, v in tr if t in (3, 4)]
        self._envs = None

    def ab(self):
        return [(e['al'], e['be']) for e in self.envs()]

    def envs(self):
        """parameter values on this path"""
        if self._envs is None:
            out = []
            pts = [(Fraction(-1, 4), Fraction(1, 4)), (Fraction(1, 3), Fraction(5, 4)), (3, Fraction(1, 2)), (Fraction(-3, 5), Fraction(-1, 3)), (Fraction(-9, 10), 2), (7, 11),
                   (Fraction(-3, 4), Fraction(-4, 5)), (12, Fraction(-7, 8)), (0, Fraction(1, 3)), (Fraction(1, 3), 0), (Fraction(-1, 2), Fraction(3, 4)), (Fraction(1, 2), 1), (1, Fraction(1, 2)),
                   (Fraction(3, 4), Fraction(-1, 2)), (25, 30), (1, 1)]
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*self.base)
            for p, q in pts:
                if s.check(AL == term.qv(Fraction(p)), BE == term.qv(Fraction(q))) == z3.sat:
                    out.append((float(p), float(q)))
            for extra in ([], [AL < 20, BE < 20], [AL != 0, BE != 0, AL < 5, BE < 5], [AL > 1, AL < 30, BE < 30]):
                s.push()
                s.add(*extra)
                for a, b in out[-2:]:
                    s.add(z3.Or(AL != a, BE != b))
                if s.check() == z3.sat:
                    m = s.model()
                    t = realval(m, AL), realval(m, BE)
                    if t not in out and all(-1 < v < 1e6 for v in t):
                        out.append(t)
                s.pop()
            import random
            rnd = random.Random(7)
            self._envs = []
            for i, (a, b) in enumerate(out[:8]):
                e = {'al': a, 'be': b, 'n': (a, b)}
                for j in range(self.n):
                    e['q_0_%d' % j] = rnd.uniform(0.2, 0.9)
                    e['lam_%d' % j] = float(j)
                self._envs.append(Env({k: mpmath.mpf(v) if isinstance(v, float) and k != 'n' else v for k, v in e.items()}))
                self._envs[-1]['al'], self._envs[-1]['be'] = mpmath.mpf(a), mpmath.mpf(b)
        return self._envs

    def env(self, m=None):
        ab = [(float(a), float(b)) for a, b in self.ab()]
        if m is not None:
            try:
                ab.insert(0, (realval(m, AL), realval(m, BE)))
            except Exception:
                pass
        return {'ns': [self.n], 'ab': ab}


def paths(chk, rule, n, symlam, cfg='b', limit=100, extra=(), entry=None):
    eng = chk.engine(cfg, handlers=core.std_handlers(), limit=limit, max_paths=5000, max_steps=20000000, timeout=5000)
    perm = [(7 * i + 3) % n if n % 7 else (5 * i + 2) % n for i in range(n)]
    if sorted(perm) != list(range(n)):
        perm = list(range(n))[::-1]
    lam = (lambda i: var('lam_%d' % i)) if symlam else (lambda i: float(perm[i]) - 0.25)
    eng.handlers.update(eig_handlers(lam, lambda i, j: var('q_%d_%d' % (i, j))))
    eng.redirect[EIG] = 'stub_decompose'
    np = NPAR[rule]
    st = eng.start(entry or 'h_' + rule, [n, al if np > 0 else 0.0, be if np > 1 else 0.0])
    for k, v in ((1, AL), (2, BE)):
        if np >= k:
            st.pc += [v > -1, v <= BIG]
    st.pc += list(extra)
    if symlam:
        st.pc += [z3.Real('lam_%d' % i) != z3.Real('lam_%d' % j) for i in range(n) for j in range(i)]
    out = [GPath(chk, rule, n, o) for o in eng.run(st)]
    chk.assumptions |= eng.assumed
    if not out:
        raise Unsupported('no path')
    for p in out:
        p.lam = [const(lam(i)) for i in range(n)]
        p.symlam = symlam
    return out


_proved = set()


def check_matrix(chk, p):
    """the recorded matrix is the Jacobi matrix"""
    rule, n = p.rule, p.n
    q = Quot(chk, p.base)
    a, b = PX(pvar('al')), PX(pvar('be'))
    zero = PX({})
    for i in range(n):
        for j in range(n):
            if (i, j) not in p.mat:
                raise Unsupported('matrix element (%d,%d) not seen' % (i, j))
            x = p.mat[i, j]
            what = 'matrix element (%d,%d) of degree %d' % (i, j, n)
            try:
                if i == j:
                    q.equal(x, ref_a(rule, i, a, b), False, what)
                elif abs(i - j) == 1:
                    if x is not p.mat[j, i]:
                        q.equal(mk('-', x, p.mat[j, i]), zero, False, what + ' (symmetry)')
                    q.equal(x, ref_b2(rule, min(i, j), a, b), True, what)
                elif term.cval(x) != 0:
                    q.equal(x, zero, False, what)
            except Bad as e:
                raise Bad(e.why, p.env(e.env if isinstance(e.env, z3.ModelRef) else None))


def check_pairs(chk, p, kf, order=True):
    """the pairs returned are (lambda_j, mu_0 q_0j^2), ascending"""
    rule, n = p.rule, p.n
    if len(p.x) != n or len(p.w) != n:
        raise Bad('%d nodes and %d weights for degree %d' % (len(p.x), len(p.w), n), p.env())
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*p.pc)
    idx = []
    byid = {l.id: i for i, l in enumerate(p.lam)}
    byval = {term.cval(l): i for i, l in enumerate(p.lam)} if not p.symlam else {}
    mid = None
    for k, x in enumerate(p.x):
        i = byid.get(x.id, byval.get(term.cval(x)) if term.cval(x) is not None else None)
        if i is None and x.op != 'v' and term.cval(x) == 0 and n % 2 and k == n // 2 and rule in ('jac', 'her') and n >= 3:
            mid = k
            idx.append(None)
            continue
        if i is None:
            raise Bad('node %d is %s' % (k, term.show(x)[:120]), p.env())
        idx.append(i)
    left = set(range(n)) - set(idx)
    if mid is not None:
        if len(left) != 1:
            raise Bad('an eigenvalue is lost', p.env())
        # 0 is the middle eigenvalue when the matrix has a zero diagonal: alpha = beta
        if rule == 'jac':
            chk.obligations += 1
            if s.check(AL != BE) == z3.unsat:
                chk.discharged += 1
            else:
                kf.append((n, p))
        idx[mid] = left.pop()
    if sorted(idx) != list(range(n)):
        raise Bad('the nodes are not the eigenvalues', p.env())
    if order and not p.symlam:
        vals = [term.cval(p.lam[i]) for i in idx]
        chk.obligations += 1
        if vals != sorted(vals):
            raise Bad('the nodes are not ascending', p.env())
        chk.discharged += 1
    elif order:
        for i, j in zip(idx, idx[1:]):
            chk.obligations += 1
            chk.stats.queries += 1
            if s.check(z3.Real('lam_%d' % i) > z3.Real('lam_%d' % j)) != z3.unsat:
                raise Bad('the nodes are not ascending', p.env())
            chk.discharged += 1
    weights(chk, p, idx)


def weights(chk, p, idx):
    envs = p.envs()
    if not envs:
        raise Unsupported('no parameter values')
    S = None
    sw = sweep.Sweep(PShim(chk, envs))
    for k, (w, i) in enumerate(zip(p.w, idx)):
        q = var('q_0_%d' % i) if i is not None else None
        chk.obligations += 1
        best = None
        for sc in ([S] if S is not None else scales(p.rule, p.base)):
            want = mk('*', mk('*', q, q), sc) if q is not None else sc
            d = sw.equal(w, want, rel=True)
            if d is True:
                S = sc
                best = True
                break
            if best is None or d < best:
                best = d
                worst = sw.worst
        if best is True:
            chk.discharged += 1
            continue
        if best > 1e-11:
            raise Bad('weight %d of degree %d is %s' % (k, p.n, term.show(w)[:150]), dict(p.env(), ab=[(float(a), float(b)) for a, b in worst] + p.env()['ab']))
        if best < 1e-14 and p.rule == 'her':
            chk.discharged += 1        # a constant within rounding
            continue
        raise Unsupported('weight %d of degree %d not proven (difference %s at the samples)' % (k, p.n, mpmath.nstr(best, 3)))


def special(chk, p):
    """a path without an eigen decomposition: constants for fixed parameters, or the degree-1 formula"""
    rule, n = p.rule, p.n
    if n == 1:
        if len(p.x) != 1 or len(p.w) != 1:
            raise Bad('%d pairs for degree 1' % len(p.x), p.env())
        q = Quot(chk, p.base)
        try:
            q.equal(p.x[0], ref_a(rule, 0, PX(pvar('al')), PX(pvar('be'))), False, 'node of degree 1')
        except Unsupported:
            if any(y.op == 'app' for y in term.walk(p.x[0])) and fixed(p) is not None:
                return special_const(chk, p)
            raise
        except Bad as e:
            if term.cval(p.x[0]) is not None and abs(term.cval(p.x[0])) < Fraction(1, 10**15) and fixed(p) is not None:
                return special_const(chk, p)
            raise Bad(e.why, p.env(e.env if isinstance(e.env, z3.ModelRef) else None))
        if fixed(p) is not None:
            return special_const(chk, p)
        return weights(chk, p, [None])
    if fixed(p) is None:
        raise Unsupported('no eigen decomposition on a path with free parameters')
    special_const(chk, p)


def fixed(p):
    """the parameter values when the path determines them"""
    s = z3.Solver()
    s.add(*p.base)
    if s.check() != z3.sat:
        return None
    m = s.model()
    a, b = m.eval(AL, model_completion=True), m.eval(BE, model_completion=True)
    np = NPAR[p.rule]
    if s.check(z3.Or(*([AL != a] if np > 0 else []), *([BE != b] if np > 1 else []))) != z3.unsat:
        return None
    return realval(m, AL) if np > 0 else 0.0, realval(m, BE) if np > 1 else 0.0


def special_const(chk, p):
    a, b = fixed(p)
    n = p.n
    if len(p.x) != n or len(p.w) != n:
        raise Bad('%d pairs for degree %d' % (len(p.x), n), p.env())
    ref = mp_rule(p.rule, n, a, b) if n <= 12 else [(mpmath.mpf(x), mpmath.mpf(w)) for x, w in zip(*np_rule(p.rule, n, a, b)[:2])]
    k = z3.Int('k')
    alts = []
    tol = 1e-13 if n <= 12 else 1e-11
    mpmath.mp.dps = 40
    for i, (x, w, (xr, wr)) in enumerate(zip(p.x, p.w, ref)):
        dx, dw = leg.frac(abs(leg.mpval(x) - xr)), leg.frac(abs(leg.mpval(w) - wr))
        alts.append(z3.And(k == i, z3.Or(term.qv(dx) > term.qv(Fraction(tol)), term.qv(dw) > term.qv(Fraction(tol)))))
    s = z3.Solver()
    s.add(z3.Or(alts))
    chk.obligations += 1
    chk.stats.queries += 1
    if s.check() != z3.unsat:
        raise Bad('pair %s of degree %d for parameters %s' % (s.model()[k], n, (a, b)), {'ns': [n], 'ab': [(a, b)]})
    chk.discharged += 1


DEG = {'her': list(range(1, 131)) + [160, 200, 255, 256, 257, 258, 300, 520], 'lag': list(range(1, 102)) + [128, 129, 150, 200, 256, 257, 258, 300, 400], 'jac': list(range(1, 36)) + [40, 48, 50, 64, 65, 99, 100, 101, 128, 200, 258, 300]}
DEGT = {'her': list(range(1, 262)) + [300, 400, 520, 600, 1030], 'lag': list(range(1, 151)) + [200, 256, 257, 258, 300, 400, 520], 'jac': list(range(1, 81)) + [99, 100, 101, 128, 129, 200, 256, 257, 258, 300, 400]}
ONE = 130          # Jacobi rules of a larger degree: only parameters above 1 (one path of the gamma function)
DKF = 'jacobi-odd-middle-node'


OKF = 'jacobi-gamma-overflow'


def overflow_known(chk, nat):
    """the recorded overflow for large parameters"""
    cmd = ('call', 'h_jac', (2, 100.0, 100.0), ())
    r = nat.calls([cmd])[0]
    if not r.bad and not all(math.isfinite(w) and w > 0 for w in r.tag(2)):
        chk.violation('GaussJacobi::new with large alpha and beta: the gamma functions overflow, e.g. weights %r of GaussJacobi::new(2, 100, 100)' % r.tag(2), [cmd], key=OKF)


def check_gw(chk, rule):
    nat = core.Native('b', timeout=200)
    done, und, ok, kf = set(), [], [], []
    chk.assumptions.add('contract of nalgebra::SymmetricEigen: eigenvalues and orthonormal eigenvectors of the (symmetric) matrix it is given')
    chk.assumptions.add('Golub-Welsch theorem: eigenvalues and first components of the Jacobi matrix give the Gauss rule')
    sym, hint = [], []
    fails = [0]
    total = 0

    def one(n, symlam):
        def go(chk):
            und, hint, kf = [], [], []
            if fails[0] > 1:
                return None
            if chk.left() < 100:
                return 'late', n
            P, tot, good = [], 0, False
            try:
                P = paths(chk, rule, n, symlam, extra=[AL > 1, BE > 2] if (symlam or n > ONE) and rule == 'jac' else (), limit=150 if chk.quick else 400)
                for p in P:
                    if p.o.kind != 'ret':
                        raise Bad('%s: %s' % (p.o.kind, p.o.msg), p.env())
                    tot += 1
                    if p.mat:
                        check_matrix(chk, p)
                        check_pairs(chk, p, kf)
                    else:
                        special(chk, p)
                good = True
            except Bad as e:
                chk.log('candidate:', n, e.why, str(e.env)[:120])
                fails[0] += 1
                if not confirm_gw(chk, nat, rule, e.env or {'ns': [n]}, done):
                    und.append('%s (not reproduced on the real code)' % e.why)
            except Unsupported as e:
                fails[0] += 1
                und.append('n=%d: %s' % (n, e))
                hint += [p.env() for p in P[:6]]
            return symlam, n, good, tot, und, [h for h in hint if h], [n for n, _ in kf]
        return go
    core.module('b')                   # before the workers are forked
    degs = DEG[rule] if chk.quick else DEGT[rule]
    first = degs[:5]
    tasks = [one(n, True) for n in ((2, 3, 4) if chk.quick or rule == 'jac' else (2, 3, 4, 5))]
    tasks += [one(n, False) for n in first + sorted((n for n in degs[5:] if n >= 64), reverse=True) + [n for n in degs[5:] if n < 64]]
    late = []
    for r in core.parallel(chk, tasks):
        if r is None:
            continue
        if r[0] == 'late':
            late.append(r[1])
            continue
        if r[2]:
            (sym if r[0] else ok).append(r[1])
        total += r[3]
        und += r[4]
        hint += r[5]
        kf += r[6]
    if late:
        und.append('degrees %s: no time' % leg.span(sorted(late)))
    ok.sort()
    if chk.viol:
        done.add('reported')
    if ok:
        chk.part('degrees %s, every parameter in (-1, 1e100]: Jacobi matrix, scaling, pairs (%d paths)' % (leg.span(ok), total))
    if sym:
        chk.part('degrees %s: every order of the eigenvalues' % leg.span(sym))
    if kf and not done:
        v = native_gw(nat, 'jac', 3, 20.0, 0.0)
        if v and v[2] == DKF:
            chk.violation('GaussJacobi::new of odd degree >= 3 with alpha != beta: middle node is 0, e.g. ' + v[0], v[1], key=DKF)
        elif v:
            chk.violation(v[0], v[1])
        else:
            und.append('middle node replaced by 0 (not reproduced on the real code)')
    if und and not done:
        hint = [h for h in hint if h]
        confirm_gw(chk, nat, rule, {'ns': sorted({n for h in hint for n in h.get('ns', [])}), 'ab': [t for h in hint for t in h.get('ab', [])]}, done)
    for u in und:
        chk.undecided(u)
    if rule == 'lag':
        from . import conv
        conv.check_lag_alpha(chk, nat, done)
    chk.replays = 0
    if rule == 'jac':
        overflow_known(chk, nat)
    for n in (1, 2, 5, 8, 21, 40):
        for a, b in ABS[rule][:6]:
            v = native_gw(nat, rule, n, a, b)
            chk.replays += 1
            if v and v[2] is None and not done:
                chk.violation(v[0], v[1])
                done.add(v[0])
