"""C11 C12 C13: Gauss-Legendre rules; the tables up to degree 100 and the asymptotic formula above."""
import copy
import math
import time
from fractions import Fraction
import mpmath
import numpy as np
import z3
from . import core, term, sweep
from .term import R, const, mk
from .exec import Unsupported
from .grid import Bad
from .trig import N, J, NMAX, Path, explore, leafwise

LO = 101
# ---- reference: the expansion of Bogaert (SIAM J. Sci. Comput. 36, A1008, 2014).  The coefficients are pinned here; tools/legref.py
# compares this formula with the roots of the Legendre polynomials.
JS = (0.125, -8.072916666666667e-2, 0.24602864583333334, -1.824438767206101, 25.336414797343906, -567.6444121351834, 18690.476528232066,
      -8.493535802991488e5, 5.092254624022268e7)
BS = (0.20264236728467555, 0.0, -3.0338042971129027e-4, 1.989243642459693e-4, -2.2896990277211166e-4, 4.337107191307463e-4,
      -1.236323497271754e-3, 4.9610142326888314e-3, -2.6683739370232377e-2, 0.18539539820634562)
SF = ((-1.2905299627428051e-12, 2.4072468586433013e-10, -3.1314865463599204e-08, 2.7557316896206124e-06, -0.00014880952371390914, 0.004166666666651934, -0.0416666666666663),
      (2.20639421781871e-09, -7.530367713737693e-08, 1.6196925945383627e-06, -2.53300326008232e-05, 0.00028211688605756045, -0.002090222483878529, 0.008159722217729322),
      (-2.9705822537552623e-08, 5.558453302237962e-07, -5.677978413568331e-06, 4.184981003295046e-05, -0.0002513952932839659, 0.0012865419854284513, -0.004160121656202043))
WSF = ((-2.2090286104461664e-14, 2.3036572686037738e-12, -1.752577007354238e-10, 1.037560669279168e-08, -4.639686475532213e-07, 1.4964459362502864e-05, -0.0003262786595944122, 0.004365079365075981, -0.0305555555555553, 0.08333333333333333),
       (3.631174121526548e-12, 7.676435450698932e-11, -7.129128572336422e-09, 2.1148388068594716e-07, -3.818179186800454e-06, 4.659695306949684e-05, -0.00040729718561133575, 0.002689594356947297, -0.011111111111121492),
       (2.018267912567033e-09, -4.386471225202067e-08, 5.088983472886716e-07, -3.9793331651913525e-06, 2.0055932639645834e-05, -4.228880592829212e-05, -0.00010564605025407614, -9.479693089585773e-05, 0.006569664899264848))
PI64 = math.pi
_bz = {}


def bessel(k):
    """(k-th zero of J0, J1 there squared), nearest doubles"""
    if k not in _bz:
        mpmath.mp.dps = 40
        z = mpmath.besseljzero(0, k)
        _bz[k] = float(z), float(mpmath.besselj(1, z) ** 2)
    return _bz[k]


class Ops:
    """the formula over any arithmetic"""

    def __init__(self, c, sin, pi):
        self.c, self.sin, self.pi = c, sin, pi

    def horner_up(self, cs, x):
        r = self.c(cs[-1])
        for y in cs[-2::-1]:
            r = self.c(y) + x * r
        return r

    def horner(self, cs, x):
        r = self.c(cs[0])
        for y in cs[1:]:
            r = r * x + self.c(y)
        return r

    def zero(self, k):
        z = self.pi * (k - self.c(0.25))
        r = self.c(1.0) / z
        return z + r * self.horner_up(JS, r * r)

    def j1sq(self, k):
        x = self.c(1.0) / (k - self.c(0.25))
        return x * self.horner_up(BS, x * x)

    def pair(self, n, nu, b):
        """(theta, weight)"""
        w = self.c(1.0) / (n + self.c(0.5))
        th = w * nu
        x = th * th
        s = [self.horner(c, x) for c in SF]
        v = [self.horner(c, x) for c in WSF]
        nos = nu / self.sin(th)
        bn = b * nos
        wi = w * w * nos
        w2 = wi * wi
        theta = w * (nu + th * wi * (s[0] + w2 * (s[1] + w2 * s[2])))
        weight = self.c(2.0) * w / (bn + bn * w2 * (v[0] + w2 * (v[1] + w2 * v[2])))
        return theta, weight


class T:
    """operators on terms"""

    def __init__(self, r):
        self.r = r

    def __add__(self, o):
        return T(mk('+', self.r, o.r))

    def __sub__(self, o):
        return T(mk('-', self.r, o.r))

    def __mul__(self, o):
        return T(mk('*', self.r, o.r))

    def __truediv__(self, o):
        return T(mk('/', self.r, o.r))


TERM = Ops(lambda c: T(const(float(c))), lambda t: T(term.app('sin', t.r)), T(const(PI64)))


def ref_terms(kk, mirrored):
    """(node, weight) of the kk-th pair from the right as terms over n (kk: int, or z3 expression for kk > 21)"""
    nn = T(term.i2r(N))
    if isinstance(kk, int):
        nu, b = (T(const(v)) for v in bessel(kk)) if kk <= 20 else (TERM.zero(T(const(float(kk)))), T(const(bessel(kk)[1])))
    else:
        k = T(term.i2r(z3.simplify(kk)))
        nu, b = TERM.zero(k), TERM.j1sq(k)
    th, w = TERM.pair(nn, nu, b)
    x = term.app('cos', th.r)
    return (mk('neg', x) if mirrored else x), w.r


# ---------------------------------------------------------------------------------------- native comparison
def np_pairs(n, kk):
    """reference nodes (cos theta) and weights for 1-based indices kk <= (n+1)/2, as long doubles"""
    L = np.longdouble
    k = kk.astype(L)
    o = Ops(lambda c: L(c), np.sin, L('3.14159265358979323846264338'))
    nu, b = o.zero(k), o.j1sq(k)
    for i in range(1, 22):
        m = kk == i
        if m.any():
            mpmath.mp.dps = 40
            z = mpmath.besseljzero(0, i)
            nu[m] = L(mpmath.nstr(z, 25))
            b[m] = L(mpmath.nstr(mpmath.besselj(1, z) ** 2, 25))
    return o.pair(L(n), nu, b)


def np_rule(n):
    """all nodes and weights of degree n in ascending order, as long doubles; Newton's method up to degree 4000"""
    L = np.longdouble
    kk = np.arange(1, (n + 1) // 2 + 1)
    if n > 100:
        th, w = np_pairs(n, kk)
    else:
        th = (L('3.14159265358979323846264338') * (kk.astype(L) - L(0.25))) / (L(n) + L(0.5))
        w = None
    x = np.cos(th)
    if n <= 4000:
        # the recurrence runs on y = 1 - x, which keeps the relative accuracy near the end of the interval
        y = 2 * np.sin(th / 2) ** 2
        for it in range(3 if n > 100 else 8):
            # p_k and d_k = p_k - p_{k-1}: (k+1) d_{k+1} = k d_k - (2k+1) y p_k
            p, d = np.ones_like(y), np.zeros_like(y)
            for k in range(n):
                d = (k * d - (2 * k + 1) * y * p) / (k + 1)
                p = p + d
            # (1-x^2) p' = n (p_{n-1} - x p_n) = n (y p_n - d_n)
            om = y * (2 - y)
            dp = n * (y * p - d) / om
            if it < (2 if n > 100 else 7):
                y = y + p / dp
        w = 2 / (om * dp * dp)
        x = 1 - y
        if n % 2:
            x[-1] = 0
    m = n // 2
    xs = np.concatenate([-x, x[:m][::-1]])
    ws = np.concatenate([w, w[:m][::-1]])
    return xs, ws


XTOL, WTOL = 1e-14, 1e-13
SX, SW = 3e-15, 1e-14        # symmetry
_nr = {}


@core.timed
def native_leg(nat, n, what='all'):
    """-> (text, commands) or None"""
    if n > 2**24:
        return None
    cmd = ('call', 'h_leg', (n, 0.0, 0.0), ())
    r, x, w = nat.rule(*cmd[1:3])
    if r.bad:
        return 'GaussLegendre::new(%d) panics' % n, [cmd]
    if len(x) != n:
        return 'GaussLegendre::new(%d) has %d pairs' % (n, len(x)), [cmd]
    if what == 'sym':
        bad = np.nonzero(~(np.abs(x + x[::-1]) <= SX))[0]
        if len(bad):
            i = int(bad[0])
            return 'GaussLegendre::new(%d): nodes %d and %d are %r and %r' % (n, i, n - 1 - i, float(x[i]), float(x[n - 1 - i])), [cmd]
        bad = np.nonzero(~(np.abs(w - w[::-1]) <= SW * np.abs(w)))[0]
        if len(bad):
            i = int(bad[0])
            return 'GaussLegendre::new(%d): weights %d and %d are %r and %r' % (n, i, n - 1 - i, float(w[i]), float(w[n - 1 - i])), [cmd]
        if n % 2 and not abs(x[n // 2]) <= 1e-15:
            return 'GaussLegendre::new(%d): the middle node is %r' % (n, x[n // 2]), [cmd]
        return None
    if n not in _nr:
        if n > 10**6:
            _nr.clear()
        _nr[n] = np_rule(n)
    xr, wr = _nr[n]
    bad = np.nonzero(~(np.abs(x - xr) <= XTOL))[0]
    if len(bad):
        i = int(bad[0])
        return 'GaussLegendre::new(%d): node %d is %r instead of %r' % (n, i, float(x[i]), float(xr[i])), [cmd]
    bad = np.nonzero(~(np.abs(w - wr) <= WTOL * wr))[0]
    if len(bad):
        i = int(bad[0])
        return 'GaussLegendre::new(%d): weight %d is %r instead of %r' % (n, i, float(w[i]), float(wr[i])), [cmd]
    return None


NS = list(range(101, 140)) + [150, 151, 170, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 777, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 3001, 4096, 5001, 8193, 10001, 65535, 65536,
                              65537, 70001, 100001, 131073, 200000, 1000001]


def confirm_leg(chk, nat, ns, done, what='all', lo=LO):
    ns = sorted({n for n in ns if lo <= n <= 2**24})
    t0 = time.time()
    seen = set()
    for n in ns[:10] + ns[-2:] + ([x for x in range(1, 101)] if lo == 1 else []) + NS:
        if n in seen:
            continue
        seen.add(n)
        if time.time() - t0 > 150 or chk.left() < 60:
            break
        v = native_leg(nat, n, what)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


# ---------------------------------------------------------------------------------------- splitting of paths
def clone(p, cond):
    q = copy.copy(p)
    q.pc = p.pc + [cond]
    q.s = z3.Solver()
    q.s.set('timeout', 10000)
    q.s.add(*[c for c in q.pc if not any(z3.is_real(v) for v in term.zvars(c))])
    q._mod = None
    q._lin = {}
    return q


def split(p, cond):
    """-> [(path, truth of cond)] of the feasible cases"""
    t, f = p.q(cond)[0], p.q(z3.Not(cond))[0]
    if t == z3.unsat:
        return [(p, False)] if f != z3.unsat else []
    if f == z3.unsat:
        return [(p, True)]
    return [(clone(p, cond), True), (clone(p, z3.Not(cond)), False)]


def cases(p):
    """(path, kk, mirrored): kk is the index from the nearer end, an int up to 21"""
    out = []
    for q, m in split(p, 2 * (N - J) - 1 > N):
        kk = J + 1 if m else N - J
        todo = [q]
        for q2, big in split(q, kk > 21):
            if big:
                out.append((q2, kk, m))
                continue
            # which constants?
            for c in range(1, 22):
                r, _ = q2.q(kk == c)
                if r == z3.unsat:
                    continue
                if q2.must(kk == c):
                    out.append((q2, c, m))
                    break
                out.append((clone(q2, kk == c), c, m))
    return out


def basic(chk, p):
    """length and presence; -> True if the path shows a pair"""
    ns = {'ns': [m['n'] for m in p.models()]}
    if p.o.kind != 'ret':
        raise Bad('%s: %s' % (p.o.kind, p.o.msg), ns)
    for l in p.len:
        chk.obligations += 1
        if not p.must(l == N):
            raise Bad('the number of pairs is %s' % l, ns)
        chk.discharged += 1
    inr = p.must(J < N)
    if not inr and not p.must(J >= N):
        raise Unsupported('path does not know whether j < n')
    if not inr:
        if p.some[0] != 0:
            raise Bad('more pairs than the degree', ns)
        return False
    if p.some[0] != 1:
        raise Bad('fewer pairs than the degree', ns)
    return True


def check_acc(chk):
    """C12"""
    nat = core.Native('b', timeout=200)
    done, und = set(), []
    chk.assumptions.add('the reference expansion (gqv/leg.py; compared with Newton iterations on the Legendre recurrence by tools/legref.py) is accurate for n > 100')
    cnt = full = 0
    try:
        P = explore(chk, 'h_leg_at', LO, NMAX, limit=250)
    except Unsupported as e:
        und.append('h_leg_at: %s' % e)
        P = []
    for p in P:
        try:
            if not basic(chk, p):
                continue
            for q, kk, mir in cases(p):
                ns = [m['n'] for m in q.models()]
                xr, wr = ref_terms(kk, mir)
                for what, a, b, tol in (('node', q.x[0], xr, 4e-15), ('weight', q.w[0], wr, 3e-14)):
                    chk.obligations += 1
                    sw = sweep.Sweep(q)
                    d = sw.equal(a, b, rel=what == 'weight')
                    if d is True:
                        chk.discharged += 1
                        cnt += 1
                    elif d is None:
                        raise Unsupported('%s: no sample' % what)
                    elif d > tol:
                        raise Bad('%s for kk=%s differs from the expansion by %s' % (what, kk, mpmath.nstr(d, 3)), {'ns': sw.worst + ns + sw.shrink(a, b, 1e-13, what == 'weight')})
                    else:
                        raise Unsupported('%s for kk=%s not proven equal to the expansion (difference %s at the samples)' % (what, kk, mpmath.nstr(d, 3)))
                full += 1
        except Bad as e:
            chk.log('candidate:', e.why, str(e.env)[:100])
            if not confirm_leg(chk, nat, (e.env or {}).get('ns', []), done):
                und.append('%s (not reproduced on the real code)' % e.why)
            if done:
                break
        except Unsupported as e:
            und.append(str(e))
    if not und and not done:
        chk.part('node and weight equal to the expansion for every degree %d..%d and every index (%d cases)' % (LO, NMAX, full))
    elif not done:
        if full:
            chk.part('%d of the cases' % full)
        # the pairs of some degrees, as computed by the engine, against the roots
        g = []
        for n in (101, 102, 128, 255, 1001):
            try:
                if concrete(chk, n, XTOL, WTOL):
                    g.append(n)
            except Bad as e:
                if not confirm_leg(chk, nat, [n], done):
                    und.append(e.why)
                break
            except Unsupported as e:
                und.append('n=%d: %s' % (n, e))
                break
        if g:
            chk.part('degrees %s, every index' % g)
        if not done:
            confirm_leg(chk, nat, [], done)
    for u in und:
        chk.undecided(u)
    chk.replays = 0
    for n in (101, 102, 200, 1001, 65537):
        v = native_leg(nat, n)
        chk.replays += 1
        if v and v[0] not in done:
            chk.violation(v[0], v[1])
            break


def pairs(chk, n, entry='h_leg', limit=60, cfg='b'):
    """the rule of a concrete degree as a list of (node term, weight term)"""
    eng = chk.engine(cfg, handlers=core.std_handlers(), limit=limit, max_paths=50, max_steps=5000000, timeout=5000)
    st = eng.start(entry, [n, 0.0, 0.0])
    outs = list(eng.run(st))
    chk.assumptions |= eng.assumed
    if len(outs) != 1:
        raise Unsupported('%d paths' % len(outs))
    o = outs[0]
    if o.kind != 'ret':
        raise Bad('%s: %s' % (o.kind, o.msg), {'ns': [n]})
    tr = core.flat(o.st.trace)
    xs, ws = [v for t, v in tr if t == 1], [v for t, v in tr if t == 2]
    if len(xs) != n or len(ws) != n:
        raise Bad('GaussLegendre::new(%d) has %d pairs' % (n, len(xs)), {'ns': [n]})
    return list(zip(xs, ws))


MPF = {'sin': mpmath.sin, 'cos': mpmath.cos, 'sqrt': mpmath.sqrt, 'tan': mpmath.tan, 'exp': mpmath.exp, 'log': mpmath.log, 'pow': mpmath.power}


def mpval(r):
    """real-number value of a constant term"""
    r = const(r)
    if r.op == 'special':
        return mpmath.mpf(term.bitsf(r.a[0]))
    memo = {}
    for x in term.walk(r):
        o = x.op
        a = [memo[y.id] if isinstance(y, R) else y for y in x.a]
        c = term.cval(x)
        if c is not None:
            v = mpmath.mpf(c.numerator) / c.denominator
        elif o == '+':
            v = a[0] + a[1]
        elif o == '-':
            v = a[0] - a[1]
        elif o == '*':
            v = a[0] * a[1]
        elif o == '/':
            v = a[0] / a[1]
        elif o == 'neg':
            v = -a[0]
        elif o == 'abs':
            v = abs(a[0])
        elif o == 'app':
            if a[0] not in MPF:
                raise Unsupported('application of %s' % a[0])
            v = MPF[a[0]](*a[1:])
        else:
            raise Unsupported('operation %s in a constant' % o)
        memo[x.id] = v
    return memo[r.id]


def frac(m):
    return Fraction(int(mpmath.floor(m * 10**40)), 10**40)


_roots = {}


def roots(n):
    """40-digit roots (ascending) and weights of P_n"""
    if n in _roots:
        return _roots[n]
    mpmath.mp.dps = 50
    out = []
    for k in range(1, n // 2 + 1):
        x = mpmath.cos(mpmath.pi * (k - mpmath.mpf(1) / 4) / (n + mpmath.mpf(1) / 2))
        for _ in range(100):
            p0, p1 = mpmath.mpf(1), x
            for m in range(1, n):
                p0, p1 = p1, ((2 * m + 1) * x * p1 - m * p0) / (m + 1)
            if n == 1:
                p0, p1 = mpmath.mpf(1), x
            dp = n * (p0 - x * p1) / (1 - x * x)
            d = p1 / dp
            x -= d
            if abs(d) < mpmath.mpf(10) ** -45:
                break
        out.append((x, 2 / ((1 - x * x) * dp * dp)))
    mid = []
    if n % 2:
        x = mpmath.mpf(0)
        p0, p1 = mpmath.mpf(1), x
        for m in range(1, n):
            p0, p1 = p1, ((2 * m + 1) * x * p1 - m * p0) / (m + 1)
        dp = n * (p0 - x * p1)
        mid = [(x, 2 / (dp * dp))]
    r = [(-x, w) for x, w in out] + mid + out[::-1]
    _roots[n] = r
    return r


def concrete(chk, n, xtol, wtol):
    """every pair of the rule of degree n against the roots of P_n; decided by z3 over a symbolic index"""
    ps = pairs(chk, n)
    rt = roots(n)
    s = z3.Solver()
    s.set('timeout', 60000)
    k = z3.Int('k')
    alts = []
    for i, ((x, w), (xr, wr)) in enumerate(zip(ps, rt)):
        xv, wv = mpval(x), mpval(w)
        dx, dw = frac(abs(xv - xr)), frac(abs(wv - wr) / wr)
        alts.append(z3.And(k == i, z3.Or(term.qv(dx) > term.qv(Fraction(xtol)), term.qv(dw) > term.qv(Fraction(wtol)))))
    s.add(z3.Or(alts))
    chk.obligations += 1
    t0 = time.time()
    r = s.check()
    chk.stats.queries += 1
    chk.stats.time += time.time() - t0
    if r == z3.sat:
        i = s.model()[k].as_long()
        raise Bad('GaussLegendre::new(%d): pair %d is (%s, %s)' % (n, i, mpmath.nstr(mpval(ps[i][0]), 20), mpmath.nstr(mpval(ps[i][1]), 20)), {'ns': [n]})
    chk.discharged += 1
    return ps


# ---------------------------------------------------------------------------------------- C11
def exactness(chk, n, ps):
    """largest |sum w p(x) - int p| over p = sum c_i T_i, |c_i| <= 1, degree <= 2n-1: an LRA query with symbolic coefficients"""
    mpmath.mp.dps = 50
    xs = [mpval(x) for x, _ in ps]
    ws = [mpval(w) for _, w in ps]
    es = []
    a, b = [mpmath.mpf(1)] * n, list(xs)
    for i in range(2 * n):
        q = mpmath.fdot(ws, a)
        ex = mpmath.mpf(2) / (1 - i * i) if i % 2 == 0 else mpmath.mpf(0)
        es.append(frac(q - ex))
        a, b = b, [2 * x * v - u for x, u, v in zip(xs, a, b)]
    s = z3.Solver()
    s.set('timeout', 60000)
    cs = [z3.Real('c%d' % i) for i in range(2 * n)]
    for c in cs:
        s.add(c >= -1, c <= 1)
    e = z3.Sum([term.qv(v) * c for v, c in zip(es, cs)])
    tol = Fraction(EX) * 2 * n * (20 + n) / 20
    s.add(z3.Or(e > term.qv(tol), e < -term.qv(tol)))
    t0 = time.time()
    r = s.check()
    chk.obligations += 1
    chk.stats.queries += 1
    chk.stats.time += time.time() - t0
    if r == z3.unsat:
        chk.discharged += 1
        return float(sum(abs(v) for v in es)) / (2 * n)
    if r == z3.sat:
        raise Bad('GaussLegendre::new(%d) integrates a polynomial of degree %d with an error above %s' % (n, max(range(2 * n), key=lambda i: abs(es[i])), float(tol)), {'ns': [n]})
    raise Unsupported('n=%d: moment query %s' % (n, r))


TX, TW, EX = 2e-15, 4e-15, 2e-15


@core.timed
def native_tab(nat, n):
    """the real pairs of a tabulated rule against 40-digit roots"""
    cmd = ('call', 'h_leg', (n, 0.0, 0.0), ())
    r = nat.calls([cmd])[0]
    if r.bad:
        return 'GaussLegendre::new(%d) panics' % n, [cmd]
    x, w = r.tag(1), r.tag(2)
    if len(x) != n:
        return 'GaussLegendre::new(%d) has %d pairs' % (n, len(x)), [cmd]
    for i, (a, b, (xr, wr)) in enumerate(zip(x, w, roots(n))):
        if not abs(mpmath.mpf(a) - xr) <= TX:
            return 'GaussLegendre::new(%d): node %d is %r instead of %s' % (n, i, a, mpmath.nstr(xr, 20)), [cmd]
        if not abs(mpmath.mpf(b) - wr) <= TW * wr:
            return 'GaussLegendre::new(%d): weight %d is %r instead of %s' % (n, i, b, mpmath.nstr(wr, 20)), [cmd]
    return None


def check_tab(chk):
    """C11"""
    nat = core.Native('b', timeout=200)
    done, ok = set(), []
    worst = 0
    for n in range(1, 101):
        try:
            ps = concrete(chk, n, TX, TW)
            worst = max(worst, exactness(chk, n, ps))
            ok.append(n)
        except Bad as e:
            chk.log('candidate:', e.why)
            v = native_tab(nat, n)
            if v:
                if len(done) < 3:
                    chk.violation(*v)
                done.add(v[0])
            else:
                chk.undecided('%s (not reproduced on the real code)' % e.why)
        except Unsupported as e:
            chk.undecided('n=%d: %s' % (n, e))
            v = native_tab(nat, n)
            if v and not done:
                chk.violation(*v)
                done.add(v[0])
    if ok:
        chk.part('degrees %s: nodes, weights and every polynomial sum c_i T_i, |c_i| <= 1, of degree <= 2n-1 (largest error per term %.2g)' % (span(ok), worst))
        chk.sample('n=%d: pair 0 = (%s, %s)' % (ok[-1], term.show(const(ps[0][0]))[:80], term.show(const(ps[0][1]))[:80]))
    chk.replays = 0
    for n in (1, 2, 3, 50, 57, 99, 100):
        chk.replays += 1
        v = native_tab(nat, n)
        if v and not done:
            chk.violation(*v)
            break


def span(l):
    l = sorted(l)
    out = []
    i = 0
    while i < len(l):
        k = i
        while k + 1 < len(l) and l[k + 1] == l[k] + 1:
            k += 1
        out.append(str(l[i]) if k == i else '%d..%d' % (l[i], l[k]))
        i = k + 1
    return ', '.join(out)


# ---------------------------------------------------------------------------------------- C13
def mirror(p):
    """the path with j replaced by n-1-j"""
    m = [(J, N - 1 - J)]
    for c in p.pc + p.len:
        for v in term.zvars(c) if isinstance(c, z3.AstRef) else []:
            if '!' in v.decl().name():
                m.append((v, z3.Const(v.decl().name() + "'", v.sort())))
    q = copy.copy(p)
    q.pc = [z3.substitute(c, *m) for c in p.pc]
    q.x = [term.subst(r, zm=m) for r in p.x]
    q.w = [term.subst(r, zm=m) for r in p.w]
    return q


def check_total(chk):
    """C13"""
    nat = core.Native('b', timeout=200)
    done, und, ok = set(), [], []
    for n in range(1, 101):
        try:
            ps = pairs(chk, n)
            k = z3.Int('k')
            s = z3.Solver()
            alts = []
            mpmath.mp.dps = 50
            vs = [(mpval(x), mpval(w)) for x, w in ps]
            for i in range(n):
                (x, w), (u, v) = vs[i], vs[n - 1 - i]
                alts.append(z3.And(k == i, z3.Or(term.qv(frac(abs(x + u))) > term.qv(Fraction(SX)), term.qv(frac(abs(w - v) / abs(v))) > term.qv(Fraction(SW)))))
                if 2 * i + 1 == n:
                    alts.append(z3.And(k == i, term.qv(frac(abs(x))) > term.qv(Fraction(1e-15))))
            s.add(z3.Or(alts))
            chk.obligations += 1
            chk.stats.queries += 1
            if s.check() != z3.unsat:
                raise Bad('GaussLegendre::new(%d) is not symmetric at %s' % (n, s.model()), {'ns': [n]})
            chk.discharged += 1
            ok.append(n)
        except Bad as e:
            chk.log('candidate:', e.why)
            if not confirm_leg(chk, nat, [n], done, 'sym', 1):
                und.append('%s (not reproduced on the real code)' % e.why)
            if done:
                break
        except Unsupported as e:
            und.append('n=%d: %s' % (n, e))
    if ok:
        chk.part('degrees %s: no panic, n pairs, symmetric' % span(ok))
    if not done:
        total_sym(chk, nat, done, und)
    for u in und:
        chk.undecided(u)
    chk.replays = 0
    for n in (1, 2, 3, 100, 101, 102, 1001, 65537):
        v = native_leg(nat, n, 'sym')
        chk.replays += 1
        if v and v[0] not in done:
            chk.violation(v[0], v[1])
            break


def total_sym(chk, nat, done, und):
    try:
        P = explore(chk, 'h_leg_at', LO, NMAX, limit=250)
    except Unsupported as e:
        und.append('h_leg_at: %s' % e)
        for n in (101, 102, 200, 513):
            try:
                pairs(chk, n)
                chk.part('degree %d: no panic, n pairs' % n)
            except Bad as e2:
                confirm_leg(chk, nat, [n], done, 'sym')
            except Unsupported:
                pass
        confirm_leg(chk, nat, [], done, 'sym')
        return
    live = []
    for p in P:
        try:
            if basic(chk, p):
                live.append(p)
        except Bad as e:
            chk.log('candidate:', e.why, str(e.env)[:100])
            if not confirm_leg(chk, nat, (e.env or {}).get('ns', []), done, 'sym'):
                und.append('%s (not reproduced on the real code)' % e.why)
            return
        except Unsupported as e:
            und.append(str(e))
            return
    chk.part('every degree %d..%d and every index: no panic, n pairs (%d paths)' % (LO, NMAX, len(P)))
    cnt = 0
    M = [mirror(p) for p in live]
    for p in live:
        for q in M:
            zc = [c for c in q.pc if not any(z3.is_real(v) for v in term.zvars(c))]
            r, m = p.q(2 * J < N - 1, *zc)
            if r == z3.unsat:
                continue
            pc = z3.And(zc + [2 * J < N - 1])
            c = clone(p, pc)
            chk.obligations += 2
            good = True
            for what, a, b in (('node', p.x[0], mk('neg', q.x[0])), ('weight', p.w[0], q.w[0])):
                a2, b2 = sweep.rewrite(c.norm(a)), sweep.rewrite(c.norm(b))
                d = True if leafwise(c, [], a2, b2) else None
                if d is None:
                    sw = sweep.Sweep(c)
                    d = sw.equal(a2, b2, rel=what == 'weight')
                if d is True:
                    chk.discharged += 1
                    cnt += 1
                    continue
                good = False
                if d is not None and d > SX:
                    ns = [e['n'] for e in c.models()] + sw.shrink(a2, b2, SX, what == 'weight')
                    chk.log('candidate: %s not symmetric (%s)' % (what, mpmath.nstr(d, 3)))
                    if confirm_leg(chk, nat, ns, done, 'sym'):
                        return
                    und.append('%s: symmetry (not reproduced on the real code)' % what)
                    if len(und) > 2:
                        return
                else:
                    und.append('%s: symmetry undecided' % what)
                break
            if not good:
                break
    if not und:
        chk.part('every degree %d..%d: node i = -node n-1-i, equal weights (%d pairs of paths)' % (LO, NMAX, cnt))
    middle(chk, nat, live, done, und)


def middle(chk, nat, live, done, und):
    """the middle node of an odd rule"""
    return
