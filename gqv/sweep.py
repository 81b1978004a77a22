"""Equivalence of two real-valued terms on a path, by merging equal subterms bottom up.

Two subterms are compared when they agree numerically at sample points of the path; the merge itself is a solver query: the two
are written as quotients of polynomials over already merged subterms, and z3 has to refute that the cross products differ.
Transcendental applications are equal when their arguments are."""
import struct
import time
from fractions import Fraction
import mpmath
import z3
from . import term
from .exec import Unsupported
from .term import R, mk, const

PI_D = Fraction(3.141592653589793)
MAXT = 6000


# polynomials: {((var, exp), ...): Fraction}
def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 400000:
        raise OverflowError
    for k, v in a.items():
        for l, w in b.items():
            d = dict(k)
            for x, e in l:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items()))
            y = r.get(m, 0) + v * w
            if y:
                r[m] = y
            else:
                r.pop(m, None)
    if len(r) > MAXT:
        raise OverflowError
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


def pvar(v):
    return {((v, 1),): Fraction(1)}


def rewrite(r, memo=None):
    """reflections: cos(pi - t) = -cos t and the like (the double next to pi stands for pi)"""
    memo = {} if memo is None else memo
    for x in term.walk(r):
        if x.id in memo:
            continue
        a = [memo[y.id] if isinstance(y, R) else y for y in x.a]
        if x.op in ('+', '-') and term.cval(a[0]) is not None and term.cval(a[1]) is not None:
            pass
        if x.op == 'app' and x.a[0] in ('sin', 'cos'):
            f, u = x.a[0], a[1]
            s = 1
            while True:
                if u.op == 'neg':
                    if f == 'sin':
                        s = -s
                    u = u.a[0]
                    continue
                if u.op == '-' and term.cval(u.a[0]) is not None:
                    c = term.cval(u.a[0])
                    if abs(c - PI_D) < Fraction(1, 10**15):
                        if f == 'cos':
                            s = -s
                        u = u.a[1]
                        continue
                    if abs(c - PI_D / 2) < Fraction(1, 10**15):
                        f = 'cos' if f == 'sin' else 'sin'
                        u = u.a[1]
                        continue
                break
            y = term.app(f, u)
            memo[x.id] = y if s > 0 else mk('neg', y)
            continue
        memo[x.id] = mk(x.op, *a) if a and x.op not in ('c', 'q', 'v', 'special', 'sum') else x
    return memo[r.id]


class Sweep:
    def __init__(self, path, digits=60):
        self.p = path
        self.chk = path.chk
        self.rep = {}          # node id -> representative node
        self.bysig = {}
        self.sig = {}
        self.pol = {}          # node id -> (num, den) over representatives
        self.names = {}        # representative id -> z3 variable name
        self.envs = [m for m in path.models()][:6]
        mpmath.mp.dps = digits
        self.digits = digits
        self.apps = {'sin': mpmath.sin, 'cos': mpmath.cos, 'sqrt': mpmath.sqrt, 'tan': mpmath.tan, 'exp': mpmath.exp, 'log': mpmath.log,
                     'pow': mpmath.power, 'gamma': mpmath.gamma}
        self.proved = 0
        self.hts = {}

    def cv(self, q):
        return mpmath.mpf(q.numerator) / q.denominator

    def values(self, r):
        """numeric values of all nodes at every sample"""
        out = {}
        for e in self.envs:
            memo = {}
            for x in term.walk(r):
                k = (x.id)
                try:
                    memo[k] = self.num1(x, memo, e)
                except ZeroDivisionError:
                    memo[k] = mpmath.nan
                out.setdefault(k, []).append(memo[k])
        return out

    def num1(self, x, memo, env):
        o = x.op
        a = [memo[y.id] if isinstance(y, R) else y for y in x.a]
        if o in 'cq':
            return self.cv(term.cval(x))
        if o == 'v':
            return env[x.a[0]]
        if o == '+':
            return a[0] + a[1]
        if o == '-':
            return a[0] - a[1]
        if o == '*':
            return a[0] * a[1]
        if o == '/':
            return a[0] / a[1]
        if o == 'neg':
            return -a[0]
        if o == 'abs':
            return abs(a[0])
        if o == 'i2r':
            return self.cv(Fraction(term.zev(x.a[0], env)))
        if o == 'ite':
            return a[1] if term.zev(x.a[0], env) else a[2]
        if o == 'app' and x.a[0] in self.apps:
            return self.apps[x.a[0]](*a[1:])
        if o == 'f32':
            try:
                return mpmath.mpf(struct.unpack('<f', struct.pack('<f', float(a[0])))[0])
            except OverflowError:
                return mpmath.inf
        raise Unsupported('value of ' + str(x.a[0] if o == 'app' else o))

    # ---- polynomials over representatives
    def leaf(self, x):
        v = term.cval(x)
        if v is not None:
            return pconst(v), pconst(1)
        if x.op == 'i2r':
            l = self.p.linear(x.a[0])
            if l is not None:
                r = pconst(l[2])
                r = padd(r, pmul(pconst(l[0]), pvar('n')))
                r = padd(r, pmul(pconst(l[1]), pvar('j')))
                return r, pconst(1)
        return pvar('r%d' % self.rep.get(x.id, x).id[1]), pconst(1)

    def quot(self, x, leaves, root=False):
        """x as a quotient of polynomials over the representatives in `leaves`"""
        k = x.id
        if k in self.pol:
            return self.pol[k]
        c = self.rep.get(x.id, x)
        if x.op in ('c', 'q', 'i2r') or x.op not in ('+', '-', '*', '/', 'neg'):
            r = self.leaf(x if x.op in ('c', 'q', 'i2r') else c)
        elif not root and c.id in leaves:
            r = self.leaf(c)
        else:
            a = [self.quot(y, leaves) for y in x.a]
            if x.op == 'neg':
                r = (pmul(a[0][0], pconst(-1)), a[0][1])
            elif x.op in '+-':
                s = 1 if x.op == '+' else -1
                if a[0][1] == a[1][1]:
                    r = (padd(a[0][0], a[1][0], s), a[0][1])
                else:
                    r = (padd(pmul(a[0][0], a[1][1]), pmul(a[1][0], a[0][1]), s), pmul(a[0][1], a[1][1]))
            elif x.op == '*':
                r = (pmul(a[0][0], a[1][0]), pmul(a[0][1], a[1][1]))
            else:
                r = (pmul(a[0][0], a[1][1]), pmul(a[0][1], a[1][0]))
        self.pol[k] = r
        return r

    def below(self, x):
        """classes of the strict subterms, with the height of their representative"""
        out = {}
        for y in term.walk(x):
            if y is not x and y.op in ('+', '-', '*', '/', 'neg'):
                c = self.rep.get(y.id, y)
                out[c.id] = self.height(c)
        return out

    def height(self, x):
        if x.id not in self.hts:
            for y in term.walk(x):
                if y.id not in self.hts:
                    self.hts[y.id] = 1 + max([self.hts[z.id] for z in y.a if isinstance(z, R)], default=0)
        return self.hts[x.id]

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = term.qv(c)
            for v, e in m:
                x = z3.Real(v)
                for _ in range(e):
                    t = t * x
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def identical(self, x, y):
        """z3 refutes x != y, over the representatives"""
        if x.op == 'app' and y.op == 'app':
            return x.a[0] == y.a[0] and all(self.rep.get(u.id, u) is self.rep.get(v.id, v) for u, v in zip(x.a[1:], y.a[1:]))
        if x.op == 'f32' and y.op == 'f32':
            return self.rep.get(x.a[0].id, x.a[0]) is self.rep.get(y.a[0].id, y.a[0])
        bx, by = self.below(x), self.below(y)
        shared = {k: h for k, h in bx.items() if k in by}
        hs = sorted(set(shared.values()), reverse=True)
        if len(hs) > 10:
            hs = hs[:5] + [hs[5 + (len(hs) - 6) * i // 4] for i in range(5)]
        for h in hs + [0]:
            self.pol.clear()
            lv = {k for k, g in shared.items() if g <= h}
            try:
                (a, b), (c, e) = self.quot(x, lv, True), self.quot(y, lv, True)
                l, r = pmul(a, e), pmul(c, b)
            except OverflowError:
                return False
            if padd(l, r, -1):
                continue       # the solver could not refute this one: the polynomials are different
            s = z3.Solver()
            s.set('timeout', 10000)
            if len(l) + len(r) < 400:
                s.add(self.zpoly(l) != self.zpoly(r))
                t0 = time.time()
                res = s.check()
                self.chk.stats.queries += 1
                self.chk.stats.time += time.time() - t0
                if res != z3.unsat:
                    continue
            return True
        return False

    def add(self, r):
        """merge the nodes of r into the classes"""
        vals = self.values(r)
        for x in term.walk(r):
            if x.id in self.rep:
                continue
            s = tuple(mpmath.nstr(v, self.digits - 22) for v in vals[x.id])
            self.sig[x.id] = vals[x.id]
            self.rep[x.id] = x
            for y in self.bysig.get(s, []):
                if self.identical(x, y):
                    self.rep[x.id] = y
                    self.proved += 1
                    break
            else:
                self.bysig.setdefault(s, []).append(x)

    def shrink(self, a, b, tol, rel=False, upto=24):
        """degrees, small first, at which the terms differ by more than tol (to have something that can be run)"""
        from .trig import N, J
        a, b = rewrite(self.p.norm(a)), rewrite(self.p.norm(b))
        out = []
        old = self.envs
        for k in range(7, upto + 1):
            for cs in ([J == 0], [J == N - 1], [2 * J < N, 2 * J > N - 40], [2 * J > N, 2 * J < N + 40], [J > 30, 4 * J < N], [4 * J > 3 * N, J < N - 30], [N % 2 == 1], [2 * J == N - 1]):
                r, m = self.p.q(N > (1 << k - 1), N <= (1 << k), *cs)
                if m is None:
                    continue
                e = {v.decl().name(): m.eval(v, model_completion=True).as_long() for v in self.p.ints()}
                e['n'], e['j'] = m.eval(N, model_completion=True).as_long(), m.eval(J, model_completion=True).as_long()
                self.envs = [e]
                try:
                    x, y = self.values(a)[a.id][0], self.values(b)[b.id][0]
                except (Unsupported, KeyError):
                    continue
                if not mpmath.isfinite(x) or not mpmath.isfinite(y) or abs(x - y) > tol * (abs(y) if rel else 1):
                    out.append(e['n'])
            if len(out) > 3:
                break
        self.envs = old
        return out

    def equal(self, a, b, rel=False):
        """-> True (proved), or the largest (relative) difference at the samples; the degrees of the samples go to .worst"""
        if not self.envs:
            return None
        a, b = rewrite(self.p.norm(a)), rewrite(self.p.norm(b))
        if a is b:
            return True
        self.add(a)
        self.add(b)
        if self.rep[a.id] is self.rep[b.id] or self.identical(a, b):
            return True
        va, vb = self.values(a)[a.id], self.values(b)[b.id]
        va = [x if mpmath.isfinite(x) else mpmath.mpf(10)**300 for x in va]
        vb = [x if mpmath.isfinite(x) and (x or not rel) else mpmath.mpf(10)**-300 for x in vb]
        ds = sorted(((abs(x - y) / abs(y) if rel else abs(x - y), e['n']) for x, y, e in zip(va, vb, self.envs)), reverse=True)
        self.worst = [n for _, n in ds]
        return ds[0][0]
