"""C10 C14 C15: rules with explicit formulas, for every degree n and every index j at once."""
import itertools
import math
import random
import time
from fractions import Fraction
import z3
from . import core, term, exec as X
from .term import R, const, mk
from .exec import Unsupported
from .grid import Bad

N, J = z3.Int('n'), z3.Int('j')
NMAX = 2**32
PI_LO, PI_HI = Fraction(314159265358979323846, 10**20), Fraction(314159265358979323847, 10**20)


def conj(cs):
    """flat list of conjuncts"""
    out = []
    for c in cs:
        if z3.is_and(c):
            out += conj(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            out += conj([z3.Not(x) for x in c.arg(0).children()])
        else:
            out.append(c)
    return out


class Path:
    """one path of an entry that shows one pair (n, j): the pair as terms over n and j"""

    def __init__(self, chk, eng, o):
        self.chk, self.eng, self.o = chk, eng, o
        self.pc = list(o.st.pc)
        tr = core.flat(o.st.trace)
        self.len = [v for t, v in tr if t == 30]
        self.some = [v for t, v in tr if t == 20]
        self.x = [const(v) for t, v in tr if t == 1]
        self.w = [const(v) for t, v in tr if t == 2]
        self.s = z3.Solver()
        self.s.set('timeout', 10000)
        self.s.add(*[c for c in self.pc if not any(z3.is_real(v) for v in term.zvars(c))])
        self._mod = None
        self._lin = {}

    def q(self, *conds):
        self.s.push()
        self.s.add(*conds)
        t0 = time.time()
        r = self.s.check()
        self.chk.stats.queries += 1
        self.chk.stats.time += time.time() - t0
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return r, m

    def must(self, c):
        return self.q(z3.Not(c))[0] == z3.unsat

    def models(self):
        """a few different values of the integer variables"""
        if self._mod is None:
            out = []
            rnd = random.Random(1)
            for k in range(14):
                cs = []
                if k % 3 == 0:
                    cs.append(N <= [300, 130, 5, 60, 1000][k // 3 % 5])
                elif k % 3 == 1:
                    cs.append(N % 7 == rnd.randrange(7))
                    cs.append(N >= rnd.choice([10, 50, 150]))
                if k % 2:
                    cs.append(J % 5 == rnd.randrange(5))
                for e in out[-6:]:
                    cs.append(z3.Or(N != e['n'], J != e['j']))
                if k >= 8:
                    cs.append(N <= 10000)
                while True:
                    r, m = self.q(*cs)
                    if r == z3.sat:
                        e = {}
                        for v in self.ints():
                            e[v.decl().name()] = m.eval(v, model_completion=True).as_long()
                        out.append(e)
                        break
                    if not cs:
                        break
                    cs = cs[1:]
                if r != z3.sat:
                    break
            self._mod = out
        return self._mod

    def ints(self):
        d = {'n': N, 'j': J}
        for c in self.pc:
            for v in term.zvars(c):
                if z3.is_int(v):
                    d[v.decl().name()] = v
        for r in self.x + self.w:
            for y in term.walk(r):
                for a in y.a:
                    if isinstance(a, z3.AstRef):
                        for v in term.zvars(a):
                            if z3.is_int(v):
                                d[v.decl().name()] = v
        return list(d.values())

    def linear(self, e):
        """an integer expression as a rational linear form (p, q, c) with e == p*n + q*j + c under the path condition"""
        k = e.get_id()
        if k in self._lin and self._lin[k][0].eq(e):
            return self._lin[k][1]
        r = self._linear(e)
        self._lin[k] = (e, r)
        return r

    def _linear(self, e):
        ms = self.models()
        if not ms:
            return None
        try:
            pts = [(m['n'], m['j'], term.zev(e, m)) for m in ms]
        except KeyError:
            return None
        for den in (1, 2, 4):
            rg = sorted(range(-2 * den, 2 * den + 1), key=abs)
            for p, q in sorted(((p, q) for p in rg for q in rg), key=lambda t: abs(t[0]) + abs(t[1])):
                if True:
                    c = pts[0][2] * den - p * pts[0][0] - q * pts[0][1]
                    if abs(c) > 10**9:
                        continue
                    if all(v * den == p * n + q * j + c for n, j, v in pts):
                        if self.must(e * den == p * N + q * J + c):
                            return (Fraction(p, den), Fraction(q, den), Fraction(c, den))
        return None

    def norm(self, r):
        """rewrite the integers of a term to linear forms of n and j where possible"""
        rm = {}
        for y in term.walk(r):
            if y.op == 'i2r':
                l = self.linear(y.a[0])
                if l is not None and l[0].denominator == l[1].denominator == l[2].denominator == 1:
                    rm[y.id] = term.i2r(z3.simplify(int(l[0]) * N + int(l[1]) * J + int(l[2])))
            elif y.op == 'ite':
                c = y.a[0]
                if self.must(c):
                    rm[y.id] = y.a[1]
                elif self.must(z3.Not(c)):
                    rm[y.id] = y.a[2]
        for _ in range(3):
            r2 = term.subst(r, rm)
            if r2 is r:
                break
            r = r2
        return r

    def realpc(self):
        """what the path says about n and j, over the reals"""
        out = []
        for c in conj(self.pc):
            if any(z3.is_real(v) for v in term.zvars(c)):
                continue
            z = term.relax_bool(z3.simplify(c))
            if all(v.decl().name() in ('n', 'j') for v in term.zvars(z)) and len(str(z)) < 400:
                out.append(z)
        # direct consequences that the relaxation can lose
        for p, q, c in ((1, 0, 0), (1, -1, -1), (0, 1, 0)):
            m = z3.Int('lo!')
            if self.must(p * N + q * J + c >= 0):
                out.append(p * z3.Real('n') + q * z3.Real('j') + c >= 0)
        for p, q in ((1, -2), (1, -1), (0, 1)):
            # equalities p n + q j = c
            ms = self.models()
            c = {p * e['n'] + q * e['j'] for e in ms}
            if len(c) == 1:
                c = c.pop()
                if self.must(p * N + q * J == c):
                    out.append(p * z3.Real('n') + q * z3.Real('j') == c)
        return out


def explore(chk, entry, lo, hi, limit=120, cfg='b', sched=None, ints=(N, J), summarize=True):
    """-> list of Path; a panic or UB path is returned with o.kind"""
    from .par import sched as mksched
    eng = chk.engine(cfg, summarize=summarize, handlers=core.std_handlers(), limit=limit, max_paths=4000, max_steps=400000, timeout=5000)
    if sched is not None:
        eng.handlers['vsched'] = mksched(*sched)
    st = eng.start(entry, list(ints))
    for v in ints[1:]:
        if isinstance(v, z3.AstRef):
            st.pc += [v >= 0, v < 2**64]
    if isinstance(ints[0], z3.AstRef):
        st.pc += [ints[0] >= lo, ints[0] <= hi]
    out = []
    for o in eng.run(st):
        out.append(Path(chk, eng, o))
    chk.assumptions |= eng.assumed
    if not out:
        raise Unsupported('no path')
    return out


# ------------------------------------------------------------------------------------ trigonometric identities
class Trig:
    """prove |term - want(C, S)| <= tol on a path, where C = cos(theta), S = sin(theta)"""

    def __init__(self, path, theta, thf):
        """theta: z3 real over n, j, pi ; thf: (n, j) -> float"""
        self.p = path
        self.chk = path.chk
        self.theta, self.thf = theta, thf
        self.PI = z3.Real('pi')
        self.n, self.j = z3.Real('n'), z3.Real('j')
        self.base = [self.PI > term.qv(PI_LO), self.PI < term.qv(PI_HI), self.n >= 1, self.j >= 0, self.j <= self.n - 1] + path.realpc()
        self.C, self.S = z3.Real('C'), z3.Real('S')
        self.facts = [self.C * self.C + self.S * self.S == 1, self.C <= 1, self.C >= -1, self.S <= 1, self.S >= -1]
        self.zr = term.Z(relax=True)
        self.eps = Fraction(2, 10**16)
        self.mods = [m for m in path.models() if m['n'] < 2**26][:10]

    def solve(self, *conds, to=15000):
        """-> 'unsat' / 'sat' / 'unknown'"""
        t0 = time.time()
        for mk_ in (lambda: z3.Tactic('qfnra-nlsat').solver(), z3.Solver):
            s = mk_()
            s.set('timeout', to)
            s.add(*conds)
            r = s.check()
            self.chk.stats.queries += 1
            if r != z3.unknown:
                break
        self.chk.stats.time += time.time() - t0
        if r == z3.unknown:
            self.chk.stats.unknown += 1
        self.last = s.model() if r == z3.sat else None
        return str(r)

    def num(self, r, m):
        return term.ev(r, m, {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt}, arith=float)

    def args(self, u):
        """u == s*theta + k*pi/2 up to eps: all (s, k) that hold on this path"""
        us = [(self.num(u, m), self.thf(m['n'], m['j'])) for m in self.mods]
        out, bad, und = [], None, False
        for s in (1, -1, 0, Fraction(1, 2), Fraction(-1, 2), 2, -2):
            k = (us[0][0] - float(s) * us[0][1]) / (math.pi / 2)
            k = round(k)
            if abs(k) > 40:
                continue
            if all(abs(a - float(s) * t - k * math.pi / 2) < 1e-6 for a, t in us):
                d = self.zr(u) - (self.theta * term.qv(Fraction(s)) + self.PI * term.qv(Fraction(k, 2)))
                r = self.solve(*self.base, z3.Or(d > term.qv(self.eps * (1 + abs(k))), d < -term.qv(self.eps * (1 + abs(k)))))
                if r == 'unsat':
                    out.append((s, k))
                elif r == 'sat':
                    bad = Bad('argument %s differs from %s*theta+%d*pi/2' % (term.show(u)[:120], s, k), self.env())
                else:
                    und = True
        self.chk.obligations += 1
        if out:
            self.chk.discharged += 1
            return out
        if bad:
            raise bad
        if und:
            raise Unsupported('trigonometric argument undecided: ' + term.show(u)[:100])
        raise Bad('argument %s is not a multiple of theta' % term.show(u)[:160], None)

    def env(self):
        """integer models to try natively"""
        out = []
        m = self.last
        if m is not None:
            try:
                nv = m.eval(self.n, model_completion=True)
                jv = m.eval(self.j, model_completion=True)
                out.append((int(nv.as_fraction()), int(jv.as_fraction())))
            except Exception:
                pass
        return {'ns': [e['n'] for e in self.p.models()] + [x[0] for x in out]}

    def value(self, s, k, fn):
        """the value fn(s*theta + k*pi/2) in terms of C and S (and half-angle or double-angle companions)"""
        if fn == 'sin':
            k -= 1              # sin(u) = cos(u - pi/2)
        if s == 0:
            return z3.RealVal([1, 0, -1, 0][k % 4])
        if abs(s) == 1:
            c, sn = self.C, self.S
        elif abs(s) == 2:
            c, sn = self.C * self.C - self.S * self.S, 2 * self.C * self.S
        else:
            c, sn = z3.Real('Ch'), z3.Real('Sh')
            self.facts += [c * c + sn * sn == 1, self.C == c * c - sn * sn, self.S == 2 * c * sn, c >= 0, sn >= 0]
        if s < 0:
            sn = -sn
        # cos(v + k pi/2)
        return [c, -sn, -c, sn][k % 4]

    def prove(self, r, want, tol, what):
        """want: function (C, S) -> z3 real"""
        r = self.p.norm(r)
        if not self.mods:
            raise Unsupported('no small model of the path')
        todo = []
        for y in list(term.walk(r)):
            if y.op == 'app' and y.a[0] in ('sin', 'cos'):
                if any(z.op == 'app' for z in term.walk(y.a[1])):
                    raise Unsupported('nested application')
                todo.append((y, self.args(y.a[1])))
            elif y.op == 'app' or y.op == 'special':
                raise Unsupported('application of ' + str(y.a[0]))
        # is theta itself a multiple of pi/2 on this path?
        extra = []
        us = [self.thf(m['n'], m['j']) for m in self.mods]
        for k in range(0, 5):
            if all(abs(u - k * math.pi / 2) < 1e-6 for u in us):
                d = self.theta - self.PI * term.qv(Fraction(k, 2))
                if self.solve(*self.base, z3.Or(d > term.qv(self.eps), d < -term.qv(self.eps))) == 'unsat':
                    e = term.qv(self.eps)
                    cv, sv = [1, 0, -1, 0, 1][k], [0, 1, 0, -1, 0][k]
                    extra = [self.C - cv <= e, cv - self.C <= e, self.S - sv <= e, sv - self.S <= e]
        self.chk.obligations += 1
        lim = tol if isinstance(tol, z3.AstRef) else term.qv(tol)
        res = 'unknown'
        for choice in itertools.islice(itertools.product(*[a for _, a in todo]), 16):
            rm, errs = {}, []
            for i, ((y, _), (s, k)) in enumerate(zip(todo, choice)):
                v = self.value(s, k, y.a[0])
                rm[y.id] = term.var('trig%d' % i)
                e = term.qv(self.eps * (1 + abs(k)))
                errs += [z3.Real('trig%d' % i) - v <= e, v - z3.Real('trig%d' % i) <= e]
            d = self.zr(term.subst(r, rm)) - want(self.C, self.S)
            goal = z3.Or(d > lim, d < -lim)
            r1 = self.solve(*self.base, *self.facts, *errs, *extra, goal)
            if r1 == 'unknown':
                # without what relates n and j
                if self.solve(self.PI > term.qv(PI_LO), self.PI < term.qv(PI_HI), self.n >= 1, *self.facts, *errs, *extra, goal) == 'unsat':
                    r1 = 'unsat'
            if r1 == 'unsat':
                self.chk.discharged += 1
                return
            if r1 == 'sat':
                res = 'sat'
        if res == 'sat':
            raise Bad('%s is %s' % (what, term.show(r)[:200]), self.env())
        raise Unsupported(what + ': undecided')


KIND = {
    'che1': dict(theta=lambda n, j, pi: (2 * (n - j) - 1) * pi / (2 * n), thf=lambda n, j: (2 * (n - j) - 1) * math.pi / (2 * n),
                 w=lambda n, j, pi, C, S: pi / n, wscale=lambda n, pi: pi / n),
    'che2': dict(theta=lambda n, j, pi: (n - j) * pi / (n + 1), thf=lambda n, j: (n - j) * math.pi / (n + 1),
                 w=lambda n, j, pi, C, S: pi / (n + 1) * S * S, wscale=lambda n, pi: pi / (n + 1)),
}
CTOL = 1e-14


@core.timed
def native_cheb(nat, kind, entry, n):
    """the whole rule against its closed form; -> (text, commands) or None"""
    import numpy as np
    if n > 2**24:
        return None
    cmd = ('call', entry, (n,) if entry.endswith('_pn') else (n, 0.0, 0.0), ())
    r, x, w = nat.rule(*cmd[1:3])
    if r.bad:
        return '%s(n=%d) panics' % (entry, n), [cmd]
    if len(x) != n:
        return '%s(n=%d) has %d pairs' % (entry, n, len(x)), [cmd]
    k = KIND[kind]
    if n <= 3000:
        import mpmath
        mpmath.mp.prec = 90
        pi = mpmath.pi
        th = [k['theta'](mpmath.mpf(n), i, pi) for i in range(n)]
        xr = np.array([float(mpmath.cos(t)) for t in th])
        wr = np.array([float(k['w'](n, i, pi, mpmath.cos(t), mpmath.sin(t))) for i, t in enumerate(th)])
    else:
        i = np.arange(n, dtype=np.longdouble)
        pi = np.longdouble('3.14159265358979323846264')
        th = k['theta'](np.longdouble(n), i, pi)
        xr = np.cos(th)
        wr = k['w'](np.longdouble(n), i, pi, xr, np.sin(th)) + 0 * i
    bad = np.nonzero(~(np.abs(x - xr) <= CTOL))[0]
    if len(bad):
        i = int(bad[0])
        return '%s(n=%d): node %d is %r instead of %r' % (entry, n, i, float(x[i]), float(xr[i])), [cmd]
    bad = np.nonzero(~(np.abs(w - wr) <= CTOL * float(k['wscale'](n, math.pi))))[0]
    if len(bad):
        i = int(bad[0])
        return '%s(n=%d): weight %d is %r instead of %r' % (entry, n, i, float(w[i]), float(wr[i])), [cmd]
    return None


def confirm_cheb(chk, nat, kind, env, done, entry=None):
    ns = [n for n in (env or {}).get('ns', []) if 1 <= n <= 2**24]
    ns = sorted(set(ns))
    for n in ns[:12] + ns[-2:] + list(range(1, 40)) + [50, 64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 500, 513, 1000, 1001, 1025, 4097, 65537, 100001]:
        v = native_cheb(nat, kind, entry or 'h_' + kind, n)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


def check_cheb(chk, kind):
    nat = core.Native('b', timeout=100)
    K = KIND[kind]
    done = set()
    entry = 'h_%s_at' % kind
    full = True
    cnt = 0
    und = []
    try:
        paths = explore(chk, entry, 1, NMAX, limit=200)
        for p in paths:
            try:
                check_pair(chk, p, K)
                cnt += 1
            except Bad as e:
                chk.log('candidate:', e.why, str(e.env)[:100])
                full = False
                if not confirm_cheb(chk, nat, kind, e.env or {'ns': [m['n'] for m in p.models()]}, done):
                    und.append('%s: %s (not reproduced on the real code)' % (entry, e.why))
            except Unsupported as e:
                full = False
                und.append('%s: %s' % (entry, e))
    except Unsupported as e:
        full = False
        und.append('%s: %s' % (entry, e))
    if full:
        chk.part('%s: every degree 1..%d and every index (%d paths)' % (entry, NMAX, cnt))
        if paths:
            chk.sample('%s: node %s weight %s' % (entry, term.show(paths[0].x[0])[:150] if paths[0].x else '-', term.show(paths[0].w[0])[:150] if paths[0].w else '-'))
    elif not done:
        # concrete degrees, each pair decided by the solver
        ok = []
        for n in list(range(1, 13)) + [16, 21, 32, 33, 63]:
            try:
                r = concrete_cheb(chk, kind, n)
                ok.append(n)
            except Bad as e:
                if not confirm_cheb(chk, nat, kind, {'ns': [n]}, done):
                    und.append('%s n=%d: %s' % (entry, n, e.why))
                break
            except Unsupported as e:
                und.append('%s n=%d: %s' % (entry, n, e))
                break
        if ok:
            chk.part('%s: degrees %s' % (entry, ok))
    for u in und:
        chk.undecided(u)
    chk.replays = 0
    for n in (1, 2, 3, 10, 101, 1000):
        v = native_cheb(nat, kind, 'h_' + kind, n)
        chk.replays += 1
        if v and v[0] not in done:
            chk.violation(v[0], v[1])
            break


def check_pair(chk, p, K):
    if p.o.kind != 'ret':
        raise Bad('%s: %s' % (p.o.kind, p.o.msg), {'ns': [m['n'] for m in p.models()]})
    for l in p.len:
        chk.obligations += 1
        if not p.must(l == N):
            raise Bad('the number of pairs is %s' % l, {'ns': [m['n'] for m in p.models()]})
        chk.discharged += 1
    inr = p.must(J < N)
    out = p.must(J >= N)
    if not inr and not out:
        raise Unsupported('path does not know whether j < n')
    some = p.some[0]
    if out:
        if some != 0:
            raise Bad('more pairs than the degree', {'ns': [m['n'] for m in p.models()]})
        return
    if some != 1:
        raise Bad('fewer pairs than the degree', {'ns': [m['n'] for m in p.models()]})
    n, j, pi = z3.Real('n'), z3.Real('j'), z3.Real('pi')
    t = Trig(p, K['theta'](n, j, pi), K['thf'])
    t.prove(p.x[0], lambda C, S: C, Fraction(2, 10**15), 'node')
    t.prove(p.w[0], lambda C, S: K['w'](n, j, pi, C, S), term.qv(Fraction(5, 10**15)) * K['wscale'](n, pi), 'weight')


def concrete_cheb(chk, kind, n):
    """every pair of a rule of concrete degree: the engine's terms are evaluated in exact rational/interval arithmetic by z3"""
    K = KIND[kind]
    paths = explore(chk, 'h_%s_at' % kind, n, n, ints=(n, J), summarize=False, limit=60)
    seen = 0
    for p in paths:
        if p.o.kind != 'ret':
            raise Bad('%s: %s' % (p.o.kind, p.o.msg), {'ns': [n]})
        if any(l != n for l in p.len):
            raise Bad('%s pairs' % p.len, {'ns': [n]})
        for i in range(n):
            if p.q(J == i)[0] != z3.sat:
                continue
            if p.some[0] != 1:
                raise Bad('no pair %d' % i, {'ns': [n]})
            seen += 1
            ev = {'n': n, 'j': i}
            f = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt}
            try:
                x, w = (term.ev(r, ev, f, arith=float) for r in (p.x[0], p.w[0]))
            except KeyError as e:
                raise Unsupported('value not evaluated: %s' % e)
            th = K['thf'](n, i)
            # decided over rationals: |x - cos| and |w - w*| within tolerance
            s = z3.Solver()
            X_, W_ = term.qv(Fraction(x)), term.qv(Fraction(w))
            C_ = term.qv(Fraction(math.cos(th)))
            W0 = term.qv(Fraction(K['w'](n, i, math.pi, math.cos(th), math.sin(th))))
            tol = term.qv(Fraction(1, 10**14))
            s.add(z3.Or(X_ - C_ > tol, C_ - X_ > tol, W_ - W0 > tol, W0 - W_ > tol))
            chk.obligations += 1
            if s.check() != z3.unsat:
                raise Bad('pair %d is (%r, %r)' % (i, x, w), {'ns': [n]})
            chk.discharged += 1
    if seen < n:
        raise Unsupported('only %d of %d pairs seen' % (seen, n))


# ------------------------------------------------------------------------------------ C10: par_new and new
def canon(r, memo=None):
    """the same machine result, one spelling: + and * commute bit for bit"""
    memo = {} if memo is None else memo
    for x in term.walk(r):
        if x.id in memo:
            continue
        a = [memo[y.id] if isinstance(y, R) else y for y in x.a]
        if x.op in '+*' and a[0].id > a[1].id:
            a.reverse()
        if x.op == 'i2r':
            a = [z3.simplify(a[0])]
            if z3.is_int_value(a[0]):
                memo[x.id] = mk('c', term.fbits(float(a[0].as_long())))
                continue
        memo[x.id] = mk(x.op, *a) if a else x
    return memo[r.id]


def rename(cs, suffix):
    out = []
    for c in cs:
        m = [(v, z3.Const(v.decl().name() + suffix, v.sort())) for v in term.zvars(c) if '!' in v.decl().name()]
        out.append(z3.substitute(c, *m) if m else c)
    return out


@core.timed
def native_pn(nat, kind, n):
    cmds = [('call', 'h_' + kind, (n, 0.0, 0.0), ()), ('call', 'h_%s_pn' % kind, (n,), ())]
    if n > 4096:
        import numpy as np
        (r0, *p), (r1, *q) = nat.rule(*cmds[0][1:3]), nat.rule(*cmds[1][1:3])
        if r0.bad:
            return None
        if r1.bad:
            return '%s: par_new(%d) panics, new does not' % (kind, n), cmds
        if len(p[0]) != len(q[0]):
            return '%s: par_new(%d) has %d pairs, new has %d' % (kind, n, len(q[0]), len(p[0])), cmds
        for what, a, b in (('node', p[0], q[0]), ('weight', p[1], q[1])):
            bad = np.nonzero(a.view('<u8') != b.view('<u8'))[0] if len(a) == len(b) else [0]
            if len(bad):
                i = int(bad[0])
                return '%s: par_new(%d) and new(%d) differ in %s %d: %r, %r' % (kind, n, n, what, i, float(b[i]), float(a[i])), cmds
        return None
    r0, r1 = nat.calls(cmds)
    if r0.bad:
        return None
    if r1.bad:
        return '%s: par_new(%d) panics, new does not' % (kind, n), cmds
    a, b = [(t, term.fbits(v)) for t, v in r0.ev], [(t, term.fbits(v)) for t, v in r1.ev]
    if len(a) != len(b):
        return '%s: par_new(%d) has %d pairs, new has %d' % (kind, n, len(b) // 2, len(a) // 2), cmds
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            return '%s: par_new(%d) and new(%d) differ in pair %d: %r, %r' % (kind, n, n, i // 2, r1.ev[i][1], r0.ev[i][1]), cmds
    return None


def confirm_pn(chk, nat, kind, ns, done):
    ns = sorted({n for n in ns if 1 <= n <= 2**24})
    for n in ns[:12] + ns[-2:] + list(range(1, 40)) + [50, 64, 99, 100, 101, 102, 127, 128, 200, 255, 256, 257, 500, 513, 1000, 1001, 1025, 4097, 5001, 8193, 65537, 100001, 200000]:
        v = native_pn(nat, kind, n)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


class Late:
    """degrees with the given conditions on a path, small ones first; asked for only when a candidate is reported"""

    def __init__(self, p, pc):
        self.p, self.pc = p, pc

    def __iter__(self):
        out = []
        for b in (100, 300, 1500, 20000, 150000, 2**21, 2**22, 2**23, 2**24, 2**32):
            m = self.p.q(*self.pc, N <= b)[1]
            if m is not None:
                out.append(m.eval(N, model_completion=True).as_long())
        return iter(out)


def compare_paths(chk, P, Q):
    """every pair of compatible paths shows the same pair"""
    cnt = 0
    ren = {q: z3.And([c for c in rename(q.pc, "'") if not any(z3.is_real(v) for v in term.zvars(c))]) for q in Q}
    for p in P:
        if p.o.kind != 'ret':
            continue
        px = [canon(p.norm(r)) for r in p.x + p.w]
        for q in Q:
            pc = [ren[q]]
            r, m = p.q(*pc)
            if r == z3.unsat:
                continue
            ns = Late(p, pc)
            chk.obligations += 1
            if q.o.kind != 'ret':
                raise Bad('par_new: %s %s' % (q.o.kind, q.o.msg), {'ns': ns})
            if p.some != q.some:
                raise Bad('one of new, par_new has no pair', {'ns': ns})
            for own in (p, q):
                for a in own.len:
                    if not own.must(a == N):
                        raise Bad('different lengths', {'ns': Late(own, [a != N])})
            if not hasattr(q, 'cx'):
                q.cx = [canon(q.norm(r)) for r in q.x + q.w]
            qx = q.cx
            for a, b in zip(px, qx):
                if a is not b and not leafwise(p, pc, a, b):
                    raise Bad('the pair is (..%s..) in par_new and (..%s..) in new' % (term.show(b)[:120], term.show(a)[:120]), {'ns': ns})
            chk.discharged += 1
            cnt += 1
    return cnt


def as_int(r):
    if r.op == 'i2r':
        return r.a[0]
    v = term.cval(r)
    return z3.IntVal(int(v)) if v is not None and v.denominator == 1 else None


def leafwise(p, pc, a, b, memo=None):
    """the same operations on integers that are equal under the path conditions"""
    if a is b:
        return True
    memo = {} if memo is None else memo
    k = (a.id, b.id)
    if k in memo:
        return memo[k]
    memo[k] = r = _leafwise(p, pc, a, b, memo)
    return r


def _leafwise(p, pc, a, b, memo):
    if 'i2r' in (a.op, b.op):
        x, y = as_int(a), as_int(b)
        return x is not None and y is not None and p.q(*pc, x != y)[0] == z3.unsat
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op in '+*':
        (x, y), (u, v) = a.a, b.a
        return (leafwise(p, pc, x, u, memo) and leafwise(p, pc, y, v, memo)) or (leafwise(p, pc, x, v, memo) and leafwise(p, pc, y, u, memo))
    for x, y in zip(a.a, b.a):
        if isinstance(x, R) and isinstance(y, R):
            if not leafwise(p, pc, x, y, memo):
                return False
        elif isinstance(x, z3.AstRef) and isinstance(y, z3.AstRef):
            if not x.eq(y) and p.q(*pc, x != y)[0] != z3.unsat:
                return False
        elif x is not y and x != y:
            return False
    return True


def pairs_concrete(chk, entry, n, sched=None, limit=60, cfg='b'):
    """all schedules of a construction of concrete size -> set of traces (tuple of canonical terms)"""
    from .par import sched as mksched
    eng = chk.engine(cfg, handlers=core.std_handlers(), limit=limit, max_paths=200000, max_steps=2000000, timeout=5000)
    if sched is not None:
        eng.handlers['vsched'] = mksched(*sched)
    st = eng.start(entry, [n] if entry.endswith('_pn') else [n, 0.0, 0.0])
    np, out = 0, {}
    for o in eng.run(st):
        np += 1
        if o.kind != 'ret':
            raise Bad('%s: %s' % (o.kind, o.msg), {'ns': [n]})
        k = tuple(canon(const(v)) for t, v in core.flat(o.st.trace))
        out[k] = out.get(k, 0) + 1
    chk.assumptions |= eng.assumed
    if not np:
        raise Unsupported('no path')
    return out, np


def check_parnew(chk):
    nat = core.Native('b', timeout=200)
    chk.assumptions.add('rayon-core is replaced by a stand-in that runs the two halves of a join one after the other, in either order, stolen or not')
    core.module('b')
    kinds = ('leg', 'che1', 'che2')

    def conc(kind, n, mode, t, limit):
        """one degree; -> number of schedules"""
        def go(chk):
            if chk.left() < 100:
                return None
            try:
                a, _ = pairs_concrete(chk, 'h_' + kind, n, limit=limit)
                b, np = pairs_concrete(chk, 'h_%s_pn' % kind, n, (mode, t), limit=limit)
                chk.obligations += 1
                if set(a) != set(b):
                    raise Bad('a schedule gives other pairs', {'ns': [n]})
                chk.discharged += 1
                return (kind, mode, t), n, np
            except Bad as e:
                chk.log('candidate:', kind, n, e.why)
                if not confirm_pn(chk, nat, kind, (e.env or {}).get('ns', []), set()):
                    chk.undecided('%s n=%d: %s (not reproduced on the real code)' % (kind, n, e.why))
            except Unsupported as e:
                chk.undecided('%s n=%d (%s, %d threads): %s' % (kind, n, mode, t, e))
        return go

    def sym(kind, mode):
        """every degree and every index, one family of schedules"""
        def go(chk):
            lo = 101 if kind == 'leg' else 1
            try:
                P = explore(chk, 'h_%s_at' % kind, lo, NMAX, limit=100)
                Q = explore(chk, 'h_%s_pat' % kind, lo, NMAX, limit=150, sched=mode)
                return 'sym', kind, '%s/%d threads (%d path pairs)' % (*mode, compare_paths(chk, P, Q))
            except Bad as e:
                chk.log('candidate:', kind, mode, e.why)
                if not confirm_pn(chk, nat, kind, (e.env or {}).get('ns', []), set()):
                    chk.undecided('%s %s: %s (not reproduced on the real code)' % (kind, mode, e.why))
            except Unsupported as e:
                chk.undecided('%s %s: %s' % (kind, mode, e))
        return go
    q = chk.quick
    modes = (('lite', 1), ('rev', 2), ('lite', 3)) + (() if q else (('rev', 4), ('lite', 8)))
    full = [(k, n, 'full', 3 if q else 4, 150 if q else 600) for n in (range(9, 0, -1) if q else range(10, 0, -1)) for k in kinds]
    full += [(k, n, 'full', 4, 150) for n in (2, 3, 4, 5) for k in kinds if q]
    one = [('leg', n, 'rev', 3, 60) for n in range(8, 101)]
    # degrees around the ones where the symbolic form starts, and some large ones, for what the symbolic form cannot follow
    one += [(k, n, 'lite', 4, 60) for n in (64, 100, 101, 102, 257, 1000, 1001) for k in kinds]
    tasks = [sym(k, m) for m in modes for k in kinds] + [conc(*a) for a in full + one]
    got = {}
    for r in core.parallel(chk, tasks, 8):
        if r and r[0] == 'sym':
            chk.part('%s par_new: every degree %d..%d and every index, schedules %s' % (r[1], 101 if r[1] == 'leg' else 1, NMAX, r[2]))
        elif r:
            got.setdefault(r[0], []).append(r[1:])
    how = {'full': 'every schedule, up to %d threads', 'rev': '%d threads, second half first', 'lite': '%d threads, in order'}
    for (k, mode, t), l in got.items():
        chk.part('%s par_new: %s, degrees %s' % (k, how[mode] % t, ', '.join('%d (%d schedules)' % x if mode == 'full' else str(x[0]) for x in sorted(l))))
    chk.replays = 0
    for kind in kinds:
        for n in (1, 7, 100, 101, 1000):
            v = native_pn(nat, kind, n)
            chk.replays += 1
            if v and not chk.viol:
                chk.violation(v[0], v[1])
                break
