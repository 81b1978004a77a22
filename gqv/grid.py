"""C05-C07 (and the grid part of C09): the value returned by a composite rule is a linear functional of the integrand;
its support must be the rule's grid, each point evaluated once, with the rule's weights.

Half-grid index: point m (0..2n) is a + (b-a) m/(2n)."""
import random
import time
from fractions import Fraction
import z3
from . import core, term, exec as X
from .term import R, var, const, mk
from .exec import Unsupported

TOLW = Fraction(1, 10**9)
SPEC = {
    # name: (entry, weight(m,n) as multiples of (b-a)/n, present(m,n)); z3-polymorphic through If/And
    'trap': (lambda m, n: z3.If(z3.And(m % 2 == 0, m >= 0, m <= 2*n), z3.If(z3.Or(m == 0, m == 2*n), z3.Q(1, 2), z3.RealVal(1)), z3.RealVal(0)),
             lambda m, n: z3.And(m % 2 == 0, m >= 0, m <= 2*n),
             lambda m, n: Fraction(0) if m % 2 or not 0 <= m <= 2*n else (Fraction(1, 2) if m in (0, 2*n) else Fraction(1))),
    'mid': (lambda m, n: z3.If(z3.And(m % 2 == 1, m >= 0, m <= 2*n), z3.RealVal(1), z3.RealVal(0)),
            lambda m, n: z3.And(m % 2 == 1, m >= 0, m <= 2*n),
            lambda m, n: Fraction(1) if m % 2 and 0 <= m <= 2*n else Fraction(0)),
    'simp': (lambda m, n: z3.If(z3.And(m >= 0, m <= 2*n), z3.If(m % 2 == 1, z3.Q(2, 3), z3.If(z3.Or(m == 0, m == 2*n), z3.Q(1, 6), z3.Q(1, 3))), z3.RealVal(0)),
             lambda m, n: z3.And(m >= 0, m <= 2*n),
             lambda m, n: Fraction(0) if not 0 <= m <= 2*n else (Fraction(2, 3) if m % 2 else Fraction(1, 6) if m in (0, 2*n) else Fraction(1, 3))),
}


class Contribution:
    def __init__(self, binders, conds, coef, x):
        self.binders, self.conds, self.coef, self.x = binders, conds, coef, x


ONE = const(1.0)


def contributions(r):
    """r as a linear functional of f: -> ([Contribution], [f-free residual terms])"""
    out, rest = [], []
    memo = {}

    def has(y):
        if y.id not in memo:
            h = False
            for z in term.walk(y):
                if z.op == 'app' and z.a[0] == 'f':
                    h = True
                    break
                if z.op == 'sum' and any(has(g) for _, g in z.a[0].cases):
                    h = True
                    break
            memo[y.id] = h
        return memo[y.id]

    def go(y, coef, binders, conds):
        while True:
            if not isinstance(y, R):
                y = const(y)
            if not has(y):
                if term.cval(y) != 0:
                    rest.append((binders, conds, coef, y))
                return
            if y.op == 'app' and y.a[0] == 'f':
                out.append(Contribution(binders, conds, coef, y.a[1]))
                return
            if y.op in '+-':
                go(y.a[0], coef, binders, conds)
                if y.op == '-':
                    coef = mk('neg', coef)
                y = y.a[1]
            elif y.op == 'neg':
                coef = mk('neg', coef)
                y = y.a[0]
            elif y.op == '*':
                h0, h1 = has(y.a[0]), has(y.a[1])
                if h0 and h1:
                    raise Unsupported('product of integrand values')
                o = y.a[1] if h0 else y.a[0]
                coef = mk('*', coef, o) if coef is not ONE else o
                y = y.a[0] if h0 else y.a[1]
            elif y.op == '/':
                if has(y.a[1]):
                    raise Unsupported('division by an integrand value')
                coef = mk('/', coef, y.a[1])
                y = y.a[0]
            elif y.op == 'sum':
                f = y.a[0]
                for cs, g in f.cases:
                    go(g, coef, binders + [(f.t, f.T)], conds + list(cs))
                return
            elif y.op == 'ite':
                go(y.a[1], coef, binders, conds + [y.a[0]])
                conds = conds + [z3.Not(y.a[0])]
                y = y.a[2]
            else:
                raise Unsupported('integrand value under ' + y.op)
    go(r, ONE, [], [])
    return out, rest


def call_list(trace, binders=(), conds=()):
    out = []
    for e in trace:
        if e[0] == 'f':
            out.append((list(binders), list(conds), e[1]))
        elif e[0] == 'fam':
            _, t, T, cases = e
            for cs, ev in cases:
                out.extend(call_list(ev, list(binders) + [(t, T)], list(conds) + list(cs)))
    return out


def solve_fit(rows, vals):
    """exact least-dimensional solution of rows*c = vals over Fractions, or None"""
    m = len(rows[0])
    A = [[Fraction(x) for x in r] + [Fraction(v)] for r, v in zip(rows, vals)]
    piv = []
    r = 0
    for c in range(m):
        p = next((i for i in range(r, len(A)) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        iv = A[r][c]
        A[r] = [x / iv for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c] != 0:
                k = A[i][c]
                A[i] = [x - k*y for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    if any(row[m] != 0 for row in A[r:]):
        return None
    sol = [Fraction(0)] * m
    for i, c in enumerate(piv):
        sol[c] = A[i][m]
    return sol


def snap(f):
    g = Fraction(round(f))
    return int(g) if abs(f - g) <= Fraction(1, 2**51) * max(1, abs(g)) else None


class Bad(Exception):
    """the functional is not the rule's: candidate environments for the native check"""

    def __init__(self, why, env=None, m=None):
        self.why, self.env, self.m = why, env, m


class GridCheck:
    """one path (Out) of the entry point"""

    def __init__(self, chk, eng, kind, out, n, nvar, a, b):
        self.chk, self.eng, self.kind, self.o = chk, eng, kind, out
        self.n, self.nvar = n, nvar          # z3 Int or python int
        self.a, self.b = a, b
        self.pc = out.st.pc
        self.zr = term.Z(relax=True)
        self.s = z3.Solver()
        self.s.set('timeout', 20000)
        self.pcr = [term.relax_bool(c) for c in self.pc]
        self.memo = {}
        self.eqs = None

    def q(self, *conds, s=None):
        s = s or self.s
        s.push()
        s.add(*conds)
        t0 = time.time()
        r = s.check()
        self.chk.stats.queries += 1
        self.chk.stats.time += time.time() - t0
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def models(self, binders, conds, want=9):
        """environments (name -> int) satisfying the path, distinct"""
        vs = {}
        for c in list(self.pc) + list(conds) + [T for _, T in binders] + [t for t, _ in binders]:
            if isinstance(c, z3.AstRef):
                for v in term.zvars(c):
                    if z3.is_int(v):
                        vs[v.decl().name()] = v
        if self.nvar is not None:
            vs[self.nvar.decl().name()] = self.nvar
        names = sorted(vs)
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*self.pc)
        s.add(*conds)
        for t, T in binders:
            s.add(t >= 0, t < T)
        out = []
        if not names:
            return [{}], vs
        tries = []
        if self.nvar is not None:
            tries = [self.nvar == k for k in (1, 2, 3, 5, 8, 12, 21)] + [self.nvar > 40, self.nvar > 1000, z3.And(self.nvar > 10**6, self.nvar < 10**7)]
        tries += [z3.BoolVal(True)] * 6
        for tr in tries:
            s.push()
            s.add(tr)
            for _ in range(3 if binders else 1):
                if s.check() != z3.sat:
                    break
                m = s.model()
                e = {k: m.eval(vs[k], model_completion=True).as_long() for k in names}
                if e in out:
                    break
                out.append(e)
                if binders:
                    s.add(z3.Or([t != e[t.decl().name()] for t, _ in binders]))
                else:
                    break
            s.pop()
            if len(out) >= want + 8:
                break
        for e in out:
            s.add(z3.Or([vs[k] != e[k] for k in names]))
        return out, vs

    def nval(self, env):
        return self.n if isinstance(self.n, int) else env[self.nvar.decl().name()]

    def linear(self, r, binders, conds, av, bv, what):
        """exact affine form of r(a=av(n), b=bv(n)) in the integer variables: (dict name->Fraction, const)"""
        envs, vs = self.models(binders, conds)
        if not envs:
            return None
        used, atoms = set(), set()
        for x in term.walk(r):
            for y in x.a:
                if isinstance(y, z3.AstRef):
                    used |= {v.decl().name() for v in term.zvars(y) if z3.is_int(v)}
                    if z3.is_int(y):
                        atoms |= set(term.int_atoms(y))
        used = sorted(used & set(vs)) + sorted(atoms)
        if atoms:
            vs = dict(vs, **{k: term._atoms[k] for k in atoms})
            envs = [dict(e, **{k: term.zev(term._atoms[k], e) for k in atoms}) for e in envs]
        if self.nvar is not None and self.nvar.decl().name() not in used:
            used.append(self.nvar.decl().name())
        rows, vals = [], []
        for e in envs:
            N = self.nval(e)
            env = dict(e)
            env[self.a.a[0]] = Fraction(av(N))
            env[self.b.a[0]] = Fraction(bv(N))
            try:
                v = term.ev(r, env, {})
            except (KeyError, ZeroDivisionError) as ex:
                raise Unsupported('evaluate %s: %r' % (what, ex))
            rows.append([1] + [e[k] for k in used])
            vals.append(v)
        sol = solve_fit(rows, vals)
        if sol is None:
            # not affine in the loop variables: give the native check the samples
            raise Bad('%s is not affine in the loop variables' % what, envs[-1])
        return dict(zip(used, sol[1:])), sol[0], vs, envs

    def point(self, x, binders, conds):
        """-> affine integer form of the half-grid index of evaluation point x, verified for all a, b"""
        key = (x.id, tuple(t.get_id() for t, _ in binders), tuple(c.get_id() for c in conds))
        if key in self.memo:
            return self.memo[key]
        g = self.free_fit(x)
        if g is not None:
            self.memo[key] = g
            return g
        lf = self.linear(x, binders, conds, lambda N: 0, lambda N: 2*N, 'evaluation point')
        if lf is None:
            self.memo[key] = None
            return None
        co, c0, vs, envs = lf
        ci = {k: snap(v) for k, v in co.items()}
        k0 = snap(c0)
        if k0 is None or None in ci.values():
            raise Bad('evaluation point off the grid: index %s + %s' % ({k: str(v) for k, v in co.items()}, c0), envs[-1])
        # identity  2n x == 2n a + (b-a) g   for all a, b and loop variables on this path
        gr = z3.RealVal(0) + term.qv(c0)
        for k, v in co.items():
            gr = gr + term.qv(v) * z3.Real(k)
        nr = z3.RealVal(self.n) if isinstance(self.n, int) else z3.Real(self.nvar.decl().name())
        A, B = z3.Real(self.a.a[0]), z3.Real(self.b.a[0])
        zx = self.zr(x)
        conds_r = [term.relax_bool(c) for c in conds] + [z3.And(z3.Real(t.decl().name()) >= 0) for t, _ in binders]
        r, m = self.identity(x, self.zr, zx * 2 * nr, 2 * nr * A + (B - A) * gr, conds_r,
                             lambda: self.equalities(binders, conds, list(co), vs, envs))
        if r == z3.sat:
            raise Bad('evaluation point is not affine in a, b: %s = %s' % (term.show(x)[:200], gr), envs[-1])
        if r != z3.unsat:
            raise Unsupported('evaluation point identity undecided')
        g = z3.IntVal(k0)
        for k, v in ci.items():
            if v:
                g = g + v * vs[k]
        self.memo[key] = z3.simplify(g)
        return self.memo[key]

    def free_fit(self, x):
        """half-grid index as an affine integer form with all integers (and quotients) taken as independent"""
        zx = self.zr(x)
        vs = {v.decl().name(): v for v in term.zvars(zx)}
        if any(z3.is_bool(v) for v in vs.values()):
            return None
        an, bn = self.a.a[0], self.b.a[0]
        names = sorted(set(vs) - {an, bn})
        nn = None if isinstance(self.n, int) else self.nvar.decl().name()
        if nn and nn not in names:
            names.append(nn)
        ints = {}
        for c in list(self.pc) + [y for z in term.walk(x) for y in z.a if isinstance(y, z3.AstRef)]:
            if isinstance(c, z3.AstRef):
                for v in term.zvars(c):
                    if z3.is_int(v):
                        ints[v.decl().name()] = v
        if nn:
            ints[nn] = self.nvar
        for k in names:
            if k not in ints and k not in term._atoms:
                return None
        rnd = random.Random(7)
        rows, vals = [], []
        for _ in range(len(names) + 4):
            e = {k: rnd.randint(1, 60) for k in names}
            N = self.n if nn is None else e[nn]
            sub = [(z3.Real(an), z3.RealVal(0)), (z3.Real(bn), z3.RealVal(2 * N))] + [(z3.Real(k), z3.RealVal(v)) for k, v in e.items()]
            v = z3.simplify(z3.substitute(zx, *sub))
            if not z3.is_rational_value(v):
                return None
            rows.append([1] + [e[k] for k in names])
            vals.append(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        sol = solve_fit(rows, vals)
        if sol is None or any(snap(c) is None for c in sol):
            return None
        gr = term.qv(sol[0])
        for k, c in zip(names, sol[1:]):
            gr = gr + term.qv(c) * z3.Real(k)
        nr = z3.RealVal(self.n) if nn is None else z3.Real(nn)
        A, B = z3.Real(an), z3.Real(bn)
        r, m = self.identity(x, self.zr, zx * 2 * nr, 2 * nr * A + (B - A) * gr, [])
        if r != z3.unsat:
            self.chk.obligations -= 1
            return None
        g = z3.IntVal(snap(sol[0]))
        for k, c in zip(names, sol[1:]):
            if snap(c):
                g = g + snap(c) * (ints[k] if k in ints else term._atoms[k])
        return z3.simplify(g)

    def identity(self, x, zr, lhs, rhs, conds, eqs=None):
        self.chk.obligations += 1
        r, m = self.q(lhs != rhs)       # usually true identically, n != 0 from the division
        if r == z3.unsat:
            self.chk.discharged += 1
            return r, None
        nz = []
        if not isinstance(self.n, int):
            nz = [z3.Real(self.nvar.decl().name()) >= 1]
        r, m = self.q(*(nz + [lhs != rhs]))
        if r != z3.unsat:
            r, m = self.q(*(nz + self.pcr + conds + [lhs != rhs]))
            if r != z3.unsat:
                r, m = self.q(*(nz + self.pcr + (eqs() if eqs else []) + conds + [lhs != rhs]))
        if r == z3.unsat:
            self.chk.discharged += 1
        return r, m

    def equalities(self, binders, conds, used, vs, envs):
        """path integers that are affine functions of the degree (proved over the integers), as facts over the reals"""
        out = []
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*self.pc)
        s.add(*conds)
        for t, T in binders:
            s.add(t >= 0, t < T)
        for k in used:
            v = vs[k]
            if self.nvar is not None and v.eq(self.nvar):
                sol = solve_fit([[1] for e in envs], [e[k] for e in envs])
            else:
                sol = solve_fit([[1, self.nval(e)] for e in envs], [e[k] for e in envs])
            if sol is None or any(snap(x) is None for x in sol):
                continue
            rhs = z3.IntVal(snap(sol[0])) + (snap(sol[1]) * self.nvar if len(sol) > 1 and self.nvar is not None else 0)
            if self.q(v != rhs, s=s)[0] == z3.unsat:
                out.append(z3.Real(k) == term.relax_int(z3.simplify(rhs)))
        return out

    def weight(self, c):
        lf = self.linear(c.coef, c.binders, c.conds, lambda N: 0, lambda N: N, 'weight')
        if lf is None:
            return None
        co, c0, vs, envs = lf
        if any(v != 0 for v in co.values()):
            # tolerate an affine dependency that vanishes numerically
            raise Bad('weight depends on the point', envs[-1])
        nr = z3.RealVal(self.n) if isinstance(self.n, int) else z3.Real(self.nvar.decl().name())
        A, B = z3.Real(self.a.a[0]), z3.Real(self.b.a[0])
        conds_r = [term.relax_bool(k) for k in c.conds]
        r, m = self.identity(c.coef, self.zr, self.zr(c.coef) * nr, term.qv(c0) * (B - A), conds_r,
                             lambda: self.equalities(c.binders, c.conds, list(co), vs, envs))
        if r == z3.sat:
            raise Bad('weight is not a multiple of (b-a)/n', envs[-1])
        if r != z3.unsat:
            raise Unsupported('weight identity undecided')
        return c0

    def at(self, g, binders, conds, m):
        """number-of-hits condition: (z3 Bool, multiplicity expr) that the family hits index m"""
        if not binders:
            return z3.And([g == m] + conds), None
        if len(binders) > 1:
            raise Unsupported('nested families')
        t, T = binders[0]
        c = z3.simplify(z3.substitute(g, (t, z3.IntVal(1))) - z3.substitute(g, (t, z3.IntVal(0))))
        if not z3.is_int_value(c):
            raise Unsupported('family stride')
        c = c.as_long()
        r0 = z3.simplify(z3.substitute(g, (t, z3.IntVal(0))))
        if c == 0:
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(*self.pc)
            s.add(t >= 1, t < T, *conds)
            if s.check() == z3.unsat:
                return z3.And([r0 == m, T > 0] + [z3.substitute(k, (t, z3.IntVal(0))) for k in conds]), None
            if any(any(v.eq(t) for v in term.zvars(k)) for k in conds):
                raise Unsupported('constant family with conditions')
            return z3.And([r0 == m, T > 0] + conds), T
        d = (m - r0) if c > 0 else (r0 - m)
        c = abs(c)
        tt = d / c if c > 1 else d
        dv = [d % c == 0] if c > 1 else []
        return z3.And(dv + [tt >= 0, tt < T] + [z3.substitute(k, (t, tt)) for k in conds]), None

    def run(self):
        """raises Bad/Unsupported; returns None when decided"""
        spec_w, spec_in, _ = SPEC[self.kind]
        cons, rest = contributions(const(self.o.val))
        for bd, cd, coef, y in rest:
            r, m = self.q(*(self.pcr + [self.zr(coef) * self.zr(y) != 0]))
            if r != z3.unsat:
                raise Bad('a term that does not depend on the integrand is added', None)
        calls = call_list(self.o.st.trace)
        m = z3.Int('m!idx')
        n = self.n if not isinstance(self.n, int) else z3.IntVal(self.n)
        tot = []
        for c in cons:
            g = self.point(c.x, c.binders, c.conds)
            if g is None:
                continue
            w = self.weight(c)
            if w is None or w == 0:
                continue
            hit, mult = self.at(g, c.binders, c.conds, m)
            wv = term.qv(w) if mult is None else term.qv(w) * z3.ToReal(mult)
            tot.append(z3.If(hit, wv, z3.RealVal(0)))
        cnt = []
        for bd, cd, x in calls:
            g = self.point(x, bd, cd)
            if g is None:
                continue
            hit, mult = self.at(g, bd, cd, m)
            cnt.append(z3.If(hit, z3.IntVal(1) if mult is None else mult, z3.IntVal(0)))
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*self.pc)
        W = z3.Sum(tot) if tot else z3.RealVal(0)
        C = z3.Sum(cnt) if cnt else z3.IntVal(0)
        sw = spec_w(m, n)
        bad_w = z3.Or(W - sw > term.qv(TOLW), sw - W > term.qv(TOLW))
        bad_c = C != z3.If(spec_in(m, n), z3.IntVal(1), z3.IntVal(0))
        for cond, what in ((bad_w, 'wrong weight at a grid point'), (bad_c, 'a point is not evaluated exactly once')):
            self.chk.obligations += 1
            r, md = self.q(cond, s=s)
            if r == z3.unsat:
                self.chk.discharged += 1
                continue
            if r == z3.unknown:
                raise Unsupported('grid query unknown')
            # smallest n that shows it
            if not isinstance(self.n, int):
                for lim in (6, 64, 4096, 1 << 20, 1 << 26):
                    r2, m2 = self.q(cond, n <= lim, s=s)
                    if r2 == z3.sat:
                        md = m2
                        break
            env = {d.name(): md[d] for d in md.decls()}
            e2 = {}
            for k, v in env.items():
                if z3.is_int_value(v):
                    e2[k] = v.as_long()
                elif z3.is_rational_value(v):
                    e2[k] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            raise Bad(what, e2, e2.get('m!idx', 0))


@core.timed
def native_check(chk, nat, kind, entry, n, a, b, m=None, full_limit=3000):
    """run the real code at (n,a,b); returns a description of the violation or None"""
    chk.replays = getattr(chk, 'replays', 0) + 1
    spec = SPEC[kind][2]
    h = (b - a) / n
    if n <= full_limit:
        r = nat.call(entry, (n, a, b), kind='measure')
        if r.bad:
            return '%s(n=%d, a=%r, b=%r) %s' % (entry, n, a, b, 'panics' if r.panic else r.died), [('call', entry, (n, a, b), ())]
        tol = abs(h) * 1e-6 + 1e-12 * max(abs(a), abs(b))
        got = {}
        for x, mult, w in r.meas:
            idx = (x - a) / h * 2
            k = round(idx)
            if not (0 <= k <= 2*n) or abs(x - (a + k * h / 2)) > tol:
                return '%s(n=%d, a=%r, b=%r) evaluates the integrand at %r, which is not a point of the rule' % (entry, n, a, b, x), [('measure', entry, (n, a, b), ())]
            q = got.setdefault(k, [0, 0.0])
            q[0] += mult
            q[1] += w
        for k in range(2*n + 1):
            want = spec(k, n)
            g = got.get(k, [0, 0.0])
            if g[0] != (1 if want else 0):
                return '%s(n=%d, a=%r, b=%r) evaluates grid point %r %d times' % (entry, n, a, b, a + k*h/2, g[0]), [('measure', entry, (n, a, b), ())]
            if abs(g[1] - float(want) * h) > 1e-8 * abs(h):
                return '%s(n=%d, a=%r, b=%r) gives the value at %r the weight %r instead of %r' % (entry, n, a, b, a + k*h/2, g[1], float(want)*h), [('measure', entry, (n, a, b), ())]
        return None
    # large n: count the calls, integrate 1 and x, look at one point
    exp_calls = {'trap': n + 1, 'mid': n, 'simp': 2*n + 1}[kind]
    cmds = [('probe', entry, (n, a, b), (3, 0, 0)), ('probe', entry, (n, a, b), (3, 1, 0))]
    if m is not None and 0 <= m <= 2*n:
        x = a + (b - a) * (m / (2*n))
        lo, hi = sorted((x - h / 6, x + h / 6))
        cmds.append(('probe', entry, (n, a, b), (2, core.fbits(lo), core.fbits(hi))))
    rs = nat.calls(cmds, timeout=400 if n < 2**28 else 40)
    for c, r in zip(cmds, rs):
        if r.panic or (r.died and 'timeout' not in r.died):
            return '%s(n=%d, a=%r, b=%r) %s' % (entry, n, a, b, 'panics' if r.panic else r.died), [c]
        if r.ret is None:
            continue
        if r.probe[0] != exp_calls:
            return '%s(n=%d, a=%r, b=%r) evaluates the integrand %d times instead of %d' % (entry, n, a, b, r.probe[0], exp_calls), [c]
        if c[3][0] == 3:
            ex = (b - a) if c[3][1] == 0 else (b*b - a*a) / 2
            if abs(r.ret - ex) > 1e-8 * abs(b - a) * max(1.0, abs(a), abs(b)):
                return '%s(n=%d, a=%r, b=%r) integrates x^%d to %r instead of %r' % (entry, n, a, b, c[3][1], r.ret, ex), [c]
        else:
            want = spec(m, n)
            if r.probe[1] != (1 if want else 0):
                return '%s(n=%d, a=%r, b=%r) evaluates the grid point %r %d times' % (entry, n, a, b, x, r.probe[1]), [c]
            if abs(r.ret - float(want)*h) > 1e-6 * abs(h):
                return '%s(n=%d, a=%r, b=%r) gives the value at %r the weight %r instead of %r' % (entry, n, a, b, x, r.ret, float(want)*h), [c]
    return None


@core.timed
def native_points(chk, nat, kind, entry, n, a, b):
    """every point of a large degree, to within a few units of rounding"""
    import numpy as np
    chk.replays = getattr(chk, 'replays', 0) + 1
    r, x = nat.bulk(entry, (n, a, b))
    what = '%s(n=%d, a=%r, b=%r) ' % (entry, n, a, b)
    cmd = [('call', entry, (n, a, b), ())]
    if r.bad:
        return what + ('panics' if r.panic else str(r.died)), cmd
    h = (np.longdouble(b) - np.longdouble(a)) / (2 * n)
    k = np.rint((x.astype(np.longdouble) - np.longdouble(a)) / h)
    if len(k) and (k.min() < 0 or k.max() > 2 * n):
        return what + 'evaluates the integrand outside [a, b]', cmd
    err = np.abs(x.astype(np.longdouble) - (np.longdouble(a) + k * h))
    i = int(err.argmax()) if len(err) else 0
    if len(err) and err[i] > 64 * 2.0**-52 * max(abs(a), abs(b)):
        return what + 'evaluates the integrand at %r, which is %.3g from the nearest point of the rule' % (float(x[i]), float(err[i])), cmd
    cnt = np.bincount(k.astype(np.int64), minlength=2 * n + 1)
    want = np.zeros(2 * n + 1, dtype=np.int64)
    if kind == 'trap':
        want[0::2] = 1
    elif kind == 'mid':
        want[1::2] = 1
    else:
        want[:] = 1
    bad = np.nonzero(cnt != want)[0]
    if len(bad):
        j = int(bad[0])
        return what + 'evaluates the integrand %d times at a + %d (b - a)/%d' % (int(cnt[j]), j, 2 * n), cmd
    return None


def large(chk, nat, kind, entry, done):
    """the points do not drift away from the grid for large degrees"""
    for n, a, b in ((1 << 21, 0.0, 1.0), (3 * (1 << 19) + 1, 1.0, -2.0), (999983, -3.0, 5.5)):
        v = native_points(chk, nat, kind, entry, n, a, b)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


def fl(v, d):
    try:
        v = float(v)
    except (TypeError, OverflowError, ValueError):
        return d
    return v if abs(v) < 1e150 else d


def candidates(bad):
    env = bad.env or {}
    a, b = fl(env.get('a'), 0.0) if 'a' in env else 0.0, fl(env.get('b'), 1.0) if 'b' in env else 1.0
    if a == b:
        b = a + 1.0
    ns = []
    if 'n' in env:
        ns.append(env['n'])
    return ns, a, b


def confirm(chk, nat, kind, entry, bad, done):
    """try to show a candidate on the real code"""
    ns, a, b = candidates(bad)
    tried = set()
    for n in ns + [1, 2, 3, 4, 5, 7, 8, 13, 64, 101]:
        for (x, y) in ((a, b), (0.0, 1.0), (1.0, -2.0), (-3.0, 5.0)):
            if (n, x, y) in tried or n < 1 or n >= 2**32:
                continue
            tried.add((n, x, y))
            if n > 3000 and (x, y) != (a, b) and (x, y) != (0.0, 1.0):
                continue
            if n > 2**31 and len(tried) > 1:
                continue
            v = native_check(chk, nat, kind, entry, n, x, y, bad.m if n in ns else None)
            if v:
                if v[0] not in done:
                    done.add(v[0])
                    chk.violation(v[0], v[1])
                return True
    # large degrees where conversions and counters break
    for n in (65536 + 3, 2**24 + 3, 2**25 + 1):
        v = native_check(chk, nat, kind, entry, n, 0.0, 1.0, None)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return large(chk, nat, kind, entry, done)


def check_composite(chk, kind, cfgs=('b',)):
    entry = 'h_' + kind
    nat = core.Native('b', timeout=600)
    a, b = var('a'), var('b')
    for cfg in cfgs:
        full = True
        done = set()
        try:
            n = z3.Int('n')
            eng = chk.engine(cfg, summarize=True, handlers=core.std_handlers(), max_paths=400, max_steps=40000, limit=120, timeout=5000)
            st = eng.start(entry, [n, a, b])
            st.pc += [n >= 1, n < 2**32]
            npaths = 0
            for o in eng.run(st):
                npaths += 1
                try:
                    if o.kind != 'ret':
                        md = eng.model(o.st)
                        if md is None:
                            continue
                        for lim in (64, 4096, 1 << 20, 1 << 28):
                            m2 = eng.model(o.st, n <= lim)
                            if m2 is not None:
                                md = m2
                                break
                        env = {'n': md.eval(n, model_completion=True).as_long()}
                        for k in ('a', 'b'):
                            v = md.eval(z3.Real(k))
                            if z3.is_rational_value(v):
                                env[k] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        raise Bad('%s: %s' % (o.kind, o.msg), env)
                    g = GridCheck(chk, eng, kind, o, n, n, a, b)
                    g.run()
                    chk.sample('%s path %d: pc=%s value=%s' % (entry, npaths, str(o.st.pc[2:])[:150].replace('\n', ' '), term.show(const(o.val))[:200]))
                except Bad as e:
                    chk.log('candidate:', e.why, e.env, e.m)
                    if not confirm(chk, nat, kind, entry, e, done):
                        chk.undecided('%s[%s]: %s (not reproduced on the real code)' % (entry, cfg, e.why))
                        full = False
            if npaths == 0:
                raise Unsupported('no path')
            chk.assumptions |= eng.assumed
            if not large(chk, nat, kind, entry, done) and eng.closed:
                chk.undecided('%s[%s]: points computed by repeated addition; their rounding is not bounded' % (entry, cfg))
            if full and not done:
                chk.part('%s[%s]: all n in 1..2^32-1, all real a, b, all integrands (%d paths)' % (entry, cfg, npaths))
        except Unsupported as e:
            full = False
            chk.log('symbolic n not decided:', e)
            chk.undecided('%s[%s]: symbolic degree not decided (%s); falling back to concrete degrees' % (entry, cfg, e))
        if full:
            continue
        # ---------------- bounded fallback: concrete degrees, symbolic a and b
        okn = []
        for N in (list(range(1, 17)) + [31, 32, 33, 64, 100]) if chk.quick else list(range(1, 65)) + [100, 127, 128, 129, 255, 256, 257, 1000]:
            if chk.left() < 60:
                break
            try:
                eng = chk.engine(cfg, summarize=False, handlers=core.std_handlers(), limit=60)
                st = eng.start(entry, [N, a, b])
                for o in eng.run(st):
                    if o.kind != 'ret':
                        raise Bad('%s: %s' % (o.kind, o.msg), {'n': N})
                    try:
                        GridCheck(chk, eng, kind, o, N, None, a, b).run()
                    except Bad as e:
                        e.env = dict(e.env or {}, n=N)
                        raise
                okn.append(N)
            except Bad as e:
                chk.log('candidate:', e.why, e.env, e.m)
                if not confirm(chk, nat, kind, entry, e, done):
                    chk.undecided('%s[%s] n=%d: %s (not reproduced on the real code)' % (entry, cfg, N, e.why))
            except Unsupported as e:
                chk.undecided('%s[%s] n=%d: %s' % (entry, cfg, N, e))
        chk.part('%s[%s]: degrees %s, all real a, b, all integrands' % (entry, cfg, okn))
