"""C21: total mass of the Laguerre and Jacobi rules of degree 1, i.e. the gamma function."""
from fractions import Fraction
import math
import mpmath
import z3
from . import core, term, gw
from .exec import Unsupported
from .grid import Bad
from .gw import AL, BE

TOL = 1e-12
LOW, HIGH = Fraction(-9, 10), 100
OKF = 'jacobi-gamma-overflow'


def mass(rule, a, b):
    mpmath.mp.dps = 40
    a, b = mpmath.mpf(a), mpmath.mpf(b)
    if rule == 'lag':
        return mpmath.gamma(a + 1)
    return mpmath.mpf(2) ** (a + b + 1) * mpmath.beta(a + 1, b + 1)


def overflow(a, b):
    """intermediate values of the mass of a Jacobi rule outside the doubles"""
    lg = lambda x: float(mpmath.loggamma(x)) / math.log(2)
    top = 1010
    return lg(a + b + 2) > top or (a + b + 1) + lg(a + 1) + lg(b + 1) > top


@core.timed
def native_mass(nat, rule, pts):
    """-> [(text, commands, key)]"""
    cmds = [('call', 'h_' + rule, (1, a, b), ()) for a, b in pts]
    out = []
    for (a, b), c, r in zip(pts, cmds, nat.calls(cmds)):
        nm = 'GaussLaguerre::new(1, %r)' % a if rule == 'lag' else 'GaussJacobi::new(1, %r, %r)' % (a, b)
        if r.bad:
            out.append((nm + ' panics', [c], None))
            continue
        w = r.tag(2)
        m = mass(rule, a, b)
        s = sum(w) if w else math.nan
        if not (math.isfinite(s) and abs(mpmath.mpf(s) - m) <= TOL * m):
            key = OKF if rule == 'jac' and overflow(a, b) and not (math.isfinite(s) and s != 0) else None
            out.append(('%s: total mass %r instead of %s' % (nm, s, mpmath.nstr(m, 17)), [c], key))
    return out


def grid(rule):
    v = [-0.9, -0.75, -0.6, -0.5000000001, -0.5, -0.4999999999, -0.499, -0.25, -1e-9, 0.0, 1e-9, 0.3, 0.5, 1.0, 1.5, 2.0, 3.7, 5.0, 8.25, 12.0, 20.5, 33.0, 50.0, 64.5, 77.0, 99.5, 100.0]
    if rule == 'lag':
        return [(a, 0.0) for a in v] + [(i / 7.0 - 0.89, 0.0) for i in range(700)]
    return [(a, b) for a in v for b in v]


def confirm(chk, nat, rule, pts, done):
    pts = [(a, b) for a, b in pts if LOW <= a <= HIGH and (rule == 'lag' or LOW <= b <= HIGH)]
    hit = False
    for t, c, key in native_mass(nat, rule, pts[:40] + grid(rule)) or []:
        if key is None:
            hit = True
            if not any(d.startswith(rule) for d in done):
                done.add(rule + t)
                chk.violation(t, c)
    return hit


def reference(chk):
    """the pinned formula against the gamma function (the reference is sampled, the code is not)"""
    mpmath.mp.dps = 40
    worst = 0
    for i in range(1, 3400):
        x = mpmath.mpf(i) / 20 + (mpmath.mpf(i) % 17) / 1000
        for refl in ((False, True) if 0.1 <= x <= 0.9 else (x < 0.5,)):
            t = gw.lanczos(term.const(Fraction(mpmath.nstr(x, 30))), refl)
            memo = {}
            for y in term.walk(t):
                memo[y.id] = SW.num1(y, memo, {})
            worst = max(worst, abs(memo[t.id] / mpmath.gamma(x) - 1))
    if worst > 5e-14:
        raise Unsupported('the reference formula is off by %s' % mpmath.nstr(worst, 3))
    return worst


class SW0:
    chk = None

    def models(self):
        return []


from . import sweep
SW = sweep.Sweep(SW0())


def check(chk):
    nat = core.Native('b', timeout=100)
    done, und = set(), []
    chk.assumptions.add('the pinned Lanczos formula (gqv/gw.py) agrees with the gamma function to 5e-14 on (0, 170] (compared with mpmath at 3400 points of each run)')
    try:
        chk.log('reference formula: largest error %s' % mpmath.nstr(reference(chk), 3))
    except Unsupported as e:
        und.append(str(e))
    for rule in ('lag', 'jac'):
        cnt = 0
        ok = True
        rng = [AL >= term.qv(LOW), AL <= HIGH] + ([BE >= term.qv(LOW), BE <= HIGH] if rule == 'jac' else [])
        try:
            P = gw.paths(chk, rule, 1, False, extra=rng, limit=100)
        except Unsupported as e:
            und.append('%s: %s' % (rule, e))
            P, ok = [], False
        for p in P:
            try:
                if p.o.kind != 'ret':
                    raise Bad('%s: %s' % (p.o.kind, p.o.msg), p.env())
                if len(p.w) != 1:
                    raise Bad('%d weights for degree 1' % len(p.w), p.env())
                if gw.fixed(p) is not None and not p.mat:
                    const_mass(chk, p)
                else:
                    gw.weights(chk, p, [0 if p.mat else None])
                cnt += 1
            except Bad as e:
                ok = False
                chk.log('candidate:', rule, e.why)
                if not confirm(chk, nat, rule, (e.env or {}).get('ab', []), done):
                    und.append('%s: %s (not reproduced on the real code)' % (rule, e.why))
            except Unsupported as e:
                ok = False
                und.append('%s: %s' % (rule, e))
        if ok:
            chk.part('%s: every parameter in [%s, %s] (%d paths)' % ('GaussLaguerre' if rule == 'lag' else 'GaussJacobi', float(LOW), HIGH, cnt))
    chk.replays = 0
    for rule in ('lag', 'jac'):
        g = grid(rule)
        chk.replays += len(g)
        known = False
        for t, c, key in native_mass(nat, rule, g) or []:
            if key and not known:
                known = True
                chk.violation('GaussJacobi with large alpha and beta: the gamma functions overflow, e.g. ' + t, c, key=key)
            elif not key and not any(d.startswith(rule) for d in done):
                done.add(rule + t)
                chk.violation(t, c)
    for u in und:
        chk.undecided(u)


def const_mass(chk, p):
    """special parameters: a constant weight"""
    from . import leg
    a, b = gw.fixed(p)
    w, m = leg.frac(leg.mpval(p.w[0])), leg.frac(mass(p.rule, a, b))
    s = z3.Solver()
    d = term.qv(w) - term.qv(m)
    chk.obligations += 1
    chk.stats.queries += 1
    if s.check(z3.Or(d > term.qv(m * Fraction(TOL)), d < -term.qv(m * Fraction(TOL)))) != z3.unsat:
        raise Bad('weight %s for parameters %s' % (p.w[0], (a, b)), {'ns': [1], 'ab': [(a, b)]})
    chk.discharged += 1
