"""C20: nodes ascending and inside the support, weights positive and finite."""
from fractions import Fraction
import mpmath
import numpy as np
import z3
from . import core, term, gw, leg, trig, sweep
from .exec import Unsupported
from .grid import Bad
from .gw import AL, BE
from .trig import explore

NM = {'leg': 'GaussLegendre', 'che1': 'GaussChebyshevFirstKind', 'che2': 'GaussChebyshevSecondKind'}
NT = 10**6        # above, neighbouring nodes are closer than the tolerance of the closed form


@core.timed
def native_sup(nat, rule, n):
    if n > NT:
        return None
    cmd = ('call', 'h_' + rule, (n, 0.0, 0.0), ())
    r = nat.calls([cmd])[0]
    nm = '%s::new(%d)' % (NM[rule], n)
    if r.bad:
        return None            # other properties
    x, w = np.array(r.tag(1)), np.array(r.tag(2))
    for what, bad in (('weight', ~((w > 0) & np.isfinite(w))), ('node', ~((x > -1) & (x < 1)))):
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            return '%s: %s %d is %r' % (nm, what, i, float((w if what == 'weight' else x)[i])), [cmd]
    bad = np.nonzero(~(np.diff(x) > 0))[0]
    if len(bad):
        i = int(bad[0])
        return '%s: node %d is %r after %r' % (nm, i + 1, float(x[i + 1]), float(x[i])), [cmd]
    return None


NSUP = list(range(1, 131)) + [200, 255, 256, 257, 300, 500, 513, 999, 1000, 1001, 1025, 4096, 4097, 65535, 65537, 100001, 131073, 10**6]


def confirm(chk, nat, rule, ns, done):
    for n in [k for k in ns if 1 <= k <= NT][:10] + NSUP:
        if chk.left() < 60:
            break
        v = native_sup(nat, rule, n)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


def lemma(chk, what, *conds):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*conds)
    chk.obligations += 1
    chk.stats.queries += 1
    r = s.check()
    if r != z3.unsat:
        raise Unsupported('lemma: ' + what + ' (%s)' % r)
    chk.discharged += 1


def cheb(chk, nat, kind, done, und):
    """closed form within its tolerance; the gaps of the closed form are larger (identity cos a - cos b = 2 sin sin, Jordan's inequality)"""
    K = trig.KIND[kind]
    n = z3.Real('n')
    try:
        # cos(t_{j+1}) - cos(t_j) >= 2 (2/pi t)(2/pi h) with t >= pi/(2n) or pi/(n+1) the mean angle and h >= pi/(2(n+1))
        lemma(chk, 'gaps of the Chebyshev nodes', n >= 2, n <= NT, 2 / (n + 1) / (n + 1) <= 2 * term.qv(Fraction(2, 10**15)))
        lemma(chk, 'distance to the ends', n >= 1, n <= NT, (1 / (2 * n + 2)) * (1 / (2 * n + 2)) <= term.qv(Fraction(2, 10**15)))
        # weights: pi/n, or pi/(n+1) sin^2(t) with sin t >= 2/(n+1)
        lemma(chk, 'weights of the Chebyshev rules', n >= 1, n <= NT, (1 / (n + 1)) * (1 / (n + 1)) <= term.qv(Fraction(5, 10**15)))
        P = explore(chk, 'h_%s_at' % kind, 1, trig.NMAX, limit=100)
    except Unsupported as e:
        und.append('%s: %s' % (kind, e))
        P = []
    ok = bool(P)
    for p in P:
        try:
            trig.check_pair(chk, p, K)
        except Bad as e:
            ok = False
            chk.log('candidate:', kind, e.why)
            if not confirm(chk, nat, kind, (e.env or {}).get('ns') or [m['n'] for m in p.models()], done):
                und.append('%s: %s (order, support and signs hold at the sampled degrees)' % (kind, e.why))
            break
        except Unsupported as e:
            ok = False
            und.append('%s: %s' % (kind, e))
    if ok:
        chk.part('%s: every degree 1..%d' % (NM[kind], NT))
    elif not any(NM[kind] in d for d in done):
        concrete(chk, nat, kind, (1, 2, 3, 4, 5, 6, 8, 9, 16, 17), done, und)


def ordered(chk, ps, n):
    """constants, decided over the rationals"""
    xs, ws = [leg.frac(leg.mpval(x)) for x, w in ps], [leg.frac(leg.mpval(w)) for x, w in ps]
    k = z3.Int('k')
    alts = [z3.And(k == i, z3.Or(term.qv(w) <= 0, term.qv(x) <= -1, term.qv(x) >= 1)) for i, (x, w) in enumerate(zip(xs, ws))]
    alts += [z3.And(k == i, term.qv(xs[i]) >= term.qv(xs[i + 1])) for i in range(n - 1)]
    s = z3.Solver()
    s.add(z3.Or(alts))
    chk.obligations += 1
    chk.stats.queries += 1
    if s.check() != z3.unsat:
        raise Bad('pair %s of degree %d' % (s.model()[k], n), {'ns': [n]})
    chk.discharged += 1


def concrete(chk, nat, rule, ns, done, und):
    ok = []
    for n in ns:
        if chk.left() < 120:
            break
        try:
            ordered(chk, leg.pairs(chk, n, 'h_' + rule), n)
            ok.append(n)
        except Bad as e:
            chk.log('candidate:', rule, e.why)
            if confirm(chk, nat, rule, [n], done):
                break
            und.append('%s: %s (not reproduced on the real code)' % (rule, e.why))
        except Unsupported as e:
            und.append('%s n=%d: %s' % (rule, n, e))
            if len(und) > 6:
                break
    if ok:
        chk.part('%s: degrees %s' % (NM[rule], leg.span(ok)))


def expansion_lemmas(chk):
    """order and signs of the reference expansion for n > 100.  w = 1/(n + 1/2), nu_k zero of J0, t = w nu, r = t/sin t"""
    Z = leg.Ops(lambda c: term.qv(Fraction(c)), None, term.qv(Fraction(leg.PI64)))
    w, t, r, b, k = z3.Reals('w t r b k')
    q = lambda x: term.qv(Fraction(x))
    dom = [w > 0, w <= q('2/203'), t > 0, t <= q('15709/10000'), r >= 1, r <= q('15709/10000')]
    x = z3.Real('x')
    bound = {}
    for nm, cs in (('s', leg.SF), ('v', leg.WSF)):
        for i, c in enumerate(cs):
            B = sum(abs(Fraction(float(y))) * Fraction(25, 10) ** e for e, y in enumerate(reversed(c)))
            B = Fraction(int(B * 10**6) + 1, 10**6)
            h = Z.horner(c, x)
            lemma(chk, 'correction polynomial', x >= 0, x <= q('25/10'), z3.Or(h > q(B), h < -q(B)))
            bound[nm, i] = B
    s = [z3.Real('s%d' % i) for i in range(3)]
    v = [z3.Real('v%d' % i) for i in range(3)]
    dom += [c for i in range(3) for c in (s[i] <= q(bound['s', i]), s[i] >= -q(bound['s', i]), v[i] <= q(bound['v', i]), v[i] >= -q(bound['v', i]))]
    wi = z3.Real('wi')
    dom += [wi == w * r]
    lemma(chk, 'size of wi', *dom, z3.Or(wi > q('16/1000'), wi <= 0))
    w2, S, D = z3.Reals('w2 S D')
    small = [w2 >= 0, w2 <= q('256/1000000'), wi > 0, wi <= q('16/1000'), t > 0, t <= q('15709/10000')] + dom[6:-1]
    lemma(chk, 'size of wi^2', wi > 0, wi <= q('16/1000'), wi * wi > q('256/1000000'))
    inner = s[0] + w2 * (s[1] + w2 * s[2])
    lemma(chk, 'correction of the angle', *small, z3.Or(inner > q('1/10'), inner < q('-1/10')))
    lemma(chk, 'correction of the angle', t > 0, t <= q('15709/10000'), wi > 0, wi <= q('16/1000'), S <= q('1/10'), S >= q('-1/10'), D == t * wi * S, z3.Or(D > q('1/100'), D < q('-1/100')))
    inner = v[0] + w2 * (v[1] + w2 * v[2])
    lemma(chk, 'sign of the weight', *small, 1 + w2 * inner <= 0)
    # zeros: nu_1 > 1, gaps > 3
    zs = [Fraction(leg.bessel(i)[0]) for i in range(1, 21)]
    i = z3.Int('i')
    lemma(chk, 'tabulated zeros', z3.Or([z3.And(i == 0, q(zs[0]) <= 1)] + [z3.And(i == j + 1, q(zs[j + 1]) - q(zs[j]) <= 3) for j in range(19)] + [q(leg.bessel(i_)[1]) <= 0 for i_ in range(1, 22)]))
    u = z3.Real('u')       # 1/(pi (k - 1/4)), k >= 21
    h = u * Z.horner_up(leg.JS, u * u)
    lemma(chk, 'remainder of the zeros', u > 0, u <= q('1/65'), z3.Or(h > q('1/100'), h < q('-1/100')))
    z21 = Fraction(leg.PI64) * Fraction(83, 4)
    lemma(chk, 'zero 21', z3.Or(q(z21) - q('1/100') - q(zs[-1]) <= 3, q(z21) < 65))
    hb = Z.horner_up(leg.BS, x * x)
    lemma(chk, 'J1 squared', x > 0, x <= q('1/20'), hb <= 0)
    # theta = w (nu + D): gaps w (3 - 2/100) > 0; the last one, k = n/2, stays below pi/2
    n = z3.Real('n')
    P = q(Fraction(leg.PI64))
    lemma(chk, 'last angle before the middle', n >= 101, P * (n / 2 - q('1/4')) + q('2/100') >= (P / 2) * (n + q('1/2')) - 1)
    lemma(chk, 'size of t', n >= 101, P * ((n + 1) / 2 - q('1/4')) + q('1/100') > q('15709/10000') * (n + q('1/2')))


def legendre(chk, nat, done, und):
    concrete(chk, nat, 'leg', list(range(1, 101)), done, und)
    if done:
        return
    full = 0
    bad = False
    try:
        expansion_lemmas(chk)
        P = explore(chk, 'h_leg_at', leg.LO, trig.NMAX, limit=150)
    except Unsupported as e:
        und.append('n > 100: %s' % e)
        P = []
        bad = True
    for p in P:
        try:
            if not leg.basic(chk, p):
                continue
            for q, kk, mir in leg.cases(p):
                xr, wr = leg.ref_terms(kk, mir)
                for what, a, b in (('node', q.x[0], xr), ('weight', q.w[0], wr)):
                    chk.obligations += 1
                    sw = sweep.Sweep(q)
                    d = sw.equal(a, b, rel=what == 'weight')
                    if d is True:
                        chk.discharged += 1
                    elif d is not None and d > 1e-9:
                        raise Bad('%s for kk=%s is off the expansion' % (what, kk), {'ns': sw.worst + [m['n'] for m in q.models()] + sw.shrink(a, b, 1e-9, what == 'weight')})
                    else:
                        raise Unsupported('%s for kk=%s not proven equal to the expansion' % (what, kk))
                full += 1
        except Bad as e:
            bad = True
            chk.log('candidate:', e.why)
            if not confirm(chk, nat, 'leg', (e.env or {}).get('ns', []), done):
                und.append('%s (order, support and signs hold at the sampled degrees)' % e.why)
            break
        except Unsupported as e:
            bad = True
            und.append(str(e))
    if not bad:
        chk.part('GaussLegendre: every degree %d..%d (real arithmetic; expansion with ordered angles and positive weights, %d cases)' % (leg.LO, NT, full))
    elif not done:
        concrete(chk, nat, 'leg', (101, 102, 128, 255), done, und)


LONG = {'her': list(range(5, 41)) + [1, 64, 65, 100, 101, 131, 200, 258, 520], 'lag': list(range(5, 31)) + [1, 40, 64, 101, 131, 258, 300], 'jac': list(range(5, 18)) + [1, 21, 22, 33, 64, 131, 258]}


def golub(chk, nat, rule, done, und):
    sym, ok, kf = [], [], []
    hit = False
    def one(n, symlam):
        def go(chk):
            kf, und = [], []
            if chk.left() < 100:
                return symlam, n, False, ['%s n=%d: no time' % (rule, n)], []
            good = False
            try:
                P = gw.paths(chk, rule, n, symlam, extra=[AL > 1, BE > 2] if (symlam or n > 9) and rule == 'jac' else (), limit=100)
                for p in P:
                    if p.o.kind != 'ret':
                        continue               # C16-C18
                    if p.mat:
                        if n < 64:             # longer ones: C16-C18
                            gw.check_matrix(chk, p)
                        gw.check_pairs(chk, p, kf)
                    elif gw.fixed(p) is not None:
                        ordered_gw(chk, p)
                    else:
                        gw.special(chk, p)
                good = True
            except Bad as e:
                chk.log('candidate:', rule, n, e.why)
                if not gw.confirm_gw(chk, nat, rule, e.env or {'ns': [n]}, done, what='sorted'):
                    und.append('%s n=%d: %s (order, support and signs hold at the samples)' % (rule, n, e.why))
            except Unsupported as e:
                und.append('%s n=%d: %s' % (rule, n, e))
            return symlam, n, good, und, [n for n, _ in kf]
        return go
    nv = len(chk.viol)
    degs = LONG[rule] if chk.quick else sorted(set(LONG[rule]) | set(range(5, 66)) | {101, 128, 131, 200, 257, 258, 300})
    core.module('b')
    for r in core.parallel(chk, [one(n, True) for n in (2, 3, 4)] + [one(n, False) for n in sorted(degs, reverse=True)]):
        if r is None:
            continue
        if r[2]:
            (sym if r[0] else ok).append(r[1])
        und += r[3]
        kf += r[4]
    ok.sort()
    hit = len(chk.viol) > nv
    if sym:
        chk.part('%s: degrees %s with every order of the eigenvalues' % (rule, leg.span(sym)))
    if ok:
        chk.part('%s: degrees %s' % (rule, leg.span(ok)))
    if kf and not hit:
        v = gw.native_gw(nat, 'jac', 3, 20.0, 0.0, 'sorted')
        if v:
            chk.violation(('GaussJacobi::new of odd degree >= 3 with alpha != beta: middle node is 0 and out of order, e.g. ' if v[2] == gw.DKF else '') + v[0], v[1], key=v[2])
    chk.replays = getattr(chk, 'replays', 0)
    for n in (1, 2, 3, 8, 21, 64):
        for a, b in gw.ABS[rule][:5] + [(6.0, 2.0)]:
            v = gw.native_gw(nat, rule, n, a, b, 'sorted')
            chk.replays += 1
            if v and v[2] is None and not hit:
                hit = True
                chk.violation(v[0], v[1])


def ordered_gw(chk, p):
    a, b = gw.fixed(p)
    if p.rule != 'jac':
        return gw.special(chk, p)
    ordered(chk, list(zip(p.x, p.w)), p.n)


def check(chk):
    nat = core.Native('b', timeout=200)
    chk.assumptions.add('Golub-Welsch theorem: the eigenvalues are distinct, lie inside the support and the first components do not vanish')
    chk.assumptions.add('contract of nalgebra::SymmetricEigen: eigenvalues and orthonormal eigenvectors of the (symmetric) matrix it is given')
    und, done = [], set()
    for kind in ('che1', 'che2'):
        cheb(chk, nat, kind, done, und)
    legendre(chk, nat, done, und)
    for rule in ('her', 'lag', 'jac'):
        golub(chk, nat, rule, done, und)
    gw.overflow_known(chk, nat)
    for rule in NM:
        for n in (1, 2, 3, 7, 50, 100, 101, 102, 1001, 65537):
            v = native_sup(nat, rule, n)
            chk.replays += 1
            if v and v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
                break
    for u in und:
        chk.undecided(u)
