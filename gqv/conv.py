"""C19: special parameters of Gauss-Jacobi, conversions into it, and the parameters it (and Gauss-Laguerre) reports."""
import z3
from . import core, term, gw, gauss, trig
from .term import const
from .exec import Unsupported, Ptr
from .grid import Bad
from .gw import AL, BE

SPECIAL = {'leg': 0.0, 'che1': -0.5, 'che2': 0.5}
NAMES = {'leg': 'GaussLegendre', 'che1': 'GaussChebyshevFirstKind', 'che2': 'GaussChebyshevSecondKind'}


def bits(r, *tags):
    return [(t, term.fbits(v)) for t, v in r.ev if t in tags]


@core.timed
def native_special(nat, kind, n):
    c = SPECIAL[kind]
    cmds = [('call', 'h_jac_full', (n, c, c), ()), ('call', 'h_' + kind, (n, 0.0, 0.0), ())]
    a, b = nat.calls(cmds)
    name = 'GaussJacobi::new(%d, %r, %r)' % (n, c, c)
    if b.bad:
        return None
    if a.bad:
        return name + ' panics', cmds
    p, q = bits(a, 1, 2), bits(b, 1, 2)
    if p != q:
        i = next((i for i, (x, y) in enumerate(zip(p, q)) if x != y), min(len(p), len(q)))
        return '%s differs from %s::new(%d) in pair %d: %r, %r' % (name, NAMES[kind], n, i // 2, [v for t, v in a.ev if t in (1, 2)][i:i + 1], [v for t, v in b.ev if t in (1, 2)][i:i + 1]), cmds
    if a.tag(3) != [c] or a.tag(4) != [c]:
        return '%s reports alpha = %r, beta = %r' % (name, a.tag(3), a.tag(4)), cmds
    return None


@core.timed
def native_get(nat, n, a, b):
    cmds = [('call', 'h_jac_par_get', (n, a, b), ())]
    r = nat.calls(cmds)[0]
    name = 'GaussJacobi::new(%d, %r, %r)' % (n, a, b)
    if r.bad:
        return None
    if any(v != a for v in r.tag(3)) or any(v != b for v in r.tag(4)):
        return '%s reports alpha = %r, beta = %r' % (name, r.tag(3), r.tag(4)), cmds
    v = gw.native_gw(nat, 'jac', n, a, b)
    if v and v[2] is None:
        return v[0], v[1]
    return None


@core.timed
def native_conv(nat, kind, n, i):
    c = SPECIAL[kind]
    cmds = [('call', 'h_conv_' + kind, (n, 0), (i,)), ('call', 'h_' + kind, (n, 0.0, 0.0), ())]
    a, b = nat.calls(cmds)
    name = 'GaussJacobi::from(%s::new(%d))' % (NAMES[kind], n)
    if b.bad:
        return None
    if a.bad:
        return name + ' panics', cmds
    if a.tag(3) != [c] or a.tag(4) != [c]:
        return '%s has alpha = %r, beta = %r' % (name, a.tag(3), a.tag(4)), cmds
    if a.tag(30) != [n]:
        return '%s has degree %r' % (name, a.tag(30)), cmds
    p = [v for v in bits(a, 1, 2)]
    q = bits(b, 1, 2)[2 * i:2 * i + 2]
    if p != q:
        return '%s: pair %d is %r instead of %r' % (name, i, a.tag(1, 2), b.tag(1, 2)[2 * i:2 * i + 2]), cmds
    return None


GETS = [(0.25, 0.75), (-0.5, 0.5), (0.5, -0.5), (0.0, 0.5), (1e-3, 0.0), (3.0, 1.0), (-0.5, 0.0), (0.0, -0.5), (0.5, 0.0), (1e-9, 0.0), (0.5000001, 0.5), (2.0, 30.0), (-0.25, -0.75), (1.0, 1.0), (-0.9, -0.9), (40.0, 2.0)]


def confirm(chk, nat, ns, ab, done):
    def rep(v):
        if v and v[0] not in done:
            done.add(v[0])
            chk.violation(v[0], v[1])
        return bool(v)
    for n in [k for k in ns if 1 <= k <= 150000] + list(range(1, 12)) + [20, 33, 64, 99, 100, 101, 102, 128, 201, 300, 1000]:
        for k in SPECIAL:
            if rep(native_special(nat, k, n)):
                return True
    for n in [k for k in ns if 1 <= k <= 100][:3] + [1, 2, 3, 6]:
        for a, b in [t for t in ab if all(-1 < v < 60 for v in t)] + GETS:
            if rep(native_get(nat, n, a, b)):
                return True
    return False


def confirm_conv(chk, nat, ns, done):
    for kind in SPECIAL:
        for n in [k for k in ns if 1 <= k <= 150000] + [1, 2, 3, 4, 5, 8, 33, 100, 101, 257]:
            for i in sorted({0, 1, 2, n // 2, n - 1, n}):
                v = native_conv(nat, kind, n, i)
                if v:
                    if v[0] not in done:
                        done.add(v[0])
                        chk.violation(v[0], v[1])
                    return True
    return False


def params(chk, p, zr):
    """alpha() and beta() are the parameters given"""
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*p.base)
    for t, v in p.par:
        chk.obligations += 1
        chk.stats.queries += 1
        r = s.check(zr(v) != (AL if t == 3 else BE))
        if r == z3.sat:
            raise Bad('%s() is %s' % ('alpha' if t == 3 else 'beta', term.show(v)[:80]), p.env(s.model()))
        if r != z3.unsat:
            raise Unsupported('parameter undecided')
        chk.discharged += 1


def check_special(chk, n):
    """every path of GaussJacobi::new for one degree"""
    P = gw.paths(chk, 'jac', n, False, entry='h_jac_full', limit=150)
    zr = term.Z()
    want = {}
    for k in SPECIAL:
        a, _ = trig.pairs_concrete(chk, 'h_' + k, n)
        want[k] = list(a)[0]
    for p in P:
        if p.o.kind != 'ret':
            raise Bad('%s: %s' % (p.o.kind, p.o.msg), p.env())
        params(chk, p, zr)
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*p.base)
        hit = None
        for k, c in SPECIAL.items():
            chk.obligations += 1
            chk.stats.queries += 1
            r = s.check(AL == term.qv(term.Fraction(c)), BE == term.qv(term.Fraction(c)))
            if r == z3.unsat:
                chk.discharged += 1
                continue
            if r != z3.sat:
                raise Unsupported('special parameters undecided')
            hit = k
            got = [trig.canon(const(v)) for xw in zip(p.x, p.w) for v in xw]
            if got != [v for v in want[k]]:
                raise Bad('parameters %r: not the pairs of %s::new(%d)' % (c, NAMES[k], n), {'ns': [n], 'ab': [(c, c)]})
            chk.discharged += 1
        if not p.mat and n > 1:
            chk.obligations += 1
            if hit is None or gw.fixed(p) is None:
                raise Bad('no eigen decomposition for other parameters', p.env())
            chk.discharged += 1
    return len(P)


def check_conv_sym(chk, kind):
    N, I = z3.Int('n'), z3.Int('i')
    eng = gauss.gauss_engine(chk, 'b', N, limit=60, max_paths=100, max_steps=100000, timeout=5000)
    eng.handlers['vint'] = lambda e, s, av, nm: I
    st = eng.start('h_conv_' + kind, [3, 1])
    st.pc += [N >= 1, N < 2**58, I >= 0, I < 2**63]
    np = 0
    c = SPECIAL[kind]
    for o in eng.run(st):
        np += 1
        m = None

        def bad(why, m=None):
            ns = [m.eval(N, model_completion=True).as_long()] if m is not None else []
            return Bad('GaussJacobi::from(%s): %s' % (NAMES[kind], why), {'ns': ns})
        if o.kind != 'ret':
            raise bad('%s: %s' % (o.kind, o.msg))
        tr = core.flat(o.st.trace)
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*o.st.pc)

        def must(cond, why):
            chk.obligations += 1
            chk.stats.queries += 1
            r = s.check(z3.Not(cond))
            if r == z3.sat:
                raise bad(why, s.model())
            if r != z3.unsat:
                raise Unsupported(why)
            chk.discharged += 1
        for t, v in tr:
            if t in (3, 4):
                must(z3.BoolVal(term.cval(const(v)) == term.Fraction(c)), 'parameter %s' % term.show(const(v))[:50])
            if t == 30:
                must(core.zint(v) == N, 'degree')
            if t == 20:
                must((core.zint(v) == 1) == (I < N), 'number of pairs')
            if t in (1, 2):
                v = const(v)
                if v.op != 'elem' or v.a[0] != ('rx' if t == 1 else 'rw'):
                    raise bad('value %s' % term.show(v)[:80])
                must(core.zint(v.a[1]) == I, 'pair out of place')
        if len([1 for t, _ in tr if t in (3, 4)]) != 2:
            raise Unsupported('parameters not seen')
    if not np:
        raise Unsupported('no path')
    chk.assumptions |= eng.assumed
    return np


def check(chk):
    nat = core.Native('b', timeout=200)
    done = set()
    ok, total = [], 0
    for n in list(range(1, 13)) + [20, 33] if chk.quick else list(range(1, 41)) + [64]:
        if done or chk.left() < 200:
            break
        try:
            total += check_special(chk, n)
            ok.append(n)
        except Bad as e:
            chk.log('candidate:', n, e.why, str(e.env)[:100])
            if not confirm(chk, nat, (e.env or {}).get('ns', [n]), (e.env or {}).get('ab', []), done):
                chk.undecided('n=%d: %s (not reproduced on the real code)' % (n, e.why))
                break
        except Unsupported as e:
            chk.undecided('n=%d: %s' % (n, e))
            if confirm(chk, nat, [n], [], done):
                break
            if n > 3:
                break
    if ok:
        chk.part('GaussJacobi::new, degrees %s, every alpha, beta in (-1, 1e100]: special parameters, alpha(), beta() (%d paths)' % (gw.leg.span(ok), total))
    # every degree
    for kind, c in SPECIAL.items():
        lo = 101 if kind == 'leg' else 1
        if done:
            break
        try:
            P = trig.explore(chk, 'h_%s_at' % kind, lo, trig.NMAX, limit=100)
            Q = trig.explore(chk, 'h_jac_at', lo, trig.NMAX, limit=100, ints=(trig.N, trig.J, c, c))
            cnt = trig.compare_paths(chk, P, Q)
            chk.part('GaussJacobi::new(n, %r, %r) = %s::new(n): every degree %d..%d, every index (%d path pairs)' % (c, c, NAMES[kind], lo, trig.NMAX, cnt))
        except Bad as e:
            chk.log('candidate:', kind, e.why)
            if not confirm(chk, nat, (e.env or {}).get('ns', []), [], done):
                chk.undecided('%s: %s (not reproduced on the real code)' % (kind, e.why))
        except Unsupported as e:
            chk.undecided('%s, every degree: %s' % (kind, e))
            confirm(chk, nat, [], [], done)
    if not done:
        g = []
        try:
            for n in (13, 50, 77, 98, 99, 100):
                a, _ = trig.pairs_concrete(chk, 'h_leg', n)
                eng = chk.engine('b', handlers=core.std_handlers(), limit=40, max_steps=2000000)
                for o in eng.run(eng.start('h_jac', [n, 0.0, 0.0])):
                    chk.obligations += 1
                    if o.kind != 'ret' or tuple(trig.canon(const(v)) for t, v in core.flat(o.st.trace)) != list(a)[0]:
                        raise Bad('Legendre pairs differ', {'ns': [n]})
                    chk.discharged += 1
                g.append(n)
            chk.part('GaussJacobi::new(n, 0, 0) = GaussLegendre::new(n): degrees %s' % g)
        except Bad as e:
            if not confirm(chk, nat, (e.env or {}).get('ns', []), [], done):
                chk.undecided('%s (not reproduced on the real code)' % e.why)
        except Unsupported as e:
            chk.undecided('Legendre table: %s' % e)
    for kind in SPECIAL:
        try:
            np = check_conv_sym(chk, kind)
            chk.part('GaussJacobi::from(%s): any number of arbitrary pairs, any index (%d paths)' % (NAMES[kind], np))
        except Bad as e:
            chk.log('candidate:', e.why, e.env)
            if not confirm_conv(chk, nat, (e.env or {}).get('ns', []), done):
                chk.undecided('%s (not reproduced on the real code)' % e.why)
        except Unsupported as e:
            chk.undecided('conversion of %s: %s' % (NAMES[kind], e))
            confirm_conv(chk, nat, [], done)
    chk.replays = 0
    for n in (1, 2, 7, 100, 101):
        for kind in SPECIAL:
            for v in (native_special(nat, kind, n), native_conv(nat, kind, n, n // 2)):
                chk.replays += 1
                if v and v[0] not in done:
                    done.add(v[0])
                    chk.violation(v[0], v[1])


def check_lag_alpha(chk, nat, done):
    """C17: GaussLaguerre::alpha()"""
    for n in (1, 2, 3, 5, 40):
        P = gw.paths(chk, 'lag', n, False, entry='h_lag_alpha')
        zr = term.Z()
        try:
            for p in P:
                if p.o.kind != 'ret':
                    raise Bad('%s: %s' % (p.o.kind, p.o.msg), p.env())
                params(chk, p, zr)
        except Bad as e:
            chk.log('candidate:', n, e.why)
            for a, _ in (e.env or {}).get('ab', []) + [(v, 0) for v in (0.0, 0.5, -0.5, 3.0, 1e-3, 25.0, 1.0, -0.99)]:
                cmds = [('call', 'h_lag_alpha', (n, a), ())]
                r = nat.calls(cmds)[0]
                if not r.bad and any(v != a for v in r.tag(3)):
                    t = 'GaussLaguerre::new(%d, %r) reports alpha = %r' % (n, a, r.tag(3)[0])
                    if t not in done:
                        done.add(t)
                        chk.violation(t, cmds)
                    return
            chk.undecided('alpha(): %s (not reproduced on the real code)' % e.why)
            return
        except Unsupported as e:
            chk.undecided('alpha(): %s' % e)
            return
    chk.part('GaussLaguerre::alpha() is the parameter given (degrees 1, 2, 3, 5, 40; every alpha)')
