"""C25: comparisons of FiniteAboveNegOneF64; C26: what a refused text is refused for; C27: equality and clones of Gauss rules."""
import itertools
import z3
from . import core, term, gauss
from .term import var, const
from .exec import Unsupported, Ptr
from .grid import Bad
from .gw import AL, BE, realval
from .fan import X, Y, FPv, PTS, Ask, run, valid, fval, okv, parse_handler
from .rt import RULE, NPAR


def ib(v, k):
    return z3.BoolVal(v == k) if isinstance(v, (int, bool)) else (v if k else z3.Not(v)) if z3.is_bool(v) else v == k


# ---------------------------------------------------------------------------------------- C25
SPEC = {40: ('==', z3.fpEQ(X, Y), lambda x, y: x == y), 41: ('<', z3.fpLT(X, Y), lambda x, y: x < y), 42: ('<=', z3.fpLEQ(X, Y), lambda x, y: x <= y),
        43: ('>', z3.fpGT(X, Y), lambda x, y: x > y), 44: ('>=', z3.fpGEQ(X, Y), lambda x, y: x >= y), 45: ('!=', z3.Not(z3.fpEQ(X, Y)), lambda x, y: x != y)}


def native_cmp(x, y, r):
    if not (okv(x) and okv(y)):
        return None
    nm = 'FiniteAboveNegOneF64(%r) ' % x
    if r.bad:
        return nm + 'compared with %r panics' % y
    for t, (o, _, f) in SPEC.items():
        if r.tag(t) != [int(f(x, y))]:
            return '%s%s %r is %s' % (nm, o, y, ['false', 'true'][r.tag(t)[0]] if r.tag(t) else 'missing')
    if r.tag(48) != [0 if x < y else 1 if x == y else 2]:
        return nm + 'partial_cmp %r is %s' % (y, ['Less', 'Equal', 'Greater', 'None'][r.tag(48)[0]] if r.tag(48) else 'missing')


def check_cmp(chk):
    pts = [x for x in PTS if okv(x)] + [0.1, 0.1 + 2**-56, 1 / 3, 0.3333333333333333 + 2**-54, 1e-300, 2e-300, 3.0, 3.0000000000000004, -0.25, -0.9999999999999999]
    for cfg in 'ab':
        nat = core.Native(cfg)
        und, cands, np = [], [], 0
        try:
            for o in run(chk, cfg, 'h_fan_cmp', [FPv(X), FPv(Y)]):
                a = Ask(chk, o.st.pc)
                tr = core.flat(o.st.trace) if o.kind == 'ret' else []
                g = lambda t: [v for u, v in tr if u == t]
                conds = []
                if o.kind != 'ret':
                    conds.append(z3.BoolVal(False))
                elif not g(40):
                    conds.append(z3.Not(z3.And(valid(X), valid(Y))))
                else:
                    np += 1
                    if any(len(g(t)) != 1 for t in list(SPEC) + [48]):
                        und.append('comparison not seen')
                        continue
                    conds += [ib(g(t)[0], 1) == SPEC[t][1] for t in SPEC]
                    v = g(48)[0]
                    conds += [z3.Implies(SPEC[41][1], ib(v, 0)), z3.Implies(SPEC[40][1], ib(v, 1)), z3.Implies(SPEC[43][1], ib(v, 2))]
                for c in conds:
                    chk.obligations += 1
                    r, m = a(z3.Not(c))
                    if r == z3.unsat:
                        chk.discharged += 1
                    elif r == z3.sat:
                        cands.append(m)
                    else:
                        und.append('comparison')
            if not np:
                und.append('no path')
        except (Unsupported, z3.Z3Exception) as e:
            und.append('h_fan_cmp: %s' % e)
        ps = [(fval(m, X), fval(m, Y)) for m in cands] + [(x, y) for x in pts for y in pts]
        hit = False
        for (x, y), r in zip(ps, nat.calls([('call', 'h_fan_cmp', p, ()) for p in ps])):
            t = native_cmp(x, y, r)
            if t:
                hit = True
                chk.violation(t, [('call', 'h_fan_cmp', (x, y), ())], cfg=cfg)
                break
        if not cands and not und:
            chk.part('configuration %s: ==, !=, <, <=, >, >=, partial_cmp: every pair of valid doubles (%d paths)' % (cfg, np))
        elif not hit:
            for u in und or ['candidate not reproduced on the real code']:
                chk.undecided(u)


# ---------------------------------------------------------------------------------------- C26
TEXTS = ['', 'x', '-', '.', 'e5', '1e', '1.0.0', ' 1', '1 ', '+-1', '0x10', 'one', 'nan', 'NaN', '-nan', 'inf', '-inf', '+infinity', 'Infinity', '1e999', '-1e999', '1e309', '-1', '-1.0', '-1e0',
         '-1.0000000000000001', '-1.0000000000000003', '-2', '-1e300', '0', '-0.5', '1', '-0.9999999999999999', '1e308', '-10e-1', '-100e-2', '1_0', 'infin', '--1', '1e+400', '-0.99999999999999999999']


def native_err(s, r):
    if r.bad:
        return 'parsing %r panics' % s
    try:
        v = None if s.strip() != s or '_' in s else float(s)
    except ValueError:
        v = None
    got = r.tag(20)
    want = 2 if v is None else 1 if okv(v) else 3
    nm = {1: 'a value', 2: 'ParseError', 3: 'InvalidValue'}
    if got != [want]:
        return 'parsing %r gives %s instead of %s' % (s, nm.get(got[0], got) if got else 'nothing', nm[want])
    if want == 2 and r.tag(71) != [1]:
        return 'parsing %r: the error is not the one of f64' % s
    if want != 1 and r.tag(72) != [1]:
        return 'parsing %r: source() is not the wrapped error' % s
    if want != 1 and r.tag(73) != [1]:
        return 'parsing %r: the error differs from its clone' % s


def check_err(chk):
    chk.assumptions.add('parsing a f64 in core is a function of the bytes given, otherwise arbitrary')
    for cfg in 'ab':
        nat = core.Native(cfg)
        und, cands, seen = [], [], set()
        n = z3.Int('len')
        pok, kind = z3.Bool('parse_ok'), z3.Int('parse_kind')
        try:
            for o in run(chk, cfg, 'h_fan_err', [Ptr(None, 4096), n], extra=[(r'float_parse.*FromStr.*from_str|dec2flt.*FromStr.*from_str', parse_handler)],
                         pc=[n >= 0, n < 2**32, kind >= 0, kind <= 1]):
                a = Ask(chk, o.st.pc)
                if o.kind != 'ret':
                    cands.append(a()[1])
                    continue
                tr = core.flat(o.st.trace)
                g = lambda t: [v for u, v in tr if u == t]
                calls = [e for e in o.st.trace if e[0] == 'parse']
                if len(g(20)) != 1 or not calls:
                    und.append('outcome not seen')
                    continue
                s = g(20)[0]
                conds = [z3.BoolVal(isinstance(p, Ptr) and p.obj is None and p.off == 4096) if not isinstance(l, int) and not z3.is_expr(l) else
                         z3.And(z3.BoolVal(isinstance(p, Ptr) and p.obj is None and isinstance(p.off, int) and p.off == 4096), (z3.IntVal(l) if isinstance(l, int) else l) == n) for _, p, l in calls]
                conds += [ib(s, 1) == z3.And(pok, valid(X)), ib(s, 3) == z3.And(pok, z3.Not(valid(X))), ib(s, 2) == z3.Not(pok)]
                conds += [z3.Or(ib(s, 1), z3.And([ib(v, 1) for v in g(72) + g(73) + g(71)]) if g(72) and g(73) else z3.BoolVal(False)), z3.Or(z3.Not(ib(s, 2)), z3.BoolVal(bool(g(71))))]
                for k in (1, 2, 3):
                    if a(ib(s, k))[0] == z3.sat:
                        seen.add(k)
                for c in conds:
                    chk.obligations += 1
                    r, m = a(z3.Not(c))
                    if r == z3.unsat:
                        chk.discharged += 1
                    elif r == z3.sat:
                        cands.append(m)
                    else:
                        und.append('outcome')
        except (Unsupported, z3.Z3Exception) as e:
            und.append('h_fan_err: %s' % e)
        if not cands and not und and seen != {1, 2, 3}:
            und.append('outcomes %s only' % sorted(seen))
        texts = [repr(fval(m, X)) for m in cands if m is not None] + [repr(x) for x in PTS] + TEXTS + ['0' * k + '.' + '3' * k for k in (5, 9, 17, 40)] + ['-0.' + '9' * k + 'x' for k in (3, 30)]
        hit = False
        for s, r in zip(texts, nat.calls([('call', 'h_fan_err', tuple(s.encode()), ()) for s in texts])):
            t = native_err(s, r)
            if t:
                hit = True
                chk.violation(t, [('call', 'h_fan_err', tuple(s.encode()), ())], cfg=cfg)
                break
        chk.replays = getattr(chk, 'replays', 0) + len(texts)
        if not cands and not und:
            chk.part('configuration %s: every text: a value, InvalidValue or ParseError exactly when f64 parses to a valid number, to another one, not at all; wrapped error and source() are that error' % cfg)
        elif not hit:
            for u in und or ['candidate not reproduced on the real code']:
                chk.undecided(u)


# ---------------------------------------------------------------------------------------- C27
A2, B2 = z3.Real('al2'), z3.Real('be2')


@core.timed
def native_eq(nat, k, n, m, p, q):
    cmd = ('call', 'h_eq_' + k, (n, m, *p, *q, 0), ())
    r = nat.calls([cmd])[0]
    np = NPAR.get(k, 0)
    sh = lambda n, p: '%s::new(%s)' % (RULE[k], ', '.join([str(n)] + [repr(v) for v in p[:np]]))
    if r.bad:
        return None          # construction fails: someone else's property
    R, Q, C = ([v for t, v in r.ev if t in ts] for ts in ((1, 2), (11, 12), (21, 22)))
    if any(v != v for v in R + Q):
        return None
    if r.tag(85) != [n] or [term.fbits(v) for v in C] != [term.fbits(v) for v in R]:
        return 'the clone of %s holds other pairs' % sh(n, p), [cmd]
    if r.tag(84) != [1]:
        return '%s differs from its clone' % sh(n, p), [cmd]
    want = int(R == Q and p[:np] == q[:np])
    for t, o in ((81, '{0} == {1}'), (82, '{1} == {0}'), (83, '{0} != {1}')):
        if r.tag(t) != [1 - want if t == 83 else want]:
            return '%s is %s' % (o.format(sh(n, p), sh(m, q)), bool(r.tag(t)[0]) if r.tag(t) else None), [cmd]


def confirm_eq(chk, nat, k, env=None):
    env = env or {}
    np = NPAR.get(k, 0)
    ps = [(0.0, 0.0), (0.25, 0.75), (0.25, 0.7500000000001), (0.2500000000001, 0.75), (0.25, 0.75000001), (0.250001, 0.75), (0.25, 0.751), (0.5, 0.5), (-0.5, -0.5), (3.0, 0.25), (0.75, 0.25), (1e-9, 0.0), (0.0, 1e-9),
          (0.25, 0.7500000000000001), (0.25000000000000006, 0.75), (5e-324, 0.0), (0.0, 5e-324)]
    ps = list(dict.fromkeys([(p[0], p[1] if np > 1 else 0.0) for p in list(env.get('ps', ())) + ps])) if np else [(0.0, 0.0)]
    for n, m in [(a, b) for a, b in [env.get('n', (1, 1))] if 1 <= a <= 300 and 1 <= b <= 300] + [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (16, 16), (1, 2), (2, 1), (2, 3), (3, 2), (4, 5), (5, 4), (100, 101), (3, 7), (65, 64)]:
        for p, q in itertools.product(ps, ps) if n == m and n < 6 else [(ps[0], ps[0])]:
            v = native_eq(nat, k, n, m, p, q)
            if v:
                chk.violation(v[0], v[1], cfg='b')
                return True
    return False


def pair(chk, cfg, k, n, m):
    np = NPAR.get(k, 0)
    eng = gauss.gauss_engine(chk, cfg, n, limit=60, max_paths=4000, max_steps=2000000, timeout=5000)
    cnt = 0
    first, second = gauss.havoc(n, 'r'), gauss.havoc(m, 's')

    def h(e, st, av, nm):
        c = st.info.get('hv', 0)
        st.info['hv'] = c + 1
        return (first if c == 0 else second)(e, st, av, nm)
    eng.handlers['vhavoc'] = h
    st = eng.start('h_eq_' + k, [n, m, *(var(v) if np > i else 0.0 for i, v in enumerate(('al', 'be'))), *(var(v) if np > i else 0.0 for i, v in enumerate(('al2', 'be2'))), 1])
    for v in (AL, A2)[:2 if np > 0 else 0] + (BE, B2)[:2 if np > 1 else 0]:
        st.pc += [v > -1, v <= 10**6]
    try:
        for o in eng.run(st):
            cnt += 1

            def bad(why, *cond):
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*o.st.pc, *cond)
                e = {'n': (n, m)}
                if s.check() == z3.sat and np:
                    mo = s.model()
                    e['ps'] = [(realval(mo, AL), realval(mo, BE) if np > 1 else 0.0), (realval(mo, A2), realval(mo, B2) if np > 1 else 0.0)]
                raise Bad(why, e)
            if o.kind != 'ret':
                bad('%s: %s' % (o.kind, o.msg))
            tr = core.flat(o.st.trace)
            g = lambda *t: [v for u, v in tr if u in t]
            R, Q, C = [[const(v) for v in g(*ts)] for ts in ((1, 2), (11, 12), (21, 22))]
            chk.obligations += 1
            if len(R) != 2 * n or len(Q) != 2 * m or any(len(g(t)) != 1 for t in (81, 82, 83, 84, 85)):
                bad('no result')
            if [x.id for x in R] != [x.id for x in C]:
                bad('the clone holds other pairs')
            z = term.Z()
            same = [z3.BoolVal(n == m)] + ([z(x) == z(y) for x, y in zip(R, Q)] if n == m else []) + [AL == A2, BE == B2][:np]
            same = z3.And(same)
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(*o.st.pc)
            for c, why in ((ib(g(81)[0], 1) == same, '=='), (ib(g(82)[0], 1) == same, '== the other way round'), (ib(g(83)[0], 1) != same, '!='), (ib(g(84)[0], 1), 'a clone differs'),
                           (ib(g(85)[0], n), 'the clone has another degree')):
                s.push()
                s.add(z3.Not(c))
                chk.stats.queries += 1
                r = s.check()
                s.pop()
                if r == z3.sat:
                    bad(why, z3.Not(c))
                if r != z3.unsat:
                    raise Unsupported('equality undecided')
            chk.discharged += 1
    finally:
        chk.assumptions |= eng.assumed
    if not cnt:
        raise Unsupported('no path')
    return cnt


def check_eq(chk):
    nat = core.Native('b', timeout=100)
    for cfg in 'ab':
        core.module(cfg)
    chk.assumptions.add('the pairs are real numbers (NaN never equals itself, as in f64)')
    L = (1, 2, 3, 4) if chk.quick else (1, 2, 3, 4, 5, 6)

    def task(cfg, k, nms):
        def go(chk):
            ok = []
            for n, m in nms:
                if chk.left() < 80:
                    chk.undecided('%s, %d and %d pairs: no time' % (k, n, m))
                    break
                try:
                    pair(chk, cfg, k, n, m)
                    ok.append('%d/%d' % (n, m))
                except Bad as e:
                    chk.log('candidate:', k, n, m, e.why, e.env)
                    if not confirm_eq(chk, nat, k, e.env):
                        chk.undecided('%s, %d and %d pairs: %s (not reproduced on the real code)' % (k, n, m, e.why))
                    break
                except Unsupported as e:
                    chk.undecided('%s, %d and %d pairs: %s' % (k, n, m, e))
                    confirm_eq(chk, nat, k)
                    break
            if ok:
                chk.part('configuration %s: %s: two arbitrary arrays of %s pairs%s' % (cfg, RULE[k], ', '.join(ok), ', every parameter' if k in NPAR else ''))
        return go
    nms = [(a, b) for a in L for b in L if abs(a - b) <= 1 or min(a, b) == 1] + [(8, 8), (16, 16), (16, 15)]
    core.parallel(chk, [task(cfg, k, [p for p in nms if not chk.quick or k != 'jac' or p[0] < 8]) for k in ('jac', 'lag', 'her', 'leg', 'che1', 'che2') for cfg in 'ab'], 8)
    chk.replays = 0
    if not chk.viol:
        for k in RULE:
            chk.replays += 1
            if confirm_eq(chk, nat, k):
                break
