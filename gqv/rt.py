"""C22: serde round trip of every type."""
import z3
from . import core, term, gauss, fan
from .term import var, const
from .exec import Unsupported
from .grid import Bad
from .gw import AL, BE
from .trig import N

COMP = {'trap': 'Trapezoid', 'mid': 'Midpoint', 'simp': 'Simpson'}
RULE = {'leg': 'GaussLegendre', 'che1': 'GaussChebyshevFirstKind', 'che2': 'GaussChebyshevSecondKind', 'her': 'GaussHermite', 'lag': 'GaussLaguerre', 'jac': 'GaussJacobi'}
NPAR = {'lag': 1, 'jac': 2}
FMT = {0: 'structs as sequences', 1: 'structs as maps'}


def bits(r, *tags):
    return [term.fbits(v) for t, v in r.ev if t in tags]


@core.timed
def native_comp(nat, k, n, mp):
    cmd = ('call', 'h_ser_' + k, (n, mp), ())
    r = nat.calls([cmd])[0]
    nm = '%s::new(%d), %s' % (COMP[k], n, FMT[mp])
    if r.bad:
        return nm + ': panic', [cmd]
    if r.tag(20) != [1]:
        return nm + ': the serialised rule does not deserialise', [cmd]
    if r.tag(31) != [n] or r.tag(32) != [1]:
        return nm + ': degree %r after the round trip' % r.tag(31), [cmd]
    return None


@core.timed
def native_rule(nat, k, n, al, be, mp):
    cmd = ('call', 'h_ser_' + k, (n, al, be, 0, mp), ())
    r = nat.calls([cmd])[0]
    nm = '%s of degree %d%s, %s' % (RULE[k], n, {0: '', 1: ', alpha=%r' % al, 2: ', alpha=%r, beta=%r' % (al, be)}[NPAR.get(k, 0)], FMT[mp])
    if r.bad:
        return nm + ': panic', [cmd]
    if r.tag(20) != [1]:
        return nm + ': the serialised rule does not deserialise', [cmd]
    p, q = bits(r, 1, 2), bits(r, 11, 12)
    if r.tag(31) != [n] or len(p) != len(q):
        return '%s: degree %r after the round trip' % (nm, r.tag(31)), [cmd]
    if p != q:
        i = next(i for i in range(len(p)) if p[i] != q[i])
        return '%s: %s %d differs after the round trip' % (nm, ('node', 'weight')[i % 2], i // 2), [cmd]
    for t, v, w in ((3, al, 'alpha'), (4, be, 'beta')):
        if r.tag(t) and r.tag(t) != [v]:
            return '%s: %s is %r after the round trip' % (nm, w, r.tag(t)[0]), [cmd]
    if r.tag(32) != [1]:
        return nm + ': not equal after the round trip', [cmd]
    return None


PARS = [(0.25, 0.75), (0.0, 0.0), (-0.5, -0.5), (0.5, 0.5), (-0.75, 3.0), (2.5, -0.5), (0.1, 0.2), (7.0, 11.0), (1.0, 1.0), (-0.9999999, 0.3)]


def confirm(chk, nat, k, ns, done, ab=()):
    for mp in (0, 1):
        if k in COMP:
            for n in [n for n in ns if 1 <= n < 2**32] + [1, 2, 3, 10, 255, 256, 65535, 65536, 2**31, 2**32 - 1]:
                v = native_comp(nat, k, n, mp)
                if v:
                    break
            else:
                continue
        else:
            for n in [n for n in ns if 1 <= n <= 300] + [1, 2, 3, 5, 8, 17, 64, 101, 258]:
                for a, b in list(ab) + PARS[:4 + 6 * NPAR.get(k, 0)]:
                    v = native_rule(nat, k, n, a, b, mp)
                    if v:
                        break
                else:
                    continue
                break
            else:
                continue
        if v[0] not in done:
            done.add(v[0])
            chk.violation(v[0], v[1])
        return True
    return False


def comp(chk, nat, k, mp, cfg):
    eng = chk.engine(cfg, handlers=core.std_handlers(), limit=60, max_paths=200, max_steps=400000, timeout=5000)
    st = eng.start('h_ser_' + k, [N, mp])
    st.pc += [N >= 1, N < 2**32]
    cnt = 0
    for o in eng.run(st):
        cnt += 1

        def bad(why, cond=None):
            m = eng.model(o.st, cond) if cond is not None else eng.model(o.st)
            raise Bad(why, {'ns': [m.eval(N, model_completion=True).as_long()] if m else []})
        if o.kind != 'ret':
            bad('%s: %s' % (o.kind, o.msg))
        tr = core.flat(o.st.trace)
        g = lambda t: [v for u, v in tr if u == t]
        chk.obligations += 1
        if g(20) != [1]:
            bad('does not deserialise')
        for t, want in ((31, N), (32, z3.IntVal(1))):
            for v in g(t):
                c = (v if z3.is_expr(v) else z3.IntVal(int(v))) != want
                if not eng.must(o.st, z3.Not(c)):
                    bad('degree' if t == 31 else 'equality', c)
        if not g(31) or not g(32):
            bad('no result')
        chk.discharged += 1
    if not cnt:
        raise Unsupported('no path')
    chk.assumptions |= eng.assumed
    return cnt


def rule(chk, nat, k, K, mp, cfg):
    np = NPAR.get(k, 0)
    al, be = var('al'), var('be')
    eng = gauss.gauss_engine(chk, cfg, K, limit=60, max_paths=300, max_steps=2000000, timeout=5000)
    st = eng.start('h_ser_' + k, [K, al if np > 0 else 0.0, be if np > 1 else 0.0, 1, mp])
    for i, v in ((1, AL), (2, BE)):
        if np >= i:
            st.pc += [v > -1, v <= 10**6]
    cnt = 0
    for o in eng.run(st):
        cnt += 1
        env = {'ns': [K]}
        m = eng.model(o.st)
        if m is not None and np:
            from .gw import realval
            env['ab'] = [(realval(m, AL), realval(m, BE) if np > 1 else 0.0)]
        if o.kind != 'ret':
            raise Bad('%s: %s' % (o.kind, o.msg), env)
        tr = core.flat(o.st.trace)
        g = lambda *t: [v for u, v in tr if u in t]
        chk.obligations += 1
        if g(20) != [1]:
            raise Bad('does not deserialise', env)
        p, q = [const(v) for v in g(1, 2)], [const(v) for v in g(11, 12)]
        if len(p) != 2 * K or len(q) != 2 * K or any(int(str(z3.simplify(v)) if z3.is_expr(v) else v) != K for v in g(31)):
            raise Bad('%d pairs after the round trip' % (len(p) // 2), env)
        for i, (x, y) in enumerate(zip(p, q)):
            if x is not y and x.id != y.id:
                raise Bad('%s %d differs after the round trip' % (('node', 'weight')[i % 2], i // 2), env)
        for t, v in ((3, AL), (4, BE)):
            for r in g(t):
                z = term.Z()
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*o.st.pc)
                chk.stats.queries += 1
                c = s.check(z(const(r)) != v)
                if c == z3.sat:
                    raise Bad('%s changes' % ('alpha' if t == 3 else 'beta'), env)
                if c != z3.unsat:
                    raise Unsupported('parameter undecided')
        if len(g(3)) != (np > 0) or len(g(4)) != (np > 1):
            raise Bad('parameters missing', env)
        for v in g(32):
            if not eng.must(o.st, (v if z3.is_expr(v) else z3.IntVal(int(v))) == 1):
                raise Bad('not equal after the round trip', env)
        chk.discharged += 1
    if not cnt:
        raise Unsupported('no path')
    chk.assumptions |= eng.assumed
    return cnt


@core.timed
def native_fan(nat, x, mp):
    cmd = ('call', 'h_ser_fan', (x, mp), ())
    r = nat.calls([cmd])[0]
    if not r.tag(46) and not r.bad:
        return None
    v = r.tag(5)
    if r.bad or not v or term.fbits(v[0]) != term.fbits(x):
        return 'FiniteAboveNegOneF64(%r) is %r after the round trip' % (x, v[:1] or None), [cmd]
    return None


def single(chk, nat, cfg, done, und):
    from .fan import X, FPv, run, judge, valid, fval
    cands, n0 = [], len(und)
    try:
        mp = z3.Int('map')
        for o in run(chk, cfg, 'h_ser_fan', [FPv(X), mp], pc=[z3.Or(mp == 0, mp == 1)]):
            if o.kind == 'ret' and not any(t == 46 for t, _ in core.flat(o.st.trace)):
                continue          # not a valid value
            cands += judge(chk, o, z3.BoolVal(True), X, 'h_ser_fan', und)
    except Unsupported as e:
        und.append('FiniteAboveNegOneF64: %s' % e)
    if not cands and len(und) == n0:
        chk.part('configuration %s: FiniteAboveNegOneF64: every double (exact IEEE)' % cfg)
    for x in [fval(m, X) for m in cands if m is not None] + [0.25, -0.0, 0.0, 5e-324, -0.9999999999999999, 1.7976931348623157e308, 3.0, 1e-300, 0.1]:
        for mp in (0, 1):
            v = native_fan(nat, x, mp)
            if v:
                if v[0] not in done:
                    done.add(v[0])
                    chk.violation(v[0], v[1], cfg='b')
                return
    if cands:
        und.append('FiniteAboveNegOneF64: candidate not reproduced on the real code')


def check(chk):
    nat = core.Native('b', timeout=100)
    und, done = [], set()
    chk.assumptions.add('a data format of its own (harness/src/ser.rs): self describing tokens, structs as sequences or as maps, floats kept exactly')
    lens = (1, 2, 3, 4, 5, 8, 17, 64) if chk.quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64, 100, 129)
    for cfg in ('b', 'a'):
        for k in COMP:
            ok = []
            for mp in (0, 1):
                try:
                    comp(chk, nat, k, mp, cfg)
                    ok.append(FMT[mp])
                except Bad as e:
                    chk.log('candidate:', k, e.why, e.env)
                    if not confirm(chk, nat, k, e.env['ns'], done):
                        und.append('%s: %s (not reproduced on the real code)' % (k, e.why))
                except Unsupported as e:
                    und.append('%s: %s' % (k, e))
                    confirm(chk, nat, k, [], done)
            if ok:
                chk.part('configuration %s: %s: every degree, %s' % (cfg, COMP[k], ', '.join(ok)))
        for k in RULE:
            ok = {0: [], 1: []}
            for mp in (0, 1):
                for K in lens:
                    if chk.left() < 80:
                        und.append('%s from length %d on: no time' % (k, K))
                        break
                    try:
                        rule(chk, nat, k, K, mp, cfg)
                        ok[mp].append(K)
                    except Bad as e:
                        chk.log('candidate:', k, K, e.why, e.env)
                        if not confirm(chk, nat, k, e.env['ns'], done, e.env.get('ab', ())):
                            und.append('%s, %d pairs: %s (not reproduced on the real code)' % (k, K, e.why))
                        break
                    except Unsupported as e:
                        und.append('%s, %d pairs: %s' % (k, K, e))
                        confirm(chk, nat, k, [], done)
                        break
            for mp in (0, 1):
                if ok[mp]:
                    chk.part('configuration %s: %s: arbitrary arrays of %s pairs%s, %s' % (cfg, RULE[k], ok[mp], ', every parameter' if k in NPAR else '', FMT[mp]))
    for cfg in ('b', 'a'):
        single(chk, nat, cfg, done, und)
    chk.replays = 0
    for k in list(COMP) + list(RULE):
        chk.replays += 1
        confirm(chk, nat, k, [], done)
    for u in und:
        chk.undecided(u)
