"""C24: rkyv round trip. A rule is archived into a buffer, the archive is read in place and deserialised (harness/src/rk.rs)."""
import z3
from . import core, term, gauss
from .term import var, const
from .exec import Unsupported
from .grid import Bad
from .gw import AL, BE, realval
from .rt import COMP, RULE, NPAR, PARS, bits
from .trig import N

CFG = 'a'


@core.timed
def native(nat, k, n, al=0.0, be=0.0):
    if k == 'fan':
        cmd = ('call', 'h_rk_fan', (al,), ())
        r = nat.calls([cmd])[0]
        nm = 'FiniteAboveNegOneF64(%r)' % al
        if not r.bad and not r.tag(46):
            return None
    else:
        cmd = ('call', 'h_rk_' + k, (n,) if k in COMP else (n, al, be), ())
        r = nat.calls([cmd])[0]
        nm = '%s of degree %d%s' % ({**COMP, **RULE}[k], n, {0: '', 1: ', alpha=%r' % al, 2: ', alpha=%r, beta=%r' % (al, be)}[NPAR.get(k, 0)])
    if r.bad:
        return nm + ': panic in the rkyv round trip', [cmd]
    if r.tag(47) == [0]:
        return nm.split(' of degree')[0] + ' does not implement the traits of rkyv', [cmd]
    if r.tag(20) != [1]:
        return nm + ': the archived rule does not deserialise', [cmd]
    if k == 'fan':
        v = r.tag(5)
        if not v or term.fbits(v[0]) != term.fbits(al):
            return '%s is %r after the rkyv round trip' % (nm, v[:1] or None), [cmd]
        return None
    if r.tag(31) != [n]:
        return '%s: degree %r after the rkyv round trip' % (nm, r.tag(31)), [cmd]
    p, q = bits(r, 1, 2), bits(r, 11, 12)
    if len(p) != len(q):
        return '%s: %d pairs after the rkyv round trip' % (nm, len(p) // 2), [cmd]
    if p != q:
        i = next(i for i in range(len(p)) if p[i] != q[i])
        return '%s: %s %d differs after the rkyv round trip' % (nm, ('node', 'weight')[i % 2], i // 2), [cmd]
    for t, v, w in ((3, al, 'alpha'), (4, be, 'beta')):
        if r.tag(t) and r.tag(t) != [v]:
            return '%s: %s is %r after the rkyv round trip' % (nm, w, r.tag(t)[0]), [cmd]
    if r.tag(32) != [1]:
        return nm + ': not equal after the rkyv round trip', [cmd]
    return None


def confirm(chk, nat, k, ns=(), ab=()):
    if k == 'fan':
        todo = [(1, a, 0.0) for a in [a for a, _ in ab] + [0.25, -0.0, 0.0, 5e-324, -0.9999999999999999, 1.7976931348623157e308, 3.0, 1e-300, 0.1]]
    elif k in COMP:
        todo = [(n,) for n in [n for n in ns if 1 <= n < 2**32] + [1, 2, 3, 10, 255, 256, 65535, 65536, 2**31, 2**32 - 1]]
    else:
        todo = [(n, a, b) for n in [n for n in ns if 1 <= n <= 300] + [1, 2, 3, 5, 8, 17, 64, 101, 258] for a, b in list(ab) + PARS[:4 + 6 * NPAR.get(k, 0)]]
    for t in todo:
        v = native(nat, k, *t)
        if v:
            chk.violation(v[0], v[1], cfg=CFG)
            return True
    return False


def engine(chk, k, K):
    if k in RULE:
        return gauss.gauss_engine(chk, CFG, K, limit=60, max_paths=300, max_steps=2000000, timeout=5000)
    return chk.engine(CFG, handlers=core.std_handlers(), limit=60, max_paths=200, max_steps=400000, timeout=5000)


def path(chk, eng, o, k, n):
    """one path: the round trip succeeds and gives an equal rule"""
    def bad(why, cond=None):
        m = eng.model(o.st, cond) if cond is not None else eng.model(o.st)
        e = {'ns': [n] if isinstance(n, int) else [m.eval(N, model_completion=True).as_long()] if m else []}
        if m is not None and NPAR.get(k):
            e['ab'] = [(realval(m, AL), realval(m, BE) if NPAR[k] > 1 else 0.0)]
        raise Bad(why, e)

    def sure(v, c, why):
        c = (v if z3.is_expr(v) else z3.IntVal(int(v))) == c
        if not eng.must(o.st, c):
            bad(why, z3.Not(c))
    if o.kind != 'ret':
        bad('%s: %s' % (o.kind, o.msg))
    tr = core.flat(o.st.trace)
    g = lambda *t: [v for u, v in tr if u in t]
    chk.obligations += 1
    if g(47) != [1]:
        bad('the traits of rkyv are not implemented')
    if g(20) != [1]:
        bad('does not deserialise')
    if len(g(31)) != 1 or len(g(32)) != 1:
        bad('no result')
    sure(g(31)[0], n, 'degree after the round trip')
    sure(g(32)[0], 1, 'not equal after the round trip')
    if k in RULE:
        p, q = [const(v) for v in g(1, 2)], [const(v) for v in g(11, 12)]
        if len(p) != 2 * n or len(q) != 2 * n:
            bad('%d pairs after the round trip' % (len(p) // 2))
        for i, (x, y) in enumerate(zip(p, q)):
            if x is not y and x.id != y.id:
                bad('%s %d differs after the round trip' % (('node', 'weight')[i % 2], i // 2))
        np = NPAR.get(k, 0)
        if len(g(3)) != (np > 0) or len(g(4)) != (np > 1):
            bad('parameters missing')
        for t, v, w in ((3, AL, 'alpha'), (4, BE, 'beta')):
            for r in g(t):
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*o.st.pc)
                chk.stats.queries += 1
                c = s.check(term.Z()(const(r)) != v)
                if c == z3.sat:
                    bad(w + ' changes')
                if c != z3.unsat:
                    raise Unsupported('parameter undecided')
    chk.discharged += 1


def one(chk, k, n):
    eng = engine(chk, k, n)
    np = NPAR.get(k, 0)
    if k in COMP:
        st = eng.start('h_rk_' + k, [n])
        st.pc += [n >= 1, n < 2**32]
    else:
        st = eng.start('h_rk_' + k, [n, var('al') if np > 0 else 0.0, var('be') if np > 1 else 0.0, 1])
    for i, v in ((1, AL), (2, BE)):
        if np >= i:
            st.pc += [v > -1, v <= 10**6]
    cnt = 0
    try:
        for o in eng.run(st):
            cnt += 1
            path(chk, eng, o, k, n)
    finally:
        chk.assumptions |= eng.assumed
    if not cnt:
        raise Unsupported('no path')


def single(chk, nat):
    from .fan import X, FPv, run, judge, fval
    und, cands = [], []
    try:
        for o in run(chk, CFG, 'h_rk_fan', [FPv(X)]):
            tr = core.flat(o.st.trace) if o.kind == 'ret' else []
            if o.kind == 'ret' and not any(t == 46 for t, _ in tr):
                continue          # not a valid value
            if o.kind == 'ret' and [v for t, v in tr if t == 47] != [1]:
                cands.append(None)
                continue
            cands += judge(chk, o, z3.BoolVal(True), X, 'h_rk_fan', und)
    except Unsupported as e:
        und.append('FiniteAboveNegOneF64: %s' % e)
    hit = confirm(chk, nat, 'fan', ab=[(fval(m, X), 0) for m in cands if m is not None])
    if cands and not hit:
        und.append('FiniteAboveNegOneF64: candidate not reproduced on the real code')
    if not cands and not und:
        chk.part('FiniteAboveNegOneF64: every double (exact IEEE)')
    for u in und:
        chk.undecided(u)


def check(chk):
    nat = core.Native(CFG, timeout=100)
    core.module(CFG)
    chk.assumptions.add('the archive is written to one aligned buffer and read in place, root last (harness/src/rk.rs); no validation, rkyv is used without bytecheck')
    lens = (list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 100, 128, 129, 257]) if chk.quick else list(range(1, 66)) + [100, 101, 128, 129, 200, 255, 256, 257, 300, 513]

    def task(k, ns):
        def go(chk):
            ok = []
            for n in ns:
                if chk.left() < 80:
                    chk.undecided('%s from length %s on: no time' % (k, n))
                    break
                try:
                    one(chk, k, n)
                    ok.append(n)
                except Bad as e:
                    chk.log('candidate:', k, n, e.why, e.env)
                    if not confirm(chk, nat, k, e.env.get('ns', ()), e.env.get('ab', ())):
                        chk.undecided('%s, %s: %s (not reproduced on the real code)' % (k, n, e.why))
                    break
                except Unsupported as e:
                    chk.undecided('%s, %s: %s' % (k, n, e))
                    confirm(chk, nat, k)
                    break
            if ok:
                chk.part('%s: %s' % ({**COMP, **RULE}[k], 'every degree' if k in COMP else 'arbitrary arrays of %s pairs%s' % (ok, ', every parameter' if k in NPAR else '')))
        return go
    core.parallel(chk, [task('jac', lens[i::2]) for i in (0, 1)] + [task(k, lens) for k in RULE if k != 'jac'] + [task(k, [N]) for k in COMP] + [lambda c: single(c, nat)], 8)
    chk.replays = 0
    if not chk.viol:
        for k in list(COMP) + list(RULE):
            chk.replays += 1
            if confirm(chk, nat, k):
                break
