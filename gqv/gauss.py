"""C08 C09 (Gauss part): integrate of a Gauss rule is the weighted sum over the rule's own nodes."""
import math
import time
from fractions import Fraction
import z3
from . import core, term, exec as X
from .term import R, var, const, mk
from .exec import Unsupported, Ptr
from .grid import contributions, call_list, Bad, GridCheck

RULES = ('leg', 'che1', 'che2', 'her', 'lag', 'jac')
INTERVAL = {'leg', 'che1', 'che2', 'jac'}
PAR = {'leg': (0.0, 0.0), 'che1': (0.0, 0.0), 'che2': (0.0, 0.0), 'her': (0.0, 0.0), 'lag': (0.5, 0.0), 'jac': (0.25, 0.75)}


def havoc(length, tag='r'):
    """handler for vhavoc: the rule behind the pointer becomes an arbitrary rule with `length` pairs"""
    def h(eng, st, av, nm):
        p, size, n = av
        o = st.wobj(p.obj)
        hit = False
        for off in sorted(k for k in o.cells if p.off <= k < p.off + size):
            cs, cv = o.cells[off]
            if isinstance(cv, Ptr) and cv.obj is not None:
                old = st.mem[cv.obj]
                if isinstance(old.size, int) and old.size >= 16 * n and cv.off == 0:
                    oid = eng.new_obj(st, 16 * length, 'rule')
                    st.mem[oid].sym = tag
                    o.cells[off] = (cs, Ptr(oid, 0))
                    hit = True
            elif isinstance(cv, int) and not isinstance(cv, bool) and cs == 8 and cv == n:
                o.cells[off] = (cs, length)
        if not hit:
            raise Unsupported('havoc: no pair array found in the rule')
        eng.assumed.add('the rule integrated/iterated over is an arbitrary array of pairs of arbitrary length')
    return h


def eig_handlers(lam=None, q=None, entries=None):
    """environment of stub_decompose; by default eigenvalues 0.., identity eigenvectors"""
    def entry(eng, st, av, nm):
        st.trace.append(('mat', av[0], av[1], av[2], av[3]))
        if entries is not None:
            entries.append(av)

    def l(eng, st, av, nm):
        return lam(av[0]) if lam else float(av[0]) - 0.5

    def qq(eng, st, av, nm):
        return q(av[0], av[1]) if q else (1.0 if av[0] == av[1] else 0.25)
    return {'veig_entry': entry, 'veig_lambda': l, 'veig_q': qq}


EIG = r'SymmetricEigen.{0,200}12?do_decompose'


def gauss_engine(chk, cfg, length=None, tag='r', summarize=False, **kw):
    eng = chk.engine(cfg, summarize=summarize, handlers=core.std_handlers(), **kw)
    eng.handlers.update(eig_handlers())
    eng.redirect[EIG] = 'stub_decompose'
    if length is not None:
        eng.handlers['vhavoc'] = havoc(length, tag)
    return eng


def elems(r):
    return [x for x in term.walk(r) if x.op == 'elem']


class SumCheck:
    """the value of one path as a sum over the symbolic pairs"""

    def __init__(self, chk, rule, out, N, nvar, a, b, tag='r'):
        self.chk, self.rule, self.o, self.N, self.nvar, self.a, self.b, self.tag = chk, rule, out, N, nvar, a, b, tag
        self.pc = out.st.pc
        self.zr = term.Z(relax=True)
        self.pcr = None
        self.s = z3.Solver()
        self.s.set('timeout', 20000)
        self.si = z3.Solver()
        self.si.set('timeout', 20000)
        self.si.add(*[c for c in self.pc if not any(z3.is_real(v) for v in term.zvars(c))])

    def q(self, s, *conds):
        s.push()
        s.add(*conds)
        t0 = time.time()
        r = s.check()
        self.chk.stats.queries += 1
        self.chk.stats.time += time.time() - t0
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def env(self, m):
        e = {}
        if m is not None and self.nvar is not None:
            e['n'] = m.eval(self.nvar, model_completion=True).as_long()
        return e

    def small(self, *conds):
        """a model with few pairs"""
        for lim in (3, 12, 100, 1000, None):
            if self.nvar is None and lim is not None:
                continue
            r, m = self.q(self.si, *(list(conds) + ([self.nvar <= lim] if lim else [])))
            if r == z3.sat:
                return self.env(m)
        return {}

    def rng(self, binders, conds):
        return [z3.And(t >= 0, t < T) for t, T in binders] + list(conds)

    def index(self, r, binders, conds, what):
        """the one array index used in r"""
        es = elems(r)
        if not es:
            if self.q(self.si, *self.rng(binders, conds))[0] == z3.unsat:
                return None, None
            raise Bad('%s does not use a pair of the rule: %s' % (what, term.show(r)[:120]), self.small(*self.rng(binders, conds)))
        i0 = es[0].a[1]
        for e in es[1:]:
            if not e.a[1].eq(i0) and self.q(self.si, *(self.rng(binders, conds) + [e.a[1] != i0]))[0] != z3.unsat:
                raise Bad('%s mixes pairs %s and %s' % (what, i0, e.a[1]), self.small(*self.rng(binders, conds)))
        rm = {}
        for e in es:
            rm[e.id] = var('X' if e.a[0].endswith('x') else 'W')
        return i0, term.subst(r, rm)

    def same(self, r, want, what, binders, conds):
        self.chk.obligations += 1
        z = self.zr(r)
        rr, m = self.q(self.s, z != want)
        if rr != z3.unsat:
            cs = [term.relax_bool(c) for c in self.pc if not any('!' in v.decl().name() for v in term.zvars(c))]
            rr, m = self.q(self.s, z != want, *cs)
        if rr == z3.unsat:
            self.chk.discharged += 1
            return
        if rr == z3.unknown:
            raise Unsupported(what + ': identity undecided')
        e = self.small(*self.rng(binders, conds))
        for k in ('a', 'b'):
            v = m.eval(z3.Real(k))
            if z3.is_rational_value(v):
                e[k] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        raise Bad('%s is %s' % (what, term.show(r)[:160]), e)

    def point(self, x, binders, conds):
        i, r = self.index(x, binders, conds, 'evaluation point')
        if i is None:
            return None
        A, B, XX = z3.Real('a'), z3.Real('b'), z3.Real('X')
        want = (B - A) / 2 * XX + (A + B) / 2 if self.rule in INTERVAL else XX
        self.same(r, want, 'evaluation point', binders, conds)
        return i

    def run(self):
        cons, rest = contributions(const(self.o.val))
        for bd, cd, coef, y in rest:
            raise Bad('a term that does not depend on the integrand is added: %s' % term.show(y)[:80], self.small(*self.rng(bd, cd)))
        A, B, W = z3.Real('a'), z3.Real('b'), z3.Real('W')
        m = z3.Int('m!idx')
        hits, cnt = [], []
        for c in cons:
            i = self.point(c.x, c.binders, c.conds)
            if i is None:
                continue
            j, cf = self.index(c.coef, c.binders, c.conds, 'weight')
            if j is None:
                continue
            if not i.eq(j) and self.q(self.si, *(self.rng(c.binders, c.conds) + [i != j]))[0] != z3.unsat:
                raise Bad('value at node %s is weighted by weight %s' % (i, j), self.small(*(self.rng(c.binders, c.conds) + [i != j])))
            self.same(cf, W * (B - A) / 2 if self.rule in INTERVAL else W, 'weight factor', c.binders, c.conds)
            h, mult = GridCheck.at(self, i, c.binders, c.conds, m)
            hits.append(z3.If(h, z3.IntVal(1) if mult is None else mult, z3.IntVal(0)))
        for bd, cd, x in call_list(self.o.st.trace):
            i = self.point(x, bd, cd)
            if i is None:
                continue
            h, mult = GridCheck.at(self, i, bd, cd, m)
            cnt.append(z3.If(h, z3.IntVal(1) if mult is None else mult, z3.IntVal(0)))
        N = z3.IntVal(self.N) if isinstance(self.N, int) else self.N
        want = z3.If(z3.And(m >= 0, m < N), z3.IntVal(1), z3.IntVal(0))
        for tot, what in ((hits, 'a pair does not enter the sum exactly once'), (cnt, 'a node is not evaluated exactly once')):
            self.chk.obligations += 1
            cond = (z3.Sum(tot) if tot else z3.IntVal(0)) != want
            r, md = self.q(self.si, cond)
            if r == z3.unsat:
                self.chk.discharged += 1
            elif r == z3.sat:
                raise Bad(what, self.small(cond), None)
            else:
                raise Unsupported('coverage query unknown')


# ------------------------------------------------------------------------------------------------ native confirmation
def combos(rule):
    if rule == 'lag':
        return [(0.5, 0.0), (-0.3, 0.0), (3.0, 0.0)]
    if rule == 'jac':
        return [(0.25, 0.75), (0.0, 0.0), (-0.5, -0.5), (0.5, 0.5), (1.0, 1.0), (2.5, -0.25)]
    return [(0.0, 0.0)]


@core.timed
def native_sum(nat, rule, entry, n, al, be, a, b):
    """compare entry (h_X_int / h_X_par) with the rule's own pairs; -> (text, commands) or None"""
    cmds = [('call', 'h_' + rule, (n, al, be), ()), ('measure', entry, (n, al, be, 0, a, b), ())]
    big = n > 6000           # measuring costs n^2
    if big:
        cmds[1] = ('probe', entry, (n, al, be, 0, a, b), (3, 0, 0))
    r0, r1 = nat.calls(cmds)
    if r0.bad:
        return None          # construction fails: someone else's property
    where = '%s(n=%d, alpha=%r, beta=%r, a=%r, b=%r)' % (entry, n, al, be, a, b)
    if r1.bad:
        return where + ' panics', [cmds[1]]
    xs, ws = r0.tag(1), r0.tag(2)
    if any(not math.isfinite(v) for v in xs + ws):
        return None
    itv = rule in INTERVAL
    want = {}
    s = (b - a) / 2 if itv else 1.0
    pts = sorted(((s * x + (a + b) / 2) if itv else x, w * s) for x, w in zip(xs, ws))
    got = sorted(m for m in r1.meas)
    tot = r1.probe[0] if big else sum(m[1] for m in got)
    tol = 1e-9 * max([abs(p) for p, _ in pts] + [abs(a), abs(b)] if itv else [abs(p) for p, _ in pts] + [1e-300])
    if tot != len(pts):
        return '%s evaluates the integrand %d times for %d nodes' % (where, tot, len(pts)), cmds
    gl = []
    for x, mult, w in got:
        gl += [(x, w / mult if w is not None else None)] * mult
    wmax = max(abs(w) for _, w in pts)
    if n <= 5000 or big:
        more = [('probe', entry, (n, al, be, 0, a, b), (3, p, 0)) for p in (0, 1)]
        for p, r in enumerate(nat.calls(more)):
            ex = math.fsum(w * x**p for x, w in pts)
            sc = math.fsum(abs(w * x**p) for x, w in pts)
            if r.ret is not None and not abs(r.ret - ex) <= 1e-9 * sc + 1e-300:
                return '%s integrates x^%d to %r, the weighted sum over the nodes is %r' % (where, p, r.ret, ex), [cmds[0], more[p]]
    if big:
        return None
    for (x, w), (gx, gw) in zip(pts, gl):
        if not abs(x - gx) <= tol:
            return '%s evaluates the integrand at %r, the node is %r' % (where, gx, x), cmds
        if gw is not None and not abs(gw - w) <= 1e-9 * abs(w) + 1e-13 * wmax:
            return '%s gives the value at %r the factor %r instead of %r' % (where, gx, gw, w), cmds
    return None


def confirm_sum(chk, nat, rule, entry, bad, done):
    e = bad.env or {}
    gw = rule in ('her', 'lag', 'jac')
    ns = [e['n']] if 1 <= e.get('n', 0) <= (400 if gw else 150000) else []
    for n in ns + [1, 2, 3, 4, 5, 8, 16, 31, 64, 101, 150, 230] + ([] if gw else [1025, 5000, 66000]):
        for al, be in combos(rule) if n < 60 else combos(rule)[:1]:
            for a, b in ([(e['a'], e['b'])] if 'a' in e and 'b' in e else []) + [(-1.0, 1.0), (0.0, 1.0), (2.0, -3.0), (0.0, 0.0)][:(4 if n < 200 else 1) if rule in INTERVAL else 1]:
                if not (abs(a) < 1e15 and abs(b) < 1e15):
                    continue
                v = native_sum(nat, rule, entry, n, al, be, a, b)
                if v:
                    if v[0] not in done:
                        done.add(v[0])
                        chk.violation(v[0], v[1])
                    return True
    return False


def check_integrate(chk):
    nat = core.Native('b')
    a, b = var('a'), var('b')
    rules = RULES
    for rule in rules:
        entry = 'h_%s_int' % rule
        al, be = PAR[rule]
        done = set()
        full = True
        try:
            N = z3.Int('n')
            eng = gauss_engine(chk, 'b', N, summarize=True, max_paths=200, max_steps=200000, limit=100, timeout=5000)
            st = eng.start(entry, [3, al, be, 1, a, b])
            st.pc += [N >= 1, N < 2**58]
            np = 0
            for o in eng.run(st):
                np += 1
                try:
                    if o.kind != 'ret':
                        m = eng.model(o.st, N <= 200) or eng.model(o.st)
                        if m is None:
                            continue
                        raise Bad('%s: %s' % (o.kind, o.msg), {'n': m.eval(N, model_completion=True).as_long()})
                    SumCheck(chk, rule, o, N, N, a, b).run()
                    chk.sample('%s: value=%s' % (entry, term.show(const(o.val))[:200]))
                except Bad as e:
                    chk.log('candidate:', rule, e.why, e.env)
                    full = False
                    if not confirm_sum(chk, nat, rule, entry, e, done):
                        chk.undecided('%s: %s (not reproduced on the real code)' % (entry, e.why))
            if np == 0:
                raise Unsupported('no path')
            chk.assumptions |= eng.assumed
            if full:
                chk.part('%s: any number of arbitrary pairs, all real a, b, all integrands (%d paths)' % (entry, np))
        except Unsupported as e:
            full = False
            chk.undecided('%s: symbolic length not decided (%s); falling back to concrete lengths' % (entry, e))
        if full or done:
            continue
        ok = []
        for K in (1, 2, 3, 4, 5, 6, 7, 8, 16, 33) if chk.quick else tuple(range(1, 40)) + (64, 100):
            try:
                eng = gauss_engine(chk, 'b', K, limit=40, max_steps=400000)
                st = eng.start(entry, [3, al, be, 1, a, b])
                for o in eng.run(st):
                    if o.kind != 'ret':
                        raise Bad('%s: %s' % (o.kind, o.msg), {'n': K})
                    try:
                        SumCheck(chk, rule, o, K, None, a, b).run()
                    except Bad as e:
                        e.env = dict(e.env or {}, n=K)
                        raise
                ok.append(K)
            except Bad as e:
                if not confirm_sum(chk, nat, rule, entry, e, done):
                    chk.undecided('%s, %d pairs: %s (not reproduced on the real code)' % (entry, K, e.why))
                break
            except Unsupported as e:
                chk.undecided('%s, %d pairs: %s' % (entry, K, e))
                break
        if ok:
            chk.part('%s: arrays of %s arbitrary pairs, all real a, b, all integrands' % (entry, ok))
    # the real rules: the same comparison on the compiled code (replay only; the verdict above is the solver's)
    chk.replays = 0
    for rule in rules:
        for n in (1, 2, 5, 40):
            al, be = PAR[rule]
            v = native_sum(nat, rule, 'h_%s_int' % rule, n, al, be, 0.5, 2.0)
            chk.replays += 1
            if v:
                chk.violation(v[0], v[1])
                break
