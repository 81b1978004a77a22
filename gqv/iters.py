"""C03 C04: iterators and views describe the same sequence under any history of calls."""
import z3
from . import core, term, gauss
from .term import const
from .exec import Unsupported
from .grid import Bad
from .trig import N

RULE = {'leg': 'GaussLegendre', 'che1': 'GaussChebyshevFirstKind', 'che2': 'GaussChebyshevSecondKind', 'her': 'GaussHermite', 'lag': 'GaussLaguerre', 'jac': 'GaussJacobi'}
COMP = {'mid': 'Midpoint', 'simp': 'Simpson', 'trap': 'Trapezoid'}
PAR = gauss.PAR
HOW = {0: 'iter()', 1: '(&rule).into_iter()', 2: 'into_iter()', 3: 'nodes()', 4: 'weights()'}
OPS = ['next', 'next_back', 'nth', 'nth_back', 'len', 'size_hint', 'clone().count', 'clone().last', 'clone', 'for', 'for rev', 'for_each', 'by_ref().skip().next', 'rev().for_each', 'reduce', 'rev().last']
ARG = (2, 3, 12)
FOLD = (9, 10, 11, 13)
J = z3.Int('k12_0')


def k(i):
    return z3.Int('k11_%d' % i)


class Model:
    """the sequence 0..n-1 not yet consumed: [lo, hi)"""

    def __init__(self, n):
        self.lo, self.hi = z3.IntVal(0), n if z3.is_expr(n) else z3.IntVal(n)

    def step(self, op, arg):
        """-> ('opt', some, index) | ('val', tag, value)... ; new state"""
        lo, hi = self.lo, self.hi
        some = lo < hi
        if op == 0:
            self.lo = z3.If(some, lo + 1, lo)
            return [('opt', some, lo)]
        if op == 1:
            self.hi = z3.If(some, hi - 1, hi)
            return [('opt', some, hi - 1)]
        if op in (2, 12):
            s = arg < hi - lo
            self.lo = z3.If(s, lo + arg + 1, hi)
            return [('opt', s, lo + arg)]
        if op == 3:
            s = arg < hi - lo
            self.hi = z3.If(s, hi - arg - 1, lo)
            return [('opt', s, hi - 1 - arg)]
        if op == 4:
            return [('val', 21, hi - lo)]
        if op == 5:
            return [('val', 22, hi - lo), ('val', 23, z3.IntVal(1)), ('val', 24, hi - lo)]
        if op == 6:
            return [('val', 25, hi - lo)]
        if op in (7, 14):
            return [('opt', some, hi - 1)]
        if op == 15:
            return [('opt', some, lo)]
        if op == 8:
            return []
        return [('seq', op in (10, 13))]


def describe(ops, ks):
    it = iter(ks)
    return ', '.join(OPS[o] + ('(%d)' % next(it) if o in ARG else '') for o in ops)


class Run:
    """one history, executed symbolically"""

    def __init__(self, chk, cfg, entry, comp, ops, how, n, kmax=None, sl=False, limit=25, paths=400):
        self.chk, self.ops, self.how, self.n, self.comp = chk, ops, how, n, comp
        self.eng = eng = gauss.gauss_engine(chk, cfg, None if comp else n, summarize=True, max_paths=paths, max_steps=60000, limit=limit, timeout=4000)

        def vint(e, st, av, nm):
            if st.info.get('in_loop'):
                raise Unsupported('the loop over the calls')       # unrolled, not summarised
            t = av[0]
            i = len([1 for x in st.trace if x[0] == 'vint' and x[1] == t])
            st.trace.append(('vint', t))
            if t == 10:
                return ops[i]
            v = z3.Int('k%d_%d' % (t, i))
            st.pc += [v >= 0, v <= kmax if kmax is not None and t == 11 else v < 2**64]
            return v
        eng.handlers['vint'] = vint
        rule = entry.split('_')[1]
        al, be = PAR.get(rule, (0.0, 0.0))
        # the rule is built with three pairs and replaced by an arbitrary array
        args = [n, how, len(ops)] if comp else [3, al, be, 1] + ([how, len(ops)] if ops is not None else [])
        st = eng.start(entry, args)
        if z3.is_expr(n):
            st.pc += [n >= 1, n < (2**32 if comp else 2**58)]
        self.st = st

    def env(self, st, *c):
        m = None
        for b in (60, 1500, 150000, None) if z3.is_expr(self.n) else (None,):
            m = self.eng.model(st, *(([N <= b] if b else []) + list(c)))
            if m is not None:
                break
        if m is None:
            return None
        g = lambda e: m.eval(e, model_completion=True).as_long()
        return {'n': g(N) if z3.is_expr(self.n) else self.n, 'ks': [g(k(i)) for i in range(sum(o in ARG for o in self.ops or ()))], 'j': g(J)}

    def must(self, st, c, what):
        self.chk.obligations += 1
        c = z3.simplify(c)
        if z3.is_true(c) or self.eng.must(st, c):
            self.chk.discharged += 1
            return
        e = self.env(st, z3.Not(c))
        if e is None:
            raise Unsupported(what + ' undecided')
        raise Bad(what, e)

    def item(self, st, tr, p, idx, what):
        """the values of one element"""
        if self.comp:
            want = [(1, None)]
        else:
            want = [(t, 'r' + 'xw'[t - 1]) for t in ((1, 2) if self.how < 3 else (self.how - 2,))]
        for t, a in want:
            if p >= len(tr) or tr[p][0] != t:
                raise Bad(what + ': no value', self.env(st) or {})
            v = const(tr[p][1])
            p += 1
            if a is None:
                z = term.Z()
                self.must(st, z(v) == z3.ToReal(idx) if v.op != 'i2r' else v.a[0] == idx, what)
            else:
                if v.op != 'elem' or v.a[0] != a:
                    raise Bad('%s is %s' % (what, term.show(v)[:80]), self.env(st) or {})
                i = v.a[1]
                self.must(st, (i if z3.is_expr(i) else z3.IntVal(i)) == idx, what)
        return p

    def flag(self, st, v, c, what):
        self.must(st, c == (v == 1) if z3.is_expr(v) else c if v == 1 else z3.Not(c), what)

    def run(self):
        cnt = 0
        for o in self.eng.run(self.st):
            cnt += 1
            st = o.st
            if o.kind != 'ret':
                e = self.env(st)
                if e is None:
                    continue
                raise Bad('%s: %s' % (o.kind, o.msg), e)
            self.judge(st, core.flat(st.trace))
        if not cnt:
            raise Unsupported('no path')
        self.chk.assumptions |= self.eng.assumed
        return cnt

    def judge(self, st, tr):
        m = Model(self.n)
        p = a = 0
        for q, op in enumerate(self.ops):
            arg = None
            if op in ARG:
                arg, a = k(a), a + 1
            what = '%s (call %d)' % (OPS[op], q + 1)
            for r in m.step(op, arg):
                if p >= len(tr):
                    raise Bad(what + ': no result', self.env(st) or {})
                t, v = tr[p]
                if r[0] == 'val':
                    if t != r[1]:
                        raise Bad(what + ': result missing', self.env(st) or {})
                    self.must(st, (v if z3.is_expr(v) else z3.IntVal(int(v))) == r[2], what)
                    p += 1
                elif r[0] == 'opt':
                    if t != 20:
                        raise Bad(what + ': result missing', self.env(st) or {})
                    p += 1
                    self.flag(st, v, r[1], what)
                    if not (v == 0 and not z3.is_expr(v)):
                        if z3.is_expr(v):
                            raise Unsupported('symbolic Option')
                        p = self.item(st, tr, p, r[2], what)
                else:
                    i = 0
                    while True:
                        if p >= len(tr) or tr[p][0] != 26:
                            raise Bad(what + ': sequence broken', self.env(st) or {})
                        more = tr[p][1]
                        p += 1
                        self.flag(st, more, m.lo + i < m.hi, what)
                        if not more:
                            break
                        p = self.item(st, tr, p, m.hi - 1 - i if r[1] else m.lo + i, what)
                        i += 1
        if p != len(tr):
            raise Bad('additional results', self.env(st) or {})


# ------------------------------------------------------------------------------------------ on the real code
def script(ops, ks):
    s, it = [], iter(ks)
    for o in ops:
        s.append(o)
        if o in ARG:
            s.append(next(it))
    return tuple(s)


def expect(seq, ops, ks):
    """events of a history over a list of items"""
    lo, hi, out, it = 0, len(seq), [], iter(ks)

    def opt(c, i):
        out.append((20, int(c)))
        if c:
            out.extend(seq[i])
    for o in ops:
        a = next(it) if o in ARG else None
        if o == 0:
            opt(lo < hi, lo)
            lo += lo < hi
        elif o == 1:
            opt(lo < hi, hi - 1)
            hi -= lo < hi
        elif o in (2, 12):
            c = a < hi - lo
            opt(c, lo + a)
            lo = lo + a + 1 if c else hi
        elif o == 3:
            c = a < hi - lo
            opt(c, hi - 1 - a)
            hi = hi - a - 1 if c else lo
        elif o == 4:
            out.append((21, hi - lo))
        elif o == 5:
            out += [(22, hi - lo), (23, 1), (24, hi - lo)]
        elif o == 6:
            out.append((25, hi - lo))
        elif o in (7, 14):
            opt(lo < hi, hi - 1)
        elif o == 15:
            opt(lo < hi, lo)
        elif o == 8:
            pass
        else:
            r = list(range(lo, hi))
            for i in r[::-1] if o in (10, 13) else r:
                out.append((26, 1))
                out.extend(seq[i])
            out.append((26, 0))
    return out


def norm(ev):
    return [(t, term.fbits(float(v)) if t in (1, 2) else int(v)) for t, v in ev]


class Grid:
    """0.0, 1.0, ..., n - 1"""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return [(1, float(i))]


def top(kind, ops=()):
    """largest length that can be built and traversed on the real code"""
    if kind in COMP:
        return 150000 if any(o in FOLD for o in ops) else 2**27 if any(o in (6, 14, 15) for o in ops) else 2**32 - 1
    return 1500 if kind in ('her', 'lag', 'jac') else 150000


def items(nat, kind, n, how):
    if kind in COMP:
        return Grid(n)
    al, be = PAR[kind]
    r = nat.calls([('call', 'h_' + kind, (n, al, be), ())])[0]
    if r.bad:
        return None
    ps = list(zip(r.tag(1), r.tag(2)))
    return [[(1, x), (2, w)] if how < 3 else [(1, x)] if how == 3 else [(2, w)] for x, w in ps]


@core.timed
def native_hist(nat, kind, n, how, hists):
    """hists: [(ops, ks)] -> (text, commands) or None"""
    seq = items(nat, kind, n, how)
    if seq is None:
        return None
    args = (n,) if kind in COMP else (n,) + PAR[kind] + (0,)
    cmds = [('call', 'h_%s_it' % kind, args + (how, len(ops)), script(ops, ks)) for ops, ks in hists]
    for (ops, ks), c, r in zip(hists, cmds, nat.calls(cmds)):
        nm = '%s::new(%d): %s, then %s' % ((COMP.get(kind) or RULE[kind]), n, HOW[how], describe(ops, ks))
        if r.bad:
            return nm + ': panic', [c]
        got, want = norm(r.ev), norm(expect(seq, ops, ks))
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            sh = lambda l: 'nothing' if i >= len(l) else {20: 'an element' if l[i][1] else 'no element', 26: 'an element' if l[i][1] else 'the end'}.get(l[i][0], repr(term.bitsf(l[i][1]) if l[i][0] in (1, 2) else l[i][1]))
            return '%s: %s instead of %s' % (nm, sh(got), sh(want)), [c]
    return None


BIG = 2**64 - 1
KS = (0, 1, 2, 5, 2**16, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, BIG)


def battery(n):
    h = []
    for pre, pk in (((), ()), ((2,), (0,)), ((3,), (1,)), ((2, 3), (1, 0)), ((0, 1), ()), ((2,), (BIG,)), ((3,), (n,)), ((2, 3), (0, BIG))):
        for o in range(16):
            for kk in KS + (n - 1, n, n + 1) if o in ARG else (None,):
                h.append((pre + (o,) + (4, 0, 1, 5), pk + ((kk,) if o in ARG else ())))
    return h


def far():
    """histories of a grid of many points, without traversals"""
    for n in (2**24 + 3, 2**25 + 7, 2**16 + 1):
        yield n, [((0, 1, 4, 5), ()), ((1, 1, 1, 4), ()), ((3, 1), (0,)), ((3, 1), (1,)), ((2, 0, 1), (n - 3,)), ((2, 0), (n // 2 - 1,)), ((2, 0, 4), (n // 2,)), ((3, 1, 4), (n // 2,)), ((7, 4), ()),
                  ((2, 3, 0, 1), (1, 1)), ((2, 3, 0, 1), (n // 2, 2)), ((12, 0), (n - 2,))]


def confirm(chk, nat, kind, how, env, ops, done):
    if kind in COMP:
        for n, hs in far():
            v = native_hist(nat, kind, n, how, hs)
            if v:
                if v[0] not in done:
                    done.add(v[0])
                    chk.violation(v[0], v[1])
                return True
    for n in ([env['n']] if env and 1 <= env.get('n', 0) <= top(kind, ops or ()) else []) + [1, 2, 3, 5, 8]:
        hs = [(tuple(ops), tuple(env['ks']))] if env and ops and len(env.get('ks', ())) == sum(o in ARG for o in ops) else []
        v = native_hist(nat, kind, n, how, hs + (battery(n) if n <= 100 else []))
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
            return True
    return False


PRE = ((), (2,), (3,), (2, 3))
MUT = ((), (0,), (1,), (2,), (3,), (12,), (8,))
SUF = ((4, 5, 6), (7,), (0, 1, 4, 0))
FEW = [p + m + s for p, m, s in (((2, 3), (0,), (4, 5)), ((2, 3), (1,), (6, 7)), ((2, 3), (2,), (0, 4)), ((2, 3), (3,), (1, 4)), ((), (2,), (4, 0)), ((), (3,), (4, 1)))]
ALL = [p + m + s for p in PRE for m in MUT for s in SUF]


def ladder(comp, how):
    """(length, largest index argument, remark)"""
    if not comp and how < 3:
        return [[(N, None)], [(N, 3), (1, None), (2, None), (3, None)], [(1, None), (2, None), (3, None)]]
    return [[(N, 2), (1, None), (2, None), (3, None)], [(1, None), (2, None), (3, None)]]


def text(stage, n0):
    return '; '.join(('every length' if z3.is_expr(n) else 'length %d' % n) + ', ' + ('every index argument' if km is None else 'index arguments up to %d' % km) for n, km in stage)


def histories(chk, nat, kind, how, seqs, done, und, cfg='b', lab=''):
    comp = kind in COMP
    start = 0
    L = ladder(comp, how)
    got = {}
    for ops in seqs:
        if chk.left() < 60:
            und.append('%s %s: no time' % (kind, HOW[how]))
            return
        ok = False
        for li in range(start, len(L)):
            why = None
            for n, km in L[li]:
                try:
                    Run(chk, cfg, 'h_%s_it' % kind, comp, ops, how, n, km).run()
                except Unsupported as e:
                    why = e
                    break
                except Bad as e:
                    chk.log('candidate:', kind, HOW[how], describe(ops, ['%d' % 0] and [0] * 9), e.why, e.env)
                    if confirm(chk, nat, kind, how, e.env, ops, done):
                        return
                    und.append('%s %s %s: %s (not reproduced on the real code)' % (kind, HOW[how], ops, e.why))
                    return
            if why is None:
                got.setdefault(li, []).append(ops)
                ok = True
                break
        if not ok:
            und.append('%s %s %s: %s' % (kind, HOW[how], describe(ops, [0] * 9), why))
            if sum(kind in u for u in und) > 3:
                confirm(chk, nat, kind, how, None, None, done)
                return
    for li, l in sorted(got.items()):
        chk.part('%s %s: %d histories%s (%s)' % ((COMP.get(kind) or RULE[kind]), HOW[how], len(l), lab, text(L[li], N)))


def folds(chk, nat, kind, how, done, und, cfg='b'):
    """whole traversals: concrete length, symbolic history before"""
    comp = kind in COMP
    lens = (1, 2, 3) if chk.quick else (1, 2, 3, 4, 5, 6, 9)
    for n in lens:
        for ops in [(2, 3, o) for o in FOLD + (14, 15)]:
            if chk.left() < 60:
                return
            try:
                Run(chk, cfg, 'h_%s_it' % kind, comp, ops, how, n).run()
            except Unsupported as e:
                und.append('%s %s %s, length %d: %s' % (kind, HOW[how], describe(ops, [0] * 9), n, e))
                confirm(chk, nat, kind, how, None, None, done)
                return
            except Bad as e:
                chk.log('candidate:', kind, HOW[how], ops, e.why, e.env)
                if not confirm(chk, nat, kind, how, e.env, ops, done):
                    und.append('%s %s %s: %s (not reproduced on the real code)' % (kind, HOW[how], ops, e.why))
                return
    chk.part('%s %s: traversals of %s elements after any nth, nth_back' % ((COMP.get(kind) or RULE[kind]), HOW[how], lens))


# ------------------------------------------------------------------------------------------ views
def span(n, ops, ks):
    """what is left of n elements"""
    lo, hi, it = 0, n, iter(ks)
    for o in ops:
        a = next(it) if o in ARG else 0
        a = min(a, hi - lo)
        if o in (0, 2, 12):
            lo = min(lo + a + 1, hi)
        elif o in (1, 3):
            hi = max(hi - a - 1, lo)
    return lo, hi


@core.timed
def native_view(nat, kind, n, hist=None, at=None):
    al, be = PAR[kind]
    seq = items(nat, kind, n, 0)
    if seq is None:
        return None
    for j in ([] if at is None else [at]) + [i for i in (0, 1, n // 2, n - 2, n - 1, n, n + 1) if i >= 0]:
        c = ('call', 'h_%s_vw' % kind, (n, al, be, 0), (j,))
        r = nat.calls([c])[0]
        nm = '%s::new(%d)' % (RULE[kind], n)
        if r.bad:
            return nm + ': a view panics', [c]
        if any(v != n for v in r.tag(30)):
            return '%s: degree and lengths of the views are %r' % (nm, r.tag(30)), [c]
        e = [(20, int(j < n))] + (seq[j] if j < n else [])
        got, want = norm([x for x in r.ev if x[0] != 30]), norm(e * 3)
        if got != want:
            return '%s: pair %d of as_node_weight_pairs, into_node_weight_pairs or a clone differs' % (nm, j), [c]
        for how in (0, 1, 2):
            m = []
            if hist:
                m = [hist + span(n, *hist)]
            for ops, ks, lo, hi in m + [((), (), 0, n), ((2,), (1,), min(n, 2), n), ((3,), (0,), 0, n - 1), ((0, 1), (), 1, max(1, n - 1)), ((2,), (BIG,), n, n)][:1 if n > 400 else 5]:
                c = ('call', 'h_%s_sl' % kind, (n, al, be, 0, how, len(ops)), script(ops, ks) + (j,))
                r = nat.calls([c])[0]
                if r.bad:
                    return '%s: as_slice panics' % nm, [c]
                e = [(30, hi - lo), (20, int(j < hi - lo))] + (seq[lo + j] if j < hi - lo else [])
                if norm(r.ev) != norm(e * 2):
                    return '%s: as_slice or as_ref of %s after %s differs' % (nm, HOW[how], describe(ops, ks) or 'no call'), [c]
    return None


class View(Run):
    def judge(self, st, tr):
        self.how = 0
        p = 0
        for r in ('len', 'len', 'el', 'len', 'len', 'el', 'el'):
            p = self.one(st, tr, p, r, z3.IntVal(0), self.n if z3.is_expr(self.n) else z3.IntVal(self.n))
        if p != len(tr):
            raise Bad('additional results', self.env(st) or {})

    def one(self, st, tr, p, r, lo, hi):
        if p >= len(tr) or tr[p][0] != (30 if r == 'len' else 20):
            raise Bad('view: result missing', self.env(st) or {})
        v = tr[p][1]
        p += 1
        if r == 'len':
            self.must(st, (v if z3.is_expr(v) else z3.IntVal(int(v))) == hi - lo, 'length of a view')
        else:
            self.flag(st, v, J < hi - lo, 'length of a view')
            if v:
                p = self.item(st, tr, p, lo + J, 'element of a view')
        return p


class Slice(View):
    def judge(self, st, tr):
        how, self.how = self.how, 0
        m = Model(self.n)
        a = 0
        for op in self.ops:
            m.step(op, k(a) if op in ARG else None)
            a += op in ARG
        p = 0
        for r in ('len', 'el', 'len', 'el'):
            p = self.one(st, tr, p, r, m.lo, m.hi)
        self.how = how
        if p != len(tr):
            raise Bad('additional results', self.env(st) or {})


def views(chk, nat, kind, full, done, und, cfg='b'):
    jobs = [(View, 'h_%s_vw' % kind, None, 0)]
    for how in (0, 1, 2):
        jobs += [(Slice, 'h_%s_sl' % kind, ops, how) for ops in (((), (0,), (1,), (2,), (3,), (2, 3), (0, 1), (2, 2), (3, 3)) if full else ((2, 3),))]
    ok = True
    for cls, entry, ops, how in jobs:
        why = None
        for stage in [[(N, None)], [(1, None), (2, None), (3, None), (4, None)]]:
            why = None
            for n, km in stage:
                try:
                    cls(chk, cfg, entry, False, ops, how, n, km).run()
                except Unsupported as e:
                    why = e
                    break
                except Bad as e:
                    chk.log('candidate:', kind, entry, ops, e.why, e.env)
                    for m in ([e.env['n']] if e.env and 1 <= e.env.get('n', 0) <= top(kind) else []) + [1, 2, 3, 5, 8]:
                        big = m > 8
                        v = native_view(nat, kind, m, (tuple(ops), tuple(e.env['ks'])) if big and ops and len(e.env['ks']) == sum(o in ARG for o in ops) else None,
                                        e.env['j'] if big else None)
                        if v:
                            if v[0] not in done:
                                done.add(v[0])
                                chk.violation(v[0], v[1])
                            return
                    und.append('%s %s: %s (not reproduced on the real code)' % (entry, ops, e.why))
                    return
            if why is None:
                break
        if why is not None:
            ok = False
            und.append('%s %s: %s' % (entry, ops, why))
    if ok:
        chk.part('%s: degree, as_node_weight_pairs, into_node_weight_pairs, clone and as_slice, every length and index' % RULE[kind])


def check_gauss(chk):
    """C03"""
    nat = core.Native('b', timeout=100)
    done, und = set(), []

    def vw(kind):
        def go(chk):
            und = []
            views(chk, nat, kind, True, done, und)
            return und
        return go

    def hist(kind, how, seqs, lab=''):
        def go(chk):
            und = []
            histories(chk, nat, kind, how, seqs, done, und, lab=lab)
            return und
        return go

    def fold(kind, how):
        def go(chk):
            und = []
            folds(chk, nat, kind, how, done, und)
            return und
        return go
    core.module('b')
    tasks = [vw(kind) for kind in RULE]
    tasks += [hist(kind, how, FEW) for kind in RULE for how in range(5)]
    tasks += [fold(kind, how) for kind in RULE for how in range(5)]
    if chk.quick:
        tasks += [hist(kind, how, ALL[i::2], ' [share %d]' % (i + 1)) for kind in RULE for how in range(5) for i in range(2)]
    else:
        tasks += [hist(kind, how, ALL[i::4], ' [share %d]' % (i + 1)) for kind in RULE for how in range(5) for i in range(4)]
    for r in core.parallel(chk, tasks, 8):
        und += r or []
    done |= set(chk.viol)
    chk.replays = 0
    for kind in RULE:
        for n in (1, 2, 4):
            chk.replays += 1
            vs = [native_view(nat, kind, n)] + [native_hist(nat, kind, n, how, battery(n)) for how in range(5)]
            for v in vs:
                if v and v[0] not in done and len(done) < 5:
                    done.add(v[0])
                    chk.violation(v[0], v[1])
    for u in und:
        chk.undecided(u)


# ------------------------------------------------------------------------------------------ C04
@core.timed
def native_eq(nat, kind, n, m):
    c = ('call', 'h_%s_eq' % kind, (n, m), ())
    r = nat.calls([c])[0]
    T = COMP[kind]
    if r.bad:
        return '%s: panic for degrees %d, %d' % (T, n, m), [c]
    if r.tag(1) != [n] * 4:
        return '%s: degree() of new(%d), from(%d), new(%d) after change_degree(%d) and its clone: %r' % (T, n, n, m, n, r.tag(1)), [c]
    if r.tag(2) != [1] * 3:
        return '%s: new(%d) == from, changed, clone: %r' % (T, n, r.tag(2)), [c]
    if r.tag(3) != [int(n == m)]:
        return '%s::new(%d) == new(%d) is %r' % (T, n, m, r.tag(3)), [c]
    if r.tag(4) != [n] * 2:
        return '%s of degree %d: iter().len() is %r' % (T, n, r.tag(4)), [c]
    return None


def equality(chk, nat, kind, done, und, cfg='b'):
    M = z3.Int('m')
    cand = []
    try:
        eng = chk.engine(cfg, handlers=core.std_handlers(), limit=40, max_paths=100, max_steps=20000, timeout=5000)
        st = eng.start('h_%s_eq' % kind, [N, M])
        st.pc += [N >= 1, N < 2**32, M >= 1, M < 2**32]
        cnt = 0
        for o in eng.run(st):
            cnt += 1

            def must(c, what):
                chk.obligations += 1
                if eng.must(o.st, c):
                    chk.discharged += 1
                    return
                m = eng.model(o.st, z3.Not(c))
                if m is None:
                    raise Unsupported(what)
                raise Bad(what, tuple(m.eval(v, model_completion=True).as_long() for v in (N, M)))
            if o.kind != 'ret':
                m = eng.model(o.st)
                if m is not None:
                    raise Bad(o.msg, tuple(m.eval(v, model_completion=True).as_long() for v in (N, M)))
                continue
            tr = core.flat(o.st.trace)
            if [t for t, v in tr] != [1] * 4 + [2] * 3 + [3] + [4] * 2:
                raise Bad('results missing', (3, 5))
            for t, v in tr:
                v = v if z3.is_expr(v) else z3.IntVal(int(v))
                must({1: v == N, 2: v == 1, 3: (v == 1) == (N == M), 4: v == N}[t], {1: 'degree', 2: 'equality', 3: 'equality', 4: 'length'}[t])
        if not cnt:
            raise Unsupported('no path')
        chk.part('%s: new, From, change_degree, clone, ==: every pair of degrees' % COMP[kind])
        chk.assumptions |= eng.assumed
    except Bad as e:
        chk.log('candidate:', kind, e.why, e.env)
        cand = [e.env]
        und.append('%s: %s (not reproduced on the real code)' % (kind, e.why))
    except Unsupported as e:
        und.append('%s: %s' % (kind, e))
    D = (1, 2, 3, 255, 256, 65535, 65536, 2**24 + 1, 2**31, 2**32 - 1)
    for n, m in cand + [(a, b) for a in D for b in D[:7]]:
        v = native_eq(nat, kind, n, m)
        if v:
            if v[0] not in done:
                done.add(v[0])
                chk.violation(v[0], v[1])
                und[:] = [u for u in und if not u.startswith(kind)]
            return


def check_comp(chk):
    """C04"""
    nat = core.Native('b', timeout=100)
    done, und = set(), []

    def eq(kind):
        def go(chk):
            und = []
            equality(chk, nat, kind, done, und)
            return und
        return go

    def hist(kind, how, seqs, lab=''):
        def go(chk):
            und = []
            histories(chk, nat, kind, how, seqs, done, und, lab=lab)
            return und
        return go

    def fold(kind, how):
        def go(chk):
            und = []
            folds(chk, nat, kind, how, done, und)
            return und
        return go
    core.module('b')
    tasks = [eq(kind) for kind in COMP] + [hist(kind, how, FEW) for kind in COMP for how in range(3)] + [fold(kind, how) for kind in COMP for how in range(3)]
    tasks += [hist(kind, how, ALL[i::3], ' [share %d]' % (i + 1)) for kind in COMP for how in range(3) for i in range(3)]
    for r in core.parallel(chk, tasks, 8):
        und += r or []
    done |= set(chk.viol)
    chk.replays = 0
    for kind in COMP:
        for n in (1, 2, 4):
            chk.replays += 1
            for how in range(3):
                v = native_hist(nat, kind, n, how, battery(n))
                if v and v[0] not in done and len(done) < 5:
                    done.add(v[0])
                    chk.violation(v[0], v[1])
    for u in und:
        chk.undecided(u)
