"""C09: par_integrate equals integrate under every schedule.

rayon's own producers and consumers are executed; rayon-core is a stand-in whose decisions (number of threads, which half of
a join runs first, whether a half was stolen) come from the solver."""
import time
import z3
from . import core, term, grid, gauss, exec as X
from .term import var, const
from .exec import Unsupported
from .grid import Bad, GridCheck
from .gauss import SumCheck, RULES, PAR, INTERVAL

MAXT = 4


def sched(mode, tmax=MAXT):
    """mode full: threads 1..tmax, order and stealing free; lite: threads fixed to tmax, in order, nothing stolen;
    rev: as lite, second half first"""
    def h(eng, st, av, nm):
        w = av[0]
        if w == 0:
            if mode != 'full':
                return tmax
            if 'threads' not in st.info:
                t = eng.fresh_int('threads')
                st.pc += [t >= 1, t <= tmax]
                st.info['threads'] = t
            return st.info['threads']
        if mode == 'lite':
            return 0
        if mode == 'rev':
            return 1 if w == 1 else 0
        b = eng.fresh_int('sched%d' % w)
        st.pc += [b >= 0, b <= 1]
        return b
    return h


def panic_env(eng, o, n):
    if isinstance(n, int):
        return {'n': n}
    m = eng.model(o.st, n <= 200)
    m = m or eng.model(o.st)
    return None if m is None else {'n': m.eval(n, model_completion=True).as_long()}


def one(chk, eng, kind, o, n, a, b):
    nv = None if isinstance(n, int) else n
    if kind in RULES:
        SumCheck(chk, kind, o, n, nv, a, b).run()
    else:
        GridCheck(chk, eng, kind, o, n, nv, a, b).run()


def explore(chk, kind, n, mode, tmax, limit, done, nat, summarize=False):
    """one size (concrete or symbolic n), one family of schedules; -> number of paths, or None if not decided"""
    a, b = var('a'), var('b')
    entry = 'h_%s_par' % kind
    if kind in RULES:
        eng = gauss.gauss_engine(chk, 'b', n, summarize=summarize, limit=limit, max_paths=60000, max_steps=300000, timeout=5000)
        args = [3, *PAR[kind], 1, a, b]
    else:
        eng = chk.engine('b', summarize=summarize, handlers=core.std_handlers(), limit=limit, max_paths=60000, max_steps=300000, timeout=5000)
        args = [n, a, b]
    eng.handlers['vsched'] = sched(mode, tmax)
    st = eng.start(entry, args)
    if not isinstance(n, int):
        st.pc += [n >= 1, n < (2**58 if kind in RULES else 2**32)]
    np = 0
    seen = set()
    what = '%s n=%s' % (entry, n)
    try:
        for o in eng.run(st):
            np += 1
            try:
                if o.kind != 'ret':
                    e = panic_env(eng, o, n)
                    if e is None:
                        continue
                    raise Bad('%s: %s' % (o.kind, o.msg), e)
                if isinstance(n, int):
                    # the same value and calls as an earlier path: nothing new to ask
                    key = (const(o.val).id, tuple(sorted(str(x.id) for _, _, x in grid.call_list(o.st.trace))))
                    if key in seen:
                        continue
                    one(chk, eng, kind, o, n, a, b)
                    seen.add(key)
                else:
                    one(chk, eng, kind, o, n, a, b)
            except Bad as e:
                if isinstance(n, int):
                    e.env = dict(e.env or {}, n=n)
                chk.log('candidate:', what, e.why, e.env)
                ok = gauss.confirm_sum(chk, nat, kind, entry, e, done) if kind in RULES else grid.confirm(chk, nat, kind, entry, e, done)
                if not ok:
                    chk.undecided('%s: %s (not reproduced on the real code)' % (what, e.why))
                return None
    except Unsupported as e:
        chk.undecided('%s (%s, <= %d threads): %s' % (what, mode, tmax, e))
        return None
    finally:
        chk.assumptions |= eng.assumed
    if np == 0:
        chk.undecided(what + ': no path')
        return None
    return np


def check_par(chk):
    nat = core.Native('b', timeout=600)
    kinds = ['trap', 'mid', 'simp'] + list(RULES)
    chk.assumptions.add('rayon-core is replaced by a stand-in that runs the two halves of a join one after the other, in either order, stolen or not')
    core.module('b')
    threads = 3 if chk.quick else MAXT
    top = {k: (6 if k == 'simp' else 8) if chk.quick else (7 if k == 'simp' else 10) for k in kinds}

    def full(k, n, t):
        def go(chk):
            if chk.left() < 100:
                return None
            r = explore(chk, k, n, 'full', t, 150 if chk.quick else 800, set(), nat)
            return None if r is None else ('full', k, n, t, r)
        return go

    def sym(k):
        def go(chk):
            done, ok = set(), []
            for mode, t in (('lite', 1), ('rev', 2), ('lite', 3), ('rev', 3), ('lite', 4)) if chk.quick else (('lite', 1), ('rev', 2), ('lite', 3), ('rev', 4), ('lite', 8), ('rev', 8)):
                if explore(chk, k, z3.Int('n'), mode, t, 100 if chk.quick else 400, done, nat, summarize=True) is None:
                    break
                ok.append('%s/%d threads' % (mode, t))
            if ok:
                chk.part('h_%s_par: every size, schedules %s without stealing' % (k, ', '.join(ok)))
            if done or ok:
                return None
            ok = []
            for n in (4, 5, 6, 7, 8, 13, 16, 31, 33, 64, 100, 257, 1000, 1001):
                if explore(chk, k, n, 'lite', 4, 30, done, nat) is None:
                    break
                ok.append(n)
            if ok:
                chk.part('h_%s_par: sizes %s, 4 threads, in order' % (k, ok))
        return go
    tasks = [full(k, n, threads) for n in (1, 2, 3) for k in kinds] + [sym(k) for k in kinds]
    tasks += [full(k, n, threads) for n in range(10, 3, -1) for k in kinds if n <= top[k]]
    tasks += [full(k, n, 4) for n in range(2, 6) for k in kinds if chk.quick]
    got = {}
    for r in core.parallel(chk, tasks, 8):
        if r:
            got.setdefault((r[1], r[3]), []).append(r[2:])
    for (k, t), l in got.items():
        chk.part('h_%s_par: every schedule, up to %d threads, sizes %s' % (k, t, ', '.join('%d (%d schedules)' % (n, r) for n, _, r in sorted(l))))
    # the real rayon
    chk.replays = 0
    for k in kinds:
        for n in (1, 7, 64, 1000):
            if k in ('her', 'lag', 'jac') and n > 64:
                continue
            if k in RULES:
                v = gauss.native_sum(nat, k, 'h_%s_par' % k, n, *PAR[k], 0.5, 2.0)
            else:
                v = grid.native_check(chk, nat, k, 'h_%s_par' % k, n, 0.5, 2.0, None)
            chk.replays += 1
            if v and not chk.viol:
                chk.violation(v[0], v[1])
                break
