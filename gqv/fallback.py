"""Inputs run on the real code for what symbolic execution could not decide (it follows neither the claim nor the bounds of the
check: it can only add violations that reproduce)."""
import traceback
from . import core, fan, gam, gauss, gw, grid, iters, leg, par, rt, sup, trig, conv

RULES = ('leg', 'che1', 'che2', 'her', 'lag', 'jac')
COMPS = ('trap', 'mid', 'simp')


class E:
    env = None
    m = None
    why = ''


def cand(ns=()):
    return grid.Bad('', {})


def items(chk):
    """-> list of (function without arguments)"""
    p = chk.pid
    nat = core.Native('b', timeout=100)
    done = set()
    if p == 'C01':
        for cfg in 'ab':
            n = core.Native(cfg)
            for e in ('h_fan_new', 'h_fan_try', 'h_fan_into', 'h_fan_de', 'h_fan_de_f32', 'h_fan_de_i64', 'h_fan_de_u64', 'h_ser_fan'):
                yield lambda n=n, e=e, cfg=cfg: fan.confirm_new(chk, n, e, [], done, cfg)
            yield lambda n=n, cfg=cfg: fan.confirm_parse(chk, n, [], done, cfg)
    elif p == 'C02':
        def ops(n, op, cfg):
            ps = [(x, y) for x in fan.PTS for y in fan.PTS]
            e = 'h_fan_' + op
            for (x, y), r in zip(ps, n.calls([('call', e, t, ()) for t in ps])):
                t = fan.native_op(n, op, x, y, r)
                if t:
                    chk.violation(t, [('call', e, (x, y), ())], cfg=cfg)
                    return
        for cfg in 'ab':
            for op in ('add', 'sub', 'mul', 'div', 'pow'):
                yield lambda cfg=cfg, op=op: ops(core.Native(cfg), op, cfg)
    elif p in ('C03', 'C04'):
        for k in (RULES if p == 'C03' else COMPS):
            for how in (range(5) if p == 'C03' else range(2)):
                yield lambda k=k, how=how: iters.confirm(chk, nat, k, how, None, None, done)
    elif p in ('C05', 'C06', 'C07'):
        k = {'C05': 'trap', 'C06': 'mid', 'C07': 'simp'}[p]
        yield lambda: grid.confirm(chk, nat, k, 'h_' + k, cand(), done)
    elif p == 'C08':
        for k in RULES:
            yield lambda k=k: gauss.confirm_sum(chk, nat, k, 'h_%s_int' % k, cand(), done)
    elif p == 'C09':
        for k in RULES:
            yield lambda k=k: gauss.confirm_sum(chk, nat, k, 'h_%s_par' % k, cand(), done)
        for k in COMPS:
            yield lambda k=k: grid.confirm(chk, nat, k, 'h_%s_par' % k, cand(), done)
    elif p == 'C10':
        for k in ('che1', 'che2', 'leg'):
            yield lambda k=k: trig.confirm_pn(chk, nat, k, [], done)
    elif p == 'C11':
        def tab():
            for n in range(1, 101):
                v = leg.native_tab(nat, n)
                if v:
                    chk.violation(v[0], v[1])
                    return
        yield tab
    elif p == 'C12':
        yield lambda: leg.confirm_leg(chk, nat, [], done)
    elif p == 'C13':
        yield lambda: leg.confirm_leg(chk, nat, list(range(1, 101)), done, 'sym', 1)
    elif p in ('C14', 'C15'):
        yield lambda: trig.confirm_cheb(chk, nat, 'che1' if p == 'C14' else 'che2', {}, done)
    elif p in ('C16', 'C17', 'C18'):
        yield lambda: gw.confirm_gw(chk, nat, {'C16': 'her', 'C17': 'lag', 'C18': 'jac'}[p], {}, done)
    elif p == 'C19':
        yield lambda: conv.confirm(chk, nat, list(range(1, 130)), [], done)
        yield lambda: conv.confirm_conv(chk, nat, [1, 2, 3, 10, 65, 101, 257, 300], done)
    elif p == 'C20':
        for k in ('leg', 'che1', 'che2'):
            yield lambda k=k: sup.confirm(chk, nat, k, [], done)
        for k in ('her', 'lag', 'jac'):
            yield lambda k=k: gw.confirm_gw(chk, nat, k, {}, done, what='sorted')
    elif p == 'C21':
        for k in ('lag', 'jac'):
            yield lambda k=k: gam.confirm(chk, nat, k, [], done)
    elif p == 'C22':
        for k in RULES + COMPS:
            yield lambda k=k: rt.confirm(chk, nat, k, [], done)
    elif p == 'C23':
        for cfg in 'ab':
            for w in range(3):
                yield lambda cfg=cfg, w=w: fan.confirm_show(chk, core.Native(cfg), w, [], done, cfg)


def run(chk):
    chk.log('native inputs for what is undecided')
    try:
        for f in items(chk):
            try:
                f()
            except Exception:
                traceback.print_exc()
            if chk.viol:
                return
    except Exception:
        traceback.print_exc()
