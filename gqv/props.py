"""property id -> check"""
from . import grid, gauss, par, trig, leg, gw, fan, conv, sup, gam, rt, ark, eqs, iters

CHECKS = {
    'C01': fan.check_new,
    'C02': fan.check_ops,
    'C05': lambda c: grid.check_composite(c, 'trap'),
    'C06': lambda c: grid.check_composite(c, 'mid'),
    'C07': lambda c: grid.check_composite(c, 'simp'),
    'C08': gauss.check_integrate,
    'C09': par.check_par,
    'C10': trig.check_parnew,
    'C11': leg.check_tab,
    'C12': leg.check_acc,
    'C13': leg.check_total,
    'C14': lambda c: trig.check_cheb(c, 'che1'),
    'C16': lambda c: gw.check_gw(c, 'her'),
    'C17': lambda c: gw.check_gw(c, 'lag'),
    'C18': lambda c: gw.check_gw(c, 'jac'),
    'C19': conv.check,
    'C20': sup.check,
    'C21': gam.check,
    'C22': rt.check,
    'C23': fan.check_show,
    'C24': ark.check,
    'C25': eqs.check_cmp,
    'C26': eqs.check_err,
    'C27': eqs.check_eq,
    'C03': iters.check_gauss,
    'C04': iters.check_comp,
    'C15': lambda c: trig.check_cheb(c, 'che2'),
}

# repeated with the default features: what depends on the math backend (C01, C02, C22, C23 look at both configurations themselves;
# the parallel methods of C09 and C10 only exist with rayon)
BOTH = {'C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21'}
ONE = {'C01', 'C02', 'C09', 'C10', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27'}
