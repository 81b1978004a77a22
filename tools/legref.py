#!/usr/bin/env python3
"""Design-time validation of the reference expansion of gqv/leg.py (C12, C13, C20): compares its nodes (angles) and weights with
Newton iterations on the Legendre recurrence in 50 digits.  Run with python3-vt; not part of any check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mpmath, numpy as np
from gqv import leg
mpmath.mp.dps = 50
def legendre(n, x):
    p0, p1 = mpmath.mpf(1), x
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    return p1, n * (x * p1 - p0) / (x * x - 1)
worst = [0, 0]
for n in (101, 102, 128, 151, 257, 500, 1001, 3000):
    ks = sorted(set([1, 2, 3, 5, 10, 20, 21, 22, 23, 40, n // 5, n // 3, n // 2 - 1, n // 2, (n + 1) // 2]))
    ks = [k for k in ks if 1 <= k <= (n + 1) // 2]
    th, w = leg.np_pairs(n, np.array(ks))
    for k, t, v in zip(ks, th, w):
        a = mpmath.mpf(np.format_float_positional(t, precision=25))
        b = mpmath.mpf(np.format_float_scientific(v, precision=25))
        x = mpmath.cos(a)
        for _ in range(4):
            p, d = legendre(n, x)
            x -= p / d
        p, d = legendre(n, x)
        rw = 2 / ((1 - x * x) * d * d)
        ea, ew = abs(mpmath.acos(x) - a), abs(rw - b) / rw
        worst = [max(worst[0], ea), max(worst[1], ew)]
        if ea > 2e-15 or ew > 2e-14:
            print('n=%d k=%d: angle error %s, relative weight error %s' % (n, k, mpmath.nstr(ea, 3), mpmath.nstr(ew, 3)))
print('largest angle error %s, largest relative weight error %s' % tuple(mpmath.nstr(v, 3) for v in worst))
