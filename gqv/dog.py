"""Interrupts z3 queries that ignore their own timeout."""
import threading
import time
import z3

_t = {'end': None}
_orig_check, _orig_set = z3.Solver.check, z3.Solver.set


def _watch():
    while True:
        time.sleep(0.5)
        e = _t['end']
        if e is not None and time.time() > e:
            z3.main_ctx().interrupt()


def _set(self, *a, **k):
    if len(a) == 2 and a[0] == 'timeout':
        self._gq_timeout = a[1] / 1000
    return _orig_set(self, *a, **k)


def _check(self, *a):
    old = _t['end']
    _t['end'] = time.time() + 2 * getattr(self, '_gq_timeout', 60) + 2
    try:
        return _orig_check(self, *a)
    except z3.Z3Exception as e:
        if 'cancel' in str(e) or 'interrupt' in str(e):
            return z3.unknown
        raise
    finally:
        _t['end'] = old


def install():
    if z3.Solver.check is not _check:
        z3.Solver.check, z3.Solver.set = _check, _set
        threading.Thread(target=_watch, daemon=True).start()


install()
