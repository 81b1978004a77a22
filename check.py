#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]: decides one property of gauss-quad; see DESIGN.md"""
import os
import sys
import threading
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)


def body(chk):
    from gqv import fallback, props
    try:
        props.CHECKS[chk.pid](chk)
    except fallback.core.build.BuildError:
        raise
    except Exception as e:
        traceback.print_exc()
        chk.undecided('internal: %s: %s' % (type(e).__name__, str(e)[:300]))
    if (chk.weak or os.environ.get('GQV_FALLBACK')) and not chk.viol and not chk.told:
        chk.budget = max(chk.budget, time.time() - chk.t0 + 120)
        fallback.run(chk)


def other(chk):
    """the whole check again with the default features (libm as the math backend)"""
    from gqv import core
    core.SWAP['b'] = 'a'
    body(chk)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from gqv import core, props, fallback
    chk = core.Check(pid, tier, int(os.environ.get('VERIF_SEED', '1')))

    def end():
        rc = chk.finish()
        sys.stdout.flush()
        os._exit(rc)

    def late():
        chk.budget += 150
        threading.Thread(target=fallback.run, args=(chk,), daemon=True).start()
        t = time.time()
        while time.time() - t < 90 and not chk.viol:
            time.sleep(1)
    core.watch(chk, end, int(os.environ.get('GQV_WATCHDOG', 0)) or (chk.budget + 60), late)
    try:
        w = None
        if pid in props.BOTH or not chk.quick and pid not in props.ONE:
            w = core.Worker(chk, 'a', other)
        body(chk)
        if w:
            w.join()
    except core.build.BuildError as e:
        print(e)
        print('BUILD-ERROR: the harness does not build against the current tree')
        chk.finish()
        return 2
    return chk.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
