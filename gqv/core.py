"""Common parts of the checks: building, engines, native replay, violations, evidence."""
import ctypes
import faulthandler
import functools
import json
import math
import os
import pickle
import subprocess
import sys
import threading
import time
import traceback
import z3
from . import build, llir, term
from . import exec as X
from .term import fbits, bitsf

VERIF = build.VERIF
_mods = {}


SWAP = {}                # configuration b -> a while a check is repeated for the default features


def module(cfg):
    cfg = SWAP.get(cfg, cfg)
    if cfg not in _mods:
        _mods[cfg] = llir.Module(build.ll(cfg))
    return _mods[cfg]


def hx(x):
    return '%x' % (fbits(x) if isinstance(x, float) else int(x) & (2**64 - 1))


class NativeTimeout(X.Unsupported):
    pass


def timed(f):
    """a comparison with native results that came too late finds nothing"""
    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except NativeTimeout:
            return None
    return g


class Native:
    """the replay tool, built from /repo's working tree with the real dependencies"""
    _p = {}

    def __init__(self, cfg='b', timeout=120, env=None):
        cfg = SWAP.get(cfg, cfg)
        if cfg not in Native._p:
            Native._p[cfg] = build.native(cfg)
        self.exe = Native._p[cfg]
        self.cfg = cfg
        self.timeout = timeout
        self.env = dict(os.environ, **(env or {}))

    def raw(self, lines, timeout=None):
        """-> list (per command) of lists of output lines; the last may be shorter than asked if the process died"""
        try:
            p = subprocess.run([self.exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout or self.timeout, text=True, env=self.env)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        res, cur = [], []
        for l in out.split('\n'):
            if l == 'end':
                res.append(cur)
                cur = []
            elif l:
                cur.append(l)
        while len(res) < len(lines):
            res.append(cur + ['died %s' % rc])
            cur = []
        return res

    @staticmethod
    def line(kind, name, args, script=()):
        return '%s %s %s | %s' % (kind, name, ' '.join(hx(a) for a in args), ' '.join(hx(a) for a in script))

    def call(self, name, args, script=(), kind='call', timeout=None):
        return self.calls([(kind, name, args, script)], timeout)[0]

    def rule(self, name, args):
        """a rule with many pairs -> (result, nodes, weights)"""
        import tempfile
        import numpy as np
        if args[0] <= 1 << 12:
            r = self.call(name, args)
            return r, np.array(r.tag(1)), np.array(r.tag(2))
        r, a = self.bulk(name, args)
        return r, a[0::2].copy(), a[1::2].copy()

    def bulk(self, name, args):
        """-> (result, the doubles shown and the points at which the integrand was evaluated)"""
        import tempfile
        import numpy as np
        with tempfile.TemporaryDirectory() as d:
            old = self.env
            self.env = dict(old, GQV_BULK=d + '/b')
            try:
                r = self.calls([('bulk', name, args, ())])[0]
                a = np.fromfile(d + '/b', dtype='<f8') if not r.bad else np.zeros(0)
            finally:
                self.env = old
        return r, a

    def calls(self, cmds, timeout=None):
        """cmds: (kind, name, args, script)"""
        rs = [Res(r) for r in self.raw([self.line(*c) for c in cmds], timeout)]
        for c, r in zip(cmds, rs):
            if r.died == 'died timeout':
                # a small input that does not come back on its own either is a hang; anything else says nothing
                if all(isinstance(a, float) or abs(a) <= 300 for a in c[2]):
                    r2 = Res(self.raw([self.line(*c)], 60)[0])
                    if r2.died == 'died timeout':
                        r.died = 'does not terminate (60 s)'
                        break
                r.late = True
                break
        else:
            return rs
        for q in rs[rs.index(r) + 1:]:
            q.late = True
        return rs


class Res:
    """events of a native call: (tag, float) / (tag, int), result, panic"""

    def __init__(self, lines):
        self.lines = lines
        self.ev = []
        self.ret = None
        self.calls = []
        self.meas = []
        self.panic = False
        self.died = None
        self.late = False
        self.strs = []
        self.probe = None
        for l in lines:
            w = l.split(' ')
            if w[0] == 'f':
                self.ev.append((int(w[1]), bitsf(int(w[2], 16))))
            elif w[0] == 'i':
                self.ev.append((int(w[1]), int(w[2], 16)))
            elif w[0] == 'r':
                self.ret = bitsf(int(w[2], 16))
            elif w[0] == 'c':
                self.calls.append(bitsf(int(w[2], 16)))
            elif w[0] == 'm':
                self.meas.append((bitsf(int(w[1], 16)), int(w[2]), bitsf(int(w[3], 16)) if w[3] else None))
            elif w[0] == 'p':
                self.probe = (int(w[1], 16), int(w[2], 16))
            elif w[0] == 's':
                self.strs.append(l[4:])
            elif w[0] == 'panic':
                self.panic = True
            elif w[0] in ('died', 'unknown'):
                self.died = l

    def tag(self, *ts):
        return [v for t, v in self.ev if t in ts]

    @property
    def bad(self):
        if self.late:
            raise NativeTimeout('the replay tool ran out of time')
        return self.panic or self.died is not None


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stats = X.Stats()
        self.viol = []
        self.kf = []
        self.weak = []       # reduced coverage: what could not be decided, and why
        self.parts = []      # (what was decided, bound)
        self.samples = []
        self.assumptions = set()
        self.obligations = 0
        self.discharged = 0
        self.quick = tier == 'quick'
        self.budget = 600 if self.quick else 3000
        self.kfs = load_kf(pid)
        self.suffix = ''
        self.told = False       # another process has reported a violation
        self.replays = 0

    def child(self, suffix):
        """a check for a part of the work in another process, see parallel()"""
        c = Check(self.pid, self.tier, self.seed)
        c.t0, c.budget, c.suffix = self.t0, self.budget, self.suffix + suffix
        return c

    MERGE = ('viol', 'weak', 'parts', 'samples')

    def export(self):
        d = {k: getattr(self, k) for k in self.MERGE}
        d.update(kf=[k['key'] for k in self.kf], assumptions=self.assumptions, obligations=self.obligations, discharged=self.discharged,
                 replays=self.replays, stats=self.stats.__dict__)
        return d

    def merge(self, d):
        for k in self.MERGE:
            have = getattr(self, k)
            have += [x for x in d[k] if x not in have]
        del self.samples[12:]
        for k in self.kfs:
            if k['key'] in d['kf'] and k not in self.kf:
                self.kf.append(k)
        self.assumptions |= d['assumptions']
        self.obligations += d['obligations']
        self.discharged += d['discharged']
        self.replays += d['replays']
        for k, v in d['stats'].items():
            if isinstance(v, set):
                getattr(self.stats, k).update(v)
            else:
                setattr(self.stats, k, getattr(self.stats, k) + v)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def engine(self, cfg, **kw):
        kw.setdefault('deadline', time.time() + max(5, min(self.left(), kw.pop('limit', 10**9))))
        kw.setdefault('stats', self.stats)
        return X.Engine(module(cfg), **kw)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def undecided(self, what):
        self.obligations += 1
        what = ('default features (libm): ' if SWAP else '') + str(what)[:400]
        if what not in self.weak:
            self.weak.append(what)
            self.log('undecided:', what)

    def part(self, what):
        if SWAP:
            what = 'default features (libm): ' + what
        self.parts.append(what)
        self.log('done:', what)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, desc, cmds, key=None, cfg='b', extra=None):
        """desc: what fails; cmds: native commands (kind, name, args, script) that show it"""
        if key is not None:
            for k in self.kfs:
                if k['key'] == key:
                    if k not in self.kf:
                        self.kf.append(k)
                    return
        cfg = SWAP.get(cfg, cfg)
        if cfg == 'a':
            desc += ' (default features)'
        self.viol.append(desc)
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s%d.json' % (self.pid, self.suffix, len(self.viol)))
        lines = [Native.line(*c) for c in cmds]
        out = Native(cfg).raw(lines) if cmds else []
        json.dump({'property': self.pid, 'what': desc, 'config': cfg, 'commands': lines, 'native_output': [o[:200] for o in out],
                   'extra': extra, 'how': 'build: python3-vt -m gqv.build n%s ; pipe the commands into the printed binary' % cfg},
                  open(p, 'w'), indent=1)
        self.log('violation:', desc)
        print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)), flush=True)

    def finish(self):
        for k in self.kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']), flush=True)
        for w in self.weak:
            print('REDUCED-COVERAGE: property=%s %s' % (self.pid, w), flush=True)
        st = self.stats
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': st.ins, 'transitions': st.paths, 'traces_validated_against_impl': getattr(self, 'replays', 0),
                'samples': self.samples or ['(none)'],
                'functions_encoded': sorted(short(f) for f in st.funcs)[:400],
                'functions_encoded_count': len(st.funcs),
                'solver_queries': st.queries, 'solver_unknown': st.unknown, 'solver_s': round(st.time, 2),
                'paths': st.paths, 'instructions': st.ins, 'loops_summarised': st.loops,
                'obligations': self.obligations, 'discharged': self.discharged,
                'decided': self.parts, 'undecided': self.weak,
                'assumptions': sorted(self.assumptions),
                'known_findings': [k['what'] for k in self.kf], 'violations': self.viol,
                'explanation': 'states = IR instructions executed symbolically; transitions = completed symbolic paths; '
                               'every verdict is a z3 query over all values inside the bound named in `decided`',
            },
            'wall_s': round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        self.log('%s: %d violation(s), %d obligations, %d discharged, %d queries, solver %.1fs' % (
            self.pid, len(self.viol), self.obligations, self.discharged, st.queries, st.time))
        return 1 if self.viol else 0


class Worker:
    """fn(check) in a forked process; its findings come back when it ends"""

    def __init__(self, chk, suffix, fn):
        self.chk, self.out, self.result, self.crashed = chk, None, None, False
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if not self.pid:
            os.close(r)
            rc = 1
            try:
                ctypes.CDLL(None).prctl(1, 9)      # ends with its parent
                WORKERS.clear()
                c = chk.child(suffix)
                lock = threading.Lock()

                def send(res):
                    with lock:
                        with os.fdopen(w, 'wb') as f:
                            f.write(pickle.dumps((c.export(), res)))
                        sys.stdout.flush()
                        os._exit(0)
                watch(c, lambda: send(None), c.budget + 30)
                res = None
                try:
                    res = fn(c)
                except Exception as e:
                    traceback.print_exc()
                    c.undecided('internal: %s: %s' % (type(e).__name__, str(e)[:300]))
                send(res)
            finally:
                sys.stdout.flush()
                os._exit(rc)
        os.close(w)
        WORKERS.append(self)

        def read():
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            try:
                self.out, self.result = pickle.loads(b)
                # so that the watchdog knows
                chk.told = chk.told or bool(self.out['viol'])
            except Exception:
                self.crashed = True
            os.waitpid(self.pid, 0)
        self.thread = threading.Thread(target=read, daemon=True)
        self.thread.start()

    def join(self, timeout=None):
        """-> has it ended"""
        self.thread.join(timeout)
        if self.thread.is_alive():
            return False
        if self in WORKERS:
            WORKERS.remove(self)
            if self.out is not None:
                self.chk.merge(self.out)
            else:
                self.chk.undecided('a part of the check gave no answer')
        return True

    def kill(self):
        try:
            os.kill(self.pid, 9)
        except OSError:
            pass


WORKERS = []


def watch(chk, end, limit, late=None):
    """end() a while after a violation is known, or when the time is up (after late(), if nothing was found)"""
    def collect():
        for w in list(WORKERS):
            w.join(0)
        for w in list(WORKERS):
            w.kill()

    def run():
        first = None
        while time.time() - chk.t0 < limit:
            time.sleep(1)
            if chk.viol or chk.told:
                first = first or time.time()
                if time.time() - first > (60 if chk.quick else 600):
                    # the answer is known: the rest would only repeat it
                    chk.undecided('stopped after the violations reported')
                    collect()
                    end()
        faulthandler.dump_traceback(file=sys.stdout, all_threads=True)
        chk.undecided('out of time')
        collect()
        if late and not chk.viol:
            late()
        end()
    threading.Thread(target=run, daemon=True).start()


def parallel(chk, tasks, workers=4):
    """tasks: functions of a check -> their results in order (None where there is none), each worker taking the next task"""
    import multiprocessing
    nxt = multiprocessing.Value('i', 0)
    stop = multiprocessing.Value('i', 0)

    def work(c):
        out = []
        while not stop.value:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(tasks):
                break
            out.append((i, tasks[i](c)))
            if c.viol:
                stop.value = 1
        return out
    ws = [Worker(chk, '%s.' % 'abcdefgh'[k], work) for k in range(min(workers, len(tasks)))]
    res = [None] * len(tasks)
    for w in ws:
        w.join()
        for i, r in w.result or ():
            res[i] = r
    return res


def short(f):
    import re
    m = re.sub(r'^@"?_R', '', f).strip('"')
    return f.strip('@"')[:120]


def load_kf(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                kv, _, what = l[9:].partition(' | ')
                d = dict(x.split('=', 1) for x in kv.split())
                if d.get('property') == pid:
                    out.append({'key': d['key'], 'what': what})
    return out


# ------------------------------------------------------------------------------------ handlers for the v* externs
def std_handlers(ints=None, floats=None):
    """ints: list/callable giving vint values in order"""
    def vf(eng, st, av, nm):
        x = av[0]
        r = term.app('f', x)
        st.trace.append(('f', term.const(x)))
        return r

    def vout(eng, st, av, nm):
        st.trace.append(('out', av[0], av[1]))

    def vouti(eng, st, av, nm):
        st.trace.append(('outi', av[0], av[1]))

    def mkin(src):
        def h(eng, st, av, nm):
            k = 'nin' + nm
            i = st.info.get(k, 0)
            st.info[k] = i + 1
            if callable(src):
                return src(eng, st, av[0], i)
            return src[i]
        return h
    h = {'vf': vf, 'vout': vout, 'vouti': vouti, 'vint': mkin(ints or []), 'vflt': mkin(floats or []),
         'vhavoc': lambda e, s, a, n: None}
    return h


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def flat(trace):
    return [(e[1], e[2]) for e in trace if e[0] in ('out', 'outi')]


def close(a, b, rel=1e-9, ab=0.0):
    if a is None or b is None or a != a or b != b:
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)
