"""C01, C02: FiniteAboveNegOneF64, in exact IEEE semantics (z3 floating-point theory)."""
import math
import re
import struct
import z3
from . import core, term
from .exec import FPv, FP64, RNE, Unsupported, Ptr, fpv, ForkBool
from .term import R

X, Y = z3.FP('x', FP64), z3.FP('y', FP64)
INF = float('inf')


def valid(e):
    return z3.And(z3.Not(z3.fpIsNaN(e)), z3.Not(z3.fpIsInf(e)), z3.fpGT(e, fpv(-1.0)))


def fval(m, v):
    e = m.eval(v, model_completion=True)
    if z3.is_fp(e) and e.isNaN():
        return math.nan
    b = z3.simplify(z3.fpToIEEEBV(e))
    return struct.unpack('<d', struct.pack('<Q', b.as_long()))[0]


def okv(x):
    return math.isfinite(x) and x > -1


def same(a, b):
    return struct.pack('<d', a) == struct.pack('<d', b) or (a != a and b != b)


PTS = [0.0, -0.0, 1.0, -1.0, math.nextafter(-1.0, 0), math.nextafter(-1.0, -2), -0.5, 0.5, 2.0, -2.0, math.nan, INF, -INF, 5e-324, -5e-324, 2.2250738585072014e-308,
       1.7976931348623157e308, -1.7976931348623157e308, 1e300, 1e-300, 3.0, 0.1, -0.9999999, 1e16, 123456.789, -1.5]


class Ask:
    def __init__(self, chk, pc=()):
        self.chk = chk
        self.s = z3.Solver()
        self.s.set('timeout', 30000)
        self.s.add(*pc)

    def __call__(self, *c):
        import time
        t0 = time.time()
        self.s.push()
        self.s.add(*c)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.chk.stats.queries += 1
        self.chk.stats.time += time.time() - t0
        return r, m


def parse_handler(eng, st, av, nm):
    """<f64 as FromStr>::from_str: any Ok(f64) or Err; sret {tag u8, kind u8, .., f64 at 8}"""
    p = av[0]
    ok = z3.Bool('parse_ok')
    if eng.must(st, ok):
        t = True
    elif eng.must(st, z3.Not(ok)):
        t = False
    else:
        raise ForkBool(ok)
    st.trace.append(('parse', av[1], av[2]))
    eng.store(st, p, ('i', 8), 0 if t else 1)
    if t:
        eng.store(st, Ptr(p.obj, p.off + 8), ('f', 64), FPv(X))
    else:
        eng.store(st, Ptr(p.obj, p.off + 1), ('i', 8), z3.Int('parse_kind'))
    return None


def run(chk, cfg, entry, args, fmode='fp', extra=None, pc=()):
    eng = chk.engine(cfg, handlers=core.std_handlers(), fmode=fmode, timeout=10000, limit=200)
    if extra:
        eng.extra = extra + eng.extra
    st = eng.start(entry, args)
    st.pc += list(pc)
    out = eng.run(st)
    chk.assumptions |= eng.assumed
    return out


def e5(v):
    return v.e if isinstance(v, FPv) else fpv(v) if isinstance(v, float) else None


def nat_val(nat, entry, args):
    r = nat.calls([('call', entry, args, ())])[0]
    return r


@core.timed
def native_new(nat, entry, x):
    """-> text or None"""
    r = nat_val(nat, entry, x if isinstance(x, tuple) else (x,))
    v = x[0] if isinstance(x, tuple) else x
    name = {'h_fan_new': 'FiniteAboveNegOneF64::new(%r)', 'h_fan_try': 'FiniteAboveNegOneF64::try_from(%r)', 'h_fan_into': '%r.try_into()', 'h_fan_de': 'deserialize(%r)',
            'h_fan_de_f32': 'deserialize(%r as f32)', 'h_fan_de_u64': 'deserialize(%r as u64)', 'h_fan_de_i64': 'deserialize(%r as i64)', 'h_ser_fan': 'deserialize(serialize(%r))'}[entry] % v
    if r.bad:
        return name + ' panics'
    if entry == 'h_ser_fan' and not r.tag(46):
        return name + ': constructor refuses' if okv(v) else None
    some = r.tag(20) == [1]
    want = float(v)
    if entry == 'h_fan_de_f32':
        want = struct.unpack('<f', struct.pack('<f', v))[0]
    if some != okv(want):
        return name + (' gives %r' % r.tag(5)[0] if some else ' is refused')
    if some and not all(same(t, want) for t in r.tag(5)):
        return name + ' gives %r' % r.tag(5)
    return None


def confirm_new(chk, nat, entry, cands, done, cfg):
    pts = list(cands) + ([0, 1, 2**63, 2**64 - 1] if entry.endswith('u64') else [0, 1, -1, -2, -2**63, 2**63 - 1] if entry.endswith('i64') else PTS)
    for x in pts:
        if entry == 'h_fan_de_f32':
            try:
                struct.pack('<f', x)
            except (OverflowError, struct.error):
                continue
        for a in ([(x, 0), (x, 1)] if entry == 'h_ser_fan' else [x]):
            t = native_new(nat, entry, a)
            if t:
                if t not in done:
                    done.add(t)
                    chk.violation(t, [('call', entry, a if isinstance(a, tuple) else (a,), ())], cfg=cfg)
                return True
    return False


def judge(chk, o, spec, value, entry, und):
    """one path of a constructor: Some(value) iff spec.  -> candidate inputs"""
    if o.kind != 'ret':
        r, m = Ask(chk, o.st.pc)()
        return [m] if r == z3.sat else []
    tr = core.flat(o.st.trace)
    some = [v for t, v in tr if t == 20]
    vals = [v for t, v in tr if t == 5]
    a = Ask(chk, o.st.pc)
    out = []

    def must(c, what):
        chk.obligations += 1
        r, m = a(z3.Not(c))
        if r == z3.unsat:
            chk.discharged += 1
        elif r == z3.sat:
            out.append(m)
        else:
            und.append('%s: %s' % (entry, what))
    if len(some) != 1:
        return [None]
    s = some[0]
    s = z3.BoolVal(s == 1) if isinstance(s, int) else s == 1
    must(s == spec, 'accepted exactly when valid')
    for v in vals:
        e = e5(v)
        if e is None:
            und.append(entry + ': value not seen')
            continue
        must(z3.Implies(s, e == value), 'value unchanged')
    return out


def check_new(chk):
    """C01"""
    for cfg in 'ab':
        nat = core.Native(cfg)
        done = set()
        good = []
        for entry in ('h_fan_new', 'h_fan_try', 'h_fan_into', 'h_fan_de', 'h_fan_de_f32', 'h_ser_fan', 'h_fan_default', 'h_fan_parse', 'h_fan_de_u64', 'h_fan_de_i64'):
            und, cands = [], []
            try:
                if entry == 'h_fan_default':
                    outs = run(chk, cfg, entry, [])
                    for o in outs:
                        tr = core.flat(o.st.trace)
                        if o.kind != 'ret' or not all(t == 20 and v == 1 or t == 5 for t, v in tr):
                            cands.append(None)
                        for t, v in tr:
                            if t == 5:
                                chk.obligations += 1
                                if Ask(chk, o.st.pc)(z3.Not(valid(e5(v))))[0] != z3.unsat:
                                    cands.append(None)
                                else:
                                    chk.discharged += 1
                elif entry == 'h_fan_parse':
                    parse(chk, cfg, und, cands)
                elif entry.endswith('64'):
                    integer(chk, cfg, entry, und, cands)
                else:
                    args = [FPv(X)] + ([z3.Int('map')] if entry == 'h_ser_fan' else [])
                    for o in run(chk, cfg, entry, args, pc=[z3.Or(z3.Int('map') == 0, z3.Int('map') == 1)] if entry == 'h_ser_fan' else ()):
                        if entry == 'h_ser_fan' and o.kind == 'ret' and not any(t == 46 for t, _ in core.flat(o.st.trace)):
                            o.st.trace.append(('outi', 20, 0))
                        cands += judge(chk, o, valid(X), X, entry, und)
            except Unsupported as e:
                und.append('%s: %s' % (entry, e))
            if cands or und:
                if entry == 'h_fan_default':
                    r = nat.call(entry, ())
                    if r.bad or r.tag(20) != [1] or not all(okv(v) for v in r.tag(5)):
                        chk.violation('FiniteAboveNegOneF64::default() is %r' % r.tag(5), [('call', entry, (), ())], cfg=cfg)
                        continue
                elif entry == 'h_fan_parse':
                    if confirm_parse(chk, nat, [m for m in cands if m is not None], done, cfg):
                        continue
                else:
                    if entry.endswith('64'):
                        xs = [m.eval(z3.Int('iv'), model_completion=True).as_long() for m in cands if m is not None]
                    else:
                        xs = [fval(m, X) for m in cands if m is not None]
                    if confirm_new(chk, nat, entry, xs, done, cfg):
                        continue
                for u in und or ['%s: candidate not reproduced on the real code' % entry]:
                    chk.undecided(u)
            else:
                good.append(entry)
        chk.part('configuration %s: every double (and u64, i64, f32; every outcome of f64::from_str): %s' % (cfg, ', '.join(good)))
        if cfg == 'a':
            zero(chk, nat, cfg, done)
        # replay of the boundary values
        chk.replays = getattr(chk, 'replays', 0) + len(PTS)
        for e in ('h_fan_new', 'h_fan_try', 'h_fan_de'):
            confirm_new(chk, nat, e, [], done, cfg)


ZC = {'h_fan_zread': 'try_read_from_bytes(bytes of %r)', 'h_fan_zview': 'try_ref_from_bytes(bytes of %r)', 'h_fan_zbytes': 'read_from_bytes(bytes of %r)', 'h_fan_zero': 'new_zeroed() [%r]'}


def zero(chk, nat, cfg, done):
    """what the zerocopy derives give: a value for the bytes of a double, and the zero value.  That the derived TryFromBytes accepts
    the bytes of every double is a recorded finding; everything else about it is decided"""
    good = []
    for entry, name in ZC.items():
        und, cands, there = [], [], False
        spec, value = (z3.BoolVal(True), z3.FPVal(0.0, z3.Float64())) if entry == 'h_fan_zero' else (valid(X), X)
        try:
            for o in run(chk, cfg, entry, [] if entry == 'h_fan_zero' else [FPv(X)]):
                tr = core.flat(o.st.trace)
                if o.kind == 'ret' and tr == [(47, 0)]:
                    continue
                there = True
                cands += judge(chk, o, spec, value, entry, und)
        except Unsupported as e:
            und.append('%s: %s' % (entry, e))
        xs = [fval(m, X) for m in cands if m is not None] + PTS
        hit = known = 0
        for x in xs if entry != 'h_fan_zero' else [0.0]:
            r = nat.call(entry, () if entry == 'h_fan_zero' else (x,))
            some, what = r.tag(20) == [1], name % x
            if not r.bad and r.tag(47) == [0]:
                continue
            if r.bad:
                t = what + ' panics'
            elif some and not all(same(v, x) for v in r.tag(5)):
                t = what + ' gives %r' % r.tag(5)
            elif some == okv(x):
                continue
            elif some and entry in ('h_fan_zread', 'h_fan_zview'):
                known = 1
                chk.violation(what + ' is accepted', [('call', entry, (x,), ())], key='zerocopy-try-from-bytes', cfg=cfg)
                continue
            else:
                t = what + (' is accepted' if some else ' is refused')
            hit = 1
            if t not in done:
                done.add(t)
                chk.violation(t, [('call', entry, () if entry == 'h_fan_zero' else (x,), ())], cfg=cfg)
            break
        if not hit and (und or (cands and not known)):
            for u in und or [entry + ': candidate not reproduced on the real code']:
                chk.undecided(u)
        elif not hit:
            good.append(entry + ('' if there else ' (no such trait)'))
    chk.part('zerocopy: the bytes of every double: %s' % ', '.join(good))


def integer(chk, cfg, entry, und, cands):
    iv = z3.Int('iv')
    sg = entry.endswith('i64')
    outs = run(chk, cfg, entry, [iv if not sg else z3.If(iv < 0, iv + 2**64, iv)], fmode='real', pc=[iv >= (-2**63 if sg else 0), iv < (2**63 if sg else 2**64)])
    for o in outs:
        if o.kind != 'ret':
            cands.append(Ask(chk, o.st.pc)()[1])
            continue
        tr = core.flat(o.st.trace)
        some = [v for t, v in tr if t == 20]
        a = Ask(chk, o.st.pc)
        chk.obligations += 1
        r, m = a((z3.BoolVal(some[0] == 1) if isinstance(some[0], int) else some[0] == 1) != (iv > -1))
        if r == z3.unsat:
            chk.discharged += 1
        elif r == z3.sat:
            cands.append(m)
        else:
            und.append(entry)
        for t, v in tr:
            if t == 5:
                chk.obligations += 1
                x = term.lin(term.const(v), 'i') if False else None
                zr = real_of(v)
                if zr is None:
                    und.append(entry + ': value')
                    continue
                r, m = a(zr != z3.ToReal(iv))
                if r == z3.unsat:
                    chk.discharged += 1
                elif r == z3.sat:
                    cands.append(m)
                else:
                    und.append(entry + ': value')


def real_of(v):
    v = term.const(v)
    if v.op == 'i2r':
        return z3.ToReal(v.a[0])
    c = term.cval(v)
    if c is not None:
        return term.qv(c)
    if v.op in ('neg',):
        x = real_of(v.a[0])
        return None if x is None else -x
    return None


def parse(chk, cfg, und, cands):
    rx = r'7FromStr8from_str$|7FromStr8from_str[^a-z]*$'
    outs = run(chk, cfg, 'h_fan_parse', [Ptr(None, 4096), z3.Int('len')], extra=[(r'float_parse.*FromStr.*from_str|dec2flt.*FromStr.*from_str', parse_handler)],
               pc=[z3.Int('len') >= 0, z3.Int('len') < 2**32, z3.Int('parse_kind') >= 0, z3.Int('parse_kind') <= 1])
    pok = z3.Bool('parse_ok')
    for o in outs:
        if o.kind != 'ret':
            cands.append(Ask(chk, o.st.pc)()[1])
            continue
        tr = core.flat(o.st.trace)
        some = [v for t, v in tr if t == 20]
        vals = [v for t, v in tr if t == 5]
        if len(some) != 1 or len([1 for e in o.st.trace if e[0] == 'parse']) != 1:
            und.append('h_fan_parse: outcome not seen')
            continue
        a = Ask(chk, o.st.pc)
        s = some[0]
        s1 = z3.BoolVal(s == 1) if isinstance(s, int) else s == 1
        conds = [s1 == z3.And(pok, valid(X))] + [z3.Implies(s1, e5(v) == X) for v in vals]
        for c in conds:
            chk.obligations += 1
            r, m = a(z3.Not(c))
            if r == z3.unsat:
                chk.discharged += 1
            elif r == z3.sat:
                cands.append(m)
            else:
                und.append('h_fan_parse')


FLAGS = 32 | 3 << 29


def fmt_write(eng, st, av, nm):
    """core::fmt::write(out, vtable, template, args): interprets the template; one placeholder only, everything else is recorded as text"""
    out, vt, tp, args = av

    def rd(p, k):
        v = 0
        for j in range(k):
            b = eng.load(st, Ptr(p.obj, p.off + j), ('i', 8))
            if not isinstance(b, int):
                raise Unsupported('format template')
            v |= b << 8 * j
        return v
    if not isinstance(args, Ptr) or args.obj is None or args.off & 1:
        st.trace.append(('lit',))
        return 0
    items, k = [], 0
    p = Ptr(tp.obj, tp.off)

    def take(n):
        nonlocal p
        v = rd(p, n)
        p = Ptr(p.obj, p.off + n)
        return v
    while True:
        n = take(1)
        if n == 0:
            break
        if n <= 0x80:
            ln = n if n < 0x80 else take(2)
            items.append(None)
            p = Ptr(p.obj, p.off + ln)
            continue
        fl, w, pr = FLAGS, 0, 0
        if n > 0xC0:
            if n & 1:
                fl = take(4)
            if n & 2:
                w = take(2)
            if n & 4:
                pr = take(2)
            if n & 8:
                k = take(2)
            if n & 48:
                raise Unsupported('dynamic width or precision')
        items.append((k, fl, w, pr))
        k += 1
    if len(items) != 1 or items[0] is None:
        st.trace.append(('lit',))
        return 0
    k, fl, w, pr = items[0]
    val = eng.load(st, Ptr(args.obj, args.off + 16 * k), ('p',))
    f = eng.load(st, Ptr(args.obj, args.off + 16 * k + 8), ('p',))
    o = eng.new_obj(st, 24, 'formatter')
    eng.store(st, Ptr(o, 0), ('p',), out)
    eng.store(st, Ptr(o, 8), ('p',), vt)
    eng.store(st, Ptr(o, 16), ('i', 32), fl)
    eng.store(st, Ptr(o, 20), ('i', 16), w)
    eng.store(st, Ptr(o, 22), ('i', 16), pr)
    if not hasattr(f, 'name'):
        raise Unsupported('format function')
    if LEAF.search(f.name):
        return leaf(eng, st, [val, Ptr(o, 0)], f.name)
    return eng.frame(f.name, [val, Ptr(o, 0)])


LEAF = re.compile(r'core3fmt5floatdNt.*(7Display|5Debug|8LowerExp|8UpperExp)3fmt')


def leaf(eng, st, av, nm):
    """Display, Debug, LowerExp or UpperExp of f64"""
    v = eng.load(st, av[0], ('f', 64))
    f = av[1]
    opt = [eng.load(st, Ptr(f.obj, f.off + o), ('i', b)) for o, b in ((16, 32), (20, 16), (22, 16))]
    st.trace.append(('num', LEAF.search(nm).group(1)[1:], v, opt == [FLAGS, 0, 0]))
    return 0


def lit(eng, st, av, nm):
    st.trace.append(('lit',))
    return 0


def show_text(nat, x, which):
    r = nat.call('h_fan_show', (x, which), (1,))
    name = 'FiniteAboveNegOneF64(%r) formatted with %s' % (x, ('{}', '{:e}', '{:E}')[which])
    if r.bad:
        return name + ' panics'
    if not okv(x):
        return None
    if r.tag(61) != [1]:
        return name + ' fails'
    if r.tag(20) != [1]:
        return name + ' and parsed again is an error'
    if not all(same(t, x) for t in r.tag(5)):
        return name + ' and parsed again is %r' % r.tag(5)[0]


def check_show(chk):
    """C23"""
    nat = core.Native('a')
    done = set()
    for cfg in 'ab':
        nat = core.Native(cfg)
        good = []
        for which, name in enumerate(('Display', 'LowerExp', 'UpperExp')):
            und, cands = [], []
            try:
                eng = chk.engine(cfg, handlers=core.std_handlers(ints=[0]), fmode='fp', timeout=10000, limit=200)
                eng.extra = [(r'4core3fmt5write$', fmt_write), (LEAF.pattern, leaf), (r'4TextNt.*5Write9write_(str|char)$', lit)] + eng.extra
                outs = eng.run(eng.start('h_fan_show', [FPv(X), which]))
                chk.assumptions |= eng.assumed
                for o in outs:
                    a = Ask(chk, o.st.pc)
                    tr = core.flat(o.st.trace)
                    if o.kind == 'ret' and not tr:
                        chk.obligations += 1
                        r, m = a(valid(X))
                        if r == z3.unsat:
                            chk.discharged += 1
                        else:
                            und.append(name + ': refused')
                        continue
                    num = [e for e in o.st.trace if e[0] == 'num']
                    m = a()[1]
                    if o.kind != 'ret' or tr != [(61, 1)] or len(num) != 1 or any(e[0] == 'lit' for e in o.st.trace) or not num[0][3]:
                        cands.append(m)
                        continue
                    chk.obligations += 1
                    v = e5(num[0][2])
                    if v is None:
                        und.append(name + ': value not seen')
                        continue
                    r, m = a(z3.Not(z3.And(v == X, valid(X))))
                    if r == z3.unsat:
                        chk.discharged += 1
                    elif r == z3.sat:
                        cands.append(m)
                    else:
                        und.append(name + ': value')
            except Unsupported as e:
                und.append('%s: %s' % (name, e))
            if cands or und:
                if confirm_show(chk, nat, which, [fval(m, X) for m in cands if m is not None], done, cfg):
                    continue
                for u in und or [name + ': candidate not reproduced on the real code']:
                    chk.undecided(u)
            else:
                good.append(name)
        und, cands = [], []
        try:
            parse(chk, cfg, und, cands)
        except Unsupported as e:
            und.append('FromStr: %s' % e)
        if cands or und:
            for which in range(3):
                if confirm_show(chk, nat, which, [fval(m, X) for m in cands if m is not None], done, cfg):
                    break
            else:
                if not confirm_parse(chk, nat, [m for m in cands if m is not None], done, cfg):
                    for u in und or ['FromStr: candidate not reproduced on the real code']:
                        chk.undecided(u)
        else:
            good.append('FromStr')
        chk.part('configuration %s: every valid double: the text is exactly that of the f64 (%s)' % (cfg, ', '.join(good)))
        chk.replays = getattr(chk, 'replays', 0) + 3 * len(SHOW)
        for which in range(3):
            confirm_show(chk, nat, which, [], done, cfg)
    chk.assumptions.add('the standard library parses its own unadorned Display, LowerExp and UpperExp text of a finite f64 back to that f64')


SHOW = PTS + [0.1 + 0.2, 1 / 3, math.pi, 1e15, 1e17, 123456789.12345679, 2.0**53 + 2, 1e22, 1e23, 5e-320, -0.3333333333333333, -0.9999999999999999, 1e100, 4.35, 0.3, 1e-7]


def confirm_show(chk, nat, which, cands, done, cfg):
    for x in list(cands) + SHOW:
        t = show_text(nat, x, which)
        if t:
            if t not in done:
                done.add(t)
                chk.violation(t, [('call', 'h_fan_show', (x, which), (1,))], cfg=cfg)
            return True
    return False


def parse_text(nat, s):
    r = nat.call('h_fan_parse', tuple(s.encode()))
    try:
        v = float(s)
    except ValueError:
        v = None
    if s.strip() != s or '_' in s:
        return None
    if r.bad:
        return 'parsing %r panics' % s
    some = r.tag(20) == [1]
    if v is None:
        return 'parsing %r succeeds' % s if some else None
    if some != okv(v):
        return 'parsing %r gives %s' % (s, r.tag(5)[:1] if some else 'an error')
    if some and not all(same(t, v) for t in r.tag(5)):
        return 'parsing %r gives %r' % (s, r.tag(5)[0])


def confirm_parse(chk, nat, cands, done, cfg):
    ss = []
    for m in cands:
        ss.append(repr(fval(m, X)))
    ss += [repr(x) for x in PTS] + ['inf', '-inf', '1e999', '-1e999', 'x', '', '-1.0', '-0.99999999999999999999999', '-1.0000000000000000001', '+3', '.5', '5.', '1e-400', 'infinity', 'NAN']
    for s in ss:
        t = parse_text(nat, s)
        if t:
            if t not in done:
                done.add(t)
                chk.violation(t, [('call', 'h_fan_parse', tuple(s.encode()), ())], cfg=cfg)
            return True
    return False


# ---------------------------------------------------------------------------------------- C02
def pyop(op, x, y):
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'mul':
        return x * y
    if op == 'div':
        if y == 0:
            return math.nan if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1, y)
        return x / y
    try:
        return math.pow(x, y)
    except OverflowError:
        return INF
    except ValueError:
        return math.nan if x != 0 else INF


@core.timed
def native_op(nat, op, x, y, r=None):
    e = 'h_fan_' + op
    r = r or nat_val(nat, e, (x, y))
    name = 'FiniteAboveNegOneF64(%r).checked_%s(%r)' % (x, op, y)
    if not okv(x):
        return None
    if r.bad:
        return name + ' panics'
    w = pyop(op, x, y)
    some = r.tag(20) == [1]
    if some and not okv(r.tag(5)[0]):
        return name + ' is Some(%r)' % r.tag(5)[0]
    if op == 'pow':
        if okv(w) and abs(w + 1) > 1e-9 and abs(w) < 1e300 and not some or some and not okv(w) and not (w == INF or abs(w + 1) < 1e-9):
            return name + ' is %s, the power is %r' % (r.tag(5)[:1] if some else 'None', w)
        if some and okv(w) and abs(r.tag(5)[0] - w) > 1e-12 * abs(w):
            return name + ' is %r, the power is %r' % (r.tag(5)[0], w)
        return None
    if some != okv(w):
        return name + ' is %s, the exact result is %r' % (r.tag(5)[:1] if some else 'None', w)
    if some and not all(same(t, w) for t in r.tag(5)):
        return name + ' is Some(%r), not %r' % (r.tag(5)[0], w)


def check_ops(chk):
    """C02"""
    F = {'add': z3.fpAdd(RNE, X, Y), 'sub': z3.fpSub(RNE, X, Y), 'mul': z3.fpMul(RNE, X, Y), 'div': z3.fpDiv(RNE, X, Y),
         'pow': z3.Function('fp_pow', FP64, FP64, FP64)(X, Y)}
    for cfg in 'ab':
        nat = core.Native(cfg)
        done = set()
        good = []
        for op in F:
            und, cands = [], []
            e = 'h_fan_' + op
            try:
                for o in run(chk, cfg, e, [FPv(X), FPv(Y)]):
                    if o.kind == 'ret' and not any(t == 46 for t, _ in core.flat(o.st.trace)):
                        chk.obligations += 1
                        r, m = Ask(chk, o.st.pc)(valid(X))
                        if r == z3.unsat:
                            chk.discharged += 1
                        else:
                            und.append('%s: operand' % op)
                        continue
                    cands += judge(chk, o, valid(F[op]), F[op], 'checked_' + op, und)
            except Unsupported as ex:
                und.append('%s: %s' % (op, ex))
            if op == 'pow':
                chk.assumptions.add('pow (libm::pow or llvm.pow) is an uninterpreted function of both operands')
            if cands or und:
                ps = [(fval(m, X), fval(m, Y)) for m in cands if m is not None]
                ps += [(x, y) for x in PTS for y in PTS]
                for (x, y), r in zip(ps, nat.calls([('call', e, t, ()) for t in ps])):
                    t = native_op(nat, op, x, y, r)
                    if t:
                        chk.violation(t, [('call', e, (x, y), ())], cfg=cfg)
                        break
                else:
                    for u in und or ['checked_%s: candidate not reproduced on the real code' % op]:
                        chk.undecided(u)
            else:
                good.append('checked_' + op)
        chk.part('configuration %s: every pair of doubles: %s' % (cfg, ', '.join(good)))
        chk.replays = getattr(chk, 'replays', 0) + len(PTS) ** 2
        for op in F:
            pts = [(x, y) for x in PTS for y in PTS]
            for (x, y), r in zip(pts, nat.calls([('call', 'h_fan_' + op, t, ()) for t in pts])):
                t = native_op(nat, op, x, y, r)
                if t and not chk.viol:
                    chk.violation(t, [('call', 'h_fan_' + op, (x, y), ())], cfg=cfg)
