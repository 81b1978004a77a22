"""Symbolic executor for LLVM IR (see llir.py), deciding branches with z3.

Values: python int (iN, unsigned), z3 Int/Bool (symbolic integer), python float (concrete double), term.R (symbolic
double, real semantics with the operation tree kept), FPv (symbolic double, exact IEEE semantics via z3 FP), Ptr,
('fn', name), FBits (integer view of a symbolic double), UNDEF, or a python list (first-class aggregate).
"""
import math
import re
import struct
import time
from fractions import Fraction
import z3
from . import llir, term
from .term import R, mk, const, fbits, bitsf


class Unsupported(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class FBits:
    """integer views of a symbolic float: kind in id, sign (all ones if negative), lsign (sign>>1), sbit, key"""
    __slots__ = ('r', 'kind')

    def __init__(self, r, kind='id'):
        self.r = r
        self.kind = kind


class FPv:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'FP(%s)' % self.e


FP64 = z3.Float64()
RNE = z3.RNE()


def fpv(x):
    if isinstance(x, FPv):
        return x.e
    return z3.fpBVToFP(z3.BitVecVal(fbits(x), 64), FP64) if x == x and abs(x) != float('inf') else (
        z3.fpNaN(FP64) if x != x else z3.fpInfinity(FP64, x < 0))


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Cells(dict):
    """offset -> (size, value), with a bound on the sizes of the cells"""
    __slots__ = ('mx',)

    def __init__(self, src=()):
        dict.__init__(self, src)
        self.mx = src.mx if isinstance(src, Cells) else max([c[0] for c in self.values()], default=0)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if v[0] > self.mx:
            self.mx = v[0]

    def over(self, off, size):
        """offsets of the cells that meet [off, off+size), ascending or in dictionary order"""
        if self.mx + size < len(self):
            r = [co for co in range(off - self.mx + 1, off + size) if co in self]
        else:
            r = list(self)
        return [co for co in r if co < off + size and off < co + self[co][0]]


class Obj:
    __slots__ = ('size', 'cells', 'zero', 'fams', 'sym', 'const', 'name', 'freed')

    def __init__(self, size, name=''):
        self.size = size
        self.cells = Cells()
        self.zero = False
        self.fams = []      # [(t, T, conds, off(t), size, val(t))]
        self.sym = None     # name of symbolic array of (f64,f64) pairs: element 2*i, 2*i+1
        self.const = False
        self.name = name
        self.freed = False

    def copy(self):
        o = Obj(self.size, self.name)
        o.cells = Cells(self.cells)
        o.zero = self.zero
        o.fams = list(self.fams)
        o.sym = self.sym
        o.const = self.const
        o.freed = self.freed
        return o


class Frame:
    __slots__ = ('fn', 'env', 'block', 'idx', 'prev', 'dst', 'ins')

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.block = fn.order[0]
        self.ins = fn.blocks[self.block]
        self.idx = 0
        self.prev = None
        self.dst = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.block = self.block
        f.ins = self.ins
        f.idx = self.idx
        f.prev = self.prev
        f.dst = self.dst
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'trace', 'stops', 'prune', 'info', 'steps')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.trace = []
        self.stops = None     # (depth, header, loopset)
        self.prune = []       # [(depth, header)]
        self.info = {}
        self.steps = 0

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.stops = self.stops
        s.prune = list(self.prune)
        s.info = dict(self.info)
        s.steps = self.steps
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o


class Out:
    """outcome of a path"""

    def __init__(self, kind, st, val=None, msg=''):
        self.kind = kind      # ret | panic | back | exit | stuck | ub
        self.st = st
        self.val = val
        self.msg = msg

    def __repr__(self):
        return 'Out(%s,%s,%s)' % (self.kind, self.val, self.msg)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.ins = 0
        self.paths = 0
        self.funcs = set()
        self.loops = 0


PANIC = re.compile(r'panic|unwrap_failed|expect_failed|handle_error|handle_alloc_error|slice_(start|end)_index|slice_index_(fail|order)|copy_from_slice|len_mismatch|capacity_overflow|div_by_zero|assert_failed|panic_on_ord_violation|fail$|index_fail|split_at_fail')


class Engine:
    def __init__(self, mod, fmode='real', summarize=False, timeout=4000, handlers=None, stats=None, max_steps=3000000,
                 deadline=None, max_paths=20000):
        self.mod = mod
        self.fmode = fmode
        self.summarize = summarize
        self.handlers = {}
        self.redirect = {}      # regex -> function name
        self.extra = []         # (regex, handler)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.sstack = []
        self.fresh_n = 0
        self.oid = 0
        self.gobj = {}
        self.Z = term.Z(cap=10)
        self.base_mem = {}
        self.callcache = {}
        self.alloc_zero_syms = {}
        self.assumed = set()
        self.work = None
        self.pending_outs = []
        self.closed = False
        if handlers:
            self.handlers.update(handlers)

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        st = self.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and (st[i] is pc[i] or st[i].eq(pc[i])):
            i += 1
        k = len(st) - i
        if k:
            self.solver.pop(k)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, pc, cond=None):
        """sat/unsat/unknown of pc && cond"""
        self._sync(pc)
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(cond) if cond is not None and not z3.is_bool(cond) is False and self._islit(cond) else self._chk(cond)
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _islit(self, c):
        return False

    def _chk(self, cond):
        if cond is None:
            return self.solver.check()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        return r

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(st.pc, cond) != z3.unsat

    def must(self, st, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(st.pc, z3.Not(cond)) == z3.unsat

    def model(self, st, *conds):
        self._sync(st.pc)
        self.solver.push()
        for c in conds:
            self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        return m

    def fresh(self, pre='v'):
        self.fresh_n += 1
        return '%s!%d' % (pre, self.fresh_n)

    def fresh_int(self, pre='i'):
        return z3.Int(self.fresh(pre))

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name=''):
        self.oid += 1
        o = Obj(size, name)
        st.mem[self.oid] = o
        st.owned.add(self.oid)
        return self.oid

    def gptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        if name not in self.gobj:
            t, init, isconst = self.mod.glob(name)
            self.oid += 1
            oid = self.oid
            self.gobj[name] = oid
            o = Obj(llir.tsize(t), name)
            o.const = isconst
            self.base_mem[oid] = o
            if init is not None:
                self._init(st, o, 0, t, init)
        oid = self.gobj[name]
        if oid not in st.mem:
            st.mem[oid] = self.base_mem[oid]
        return Ptr(oid, 0)

    def _init(self, st, o, off, t, init):
        k = init[0]
        if k == 'c':
            v = init[1]
            if isinstance(v, tuple) and v[0] == 'bytes':
                o.cells[off] = (len(v[1]), v[1])
            elif isinstance(v, tuple) and v[0] == 'zero':
                o.cells[off] = (llir.tsize(t), bytes(llir.tsize(t)))
            elif isinstance(v, tuple) and v[0] == 'null':
                o.cells[off] = (8, Ptr(None, 0))
            elif isinstance(v, tuple) and v[0] == 'undef':
                pass
            else:
                o.cells[off] = (llir.tsize(t), v)
        elif k == 'g':
            o.cells[off] = (8, self.gptr(st, init[1]))
        elif k == 'agg':
            fo = 0
            for i, (v, et) in enumerate(zip(init[2], init[3])):
                if t[0] == 'a':
                    self._init(st, o, off + i*llir.tsize(t[2]), et, v)
                else:
                    self._init(st, o, off + llir.field_offset(t, i), et, v)
        elif k == 'expr':
            o.cells[off] = (llir.tsize(t), self.const_expr(st, init))
        else:
            raise Unsupported('global init %r' % (init,))

    def const_expr(self, st, d):
        k = d[1]
        if k == 'gep':
            bt, ops = d[2], d[3]
            base = self.opv(st, None, ops[0][1], ('p',))
            return self.gep(st, bt, base, [(t, self.opv(st, None, v, t)) for t, v in ops[1:]])
        if k == 'inttoptr':
            v = self.opv(st, None, d[3], d[2])
            return Ptr(None, v) if isinstance(v, int) else v.p
        if k == 'ptrtoint':
            return PInt(self.opv(st, None, d[3], d[2]))
        if k == 'sub':
            a = self.opv(st, None, d[3], d[2]); b = self.opv(st, None, d[4], d[2])
            return self.int_bin(st, 'sub', d[2][1], a, b, ())
        if k == 'trunc':
            return self.opv(st, None, d[3], d[2])
        raise Unsupported('constexpr ' + k)

    # -- loads / stores
    def mo(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = st.mem[oid] = self.base_mem[oid]     # a global reached through another global
        return o

    def concretize(self, st, e, limit=80):
        """enumerate feasible values of int expr e; returns list of ints or raises"""
        vals = []
        self._sync(st.pc)
        self.solver.push()
        t0 = time.time()
        try:
            while True:
                self.stats.queries += 1
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported('concretize unknown')
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported('too many values for %s' % str(e)[:80])
                self.solver.add(e != v)
        finally:
            self.solver.pop()
            self.stats.time += time.time() - t0
        return sorted(vals)

    def load(self, st, p, t):
        if isinstance(p, FnPtr) or not isinstance(p, Ptr):
            raise Unsupported('load from %r' % (p,))
        if p.obj is None:
            raise UB('null deref')
        o = st.mem.get(p.obj)
        if o is None:
            o = self.mo(st, p.obj)
        size = llir.tsize(t)
        off = p.off
        if not isinstance(off, int):
            s = z3.simplify(off)
            if z3.is_int_value(s):
                off = s.as_long()
        if o.sym is not None:
            return self.load_sym(st, o, off, t)
        if isinstance(off, int):
            if isinstance(o.size, int) and (off < 0 or off + size > o.size):
                raise UB('load out of bounds %s+%d size %s' % (o.name, off, o.size))
            if o.fams:
                v = self.load_fam(st, o, off, t, size)
                if v is not None:
                    return v
            return self.load_at(st, o, off, t, size)
        if o.fams:
            v = self.load_fam(st, o, off, t, size)
            if v is not None:
                return v
        vals = self.concretize(st, off)
        if len(vals) == 1:
            st.pc.append(off == vals[0])
            return self.load(st, Ptr(p.obj, vals[0]), t)
        raise ForkInt(off, vals)

    def load_sym(self, st, o, off, t):
        if llir.tsize(t) != 8:
            raise Unsupported('partial load from symbolic array')
        if t[0] != 'f' and t[0] != 'i':
            raise Unsupported('sym load type')
        if isinstance(off, int):
            if off % 8:
                raise Unsupported('misaligned')
            q, r = divmod(off, 16)
            i = z3.IntVal(q)
            half = r // 8
        else:
            half = None
            for h in (0, 1):
                if self.must(st, (off - 8*h) % 16 == 0):
                    half = h
                    break
            if half is None:
                raise Unsupported('sym array alignment %s' % off)
            i = z3.simplify(div_exact(off - 8*half, 16))
        if isinstance(o.size, int):
            ok = self.must(st, z3.And(i >= 0, i*16 < o.size))
        else:
            ok = self.must(st, z3.And(i >= 0, i*16 < o.size))
        if not ok:
            if self.must(st, z3.Or(i < 0, i*16 >= o.size)):
                raise UB('symbolic array read out of bounds')
            st.info['unproved_bounds'] = st.info.get('unproved_bounds', 0) + 1
        r = mk('elem', o.sym + ('x' if half == 0 else 'w'), i)
        if t[0] == 'i':
            return FBits(r)
        return r

    def load_fam(self, st, o, off, t, size):
        for (tv, T, conds, foff, fsize, val) in reversed(o.fams):
            if fsize != size:
                raise Unsupported('family size')
            # foff linear in tv: solve foff(tv)=off
            s = z3.simplify(foff)
            t0 = z3.simplify(z3.substitute(s, (tv, z3.IntVal(0))))
            stride = z3.simplify(z3.substitute(s, (tv, z3.IntVal(1))) - t0)
            if not z3.is_int_value(stride):
                raise Unsupported('family stride')
            c = stride.as_long()
            if c == 0:
                if not (z3.is_int_value(T) and T.as_long() == 1):
                    raise Unsupported('family with a fixed offset %s of %s' % (s, o.name))
                hit = t0 == off
                if self.must(st, hit):
                    return val
                if self.feasible(st, hit):
                    raise ForkBool(hit)
                continue
            tt = div_exact(z3.simplify(z3.IntVal(off) - t0 if isinstance(off, int) else off - t0), c)
            tt = z3.simplify(tt)
            inr = z3.And(tt >= 0, tt < T, tt * c + t0 == off, *[z3.substitute(cd, (tv, tt)) for cd in conds])
            if self.must(st, inr):
                return subst_any(val, tv, tt)
            if self.feasible(st, inr):
                raise ForkBool(inr)
        return None

    def load_at(self, st, o, off, t, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], t)
        if c is None and o.zero and not self._overlap(o, off, size):
            return self.conv_bytes(bytes(size), t)
        # assemble from bytes
        if t[0] in ('a', 's'):
            return self.load_agg(st, o, off, t)
        bs = self.bytes_at(o, off, size)
        if bs is not None:
            return self.conv_bytes(bs, t)
        # sub-part of wider int cell / int from sym
        for co, (cs, cv) in o.cells.items():
            if co <= off and off + size <= co + cs and isinstance(cv, z3.ArithRef) and t[0] == 'i':
                sh = 8*(off-co)
                return z3.simplify((cv / (1 << sh)) % (1 << (8*size)))
        if not self._overlap(o, off, size):
            return UNDEF
        # combine parts: all-undef?
        if t[0] == 'i':
            parts = self._parts(o, off, size)
            if parts is not None:
                e = z3.IntVal(0)
                for po, pv in parts:
                    e = e + pv * (1 << (8*(po-off)))
                return z3.simplify(e)
        raise Unsupported('load mixed cell off=%d size=%d cells=%s' % (off, size, {k: v for k, v in list(o.cells.items())[:8]}))

    def _parts(self, o, off, size):
        pos = off
        out = []
        while pos < off + size:
            c = o.cells.get(pos)
            if c is None:
                return None
            if c[1] is UNDEF:
                out.append((pos, 0))
            elif isinstance(c[1], (int, z3.ArithRef)):
                out.append((pos, c[1]))
            else:
                return None
            pos += c[0]
        return out if pos == off + size else None

    def _overlap(self, o, off, size):
        return o.cells.over(off, size)

    def load_agg(self, st, o, off, t):
        if t[0] == 'a':
            es = llir.tsize(t[2])
            return [self.load_at(st, o, off + i*es, t[2], es) for i in range(t[1])]
        return [self.load_at(st, o, off + llir.field_offset(t, i), x, llir.tsize(x)) for i, x in enumerate(t[1])]

    def bytes_at(self, o, off, size):
        c = o.cells.get(off)
        if c is None or not isinstance(c[1], bytes):
            # find container
            hit = None
            ov = o.cells.over(off, size)
            for co in ov:
                cs, cv = o.cells[co]
                if co <= off and off + size <= co + cs:
                    hit = (co, cs, cv)
                    break
            if hit is None:
                out = bytearray(size)
                filled = [False]*size
                for co in ov:
                        cs, cv = o.cells[co]
                        b = val_bytes(cv, cs)
                        if b is None:
                            return None
                        for i in range(cs):
                            j = co + i - off
                            if 0 <= j < size:
                                out[j] = b[i]; filled[j] = True
                if all(filled) or (o.zero and any(filled)):
                    return bytes(out)
                return None
            co, cs, cv = hit
            b = val_bytes(cv, cs)
            if b is None:
                return None
            return b[off-co:off-co+size]
        b = c[1]
        if c[0] >= size:
            return b[:size]
        return None

    def conv_bytes(self, b, t):
        k = t[0]
        if k == 'i':
            return int.from_bytes(b, 'little') & ((1 << t[1]) - 1)
        if k == 'f':
            return struct.unpack('<d' if t[1] == 64 else '<f', b)[0]
        if k == 'p':
            return Ptr(None, int.from_bytes(b, 'little'))
        if k == 'a':
            es = llir.tsize(t[2])
            return [self.conv_bytes(b[i*es:(i+1)*es], t[2]) for i in range(t[1])]
        if k == 's':
            return [self.conv_bytes(b[llir.field_offset(t, i):llir.field_offset(t, i)+llir.tsize(x)], x) for i, x in enumerate(t[1])]
        raise Unsupported('conv %r' % (t,))

    def conv(self, v, t):
        k = t[0]
        if v is UNDEF:
            return v
        if isinstance(v, bytes):
            return self.conv_bytes(v, t)
        if k == 'i':
            if isinstance(v, float):
                return fbits(v) if t[1] == 64 else struct.unpack('<I', struct.pack('<f', v))[0]
            if isinstance(v, R):
                return FBits(v)
            if isinstance(v, FPv):
                return FBits(v)
            if isinstance(v, Ptr):
                return v.off if v.obj is None and isinstance(v.off, int) else PInt(v)
            if t[1] == 1 and isinstance(v, z3.ArithRef):
                return v % 2 == 1
            if t[1] > 1 and isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if k == 'f':
            if isinstance(v, int):
                return bitsf(v) if t[1] == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
            if isinstance(v, FBits) and v.kind == 'id':
                return v.r
            if isinstance(v, (float, R, FPv)):
                return v
        if k == 'p':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, PInt):
                return v.p
        raise Unsupported('conv %r to %r' % (v, t))

    def store(self, st, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % (p,))
        if p.obj is None:
            raise UB('null store')
        size = llir.tsize(t)
        off = p.off
        o = st.wobj(p.obj)
        if not isinstance(off, int):
            s = z3.simplify(off)
            if z3.is_int_value(s):
                off = s.as_long()
        if not isinstance(off, int):
            if st.info.get('in_loop'):
                st.info.setdefault('fam_writes', [])
                st.info['fam_writes'] = st.info['fam_writes'] + [(p.obj, off, size, v)]
                return
            vals = self.concretize(st, off, 40) if isinstance(o.size, int) else None
            if vals is None or len(vals) > 40:
                o.fams.append((z3.Int('one!t'), z3.IntVal(1), [], off, size, v))
                return
            if len(vals) == 1:
                st.pc.append(off == vals[0])
                return self.store(st, Ptr(p.obj, vals[0]), t, v)
            raise ForkInt(off, vals)
        if isinstance(o.size, int) and (off < 0 or off + size > o.size):
            raise UB('store out of bounds')
        if o.sym is not None:
            raise Unsupported('store to symbolic array')
        if o.fams:
            # keep order: a later concrete store shadows families
            o.fams.append((z3.Int('one!t'), z3.IntVal(1), [], z3.IntVal(off), size, v))
            return
        if st.info.get('in_loop') and isinstance(p.off, int):
            pass
        self.put(o, off, size, v, t)

    def put(self, o, off, size, v, t=None):
        if isinstance(v, list):
            if t is None:
                raise Unsupported('agg store')
            if t[0] == 'a':
                es = llir.tsize(t[2])
                for i, x in enumerate(v):
                    self.put(o, off+i*es, es, x, t[2])
            else:
                for i, x in enumerate(v):
                    self.put(o, off + llir.field_offset(t, i), llir.tsize(t[1][i]), x, t[1][i])
            return
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        for co in self._overlap(o, off, size):
            cs, cv = o.cells[co]
            if co >= off and co + cs <= off + size:
                del o.cells[co]
                continue
            b = val_bytes(cv, cs)
            if b is None:
                if cv is UNDEF:
                    del o.cells[co]
                    continue
                raise Unsupported('partial overwrite of symbolic cell')
            del o.cells[co]
            if co < off:
                o.cells[co] = (off-co, b[:off-co])
            if co + cs > off + size:
                o.cells[off+size] = (co+cs-off-size, b[off+size-co:])

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            n2 = z3.simplify(n)
            if z3.is_int_value(n2):
                return self.memcpy(st, d, s, n2.as_long())
            so = self.mo(st, s.obj)
            do = self.mo(st, d.obj)
            if self.must(st, n == 0):
                return
            if isinstance(s.off, int) and isinstance(d.off, int) and s.off == 0 and d.off == 0 and not do.cells and not do.fams and do.sym is None:
                if self.must(st, n == so.size):
                    do = st.wobj(d.obj)
                    do.cells = Cells(so.cells); do.zero = so.zero; do.fams = list(so.fams); do.sym = so.sym
                    return
            vals = self.concretize(st, n)
            if len(vals) == 1:
                st.pc.append(n == vals[0])
                return self.memcpy(st, d, s, vals[0])
            raise ForkInt(n, vals)
        so = self.mo(st, s.obj)
        if s.obj == d.obj and isinstance(s.off, int) and s.off == d.off:
            return
        if not isinstance(s.off, int) or not isinstance(d.off, int):
            for p in (s, d):
                if not isinstance(p.off, int):
                    x = z3.simplify(p.off)
                    if z3.is_int_value(x):
                        p.off = x.as_long()
                        continue
                    # element-wise 8-byte copy when symbolic source is array-like
                    if n in (8, 16) and so.sym is not None and p is s and isinstance(d.off, int):
                        vs = [self.load(st, Ptr(s.obj, s.off + k), ('f', 64)) for k in range(0, n, 8)]
                        for k, v in enumerate(vs):
                            self.store(st, Ptr(d.obj, d.off + 8*k), ('f', 64), v)
                        return
                    vals = self.concretize(st, p.off)
                    if len(vals) == 1:
                        st.pc.append(p.off == vals[0])
                        p.off = vals[0]
                    else:
                        raise ForkInt(p.off, vals)
        if so.sym is not None or so.fams:
            if isinstance(so.size, int) and s.off == 0 and n == so.size and d.off == 0:
                do = st.wobj(d.obj)
                do.cells = Cells(so.cells); do.zero = so.zero; do.fams = list(so.fams); do.sym = so.sym
                return
            for k in range(0, n, 8):
                v = self.load(st, Ptr(s.obj, s.off + k), ('f', 64))
                self.store(st, Ptr(d.obj, d.off + k), ('f', 64), v)
            return
        if isinstance(so.size, int) and s.off + n > so.size:
            raise UB('memcpy read oob')
        do0 = self.mo(st, d.obj)
        if isinstance(do0.size, int) and d.off + n > do0.size:
            raise UB('memcpy write oob')
        items = []
        for co, (cs, cv) in so.cells.items():
            if co < s.off + n and s.off < co + cs:
                if co >= s.off and co + cs <= s.off + n:
                    items.append((co - s.off, cs, cv))
                else:
                    b = val_bytes(cv, cs)
                    if b is None:
                        if cv is UNDEF:
                            continue
                        raise Unsupported('memcpy splits symbolic cell')
                    lo = max(co, s.off); hi = min(co+cs, s.off+n)
                    items.append((lo - s.off, hi-lo, b[lo-co:hi-co]))
        do = st.wobj(d.obj)
        # clear destination
        if n:
            self.clear(do, d.off, n)
        if so.zero and not items:
            do.cells[d.off] = (n, bytes(n))
        elif so.zero:
            filled = sorted((o_, z_) for o_, z_, _ in items)
            pos = 0
            for o_, z_ in filled:
                if o_ > pos:
                    do.cells[d.off+pos] = (o_-pos, bytes(o_-pos))
                pos = o_ + z_
            if pos < n:
                do.cells[d.off+pos] = (n-pos, bytes(n-pos))
        for o_, z_, v_ in items:
            do.cells[d.off + o_] = (z_, v_)

    # ------------------------------------------------------------ operands
    def opv(self, st, fr, d, t):
        k = d[0]
        if k == 'l':
            try:
                return fr.env[d[1]]
            except KeyError:
                return UNDEF
        if k == 'c':
            v = d[1]
            if isinstance(v, tuple):
                if v[0] == 'null':
                    return Ptr(None, 0)
                if v[0] == 'undef':
                    if t[0] == 's':
                        return [UNDEF]*len(t[1])
                    if t[0] == 'a':
                        return [UNDEF]*t[1]
                    return UNDEF
                if v[0] == 'zero':
                    return self.zero_of(t)
                raise Unsupported('const %r' % (v,))
            return v
        if k == 'g':
            return self.gptr(st, d[1])
        if k == 'expr':
            return self.const_expr(st, d)
        if k == 'agg':
            return [self.opv(st, fr, x, et) for x, et in zip(d[2], d[3])]
        raise Unsupported('operand %r' % (d,))

    def zero_of(self, t):
        k = t[0]
        if k == 'i':
            return 0
        if k == 'f':
            return 0.0
        if k == 'p':
            return Ptr(None, 0)
        if k == 's':
            return [self.zero_of(x) for x in t[1]]
        if k == 'a':
            return [self.zero_of(t[2])]*t[1]
        raise Unsupported('zero')

    def gep(self, st, bt, base, idx):
        if isinstance(base, FnPtr) or not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        first = True
        for it, iv in idx:
            if first:
                es = llir.tsize(t)
                first = False
            elif t[0] == 'a':
                t = t[2]
                es = llir.tsize(t)
            elif t[0] == 's':
                off = off + llir.field_offset(t, iv)
                t = t[1][iv]
                continue
            else:
                raise Unsupported('gep type')
            if isinstance(iv, int):
                w = it[1]
                if iv >= 1 << (w-1):
                    iv -= 1 << w
                if isinstance(off, int):
                    off = off + iv*es
                elif iv:
                    off = z3.simplify(off + iv*es)
            elif isinstance(iv, z3.ArithRef):
                iv = self.to_signed(st, iv, it[1])
                off = z3.simplify(off + iv*es)
            elif isinstance(iv, z3.BoolRef):
                off = z3.simplify(off + z3.If(iv, z3.IntVal(es), z3.IntVal(0)))
            elif isinstance(iv, PInt) and base.obj is None and es == 1:
                # null + ptrtoint
                p = iv.p
                return Ptr(p.obj, p.off + off)
            else:
                raise Unsupported('gep index %r' % (iv,))
        return Ptr(base.obj, off)

    def to_signed(self, st, e, w):
        if self.must(st, e < (1 << (w-1))):
            return e
        if self.must(st, e >= (1 << (w-1))):
            return e - (1 << w)
        return z3.If(e >= (1 << (w-1)), e - (1 << w), e)

    # ------------------------------------------------------------ ints
    def wrap(self, st, e, w, flags=()):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long() % (1 << w)
        M = 1 << w
        if 'nuw' in flags:
            return e
        if self.must(st, z3.And(e >= 0, e < M)):
            return e
        if self.must(st, z3.And(e >= M, e < 2*M)):
            return e - M
        if self.must(st, z3.And(e < 0, e >= -M)):
            return e + M
        return e % M

    def int_bin(self, st, op, w, a, b, flags):
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                s = a - (1 << w) if a >> (w-1) else a
                return (s >> b) & M
            if op == 'udiv':
                if b == 0:
                    raise UB('udiv 0')
                return a // b
            if op == 'urem':
                if b == 0:
                    raise UB('urem 0')
                return a % b
            sa = a - (1 << w) if a >> (w-1) else a
            sb = b - (1 << w) if b >> (w-1) else b
            if op == 'sdiv':
                q = abs(sa)//abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & M
            if op == 'srem':
                q = abs(sa) % abs(sb)
                return (q if sa >= 0 else -q) & M
            raise Unsupported(op)
        if w == 1:
            A = tobool(a)
            B = tobool(b)
            if op == 'and' or op == 'mul':
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                if b == 1 and isinstance(b, int):
                    return simp(z3.Not(A))
                if a == 1 and isinstance(a, int):
                    return simp(z3.Not(B))
                return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.fbits_bin(st, op, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj == b.p.obj:
                    x, y = a.p.off, b.p.off
                    if isinstance(x, int) and isinstance(y, int):
                        return (x - y) & M
                    return self.wrap(st, x - y, w)
                raise Unsupported('ptr diff across objects')
            if op == 'and' and isinstance(a, PInt) and isinstance(b, int) and b < 16 and isinstance(a.p.off, int):
                return a.p.off & b
            if op in ('add', 'sub') and isinstance(a, PInt) and isinstance(b, (int, z3.ArithRef)):
                o = a.p.off + b if op == 'add' else a.p.off - b
                return PInt(Ptr(a.p.obj, o & M if isinstance(o, int) and o < 0 and False else o))
            raise Unsupported('ptr int op ' + op)
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        half = 1 << (w-1)
        if op == 'add':
            if isinstance(b, int) and b >= half:
                return self.wrap(st, a + (b - M - 1), w)
            if isinstance(a, int) and a >= half:
                return self.wrap(st, b + (a - M - 1), w)
            return self.wrap(st, a + b, w, flags)
        if op == 'sub':
            return self.wrap(st, a - b, w, flags)
        if op == 'mul':
            if isinstance(b, int) and b >= half:
                return self.wrap(st, a * (b - M - 1), w)
            return self.wrap(st, a * b, w, flags)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, a * (1 << b), w, flags)
        if op == 'lshr' and isinstance(b, int):
            return simp_i(div_exact(a, 1 << b) if 'exact' in flags else a / (1 << b))
        if op == 'udiv':
            if isinstance(b, int):
                return simp_i(div_exact(a, b) if 'exact' in flags else a / b)
            return a / b
        if op == 'urem':
            return simp_i(a % b)
        if op == 'and' and isinstance(b, int):
            if b == 0:
                return 0
            if b & (b+1) == 0:
                return simp_i(a % (b + 1))
            low = M ^ b
            if low & (low+1) == 0:
                return simp_i(a - a % (low + 1))
            if b & (b-1) == 0:
                return simp_i(((a / b) % 2) * b)
        if op == 'and' and isinstance(a, int):
            return self.int_bin(st, op, w, b, a, flags)
        if op == 'or' and 'disjoint' in flags:
            return self.wrap(st, a + b, w, ('nuw',))
        if op == 'or' and isinstance(b, int) and b == 0:
            return a
        if op == 'xor' and isinstance(b, int) and b == M:
            return simp_i(M - a)
        if op == 'or' and isinstance(b, int) and b == 1:
            return simp_i(z3.If(a % 2 == 1, a, a + 1))
        if op == 'xor' and isinstance(b, int) and b == 1:
            return simp_i(z3.If(a % 2 == 1, a - 1, a + 1))
        if op == 'ashr' and isinstance(b, int):
            s = self.to_signed(st, a, w)
            return self.wrap(st, s / (1 << b), w)
        if op in ('sdiv', 'srem') and isinstance(b, int) and 0 < b < half and self.must(st, a < half):
            return simp_i(a / b if op == 'sdiv' else a % b)
        A = z3.Int2BV(a if not isinstance(a, int) else z3.IntVal(a), w)
        B = z3.Int2BV(b if not isinstance(b, int) else z3.IntVal(b), w)
        f = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B,
             'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B, 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return z3.BV2Int(f, False)

    def fbits_bin(self, st, op, a, b):
        if isinstance(a, FBits) and isinstance(b, int):
            if op == 'ashr' and b == 63 and a.kind == 'id':
                return FBits(a.r, 'sign')
            if op == 'lshr' and b == 1 and a.kind == 'sign':
                return FBits(a.r, 'lsign')
            if op == 'lshr' and b == 63 and a.kind == 'id':
                return FBits(a.r, 'sbit')
            if op == 'and' and b == (1 << 63) - 1:
                if a.kind == 'id':
                    return FBits(self.fabs(a.r), 'id')
                if a.kind == 'sign':
                    return FBits(a.r, 'lsign')
            if op == 'xor' and b == 1 << 63 and a.kind == 'id':
                return FBits(self.fneg(a.r), 'id')
        if op == 'xor' and isinstance(a, FBits) and isinstance(b, FBits) and a.r is b.r and {a.kind, b.kind} == {'id', 'lsign'}:
            return FBits(a.r, 'key')
        if isinstance(b, FBits) and isinstance(a, int) and op in ('and', 'xor'):
            return self.fbits_bin(st, op, b, a)
        if isinstance(a, FBits) and isinstance(a.r, FPv):
            raise Unsupported('fp bits op')
        raise Unsupported('float-bit op %s %s' % (op, getattr(a, 'kind', a)))

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                w = t[1]
                if a >> (w-1):
                    a -= 1 << w
                if b >> (w-1):
                    b -= 1 << w
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if a is UNDEF or b is UNDEF:
            raise Unsupported('icmp undef')
        if t[0] == 'p' or isinstance(a, (Ptr, FnPtr, PInt)) or isinstance(b, (Ptr, FnPtr, PInt)):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.fbcmp(st, pred, a, b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                return simp(A == B)
            if pred == 'ne':
                return simp(A != B)
            if pred == 'ult':
                return simp(z3.And(z3.Not(A), B))
            if pred == 'ugt':
                return simp(z3.And(A, z3.Not(B)))
            raise Unsupported('bool cmp ' + pred)
        if pred[0] == 's' and t[0] == 'i':
            w = t[1]
            a = self.to_signed(st, a, w) if not isinstance(a, int) else (a - (1 << w) if a >> (w-1) else a)
            b = self.to_signed(st, b, w) if not isinstance(b, int) else (b - (1 << w) if b >> (w-1) else b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                     'gt': lambda: a > b, 'ge': lambda: a >= b}[p]())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(same) if pred == 'eq' else int(not same)
        if a.obj == b.obj:
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int):
                return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y,
                         'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]())
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        if b.obj is None and isinstance(b.off, int) and b.off < 4096:
            return int(pred in ('ugt', 'uge'))
        if a.obj is None and isinstance(a.off, int) and a.off < 4096:
            return int(pred in ('ult', 'ule'))
        raise Unsupported('pointer order across objects')

    def fbcmp(self, st, pred, a, b):
        def real(x, kind):
            if isinstance(x, FBits):
                if x.kind != kind:
                    raise Unsupported('float bits cmp')
                return x.r
            # concrete integer
            if kind == 'key':
                s = x - (1 << 64) if x >> 63 else x
                i = s ^ (((s >> 63) & (2**64-1)) >> 1)
                return bitsf(i & (2**64-1))
            return bitsf(x)
        kinds = {x.kind for x in (a, b) if isinstance(x, FBits)}
        if kinds == {'key'}:
            x, y = real(a, 'key'), real(b, 'key')
            if isinstance(x, FPv) or isinstance(y, FPv):
                x, y = fpv(x), fpv(y)
                if not self.must(st, z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))):
                    raise Unsupported('total order of what may be NaN')
                z = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
                lt = lambda x, y: z3.Or(z3.fpLT(x, y), z3.And(z, z3.fpIsNegative(x), z3.fpIsPositive(y)))
                return simp({'slt': lambda: lt(x, y), 'sle': lambda: z3.Not(lt(y, x)), 'sgt': lambda: lt(y, x), 'sge': lambda: z3.Not(lt(x, y)), 'eq': lambda: x == y, 'ne': lambda: x != y}[pred]())
            p = {'slt': 'olt', 'sle': 'ole', 'sgt': 'ogt', 'sge': 'oge', 'eq': 'oeq', 'ne': 'une'}[pred]
            return self.fcmp(st, p, x, y)
        if kinds == {'id'} and isinstance(b, int) and isinstance(a, FBits) and isinstance(a.r, FPv) and (pred, b) in (('slt', 0), ('sgt', 2**64-1)):
            if not self.must(st, z3.Not(z3.fpIsNaN(a.r.e))):
                raise Unsupported('sign of what may be NaN')
            c = z3.fpIsNegative(a.r.e)
            return simp(c if pred == 'slt' else z3.Not(c))
        if kinds == {'id'} and isinstance(b, int):
            if pred == 'slt' and b == 0:
                return self.fcmp(st, 'olt', a.r, 0.0)
            if pred == 'sgt' and b == 2**64-1:
                return self.fcmp(st, 'oge', a.r, 0.0)
        if kinds == {'id'} and pred in ('eq', 'ne'):
            x, y = real(a, 'id'), real(b, 'id')
            if isinstance(x, FPv) or isinstance(y, FPv):
                c = fpv(x) == fpv(y)    # structural equality of FP values (all NaN identified)
                return simp(c if pred == 'eq' else z3.Not(c))
            return self.fcmp(st, 'oeq' if pred == 'eq' else 'une', x, y)
        raise Unsupported('float bits cmp %s %s' % (pred, kinds))

    # ------------------------------------------------------------ floats
    def fneg(self, a):
        if isinstance(a, float):
            return -a
        if isinstance(a, FPv):
            return FPv(z3.fpNeg(a.e))
        return mk('neg', a)

    def fabs(self, a):
        if isinstance(a, float):
            return abs(a)
        if isinstance(a, FPv):
            return FPv(z3.fpAbs(a.e))
        return mk('abs', a)

    def fbin(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b == 0:
                    if a == 0 or a != a:
                        return float('nan')
                    return math.copysign(float('inf'), a) * math.copysign(1.0, b)
                return a / b
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, FPv) or isinstance(b, FPv):
            if isinstance(a, R) or isinstance(b, R):
                raise Unsupported('mixed float modes')
            x, y = fpv(a), fpv(b)
            if op == 'frem':
                raise Unsupported('frem')
            return FPv({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, x, y))
        if not isinstance(a, (float, R)) or not isinstance(b, (float, R)):
            raise Unsupported('fbin %r %r' % (a, b))
        # exact neutral elements (sum() starts at -0.0)
        if op == 'fadd':
            if isinstance(a, float) and a == 0.0:
                return b
            if isinstance(b, float) and b == 0.0:
                return a
        return mk({'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], const(a), const(b))

    def toint(self, v, kind='trunc'):
        if v.op == 'i2r':
            return v.a[0]
        z = self.Z(v)
        if kind == 'floor':
            return z3.ToInt(z)
        if kind == 'ceil':
            return -z3.ToInt(-z)
        if kind == 'round':
            z = z3.If(z >= 0, z + z3.Q(1, 2), z - z3.Q(1, 2))
        return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))

    def fp2int(self, st, v, w, signed, sat):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        e = self.toint(v)
        if not self.must(st, z3.And(e >= lo, e <= hi)):
            if not sat:
                raise Unsupported('conversion of a real out of the range of the integer')
            e = z3.If(e < lo, z3.IntVal(lo), z3.If(e > hi, z3.IntVal(hi), e))
        return simp_i(z3.If(e < 0, e + (1 << w), e)) if signed and not self.must(st, e >= 0) else simp_i(e)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if pred == 'true':
                return 1
            if pred == 'false':
                return 0
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if un:
                return int(pred[0] == 'u')
            c = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[c])
        if isinstance(a, FPv) or isinstance(b, FPv):
            x, y = fpv(a), fpv(b)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if pred == 'ord':
                return simp(z3.Not(un))
            if pred == 'uno':
                return simp(un)
            c = pred[1:]
            e = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'lt': lambda: z3.fpLT(x, y),
                 'le': lambda: z3.fpLEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}[c]()
            if pred == 'one':
                return simp(z3.And(e, z3.Not(un)))
            if pred == 'une':
                return simp(e)
            if pred[0] == 'u':
                return simp(z3.Or(un, e))
            return simp(e)
        if pred == 'ord' or pred == 'uno':
            for x in (a, b):
                if isinstance(x, float) and x != x:
                    return int(pred == 'uno')
            self.assumed.add('no NaN arises in real-number mode')
            return int(pred == 'ord')
        for x, flip in ((a, False), (b, True)):
            if isinstance(x, float) and (x != x or abs(x) == float('inf')):
                if x != x:
                    return int(pred[0] == 'u')
                self.assumed.add('symbolic floats are finite in real-number mode')
                big = x > 0
                c = pred[1:]
                lt = (not flip and not big) or (flip and big)    # a<b ?
                if c == 'eq':
                    return 0
                if c == 'ne':
                    return 1
                return int(lt if c in ('lt', 'le') else not lt)
        x, y = self.Z(const(a)), self.Z(const(b))
        c = pred[1:]
        return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                     'gt': lambda: x > y, 'ge': lambda: x >= y}[c]())

    # ------------------------------------------------------------ running
    def start(self, fname, args, st=None):
        fn = self.mod.funcs['@' + fname] if not fname.startswith('@') else self.mod.funcs[fname]
        fn.parse()
        self.stats.funcs.add(fn.name)
        st = st or State()
        fr = Frame(fn)
        for (t, nm), v in zip(fn.params, args):
            fr.env[nm] = v
        st.frames.append(fr)
        return st

    def run(self, st, limit_paths=None):
        """explore all paths from st; yields Out (also the panics found inside summarised loops)"""
        top = st.stops is None
        yield from self._run(st)
        if top:
            while self.pending_outs:
                yield self.pending_outs.pop()

    def _run(self, st):
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            try:
                r = self.step_until(s, work)
            except UB as e:
                r = Out('ub', s, msg=str(e))
            except ForkInt as f:
                # re-execute the faulting instruction under each value
                s.frames[-1].idx -= 1
                for v in f.vals[1:]:
                    n = s.fork()
                    n.pc.append(f.e == v)
                    work.append(n)
                s.pc.append(f.e == f.vals[0])
                s.owned = set()
                work.append(s)
                continue
            except ForkBool as f:
                s.frames[-1].idx -= 1
                n = s.fork()
                n.pc.append(z3.Not(f.c))
                s.pc.append(f.c)
                work.append(n)
                work.append(s)
                continue
            if r is None:
                continue
            npaths += 1
            self.stats.paths += 1
            if npaths > self.max_paths:
                raise Unsupported('too many paths')
            yield r

    def goto(self, st, fr, target, work):
        """transfer to block target; returns Out if the path ends here (loop stops), None otherwise"""
        prev = fr.block
        depth = len(st.frames)
        if st.stops is not None and st.stops[0] == depth and st.stops[3] is fr.fn:
            _, header, body, _f = st.stops
            if target == header:
                self.phis(st, fr, prev, target)
                return Out('back', st)
            if target not in body:
                self.phis(st, fr, prev, target)
                return Out('exit', st)
        for (d, h, body, fn) in st.prune:
            if d == depth and fn is fr.fn and h == target and prev in body:
                return Out('pruned', st)
        loops = fr.fn.get_loops() if self.summarize else None
        if self.summarize and target in loops and prev not in loops[target]:
            # drop stale prune marks for this loop
            st.prune = [x for x in st.prune if not (x[0] == depth and x[1] == target and x[3] is fr.fn)]
            self.phis(st, fr, prev, target)
            outs = self.try_summarize(st, fr.fn, target, loops[target], work)
            if outs is not None:
                return outs
            return None
        self.phis(st, fr, prev, target)
        return None

    def phis(self, st, fr, prev, target):
        ins = fr.fn.blocks[target]
        env = fr.env
        vals = []
        i = 0
        for x in ins:
            if x[0] != 'phi':
                break
            vals.append((x[1], self.opv(st, fr, x[3][prev], x[2])))
            i += 1
        for k, v in vals:
            env[k] = v
        fr.prev = prev
        fr.block = target
        fr.ins = ins
        fr.idx = i

    def step_until(self, st, work):
        stats = self.stats
        opv = self.opv
        while True:
            fr = st.frames[-1]
            env = fr.env
            ins = fr.ins[fr.idx]
            fr.idx += 1
            st.steps += 1
            stats.ins += 1
            if st.steps > self.max_steps:
                raise Unsupported('step limit')
            if self.deadline and (stats.ins & 1023) == 0 and time.time() > self.deadline:
                raise Unsupported('deadline')
            op = ins[0]
            if op == 'gep':
                env[ins[1]] = self.gep(st, ins[2], opv(st, fr, ins[3], ('p',)), [(t, opv(st, fr, v, t)) for t, v in ins[4]])
            elif op == 'load':
                env[ins[1]] = self.load(st, opv(st, fr, ins[3], ('p',)), ins[2])
            elif op == 'store':
                self.store(st, opv(st, fr, ins[4], ('p',)), ins[2], opv(st, fr, ins[3], ins[2]))
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                if op == 'frem':
                    a = opv(st, fr, ins[3], ins[2]); b = opv(st, fr, ins[4], ins[2])
                    env[ins[1]] = math.fmod(a, b) if isinstance(a, float) and isinstance(b, float) else mk('rem', const(a), const(b))
                else:
                    env[ins[1]] = self.fbin(op, opv(st, fr, ins[3], ins[2]), opv(st, fr, ins[4], ins[2]))
            elif op == 'icmp':
                env[ins[1]] = self.icmp(st, ins[5], ins[2], opv(st, fr, ins[3], ins[2]), opv(st, fr, ins[4], ins[2]))
            elif op == 'br':
                c = opv(st, fr, ins[2], ('i', 1))
                if isinstance(c, int):
                    r = self.goto(st, fr, ins[3] if c else ins[4], work)
                else:
                    if c is UNDEF:
                        raise Unsupported('branch on undef')
                    ft = self.feasible(st, c)
                    ff = self.feasible(st, z3.Not(c)) if ft else True
                    if ft and ff:
                        o = st.fork()
                        o.pc.append(z3.Not(c))
                        of = o.frames[-1]
                        st.pc.append(c)
                        # park the other branch: re-enter via a jump
                        r2 = Jump(o, ins[4])
                        self.park(o, ins[4], work)
                        r = self.goto(st, fr, ins[3], work)
                    elif ft:
                        st.pc.append(c)
                        r = self.goto(st, fr, ins[3], work)
                    else:
                        st.pc.append(z3.Not(c))
                        r = self.goto(st, fr, ins[4], work)
                if r is not None:
                    if r.kind == 'pruned':
                        return None
                    if r.kind == 'forked':
                        return None
                    return r
            elif op == 'jmp':
                r = self.goto(st, fr, ins[2], work)
                if r is not None:
                    if r.kind in ('pruned', 'forked'):
                        return None
                    return r
            elif op == 'goto_parked':
                r = self.goto(st, fr, ins[1], work)
                if r is not None:
                    if r.kind in ('pruned', 'forked'):
                        return None
                    return r
            elif op in llir.BINOPS:
                env[ins[1]] = self.int_bin(st, op, ins[2][1], opv(st, fr, ins[3], ins[2]), opv(st, fr, ins[4], ins[2]), ins[5])
            elif op == 'call':
                r = self.call(st, fr, ins, work)
                if r is not None:
                    return r
            elif op == 'select':
                c = opv(st, fr, ins[3], ('i', 1))
                if isinstance(c, int):
                    env[ins[1]] = opv(st, fr, ins[4] if c else ins[5], ins[2])
                else:
                    env[ins[1]] = self.select(st, c, opv(st, fr, ins[4], ins[2]), opv(st, fr, ins[5], ins[2]), ins[2])
            elif op == 'fcmp':
                env[ins[1]] = self.fcmp(st, ins[5], opv(st, fr, ins[3], ins[2]), opv(st, fr, ins[4], ins[2]))
            elif op in llir.CASTS:
                env[ins[1]] = self.cast(st, op, ins[2], opv(st, fr, ins[3], ins[2]), ins[4], ins[5])
            elif op == 'alloca':
                oid = self.new_obj(st, llir.tsize(ins[2]), 'stack')
                env[ins[1]] = Ptr(oid, 0)
            elif op == 'extractvalue':
                v = opv(st, fr, ins[2], None)
                for i in ins[3]:
                    v = v[i]
                env[ins[1]] = v
            elif op == 'insertvalue':
                v = opv(st, fr, ins[3], ins[2])
                w = opv(st, fr, ins[4], ('i', 64))
                if v is UNDEF:
                    v = [UNDEF]*len(ins[2][1])
                env[ins[1]] = ins_val(v, ins[5], w)
            elif op == 'fneg':
                env[ins[1]] = self.fneg(opv(st, fr, ins[3], ins[2]))
            elif op == 'ret':
                v = opv(st, fr, ins[3], ins[2]) if ins[2] is not None else None
                if len(st.frames) == 1:
                    return Out('ret', st, v)
                st.frames.pop()
                up = st.frames[-1]
                if fr.dst is not None:
                    up.env[fr.dst] = v
                if st.prune:
                    st.prune = [x for x in st.prune if x[0] <= len(st.frames)]
            elif op == 'switch':
                v = opv(st, fr, ins[3], ins[2])
                if isinstance(v, int):
                    tgt = ins[4]
                    for cv, l in ins[5]:
                        if cv == v:
                            tgt = l
                            break
                    r = self.goto(st, fr, tgt, work)
                else:
                    if isinstance(v, z3.BoolRef):
                        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                    if not isinstance(v, z3.ArithRef):
                        raise Unsupported('switch on %r' % (v,))
                    alts = [(v == cv, l) for cv, l in ins[5]]
                    alts.append((z3.And([v != cv for cv, _ in ins[5]]) if ins[5] else z3.BoolVal(True), ins[4]))
                    alts = [(c, l) for c, l in alts if self.feasible(st, c)]
                    if not alts:
                        return None
                    for c, l in alts[1:]:
                        o = st.fork()
                        o.pc.append(c)
                        self.park(o, l, work)
                    st.pc.append(alts[0][0])
                    r = self.goto(st, fr, alts[0][1], work)
                if r is not None:
                    if r.kind in ('pruned', 'forked'):
                        return None
                    return r
            elif op == 'unreachable':
                return Out('ub', st, msg='unreachable executed')
            elif op == 'freeze':
                v = opv(st, fr, ins[3], ins[2])
                env[ins[1]] = v
            elif op == 'nop':
                pass
            else:
                raise Unsupported('instruction %s' % (ins,))

    def park(self, o, target, work):
        f = o.frames[-1]
        f.ins = [('goto_parked', target)]
        f.idx = 0
        work.append(o)

    def select(self, st, c, a, b, t):
        if a is b:
            return a
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if t == ('i', 1):
            return simp(z3.If(c, tobool(a), tobool(b)))
        num = (int, z3.ArithRef)
        if isinstance(a, num) and isinstance(b, num):
            return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)
        if isinstance(a, (FPv, float)) and isinstance(b, (FPv, float)) and (isinstance(a, FPv) or isinstance(b, FPv)):
            return FPv(z3.If(c, fpv(a), fpv(b)))
        if self.must(st, c):
            return a
        if self.must(st, z3.Not(c)):
            return b
        raise ForkBool(c)

    def cast(self, st, op, t, v, t2, flags=()):
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if op == 'sext':
            w, w2 = t[1], t2[1]
            if isinstance(v, int):
                return v | (((1 << w2) - 1) ^ ((1 << w) - 1)) if v >> (w-1) else v
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal((1 << w2)-1), z3.IntVal(0))
            if self.must(st, v < (1 << (w-1))):
                return v
            return z3.If(v >= (1 << (w-1)), v + ((1 << w2) - (1 << w)), v)
        if op == 'trunc':
            w2 = t2[1]
            if isinstance(v, int):
                return v & ((1 << w2) - 1)
            if isinstance(v, FBits):
                if v.kind == 'sbit' and w2 >= 1:
                    c = self.fcmp(st, 'olt', v.r, 0.0)
                    return c if w2 == 1 else (c if isinstance(c, int) else z3.If(c, z3.IntVal(1), z3.IntVal(0)))
                raise Unsupported('trunc float bits')
            if isinstance(v, PInt):
                raise Unsupported('trunc ptr')
            if w2 == 1:
                return simp(v % 2 == 1)
            if 'nuw' in flags or self.must(st, v < (1 << w2)):
                return v
            return simp_i(v % (1 << w2))
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                if op == 'sitofp' and v >> (t[1]-1):
                    v -= 1 << t[1]
                return float(v) if t2[1] == 64 else struct.unpack('<f', struct.pack('<f', float(v)))[0]
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, FBits):
                raise Unsupported('uitofp bits')
            if op == 'sitofp':
                v = self.to_signed(st, v, t[1])
            if self.fmode == 'fp':
                raise Unsupported('uitofp in fp mode')
            r = term.i2r(simp_i(v)) if not isinstance(simp_i(v), int) else float(simp_i(v))
            if isinstance(r, float):
                return r
            if t2[1] == 32:
                return mk('f32', r)
            return r
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            if isinstance(v, float):
                return struct.unpack('<f', struct.pack('<f', v))[0]
            if isinstance(v, R):
                return mk('f32', v)
            raise Unsupported('fptrunc')
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, float):
                return int(v) & ((1 << t2[1]) - 1)
            if isinstance(v, R):
                return self.fp2int(st, v, t2[1], op == 'fptosi', False)
            raise Unsupported('fptoui')
        if op == 'ptrtoint' or op == 'ptrtoaddr':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            return Ptr(None, v)
        if op == 'bitcast':
            if t[0] == t2[0]:
                return v
            return self.conv(v, t2)
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins, work):
        _, dst, rt, callee, args = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            f = self.opv(st, fr, callee, ('p',))
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call %r' % (f,))
            name = f.name
        key = self.callcache.get(name)
        if key is None:
            key = self.resolve(name)
            self.callcache[name] = key
        kind, h = key
        if kind == 'fn':
            fn = h
            fn.parse()
            self.stats.funcs.add(fn.name)
            nf = Frame(fn)
            for (t, nm), (at, av) in zip(fn.params, args):
                nf.env[nm] = self.opv(st, fr, av, at)
            nf.dst = dst
            st.frames.append(nf)
            if len(st.frames) > 200:
                raise Unsupported('recursion')
            return None
        if kind == 'panic':
            return Out('panic', st, msg=name)
        av = [self.opv(st, fr, v, t) for t, v in args]
        v = h(self, st, av, name)
        if isinstance(v, Out):
            return v
        if isinstance(v, Frame):
            v.dst = dst
            st.frames.append(v)
            return None
        if dst is not None:
            fr.env[dst] = v
        return None

    def frame(self, name, args):
        """frame of a call a handler wants to make in its own place"""
        kind, fn = self.resolve(name)
        if kind != 'fn':
            raise Unsupported('call of ' + name)
        fn.parse()
        self.stats.funcs.add(fn.name)
        nf = Frame(fn)
        for (t, nm), v in zip(fn.params, args):
            nf.env[nm] = v
        return nf

    def resolve(self, name):
        for rx, tgt in self.redirect.items():
            if re.search(rx, name):
                return ('fn', self.mod.funcs['@' + tgt])
        for rx, h in self.extra:
            if re.search(rx, name):
                return ('h', h)
        n = name[1:].strip('"')
        if n in self.handlers:
            return ('h', self.handlers[n])
        if name in self.mod.funcs:
            return ('fn', self.mod.funcs[name])
        for rx, h in EXTERNS:
            if rx.search(n):
                return ('h', h)
        if PANIC.search(n):
            return ('panic', None)

        def uns(eng, st, av, nm):
            raise Unsupported('external call ' + nm)
        return ('h', uns)

    # ------------------------------------------------------------ loop summarisation
    def sub_run(self, st0, depth, header, body, fn):
        st0.stops = (depth, header, body, fn)
        outs = []
        for o in self._run(st0):
            outs.append(o)
        return outs

    def try_summarize(self, st, fn, header, body, work):
        """st has just arrived at header from outside, phis evaluated.  Returns Out('forked') after pushing successor
        states onto work, or None to continue by plain unrolling."""
        np = len(self.pending_outs)
        try:
            return self._summarize(st, fn, header, body, work)
        except NoSummary as e:
            del self.pending_outs[np:]
            st.info['nosummary'] = str(e)
            return None

    def loop_phis(self, fn, header):
        return [x for x in fn.blocks[header] if x[0] == 'phi']

    def _summarize(self, st, fn, header, body, work):
        depth = len(st.frames)
        base_pc = len(st.pc)
        base_tr = len(st.trace)
        saved = (st.stops, self.summarize)
        phis = self.loop_phis(fn, header)
        fr = st.frames[-1]
        # --- pass 1: one concrete iteration from the entry state
        s1 = st.fork()
        s1.info = dict(st.info)
        s1.info['in_loop'] = st.info.get('in_loop', 0) + 1
        s1.info['fam_writes'] = []
        s1.prune = []
        try:
            outs = self.sub_run(s1, depth, header, body, fn)
        except (Unsupported, UB) as e:
            raise NoSummary('pass1 ' + str(e))
        backs = [o for o in outs if o.kind == 'back']
        exits = [o for o in outs if o.kind == 'exit']
        if not backs:
            raise NoSummary('no back path')
        if not exits and not any(o.kind in ('panic', 'ret') for o in outs):
            # the exit is not reachable on the first iteration: trip count may be concrete; check whether the exit
            # decision involved symbolic values at all
            if not self.sym_exit(st, fn, header, body, backs):
                raise NoSummary('no symbolic exit')
        symbolic = bool(exits) and bool(backs)
        if not symbolic and not self.sym_exit(st, fn, header, body, backs):
            raise NoSummary('concrete loop')
        # --- guess affine progressions
        b0 = backs[0]
        ent = {}
        delta = {}
        for x in phis:
            v0 = fr.env[x[1]]
            v1 = b0.st.frames[-1].env[x[1]]
            ent[x[1]] = v0
            delta[x[1]] = self.guess_delta(v0, v1, x[2])
        # memory cells (existing objects) changed by the first iteration
        memphi = {}
        for o in backs:
            for oid, ob in o.st.mem.items():
                old = st.mem.get(oid)
                if old is None or old is ob:
                    continue
                for off, cell in ob.cells.items():
                    oc = old.cells.get(off)
                    if oc is None or oc[0] != cell[0] or not same_val(oc[1], cell[1]):
                        if old.const:
                            raise NoSummary('const write')
                        v0 = oc[1] if oc is not None and oc[0] == cell[0] else UNDEF
                        memphi[(oid, off, cell[0])] = (v0, cell[1])
        mdelta = {}
        for k, (v0, v1) in memphi.items():
            mdelta[k] = self.guess_delta(v0, v1, None)
        # --- generic iteration
        t = self.fresh_int('t')
        rngs = []

        def prog(v0, d, tt, w):
            if d[0] == 'same':
                return v0
            if d[0] == 'int':
                e = v0 + d[1]*tt
                return z3.simplify(e) if isinstance(e, z3.AstRef) else e
            if d[0] == 'ptr':
                return Ptr(v0.obj, z3.simplify(v0.off + d[1]*tt))
            raise NoSummary('prog')

        accs = {}
        for x in phis:
            if delta[x[1]][0] == 'float':
                accs[x[1]] = term.var(self.fresh('acc'))
        maccs = {}
        for k in memphi:
            if mdelta[k][0] == 'float':
                maccs[k] = term.var(self.fresh('macc'))
        closed = {}    # acc name -> (A0, g)
        low = [0]

        def generic(tt, extra):
            s = st.fork()
            s.info = dict(st.info)
            s.info['in_loop'] = st.info.get('in_loop', 0) + 1
            s.info['fam_writes'] = []
            s.prune = []
            f = s.frames[-1]
            rng = []
            for x in phis:
                d = delta[x[1]]
                if d[0] == 'float':
                    if x[1] in closed:
                        a0, g = closed[x[1]]
                        f.env[x[1]] = mk('+', const(a0), mk('*', const(g), term.i2r(tt)))
                    else:
                        f.env[x[1]] = accs[x[1]]
                else:
                    v = prog(ent[x[1]], d, tt, x[2])
                    f.env[x[1]] = v
                    if d[0] == 'int' and isinstance(v, z3.ArithRef):
                        rng.append(z3.And(v >= low[0], v < (1 << x[2][1])))
                    if d[0] == 'ptr':
                        rng.append(v.off >= 0)
            for k, (v0, v1) in memphi.items():
                oid, off, size = k
                d = mdelta[k]
                ob = s.wobj(oid)
                if d[0] == 'float':
                    if k in closed:
                        a0, g = closed[k]
                        ob.cells[off] = (size, mk('+', const(a0), mk('*', const(g), term.i2r(tt))))
                    else:
                        ob.cells[off] = (size, maccs[k])
                elif d[0] == 'kill':
                    ob.cells.pop(off, None)
                else:
                    v = prog(v0, d, tt, None)
                    ob.cells[off] = (size, v)
                    if d[0] == 'int' and isinstance(v, z3.ArithRef):
                        rng.append(z3.And(v >= 0, v < (1 << (8*size))))
            s.pc.append(tt >= 0)
            s.pc.extend(rng)
            s.pc.extend(extra)
            try:
                o = self.sub_run(s, depth, header, body, fn)
            except (Unsupported, UB) as e:
                raise NoSummary('generic ' + str(e))
            return o, rng, len(s.pc)

        np0 = len(st.pc)
        outs2, rng, _ = generic(t, [])
        k0 = np0 + 1 + len(rng)
        # a float carried over unchanged by the first iteration but changed by a later one is an accumulator
        redo = False
        for x in phis:
            if delta[x[1]][0] == 'same' and isinstance(ent[x[1]], (float, R)):
                if any(o.kind == 'back' and not same_val(o.st.frames[-1].env[x[1]], ent[x[1]]) for o in outs2):
                    delta[x[1]] = ('float',)
                    accs[x[1]] = term.var(self.fresh('acc'))
                    redo = True
        for o in outs2:
            if o.kind != 'back':
                continue
            for oid, ob in o.st.mem.items():
                old = st.mem.get(oid)
                if old is None or old is ob:
                    continue
                for off, cell in ob.cells.items():
                    oc = old.cells.get(off)
                    k = (oid, off, cell[0])
                    if k in memphi or oc is None or oc[0] != cell[0] or same_val(oc[1], cell[1]):
                        continue
                    if isinstance(oc[1], (float, R)) and isinstance(cell[1], (float, R)):
                        memphi[k] = (oc[1], cell[1])
                        mdelta[k] = ('float',)
                        maccs[k] = term.var(self.fresh('macc'))
                        redo = True
        if redo:
            outs2, rng, _ = generic(t, [])
        exits2 = [o for o in outs2 if o.kind in ('exit',)]
        backs2 = [o for o in outs2 if o.kind == 'back']
        if not exits2 or not backs2:
            raise NoSummary('no exit in the generic iteration')
        # float accumulators used elsewhere?  (call arguments, conditions, memory writes)
        for rounds in range(2):
            bad = False
            for x in list(accs):
                if x in closed:
                    continue
                A = accs[x]
                if self.acc_used(A, outs2, k0, base_tr, x, phis, accs):
                    gs = self.acc_step(A, x, backs2)
                    if gs is None or len(gs) != 1 or self.varies(gs[0], t, accs, maccs):
                        raise NoSummary('float phi feeds the body')
                    closed[x] = (ent[x], gs[0])
                    self.closed = True      # a float obtained by repeated addition feeds the body: its rounding grows with t
                    bad = True
            if not bad:
                break
            outs2, rng, _ = generic(t, [])
            exits2 = [o for o in outs2 if o.kind == 'exit']
            backs2 = [o for o in outs2 if o.kind == 'back']
        E = z3.Or([z3.And(o.st.pc[k0:]) if o.st.pc[k0:] else z3.BoolVal(True) for o in exits2])
        B = z3.Or([z3.And(o.st.pc[k0:]) if o.st.pc[k0:] else z3.BoolVal(True) for o in backs2])
        E, B = z3.simplify(E), z3.simplify(B)
        def inductive():
            mo = st.fork()
            if not self.must(mo, z3.And([z3.substitute(r, (t, z3.IntVal(0))) for r in rng])):
                return False
            mo.pc.extend([t >= 0] + rng + [B])
            return self.must(mo, z3.And([z3.substitute(r, (t, t + 1)) for r in rng]))
        rfacts = []
        if rng:
            if inductive():
                rfacts = True
            else:
                low[0] = 1
                sv = (outs2, rng, exits2, backs2, E, B)
                outs2, rng, _ = generic(t, [])
                exits2 = [o for o in outs2 if o.kind == 'exit']
                backs2 = [o for o in outs2 if o.kind == 'back']
                E = z3.simplify(z3.Or([z3.And(o.st.pc[k0:]) if o.st.pc[k0:] else z3.BoolVal(True) for o in exits2]))
                B = z3.simplify(z3.Or([z3.And(o.st.pc[k0:]) if o.st.pc[k0:] else z3.BoolVal(True) for o in backs2]))
                if exits2 and backs2 and inductive():
                    rfacts = True
                else:
                    low[0] = 0
                    outs2, rng, exits2, backs2, E, B = sv
        T = self.fresh_int('T')
        if rfacts:
            rfacts = [z3.substitute(r, (t, T)) for r in rng] + [z3.Implies(T >= 1, z3.substitute(r, (t, T - 1))) for r in rng]
        # an explicit exit: if iteration T0 is in range and leaves the loop, the first exit is at most T0
        if not rfacts or not z3.is_eq(E):
            rfacts = list(rfacts)
            for T0 in self.exit_guess(E, t):
                mo = st.fork()
                if self.must(mo, z3.And([T0 >= 0, z3.substitute(E, (t, T0))] + [z3.substitute(r, (t, x)) for r in rng for x in (T0, z3.IntVal(0))])):
                    rfacts.append(T <= T0)
        ET = z3.substitute(E, (t, T))
        BT1 = z3.Implies(T >= 1, z3.substitute(B, (t, T-1)))
        B0 = z3.Implies(T >= 1, z3.substitute(B, (t, z3.IntVal(0))))
        tfacts = [T >= 0, ET, BT1, B0] + rfacts
        # --- pass 3: family, 0 <= t < T
        extra = tfacts + [t < T]
        outs3, rng3, _ = generic(t, extra)
        if any(o.kind == 'exit' for o in outs3):
            # an exit condition that stays true once true cannot have held before T, since it did not at T-1
            mo = st.fork()
            mo.pc.extend(tfacts + [t >= 0, t + 1 <= T - 1] + rng + [z3.substitute(r, (t, t + 1)) for r in rng])
            if self.must(mo, z3.And(z3.Implies(E, z3.substitute(E, (t, t + 1))), z3.Not(z3.And(E, B)))):
                extra = extra + [z3.Not(E)]
                outs3, rng3, _ = generic(t, extra)
        k3 = np0 + 1 + len(rng3) + len(extra)
        fam_back = []
        for o in outs3:
            if o.kind == 'back':
                fam_back.append(o)
            elif o.kind == 'exit':
                raise NoSummary('exit before T: E=%s' % str(E)[:600])
            elif o.kind in ('panic', 'ub'):
                # a panic inside an iteration: report as terminal outcome
                o.st.stops = saved[0]
                self.pending_outs.append(o)
            else:
                raise NoSummary('odd outcome ' + o.kind)
        # --- induction: progressions hold
        for o in fam_back:
            f = o.st.frames[-1]
            for x in phis:
                d = delta[x[1]]
                v = f.env[x[1]]
                if d[0] == 'float':
                    continue
                nxt = prog(ent[x[1]], d, t + 1, None)
                self.need_eq(o.st, v, nxt)
            for k, (v0, v1) in memphi.items():
                d = mdelta[k]
                if d[0] in ('float', 'kill'):
                    continue
                c = o.st.mem[k[0]].cells.get(k[1])
                if c is None:
                    raise NoSummary('mem phi lost')
                self.need_eq(o.st, c[1], prog(v0, d, t + 1, None))
            # no other memory of pre-existing objects may change
            for oid, ob in o.st.mem.items():
                old = st.mem.get(oid)
                if old is None or old is ob:
                    continue
                for off, cell in ob.cells.items():
                    if (oid, off, cell[0]) in memphi:
                        continue
                    oc = old.cells.get(off)
                    if oc is None or oc[0] != cell[0] or not same_val(oc[1], cell[1]):
                        raise NoSummary('unexpected write')
                if len(ob.fams) != len(old.fams):
                    raise NoSummary('family write in family')
        # ranges: rng(t) was assumed; verify at both ends given T facts
        chk = st.fork()
        chk.pc.extend(tfacts)
        for r in rng:
            for tt in (z3.IntVal(0), T):
                if not self.must(chk, z3.substitute(r, (t, tt))):
                    raise NoSummary('range')
        # --- float accumulators
        finals = {}
        for x, A in list(accs.items()) + list(maccs.items()):
            if x in closed:
                a0, g = closed[x]
                finals[x] = mk('+', const(a0), mk('*', const(g), term.i2r(T)))
                continue
            cases = []
            for o in fam_back:
                v = o.st.frames[-1].env[x] if not isinstance(x, tuple) else o.st.mem[x[0]].cells[x[1]][1]
                v = const(v)
                l = term.lin(v, A)
                if l is None or l[0] != 1:
                    raise NoSummary('accumulator shape %s' % term.show(v)[:100])
                if l[1] is not None:
                    for A2 in list(accs.values()) + list(maccs.values()):
                        if term.contains(l[1], A2):
                            raise NoSummary('accumulators depend on each other')
                    cases.append((o.st.pc[k3:], l[1]))
            a0 = ent[x] if not isinstance(x, tuple) else memphi[x][0]
            if not cases:
                finals[x] = a0
                continue
            fam = term.fsum(term.Fam(t, T, cases))
            finals[x] = fam if isinstance(a0, float) and a0 == 0.0 else mk('+', const(a0), fam)
        # --- build the state at iteration T
        n = st
        n.pc.extend(tfacts)
        f = n.frames[-1]
        for x in phis:
            d = delta[x[1]]
            f.env[x[1]] = finals[x[1]] if d[0] == 'float' else prog(ent[x[1]], d, T, None)
        for k, (v0, v1) in memphi.items():
            oid, off, size = k
            ob = n.wobj(oid)
            d = mdelta[k]
            if d[0] == 'float':
                ob.cells[off] = (size, finals[k])
            elif d[0] == 'kill':
                ob.cells.pop(off, None)
            else:
                ob.cells[off] = (size, prog(v0, d, T, None))
        # trace family
        cases = []
        for o in fam_back:
            ev = o.st.trace[base_tr:]
            cases.append((o.st.pc[k3:], ev))
        if any(ev for _, ev in cases):
            n.trace.append(('fam', t, T, cases))
        # memory families
        for o in fam_back:
            for (oid, off, size, v) in o.st.info.get('fam_writes', []):
                if oid not in n.mem:
                    continue
                ob = n.wobj(oid)
                ob.fams.append((t, T, o.st.pc[k3:], off, size, v))
        # objects that are read in the loop and written as a family are not supported (checked in load through in_loop)
        n.prune = n.prune + [(depth, header, body, fn)]
        n.stops = saved[0]
        self.stats.loops += 1
        if any(ent[x] is UNDEF for x in ent):
            pass
        work.append(n)
        return Out('forked', n)

    def exit_guess(self, E, t):
        """solutions t of the equations lhs == rhs in an exit condition, read without the wrap-around"""
        def strip(e):
            if z3.is_mod(e) and z3.is_int_value(e.arg(1)):
                return strip(e.arg(0))
            if not e.children():
                return e
            return e.decl()(*[strip(c) for c in e.children()])
        out, eqs, seen, todo = [], [], set(), [E]
        while todo:
            x = todo.pop()
            if x.get_id() in seen or len(eqs) > 6:
                continue
            seen.add(x.get_id())
            if z3.is_eq(x) and z3.is_int(x.arg(0)):
                eqs.append(x)
            elif z3.is_bool(x):
                todo.extend(x.children())
        for x in eqs:
            d = z3.simplify(strip(x.arg(0)) - strip(x.arg(1)))
            d0 = z3.simplify(z3.substitute(d, (t, z3.IntVal(0))))
            c = z3.simplify(z3.substitute(d, (t, z3.IntVal(1))) - d0)
            if not z3.is_int_value(c) or abs(c.as_long()) != 1:
                continue
            g = z3.simplify(-d0 if c.as_long() == 1 else d0)
            if not any(g.eq(y) for y in out):
                out.append(g)
        return out

    def sym_exit(self, st, fn, header, body, backs):
        """did the first iteration take an exit-deciding branch on a symbolic condition?  approximated by: the path
        condition grew by something during the first iteration"""
        for o in backs:
            if len(o.st.pc) > len(st.pc):
                return True
        return False

    def guess_delta(self, v0, v1, t):
        if v0 is v1 or same_val(v0, v1):
            return ('same',)
        num = (int, z3.ArithRef)
        if isinstance(v0, num) and isinstance(v1, num) and not isinstance(v0, bool):
            if t is not None and t[0] == 'i' and t[1] == 1:
                raise NoSummary('bool phi')
            w = t[1] if t is not None else 64
            d = v1 - v0
            if isinstance(d, z3.AstRef):
                d = z3.simplify(d)
                if z3.is_int_value(d):
                    d = d.as_long()
            return ('int', d)
        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj:
            d = v1.off - v0.off
            if isinstance(d, z3.AstRef):
                d = z3.simplify(d)
                if z3.is_int_value(d):
                    d = d.as_long()
            return ('ptr', d)
        if isinstance(v0, (float, R)) and isinstance(v1, (float, R)):
            return ('float',)
        if v0 is UNDEF and t is None:
            return ('kill',)
        raise NoSummary('phi %r -> %r' % (v0, v1))

    def acc_step(self, A, x, backs):
        gs = []
        for o in backs:
            v = const(o.st.frames[-1].env[x])
            l = term.lin(v, A)
            if l is None or l[0] != 1:
                return None
            if l[1] is None:
                return None
            if l[1] not in gs:
                gs.append(l[1])
        return gs

    def varies(self, g, t, accs, maccs):
        for A in list(accs.values()) + list(maccs.values()):
            if term.contains(g, A):
                return True
        for x in term.walk(g):
            for y in x.a:
                if isinstance(y, z3.AstRef):
                    if any(v.eq(t) for v in term.zvars(y)):
                        return True
            if x.op == 'app' and x.a[0] == 'f':
                return True
        return False

    def acc_used(self, A, outs, k0, base_tr, name, phis, accs):
        zA = z3.Real(A.a[0])
        for o in outs:
            for c in o.st.pc[k0:]:
                if any(v.eq(zA) for v in term.zvars(c)):
                    return True
            for e in o.st.trace[base_tr:]:
                if ev_contains(e, A):
                    return True
            for w in o.st.info.get('fam_writes', []):
                if isinstance(w[3], R) and term.contains(w[3], A):
                    return True
            if o.kind == 'back':
                for n2, A2 in accs.items():
                    if n2 != name:
                        v = o.st.frames[-1].env[n2]
                        if isinstance(v, R) and term.contains(v, A):
                            return True
        return False

    def need_eq(self, st, v, nxt):
        if same_val(v, nxt):
            return
        if isinstance(v, Ptr) and isinstance(nxt, Ptr):
            if v.obj == nxt.obj and self.must(st, v.off == nxt.off):
                return
            raise NoSummary('ptr progression')
        num = (int, z3.ArithRef)
        if isinstance(v, num) and isinstance(nxt, num):
            c = v == nxt
            if isinstance(c, bool):
                if c:
                    return
            elif self.must(st, c):
                return
        raise NoSummary('progression %s vs %s' % (v, nxt))


class Jump:
    def __init__(self, st, tgt):
        pass


class UB(Exception):
    pass


class NoSummary(Exception):
    pass


class ForkInt(Exception):
    def __init__(self, e, vals):
        self.e = e
        self.vals = vals


class ForkBool(Exception):
    def __init__(self, c):
        self.c = c


def ev_contains(e, A):
    for x in e:
        if isinstance(x, R) and term.contains(x, A):
            return True
        if isinstance(x, (list, tuple)) and ev_contains(x, A):
            return True
    return False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) == type(b) and (a == b if not isinstance(a, float) else fbits(a) == fbits(b))
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b) or (a.sort() == b.sort() and z3.is_true(z3.simplify(a == b)))
    if isinstance(a, z3.AstRef) and isinstance(b, int) or isinstance(b, z3.AstRef) and isinstance(a, int):
        try:
            return z3.is_true(z3.simplify(a == b))
        except z3.Z3Exception:
            return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same_val(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same_val(a.p, b.p)
    if isinstance(a, FBits) and isinstance(b, FBits):
        return a.kind == b.kind and a.r is b.r
    if isinstance(a, FPv) and isinstance(b, FPv):
        return a.e.eq(b.e)
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    return False


def subst_any(v, tv, tt):
    if isinstance(v, R):
        return term.subst(v, {}, [(tv, tt)])
    if isinstance(v, z3.AstRef):
        return z3.simplify(z3.substitute(v, (tv, tt)))
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst_any(v.off, tv, tt))
    return v


def val_bytes(v, size):
    if isinstance(v, bytes):
        return v
    if isinstance(v, int):
        return (v & ((1 << (8*size)) - 1)).to_bytes(size, 'little')
    if isinstance(v, float):
        return struct.pack('<d' if size == 8 else '<f', v)
    if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
        return v.off.to_bytes(8, 'little')
    return None


def tobool(x):
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.ArithRef):
        return x != 0
    raise Unsupported('bool %r' % (x,))


def simp(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return 1
    if z3.is_false(b):
        return 0
    return b


def simp_i(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def div_exact(e, c):
    """e / c for e known to be a multiple of c: push the division into linear terms when possible"""
    if c == 1:
        return e
    if c < 0:
        return div_exact(-e, -c)
    s = z3.simplify(e, som=True) if isinstance(e, z3.AstRef) else z3.IntVal(e)
    if z3.is_int_value(s):
        v = s.as_long()
        if v % c == 0:
            return z3.IntVal(v // c)
        return s / c

    def dv(x):
        if z3.is_int_value(x):
            v = x.as_long()
            return z3.IntVal(v // c) if v % c == 0 else None
        if z3.is_mul(x):
            ch = x.children()
            if z3.is_int_value(ch[0]) and ch[0].as_long() % c == 0:
                k = ch[0].as_long() // c
                r = None
                for y in ch[1:]:
                    r = y if r is None else r * y
                return r if k == 1 else k * r
        return None
    parts = s.children() if z3.is_add(s) else [s]
    out = [dv(x) for x in parts]
    if all(o is not None for o in out):
        return z3.Sum(out) if len(out) > 1 else out[0]
    return e / c


def ins_val(v, idx, w):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = w
    else:
        v[idx[0]] = ins_val(v[idx[0]], idx[1:], w)
    return v


# ---------------------------------------------------------------------------------------- external functions
def _nop(eng, st, av, nm):
    return None


def _alloc(eng, st, av, nm):
    oid = eng.new_obj(st, av[0] if isinstance(av[0], int) else z3.simplify(av[0]), 'heap')
    return Ptr(oid, 0)


def _alloc_zeroed(eng, st, av, nm):
    p = _alloc(eng, st, av, nm)
    st.mem[p.obj].zero = True
    return p


def _realloc(eng, st, av, nm):
    old = st.mem[av[0].obj]
    oid = eng.new_obj(st, av[3], 'heap')
    o = st.mem[oid]
    o.cells = Cells(old.cells); o.zero = old.zero; o.fams = list(old.fams); o.sym = old.sym
    return Ptr(oid, 0)


def _memcpy(eng, st, av, nm):
    eng.memcpy(st, Ptr(av[0].obj, av[0].off), Ptr(av[1].obj, av[1].off), av[2])


def _memset(eng, st, av, nm):
    n = av[2]
    if isinstance(n, int):
        if n == 0:
            return None
        p = av[0]
        if not isinstance(p.off, int):
            raise Unsupported('memset symbolic offset')
        if not isinstance(av[1], int):
            raise Unsupported('memset value')
        o = st.wobj(p.obj)
        if n > 256 and n % 8 == 0:
            eng.clear(o, p.off, n)
            b = bytes([av[1]])*8
            for k in range(p.off, p.off + n, 8):
                o.cells[k] = (8, b)
            return None
        eng.put(o, p.off, n, bytes([av[1]])*n)
        return None
    p = av[0]
    o = st.wobj(p.obj)
    if isinstance(p.off, int) and p.off == 0 and av[1] == 0 and not o.cells and not o.fams:
        o.zero = True
        return None
    raise Unsupported('memset')


def mathfn(name, pyf):
    def h(eng, st, av, nm):
        if all(isinstance(a, float) for a in av):
            return pyf(*av)
        if any(isinstance(a, FPv) for a in av):
            f = z3.Function('fp_' + name, *([FP64]*(len(av)+1)))
            return FPv(f(*[fpv(a) for a in av]))
        return term.app(name, *av)
    return h


def _pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return float('inf')
    except ValueError:
        return float('nan') if not (x == 0 and y < 0) else float('inf')


def _exp2(eng, st, av, nm):
    if isinstance(av[0], float):
        return _pow(2.0, av[0])
    if isinstance(av[0], FPv):
        return mathfn('exp2', None)(eng, st, av, nm)
    return term.app('pow', 2.0, av[0])


def _memcmp(eng, st, av, nm):
    n = av[2]
    if not isinstance(n, int):
        vals = eng.concretize(st, n)
        if len(vals) > 1:
            raise ForkInt(n, vals)
        n = vals[0]
    if n == 0:
        return 0
    b = []
    for p in av[:2]:
        x = eng.bytes_at(eng.mo(st, p.obj), p.off, n)
        if x is None:
            raise Unsupported('memcmp of symbolic bytes')
        b.append(bytes(x))
    return 0 if b[0] == b[1] else (1 if b[0] > b[1] else (1 << 32) - 1)


def _sqrt(x):
    return math.sqrt(x) if x >= 0 else float('nan')


def _sin(x):
    return math.sin(x) if abs(x) != float('inf') else float('nan')


def _cos(x):
    return math.cos(x) if abs(x) != float('inf') else float('nan')


def _fabs(eng, st, av, nm):
    return eng.fabs(av[0])


def _ovf(op):
    def h(eng, st, av, nm):
        w = int(re.search(r'\.i(\d+)$', nm).group(1))
        a, b = av
        M = 1 << w
        s = nm.split('.')[1][0] == 's'
        if isinstance(a, int) and isinstance(b, int):
            if s:
                a = a - M if a >> (w-1) else a
                b = b - M if b >> (w-1) else b
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            ok = (-(M >> 1) <= r < (M >> 1)) if s else (0 <= r < M)
            return [r % M, int(not ok)]
        if s:
            raise Unsupported('signed overflow symbolic')
        e = z3.simplify({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]())
        c = z3.Or(e < 0, e >= M)
        if eng.must(st, z3.Not(c)):
            return [e, 0]
        if eng.must(st, c):
            return [simp_i(e % M), 1]
        raise ForkBool(c)
    return h


def _minmax(mx, signed):
    def h(eng, st, av, nm):
        a, b = av
        w = int(re.search(r'\.i(\d+)$', nm).group(1))
        c = eng.icmp(st, ('s' if signed else 'u') + ('gt' if mx else 'lt'), ('i', w), a, b)
        if isinstance(c, int):
            return a if c else b
        return eng.select(st, c, a, b, ('i', w))
    return h


def _fminmax(mx):
    def h(eng, st, av, nm):
        a, b = av
        if isinstance(a, float) and isinstance(b, float):
            if a != a:
                return b
            if b != b:
                return a
            return max(a, b) if mx else min(a, b)
        c = eng.fcmp(st, 'ogt' if mx else 'olt', a, b)
        if isinstance(c, int):
            return a if c else b
        return eng.select(st, c, a, b, ('f', 64))
    return h


def _ucmp(eng, st, av, nm):
    a, b = av
    w = int(re.search(r'\.i(\d+)$', nm).group(1))
    rw = int(re.search(r'cmp\.i(\d+)\.', nm).group(1))
    s = 's' if '.scmp.' in nm else 'u'
    lt = eng.icmp(st, s + 'lt', ('i', w), a, b)
    gt = eng.icmp(st, s + 'gt', ('i', w), a, b)
    neg1 = (1 << rw) - 1
    if isinstance(lt, int) and isinstance(gt, int):
        return neg1 if lt else (1 if gt else 0)
    if isinstance(lt, int) and lt:
        return neg1
    if isinstance(gt, int) and gt:
        return 1
    return z3.If(tobool(lt), z3.IntVal(neg1), z3.If(tobool(gt), z3.IntVal(1), z3.IntVal(0)))


def _ctlz(eng, st, av, nm):
    w = int(re.search(r'\.i(\d+)$', nm).group(1))
    if isinstance(av[0], int):
        return w - av[0].bit_length()
    raise ForkInt(av[0], eng.concretize(st, av[0]))


def _cttz(eng, st, av, nm):
    w = int(re.search(r'\.i(\d+)$', nm).group(1))
    if isinstance(av[0], int):
        v = av[0]
        return w if v == 0 else (v & -v).bit_length() - 1
    raise ForkInt(av[0], eng.concretize(st, av[0]))


def _fsh(eng, st, av, nm):
    w = int(re.search(r'\.i(\d+)$', nm).group(1))
    if not all(isinstance(v, int) for v in av):
        raise Unsupported('funnel shift of a symbolic operand')
    a, b, s = av
    s %= w
    v = (a << w | b) & ((1 << 2 * w) - 1)
    return (v << s >> w if 'fshl' in nm else v >> s) & ((1 << w) - 1)


def _usub_sat(eng, st, av, nm):
    a, b = av
    if isinstance(a, int) and isinstance(b, int):
        return max(0, a - b)
    return simp_i(z3.If(a >= b, a - b, z3.IntVal(0)))


def _uadd_sat(eng, st, av, nm):
    w = int(re.search(r'\.i(\d+)$', nm).group(1))
    a, b = av
    M = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        return min(M, a + b)
    return simp_i(z3.If(a + b <= M, a + b, z3.IntVal(M)))


def _fma(eng, st, av, nm):
    a, b, c = av
    if all(isinstance(x, float) for x in av):
        return float(Fraction(a)*Fraction(b)+Fraction(c))
    if any(isinstance(x, FPv) for x in av):
        return FPv(z3.fpFMA(RNE, fpv(a), fpv(b), fpv(c)))
    return eng.fbin('fadd', eng.fbin('fmul', a, b), c)


def _powi(eng, st, av, nm):
    x, n = av
    if not isinstance(n, int):
        raise Unsupported('powi')
    if n >> 31:
        n -= 1 << 32
    if isinstance(x, float):
        return _pow(x, float(n))
    r = None
    for _ in range(abs(n)):
        r = x if r is None else eng.fbin('fmul', r, x)
    if r is None:
        return 1.0
    return eng.fbin('fdiv', 1.0, r) if n < 0 else r


def _copysign(eng, st, av, nm):
    a, b = av
    if isinstance(a, float) and isinstance(b, float):
        return math.copysign(a, b)
    c = eng.fcmp(st, 'olt', b, 0.0)
    if not isinstance(c, int):
        if eng.must(st, c):
            c = 1
        elif eng.must(st, z3.Not(c)):
            c = 0
        else:
            raise ForkBool(c)
    m = eng.fabs(a)
    return eng.fneg(m) if c else m


def _trap(eng, st, av, nm):
    return Out('panic', st, msg=nm)


def _fpclass(eng, st, av, nm):
    x, mask = av[0], av[1]
    if isinstance(x, float):
        if x != x:
            b = 2
        elif abs(x) == math.inf:
            b = 512 if x > 0 else 4
        else:
            k = 0 if x == 0 else (1 if abs(x) < 2.2250738585072014e-308 else 2)
            b = (64 << k) if math.copysign(1, x) > 0 else (32 >> k)
        return int(bool(mask & b))
    if isinstance(x, FPv):
        e = fpv(x)
        sg, z = z3.fpIsNegative(e), z3.fpIsZero(e)
        cs = [(3, z3.fpIsNaN(e)), (4, z3.And(z3.fpIsInf(e), sg)), (8, z3.And(z3.fpIsNormal(e), sg)), (16, z3.And(z3.fpIsSubnormal(e), sg)),
              (32, z3.And(z, sg)), (64, z3.And(z, z3.Not(sg))), (128, z3.And(z3.fpIsSubnormal(e), z3.Not(sg))),
              (256, z3.And(z3.fpIsNormal(e), z3.Not(sg))), (512, z3.And(z3.fpIsInf(e), z3.Not(sg)))]
        return simp(z3.Or([c for m, c in cs if mask & m]))
    eng.assumed.add('symbolic floats are finite in real-number mode')
    m = mask & 0b0111111000 & ~0b0010010000     # zero, normal
    if not m:
        return 0
    if m == 0b0101101000:
        return 1
    z = eng.Z(const(x))
    cs = []
    if m & 96:
        cs.append(z == 0)
    if m & 256:
        cs.append(z > 0)
    if m & 8:
        cs.append(z < 0)
    return simp(z3.Or(cs))


def _sincos(eng, st, av, nm):
    return [mathfn('sin', _sin)(eng, st, av, nm), mathfn('cos', _cos)(eng, st, av, nm)]


def _assume(eng, st, av, nm):
    return None


def _rnd(kind):
    def h(eng, st, av, nm):
        x = av[0]
        if isinstance(x, float):
            return {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda v: math.floor(abs(v)+0.5)*math.copysign(1, v)}[kind](x) * 1.0
        if isinstance(x, R):
            e = eng.toint(x, kind)
            return term.i2r(e)
        raise Unsupported(kind)
    return h


def _fpsat(eng, st, av, nm):
    m = re.match(r'@?llvm\.fpto([us])i\.sat\.i(\d+)', nm)
    w, signed = int(m.group(2)), m.group(1) == 's'
    x = av[0]
    if isinstance(x, float):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        v = 0 if x != x else lo if x <= lo else hi if x >= hi else int(x)
        return v & ((1 << w) - 1)
    if isinstance(x, R):
        return eng.fp2int(st, x, w, signed, True)
    raise Unsupported('fpto*i.sat')


EXTERNS = [(re.compile(a), b) for a, b in [
    (r'^llvm\.(lifetime|assume|experimental\.noalias|dbg|prefetch)', _nop),
    (r'^llvm\.expect', lambda e, s, a, n: a[0]),
    (r'^llvm\.is\.constant', lambda e, s, a, n: 0),
    (r'___rust_no_alloc_shim_is_unstable|__rust_no_alloc_shim', _nop),
    (r'___rust_alloc_zeroed|__rust_alloc_zeroed$', _alloc_zeroed),
    (r'___rust_alloc$|__rust_alloc$|12___rust_alloc$', _alloc),
    (r'___rust_dealloc|__rust_dealloc', _nop),
    (r'___rust_realloc|__rust_realloc', _realloc),
    (r'^llvm\.mem(cpy|move)', _memcpy),
    (r'^mem(cpy|move)$', lambda e, s, a, n: (_memcpy(e, s, a, n), a[0])[1]),
    (r'^llvm\.memset', _memset),
    (r'^llvm\.is\.fpclass', _fpclass),
    (r'4libm4math6sincos6sincos$', _sincos),
    (r'^llvm\.fabs|4libm4math4fabs4fabs$|^fabs$', _fabs),
    (r'^llvm\.sqrt|4libm4math4sqrt4sqrt$|^sqrt$', mathfn('sqrt', _sqrt)),
    (r'^llvm\.sin\.|4libm4math3sin3sin$|^sin$', mathfn('sin', _sin)),
    (r'^llvm\.cos\.|4libm4math3cos3cos$|^cos$', mathfn('cos', _cos)),
    (r'^llvm\.pow\.|4libm4math3pow3pow$|^pow$', mathfn('pow', _pow)),
    (r'^llvm\.exp\.|4libm4math3exp3exp$|^exp$', mathfn('exp', lambda x: math.exp(x))),
    (r'^llvm\.exp2\.|^exp2$', _exp2),
    (r'^bcmp$|^memcmp$', _memcmp),
    (r'^llvm\.log\.|4libm4math3log3log$|^log$', mathfn('log', lambda x: math.log(x))),
    (r'4libm4math6tgamma6tgamma$|^tgamma$', mathfn('gamma', lambda x: math.gamma(x))),
    (r'^llvm\.tan\.|4libm4math3tan3tan$|^tan$', mathfn('tan', lambda x: math.tan(x))),
    (r'^llvm\.powi', _powi),
    (r'^llvm\.(fma|fmuladd)', _fma),
    (r'^llvm\.copysign', _copysign),
    (r'^llvm\.[us]add\.with\.overflow', _ovf('add')),
    (r'^llvm\.[us]sub\.with\.overflow', _ovf('sub')),
    (r'^llvm\.[us]mul\.with\.overflow', _ovf('mul')),
    (r'^llvm\.umax', _minmax(True, False)), (r'^llvm\.umin', _minmax(False, False)),
    (r'^llvm\.smax', _minmax(True, True)), (r'^llvm\.smin', _minmax(False, True)),
    (r'^llvm\.(maxnum|maximumnum|maximum)', _fminmax(True)), (r'^llvm\.(minnum|minimumnum|minimum)', _fminmax(False)),
    (r'^llvm\.[us]cmp', _ucmp),
    (r'^llvm\.ctlz', _ctlz), (r'^llvm\.cttz', _cttz),
    (r'^llvm\.fsh[lr]\.', _fsh), (r'^llvm\.usub\.sat', _usub_sat), (r'^llvm\.uadd\.sat', _uadd_sat),
    (r'^llvm\.fpto[us]i\.sat', _fpsat),
    (r'^llvm\.trap', _trap),
    (r'^llvm\.floor', _rnd('floor')), (r'^llvm\.ceil', _rnd('ceil')), (r'^llvm\.trunc', _rnd('trunc')), (r'^llvm\.round', _rnd('round')),
]]
