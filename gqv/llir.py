"""Parser for the subset of textual LLVM IR that rustc + opt produce for the harness module."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
  (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 |(?P<local>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 |(?P<hexf>f0x[0-9A-Fa-f]+|0x[0-9A-Fa-f]+)
 |(?P<num>[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 |(?P<sfl>[-+](?:inf|nan|qnan|snan)(?:\(0x[0-9a-fA-F]+\))?)
 |(?P<meta>![a-zA-Z0-9_.]*)
 |(?P<attr>\#\d+)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<q>"(?:[^"])*")
 |(?P<punc><\{|\}>|\.\.\.|[{}\[\]()<>,=*:|])
''', re.X)


def toks(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        if c == '/' and s.startswith('/*', pos):
            pos = s.index('*/', pos) + 2
            continue
        m = TOK.match(s, pos)
        if not m:
            raise ValueError("tokenize: %r" % s[pos:pos+60])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---- types: ('i',w) ('f',bits) ('p',) ('a',n,t) ('s',[t],packed) ('v',) ('void',) ('meta',)
def tsize(t):
    k = t[0]
    if k == 'i':
        w = t[1]
        b = (w + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'a':
        return t[1] * tsize(t[2])
    if k == 's':
        off = 0
        al = 1
        for x in t[1]:
            if not t[2]:
                a = talign(x)
                al = max(al, a)
                off = (off + a - 1) // a * a
            off += tsize(x)
        return (off + al - 1) // al * al
    raise ValueError(t)


def talign(t):
    k = t[0]
    if k == 'i':
        return min(tsize(t), 16)
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'a':
        return talign(t[2])
    if k == 's':
        return 1 if t[2] else max([talign(x) for x in t[1]] or [1])
    return 1


def field_offset(t, i):
    off = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = talign(x)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += tsize(x)
    raise IndexError


class P:
    def __init__(self, tokens, mod):
        self.t = tokens
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise ValueError("expected %s got %s in %s" % (s, x, ' '.join(a[1] for a in self.t)[:300]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
            t = ('p',)
        elif x == 'void':
            t = ('void',)
        elif x == 'double':
            t = ('f', 64)
        elif x == 'float':
            t = ('f', 32)
        elif x == 'half':
            t = ('f', 16)
        elif x == 'fp128':
            t = ('f', 128)
        elif x == 'metadata':
            t = ('meta',)
        elif x == 'label':
            t = ('label',)
        elif x == 'token':
            t = ('meta',)
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        elif x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('s', fs, False)
        elif x == '<{':
            fs = []
            if not self.accept('}>'):
                while True:
                    fs.append(self.type())
                    if self.accept('}>'):
                        break
                    self.expect(',')
            t = ('s', fs, True)
        elif x.startswith('%'):
            t = self.mod.named_type(x)
        else:
            raise ValueError("type? %s in %s" % (x, ' '.join(a[1] for a in self.t)[:300]))
        # function type suffix e.g. "void (ptr, ...)" in calls
        if self.peek() == '(' and t[0] in ('void', 'i', 'f', 'p', 's') and self._looks_fnty():
            self.skip_parens()
        return t

    def _looks_fnty(self):
        # only in call instructions with vararg/explicit fn type: "void (i8*, ...) @f("
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    nxt = self.t[j+1] if j + 1 < len(self.t) else None
                    return nxt is not None and nxt[0] in ('glob', 'local') and j + 2 < len(self.t) and self.t[j+2][1] == '('
            j += 1
        return False

    ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval', 'align',
                  'initializes', 'nofpclass', 'elementtype', 'memory', 'allocsize', 'inalloca', 'byref', 'preallocated'}
    VALWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint',
                'bitcast', 'inf', 'nan', 'trunc', 'add', 'sub', 'none', 'qnan', 'snan', 'dso_local_equivalent', 'no_cfi'}

    def skip_attrs(self):
        while True:
            k, x = self.kind(), self.peek()
            if k == 'word' and x not in self.VALWORDS:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                elif x == 'align' and self.kind() == 'num':
                    self.next()
            elif k == 'attr':
                self.next()
            elif k == 'q':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, t):
        """operand descriptor: ('l',name) ('c',python value) ('g',name) ('expr',...)"""
        self.skip_attrs()
        k = self.kind()
        x = self.next()
        if k == 'local':
            return ('l', x)
        if k == 'glob':
            return ('g', x)
        if k == 'str':
            return ('c', ('bytes', unescape(x)))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', ('null',))
        if x in ('undef', 'poison'):
            return ('c', ('undef',))
        if x == 'zeroinitializer':
            return ('c', ('zero', t))
        if t[0] == 'f':
            return ('c', parse_float(x, t))
        if t[0] == 'i':
            return ('c', int(x, 0) & ((1 << t[1]) - 1) if k == 'num' else int(x, 16) & ((1 << t[1]) - 1))
        if x == 'getelementptr':
            while self.peek() != '(':
                self.next()
                if self.peek() == '(' and self.t[self.i-1][1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                ot = self.type()
                ops.append((ot, self.value(ot)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('expr', 'gep', bt, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('expr', x, st, v, dt)
        if x in ('add', 'sub'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            st = self.type(); a = self.value(st); self.expect(',')
            st2 = self.type(); b = self.value(st2); self.expect(')')
            return ('expr', x, st, a, b)
        if x in ('{', '<{', '['):
            close = {'{': '}', '<{': '}>', '[': ']'}[x]
            vals = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    vals.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', t, [v for _, v in vals], [e for e, _ in vals])
        if k == 'meta' or x == '!':
            return ('c', ('undef',))
        raise ValueError("value? %r type %r in %s" % (x, t, ' '.join(a[1] for a in self.t)[:400]))

    def tv(self):
        t = self.type()
        if t[0] == 'meta':
            # metadata operand: swallow
            d = 0
            while self.i < len(self.t):
                x = self.peek()
                if x in (',', ')') and d == 0:
                    break
                if x in ('(', '{'):
                    d += 1
                if x in (')', '}'):
                    d -= 1
                self.next()
            return (t, ('c', ('undef',)))
        return (t, self.value(t))


def unescape(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1'); i += 1
    return bytes(out)


def parse_float(x, t):
    b = t[1]
    if x.startswith('f0x'):
        v = int(x[3:], 16)
        if b == 64:
            return struct.unpack('<d', struct.pack('<Q', v))[0]
        if b == 32:
            return struct.unpack('<f', struct.pack('<I', v))[0]
        raise ValueError(x)
    if x.startswith('0x'):
        v = int(x, 16)
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    y = x.lstrip('+-')
    if y.startswith('inf'):
        v = float('inf')
    elif 'nan' in y:
        v = float('nan')
    else:
        v = float(y)
        if b == 32:
            v = struct.unpack('<f', struct.pack('<f', v))[0]
    return -v if x.startswith('-') else v


META_CUT = re.compile(r', ![a-zA-Z_]')
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'samesign', 'nneg', 'volatile', 'atomic'}
CALLCONV = {'fastcc', 'coldcc', 'ccc', 'tailcc', 'preserve_mostcc', 'preserve_allcc', 'cc'}


class Func:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'order', 'parsed', 'loops', 'mod', 'nlines')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.parsed = False
        self.loops = None

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        label = None
        i = 0
        lines = self.lines
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                # label
                m = re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise ValueError("label? " + ln)
                label = '%' + m.group(1)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
                continue
            s = ln.strip()
            if cur is None:
                # implicit entry label
                cnt = sum(1 for _ in self.params)
                label = '%' + str(cnt)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
            if s.startswith('#dbg'):
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            m = META_CUT.search(s)
            if m:
                s = s[:m.start()]
            cur.append(self.parse_ins(s))
        return self

    def parse_ins(self, s):
        p = P(toks(s), self.mod)
        dst = None
        if p.kind() == 'local' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        flags = set()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        while p.peek() in FLAGS and op != 'call':
            flags.add(p.next())
        if op in BINOPS:
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, dst, t, a, b, frozenset(flags))
        if op == 'fneg':
            t, a = p.tv()
            return (op, dst, t, a)
        if op == 'freeze':
            t, a = p.tv()
            return (op, dst, t, a)
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            while p.peek() in FLAGS:
                flags.add(p.next())
            # for fcmp flags come before predicate (handled)
            while pred in FLAGS:
                pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, dst, t, a, b, pred)
        if op == 'select':
            ct, c = p.tv(); p.expect(',')
            t, a = p.tv(); p.expect(',')
            t2, b = p.tv()
            return (op, dst, t, c, a, b)
        if op in CASTS:
            while p.peek() in FLAGS:
                flags.add(p.next())
            t, a = p.tv()
            p.expect('to')
            t2 = p.type()
            return (op, dst, t, a, t2, frozenset(flags))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', None, p.next())
            t, c = p.tv()
            p.expect(','); p.expect('label'); a = p.next()
            p.expect(','); p.expect('label'); b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t, v = p.tv()
            p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tv()
                p.expect(','); p.expect('label')
                cases.append((cv[1], p.next()))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, None, None)
            t, v = p.tv()
            return ('ret', None, t, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((p.next(), v))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, dict(inc))
        if op == 'alloca':
            t = p.type()
            return ('alloca', dst, t)
        if op == 'load':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            p.expect(',')
            pt, pv = p.tv()
            return ('load', dst, t, pv)
        if op == 'store':
            while p.peek() in FLAGS:
                p.next()
            t, v = p.tv()
            p.expect(',')
            pt, pv = p.tv()
            return ('store', None, t, v, pv)
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(',')
            pt, base = p.tv()
            idx = []
            while p.accept(','):
                idx.append(p.tv())
            return ('gep', dst, bt, base, idx)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, v, idx)
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            t2, w = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, w, idx)
        if op == 'call':
            while p.peek() in FLAGS or p.peek() in CALLCONV:
                p.next()
            p.skip_ret_attrs() if hasattr(p, 'skip_ret_attrs') else None
            # return attributes
            while p.kind() == 'word' and not is_type_start(p.peek()):
                x = p.next()
                if p.peek() == '(':
                    p.skip_parens()
                elif x == 'align' and p.kind() == 'num':
                    p.next()
            rt = p.type()
            k = p.kind()
            if k == 'glob':
                callee = ('g', p.next())
            elif k == 'local':
                callee = ('l', p.next())
            elif p.peek() == 'asm':
                return ('asm', dst, s)
            else:
                callee = p.value(('p',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    args.append(p.tv())
                    if p.accept(')'):
                        break
                    p.expect(',')
            return ('call', dst, rt, callee, args)
        if op == 'fence':
            return ('nop', None)
        if op in ('cmpxchg', 'atomicrmw'):
            return ('unsup', dst, op, s)
        return ('unsup', dst, op, s)

    # ---- natural loops
    def get_loops(self):
        """header -> set of blocks (merged natural loops sharing a header)"""
        if self.loops is not None:
            return self.loops
        self.parse()
        succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            if t[0] == 'jmp':
                succ[b] = [t[2]]
            elif t[0] == 'br':
                succ[b] = [t[3], t[4]]
            elif t[0] == 'switch':
                succ[b] = [t[4]] + [l for _, l in t[5]]
            else:
                succ[b] = []
        entry = self.order[0]
        preds = {b: [] for b in self.order}
        for b, ss in succ.items():
            for x in ss:
                preds[x].append(b)
        # reverse postorder
        seen = set()
        post = []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for h in succ[b]:
                if h in num and dom(h, b):
                    body = loops.setdefault(h, {h})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(q for q in preds[x] if q in num)
        self.loops = loops
        return loops


TYPEWORDS = {'void', 'double', 'float', 'ptr', 'half', 'fp128', 'metadata', 'token', 'label'}


def is_type_start(x):
    return x in TYPEWORDS or re.fullmatch(r'i\d+', x) is not None


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}
        self.gtext = {}
        self.types = {}
        self.decls = set()
        cur = None
        with open(path) as f:
            for ln in f:
                if cur is not None:
                    if ln.startswith('}'):
                        cur = None
                        continue
                    cur.lines.append(ln.rstrip('\n'))
                    continue
                if ln.startswith('define '):
                    cur = self._header(ln)
                elif ln.startswith('@'):
                    m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', ln)
                    self.gtext[m.group(1)] = ln[m.end():].rstrip('\n')
                elif ln.startswith('%'):
                    m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', ln)
                    if m:
                        self.types[m.group(1)] = m.group(2)
                elif ln.startswith('declare '):
                    m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
                    if m:
                        self.decls.add(m.group(1))

    def named_type(self, n):
        t = self.types[n]
        return P(toks(t), self).type() if isinstance(t, str) else t

    def _header(self, ln):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
        f = Func(m.group(1), self)
        f.lines = []
        # params
        rest = ln[m.end()-1:]
        p = P(toks(rest), self)
        p.expect('(')
        params = []
        if not p.accept(')'):
            k = 0
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                if p.kind() == 'local':
                    nm = p.next()
                else:
                    nm = '%' + str(k)
                k += 1
                params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        f.params = params
        self.funcs[f.name] = f
        return f

    def glob(self, name):
        """returns (type, init descriptor or None, const?)"""
        if name in self.globals:
            return self.globals[name]
        txt = self.gtext[name]
        m = META_CUT.search(txt)
        # cut trailing align/metadata safely: parse tokens
        p = P(toks(re.sub(r', (!guid|!dbg|align|section|comdat)\b.*$', '', txt) if 'c"' not in txt else strip_tail(txt)), self)
        const = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = (x == 'constant')
                p.next()
                break
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        t = p.type()
        init = p.value(t) if p.i < len(p.t) else None
        self.globals[name] = (t, init, const)
        return self.globals[name]


def strip_tail(txt):
    # remove everything after the last '"' or '}' / '>' that closes the initializer
    i = max(txt.rfind('"'), txt.rfind('}>'), txt.rfind('}'), txt.rfind(']'))
    j = i + 1
    if txt.startswith('}>', i - 0):
        j = i + 2
    tail = txt[j:]
    if tail.startswith('>'):
        j += 1
    return txt[:j]


if __name__ == '__main__':
    import sys, time
    t0 = time.time()
    m = Module(sys.argv[1])
    print(len(m.funcs), len(m.gtext), time.time() - t0)
    t0 = time.time()
    uns = {}
    for f in m.funcs.values():
        f.parse()
        f.get_loops()
        for b in f.blocks.values():
            for i in b:
                if i[0] in ('unsup', 'asm'):
                    uns[i[2]] = uns.get(i[2], 0) + 1
    print("parsed", time.time() - t0, uns)
    for g in m.gtext:
        m.glob(g)
    print("globals ok", time.time()-t0)
