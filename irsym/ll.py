"""Reader for textual LLVM IR as emitted by rustc (the subset that occurs there).

Function bodies are parsed lazily, on first use. Nothing here knows about the crate under test.
"""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 |[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 |![a-zA-Z_0-9."]*
 |\#\d+
 |"[^"]*"
 |-?\d+\.\d+(?:e[+-]?\d+)?
 |0x[0-9A-Fa-f]+
 |-?\d+
 |\.\.\.
 |[a-zA-Z_$][-a-zA-Z0-9_.$]*
 |[()\[\]{}<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# ---- types: ('i',w) 'ptr' 'void' ('arr',n,t) ('st',(t..),packed) ('f',w) ('vec',n,t)
PTR = 'ptr'
VOID = 'void'
_isz = {}
NAMED = {}      # named types of the module being parsed


def size_align(t):
    r = _isz.get(t)
    if r is None:
        r = _isz[t] = _size_align(t)
    return r


def _size_align(t):
    if t == PTR:
        return 8, 8
    k = t[0]
    if k == 'i':
        w = t[1]
        b = (w + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p, min(p, 16)
    if k == 'f':
        return t[1] // 8, t[1] // 8
    if k == 'arr':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'vec':
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == 'st':
        off, al = 0, 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise IRError('size of %r' % (t,))


def field_offsets(t):
    offs, off = [], 0
    for e in t[1]:
        s, a = size_align(e)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        offs.append(off)
        off += s
    return offs


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class GRef:
    """Reference to a global symbol plus byte offset (link-time constant)."""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return '@%s+%d' % (self.name, self.off)


class Agg(tuple):
    """Constant or runtime aggregate value."""
    __slots__ = ()


class Instr:
    __slots__ = ('op', 'dst', 'a', 'line')

    def __init__(self, op, dst, a, line):
        self.op, self.dst, self.a, self.line = op, dst, a, line

    def __repr__(self):
        return self.line


class Func:
    def __init__(self, mod, name, ret, params, text, internal):
        self.mod, self.name, self.ret, self.params = mod, name, ret, params
        self.text = text
        self.blocks = None
        self.entry = None
        self.internal = internal

    def parse(self):
        if self.blocks is None:
            NAMED.clear()
            NAMED.update(self.mod.named)
            parse_body(self)
        return self


class Global:
    def __init__(self, name, ty, init, const, tls=False):
        self.name, self.ty, self.init, self.const, self.tls = name, ty, init, const, tls


class P:
    """Token cursor."""

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError('expected %s at %r' % (x, self.t[max(0, self.i - 5):self.i + 8]))


def name_of(tok):
    n = tok[1:]
    return n[1:-1] if n.startswith('"') else n


def p_type(p):
    x = p.next()
    if x == 'ptr':
        if p.eat('addrspace'):
            p.need('('), p.next(), p.need(')')
        t = PTR
    elif x == 'void':
        t = VOID
    elif x[0] == 'i' and x[1:].isdigit():
        t = ('i', int(x[1:]))
    elif x in ('float', 'double', 'half', 'fp128', 'bfloat'):
        t = ('f', {'float': 32, 'double': 64, 'half': 16, 'fp128': 128, 'bfloat': 16}[x])
    elif x == '[':
        n = int(p.next())
        p.need('x')
        e = p_type(p)
        p.need(']')
        t = ('arr', n, e)
    elif x == '{' or (x == '<' and p.peek() == '{'):
        packed = x == '<'
        if packed:
            p.next()
        es = []
        if not p.eat('}'):
            while True:
                es.append(p_type(p))
                if p.eat('}'):
                    break
                p.need(',')
        if packed:
            p.need('>')
        t = ('st', tuple(es), packed)
    elif x == '<':
        n = int(p.next())
        p.need('x')
        e = p_type(p)
        p.need('>')
        t = ('vec', n, e)
    elif x in ('metadata', 'label', 'token'):
        t = x
    elif x[0] == '%':
        t = ('named', name_of(x))
    else:
        raise IRError('type? %r in %r' % (x, p.t[max(0, p.i - 6):p.i + 6]))
    if t[0] == 'named' and t[1] in NAMED:
        t = NAMED[t[1]]
    if p.peek() == '(':  # function type
        d = 0
        while True:
            y = p.next()
            if y == '(':
                d += 1
            elif y == ')':
                d -= 1
                if d == 0:
                    break
    return t


VALUE_WORDS = {'null', 'undef', 'poison', 'zeroinitializer', 'true', 'false', 'none',
               'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add', 'ptrtoaddr'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x is None:
            return
        if x == 'align':
            p.next()
            if p.eat('('):
                p.next(), p.need(')')
            else:
                p.next()
            continue
        if x[0].isalpha() and x not in VALUE_WORDS and not x.startswith('c"'):
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    y = p.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            continue
        if x[0] == '"':
            p.next()
            if p.eat('='):
                p.next()
            continue
        return


def zero_of(t):
    if t == PTR or t[0] in 'if':
        return 0
    if t[0] == 'arr' or t[0] == 'vec':
        return Agg(zero_of(t[2]) for _ in range(t[1]))
    return Agg(zero_of(e) for e in t[1])


def undef_of(t):
    if t == PTR or t[0] in 'if':
        return UNDEF
    if t[0] == 'arr' or t[0] == 'vec':
        return Agg(undef_of(t[2]) for _ in range(t[1]))
    return Agg(undef_of(e) for e in t[1])


def p_value(p, t):
    """Returns a register name (str) or a constant."""
    x = p.next()
    c = x[0]
    if c == '%':
        return name_of(x)
    if c == '@':
        return GRef(name_of(x))
    if c == 'c' and x[1:2] == '"':
        return Agg(cstr(x[2:-1]))
    if x == 'true':
        return 1
    if x == 'false':
        return 0
    if x == 'null' or x == 'none':
        return 0
    if x in ('undef', 'poison'):
        return undef_of(t)
    if x == 'zeroinitializer':
        return zero_of(t)
    if c == '-' or c.isdigit():
        if t[0] == 'f':
            return x
        return int(x, 0) & ((1 << t[1]) - 1)
    if x == 'getelementptr':
        while p.peek() != '(':
            p.next()
            if p.peek() == '(' and p.t[p.i - 1] == 'inrange':
                while p.next() != ')':
                    pass
        p.need('(')
        bt = p_type(p)
        p.need(',')
        p_type(p)
        base = p_value(p, PTR)
        off = 0
        first = True
        cur = bt
        while p.eat(','):
            it = p_type(p)
            iv = p_value(p, it)
            iv = iv - (1 << it[1]) if iv >> (it[1] - 1) else iv
            if first:
                off += iv * size_align(cur)[0]
                first = False
            elif cur[0] == 'st':
                off += field_offsets(cur)[iv]
                cur = cur[1][iv]
            else:
                cur = cur[2]
                off += iv * size_align(cur)[0]
        p.need(')')
        if isinstance(base, GRef):
            return GRef(base.name, base.off + off)
        return (base + off) & (2**64 - 1)
    if x in ('inttoptr', 'ptrtoint', 'bitcast', 'ptrtoaddr'):
        p.need('(')
        ft = p_type(p)
        v = p_value(p, ft)
        p.need('to')
        p_type(p)
        p.need(')')
        return v
    if x == '{' or x == '[' or x == '<':
        if x == '<' and p.peek() == '{':
            p.next()
            x = '<{'
        end = {'{': '}', '[': ']', '<': '>', '<{': '}'}[x]
        vs = []
        if not p.eat(end):
            while True:
                et = p_type(p)
                vs.append(p_value(p, et))
                if p.eat(end):
                    break
                p.need(',')
        if x == '<{':
            p.need('>')
        return Agg(vs)
    raise IRError('value? %r in %r' % (x, p.t[max(0, p.i - 8):p.i + 6]))


def cstr(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr', 'addrspacecast'}
ORD = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'nneg', 'inbounds', 'nusw', 'volatile'}


def tv(p):
    t = p_type(p)
    skip_attrs(p)
    return t, p_value(p, t)


def p_instr(line):
    p = P(line)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = name_of(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'ret':
        if p.eat('void'):
            return Instr('ret', None, (None,), line)
        t, v = tv(p)
        return Instr('ret', None, (v,), line)
    if op == 'br':
        if p.eat('label'):
            return Instr('jmp', None, (name_of(p.next()),), line)
        t, v = tv(p)
        p.need(',')
        p.need('label')
        a = name_of(p.next())
        p.need(',')
        p.need('label')
        b = name_of(p.next())
        return Instr('br', None, (v, a, b), line)
    if op == 'switch':
        t, v = tv(p)
        p.need(',')
        p.need('label')
        d = name_of(p.next())
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct, cv = tv(p)
            p.need(',')
            p.need('label')
            cases.append((cv, name_of(p.next())))
        return Instr('switch', None, (v, d, tuple(cases), t), line)
    if op == 'unreachable':
        return Instr('unreachable', None, (), line)
    if op == 'alloca':
        t = p_type(p)
        n = 1
        if p.eat(',') and p.peek() != 'align':
            it, n = tv(p)
        return Instr('alloca', dst, (size_align(t)[0], n), line)
    if op == 'load':
        atomic = p.eat('atomic')
        p.eat('volatile')
        t = p_type(p)
        p.need(',')
        pt, v = tv(p)
        o = None
        if atomic:
            if p.peek() == 'syncscope':
                p.next(), p.next(), p.next(), p.next()
            o = p.next()
        return Instr('load', dst, (t, v, o), line)
    if op == 'store':
        atomic = p.eat('atomic')
        p.eat('volatile')
        t, v = tv(p)
        p.need(',')
        pt, d = tv(p)
        o = None
        if atomic:
            if p.peek() == 'syncscope':
                p.next(), p.next(), p.next(), p.next()
            o = p.next()
        return Instr('store', None, (t, v, d, o), line)
    if op == 'fence':
        if p.peek() == 'syncscope':
            p.next(), p.next(), p.next(), p.next()
        return Instr('fence', None, (p.next(),), line)
    if op == 'atomicrmw':
        p.eat('volatile')
        k = p.next()
        pt, ptr = tv(p)
        p.need(',')
        t, v = tv(p)
        if p.peek() == 'syncscope':
            p.next(), p.next(), p.next(), p.next()
        return Instr('atomicrmw', dst, (k, t, ptr, v, p.next()), line)
    if op == 'cmpxchg':
        weak = p.eat('weak')
        p.eat('volatile')
        pt, ptr = tv(p)
        p.need(',')
        t, c = tv(p)
        p.need(',')
        t, n = tv(p)
        if p.peek() == 'syncscope':
            p.next(), p.next(), p.next(), p.next()
        o1 = p.next()
        o2 = p.next()
        return Instr('cmpxchg', dst, (t, ptr, c, n, o1, o2, weak), line)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        if p.peek() == 'inrange':
            while p.next() != ')':
                pass
        bt = p_type(p)
        p.need(',')
        pt, base = tv(p)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(tv(p))
        # const part + list of (scale, operand, width)
        off, dyn, cur, first = 0, [], bt, True
        for it, iv in idx:
            if first:
                sc = size_align(cur)[0]
                first = False
            elif cur[0] == 'st':
                off += field_offsets(cur)[iv]
                cur = cur[1][iv]
                continue
            else:
                cur = cur[2]
                sc = size_align(cur)[0]
            if isinstance(iv, int):
                off += sc * (iv - (1 << it[1]) if iv >> (it[1] - 1) else iv)
            else:
                dyn.append((sc, iv, it[1]))
        return Instr('gep', dst, (base, off, tuple(dyn)), line)
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        t, a = tv(p)
        p.need(',')
        b = p_value(p, t)
        return Instr(op, dst, (t[1] if t[0] == 'i' else t, a, b), line)
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t, a = tv(p)
        p.need(',')
        b = p_value(p, t)
        return Instr('icmp', dst, (pred, t, a, b), line)
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        t, a = tv(p)
        p.need('to')
        t2 = p_type(p)
        return Instr(op, dst, (t, a, t2), line)
    if op == 'select':
        t, c = tv(p)
        p.need(',')
        t1, a = tv(p)
        p.need(',')
        t2, b = tv(p)
        return Instr('select', dst, (c, a, b, t1), line)
    if op == 'freeze':
        t, a = tv(p)
        return Instr('freeze', dst, (t, a), line)
    if op == 'extractvalue':
        t, a = tv(p)
        path = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            path.append(int(p.next()))
        return Instr('extractvalue', dst, (a, tuple(path)), line)
    if op == 'insertvalue':
        t, a = tv(p)
        p.need(',')
        t2, b = tv(p)
        path = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            path.append(int(p.next()))
        return Instr('insertvalue', dst, (a, b, tuple(path)), line)
    if op == 'phi':
        t = p_type(p)
        inc = []
        while True:
            p.need('[')
            v = p_value(p, t)
            p.need(',')
            inc.append((name_of(p.next()), v))
            p.need(']')
            if not p.eat(',') or p.peek()[0] == '!':
                break
        return Instr('phi', dst, (tuple(inc),), line)
    if op == 'call':
        # cc / ret attrs until a type followed by callee
        while True:
            x = p.peek()
            if x in ('fastcc', 'coldcc', 'ccc', 'range', 'noundef', 'zeroext', 'signext', 'noalias',
                     'nonnull', 'align', 'dereferenceable', 'dereferenceable_or_null', 'inreg',
                     'nnan', 'ninf', 'nsz', 'fast', 'rustcoldcc', 'preserve_mostcc', 'nofpclass'):
                if x == 'align':
                    p.next()
                    p.next()
                    continue
                p.next()
                if p.peek() == '(':
                    d = 0
                    while True:
                        y = p.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                continue
            break
        rt = p_type(p)
        if p.peek() == 'asm':
            return Instr('asm', dst, (), line)
        callee = p_value(p, PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p_type(p)
                skip_attrs(p)
                if t == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        d += y == '('
                        d -= y == ')'
                    args.append((t, None))
                else:
                    args.append((t, p_value(p, t)))
                if p.eat(')'):
                    break
                p.need(',')
        return Instr('call', dst, (rt, callee, tuple(args)), line)
    return Instr('unsupported', dst, (op,), line)


def parse_body(f):
    blocks, cur, label = {}, None, None
    pend = None
    for raw in f.text:
        line = raw.split(' ; preds')[0] if ' ; preds' in raw else raw
        s = line.strip()
        if not s or s[0] == ';':
            continue
        if pend is not None:
            pend += ' ' + s
            if ']' in s:
                cur.append(p_instr(pend))
                pend = None
            continue
        if not raw.startswith(' '):
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            label = m.group(1).strip('"')
            cur = blocks[label] = []
            if f.entry is None:
                f.entry = label
            continue
        if cur is None:
            f.entry = label = '0'
            cur = blocks[label] = []
        if s.startswith('switch') and ']' not in s:
            pend = s
            continue
        k = s.find(', !')
        if k > 0 and 'metadata' not in s:
            s = s[:k]
        cur.append(p_instr(s))
    f.blocks = blocks


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs, self.globals, self.decls, self.aliases = {}, {}, {}, {}
        attrs = {}
        text = open(path).read().split('\n')
        i, n = 0, len(text)
        noret_decl = {}
        self.named = {}
        NAMED.clear()
        for l in text:  # definitions may refer to later ones: iterate until all are resolved
            if l.startswith('%') and ' = type ' in l:
                a, _, b = l.partition(' = type ')
                self.named[name_of(a)] = b
        todo = dict(self.named)
        while todo:
            done = []
            for k, b in todo.items():
                if b == 'opaque':
                    NAMED[k] = ('st', (), False)
                    done.append(k)
                    continue
                t = p_type(P(b))
                if "'named'" not in repr(t):
                    NAMED[k] = t
                    done.append(k)
            if not done:
                raise IRError('recursive named types')
            for k in done:
                del todo[k]
        self.named = dict(NAMED)
        while i < n:
            l = text[i]
            if l.startswith('define '):
                j = i + 1
                while text[j] != '}':
                    j += 1
                self._define(l, text[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = m.group(1).strip('"')
                g = re.search(r'\) .*#(\d+)|\) #(\d+)', l)
                g = re.findall(r'#(\d+)', l)
                noret_decl[nm] = g[-1] if g else None
                self.decls[nm] = l
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                attrs[m.group(1)] = m.group(2)
            i += 1
        self.noreturn = {k for k, g in noret_decl.items() if g and 'noreturn' in attrs.get(g, '')}

    def _define(self, l, body):
        p = P(l)
        p.next()
        internal = False
        while True:
            x = p.peek()
            if x in ('internal', 'private'):
                internal = True
            if x == 'align':
                p.next()
                p.next()
                continue
            if x[0] in '[{<' or x in ('ptr', 'void', 'float', 'double') or re.fullmatch(r'i\d+', x):
                break
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    y = p.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
        ret = p_type(p)
        nm = name_of(p.next())
        p.need('(')
        params = []
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                    p.need(')')
                    break
                t = p_type(p)
                skip_attrs(p)
                params.append((t, name_of(p.next())))
                if p.eat(')'):
                    break
                p.need(',')
        self.funcs[nm] = Func(self, nm, ret, params, body, internal)

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        nm, rest = m.group(1).strip('"'), m.group(2)
        p = P(rest)
        ext = tls = False
        while p.peek() not in ('constant', 'global', 'alias', 'ifunc'):
            x = p.next()
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local':
                tls = True
        kind = p.next()
        if kind in ('alias', 'ifunc'):
            t = p_type(p)
            p.need(',')
            t2, v = tv(p)
            self.aliases[nm] = v
            return
        t = p_type(p)
        init = None
        if not ext:
            init = p_value(p, t)
        self.globals[nm] = Global(nm, t, init, kind == 'constant', tls)


class Program:
    """Several modules linked by symbol name (internal symbols stay per module)."""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.f, self.g, self.noreturn = {}, {}, set()
        for m in self.mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.f.setdefault(n, f)
            for n, g in m.globals.items():
                if g.init is not None:
                    self.g.setdefault(n, (m, g))
            self.noreturn |= m.noreturn

    def func(self, mod, name):
        f = mod.funcs.get(name) if mod else None
        if f is None:
            f = self.f.get(name)
        if f is None and mod is not None and name in mod.aliases:
            v = mod.aliases[name]
            return self.func(mod, v.name)
        return f

    def glob(self, mod, name):
        g = mod.globals.get(name) if mod else None
        if g is not None and g.init is not None:
            return mod, g
        return self.g.get(name)


def demangle(n):
    """Readable path of a v0-mangled name: just the identifiers, good enough for reports."""
    out, i = [], 0
    for m in re.finditer(r'(\d+)_?([a-zA-Z_][a-zA-Z_0-9]*)', n):
        k = int(m.group(1))
        s = m.group(2)[:k] if len(m.group(2)) >= k else m.group(2)
        out.append(s)
    return '::'.join(out) or n
