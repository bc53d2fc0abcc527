"""Symbolic execution of LLVM IR with z3, state merging at function returns.

Values: int (concrete), z3 BitVecRef (symbolic), Ptr, UNDEF, Agg; i1: 0/1 or z3 BoolRef.
A state carries memory (copy-on-write objects), the path condition and the tape of symbolic inputs.
"""
import time
import z3
from .smt import (Ctx, eq_lin, mk_add, mk_sub, eq_const, b_not, b_and, b_or, b_ite, mk_ite, mk_extract, mk_concat)
from .kernel import Kernel
from .ll import UNDEF, Agg, GRef, PTR, size_align, field_offsets, Program, IRError, demangle

M64 = (1 << 64) - 1
BV = z3.BitVecRef
BoolRef = z3.BoolRef


class Stop(Exception):
    """Engine cannot go on (unsupported construct, solver gave up, bound exceeded): never a verdict."""


class Violation(Exception):
    def __init__(self, kind, msg, tape, model=None, trace=None):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg, self.tape, self.model, self.trace = kind, msg, tape, model, trace


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Lit:
    """One conjunct of a path condition. Branch literals of one fork share `fid`."""
    __slots__ = ('c', 'fid', 'ways', 'n', 'bad')

    def __init__(self, c, fid=0, ways=1, n=1):
        self.c, self.fid, self.ways, self.n, self.bad = c, fid, ways, n, False


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'arr', 'zero', 'live', 'own', 'base', 'name', 'align', 'ro', 'extra')

    def __init__(self, id, size, kind, base, own, name='', align=1):
        self.id, self.size, self.kind, self.base, self.own = id, size, kind, base, own
        self.cells, self.arr, self.zero, self.live = {}, None, False, True
        self.name, self.align, self.ro, self.extra = name, align, False, None

    def copy(self, own):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.base, o.own = self.id, self.size, self.kind, self.base, own
        o.cells, o.arr, o.zero, o.live = dict(self.cells), self.arr, self.zero, self.live
        o.name, o.align, o.ro, o.extra = self.name, self.align, self.ro, self.extra
        return o


class Tape:
    """Persistent list of symbolic inputs; 'm' nodes hold alternatives created by merging."""
    __slots__ = ('prev', 'item', 'n')

    def __init__(self, prev, item):
        self.prev, self.item = prev, item
        self.n = prev.n + 1 if prev else 1


def tape_items(t):
    out = []
    while t is not None:
        out.append(t.item)
        t = t.prev
    out.reverse()
    return out


def tape_terms(t, out):
    """terms whose values decide what is on the tape"""
    for it in tape_items(t) if isinstance(t, Tape) else t or ():
        if it[0] == 'v':
            out.append(it[1])
        elif it[0] == 'm':
            for c, sub in it[1]:
                out.append(c)
                tape_terms(sub, out)
    return out


def eval_tape(t, model, out=None):
    """Concrete inputs, in execution order, of the path that `model` follows."""
    if out is None:
        out = []
    for it in tape_items(t) if isinstance(t, Tape) else t or ():
        if it[0] == 'v':
            out.append(('v', int(model.val(it[1])), it[2]))
        elif it[0] == 'a':
            n = it[2] if isinstance(it[2], int) else model.val(it[2])
            if n > 1 << 22:
                out.append(('A', n, [], ''))
                continue
            out.append(('a', n, model.bytes(it[1], n), ''))
        else:
            for c, sub in it[1]:
                if model.val(c):
                    eval_tape(sub, model, out)
                    break
            else:
                raise Stop('tape alternative not determined by the model')
    return out


class State:
    __slots__ = ('mem', 'pc', 'tok', 'nid', 'tape', 'model', 'steps', 'ev', 'flags')

    def __init__(self):
        self.mem, self.pc, self.tok, self.nid = {}, [], object(), 1
        self.tape, self.model, self.steps, self.ev, self.flags = None, None, 0, None, {}

    def fork(self):
        s = State.__new__(State)
        s.mem, s.pc, s.nid = dict(self.mem), list(self.pc), self.nid
        self.tok, s.tok = object(), object()
        s.tape, s.model, s.steps, s.ev, s.flags = self.tape, self.model, self.steps, self.ev, dict(self.flags)
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.own is not self.tok:
            o = o.copy(self.tok)
            self.mem[oid] = o
        return o


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def bo(x):
    """i1 value as z3 Bool"""
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if isinstance(x, BoolRef):
        return x
    return x == z3.BitVecVal(1, 1)


def is_ite01(x):
    """Condition c if x is syntactically If(c, 1, 0)."""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = x.arg(1), x.arg(2)
        if isinstance(a, z3.BitVecNumRef) and isinstance(b, z3.BitVecNumRef):
            x1, x0 = a.as_long(), b.as_long()
            if x1 == 1 and x0 == 0:
                return x.arg(0)
            if x1 == 0 and x0 == 1:
                return z3.Not(x.arg(0))
    return None


def py(x):
    """z3 Bool numerals to python"""
    return True if z3.is_true(x) else False if z3.is_false(x) else x


def low_bit(x):
    """lowest bit of a tree of 0/1 numerals as a Bool, or None"""
    if isinstance(x, z3.BitVecNumRef):
        return bool(x.as_long() & 1)
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        a = low_bit(x.arg(1))
        if a is None:
            return None
        b = low_bit(x.arg(2))
        if b is None:
            return None
        return b_ite(x.arg(0), a, b)
    if k == z3.Z3_OP_ZERO_EXT:
        return low_bit(x.arg(0))
    return None


class SArr:
    """Byte array of symbolic length: a persistent log of writes, read at finitely many indexes."""
    __slots__ = ('k', 'a', 'x', 'memo')

    def __init__(self, k, a, *x):
        self.k, self.a, self.x, self.memo = k, a, x, {}


def mk_select(n, i):
    """byte at index i; looks through writes at syntactically equal or distinct indexes"""
    while n.k == 'store':
        j = n.x[0]
        if j.eq(i):
            return n.x[1]
        if isinstance(i, z3.BitVecNumRef) and isinstance(j, z3.BitVecNumRef) or distinct(i, j):
            n = n.a
            continue
        same = n.memo.get((key := i.get_id(), 0))
        if same is None:
            same = n.memo[key, 0] = i, eq_lin(i, j)
        same = same[1]
        if same is True:
            return n.x[1]
        if same is False:
            n = n.a
            continue
        break
    key = i.get_id()
    r = n.memo.get(key)
    if r is not None:
        return r[1]
    if n.k == 'base':
        v = z3.Select(n.a, i)
    elif n.k == 'store':
        v = mk_ite(same, n.x[1], mk_select(n.a, i))
    elif n.k == 'copy':
        d, ln, src, so = n.x
        v = mk_ite(z3.And(z3.ULE(d, i), z3.ULT(mk_sub(i, d, 64), ln)),
                   mk_select(src, mk_add(so, mk_sub(i, d, 64), 64)), mk_select(n.a, i))
    elif n.k == 'zero':
        v = z3.BitVecVal(0, 8)
    elif n.k == 'fill':
        d, ln, val = n.x
        v = mk_ite(z3.And(z3.ULE(d, i), z3.ULT(mk_sub(i, d, 64), ln)), val, mk_select(n.a, i))
    else:
        x, y = mk_select(n.x[0], i), mk_select(n.x[1], i)
        v = x if x.eq(y) else z3.If(n.a, x, y)
    n.memo[key] = (i, v)
    return v


def base_off(x):
    if z3.is_app_of(x, z3.Z3_OP_BADD) and x.num_args() == 2 and isinstance(x.arg(1), z3.BitVecNumRef):
        return x.arg(0), x.arg(1).as_long()
    return x, 0


def distinct(i, j):
    a, k = base_off(i)
    b, l = base_off(j)
    return a.eq(b) and k != l


def norm(x):
    """Fold numerals back to int."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BitVecNumRef):
        return x.as_long()
    if isinstance(x, BoolRef):
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
    return x


def simp(x):
    return norm(z3.simplify(x))


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Engine(Kernel):
    def __init__(self, prog, prop=None, timeout_ms=60000, max_steps=40000):
        self.prog = prog
        self.prop = prop
        self.bounds = {}     # ast id -> (variable, inclusive upper bound)
        self.ctx = Ctx(self.bounds, timeout_ms)
        self.stats = dict(queries=0, solver_s=0.0, instrs=0, forks=0, merges=0, checks=0, paths=0,
                          discharged=0)
        self.funcs_seen = {}
        self.max_steps = max_steps
        self.fresh = 0
        self.fid = 0
        self.covers = {}
        self.globals_base = {}
        self.gobjs = {}
        self.ngobj = 0
        self.fn_addr = {}
        self.violations = []
        self.deadline = None
        self.assume_extra = None
        self.hooks = {}       # extern name -> handler(engine, state, args, instr) -> list[(state, ret)]
        self.conc = None      # concurrency recorder
        self.hang = False     # exceeding the step bound is a violation (non-termination), not an inconclusive end
        self.merge = True
        self.keep_going = False
        self.depth = 0
        self.handlers = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}
        self.intr_cache = {}
        self.trace = []

    # ---------------------------------------------------------------- solver
    def check(self, pc, *extra, also=()):
        """(sat?, model)"""
        if self.deadline and time.time() > self.deadline:
            raise Stop('time budget exceeded')
        t = time.time()
        r, m, s = self.ctx.check(pc, extra, also)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat:
            return True, m
        if r == z3.unsat:
            return False, None
        raise Stop('solver gave up: %s' % s.reason_unknown())

    def get_model(self, st):
        if st.model is None:
            ok, st.model = self.check(st.pc)
            if not ok:
                raise Stop('internal: unsatisfiable path')
        return st.model

    def both(self, st, c):
        """c: z3 Bool. -> (can_true, model_t, can_false, model_f)"""
        m = self.get_model(st)
        h = m.holds(c)
        if h is None:
            ok, m1 = self.check(st.pc, c)
            if not ok:
                return False, None, True, m
            ok, m2 = self.check(st.pc, b_not(c))
            return True, m1, ok, m2
        if h:
            ok, m2 = self.check(st.pc, b_not(c))
            return True, m, ok, m2
        ok, m2 = self.check(st.pc, c)
        return ok, m2, True, m

    def assume(self, st, c):
        """Adds c; False if that makes the path infeasible."""
        c = norm(c)
        if isinstance(c, int):
            return bool(c)
        m = self.get_model(st)
        if not m.holds(c):
            ok, m2 = self.check(st.pc, c)
            if not ok:
                return False
            st.model = m2
        st.pc = st.pc + [Lit(c)]
        return True

    def must(self, st, c, kind, msg):
        """Obligation: c holds on this path, else violation."""
        c = norm(c)
        self.stats['checks'] += 1
        if isinstance(c, int):
            if not c:
                self.report(st, None, kind, msg)
                return False
            return True
        if self.get_model(st).holds(c) is not False:
            ok, m2 = self.check(st.pc, b_not(c))
            if not ok:
                self.stats['discharged'] += 1
                return True
        self.report(st, b_not(c), kind, msg)
        return False

    def report(self, st, neg, kind, msg):
        # prefer a small counterexample
        neg = [] if neg is None else [neg]
        also = tape_terms(st.tape, [])
        m = None
        for lim in (4, 8, 64, 4096, 1 << 20):
            soft = [z3.ULE(v, lim) for v in st.flags.get('small', ())]
            if not soft:
                break
            ok, m = self.check(st.pc, *neg, *soft, also=also)
            if ok:
                break
            m = None
        if m is None:
            ok, m = self.check(st.pc, *neg, also=also)
            if not ok:
                raise Stop('internal: violation path infeasible')
        v = Violation(kind, msg, eval_tape(st.tape, m), m, [demangle(x) for x in self.trace[-6:]])
        self.violations.append(v)
        if not self.keep_going:
            raise v

    def witness(self, st):
        """concrete inputs of one run that follows this path"""
        also = tape_terms(st.tape, [])
        for lim in (3, 64):
            soft = [z3.ULE(v, lim) for v in st.flags.get('small', ())]
            ok, m = self.check(st.pc, *soft, also=also)
            if ok or not soft:
                break
        if not ok:
            ok, m = self.check(st.pc, also=also)
        return eval_tape(st.tape, m)

    def sym(self, name, w):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w) if w else z3.Bool('%s!%d' % (name, self.fresh))

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind, name='', align=1):
        i = st.nid
        st.nid += 1
        o = Obj(i, size, kind, (i + 1) << 24 if isinstance(size, int) else (i + 1) << 50, st.tok, name, align)
        if isinstance(size, int) and size >= 1 << 22:
            o.base = (i + 1) << 50
        st.mem[i] = o
        return o

    def gobj(self, st, mod, name):
        key = (mod.path if name in mod.globals and mod.globals[name].init is not None else '', name)
        r = self.gobjs.get(key)
        if r is None:
            f = self.prog.func(mod, name)
            self.ngobj += 1
            gid = ('g', self.ngobj)
            base = 0x7000_0000_0000_0000 + (self.ngobj << 16)
            if f is not None or self.prog.glob(mod, name) is None:
                o = Obj(gid, 0, 'fn', base, None, name)
                o.extra = (mod, name)
            else:
                m2, g = self.prog.glob(mod, name)
                o = Obj(gid, size_align(g.ty)[0], 'global', base, None, name)
                o.ro = g.const
                self.gobjs[key] = o
                self.init_cells(st, o, 0, g.ty, g.init, m2)
            r = self.gobjs[key] = o
        if r.id not in st.mem:
            st.mem[r.id] = r
        return r.id

    def init_cells(self, st, o, off, t, v, mod):
        if t == PTR:
            if isinstance(v, GRef):
                v = Ptr(self.gobj(st, mod, v.name), v.off)
            o.cells[off] = (8, v)
        elif t[0] == 'i':
            if v is not UNDEF:
                o.cells[off] = ((t[1] + 7) // 8, v)
        elif t[0] in ('arr', 'vec'):
            s = size_align(t[2])[0]
            for i, e in enumerate(v):
                self.init_cells(st, o, off + i * s, t[2], e, mod)
        elif t[0] == 'st':
            for fo, ft, e in zip(field_offsets(t), t[1], v):
                self.init_cells(st, o, off + fo, ft, e, mod)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, tuple):
            for g in self.gobjs.values():
                if g.id == oid:
                    st.mem[oid] = g
                    return g
        return o

    def addr(self, st, p):
        if isinstance(p, Ptr):
            o = self.obj(st, p.obj)
            base = o.base if o is not None else (p.obj + 1) << 24
            if isinstance(p.off, int):
                return (base + p.off) & M64
            return z3.BitVecVal(base, 64) + p.off
        return p

    def find_by_addr(self, st, a):
        for o in st.mem.values():
            if isinstance(o.size, int) and o.base <= a < o.base + max(o.size, 1):
                return Ptr(o.id, a - o.base)
        return None

    def access(self, st, p, size, what):
        """Validity of an access of `size` (int) bytes; returns object or None (size 0)."""
        if isinstance(size, int) and size == 0:
            return None
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                q = self.find_by_addr(st, p)
                if q is not None:
                    return self.access(st, q, size, what)
            self.fail(st, 'memory', '%s through an invalid pointer' % what)
        o = self.obj(st, p.obj)
        if o is None or not o.live:
            self.fail(st, 'memory', '%s after free / out of scope (%s)' % (what, o.name if o else '?'))
        if o.kind == 'fn':
            self.fail(st, 'memory', '%s of a function' % what)
        off, sz = p.off, o.size
        if not isinstance(size, int):
            o2, s2 = bv(off, 64), bv(sz, 64)
            c = z3.Or(size == 0, z3.And(z3.ULE(size, s2), z3.ULE(o2, mk_sub(s2, size, 64))))
            self.must_or_die(st, c, 'memory', '%s out of bounds of %s %s' % (what, o.kind, o.name))
        elif isinstance(off, int) and isinstance(sz, int):
            if off > M64 // 2 or off + size > sz:
                self.fail(st, 'memory', '%s out of bounds: offset %d size %d of %d-byte %s %s' % (what, off, size, sz, o.kind, o.name))
        else:
            o2, s2 = bv(off, 64), bv(sz, 64)
            c = z3.And(z3.ULE(z3.BitVecVal(size, 64), s2), z3.ULE(o2, s2 - size))
            self.must_or_die(st, c, 'memory', '%s out of bounds of %s %s' % (what, o.kind, o.name))
        return o

    def fail(self, st, kind, msg):
        self.report(st, None, kind, msg)
        raise Dead()

    def must_or_die(self, st, c, kind, msg):
        if not self.must(st, c, kind, msg):
            if not self.assume(st, c):
                raise Dead()

    def byte(self, o, i, st):
        """byte i of finite object: int/BV8/UNDEF"""
        cells = o.cells
        c = cells.get(i)
        if c is not None:
            return self.cut(st, c[1], c[0], 0, 1)
        for d in range(1, 16):
            c = cells.get(i - d)
            if c is not None:
                if c[0] > d:
                    return self.cut(st, c[1], c[0], d, 1)
                break
        return 0 if o.zero else UNDEF

    def cut(self, st, v, size, at, n):
        """n bytes of v starting at byte `at`"""
        if n == size:
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Ptr):
            v = self.addr(st, v)
        if isinstance(v, int):
            return (v >> (8 * at)) & ((1 << (8 * n)) - 1)
        return norm(mk_extract(8 * (at + n) - 1, 8 * at, bv(v, 8 * size)))

    def join(self, bs):
        """bytes (LSB first) -> value"""
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            # partly initialised (a small aggregate passed in a register): the padding may be anything
            bs = [self.sym('undef', 8) if b is UNDEF else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        return norm(mk_concat([bv(b, 8) for b in reversed(bs)]))

    def rd(self, st, o, off, size):
        if o.arr is not None:
            ob = bv(off, 64)
            bs = [mk_select(o.arr, mk_add(ob, z3.BitVecVal(i, 64), 64)) for i in range(size)]
            return norm(mk_concat(bs[::-1]))
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.join([self.byte(o, off + i, st) for i in range(size)])

    def clear(self, st, o, off, size):
        """remove [off, off+size) from cells, keeping the outer parts of straddling cells"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            del cells[off]
            return
        if size > 64 and len(cells) < size:
            ks = [k for k in cells if k < off + size and k + cells[k][0] > off]
        else:
            ks = [k for k in range(off - 15, off + size) if k in cells and k + cells[k][0] > off]
        for k in ks:
            s, v = cells.pop(k)
            for j in range(s):
                if k + j < off or k + j >= off + size:
                    b = self.cut(st, v, s, j, 1)
                    if b is not UNDEF:
                        cells[k + j] = (1, b)

    def wr(self, st, o, off, size, v):
        if o.ro:
            self.fail(st, 'memory', 'write to constant memory')
        if o.arr is not None:
            ob = bv(off, 64)
            if isinstance(v, Ptr):
                v = self.addr(st, v)
            if v is UNDEF:
                v = self.sym('undef', size * 8)
            vb = bv(v, size * 8)
            a = o.arr
            for i in range(size):
                a = SArr('store', a, mk_add(ob, z3.BitVecVal(i, 64), 64), mk_extract(8 * i + 7, 8 * i, vb))
            o.arr = a
            return
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(st, o, off, size)
            if o.zero and v is UNDEF:
                pass
        o.cells[off] = (size, v)

    def load(self, st, p, t, order=None):
        if self.conc is not None:
            r = self.conc.load(self, st, p, t, order, None)
            if r is not NotImplemented:
                return r
        if t == PTR:
            size = 8
        elif t[0] == 'i':
            size = (t[1] + 7) // 8
        else:
            size = size_align(t)[0]
            if t[0] == 'st':
                return Agg(self.load(st, self.padd(p, fo), ft) for fo, ft in zip(field_offsets(t), t[1]))
            if t[0] in ('arr', 'vec'):
                s = size_align(t[2])[0]
                return Agg(self.load(st, self.padd(p, i * s), t[2]) for i in range(t[1]))
        if self.maps and size and self.is_map(st, p):
            if not self.obj(st, p.obj).live:
                self.fail(st, 'memory', 'read of memory that has been unmapped')
            ps = self.map_one(st, p, size, 'read')
            if len(ps) > 1:
                v = self.join([self.rd(st, self.access(st, q, 1, 'read'), simp_off(q.off, k), 1) for q, ln in ps for k in range(ln)])
                return v if t == PTR or not t[1] & 7 else self.trunc(v, size * 8, t[1])
            p = ps[0][0]
        o = self.access(st, p, size, 'read')
        if o is None:
            return UNDEF
        if not isinstance(p, Ptr):
            p = self.find_by_addr(st, p)
        v = self.rd(st, o, p.off, size)
        if t == PTR:
            if isinstance(v, int) and v > 4096:
                q = self.find_by_addr(st, v)
                if q is not None:
                    return q
            return v
        if t[1] & 7:
            if v is UNDEF:
                return v
            return self.trunc(v, size * 8, t[1])
        if isinstance(v, Ptr):
            return v          # integer load of a pointer cell: keep provenance
        return v

    def store(self, st, p, t, v, order=None):
        if self.conc is not None:
            r = self.conc.store(self, st, p, t, v, order, None)
            if r is not NotImplemented:
                return
        if t == PTR:
            size = 8
        elif t[0] == 'i':
            size = (t[1] + 7) // 8
            if t[1] & 7:
                v = self.zext(v, t[1], size * 8)
        elif t[0] == 'st':
            for fo, ft, e in zip(field_offsets(t), t[1], v):
                self.store(st, self.padd(p, fo), ft, e)
            return
        elif t[0] in ('arr', 'vec'):
            s = size_align(t[2])[0]
            for i, e in enumerate(v):
                self.store(st, self.padd(p, i * s), t[2], e)
            return
        else:
            size = size_align(t)[0]
        if self.maps and size and self.is_map(st, p):
            if not self.obj(st, p.obj).live:
                self.fail(st, 'memory', 'write to memory that has been unmapped')
            ps = self.map_one(st, p, size, 'write')
            if len(ps) > 1:
                k = 0
                for q, ln in ps:
                    self.wr(st, st.w(self.access(st, q, ln, 'write').id), q.off, ln, self.cut(st, v, size, k, ln))
                    k += ln
                return
            p = ps[0][0]
        o = self.access(st, p, size, 'write')
        if o is None:
            return
        if not isinstance(p, Ptr):
            p = self.find_by_addr(st, p)
        self.wr(st, st.w(o.id), p.off, size, v)

    def padd(self, p, d):
        if isinstance(d, int) and d == 0:
            return p
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(d, int):
                return Ptr(p.obj, (p.off + d) & M64)
            return Ptr(p.obj, norm(mk_add(bv(p.off, 64), bv(d, 64), 64)))
        if p is UNDEF:
            return UNDEF
        if isinstance(p, int) and isinstance(d, int):
            return (p + d) & M64
        return norm(mk_add(bv(p, 64), bv(d, 64), 64))

    def copy_mem(self, st, d, s, n):
        """memmove of concrete n bytes"""
        if n == 0:
            return
        so = self.access(st, s, n, 'read')
        do = self.access(st, d, n, 'write')
        if not isinstance(s, Ptr):
            s = self.find_by_addr(st, s)
        if not isinstance(d, Ptr):
            d = self.find_by_addr(st, d)
        if so.arr is None and do.arr is None:
            cells = so.cells
            a, b = s.off, s.off + n
            items = []
            if n <= 64:
                ks = [k for k in range(a - 15, b) if k in cells]
            else:
                ks = [k for k in cells if a - 15 <= k < b]
            covered = 0
            for k in ks:
                sz, v = cells[k]
                if k >= a and k + sz <= b:
                    items.append((k - a, sz, v))
                    covered += sz
                elif k + sz > a and k < b:
                    for j in range(sz):
                        if a <= k + j < b:
                            items.append((k + j - a, 1, self.cut(st, v, sz, j, 1)))
                            covered += 1
            if so.zero and covered < n:
                have = set()
                for k, sz, v in items:
                    have.update(range(k, k + sz))
                items += [(i, 1, 0) for i in range(n) if i not in have]
            w = st.w(do.id)
            if w.ro:
                self.fail(st, 'memory', 'write to constant memory')
            self.clear(st, w, d.off, n)
            if w.zero and covered < n and not so.zero:
                have = set()
                for k, sz, v in items:
                    have.update(range(k, k + sz))
                items += [(i, 1, UNDEF) for i in range(n) if i not in have]
            for k, sz, v in items:
                w.cells[d.off + k] = (sz, v)
            return
        vals = [self.rd(st, so, simp_off(s.off, i), 1) for i in range(n)]
        w = st.w(do.id)
        for i, v in enumerate(vals):
            self.wr(st, w, simp_off(d.off, i), 1, v)

    def copy_any(self, st, kind, d, s, ln):
        """memcpy/memmove of a symbolic number of bytes between symbolic arrays"""
        for p in (d, s):
            if not isinstance(p, Ptr):
                return None
            o = self.obj(st, p.obj)
            if o is None or o.arr is None:
                return None
        objs = []
        for p, what in ((s, 'read'), (d, 'write')):
            o = self.access(st, p, ln, what)
            objs.append(o)
        so, do = objs
        sf, df = bv(s.off, 64), bv(d.off, 64)
        if kind == 'memcpy' and so.id == do.id:
            c = z3.Or(ln == 0, z3.And(z3.ULE(df, sf), z3.ULE(ln, mk_sub(sf, df, 64))),
                      z3.And(z3.ULE(sf, df), z3.ULE(ln, mk_sub(df, sf, 64))))
            self.must_or_die(st, c, 'memory', 'overlapping copy_nonoverlapping')
        w = st.w(do.id)
        w.arr = SArr('copy', w.arr, df, ln, so.arr, sf)
        return [(st, None)]

    # ---------------------------------------------------------------- arithmetic
    def trunc(self, v, w, w2):
        if v is UNDEF:
            return v
        if isinstance(v, Ptr):
            raise Stop('trunc of pointer')
        if isinstance(v, int):
            return v & ((1 << w2) - 1)
        if w2 == 1:
            c = low_bit(v)
            return norm(c) if c is not None else norm(eq_const(mk_extract(0, 0, v), 1))
        return norm(mk_extract(w2 - 1, 0, v))

    def zext(self, v, w, w2):
        if v is UNDEF or isinstance(v, int):
            return v
        if isinstance(v, BoolRef):
            return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        return z3.ZeroExt(w2 - w, v)

    def binop(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'shl':
                return (a << b) & m if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & m if b < w else UNDEF
            if op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & m
            if op == 'srem':
                x, y = sgn(a, w), sgn(b, w)
                r = abs(x) % abs(y)
                return (-r if x < 0 else r) & m
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # integer arithmetic on a pointer that was loaded as an integer
            return ('ptrarith', op, a, b)
        if w == 1:
            a, b = (x if isinstance(x, int) else bo(x) for x in (a, b))
            if op == 'and':
                return norm(b_and(a, b))
            if op == 'or':
                return norm(b_or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return norm(b_not(a)) if b else a
                return z3.Xor(a, b)
            raise Stop('i1 ' + op)
        if isinstance(a, int) and op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('mul', 'and'):
                    return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b == 1 and op == 'urem':
                return 0
            if b == (1 << w) - 1 and op == 'and':
                return a
        a, b = bv(a, w), bv(b, w)
        f = {'add': lambda: mk_add(a, b, w), 'sub': lambda: mk_sub(a, b, w), 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'udiv': lambda: z3.UDiv(a, b),
             'urem': lambda: z3.URem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]
        return norm(f())

    def icmp(self, st, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = 64 if t == PTR else t[1]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            a, b = a.off, b.off
            if isinstance(a, int):
                a = (a + (1 << 40)) & M64   # offsets may be "negative" (one before); keep order
            if isinstance(b, int):
                b = (b + (1 << 40)) & M64
            if not (isinstance(a, int) and isinstance(b, int)):
                if isinstance(a, int):
                    a -= 1 << 40
                if isinstance(b, int):
                    b -= 1 << 40
        else:
            if isinstance(a, Ptr):
                a = self.addr(st, a)
            if isinstance(b, Ptr):
                b = self.addr(st, b)
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            k = pred[1:]
            return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if w == 1:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                e = bo(a) if b else b_not(bo(a))
            else:
                e = bo(a) == bo(b)
            return norm(e if pred == 'eq' else b_not(e))
        if pred == 'eq' or pred == 'ne':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                r = eq_const(a, b)
            else:
                r = True if a.eq(b) else a == b
            return norm(b_not(r) if pred == 'ne' else r)
        a, b = bv(a, w), bv(b, w)
        if a.eq(b):
            return int(pred[2] == 'e')
        if pred == 'ult' and isinstance(b, z3.BitVecNumRef) and b.as_long() == 1:
            return norm(eq_const(a, 0))
        r = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred)
        return r(a, b) if r else {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]

    # ---------------------------------------------------------------- merging
    def ite(self, c, a, b):
        """merged value or None when impossible"""
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta, tb = type(a), type(b)
        if ta is Agg or tb is Agg:
            if ta is not tb or len(a) != len(b):
                return None
            out = []
            for x, y in zip(a, b):
                v = self.ite(c, x, y)
                if v is None:
                    return None
                out.append(v)
            return Agg(out)
        if ta is Ptr or tb is Ptr:
            if ta is not tb or a.obj != b.obj:
                return None
            if isinstance(a.off, int) and isinstance(b.off, int):
                if a.off == b.off:
                    return a
            o = self.ite(c, a.off, b.off) if not (isinstance(a.off, int) and isinstance(b.off, int)) else \
                z3.If(c, z3.BitVecVal(a.off, 64), z3.BitVecVal(b.off, 64))
            return Ptr(a.obj, o)
        if ta is tuple or tb is tuple:
            return None
        if ta is int and tb is int:
            if a == b:
                return a
            return ('ii', a, b)
        if isinstance(a, BoolRef) or isinstance(b, BoolRef):
            a, b = bo(a), bo(b)
            if a.eq(b):
                return a
            return norm(b_ite(c, py(a), py(b)))
        w = a.size() if isinstance(a, BV) else b.size()
        a, b = bv(a, w), bv(b, w)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def itew(self, c, a, b, w):
        v = self.ite(c, a, b)
        if type(v) is tuple and v[0] == 'ii':
            if w == 1:
                return norm(b_ite(c, bool(a), bool(b)))
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        return v

    def itet(self, c, a, b, t):
        if t == 'void' or t is None:
            return a
        if t == PTR:
            v = self.ite(c, a, b)
            return None if type(v) is tuple else v   # two distinct raw ints as pointers: do not merge
        if t[0] == 'i':
            if isinstance(a, Ptr) != isinstance(b, Ptr) and a is not UNDEF and b is not UNDEF:
                return None
            return self.itew(c, a, b, t[1])
        if t[0] == 'st':
            out = []
            for x, y, e in zip(a, b, t[1]):
                v = self.itet(c, x, y, e)
                if v is None:
                    return None
                out.append(v)
            return Agg(out)
        if t[0] in ('arr', 'vec'):
            out = []
            for x, y in zip(a, b):
                v = self.itet(c, x, y, t[2])
                if v is None:
                    return None
                out.append(v)
            return Agg(out)
        return None

    def merge_obj(self, c, a, b, tok):
        if a is b:
            return a
        if a.live != b.live or a.kind != b.kind or a.zero != b.zero:
            return None
        if not (a.size is b.size or (isinstance(a.size, int) and a.size == b.size)):
            if isinstance(a.size, int) or isinstance(b.size, int) or not a.size.eq(b.size):
                return None
        if (a.arr is None) != (b.arr is None) or a.kind == 'map' and a.extra is not b.extra:
            return None
        o = a.copy(tok)
        if a.arr is not None:
            if a.arr is not b.arr:
                o.arr = SArr('ite', c, a.arr, b.arr)
            return o
        ca, cb = a.cells, b.cells
        cells = {}
        if a.zero:
            for k in set(ca) | set(cb):
                x, y = ca.get(k), cb.get(k)
                if x is None:
                    if any(self._cov(ca, k + j) for j in range(y[0])):
                        return None
                    x = (y[0], 0)
                if y is None:
                    if any(self._cov(cb, k + j) for j in range(x[0])):
                        return None
                    y = (x[0], 0)
                if x[0] != y[0]:
                    return None
                v = self.itew(c, x[1], y[1], 8 * x[0])
                if v is None:
                    return None
                cells[k] = (x[0], v)
            o.cells = cells
            return o
        if len(ca) == len(cb) and ca.keys() == cb.keys():
            for k, x in ca.items():
                y = cb[k]
                if x is y:
                    cells[k] = x
                    continue
                if x[0] != y[0]:
                    break
                v = self.itew(c, x[1], y[1], 8 * x[0])
                if v is None:
                    return None
                cells[k] = (x[0], v)
            else:
                o.cells = cells
                return o
            cells = {}
        # layouts differ: unify byte ranges
        return self._merge_layout(c, a, b, o)

    @staticmethod
    def _cov(cells, i):
        for d in range(16):
            x = cells.get(i - d)
            if x is not None:
                return x[0] > d
        return False

    def _merge_layout(self, c, a, b, o):
        ca, cb = dict(a.cells), dict(b.cells)

        def split(x, lo, hi):
            for k in [k for k in x if k < hi and k + x[k][0] > lo]:
                s, v = x[k]
                if k >= lo and k + s <= hi and False:
                    continue
                if isinstance(v, Ptr):
                    return False
                del x[k]
                for j in range(s):
                    bt = self.cut(None, v, s, j, 1)
                    if bt is not UNDEF:
                        x[k + j] = (1, bt)
            return True
        changed = True
        while changed:
            changed = False
            for k in sorted(set(ca) | set(cb)):
                x, y = ca.get(k), cb.get(k)
                if x and y and x[0] == y[0]:
                    continue
                if x and y:
                    m = max(x[0], y[0])
                    if not split(ca, k, k + m) or not split(cb, k, k + m):
                        return None
                    changed = True
                    break
                z, oth = (x, cb) if x else (y, ca)
                # overlapping something that starts elsewhere?
                if any(q != k and q < k + z[0] and q + oth[q][0] > k for q in oth if k - 16 < q < k + z[0]):
                    lo = min([q for q in oth if k - 16 < q < k + z[0] and q + oth[q][0] > k] + [k])
                    hi = max([q + oth[q][0] for q in oth if k - 16 < q < k + z[0] and q + oth[q][0] > k] + [k + z[0]])
                    if not split(ca, lo, hi) or not split(cb, lo, hi):
                        return None
                    changed = True
                    break
        cells = {}
        for k in set(ca) | set(cb):
            x, y = ca.get(k), cb.get(k)
            if x is None or y is None:
                cells[k] = x or y
                continue
            if x[0] != y[0]:
                return None
            v = self.itew(c, x[1], y[1], 8 * x[0])
            if v is None:
                return None
            cells[k] = (x[0], v)
        o.cells = cells
        return o

    def merge_two(self, c, a, b, ra, rb, t, d):
        """Merge state b into a under 'c holds for a'. Returns (state, ret) or None."""
        if a.ev is not b.ev and a.ev != b.ev:
            return None
        if a.flags != b.flags:
            fa = {k: v for k, v in a.flags.items() if k != 'small'}
            fb = {k: v for k, v in b.flags.items() if k != 'small'}
            if fa != fb:
                return None
        r = self.itet(c, ra, rb, t)
        if r is None and t not in ('void', None):
            return None
        am, bm = a.mem, b.mem
        tok = object()
        mem = {}
        for k, x in am.items():
            y = bm.get(k)
            if y is None:
                if isinstance(k, tuple):
                    mem[k] = x
                    continue
                if not x.live:
                    mem[k] = x
                    continue
                return None
            if x is y:
                mem[k] = x
                continue
            o = self.merge_obj(c, x, y, tok)
            if o is None:
                return None
            mem[k] = o
        for k, y in bm.items():
            if k not in am:
                if not isinstance(k, tuple) and y.live:
                    return None
                mem[k] = y
        s = State.__new__(State)
        s.mem, s.tok, s.nid = mem, tok, max(a.nid, b.nid)
        s.steps, s.ev, s.flags, s.model = max(a.steps, b.steps), a.ev, dict(a.flags), a.model or b.model
        if 'small' in a.flags or 'small' in b.flags:
            s.flags['small'] = tuple(dict.fromkeys(a.flags.get('small', ()) + b.flags.get('small', ())))
        s.tape = self.merge_tape(c, a.tape, b.tape)
        s.pc = None
        self.stats['merges'] += 1
        return s, r

    @staticmethod
    def merge_tape(c, x, y):
        if x is y:
            return x
        sx, sy = [], []
        while x is not y:
            nx, ny = (x.n if x else 0), (y.n if y else 0)
            if nx >= ny:
                sx.append(x.item)
                x = x.prev
            if ny >= nx:
                sy.append(y.item)
                y = y.prev
        sx.reverse()
        sy.reverse()
        return Tape(x, ('m', [(c, sx), (z3.Not(c), sy)]))

    def merge_all(self, results, t, d):
        """results: [(state, ret)]; all share pc[:d]. Returns merged list."""
        if len(results) < 2:
            return results
        groups = {}
        for sr in results:
            pc = sr[0].pc
            k = id(pc[d]) if len(pc) > d else None
            groups.setdefault(k, []).append(sr)
        if len(groups) == 1:
            if None in groups:
                return results
            return self.merge_all(results, t, d + 1)
        if None in groups:
            return results
        acc = None
        for g in groups.values():
            g = self.merge_all(g, t, d + 1)
            if acc is None:
                acc = g
                continue
            out, used = [], set()
            for (sa, ra) in acc:
                hit = None
                la = sa.pc[d]
                for i, (sb, rb) in enumerate(g):
                    if i in used:
                        continue
                    lb = sb.pc[d]
                    if la.fid != lb.fid or la.fid == 0:
                        continue
                    exa, exb = sa.pc[d + 1:], sb.pc[d + 1:]
                    c = la.c if not exa or not exb else z3.And(la.c, *[l.c for l in exa])
                    if exa and not exb:
                        c = z3.Not(lb.c) if la.ways + lb.ways == la.n else z3.And(la.c, *[l.c for l in exa])
                    m = self.merge_two(c, sa, sb, ra, rb, t, d)
                    if m is not None:
                        hit = (i, m, la, lb, exa, exb)
                        break
                if hit is None:
                    out.append((sa, ra))
                    continue
                i, (s, r), la, lb, exa, exb = hit
                used.add(i)
                pc = sa.pc[:d]
                ways = la.ways + lb.ways
                if ways == la.n and not exa and not exb:
                    pass
                else:
                    ca = z3.And(la.c, *[l.c for l in exa]) if exa else la.c
                    cb = z3.And(lb.c, *[l.c for l in exb]) if exb else lb.c
                    if ways == la.n and la.n == 2:
                        # fork condition itself is exhaustive
                        if exa and exb:
                            cc = z3.Or(ca, cb)
                        elif exa:
                            cc = z3.Or(z3.And(*[l.c for l in exa]), lb.c)
                        else:
                            cc = z3.Or(la.c, z3.And(*[l.c for l in exb]))
                    else:
                        cc = z3.Or(ca, cb)
                    pc = pc + [Lit(cc, la.fid, ways, la.n)]
                s.pc = pc
                out.append((s, r))
            out += [x for i, x in enumerate(g) if i not in used]
            acc = out
        return acc

    # ---------------------------------------------------------------- execution
    def run(self, name, st=None, args=()):
        """Execute a harness function by (unmangled) name; returns [(state, ret)]."""
        f = self.prog.func(None, name)
        if f is None:
            raise Stop('no function ' + name)
        st = st or State()
        rs = self.exec_fn(st, f, list(args))
        for s, _ in rs:
            if s.flags.get('expect_panic'):
                self.fail(s, 'assert', 'no panic: ' + s.flags['expect_panic'])
        return rs

    def val(self, st, mod, regs, x):
        if type(x) is str:
            return regs[x]
        if type(x) is GRef:
            return Ptr(self.gobj(st, mod, x.name), x.off)
        if type(x) is Agg:
            return Agg(self.val(st, mod, regs, e) for e in x)
        return x

    def exec_fn(self, st, f, args):
        f.parse()
        nm = f.name
        self.funcs_seen[nm] = self.funcs_seen.get(nm, 0) + 1
        regs = {}
        for (t, n), a in zip(f.params, args):
            regs[n] = a
        d0 = len(st.pc)
        results = []
        work = [(st, regs, f.entry, 0, None, [])]
        self.depth += 1
        self.trace.append(nm)
        if self.depth > 180:
            raise Stop('call depth')
        mod = f.mod
        val = self.val
        while work:
            st, regs, blk, ip, prev, allocas = work.pop()
            ins = f.blocks[blk]
            try:
                while True:
                    i = ins[ip]
                    op = i.op
                    self.stats['instrs'] += 1
                    a = i.a
                    if op == 'load':
                        x = val(st, mod, regs, a[1])
                        if type(x) is Ptr and type(x.off) is not int and self.obj(st, x.obj).arr is None:
                            self.split(st, regs, a[1], x, blk, ip, prev, allocas, work)
                            break
                        if self.maps and type(x) is Ptr and self.is_map(st, x) and \
                                self.map_fork(st, x, tsize(a[0]), 'read', regs, blk, ip, prev, allocas, work):
                            break
                        regs[i.dst] = self.load(st, x, a[0], a[2])
                        ip += 1
                    elif op == 'store':
                        x = val(st, mod, regs, a[2])
                        v = val(st, mod, regs, a[1])
                        if type(x) is Ptr and type(x.off) is not int and self.obj(st, x.obj).arr is None:
                            self.split(st, regs, a[2], x, blk, ip, prev, allocas, work)
                            break
                        if self.maps and type(x) is Ptr and self.is_map(st, x) and \
                                self.map_fork(st, x, tsize(a[0]), 'write', regs, blk, ip, prev, allocas, work):
                            break
                        self.store(st, x, a[0], v, a[3])
                        ip += 1
                    elif op == 'jmp' or op == 'br' or op == 'switch':
                        st.steps += 1
                        if st.steps > self.max_steps:
                            self.on_bound(st)
                        if op == 'jmp':
                            prev, blk, ip = blk, a[0], 0
                            ins = f.blocks[blk]
                            continue
                        c = val(st, mod, regs, a[0])
                        if c is UNDEF:
                            self.fail(st, 'memory', 'branch on an uninitialised value')
                        if op == 'switch':
                            if isinstance(c, int):
                                for cv, l in a[2]:
                                    if cv == c:
                                        break
                                else:
                                    l = a[1]
                                prev, blk, ip = blk, l, 0
                                ins = f.blocks[blk]
                                continue
                            self.do_switch(st, regs, c, a, blk, allocas, work)
                            break
                        if isinstance(c, int):
                            prev, blk, ip = blk, (a[1] if c else a[2]), 0
                            ins = f.blocks[blk]
                            continue
                        c = bo(c)
                        ct, mt, cf, mf = self.both(st, c)
                        if ct and cf:
                            self.stats['forks'] += 1
                            s2 = st.fork()
                            self.fid += 1
                            st.pc.append(Lit(c, self.fid, 1, 2))
                            s2.pc.append(Lit(z3.Not(c), self.fid, 1, 2))
                            st.model, s2.model = mt, mf
                            work.append((s2, dict(regs), a[2], 0, blk, list(allocas)))
                            prev, blk, ip = blk, a[1], 0
                        else:
                            prev, blk, ip = blk, (a[1] if ct else a[2]), 0
                        ins = f.blocks[blk]
                    elif op == 'call':
                        cal = val(st, mod, regs, a[1])
                        av = [val(st, mod, regs, x) for _, x in a[2]]
                        rs = self.call(st, mod, cal, av, i, regs)
                        if rs is None:       # need to fork on an argument
                            if not self.resolve_args(st, regs, a, av, blk, ip, prev, allocas, work):
                                raise Stop('cannot resolve call ' + i.line[:200])
                            break
                        if len(rs) == 1:
                            st, r = rs[0]
                            if i.dst is not None:
                                regs[i.dst] = r
                            ip += 1
                            continue
                        for s2, r in reversed(rs):
                            rg = dict(regs)
                            if i.dst is not None:
                                rg[i.dst] = r
                            work.append((s2, rg, blk, ip + 1, prev, list(allocas)))
                        break
                    elif op == 'ret':
                        r = val(st, mod, regs, a[0]) if a[0] is not None else None
                        for oid in allocas:
                            st.mem.pop(oid, None)
                        results.append((st, r))
                        break
                    elif op == 'phi':
                        vals = []
                        while ins[ip].op == 'phi':
                            j = ins[ip]
                            for l, x in j.a[0]:
                                if l == prev:
                                    vals.append((j.dst, val(st, mod, regs, x)))
                                    break
                            ip += 1
                        for k, v in vals:
                            regs[k] = v
                    elif op == 'unreachable':
                        self.fail(st, 'unreachable', 'unreachable code reached in ' + demangle(nm))
                    elif op == 'alloca':
                        n = val(st, mod, regs, a[1])
                        o = self.alloc(st, a[0] * n, 'stack', i.dst)
                        allocas.append(o.id)
                        regs[i.dst] = Ptr(o.id, 0)
                        ip += 1
                    else:
                        h = self.handlers.get(op)
                        if h is None:
                            raise Stop('unsupported instruction: ' + i.line[:200])
                        h(st, mod, regs, i)
                        ip += 1
            except Dead:
                pass
        self.depth -= 1
        self.trace.pop()
        self.stats['paths'] += len(results)
        if self.merge and len(results) > 1:
            results = self.merge_all(results, f.ret, d0)
        return results

    def on_bound(self, st):
        if self.hang:
            self.report(st, None, 'hang', 'an operation does not return')
        raise Stop('step bound exceeded')

    def values_of(self, st, e, limit=40):
        """All feasible concrete values of a bit-vector on this path."""
        out = []
        ok, m = self.check(st.pc, also=(e,))
        ex = []
        while True:
            v = m.val(e)
            out.append((v, m))
            ex.append(e != v)
            if len(out) > limit:
                raise Stop('too many values for %s' % e)
            ok, m = self.check(st.pc, *ex, also=(e,))
            if not ok:
                break
        out.sort(key=lambda x: x[0])
        return out

    def vp_split(self, st, av, i):
        """like vp_concretize, but the paths are never merged again"""
        if isinstance(av[0], int):
            return [(st, av[0])]
        return self.fork_values(st, av[0], keep=True)

    def fork_values(self, st, e, limit=40, keep=False):
        vs = self.values_of(st, e, limit)
        if len(vs) == 1:
            st.model = vs[0][1]
            return [(st, vs[0][0])]
        self.fid += 1
        fid, n = 0 if keep else self.fid, len(vs)
        out = []
        self.stats['forks'] += n - 1
        for k, (v, m) in enumerate(vs):
            s = st.fork() if k < n - 1 else st
            out.append((s, v, m))
        for s, v, m in out:
            s.pc = s.pc + [Lit(e == v, fid, 1, n)]
            s.model = m
        return [(s, v) for s, v, m in out]

    def split(self, st, regs, opnd, p, blk, ip, prev, allocas, work):
        """Fork on the concrete offset of a symbolic pointer and retry the instruction."""
        o = self.obj(st, p.obj)
        if o is not None and o.live and isinstance(o.size, int):
            # anything beyond the object is one bad value
            self.must_or_die(st, z3.ULE(p.off, max(o.size, 0)), 'memory', 'access outside of %s %s' % (o.kind, o.name))
        for s, v in self.fork_values(st, p.off, 4200):
            rg = dict(regs)
            rg[opnd] = Ptr(p.obj, v)
            work.append((s, rg, blk, ip, prev, list(allocas)))

    def do_switch(self, st, regs, c, a, blk, allocas, work):
        w = a[3][1]
        if w == 1:
            c = bv(c, 1)
        cs = []
        rest = []
        for cv, l in a[2]:
            ok, m = self.check(st.pc, c == cv)
            rest.append(c != cv)
            if ok:
                cs.append((c == cv, l, m))
        ok, m = self.check(st.pc, *rest)
        if ok:
            cs.append((z3.And(*rest) if len(rest) > 1 else rest[0], a[1], m))
        self.fid += 1
        fid, n = self.fid, len(cs)
        out = []
        for k, (cc, l, m) in enumerate(cs):
            s = st.fork() if k < n - 1 else st
            out.append((s, cc, l, m))
        for s, cc, l, m in out:
            if n > 1:
                s.pc = s.pc + [Lit(cc, fid, 1, n)]
            s.model = m
            work.append((s, dict(regs), l, 0, blk, list(allocas)))

    def resolve_args(self, st, regs, a, av, blk, ip, prev, allocas, work):
        """memcpy & co with symbolic lengths or pointers: fork on concrete values."""
        for (t, x), v in zip(a[2], av):
            if type(x) is not str:
                continue
            if isinstance(v, Ptr) and not isinstance(v.off, int) and self.obj(st, v.obj).arr is None:
                self.split(st, regs, x, v, blk, ip, prev, allocas, work)
                return True
        for (t, x), v in zip(a[2], av):
            if type(x) is str and isinstance(v, BV) and t != PTR and t[1] == 64:
                for s, k in self.fork_values(st, v):
                    rg = dict(regs)
                    rg[x] = k
                    work.append((s, rg, blk, ip, prev, list(allocas)))
                return True
        return False

    # ---- simple instructions
    def x_gep(self, st, mod, regs, i):
        base, off, dyn = i.a
        p = self.val(st, mod, regs, base)
        if off:
            p = self.padd(p, off & M64)
        for sc, x, w in dyn:
            v = self.val(st, mod, regs, x)
            if v is UNDEF:
                p = UNDEF
                break
            if w != 64:
                v = sgn(v, w) & M64 if isinstance(v, int) else z3.SignExt(64 - w, v)
            if isinstance(v, int):
                p = self.padd(p, (sc * v) & M64)
            elif sc:
                p = self.padd(p, bv(v, 64) * sc if sc != 1 else v)
        regs[i.dst] = p

    def _bin(self, st, mod, regs, i):
        w, a, b = i.a
        x, y = self.val(st, mod, regs, a), self.val(st, mod, regs, b)
        if type(x) is Ptr or type(y) is Ptr:
            regs[i.dst] = self.ptr_arith(st, i.op, x, y)
            return
        if i.op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0 and isinstance(y, int):
            self.fail(st, 'arith', 'division by zero')
        regs[i.dst] = self.binop(i.op, w, x, y)

    def ptr_arith(self, st, op, x, y):
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            return self.binop('sub', 64, x.off, y.off)
        if op in ('add', 'sub') and isinstance(x, Ptr) and not isinstance(y, Ptr):
            # keep provenance through integer arithmetic
            d = y if op == 'add' else ((-y) & M64 if isinstance(y, int) else -y)
            return self.padd(x, d)
        if op == 'add' and isinstance(y, Ptr):
            return self.padd(y, x)
        x = self.addr(st, x) if isinstance(x, Ptr) else x
        y = self.addr(st, y) if isinstance(y, Ptr) else y
        return self.binop(op, 64, x, y)

    x_add = x_sub = x_mul = x_udiv = x_sdiv = x_urem = x_srem = _bin
    x_and = x_or = x_xor = x_shl = x_lshr = x_ashr = _bin

    def x_icmp(self, st, mod, regs, i):
        pred, t, a, b = i.a
        regs[i.dst] = self.icmp(st, pred, t, self.val(st, mod, regs, a), self.val(st, mod, regs, b))

    def x_trunc(self, st, mod, regs, i):
        v = self.val(st, mod, regs, i.a[1])
        if isinstance(v, Ptr):
            v = self.addr(st, v)
        regs[i.dst] = self.trunc(v, i.a[0][1], i.a[2][1])

    def x_zext(self, st, mod, regs, i):
        regs[i.dst] = self.zext(self.val(st, mod, regs, i.a[1]), i.a[0][1], i.a[2][1])

    def x_sext(self, st, mod, regs, i):
        v, w, w2 = self.val(st, mod, regs, i.a[1]), i.a[0][1], i.a[2][1]
        if v is not UNDEF:
            if isinstance(v, int):
                v = sgn(v, w) & ((1 << w2) - 1)
            else:
                v = z3.SignExt(w2 - w, bv(v, w))
        regs[i.dst] = v

    def x_ptrtoint(self, st, mod, regs, i):
        v = self.val(st, mod, regs, i.a[1])
        regs[i.dst] = self.addr(st, v) if isinstance(v, Ptr) else v

    x_ptrtoaddr = x_ptrtoint

    def x_inttoptr(self, st, mod, regs, i):
        v = self.val(st, mod, regs, i.a[1])
        if isinstance(v, int) and v > 4096:
            v = self.find_by_addr(st, v) or v
        regs[i.dst] = v

    def x_bitcast(self, st, mod, regs, i):
        regs[i.dst] = self.val(st, mod, regs, i.a[1])

    def x_freeze(self, st, mod, regs, i):
        v = self.val(st, mod, regs, i.a[1])
        if v is UNDEF:
            v = self.sym('freeze', i.a[0][1]) if i.a[0] != PTR else 0
        regs[i.dst] = v

    def x_select(self, st, mod, regs, i):
        c, a, b, t = i.a
        c = self.val(st, mod, regs, c)
        a, b = self.val(st, mod, regs, a), self.val(st, mod, regs, b)
        if isinstance(c, int):
            regs[i.dst] = a if c else b
            return
        if c is UNDEF:
            regs[i.dst] = UNDEF
            return
        v = self.itet(bo(c), a, b, t)
        if v is None:
            if t == PTR and isinstance(a, int) and isinstance(b, int):
                v = z3.If(bo(c), z3.BitVecVal(a, 64), z3.BitVecVal(b, 64))
            else:
                raise Stop('select between unrelated pointers')
        regs[i.dst] = v

    def x_extractvalue(self, st, mod, regs, i):
        v = self.val(st, mod, regs, i.a[0])
        for k in i.a[1]:
            v = v[k] if v is not UNDEF else UNDEF
        regs[i.dst] = v

    def x_insertvalue(self, st, mod, regs, i):
        a, b, path = i.a
        a, b = self.val(st, mod, regs, a), self.val(st, mod, regs, b)

        def ins(x, p):
            l = list(x)
            l[p[0]] = b if len(p) == 1 else ins(l[p[0]], p[1:])
            return Agg(l)
        regs[i.dst] = ins(a, path)

    def x_fence(self, st, mod, regs, i):
        if self.conc is not None:
            self.conc.fence(self, st, i.a[0])

    def rmw_op(self, k, w, old, v):
        if k == 'xchg':
            return v
        if k in ('add', 'sub', 'and', 'or', 'xor'):
            return self.binop(k, w, old, v)
        if k == 'nand':
            return self.binop('xor', w, self.binop('and', w, old, v), (1 << w) - 1)
        if k in ('umax', 'umin'):
            if isinstance(old, int) and isinstance(v, int):
                return max(old, v) if k == 'umax' else min(old, v)
            a, b = bv(old, w), bv(v, w)
            return z3.If(z3.UGT(a, b) if k == 'umax' else z3.ULT(a, b), a, b)
        raise Stop('atomicrmw ' + k)

    def x_atomicrmw(self, st, mod, regs, i):
        k, t, ptr, v, o = i.a
        p, v = self.val(st, mod, regs, ptr), self.val(st, mod, regs, v)
        if self.conc is not None:
            r = self.conc.rmw(self, st, p, t, lambda old: self.rmw_op(k, t[1], old, v), o, i)
            if r is not NotImplemented:
                regs[i.dst] = r
                return
        old = self.load(st, p, t)
        self.store(st, p, t, self.rmw_op(k, t[1], old, v))
        regs[i.dst] = old

    def x_cmpxchg(self, st, mod, regs, i):
        t, ptr, c, n, o1, o2, weak = i.a
        p, c, n = (self.val(st, mod, regs, x) for x in (ptr, c, n))
        if self.conc is not None:
            r = self.conc.cas(self, st, p, t, c, n, o1, o2, weak, i)
            if r is not NotImplemented:
                regs[i.dst] = r
                return
        old = self.load(st, p, t)
        eq = self.icmp(st, 'eq', t, old, c)
        if isinstance(eq, int):
            if eq:
                self.store(st, p, t, n)
        else:
            self.store(st, p, t, self.itet(bo(eq), n, old, t))
        regs[i.dst] = Agg((old, eq))

    # ---- calls
    def call(self, st, mod, cal, av, i, regs):
        if not isinstance(cal, Ptr):
            self.fail(st, 'memory', 'call through an invalid pointer')
        o = self.obj(st, cal.obj)
        if o is None or o.kind != 'fn':
            self.fail(st, 'memory', 'call of a non-function')
        fmod, name = o.extra
        h = self.hooks.get(name)
        if h is not None:
            return h(self, st, av, i)
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, av, i)
        f = self.prog.func(fmod, name)
        if f is not None:
            return self.exec_fn(st, f, av)
        return self.external(st, name, av, i)

    def external(self, st, name, av, i):
        if name.startswith('vp_'):
            h = getattr(self, name, None)
            if h:
                return h(st, av, i)
        if '__rust_no_alloc_shim' in name:
            return [(st, UNDEF)]
        if '__rust_alloc_zeroed' in name:
            return self.rust_alloc(st, av, i, True)
        if '__rust_alloc' in name and '_error' not in name:
            return self.rust_alloc(st, av, i, False)
        if '__rust_dealloc' in name:
            return self.rust_dealloc(st, av, i)
        if '__rust_realloc' in name:
            return self.rust_realloc(st, av, i)
        r = self.kcall(st, name, av, i)
        if r is not NotImplemented:
            return r
        if name in self.prog.noreturn:
            return self.panic(st, name, av)
        if name in ('memcmp', 'bcmp'):
            return self.memcmp(st, av, i)
        if name in ('memcpy', 'memmove'):
            r = self.intrinsic(st, 'llvm.memmove', av, i)
            return None if r is None else [(s, av[0]) for s, _ in r]
        raise Stop('call of unknown external function %s' % name)

    def panic(self, st, name, av):
        if st.flags.get('expect_panic'):
            self.covers['panic:' + st.flags['expect_panic']] = True
            raise Dead()
        self.fail(st, 'panic', '%s' % demangle(name))

    def memcmp(self, st, av, i):
        a, b, n = av
        if not isinstance(n, int):
            return None
        for x in (a, b):
            if isinstance(x, Ptr) and not isinstance(x.off, int) and self.obj(st, x.obj).arr is None:
                return None
        r = 0
        for k in reversed(range(n)):
            x = self.load(st, self.padd(a, k), ('i', 8))
            y = self.load(st, self.padd(b, k), ('i', 8))
            if x is UNDEF or y is UNDEF:
                return [(st, UNDEF)]
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    r = 1 if x > y else 0xffffffff
                continue
            x, y = bv(x, 8), bv(y, 8)
            r = z3.If(x == y, bv(r, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
        return [(st, r)]

    def rust_alloc(self, st, av, i, zero):
        size, al = av[0], av[1]
        if not isinstance(size, int):
            return None
        o = self.alloc(st, size, 'heap', 'heap', al)
        o.zero = zero
        if self.conc is not None:
            self.conc.alloc(self, st, o)
        return [(st, Ptr(o.id, 0))]

    def rust_dealloc(self, st, av, i):
        p, size, al = av
        if not isinstance(p, Ptr):
            self.fail(st, 'memory', 'free of an invalid pointer')
        o = self.obj(st, p.obj)
        if o is None or o.kind != 'heap':
            self.fail(st, 'memory', 'free of memory that is not on the heap (%s)' % (o.kind if o else 'dead stack'))
        if self.conc is not None:
            r = self.conc.dealloc(self, st, p, o, i)
            if r is not NotImplemented:
                return r
        if not o.live:
            self.fail(st, 'memory', 'double free')
        self.must_or_die(st, self.icmp(st, 'eq', ('i', 64), p.off, 0), 'memory', 'free of an interior pointer')
        self.must_or_die(st, self.icmp(st, 'eq', ('i', 64), size, o.size), 'memory', 'free with a wrong layout')
        w = st.w(o.id)
        w.live = False
        w.cells = {}
        return [(st, UNDEF)]

    def rust_realloc(self, st, av, i):
        p, old, al, new = av
        if not isinstance(new, int) or not isinstance(old, int):
            return None
        r = self.rust_alloc(st, [new, al], i, False)
        q = r[0][1]
        self.copy_mem(st, q, p, min(old, new))
        self.rust_dealloc(st, [p, old, al], i)
        return r

    def intrinsic(self, st, name, av, i):
        n = name.split('.')
        k = n[1]
        if k in ('memcpy', 'memmove'):
            d, s, ln = av[0], av[1], av[2]
            if self.maps and (self.is_map(st, d) or self.is_map(st, s)):
                for x in (d, s):
                    if isinstance(x, Ptr) and not isinstance(x.off, int) and self.obj(st, x.obj).arr is None:
                        return None
                    if not isinstance(ln, int) and isinstance(x, Ptr) and self.obj(st, x.obj).arr is None and not self.is_map(st, x):
                        return None
                return self.map_copy(st, k, d, s, ln)
            if not isinstance(ln, int):
                return self.copy_any(st, k, d, s, ln)
            if ln == 0:
                return [(st, None)]
            if self.conc is not None:
                r = self.conc.copy(self, st, d, s, ln, i)
                if r is not NotImplemented:
                    return [(st, None)]
            for x in (d, s):
                if isinstance(x, Ptr) and not isinstance(x.off, int) and self.obj(st, x.obj).arr is None:
                    return None
            if k == 'memcpy' and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj == s.obj \
                    and isinstance(d.off, int) and isinstance(s.off, int) and d.off != s.off \
                    and abs(d.off - s.off) < ln:
                self.fail(st, 'memory', 'overlapping copy_nonoverlapping')
            self.copy_mem(st, d, s, ln)
            return [(st, None)]
        if k == 'memset':
            d, v, ln = av[0], av[1], av[2]
            if self.is_map(st, d) and not (isinstance(ln, int) and ln == 0):
                if not isinstance(d.off, int) and self.obj(st, d.obj).arr is None:
                    return None
                return self.map_fill(st, d, v, ln, i)
            if not isinstance(ln, int):
                o = self.obj(st, d.obj) if isinstance(d, Ptr) else None
                if o is None or o.arr is None:
                    return None
                self.access(st, d, ln, 'write')
                w = st.w(o.id)
                w.arr = SArr('fill', w.arr, bv(d.off, 64), ln, bv(v, 8))
                return [(st, None)]
            if ln == 0:
                return [(st, None)]
            if isinstance(d, Ptr) and not isinstance(d.off, int) and self.obj(st, d.obj).arr is None:
                return None
            if self.conc is not None and self.conc.fill(self, st, d, v, ln):
                return [(st, None)]
            o = self.access(st, d, ln, 'write')
            w = st.w(o.id)
            if w.arr is None:
                self.clear(st, w, d.off, ln)
                j = ln if v is UNDEF else 0
                while j < ln:
                    c = 8 if (d.off + j) % 8 == 0 and ln - j >= 8 else 1
                    if c == 8:
                        vv = int.from_bytes(bytes([v]) * 8, 'little') if isinstance(v, int) else z3.Concat(*[v] * 8)
                    else:
                        vv = v
                    w.cells[d.off + j] = (c, vv)
                    j += c
            else:
                for j in range(ln):
                    self.wr(st, w, simp_off(d.off, j), 1, v)
            return [(st, None)]
        if k in ('lifetime', 'assume', 'donothing', 'experimental', 'dbg'):
            return [(st, None)]
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            w = int(n[-1][1:])
            a, b = av
            if a is UNDEF or b is UNDEF:
                return [(st, UNDEF)]
            if isinstance(a, Ptr):
                a = self.addr(st, a)
            if isinstance(b, Ptr):
                b = self.addr(st, b)
            op = k[1:]
            if n[2] == 'sat':
                if isinstance(a, int) and isinstance(b, int):
                    m = (1 << w) - 1
                    if k == 'usub':
                        return [(st, max(a - b, 0))]
                    if k == 'uadd':
                        return [(st, min(a + b, m))]
                x, y = bv(a, w), bv(b, w)
                if k == 'usub':
                    return [(st, z3.If(z3.ULE(y, x), mk_sub(x, y, w), z3.BitVecVal(0, w)))]
                if k == 'uadd':
                    return [(st, z3.If(z3.ULT(mk_add(x, y, w), x), z3.BitVecVal((1 << w) - 1, w), mk_add(x, y, w)))]
                raise Stop(name)
            r = self.binop(op, w, a, b)
            if isinstance(a, int) and isinstance(b, int):
                if k[0] == 'u':
                    e = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                    ov = int(not 0 <= e < 1 << w)
                else:
                    x, y = sgn(a, w), sgn(b, w)
                    e = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    ov = int(not -(1 << (w - 1)) <= e < 1 << (w - 1))
                return [(st, Agg((r, ov)))]
            x, y = bv(a, w), bv(b, w)
            if k == 'uadd':
                ov = z3.ULT(mk_add(x, y, w), x)
            elif k == 'usub':
                ov = z3.ULT(x, y)
            elif k == 'umul':
                ov = z3.Not(z3.BVMulNoOverflow(x, y, False))
                for p, q in ((a, y), (b, x)):
                    if isinstance(p, int):
                        ov = z3.BoolVal(False) if p == 0 else z3.UGT(q, z3.BitVecVal(((1 << w) - 1) // p, w))
            elif k == 'sadd':
                ov = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            elif k == 'ssub':
                ov = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            else:
                ov = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
            return [(st, Agg((r, norm(ov))))]
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'abs'):
            v, w = av[0], int(n[-1][1:])
            if v is UNDEF:
                return [(st, UNDEF)]
            if isinstance(v, int):
                if k == 'ctpop':
                    return [(st, bin(v).count('1'))]
                if k == 'ctlz':
                    return [(st, w - v.bit_length())]
                if k == 'cttz':
                    return [(st, (v & -v).bit_length() - 1 if v else w)]
                if k == 'bswap':
                    return [(st, int.from_bytes(v.to_bytes(w // 8, 'little'), 'big'))]
                return [(st, abs(sgn(v, w)))]
            if k == 'ctpop':
                return [(st, sum((z3.ZeroExt(w - 1, z3.Extract(j, j, v)) for j in range(1, w)), z3.ZeroExt(w - 1, z3.Extract(0, 0, v))))]
            raise Stop(name)
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = int(n[-1][1:])
            a, b = av
            if a is UNDEF or b is UNDEF:
                return [(st, UNDEF)]
            c = self.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], ('i', w), a, b)
            if isinstance(c, int):
                return [(st, a if c else b)]
            return [(st, self.itew(bo(c), a, b, w))]
        if k in ('ucmp', 'scmp'):
            t = i.a[2][0][0]
            a, b = av
            lt = self.icmp(st, 'ult' if k == 'ucmp' else 'slt', t, a, b)
            gt = self.icmp(st, 'ugt' if k == 'ucmp' else 'sgt', t, a, b)
            w = int(n[2][1:])
            if isinstance(lt, int) and isinstance(gt, int):
                return [(st, (1 << w) - 1 if lt else gt)]
            return [(st, z3.If(bo(lt), z3.BitVecVal((1 << w) - 1, w), z3.If(bo(gt), z3.BitVecVal(1, w), z3.BitVecVal(0, w))))]
        if k == 'expect':
            return [(st, av[0])]
        if k == 'is':
            return [(st, 0)]
        if k in ('trap', 'debugtrap', 'ubsantrap'):
            self.fail(st, 'panic', 'trap')
        raise Stop('intrinsic ' + name)

    # ---------------------------------------------------------------- harness interface
    def _nd(self, st, name, w):
        v = self.sym(name, w)
        st.tape = Tape(st.tape, ('v', v, name))
        st.model = st.model  # unconstrained: any model of the path stays one
        return [(st, v)]

    def vp_u8(self, st, av, i):
        return self._nd(st, 'u8', 8)

    def vp_u16(self, st, av, i):
        return self._nd(st, 'u16', 16)

    def vp_u32(self, st, av, i):
        return self._nd(st, 'u32', 32)

    def vp_u64(self, st, av, i):
        return self._nd(st, 'u64', 64)

    def vp_bool(self, st, av, i):
        v = self.sym('b', 0)
        st.tape = Tape(st.tape, ('v', v, 'bool'))
        return [(st, z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]

    def upper(self, e):
        """static upper bound of a term"""
        if isinstance(e, int):
            return e
        try:
            return self.ctx.tr.tr(e)[2]
        except Exception:
            return (1 << e.size()) - 1

    def bound(self, v, ub):
        self.bounds[v.get_id()] = (v, ub)

    def vp_upto(self, st, av, i):
        """number in 0..=max"""
        mx = av[0]
        if isinstance(mx, int):
            if mx == 0:
                st.tape = Tape(st.tape, ('v', z3.BitVecVal(0, 64), 'upto'))
                return [(st, 0)]
            k = mx.bit_length()
            x = self.sym('n', k)
            self.bound(x, mx)
            v = z3.ZeroExt(64 - k, x) if k < 64 else x
            st.tape = Tape(st.tape, ('v', v, 'upto'))
            if mx != (1 << k) - 1 and not self.assume(st, z3.ULE(x, z3.BitVecVal(mx, k))):
                raise Dead()
            return [(st, v)]
        v = self.sym('n', 64)
        ub = self.upper(mx)
        if ub == (1 << 64) - 1 and mx.decl().kind() == z3.Z3_OP_BADD and mx.num_args() == 2 and z3.is_bv_value(mx.arg(1)):
            k = (1 << 64) - mx.arg(1).as_long()
            if k <= 1 << 32 and not self.check(st.pc, z3.ULT(mx.arg(0), z3.BitVecVal(k, 64)))[0]:
                ub = self.upper(mx.arg(0)) - k
        self.bound(v, ub)
        st.tape = Tape(st.tape, ('v', v, 'upto'))
        if not self.assume(st, z3.ULE(v, mx)):
            raise Dead()
        return [(st, v)]

    def vp_len(self, st, av, i):
        """number in 0..=max that a counterexample should keep small"""
        v = self.sym('len', 64)
        self.bound(v, self.upper(av[0]))
        st.tape = Tape(st.tape, ('v', v, 'len'))
        st.flags['small'] = st.flags.get('small', ()) + (v,)
        if not self.assume(st, z3.ULE(v, bv(av[0], 64))):
            raise Dead()
        return [(st, v)]

    def vp_array(self, st, av, i):
        n = av[0]
        if isinstance(n, int):
            o = self.alloc(st, n, 'heap', 'items')
            for k in range(n):
                v = self.sym('a', 8)
                o.cells[k] = (1, v)
            arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            for k in range(n):
                arr = z3.Store(arr, z3.BitVecVal(k, 64), o.cells[k][1])
            st.tape = Tape(st.tape, ('a', arr, n))
            return [(st, Ptr(o.id, 0))]
        self.fresh += 1
        o = self.alloc(st, n, 'heap', 'items')
        arr = z3.Array('arr!%d' % self.fresh, z3.BitVecSort(64), z3.BitVecSort(8))
        o.arr = SArr('base', arr)
        st.tape = Tape(st.tape, ('a', arr, n))
        return [(st, Ptr(o.id, 0))]

    def vp_assume(self, st, av, i):
        c = av[0]
        if not self.assume(st, bo(c) if not isinstance(c, int) else c):
            raise Dead()
        return [(st, None)]

    def cstring(self, st, p, n):
        o = self.obj(st, p.obj)
        return bytes(self.byte(o, p.off + k, st) for k in range(n)).decode()

    def vp_check(self, st, av, i):
        c, p, n = av[0], av[1], av[2]
        msg = self.cstring(st, p, n)
        tags, _, text = msg.partition('|')
        if self.prop is not None and tags != '*' and self.prop not in tags.split():
            return [(st, None)]
        if c is UNDEF:
            self.fail(st, 'memory', 'assertion on an uninitialised value: ' + text)
        self.covers.setdefault('checked: ' + text, 0)
        self.covers['checked: ' + text] += 1
        if not self.must(st, bo(c) if not isinstance(c, int) else c, 'assert', text):
            if not self.assume(st, bo(c) if not isinstance(c, int) else c):
                raise Dead()
        return [(st, None)]

    def vp_cover(self, st, av, i):
        c, p, n = av[0], av[1], av[2]
        msg = 'reached: ' + self.cstring(st, p, n)
        if self.covers.get(msg) is True:
            return [(st, None)]
        self.covers.setdefault(msg, False)
        if isinstance(c, int):
            if c:
                self.covers[msg] = True
        else:
            m = self.get_model(st)
            if m.holds(bo(c)) or self.check(st.pc, bo(c))[0]:
                self.covers[msg] = True
        return [(st, None)]

    def vp_expect_panic(self, st, av, i):
        st.flags['expect_panic'] = self.cstring(st, av[0], av[1])
        return [(st, None)]

    def vp_spawn(self, st, av, i):
        """a thread that runs av[0](av[1]) once vp_join is called"""
        st.flags['threads'] = st.flags.get('threads', ()) + ((av[0], av[1]),)
        return [(st, None)]

    def vp_join(self, st, av, i):
        """runs the threads, then av[0](av[1])"""
        from .conc import Conc
        th = st.flags.get('threads', ())
        Conc(self, st, th, (av[0], av[1])).analyse()
        return [(st, None)]

    def vp_live(self, st, av, i):
        """number of live heap allocations"""
        if self.conc is not None:
            return [(st, self.conc.live(self, st))]
        return [(st, sum(1 for o in st.mem.values() if o.kind == 'heap' and o.live))]

    def vp_concretize(self, st, av, i):
        """fork on every feasible value of a number"""
        if isinstance(av[0], int):
            return [(st, av[0])]
        return self.fork_values(st, av[0])


class Dead(Exception):
    """The current path ends."""


def simp_off(off, i):
    if isinstance(off, int):
        return off + i
    return mk_add(off, z3.BitVecVal(i, 64), 64) if i else off


def tsize(t):
    return 8 if t == PTR else (t[1] + 7) // 8 if t[0] == 'i' else size_align(t)[0]
