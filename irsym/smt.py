"""Term construction with light folding, and exact translation of bit-vector queries to integer arithmetic.

The translation is equivalence preserving (every bit-vector term denotes its unsigned value; wrap-around
becomes an explicit case split unless interval analysis rules it out), so a verdict of the integer solver is
a verdict about the 64-bit query. Queries with operators outside the supported set go to the bit-vector
solver unchanged.
"""
import z3

BV = z3.BitVecRef
BoolRef = z3.BoolRef
NumRef = z3.BitVecNumRef
K_ITE, K_ADD, K_SUB, K_MUL, K_NEG = z3.Z3_OP_ITE, z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG


class Unsup(Exception):
    pass


def isc(x):
    return isinstance(x, NumRef)


M64 = (1 << 64) - 1


def lin(e, k, out, depth=0):
    """adds k*e to the linear combination `out`: ast id -> [term, coefficient]; the constant is under None"""
    if isinstance(e, int):
        out[None] = (out.get(None, 0) + k * e) & M64
        return
    if isinstance(e, z3.BitVecNumRef):
        return lin(e.as_long(), k, out)
    kd = e.decl().kind()
    if depth < 50:
        if kd == z3.Z3_OP_BADD:
            for c in e.children():
                lin(c, k, out, depth + 1)
            return
        if kd == z3.Z3_OP_BSUB:
            lin(e.arg(0), k, out, depth + 1)
            for c in e.children()[1:]:
                lin(c, -k, out, depth + 1)
            return
        if kd == z3.Z3_OP_BMUL and e.num_args() == 2:
            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if isinstance(x, z3.BitVecNumRef):
                    return lin(y, k * x.as_long(), out, depth + 1)
    t = out.setdefault(e.get_id(), [e, 0])
    t[1] = (t[1] + k) & M64


def eq_lin(a, b):
    """a == b over 64 bits: True, False or a term; decides what follows from common factors of the coefficients"""
    d = {}
    lin(a, 1, d)
    lin(b, -1, d)
    c = d.pop(None, 0)
    g = 0
    for t in d.values():
        g |= t[1]
    if g == 0:
        return c == 0
    if c & ((g & -g) - 1):
        return False
    return a == b


# ---------------------------------------------------------------- folding constructors
def mk_add(a, b, w):
    """a, b: BV (possibly numerals) of width w"""
    if isc(a):
        a, b = b, a
    m = (1 << w) - 1
    if isc(b):
        k = b.as_long()
        if isc(a):
            return z3.BitVecVal((a.as_long() + k) & m, w)
        if k == 0:
            return a
        if a.decl().kind() == K_ADD and a.num_args() == 2 and isc(a.arg(1)):
            return mk_add(a.arg(0), z3.BitVecVal((a.arg(1).as_long() + k) & m, w), w)
        return a + b
    # (x - y) + y
    if a.decl().kind() == K_SUB and a.arg(1).eq(b):
        return a.arg(0)
    if b.decl().kind() == K_SUB and b.arg(1).eq(a):
        return b.arg(0)
    return a + b


def mk_sub(a, b, w):
    m = (1 << w) - 1
    if isc(b):
        return mk_add(a, z3.BitVecVal(-b.as_long() & m, w), w)
    if a.eq(b):
        return z3.BitVecVal(0, w)
    if not isc(a) and a.decl().kind() == K_ADD and a.num_args() == 2:
        if a.arg(0).eq(b):
            return a.arg(1)
        if a.arg(1).eq(b):
            return a.arg(0)
        if isc(a.arg(1)):
            if not isc(b) and b.decl().kind() == K_ADD and b.num_args() == 2 and b.arg(0).eq(a.arg(0)) and isc(b.arg(1)):
                return z3.BitVecVal((a.arg(1).as_long() - b.arg(1).as_long()) & m, w)
    return a - b


def eq_const(x, k, depth=0):
    """x == k as python bool or z3 Bool"""
    if isc(x):
        return x.as_long() == k
    kd = x.decl().kind()
    if kd == K_ITE and depth < 40:
        a, b = x.arg(1), x.arg(2)
        if isc(a) or isc(b) or a.decl().kind() == K_ITE or b.decl().kind() == K_ITE:
            l, r = eq_const(a, k, depth + 1), eq_const(b, k, depth + 1)
            return b_ite(x.arg(0), l, r)
    if kd == z3.Z3_OP_ZERO_EXT:
        y = x.arg(0)
        if k >> y.size():
            return False
        return eq_const(y, k, depth + 1)
    return x == z3.BitVecVal(k, x.size())


def b_not(a):
    if isinstance(a, (bool, int)):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(a, b):
    if isinstance(a, (bool, int)):
        return b if a else False
    if isinstance(b, (bool, int)):
        return a if b else False
    if a.eq(b):
        return a
    return z3.And(a, b)


def b_or(a, b):
    if isinstance(a, (bool, int)):
        return True if a else b
    if isinstance(b, (bool, int)):
        return True if b else a
    if a.eq(b):
        return a
    return z3.Or(a, b)


def b_ite(c, l, r):
    if isinstance(c, (bool, int)):
        return l if c else r
    if isinstance(l, (bool, int)):
        if isinstance(r, (bool, int)):
            if bool(l) == bool(r):
                return bool(l)
            return c if l else b_not(c)
        return b_or(c, r) if l else b_and(b_not(c), r)
    if isinstance(r, (bool, int)):
        return b_or(b_not(c), l) if r else b_and(c, l)
    if l.eq(r):
        return l
    return z3.If(c, l, r)


def mk_ite(c, a, b):
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def mk_extract(hi, lo, x):
    w = x.size()
    if lo == 0 and hi == w - 1:
        return x
    if isc(x):
        return z3.BitVecVal((x.as_long() >> lo) & ((1 << (hi - lo + 1)) - 1), hi - lo + 1)
    kd = x.decl().kind()
    if kd == z3.Z3_OP_ZERO_EXT:
        y = x.arg(0)
        if hi < y.size():
            return mk_extract(hi, lo, y)
        if lo >= y.size():
            return z3.BitVecVal(0, hi - lo + 1)
    elif kd == z3.Z3_OP_CONCAT:
        top = w
        for c in x.children():
            top -= c.size()
            if lo >= top:
                if hi < top + c.size():
                    return mk_extract(hi - top, lo - top, c)
                break
    elif kd == z3.Z3_OP_EXTRACT:
        l2 = x.params()[1]
        return mk_extract(hi + l2, lo + l2, x.arg(0))
    elif kd == K_ITE:
        a, b = x.arg(1), x.arg(2)
        if isc(a) or isc(b):
            return mk_ite(x.arg(0), mk_extract(hi, lo, a), mk_extract(hi, lo, b))
    return z3.Extract(hi, lo, x)


def mk_concat(parts):
    """most significant first"""
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if isc(q) and isc(p):
                out[-1] = z3.BitVecVal((q.as_long() << p.size()) | p.as_long(), q.size() + p.size())
                continue
            if not isc(q) and not isc(p) and q.decl().kind() == z3.Z3_OP_EXTRACT and p.decl().kind() == z3.Z3_OP_EXTRACT \
                    and q.arg(0).eq(p.arg(0)) and q.params()[1] == p.params()[0] + 1:
                out[-1] = mk_extract(q.params()[0], p.params()[1], p.arg(0))
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    # leading zeros: zero extension
    if isc(out[0]) and out[0].as_long() == 0 and len(out) == 2:
        return z3.ZeroExt(out[0].size(), out[1])
    return z3.Concat(*out)


# ---------------------------------------------------------------- integer translation
class IntTr:
    def __init__(self, bounds):
        self.memo = {}
        self.bounds = bounds      # ast id of a BV variable -> inclusive upper bound valid on every path that uses it
        self.keep = []

    def tr(self, e):
        """-> (int/bool expr, lo, hi, side constraints (frozenset of indexes into self.side))"""
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            try:
                r = (e, self._tr(e))
            except Unsup as u:
                r = (e, u)
            self.memo[k] = r
        if isinstance(r[1], Unsup):
            raise r[1]
        return r[1]

    side = None

    def _side(self, c):
        if self.side is None:
            self.side = []
        self.side.append(c)
        return frozenset((len(self.side) - 1,))

    def wrap(self, s, lo, hi, w, sides):
        """value of the integer s in [lo,hi] modulo 2^w"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return s, lo, hi, sides
        if lo >= -M and hi < M:
            return z3.If(s < 0, s + M, s), 0, M - 1, sides
        if lo >= 0 and hi < 2 * M:
            return z3.If(s >= M, s - M, s), 0, M - 1, sides
        if lo >= -M and hi < 2 * M:
            return z3.If(s < 0, s + M, z3.If(s >= M, s - M, s)), 0, M - 1, sides
        return s % M, 0, M - 1, sides

    def _tr(self, e):
        if isc(e):
            v = e.as_long()
            return z3.IntVal(v), v, v, frozenset()
        kd = e.decl().kind()
        if z3.is_bool(e):
            return self._trb(e, kd)
        if not z3.is_bv(e):
            return self._tra(e, kd)
        w = e.size()
        M = 1 << w
        n = e.num_args()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if n:
                raise Unsup('function')
            v = z3.Int(e.decl().name())
            hi = min(self.bounds.get(e.get_id(), (None, M - 1))[1], M - 1)
            return v, 0, hi, self._side(z3.And(v >= 0, v <= hi))
        if kd == K_ADD:
            s, lo, hi, sd = None, 0, 0, frozenset()
            for c in e.children():
                if isc(c):
                    k = c.as_long()
                    if k >= M // 2:
                        k -= M
                    t, l, h, d = z3.IntVal(k), k, k, frozenset()
                elif c.decl().kind() == K_MUL and c.num_args() == 2 and isc(c.arg(0)) and c.arg(0).as_long() == M - 1:
                    t, l, h, d = self.tr(c.arg(1))
                    t, l, h = -t, -h, -l
                else:
                    t, l, h, d = self.tr(c)
                s = t if s is None else s + t
                lo, hi, sd = lo + l, hi + h, sd | d
            return self.wrap(s, lo, hi, w, sd)
        if kd == K_SUB:
            a, l1, h1, d1 = self.tr(e.arg(0))
            b, l2, h2, d2 = self.tr(e.arg(1))
            return self.wrap(a - b, l1 - h2, h1 - l2, w, d1 | d2)
        if kd == K_NEG:
            a, l, h, d = self.tr(e.arg(0))
            return self.wrap(-a, -h, -l, w, d)
        if kd == K_MUL:
            if n != 2:
                raise Unsup('mul')
            x, y = e.arg(0), e.arg(1)
            if isc(y):
                x, y = y, x
            if not isc(x):
                raise Unsup('mul')
            k = x.as_long()
            if k > M // 2:
                k -= M
            t, l, h, d = self.tr(y)
            lo, hi = (l * k, h * k) if k >= 0 else (h * k, l * k)
            if hi - lo > 64 * M:
                pass
            return self.wrap(t * k, lo, hi, w, d)
        if kd == K_ITE:
            c, _, _, d0 = self.tr(e.arg(0))
            a, l1, h1, d1 = self.tr(e.arg(1))
            b, l2, h2, d2 = self.tr(e.arg(2))
            return z3.If(c, a, b), min(l1, l2), max(h1, h2), d0 | d1 | d2
        if kd == z3.Z3_OP_ZERO_EXT:
            return self.tr(e.arg(0))
        if kd == z3.Z3_OP_SIGN_EXT:
            a, l, h, d = self.tr(e.arg(0))
            w0 = e.arg(0).size()
            if h < 1 << (w0 - 1):
                return a, l, h, d
            return z3.If(a >= 1 << (w0 - 1), a + (M - (1 << w0)), a), 0, M - 1, d
        if kd == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            a, l, h, d = self.tr(e.arg(0))
            if lo:
                a, l, h = a / (1 << lo), l >> lo, h >> lo
            if h >= 1 << (hi - lo + 1):
                a, l, h = a % (1 << (hi - lo + 1)), 0, (1 << (hi - lo + 1)) - 1
            return a, l, h, d
        if kd == z3.Z3_OP_CONCAT:
            s, lo, hi, sd, sh = None, 0, 0, frozenset(), w
            for c in e.children():
                sh -= c.size()
                t, l, h, d = self.tr(c)
                t = t * (1 << sh) if sh else t
                s = t if s is None else s + t
                lo, hi, sd = lo + (l << sh), hi + (h << sh), sd | d
            return s, lo, hi, sd
        if kd in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            if not isc(e.arg(1)) or e.arg(1).as_long() == 0:
                raise Unsup('div')
            k = e.arg(1).as_long()
            a, l, h, d = self.tr(e.arg(0))
            if kd in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                return a % k, 0, min(k - 1, h), d
            return a / k, l // k, h // k, d
        if kd == z3.Z3_OP_BAND and n == 2:
            x, y = e.arg(0), e.arg(1)
            if isc(x):
                x, y = y, x
            if isc(y):
                k = y.as_long()
                if k & (k + 1) == 0:
                    a, l, h, d = self.tr(x)
                    return a % (k + 1), 0, min(k, h), d
            raise Unsup('and')
        if kd == z3.Z3_OP_BSHL and isc(e.arg(1)) and e.arg(1).as_long() < w:
            a, l, h, d = self.tr(e.arg(0))
            k = e.arg(1).as_long()
            return self.wrap(a * (1 << k), l << k, h << k, w, d)
        if kd == z3.Z3_OP_BLSHR and isc(e.arg(1)) and e.arg(1).as_long() < w:
            a, l, h, d = self.tr(e.arg(0))
            k = e.arg(1).as_long()
            return a / (1 << k), l >> k, h >> k, d
        if kd == z3.Z3_OP_SELECT:
            a, _, _, d1 = self.tr(e.arg(0))
            i, _, _, d2 = self.tr(e.arg(1))
            t = z3.Select(a, i)
            return t, 0, M - 1, d1 | d2 | self._side(z3.And(t >= 0, t < M))
        raise Unsup(e.decl().name())

    def _tra(self, e, kd):
        if not z3.is_array(e):
            raise Unsup('sort')
        S = z3.IntSort()
        if kd == z3.Z3_OP_UNINTERPRETED:
            return z3.Array(e.decl().name(), S, S), 0, 0, frozenset()
        if kd == z3.Z3_OP_STORE:
            a, _, _, d1 = self.tr(e.arg(0))
            i, _, _, d2 = self.tr(e.arg(1))
            v, _, _, d3 = self.tr(e.arg(2))
            return z3.Store(a, i, v), 0, 0, d1 | d2 | d3
        if kd == z3.Z3_OP_CONST_ARRAY:
            v, _, _, d = self.tr(e.arg(0))
            return z3.K(S, v), 0, 0, d
        if kd == K_ITE:
            c, _, _, d0 = self.tr(e.arg(0))
            a, _, _, d1 = self.tr(e.arg(1))
            b, _, _, d2 = self.tr(e.arg(2))
            return z3.If(c, a, b), 0, 0, d0 | d1 | d2
        raise Unsup('array ' + e.decl().name())

    def _trb(self, e, kd):
        if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e, 0, 1, frozenset()
        n = e.num_args()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if n:
                raise Unsup('predicate')
            return e, 0, 1, frozenset()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_XOR, K_ITE, z3.Z3_OP_IMPLIES):
            ts, sd = [], frozenset()
            for c in e.children():
                t, _, _, d = self.tr(c)
                ts.append(t)
                sd = sd | d
            f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_XOR: z3.Xor,
                 K_ITE: z3.If, z3.Z3_OP_IMPLIES: z3.Implies}[kd]
            return f(*ts), 0, 1, sd
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and n == 2:
            a, l1, h1, d1 = self.tr(e.arg(0))
            b, l2, h2, d2 = self.tr(e.arg(1))
            t = a == b
            return (t if kd == z3.Z3_OP_EQ else z3.Not(t)), 0, 1, d1 | d2
        if kd in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, l1, h1, d1 = self.tr(e.arg(0))
            b, l2, h2, d2 = self.tr(e.arg(1))
            t = a <= b if kd == z3.Z3_OP_ULEQ else a < b if kd == z3.Z3_OP_ULT else a >= b if kd == z3.Z3_OP_UGEQ else a > b
            return t, 0, 1, d1 | d2
        if kd in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            H = 1 << (e.arg(0).size() - 1)
            r = []
            sd = frozenset()
            for x in e.children():
                a, l, h, d = self.tr(x)
                if h >= H:
                    a = z3.If(a >= H, a - 2 * H, a)
                r.append(a)
                sd = sd | d
            a, b = r
            t = a <= b if kd == z3.Z3_OP_SLEQ else a < b if kd == z3.Z3_OP_SLT else a >= b if kd == z3.Z3_OP_SGEQ else a > b
            return t, 0, 1, sd
        raise Unsup(e.decl().name())


class Model:
    """Model of a query, evaluated over bit-vector terms."""
    def __init__(self, m, tr=None):
        self.m, self.tr = m, tr

    def raw(self, t):
        v = self.m.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v.as_long()

    def bytes(self, a, n):
        """the first n elements of an array"""
        b = a if self.tr is None else self.tr.tr(a)[0]
        v = self.m.eval(b, model_completion=True)
        over = {}
        while True:
            k = v.decl().kind()
            if k == z3.Z3_OP_STORE and z3.is_bv_value(v.arg(1)) | z3.is_int_value(v.arg(1)):
                over.setdefault(v.arg(1).as_long(), v.arg(2))
                v = v.arg(0)
                continue
            break
        if k == z3.Z3_OP_CONST_ARRAY:
            d = v.arg(0)
        elif k == z3.Z3_OP_AS_ARRAY:
            f = self.m[z3.get_as_array_func(v)]
            for j in range(f.num_entries()):
                x = f.entry(j)
                over.setdefault(x.arg_value(0).as_long(), x.value())
            d = f.else_value()
        else:
            d = None
        vs = [d] + list(over.values())
        if any(x is None or not (z3.is_bv_value(x) or z3.is_int_value(x)) for x in vs):
            return [self.val(z3.Select(a, z3.BitVecVal(i, a.sort().domain().size()))) for i in range(n)]
        M = (1 << a.sort().range().size()) - 1
        out = [d.as_long() & M] * n
        for i, x in over.items():
            if 0 <= i < n:
                out[i] = x.as_long() & M
        return out

    def val(self, e):
        """int or bool"""
        if self.tr is None:
            return self.raw(e)
        t, lo, hi, _ = self.tr.tr(e)
        v = self.raw(t)
        return v if isinstance(v, bool) else v & ((1 << e.size()) - 1)

    def holds(self, c):
        """True, False, or None when this model says nothing about c"""
        if self.tr is None:
            return self.raw(c)
        try:
            t, _, _, sd = self.tr.tr(c)
        except Unsup:
            return None
        for i in sd:
            if not self.raw(self.tr.side[i]):
                return None
        return self.raw(t)


class Ctx:
    """Two incremental solvers over the same stack of literals: integers first, bit-vectors as a fallback."""
    def __init__(self, bounds, timeout_ms):
        self.tr = IntTr(bounds)
        self.si = z3.Solver()
        self.si.set('timeout', timeout_ms // 6)
        self.timeout = timeout_ms
        self.sb = z3.Solver()
        self.sb.set('timeout', timeout_ms)
        self.ist, self.bst = [], []        # [(lit, sides added)]
        self.active = set()
        self.n_int = self.n_bv = 0

    def _sync_int(self, pc):
        st = self.ist
        k, m = 0, min(len(st), len(pc))
        while k < m and st[k][0] is pc[k]:
            k += 1
        if len(st) > k:
            self.si.pop(len(st) - k)
            for _, sd in st[k:]:
                self.active -= sd
            del st[k:]
        for l in pc[k:]:
            t, _, _, sd = self.tr.tr(l.c)
            new = sd - self.active
            self.si.push()
            for i in new:
                self.si.add(self.tr.side[i])
            self.si.add(t)
            self.active |= new
            st.append((l, new))

    def _sync_bv(self, pc):
        st = self.bst
        k, m = 0, min(len(st), len(pc))
        while k < m and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.sb.pop(len(st) - k)
            del st[k:]
        for l in pc[k:]:
            self.sb.push()
            self.sb.add(l.c)
            st.append(l)

    def check(self, pc, extra, also=()):
        """also: terms that will be evaluated in the model"""
        try:
            for l in pc:
                if getattr(l, 'bad', False):
                    raise Unsup('lit')
            ex = [self.tr.tr(e) for e in extra]
            more = set()
            for e in also:
                more |= self.tr.tr(e)[3]
            try:
                self._sync_int(pc)
            except Unsup:
                for l in pc:
                    try:
                        self.tr.tr(l.c)
                    except Unsup:
                        l.bad = True
                raise
        except Unsup:
            self.n_bv += 1
            self._sync_bv(pc)
            r = self.sb.check(*extra)
            return r, (Model(self.sb.model()) if r == z3.sat else None), self.sb
        self.n_int += 1
        self.si.push()
        try:
            for t, _, _, sd in ex:
                for i in sd - self.active:
                    self.si.add(self.tr.side[i])
                self.si.add(t)
            for i in more - self.active:
                self.si.add(self.tr.side[i])
            r = self.si.check()
            who = self.si
            if r == z3.unknown:
                # another procedure for linear arithmetic
                who = z3.Solver()
                who.set('timeout', self.timeout)
                who.set('arith.solver', 2)
                who.add(self.si.assertions())
                r = who.check()
            m = Model(who.model(), self.tr) if r == z3.sat else None
        finally:
            self.si.pop()
        return r, m, who
