"""Threads over the real code under a release/acquire (RC11-style) memory model.

A harness sets things up sequentially, names one function per thread (vp_spawn) and calls vp_join with a function
that runs once all threads are done. Every thread is executed symbolically on its own: a load from memory that another
thread writes yields a fresh variable, and the access becomes an event in the thread's tree of paths. All trees then
go into one query: which path every thread takes, which write every read reads from, the modification order of every
location, and what happens before what are all chosen by the solver, within the axioms

  - coherence (a read never returns a write older than one that happens before it, modification order agrees with
    happens-before, and so on), atomicity of read-modify-writes, release/acquire synchronisation with release sequences
    and fences, no cycle of program order and reads-from.

SC accesses and fences are treated as acquire/release ones (more executions, never fewer).
An execution may leave any thread suspended anywhere; the final function needs all of them complete."""
import time

import z3

from .sym import Lit, Ptr, UNDEF, Dead, Stop, Violation, bv, bo, norm, eval_tape, PTR
from .smt import Model

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
NID = 100000
DEBUG = False
MAXEV = 60          # events on one path of a thread
MAXAT = 28          # atomic operations on one path of a thread, when termination is what is checked


class Ev:
    __slots__ = ('prev', 'tid', 'pos', 'k', 'loc', 'o', 'o2', 'rv', 'wv', 'wg', 'pc', 'idx', 'kids', 'info', 'V', 'PV', 'FV', 'RV',
                 'x', 'ts', 'mo', 'mor', 'where')

    def __init__(self, prev, tid, k, loc, o, pc, rv=None, wv=None, wg=True, info=None):
        self.prev, self.tid, self.k, self.loc, self.o, self.rv, self.wv, self.wg = prev, tid, k, loc, o, rv, wv, wg
        self.pos = prev.pos + 1 if prev is not None else 1
        self.pc, self.info, self.o2, self.kids = pc, info, None, []

    @property
    def reads(self):
        return self.k in ('R', 'U', 'C')

    @property
    def writes(self):
        return self.k in ('W', 'U', 'C')


class Conc:
    def __init__(self, e, st0, threads, final):
        self.e, self.st0, self.threads, self.final = e, st0, threads, final
        self.shared = {}         # (obj, byte) -> unit (obj, off, size)
        self.cands = {}          # unit -> frozenset of ints, or None: anything
        self.freed = set()       # objects some thread releases
        self.tid = None
        self.stats = {}
        self.mixed = set()
        self.seen = {}           # accesses of all rounds

    # ------------------------------------------------------------------ exploration
    def explore(self):
        e = self.e
        self.acc = {}            # (obj, off, size) -> {tid: set('rwa')}
        self.nodes = []
        self.leaves = []         # (tid, last event, path condition, state)
        self.obl = []
        self.cut = 0
        self.freed_now = set()
        for t, (fp, arg) in enumerate(self.threads):
            self.tid = t
            for s, _ in e.call(self.start(t), None, fp, [arg], None, None):
                self.leaves.append((t, s.ev, s.pc, s))
        self.tid = None
        self.bools = [z3.Bool('leaf%d' % n) for n in range(len(self.leaves))]

    def start(self, t):
        s = self.st0.fork()
        s.nid = NID * (t + 1)
        s.ev = None
        s.pc = list(self.st0.pc)
        s.model = None
        s.flags = {k: v for k, v in s.flags.items() if k != 'threads'}
        return s

    def explore_final(self):
        """The final function starts from every combination of what the threads can leave behind. Memory that only one
        thread writes is taken from the path that thread took; the rest is read through events."""
        if not self.final:
            return
        e, F = self.e, len(self.threads)
        marks = len(self.nodes), len(self.obl), {k: {t: set(f) for t, f in d.items()} for k, d in self.acc.items()}
        by = {}
        for (o, off, size), d in self.acc.items():
            for t, fl in d.items():
                if 'w' in fl:
                    for k in range(off, off + size):
                        by.setdefault((o, k), set()).add(t)
        for u in set(self.shared.values()):
            w = set().union(*[by.get((u[0], j), ()) for j in range(u[1], u[1] + u[2])])
            for j in range(u[1], u[1] + u[2]):
                if w:
                    by[(u[0], j)] = w
        own = {k: next(iter(v)) for k, v in by.items() if len(v) == 1}
        self.multi = {k for k, v in by.items() if len(v) > 1}
        reads = set()            # what the final function reads of it
        while True:
            del self.nodes[marks[0]:], self.obl[marks[1]:]
            self.acc = {k: {t: set(f) for t, f in d.items()} for k, d in marks[2].items()}
            self.freads, self.fwhole = set(), False
            combos = [[]]
            for t in range(F):
                g = {}
                for n, (lt, ev, pc, s) in enumerate(self.leaves):
                    if lt != t:
                        continue
                    new = tuple(sorted(o.id for k, o in s.mem.items() if self.mine(k) and o.kind == 'heap' and o.live))
                    key = (n,) if self.whole else (len(new),) + tuple(self.key(self.left(n, k)) for k in sorted(reads, key=str)
                                                                   if own.get(k) == t)
                    g.setdefault(key, []).append(n)
                combos = [c + [l] for c in combos for l in g.values()]
            if len(combos) > 600:
                raise Stop('too many ways to end (%d)' % len(combos))
            self.tid = F
            for c in combos:
                s = self.start(F)
                ok = True
                for t, ns in enumerate(c):
                    ok = ok and e.assume(s, z3.Or(*[self.bools[n] for n in ns]) if len(ns) > 1 else self.bools[ns[0]])
                    ls = self.leaves[ns[0]][3]
                    for k, o in ls.mem.items():
                        if self.mine(k):
                            s.mem[k] = o
                    for (o, off, size), d in sorted(marks[2].items(), key=lambda x: (str(x[0][0]), x[0][1], -x[0][2])):
                        if 'w' in d.get(t, ()):
                            for j in range(off, off + size):
                                if (o, j) in own:
                                    w, v = self.left(ns[0], (o, j), True)
                                    if (w, v) != (None, None):
                                        e.wr(s, s.w(o), j if w == 1 else w[0], 1 if w == 1 else w[1], v)
                s.tok = object()
                if ok:
                    e.call(s, None, self.final[0], [self.final[1]], None, None)
            self.tid = None
            new = {k for k in self.freads if k in own}
            if new <= reads and self.fwhole <= self.whole:
                return
            reads |= new
            self.whole |= self.fwhole

    def left(self, n, k, cell=False):
        """byte k as path n of its thread leaves it (cell: the widest cell that starts here, if nothing else mixes in)"""
        e = self.e
        t, ev, pc, s = self.leaves[n]
        u = self.shared.get(k)
        if u is not None:
            x = ev
            v = None
            while x is not None:
                if x.writes and x.loc == u:
                    v = x.wv if x.wg is True else norm(z3.If(x.wg, bv(x.wv, u[2] * 8), bv(x.rv, u[2] * 8)))
                    break
                x = x.prev
            if x is None:
                v = self.initial(u)
            if cell:
                return ((u[1], u[2]), v) if k[1] == u[1] else (None, None)
            return e.cut(s, v, u[2], k[1] - u[1], 1) if u[2] > 1 and v is not UNDEF else v
        o = s.mem.get(k[0]) or e.obj(s, k[0])
        if cell:
            c = o.cells.get(k[1])
            if c is not None and not any((k[0], j) in self.shared or (k[0], j) in self.multi for j in range(k[1], k[1] + c[0])):
                return (k[1], c[0]), c[1]
            if any(k[1] - d in o.cells and o.cells[k[1] - d][0] > d and
                   not any((k[0], j) in self.shared or (k[0], j) in self.multi for j in range(k[1] - d, k[1] - d + o.cells[k[1] - d][0]))
                   for d in range(1, 16)):
                return None, None
            return 1, e.byte(o, k[1], s)
        return e.byte(o, k[1], s)

    def key(self, v):
        if isinstance(v, Ptr):
            return 'p', v.obj, str(v.off)
        if v is UNDEF or isinstance(v, int):
            return v
        self.keep.append(v)         # identities stay valid only while it lives
        return 'z', v.get_id() if hasattr(v, 'get_id') else id(v)

    def analyse(self):
        e = self.e
        old = e.report, e.on_bound, e.conc
        e.report, e.on_bound, e.conc = self.report, self.bound, self
        self.whole = False
        self.keep = []
        self.dep = {}
        try:
            for n in range(60):
                self.explore()
                if DEBUG:
                    print(n, len(self.nodes), len(self.leaves), len(self.shared), {k: v for k, v in self.cands.items() if v is not None})
                if self.classify() or self.values():
                    continue
                self.explore_final()
                if not self.classify():
                    break
            else:
                raise Stop('the values threads exchange do not settle')
        finally:
            e.report, e.on_bound, e.conc = old
        e.stats['conc_nodes'] = e.stats.get('conc_nodes', 0) + len(self.nodes)
        e.stats['conc_programs'] = e.stats.get('conc_programs', 0) + 1
        e.stats['conc_leaves'] = e.stats.get('conc_leaves', 0) + len(self.leaves)
        e.stats['conc_cut'] = e.stats.get('conc_cut', 0) + self.cut
        self.solve()

    def classify(self):
        """Which bytes do several threads use, one of them writing? True if that grew."""
        by = {}
        for k, d in self.acc.items():
            d2 = self.seen.setdefault(k, {})
            for t, fl in d.items():
                d2.setdefault(t, set()).update(fl)
        for (o, off, size), d in self.seen.items():
            for b in range(off, off + size):
                m = by.setdefault((o, b), {})
                for t, fl in d.items():
                    m.setdefault(t, set()).update(fl)
        F = len(self.threads)
        hot = {k for k, m in by.items() if len(set(m) - {F}) > 1 and any('w' in f for t, f in m.items() if t != F)}
        hot |= set(self.shared)
        # group accesses that overlap in hot bytes
        rng = sorted({k for k in self.seen if any((k[0], b) in hot for b in range(k[1], k[1] + k[2]))}, key=str)
        units = {}
        groups = {}
        for o, off, size in rng:
            groups.setdefault(o, []).append((off, size))
        for o, l in groups.items():
            l = sorted(set(l))
            cur, hi = [], None
            for off, size in l + [(1 << 62, 1)]:
                if cur and off >= hi:
                    if len(cur) == 1:
                        units.update({(o, b): (o, cur[0][0], cur[0][1]) for b in range(cur[0][0], cur[0][0] + cur[0][1])
                                      if any((o, c) in hot for c in range(cur[0][0], cur[0][0] + cur[0][1]))})
                    else:
                        small = {}
                        # ranges that split evenly into the smallest accesses stay whole
                        for a, s in sorted(cur, key=lambda x: x[1]):
                            bs = range(a, a + s)
                            if not any(b in small for b in bs):
                                for b in bs:
                                    small[b] = (a, s)
                            elif any(b not in small or small[b][0] < a or small[b][0] + small[b][1] > a + s for b in bs):
                                for b in bs:
                                    u = small.get(b)
                                    if u:
                                        for c in range(u[0], u[0] + u[1]):
                                            small[c] = (c, 1)
                                    small[b] = (b, 1)
                        for b, (a, s) in small.items():
                            if any((o, c) in hot for c in range(a, a + s)):
                                units[(o, b)] = (o, a, s)
                    cur, hi = [], None
                cur.append((off, size))
                hi = max(hi or 0, off + size)
        ch = units != self.shared or self.freed_now != self.freed
        if ch:
            self.shared, self.freed = units, self.freed | self.freed_now
            old, self.cands = self.cands, {}
            for u in set(units.values()):
                v = self.initial(u)
                self.cands[u] = old[u] if u in old else frozenset([v]) if isinstance(v, int) else None
            self.atomic = {u for u in set(units.values()) if any('a' in f for f in self.seen.get(u, {}).values())}
        return ch

    def initial(self, u):
        o = self.st0.mem.get(u[0]) or self.e.obj(self.st0, u[0])
        return self.e.rd(self.st0, o, u[1], u[2])

    def values(self):
        """Values each shared location may hold. True if that grew."""
        e = self.e
        new = dict(self.cands)
        self.mixed = set()
        most = None
        for x in self.nodes:
            if x.writes and isinstance(x.wv, Ptr) | isinstance(self.initial(x.loc), Ptr) and self.same(x.wv, self.initial(x.loc), x.loc) is not True:
                self.mixed.add(x.loc)
            if not x.writes or new.get(x.loc, 0) is None:
                continue
            v = x.wv
            if isinstance(v, int):
                new[x.loc] = new[x.loc] | {v}
            elif isinstance(v, Ptr) or v is UNDEF or x.loc not in self.atomic and not self.small(v):
                new[x.loc] = None
            elif x.k == 'W':
                vals = self.all_values(x.pc, v)
                new[x.loc] = None if vals is None else new[x.loc] | vals
            else:
                # a chain of read-modify-writes is no longer than there are such operations in one execution
                dep = self.dep.setdefault(x.loc, {})
                if most is None:
                    most = self.longest()
                for r in sorted(new[x.loc]):
                    d = dep.get(r, 0)
                    if d < most.get(x.loc, 0):
                        vals = self.all_values(x.pc + [Lit(bv(x.rv, x.loc[2] * 8) == r)], v)
                        if vals is None:
                            new[x.loc] = None
                            break
                        for c in vals - new[x.loc]:
                            dep[c] = d + 1
                        new[x.loc] = new[x.loc] | vals
        ch = new != self.cands
        self.cands = new
        return ch

    def all_values(self, pc, v, limit=24):
        vals, ex = set(), []
        while True:
            ok, m = self.e.check(pc, *ex, also=(v,))
            if not ok:
                return vals
            c = int(m.val(v))
            vals.add(c)
            ex.append(v != c)
            if len(vals) > limit:
                return None

    def longest(self):
        """location -> most read-modify-writes of it in one execution"""
        n = {}
        for x in self.nodes:
            c = {}
            y = x
            while y is not None:
                if y.k in ('U', 'C'):
                    c[y.loc] = c.get(y.loc, 0) + 1
                y = y.prev
            for l, k in c.items():
                n[(l, x.tid)] = max(n.get((l, x.tid), 0), k)
        tot = {}
        for (l, t), k in n.items():
            tot[l] = tot.get(l, 0) + k
        return tot

    def small(self, v):
        """only a few values possible (counters), not payload"""
        try:
            return self.e.upper(v) < 16
        except Exception:
            return False

    # ------------------------------------------------------------------ hooks of the executor
    def hot(self, o, b):
        """shared unit the byte belongs to, for the thread running now"""
        if self.tid == len(self.threads) and (o, b) not in self.multi:
            return None
        return self.shared.get((o, b))

    def fin(self, st, o, off, size, fl):
        """what the final function reads before it writes it"""
        if self.tid == len(self.threads):
            if self.mine(o):
                if o < NID * (self.tid + 1):
                    self.fwhole = True
                return
            done = st.flags.get('fw', frozenset())
            ks = {(o, b) for b in range(off, off + size)} - done
            if 'r' in fl:
                self.freads |= ks
            elif ks:
                st.flags['fw'] = done | ks

    def note(self, st, o, off, size, fl):
        d = self.acc.setdefault((o, off, size), {}).setdefault(self.tid, set())
        d.update(fl)
        self.fin(st, o, off, size, fl)

    def mine(self, oid):
        return isinstance(oid, int) and oid >= NID

    def push(self, st, k, loc, o, **kw):
        if st.ev is not None and (st.ev.pos >= MAXEV or self.e.hang and self.atomics(st.ev) > MAXAT):
            self.bound(st)
        ev = Ev(st.ev, self.tid, k, loc, o, list(st.pc), **kw)
        ev.where = self.e.trace[-1] if self.e.trace else ''
        self.nodes.append(ev)
        st.ev = ev
        return ev

    def touch(self, st, oid):
        if oid not in self.freed:
            return
        x = st.ev
        while x is not None and x.k in ('T', 'R') and not (x.k == 'R' and x.o in ACQ):
            if x.k == 'T' and x.info == oid:
                return
            x = x.prev
        self.push(st, 'T', None, None, info=oid)

    def fresh(self, st, u):
        """value read from a shared location"""
        c = self.cands.get(u)
        w = u[2] * 8
        if c is None:
            i = self.initial(u)
            if isinstance(i, Ptr):
                if u in self.mixed:
                    raise Stop('changing pointer in memory shared between threads')
                return i
            return self.e.sym('r', w)
        mx = max(c)
        k = max(1, mx.bit_length())
        x = self.e.sym('r', k)
        self.e.bound(x, mx)
        v = z3.ZeroExt(w - k, x) if k < w else x
        if len(c) < 1 << k:
            if len(c) == mx + 1:
                ok = self.e.assume(st, z3.ULE(x, z3.BitVecVal(mx, k)))
            else:
                ok = self.e.assume(st, z3.Or(*[x == a for a in sorted(c)]))
            if not ok:
                raise Dead()
        return v

    def unit(self, p, size):
        """shared unit accessed exactly, None if nothing shared, False if split is needed"""
        hit = [self.hot(p.obj, b) for b in range(p.off, p.off + size)]
        if not any(hit):
            return None
        u = hit[0]
        if u is not None and u[1] == p.off and u[2] == size:
            return u
        return False

    def skip(self, st, p):
        if type(p) is not Ptr:
            return True
        if self.mine(p.obj):
            self.fin(st, p.obj, 0, 0, 'r')
            return True
        return type(p.off) is not int

    def load(self, e, st, p, t, o, i):
        if self.skip(st, p):
            return NotImplemented
        if t == PTR:
            size = 8
        elif t[0] == 'i':
            size = (t[1] + 7) // 8
        else:
            return NotImplemented       # part by part
        ob = e.access(st, p, size, 'read')
        if ob is None or ob.ro:
            return NotImplemented
        if ob.arr is not None:
            raise Stop('thread uses an array of symbolic length')
        self.touch(st, p.obj)
        self.note(st, p.obj, p.off, size, 'ra' if o else 'r')
        u = self.unit(p, size)
        if u is None:
            return NotImplemented
        if u is False:
            if o:
                raise Stop('atomic access mixed with accesses of another size')
            return self.trunc(e, e.join([b for x in self.pieces(e, st, p, size) for b in self.split(e, st, x)]), t, size)
        return self.trunc(e, self.read(e, st, u, o), t, size)

    @staticmethod
    def trunc(e, v, t, size):
        if t != PTR and t[1] & 7 and v is not UNDEF:
            return e.trunc(v, size * 8, t[1])
        return v

    def read(self, e, st, u, o):
        v = self.fresh(st, u)
        self.push(st, 'R', u, o or 'na', rv=v)
        return v

    def split(self, e, st, x):
        size, v = x
        return [e.cut(st, v, size, j, 1) for j in range(size)]

    def pieces(self, e, st, p, n):
        """[(size, value)] covering n bytes at p, shared parts read through events"""
        o = e.obj(st, p.obj)
        out = []
        k = p.off
        while k < p.off + n:
            u = self.hot(p.obj, k)
            if u is not None:
                if u[1] != k or k + u[2] > p.off + n:
                    raise Stop('access cuts through a shared location')
                out.append((u[2], self.read(e, st, u, None)))
                k += u[2]
                continue
            c = o.cells.get(k)
            if c is not None and k + c[0] <= p.off + n and not any(self.hot(p.obj, b) for b in range(k, k + c[0])):
                out.append(c)
                k += c[0]
            else:
                out.append((1, e.byte(o, k, st)))
                k += 1
        return out

    def store(self, e, st, p, t, v, o, i):
        if self.skip(st, p):
            return NotImplemented
        if t == PTR:
            size = 8
        elif t[0] == 'i':
            size = (t[1] + 7) // 8
            if t[1] & 7:
                v = e.zext(v, t[1], size * 8) if v is not UNDEF else v
        else:
            return NotImplemented
        e.access(st, p, size, 'write')
        self.touch(st, p.obj)
        self.note(st, p.obj, p.off, size, 'wa' if o else 'w')
        u = self.unit(p, size)
        if u is None:
            return NotImplemented
        if u is False:
            if o:
                raise Stop('atomic access mixed with accesses of another size')
            self.put(e, st, p, [(size, v)])
            return None
        self.push(st, 'W', u, o or 'na', wv=v)
        return None

    def put(self, e, st, p, items):
        k = p.off
        for size, v in items:
            us = {self.hot(p.obj, b) for b in range(k, k + size)}
            if us == {None}:
                if v is UNDEF:
                    w = st.w(p.obj)
                    e.clear(st, w, k, size)
                else:
                    e.wr(st, st.w(p.obj), k, size, v)
            elif len(us) == 1 and next(iter(us))[1:] == (k, size):
                self.push(st, 'W', next(iter(us)), 'na', wv=v)
            elif size == 1:
                raise Stop('access cuts through a shared location')
            else:
                q = k
                while q < k + size:
                    u = self.hot(p.obj, q)
                    if u is None:
                        self.put(e, st, Ptr(p.obj, q), [(1, e.cut(st, v, size, q - k, 1))])
                        q += 1
                    else:
                        if u[1] != q or q + u[2] > k + size:
                            raise Stop('access cuts through a shared location')
                        b = [e.cut(st, v, size, q - k + j, 1) for j in range(u[2])]
                        self.push(st, 'W', u, 'na', wv=e.join(b))
                        q += u[2]
            k += size

    def fill(self, e, st, d, v, n):
        if type(d) is not Ptr or self.mine(d.obj):
            return False
        if type(d.off) is not int:
            raise Stop('fill at a symbolic address')
        e.access(st, d, n, 'write')
        self.touch(st, d.obj)
        items = []
        for k, size in self.chunks(d, n):
            self.note(st, d.obj, k, size, 'w')
            items.append((size, v if v is UNDEF else int.from_bytes(bytes([v]) * size, 'little') if isinstance(v, int)
                          else e.join([v] * size)))
        if not any(self.hot(d.obj, b) for b in range(d.off, d.off + n)):
            return False
        self.put(e, st, d, items)
        return True

    def copy(self, e, st, d, s, n, i):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(d.off, int) and isinstance(s.off, int)):
            return NotImplemented
        sh = []
        for p, fl in ((s, 'r'), (d, 'w')):
            if self.mine(p.obj):
                continue
            e.access(st, p, n, 'read' if fl == 'r' else 'write')
            self.touch(st, p.obj)
            for u in self.chunks(p, n):
                self.note(st, p.obj, u[0], u[1], fl)
            if any(self.hot(p.obj, b) for b in range(p.off, p.off + n)):
                sh.append(fl)
        if not sh:
            return NotImplemented
        e.access(st, s, n, 'read')
        e.access(st, d, n, 'write')
        items = self.pieces(e, st, s, n)
        self.put(e, st, d, items)
        return None

    def chunks(self, p, n):
        """bytes of a bulk access, by shared unit where there is one"""
        k = p.off
        while k < p.off + n:
            u = self.hot(p.obj, k)
            if u is not None and u[1] == k and k + u[2] <= p.off + n:
                yield k, u[2]
                k += u[2]
            else:
                # follow the layout of what is there
                o = self.st0.mem.get(p.obj)
                c = o.cells.get(k) if o is not None else None
                if c is not None and k + c[0] <= p.off + n:
                    yield k, c[0]
                    k += c[0]
                else:
                    yield k, 1
                    k += 1

    def rmw(self, e, st, p, t, f, o, i):
        r = self.at(e, st, p, t)
        if r is NotImplemented:
            return r
        u, size = r
        v = self.fresh(st, u)
        nv = f(v)
        self.push(st, 'U', u, o, rv=v, wv=norm(nv) if not isinstance(nv, int) else nv)
        return v

    def cas(self, e, st, p, t, c, n, o1, o2, weak, i):
        from .sym import Agg
        r = self.at(e, st, p, t)
        if r is NotImplemented:
            return r
        u, size = r
        v = self.fresh(st, u)
        if t == PTR:
            raise Stop('compare-exchange of pointers')
        w = size * 8
        eq = norm(z3.simplify(bv(v, w) == bv(c if t[1] == w else e.zext(c, t[1], w), w)))
        x = self.push(st, 'C', u, o1, rv=v, wv=n if t[1] == w else e.zext(n, t[1], w), wg=bo(eq))
        x.o2 = o2
        return Agg((self.trunc(e, v, t, size), eq))

    def at(self, e, st, p, t):
        if type(p) is not Ptr or self.mine(p.obj):
            return NotImplemented
        if type(p.off) is not int:
            raise Stop('atomic access at a symbolic address')
        size = 8 if t == PTR else (t[1] + 7) // 8
        e.access(st, p, size, 'write')
        self.touch(st, p.obj)
        self.note(st, p.obj, p.off, size, 'rwa')
        u = self.unit(p, size)
        if u is None:
            return NotImplemented
        if u is False:
            raise Stop('atomic access mixed with accesses of another size')
        return u, size

    def fence(self, e, st, o):
        self.push(st, 'F', None, o)

    def alloc(self, e, st, o):
        pass

    def dealloc(self, e, st, p, o, i):
        if not self.mine(o.id):
            if self.tid < len(self.threads):
                self.freed_now.add(o.id)
            if o.live:
                self.push(st, 'D', None, None, info=o.id)
        return NotImplemented

    def live(self, e, st):
        """blocks alive once the other threads are done"""
        n = sum(1 for o in self.st0.mem.values() if o.kind == 'heap' and o.live)
        own = sum(1 for k, o in st.mem.items() if o.kind == 'heap' and o.live and self.mine(k))
        own -= sum(1 for k, o in st.mem.items() if o.kind == 'heap' and not o.live and not self.mine(k) and self.st0.mem[k].live)
        v = e.sym('live', 16)
        self.e.assume(st, z3.ULE(v, n))
        self.push(st, 'L', None, None, rv=v, info=n)
        return norm(z3.ZeroExt(48, v) + own)

    # ------------------------------------------------------------------ obligations
    def report(self, st, neg, kind, msg):
        self.obl.append((self.tid, st.ev, list(st.pc), neg, kind, msg, st.tape))

    def atomics(self, x):
        n = 0
        while x is not None:
            n += x.o is not None and x.o != 'na'
            x = x.prev
        return n

    def bound(self, st):
        self.cut += 1
        if self.e.hang:
            self.report(st, None, 'hang', 'an operation does not return')
        raise Dead()

    # ------------------------------------------------------------------ the query
    def solve(self):
        e = self.e
        t0 = time.time()
        T = len(self.threads)
        s = z3.SolverFor('QF_BV')
        depth = max([x.pos for x in self.nodes], default=1)
        B = (depth + 2).bit_length() + 1
        N = len(self.nodes) + 2
        TB = N.bit_length() + 1
        s.add(*[l.c for l in self.st0.pc])
        base = {id(l) for l in self.st0.pc}
        K = lambda v: z3.BitVecVal(v, B)     # noqa: E731
        locs = {}
        ids = {}
        for n, x in enumerate(self.nodes):
            x.idx = n
            ids[id(x)] = x
            x.x = z3.Bool('x%d' % n)
            x.ts = z3.BitVec('t%d' % n, TB)
            if x.loc is not None:
                locs.setdefault(x.loc, []).append(x)
        F = T if self.final else None
        roots = {}
        for x in self.nodes:
            if x.prev is not None:
                x.prev.kids.append(x)
                s.add(z3.Implies(x.x, x.prev.x))
                s.add(z3.Implies(x.x, z3.ULT(x.prev.ts, x.ts)))
                have = {id(l) for l in x.prev.pc}
            else:
                roots.setdefault(x.tid, []).append(x)
                have = base
            cs = [l.c for l in x.pc if id(l) not in have]
            if cs:
                s.add(z3.Implies(x.x, z3.And(*cs)))
        for x in self.nodes:
            if len(x.kids) > 1:
                self.amo(s, [k.x for k in x.kids])
        for l in roots.values():
            if len(l) > 1:
                self.amo(s, [k.x for k in l])
        # complete threads
        full = {t: [] for t in range(T)}
        for n, (t, ev, pc, _) in enumerate(self.leaves):
            if t == F:
                continue
            b = self.bools[n]
            full[t].append(b)
            s.add(z3.Implies(b, z3.And(*[l.c for l in pc if id(l) not in base])))
            if ev is not None:
                s.add(z3.Implies(b, ev.x))
                for k in ev.kids:
                    s.add(z3.Implies(b, z3.Not(k.x)))
            else:
                for k in roots.get(t, ()):
                    s.add(z3.Implies(b, z3.Not(k.x)))
        alld = z3.And(*[z3.Or(*full[t]) for t in range(T)])
        for t in range(T):
            self.amo(s, full[t])
        if F is not None:
            for x in roots.get(F, ()):
                s.add(z3.Implies(x.x, alld))
        # modification order
        for u, evs in locs.items():
            ws = [x for x in evs if x.writes]
            tids = {x.tid for x in ws if x.tid != F}
            if len(tids) <= 1:
                for x in ws:
                    x.mo = K(x.pos) if x.tid != F else K(depth + 1)
                fw = [x for x in ws if x.tid == F]
                for x in fw:
                    # after everything; later writes of F later
                    x.mo = z3.BitVec('m%d' % x.idx, B)
                    s.add(z3.UGE(x.mo, K(depth + 1)))
                for a in fw:
                    for b in fw:
                        if self.before(a, b):
                            s.add(z3.ULT(a.mo, b.mo))
            else:
                for x in ws:
                    x.mo = z3.BitVec('m%d' % x.idx, B + 2)
                    s.add(z3.UGT(x.mo, 0))
                for i, a in enumerate(ws):
                    for b in ws[i + 1:]:
                        if a.tid == b.tid:
                            if self.before(a, b):
                                s.add(z3.Implies(self.wx(b), z3.ULT(a.mo, b.mo)))
                        elif b.tid == F:
                            s.add(z3.Implies(z3.And(self.wx(a), self.wx(b)), z3.ULT(a.mo, b.mo)))
                        else:
                            s.add(z3.Implies(z3.And(self.wx(a), self.wx(b)), a.mo != b.mo))
        # views
        rf = {}
        pend = []
        z = K(0)
        for x in self.nodes:
            p = x.prev
            if x.tid == F:
                x.V = x.PV = x.FV = [K(depth + 1)] * T
                x.RV = x.V
                continue
            V = list(p.V) if p is not None else [z] * T
            PV = list(p.PV) if p is not None else [z] * T
            FV = list(p.FV) if p is not None else [z] * T
            if x.reads and x.o != 'na':
                S = [z3.BitVec('s%d_%d' % (x.idx, u), B) if u != x.tid else z for u in range(T)]
                a1 = x.o in ACQ
                a2 = a1 if x.o2 is None else x.o2 in ACQ
                for u in range(T):
                    if u == x.tid:
                        continue
                    mxv = z3.If(z3.UGT(S[u], V[u]), S[u], V[u])
                    mxp = z3.If(z3.UGT(S[u], PV[u]), S[u], PV[u])
                    nv = z3.BitVec('v%d_%d' % (x.idx, u), B)
                    s.add(nv == (mxv if a1 and a2 else V[u] if not a1 and not a2 else
                                 z3.If(x.wg, mxv if a1 else V[u], mxv if a2 else V[u])))
                    V[u] = nv
                    PV[u] = mxp
                pend.append((x, S))
            if x.k == 'F':
                if x.o in ACQ:
                    for u in range(T):
                        if u != x.tid:
                            nv = z3.BitVec('v%d_%d' % (x.idx, u), B)
                            s.add(nv == z3.If(z3.UGT(PV[u], V[u]), PV[u], V[u]))
                            V[u] = nv
                if x.o in REL:
                    FV = [V[u] if u != x.tid else K(x.pos) for u in range(T)]
            x.V, x.PV, x.FV = V, PV, FV
            x.RV = None
            if x.writes and x.o != 'na':
                x.RV = [V[u] if u != x.tid else K(x.pos) for u in range(T)] if x.o in REL else list(FV)
        # release sequences continue through read-modify-writes
        for x, S in pend:
            if x.k in ('U', 'C'):
                x.RV = [z3.If(z3.UGT(S[u], x.RV[u]), S[u], x.RV[u]) if u != x.tid else x.RV[u] for u in range(T)]
        self.T, self.F, self.B, self.K = T, F, B, K
        # reads-from
        init = {u: self.initial(u) for u in locs}
        for u, evs in locs.items():
            ws = [x for x in evs if x.writes]
            mw = ws[0].mo.size() if ws else B
            k0 = z3.BitVecVal(0, mw)
            rs = [x for x in evs if x.reads]
            for r in rs:
                own = [w for w in ws if w.tid == r.tid and self.before(w, r)]
                cand = []
                i = init[u]
                c = self.same(r.rv, i, u)
                if c is not False:
                    cand.append((None, c, k0))
                for w in ws:
                    if w is r or w.tid == r.tid and not self.before(w, r) or w.tid == F and r.tid != F:
                        continue
                    c = self.same(r.rv, w.wv, u)
                    if c is not False:
                        cand.append((w, c, w.mo))
                bs = []
                r.mor = z3.BitVec('mr%d' % r.idx, mw)
                for w, c, mo in cand:
                    b = z3.Bool('rf%d_%s' % (r.idx, w.idx if w else 'i'))
                    bs.append(b)
                    rf[(r.idx, w.idx if w else -1)] = b
                    s.add(z3.Implies(b, r.mor == mo))
                    if c is not True:
                        s.add(z3.Implies(b, c))
                    if w is not None:
                        s.add(z3.Implies(b, z3.And(self.wx(w), z3.ULT(w.ts, r.ts))))
                s.add(z3.Implies(r.x, z3.Or(*bs)) if bs else z3.Not(r.x))
                self.amo(s, bs)
                if r.k in ('U', 'C'):
                    s.add(z3.Implies(self.wx(r), z3.ULT(r.mor, r.mo)))
                    for w in ws:
                        if w is not r:
                            s.add(z3.Implies(z3.And(self.wx(r), self.wx(w)), z3.Or(z3.ULE(w.mo, r.mor), z3.UGT(w.mo, r.mo))))
            # coherence
            for r in rs:
                for w in ws:
                    if w is r:
                        continue
                    if w.tid == r.tid:
                        if self.before(w, r):
                            s.add(z3.Implies(z3.And(self.wx(w), r.x), z3.ULE(w.mo, r.mor)))
                        elif self.before(r, w):
                            s.add(z3.Implies(self.wx(w), z3.ULT(r.mor, w.mo)))
                        continue
                    h = self.hb(w, r)
                    if h is not False:
                        s.add(z3.Implies(z3.And(self.wx(w), r.x, h), z3.ULE(w.mo, r.mor)))
                    h = self.hb(r, w)
                    if h is not False:
                        s.add(z3.Implies(z3.And(self.wx(w), r.x, h), z3.ULT(r.mor, w.mo)))
                for q in rs:
                    if q is r:
                        continue
                    if q.tid == r.tid:
                        if self.before(q, r):
                            s.add(z3.Implies(r.x, z3.ULE(q.mor, r.mor)))
                        continue
                    h = self.hb(q, r)
                    if h is not False:
                        s.add(z3.Implies(z3.And(q.x, r.x, h), z3.ULE(q.mor, r.mor)))
            for i, a in enumerate(ws):
                for b in ws:
                    if a is not b and a.tid != b.tid:
                        h = self.hb(a, b)
                        if h is not False and h is not True:
                            s.add(z3.Implies(z3.And(self.wx(a), self.wx(b), h), z3.ULT(a.mo, b.mo)))
        # what a read acquires
        for x, S in pend:
            for (ri, wi), b in [(k, v) for k, v in rf.items() if k[0] == x.idx]:
                for u in range(T):
                    if u == x.tid:
                        continue
                    w = self.nodes[wi] if wi >= 0 else None
                    s.add(z3.Implies(b, S[u] == (w.RV[u] if w is not None and w.RV is not None else z)))
        # blocks alive at the end
        for x in self.nodes:
            if x.k == 'L':
                ds = [d for d in self.nodes if d.k == 'D' and d.tid != F]
                tot = z3.BitVecVal(x.info, 16)
                for d in ds:
                    tot = tot - z3.If(d.x, z3.BitVecVal(1, 16), z3.BitVecVal(0, 16))
                s.add(z3.Implies(x.x, x.rv == tot))
        self.rf = rf
        # --- races
        bad = []
        for u, evs in locs.items():
            for i, a in enumerate(evs):
                for b in evs[i + 1:]:
                    if a.tid == b.tid or F in (a.tid, b.tid) or not (a.writes or b.writes):
                        continue
                    if a.o != 'na' and b.o != 'na':
                        continue
                    c = z3.And(a.x, b.x, z3.Not(self.bool(self.hb(a, b))), z3.Not(self.bool(self.hb(b, a))))
                    bad.append((c, 'race', 'data race: %s of thread %d and %s of thread %d on %s are unordered' % (
                        'write' if a.writes else 'read', a.tid, 'write' if b.writes else 'read', b.tid, self.lname(u)), (a, b)))
        for d in self.nodes:
            if d.k != 'D' or d.tid == F:
                continue
            for x in self.nodes:
                if x.tid == d.tid or x.info != d.info or x.k not in 'DT':
                    continue
                if x.tid == F:
                    bad.append((z3.And(d.x, x.x), 'free', 'used or released again after thread %d released it' % d.tid, (d, x)))
                elif x.k == 'D' and x.idx > d.idx:
                    bad.append((z3.And(d.x, x.x), 'free', 'released twice, by threads %d and %d' % (d.tid, x.tid), (d, x)))
                elif x.k == 'T':
                    bad.append((z3.And(d.x, x.x, z3.Not(self.bool(self.hb(x, d)))), 'free',
                                'a use by thread %d is not ordered before the release by thread %d' % (x.tid, d.tid), (d, x)))
        fin = list(self.obl)
        e.stats['checks'] += len(bad) + len(fin)
        if bad:
            self.ask(s, bad)
        # race-free from here on: plain reads see the last write that happens before them
        for u, evs in locs.items():
            for r in evs:
                if r.reads and r.o == 'na' and r.tid != F:
                    for w in evs:
                        b = rf.get((r.idx, w.idx))
                        if b is not None and w.tid != r.tid:
                            s.add(z3.Implies(b, self.bool(self.hb(w, r))))
        obs = []
        for t, ev, pc, neg, kind, msg, tape in fin:
            c = [l.c for l in pc if id(l) not in base] + ([neg] if neg is not None else [])
            if ev is not None:
                c.append(ev.x)
            if t == F:
                c.append(alld)
            obs.append((z3.And(*c) if c else z3.BoolVal(True), kind, msg, (t, tape)))
        if obs:
            self.ask(s, obs)
        # witness: all threads can complete
        if alld is not None:
            q = time.time()
            r = s.check(alld)
            e.stats['queries'] += 1
            e.stats['solver_s'] += time.time() - q
            e.covers['reached: all threads complete'] = e.covers.get('reached: all threads complete') or r == z3.sat
            if r != z3.sat:
                raise Stop('vacuous: no complete execution (%s)' % r)
        self.stats['wall'] = time.time() - t0

    def ask(self, s, bad):
        e = self.e
        s.push()
        gs = []
        for n, (c, kind, msg, _) in enumerate(bad):
            g = z3.Bool('bad%d_%d' % (n, id(bad)))
            gs.append(g)
            s.add(z3.Implies(g, c))
        s.add(z3.Or(*gs))
        if e.deadline:
            left = e.deadline - time.time()
            if left < 1:
                raise Stop('time budget exceeded')
            s.set('timeout', int(left * 1000))
        q = time.time()
        r = s.check()
        e.stats['queries'] += 1
        e.stats['solver_s'] += time.time() - q
        if r == z3.unknown:
            raise Stop('solver gave up: %s' % s.reason_unknown())
        if r == z3.sat:
            m = s.model()
            for g, (c, kind, msg, x) in zip(gs, bad):
                if z3.is_true(m.eval(g)):
                    break
            mm = Model(m)
            v = Violation(kind, msg, eval_tape(self.st0.tape, mm), mm, self.story(m))
            e.violations.append(v)
            raise v
        e.stats['discharged'] += len(bad)
        s.pop()

    def story(self, m):
        """the events of a counterexample, in an order the memory model allows"""
        out = []
        for x in self.nodes:
            if z3.is_true(m.eval(x.x)) and x.k != 'T':
                ts = m.eval(x.ts, model_completion=True).as_long()
                val = x.rv if x.reads else x.wv
                val = '' if val is None or isinstance(val, Ptr) or val is UNDEF else m.eval(bv(val, 64), model_completion=True)
                src = ''
                if x.reads:
                    for (ri, wi), b in self.rf.items():
                        if ri == x.idx and z3.is_true(m.eval(b)):
                            src = ' from %s' % ('init' if wi < 0 else '%d.%d' % (self.nodes[wi].tid, self.nodes[wi].pos))
                out.append((ts, '%d.%d %s %s%s=%s%s' % (x.tid, x.pos, x.k, self.lname(x.loc) if x.loc else x.info if x.info else '',
                                                      '' if x.o is None else '/' + x.o, val, src)))
        return [b for _, b in sorted(out)]

    def lname(self, u):
        o = self.st0.mem.get(u[0])
        return '%s+%d(%d)' % (o.name if o is not None and o.name else u[0], u[1], u[2])

    @staticmethod
    def bool(h):
        return z3.BoolVal(h) if isinstance(h, bool) else h

    @staticmethod
    def wx(w):
        return w.x if w.wg is True else z3.And(w.x, w.wg)

    @staticmethod
    def before(a, b):
        """a is a proper ancestor of b"""
        while b is not None and b.pos > a.pos:
            b = b.prev
        return b is a

    def hb(self, a, b):
        """a (executed) happens before b (executed, another thread)"""
        if b.tid == self.F:
            return True
        if a.tid == self.F:
            return False
        v = b.V[a.tid]
        if isinstance(v, z3.BitVecNumRef):
            return v.as_long() >= a.pos
        return z3.UGE(v, self.K(a.pos))

    @staticmethod
    def same(x, y, u):
        if y is UNDEF or x is UNDEF:
            return True
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.off == y.off
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        c = z3.simplify(bv(x, u[2] * 8) == bv(y, u[2] * 8))
        return True if z3.is_true(c) else False if z3.is_false(c) else c

    @staticmethod
    def amo(s, bs):
        if len(bs) < 2:
            return
        if len(bs) <= 6:
            for i, a in enumerate(bs):
                for b in bs[i + 1:]:
                    s.add(z3.Or(z3.Not(a), z3.Not(b)))
        else:
            s.add(z3.AtMost(*bs, 1))
