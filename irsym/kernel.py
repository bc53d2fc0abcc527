"""Virtual memory: files and mappings as the kernel keeps them, for the vmem configuration.

A mapping is an object of kind 'map' whose `extra` is a tuple of segments (start, end, object mapped, offset in it, prot),
in address order; every access is translated to an access of what is mapped there.
"""
import z3
from .smt import b_not, lin, M64

BVR = z3.BitVecRef


def bv(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def unlin(d):
    r = None
    pos, neg = [], []
    for i, t in d.items():
        if i is None or t[1] == 0:
            continue
        e, k = t
        if k > M64 // 2:
            neg.append(e if k == M64 else e * z3.BitVecVal(M64 + 1 - k, 64))
        else:
            pos.append(e if k == 1 else e * z3.BitVecVal(k, 64))
    for e in pos:
        r = e if r is None else r + e
    c = d.get(None, 0)
    if r is None:
        if not neg:
            return c
        r = z3.BitVecVal(c, 64)
        c = 0
    for e in neg:
        r = r - e
    return r if c == 0 else r + z3.BitVecVal(c, 64)


def norm(e):
    if isinstance(e, int):
        return e
    d = {}
    lin(e, 1, d)
    return unlin(d)


def add(a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        d = {}
        lin(a, 1, d)
        lin(b, 1, d)
        return unlin(d)
    return (a + b) & M64


def sub(a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        d = {}
        lin(a, 1, d)
        lin(b, -1, d)
        return unlin(d)
    return (a - b) & M64


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if isinstance(a, int) and a == 0:
        return True
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return z3.ULE(bv(a), bv(b))


def conj(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


class Kernel:
    """mixin of sym.Engine"""
    maps = False
    page = 4096

    # ---------------------------------------------------------------- translation
    def decide(self, st, c):
        """True / False / None (both possible)"""
        if isinstance(c, (bool, int)):
            return bool(c)
        t, mt, f, mf = self.both(st, c)
        return None if t and f else t

    def branch(self, st, c):
        """[(state, truth)]"""
        if isinstance(c, (bool, int)):
            return [(st, bool(c))]
        t, mt, f, mf = self.both(st, c)
        if not (t and f):
            return [(st, t)]
        return [(s, k == 0) for k, s in enumerate(self.ways(st, [(c, mt), (b_not(c), mf)]))]

    def ways(self, st, cs):
        """one state per (condition, model); the conditions are exhaustive and exclude each other"""
        from .sym import Lit
        if len(cs) == 1:
            return [st]
        self.fid += 1
        fid, n = self.fid, len(cs)
        self.stats['forks'] += n - 1
        ss = [st.fork() if k < n - 1 else st for k in range(n)]
        for s, (c, m) in zip(ss, cs):
            s.pc = s.pc + [Lit(c, fid, 1, n)]
            s.model = m
        return ss

    def is_map(self, st, p):
        from .sym import Ptr
        if self.maps and type(p) is Ptr:
            o = self.obj(st, p.obj)
            return o is not None and o.kind == 'map'
        return False

    def placings(self, st, p, size, what):
        """[(condition, model, pieces)]; a piece is (pointer into what is mapped, length)"""
        from .sym import Ptr, Dead
        o = self.obj(st, p.obj)
        off, segs = norm(p.off), o.extra
        end = add(off, size)
        cases = []
        for a, b, w, fo, prot in segs:
            c = conj(le(a, off), le(off, b), le(size, sub(b, off)))
            if c is not False:
                cases.append((c, [(Ptr(w, add(fo, sub(off, a))), size, prot)]))
        for (a, b, w, fo, prot), (a2, b2, w2, fo2, prot2) in zip(segs, segs[1:]):
            if sub(b, a2) != 0 if isinstance(sub(b, a2), int) else self.decide(st, sub(b, a2) == 0) is not True:
                continue
            base = conj(le(a, off), le(off, b), b_not(le(size, sub(b, off))) if not isinstance(le(size, sub(b, off)), bool) else not le(size, sub(b, off)),
                        le(sub(size, sub(b, off)), sub(b2, a2)))
            # the second piece starts at the border; nothing of the first one may be empty
            base = conj(base, b_not(le(b, off)) if not isinstance(le(b, off), bool) else not le(b, off))
            if base is False:
                continue
            k = sub(b, off)
            if isinstance(size, int) and not isinstance(k, int):
                if size > 64:
                    from .sym import Stop
                    raise Stop('access of %d bytes across the border of two mappings' % size)
                for j in range(1, size):
                    cases.append((conj(base, bv(k) == j),
                                  [(Ptr(w, add(fo, sub(off, a))), j, prot), (Ptr(w2, fo2), size - j, prot2)]))
            else:
                cases.append((base, [(Ptr(w, add(fo, sub(off, a))), k, prot), (Ptr(w2, fo2), sub(size, k), prot2)]))
        sat = []
        rest = []
        left = True
        # the case the current model is in comes first: usually it is the only one
        m = self.get_model(st)

        def first(c):
            return 0 if c[0] is True or (c[0] is not True and m.holds(c[0])) else 1
        for c, pieces in sorted(cases, key=first):
            if c is True:
                sat.append((c, m, pieces))
                left = False
                break
            ok, mm = (True, m) if not sat and m.holds(c) else self.check(st.pc, *rest, c)
            if ok:
                sat.append((conj(*rest, c), mm, pieces))
                rest.append(b_not(c))
                left, mm = self.check(st.pc, *rest)
                if not left:
                    break
        if left:
            if not sat or self.check(st.pc, *rest)[0]:
                self.report(st, z3.And(*rest) if len(rest) > 1 else rest[0] if rest else None, 'memory',
                            '%s of memory that is not mapped' % what)
                if not sat:
                    raise Dead()
        for c, mm, pieces in sat:
            for q, ln, prot in pieces:
                if not prot & (1 if what == 'read' else 2):
                    self.report(st, c if not isinstance(c, bool) else None, 'memory', '%s of memory mapped without permission' % what)
                    raise Dead()
        return [(c, mm, [(q, ln) for q, ln, _ in pieces]) for c, mm, pieces in sat]

    def map_fork(self, st, p, size, what, regs, blk, ip, prev, allocas, work):
        """True when the state was split because the place accessed is not decided"""
        if size == 0:
            return False
        cs = self.placings(st, p, size, what)
        if len(cs) == 1:
            return False
        for s in self.ways(st, [(c, m) for c, m, _ in cs]):
            work.append((s, dict(regs), blk, ip, prev, list(allocas)))
        return True

    def map_one(self, st, p, size, what):
        """pieces of a decided access"""
        from .sym import Stop
        cs = self.placings(st, p, size, what)
        if len(cs) != 1:
            raise Stop('access to an undecided place of a mapping')
        return cs[0][2]

    def map_copy(self, st, kind, d, s, n):
        """memcpy/memmove with mappings; [(state, None)] or None (fork on the arguments)"""
        if isinstance(n, BVR):
            out = []
            for s2, z in self.branch(st, n == 0):
                out += [(s2, None)] if z else self.map_copy2(s2, kind, d, s, n)
            return out
        return [(st, None)] if n == 0 else self.map_copy2(st, kind, d, s, n)

    def map_copy2(self, st, kind, d, s, n):
        out = []
        for what, p in (('read', s), ('write', d)):
            if self.is_map(st, p):
                cs = self.placings(st, p, n, what)
                if len(cs) > 1:
                    for s2 in self.ways(st, [(c, m) for c, m, _ in cs]):
                        out += self.map_copy2(s2, kind, d, s, n)
                    return out
        sp = self.map_one(st, s, n, 'read') if self.is_map(st, s) else [(s, n)]
        dp = self.map_one(st, d, n, 'write') if self.is_map(st, d) else [(d, n)]
        if len(sp) > 1 and len(dp) > 1:
            from .sym import Stop
            raise Stop('copy between two straddling windows')
        at = 0
        for q, ln in (dp if len(sp) == 1 else sp):
            a, b = (q, self.padd(sp[0][0], at)) if len(sp) == 1 else (self.padd(dp[0][0], at), q)
            if isinstance(ln, int):
                self.copy_mem(st, a, b, ln)
            elif self.copy_any(st, 'memmove', a, b, ln) is None:
                from .sym import Stop
                raise Stop('copy of a symbolic number of bytes between a mapping and small memory')
            at = add(at, ln)
        return [(st, None)]

    def map_fill(self, st, d, v, n, i):
        out = []
        cs = self.placings(st, d, n, 'write')
        for (c, m, pieces), s2 in zip(cs, self.ways(st, [(c, m) for c, m, _ in cs])):
            for q, ln in pieces:
                self.intrinsic(s2, 'llvm.memset', [q, v, ln, 0], i)
            out.append((s2, None))
        return out

    # ---------------------------------------------------------------- system calls
    def kcall(self, st, name, av, i):
        f = getattr(self, 'k_' + name, None)
        return NotImplemented if f is None else f(st, av, i)

    def k_sysconf(self, st, av, i):
        if av[0] == 30:
            return [(st, self.page)]
        from .sym import Stop
        raise Stop('sysconf(%s)' % av[0])

    def k_getpagesize(self, st, av, i):
        return [(st, self.page)]

    def k_getpid(self, st, av, i):
        return [(st, 4242)]

    def newfile(self, st, name):
        o = self.alloc(st, 0, 'file', name)
        o.zero = True
        return o

    def newfd(self, st, oid):
        fds = st.flags.get('fds', ())
        n = 3
        while any(f == n for f, _ in fds):
            n += 1
        st.flags['fds'] = fds + ((n, oid),)
        return n

    def file(self, st, fd):
        if not isinstance(fd, int):
            from .sym import Stop
            raise Stop('symbolic file descriptor')
        for f, o in st.flags.get('fds', ()):
            if f == fd:
                return o
        return None

    def k_memfd_create(self, st, av, i):
        return [(st, self.newfd(st, self.newfile(st, 'memory file').id))]

    def cstr(self, st, p):
        out = b''
        while True:
            b = self.rd(st, self.obj(st, p.obj), p.off + len(out), 1)
            if not isinstance(b, int):
                from .sym import Stop
                raise Stop('symbolic name')
            if b == 0:
                return out
            out += bytes([b])

    def k_shm_open(self, st, av, i):
        name, fl = self.cstr(st, av[0]), av[1]
        names = st.flags.get('shm', ())
        hit = [o for n, o in names if n == name]
        if hit and fl & 0o200:
            return [(st, 0xffffffff)]
        if not hit:
            if not fl & 0o100:
                return [(st, 0xffffffff)]
            hit = [self.newfile(st, 'memory file').id]
            st.flags['shm'] = names + ((name, hit[0]),)
        return [(st, self.newfd(st, hit[0]))]

    def k_shm_unlink(self, st, av, i):
        name = self.cstr(st, av[0])
        names = st.flags.get('shm', ())
        st.flags['shm'] = tuple(x for x in names if x[0] != name)
        return [(st, 0 if len(st.flags['shm']) < len(names) else 0xffffffff)]

    def k_close(self, st, av, i):
        if self.file(st, av[0]) is None:
            return [(st, 0xffffffff)]
        st.flags['fds'] = tuple(x for x in st.flags['fds'] if x[0] != av[0])
        return [(st, 0)]

    def k_ftruncate(self, st, av, i):
        from .sym import SArr, Stop
        oid = self.file(st, av[0])
        if oid is None:
            return [(st, 0xffffffff)]
        w = st.w(oid)
        n = self.round_up(st, av[1])
        if not (isinstance(w.size, int) and w.size == 0):
            if isinstance(sub(w.size, n), int) and sub(w.size, n) == 0:
                return [(st, 0)]
            raise Stop('memory file resized twice')
        w.size = n
        if not isinstance(n, int) or n > 1 << 22:
            w.arr = SArr('zero', None)
        return [(st, 0)]

    def k_ftruncate64(self, st, av, i):
        return self.k_ftruncate(st, av, i)

    def round_up(self, st, n):
        n = norm(n)
        if isinstance(n, int):
            return (n + self.page - 1) // self.page * self.page
        if self.page & (self.page - 1) == 0 and self.decide(st, n & z3.BitVecVal(self.page - 1, 64) == 0):
            return n
        return (n + z3.BitVecVal(self.page - 1, 64)) & z3.BitVecVal((1 << 64) - self.page, 64)

    FAILED = (1 << 64) - 1

    def k_mmap(self, st, av, i):
        from .sym import Ptr, Stop, SArr
        addr, ln, prot, flags, fd, off = av
        out = []
        for s, z in self.branch(st, ln == 0):
            if z:
                out.append((s, self.FAILED))
                continue
            self.maps = True
            n = self.round_up(s, ln)
            if not isinstance(flags, int) or not isinstance(prot, int):
                raise Stop('symbolic flags of mmap')
            if not flags & 3:
                out.append((s, self.FAILED))
                continue
            if flags & 0x20:
                back = self.alloc(s, n, 'file', 'anonymous memory')
                back.zero = True
                if not isinstance(n, int) or n > 1 << 22:
                    back.arr = SArr('zero', None)
                oid, fo = back.id, 0
            else:
                oid = self.file(s, fd)
                if oid is None or not isinstance(off, int) or off % self.page:
                    out.append((s, self.FAILED))
                    continue
                fo = off
                if flags & 3 == 2:          # MAP_PRIVATE: a copy
                    src = self.obj(s, oid)
                    back = self.alloc(s, src.size, 'file', 'private copy of a memory file')
                    back.zero, back.cells, back.arr = src.zero, dict(src.cells), src.arr
                    oid = back.id
            if flags & 0x10:
                if isinstance(addr, int):
                    raise Stop('mmap at a fixed place')
                for s2, ok in self.branch(s, self.aligned(addr.off)):
                    if not ok:
                        out.append((s2, self.FAILED))
                        continue
                    o = self.own_range(s2, addr, n, 'mmap over')
                    w = s2.w(o.id)
                    x, y = norm(addr.off), add(addr.off, n)
                    w.extra = self.cut_segs(s2, w.extra, x, y, (x, y, oid, fo, prot))
                    out.append((s2, addr))
                continue
            o = self.alloc(s, n, 'map', 'mapping')
            if not isinstance(n, int) or n > 1 << 22:
                o.arr = SArr('map', None)
            o.extra = ((0, n, oid, fo, prot),)
            out.append((s, Ptr(o.id, 0)))
        return out

    def k_mmap64(self, st, av, i):
        return self.k_mmap(st, av, i)

    def aligned(self, off):
        if isinstance(off, int):
            return off % self.page == 0
        return off & z3.BitVecVal(self.page - 1, 64) == 0

    def own_range(self, st, p, n, what):
        """the range lies in a mapping of the program"""
        from .sym import Ptr
        o = self.obj(st, p.obj) if isinstance(p, Ptr) else None
        if o is None or o.kind != 'map':
            self.fail(st, 'memory', '%s memory that was not mapped' % what)
        c = conj(le(p.off, o.size), le(n, sub(o.size, p.off)))
        self.must_or_die(st, c if not isinstance(c, bool) else int(c), 'memory', '%s memory beyond the mapping' % what)
        return o

    def cut_segs(self, st, segs, x, y, new):
        """segments without [x, y), with `new` in its place"""
        from .sym import Stop

        def lt(a, b):
            c = le(b, a)
            r = self.decide(st, c if isinstance(c, bool) else c)
            if r is None:
                raise Stop('relation of two mappings not decided')
            return not r
        out = []
        done = new is None
        for a, b, o, fo, prot in segs:
            if not lt(x, b):          # b <= x
                out.append((a, b, o, fo, prot))
                continue
            if lt(a, x):
                out.append((a, x, o, fo, prot))
            if not done:
                out.append(new)
                done = True
            if lt(y, b):
                m = y if lt(a, y) else a
                out.append((m, b, o, add(fo, sub(m, a)), prot))
        if not done:
            out.append(new)
        return tuple(out)

    def k_munmap(self, st, av, i):
        p, ln = av
        out = []
        for s, z in self.branch(st, ln == 0):
            if z:
                out.append((s, 0xffffffff))
                continue
            from .sym import Ptr
            n = self.round_up(s, ln)
            if not isinstance(p, Ptr):
                self.fail(s, 'memory', 'munmap of memory that was not mapped')
            if not self.is_map(s, p):
                self.fail(s, 'memory', 'munmap of memory that was not mapped')
            for s2, ok in self.branch(s, self.aligned(p.off)):
                if not ok:
                    out.append((s2, 0xffffffff))
                    continue
                o = self.own_range(s2, p, n, 'munmap of')
                w = s2.w(o.id)
                w.extra = self.cut_segs(s2, w.extra, norm(p.off), add(p.off, n), None)
                if not w.extra:
                    w.live = False
                out.append((s2, 0))
        return out

    def k_mprotect(self, st, av, i):
        p, n, prot = av
        o = self.own_range(st, p, self.round_up(st, n), 'mprotect of')
        if not isinstance(prot, int) or not (len(o.extra) and p.off == 0):
            from .sym import Stop
            raise Stop('mprotect of a part')
        w = st.w(o.id)
        w.extra = tuple((a, b, q, fo, prot) for a, b, q, fo, _ in w.extra)
        return [(st, 0)]

    def k_madvise(self, st, av, i):
        return [(st, 0)]

    def vp_maps(self, st, av, i):
        """bytes mapped"""
        t = 0
        for o in st.mem.values():
            if o.kind == 'map':
                for a, b, *_ in o.extra:
                    t = add(t, sub(b, a))
        return [(st, t)]
