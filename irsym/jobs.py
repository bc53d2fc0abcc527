"""Which harness instances decide which property."""
from .pool import Job
from . import build, texts, traits


def runner(job):
    from check import run_symbolic
    return run_symbolic


def replayer(job):
    return build.replay


def flavours(job, r):
    if r['kind'] == 'hang':
        return ['dev']
    if job.h in THREADS:
        return ['threads', 'threads-more', 'dev']
    if r['kind'] == 'memory':
        return ['asan', 'dev', 'miri']
    return ['dev', 'release', 'asan', 'miri']


THREADS = ('cc_n', 'cc_w', 'cs_n', 'cs_w', 'cd_n', 'cd_w')
P, W, C = 0, 1, 2
NP, NW, NC = 16, 7, 17
ANY = {(P, 15), (C, 16)}        # slices of symbolic length; optional


def ops(w=True):
    out = [(P, s) for s in range(NP)]
    if w:
        out += [(W, s) for s in range(NW)]
    return out + [(C, s) for s in range(NC)]


def seq(h, flt=lambda who, sel: True, rest=(), anyk=True, rounds=0):
    """one operation from an arbitrary state, every operation"""
    js = []
    w = h[3] == 'w'
    for who, sel in ops(w):
        a = (who, sel) in ANY
        if flt(who, sel) and (anyk or not a):
            js.append(Job(h, who, sel, rounds, *rest, cost=30 if a else 10, optional=True) if a else
                      Job(h, who, sel, rounds, *rest, cost=10))
    return js


def det(h, whos, rest=()):
    js = []
    for who in whos:
        for s1 in range(8):
            for s2 in range(8):
                if who == P and 3 in (s1, s2):
                    continue
                js.append(Job(h, who, s1, s2, *rest, cost=10))
    return js


COMMON = ['rustc lowers MIR to LLVM IR correctly (the encoding starts from the IR of the unoptimised build)',
          'sequential harnesses: one thread', 'allocation never fails']
PROPS = {}


def prop(id, jobs, what, bounds, level='model_checking', assumes=(), **kw):
    PROPS[id] = dict(jobs=jobs, what=what, bounds=bounds, level=level, assumes=list(assumes) + COMMON, **kw)



SLICE = {(P, 2), (P, 3), (P, 4), (P, 5), (P, 9), (P, 10), (P, 11), (P, 12), (P, 15), (W, 1), (W, 2), (W, 3),
         (C, 5), (C, 6), (C, 7), (C, 8), (C, 10), (C, 11), (C, 12), (C, 16)}


def four(flt=lambda who, sel: True, anyk=('sq_cw',)):
    js = []
    for h in ('sq_cw', 'sq_cn', 'sq_lw', 'sq_ln'):
        js += seq(h, flt, anyk=h in anyk)
    return js


def hist(tier):
    js = [Job('hi_cw', n, 2, cost=15) for n in (1, 2, 3)] + [Job('hi_lw', n, 2, cost=15) for n in (2, 4)]
    js += [Job('hi_cn', n, 2, cost=15) for n in (2, 3)] + [Job('hi_ln', n, 2, cost=15) for n in (1, 3)]
    if tier == 'thorough':
        js += [Job('hi_cw', n, 3, cost=200) for n in (2, 3, 4)] + [Job('hi_cn', n, 3, cost=200) for n in (2, 3)]
        js += [Job('hi_lw', n, 3, cost=200) for n in (2, 3)] + [Job('hi_ln', n, 4, cost=800) for n in (2, 3)]
    else:
        js += [Job('hi_cn', 3, 3, cost=80)]
    return js


def sizes(tier, flt=lambda who, sel: True):
    """other item sizes and stack storage, small fixed lengths; zero-sized items of any number"""
    js = []
    ns = (1, 2, 3, 5) if tier == 'thorough' else (3,)
    for h in ('sh_cw', 'sh_ln', 'st_cw', 'st_cn', 'st_lw', 'st_ln'):
        for n in ns:
            js += seq(h, flt, (n,), anyk=False, rounds=9)
    for h in ('sz_cw', 'sz_ln'):
        js += seq(h, flt, anyk=False)
    return js


def c01(tier):
    return four() + hist(tier) + (sizes(tier) if tier == 'thorough' else [])


def c06(tier):
    sl = lambda who, sel: (who, sel) in SLICE   # noqa: E731
    if tier == 'thorough':
        return four(sl, anyk=('sq_cw', 'sq_ln')) + sizes(tier, sl) + seq('st_cn', sl, (2,), anyk=False, rounds=9)
    js = [j for h in ('sq_cw', 'sq_ln') for j in seq(h, sl)]
    for h in ('sh_cw', 'st_cn', 'st_lw'):
        js += seq(h, lambda who, sel: sl(who, sel) and (who == W or (who == P) == (h != 'st_lw') or sel in (5, 9)), (3,), anyk=False, rounds=9)
    return js + seq('sz_cw', lambda who, sel: (who, sel) in ((P, 2), (P, 5), (P, 10), (W, 1), (C, 5), (C, 10)), anyk=False) + \
        seq('st_cn', sl, (2,), anyk=False, rounds=9)


def c07(tier):
    js = []
    for h in ('lf_c', 'lf_l'):
        for w in (0, 1):
            for order in range(6):
                js += [Job(h, w, order, f) for f in (0, 321, 654, 136, 215, 412, 563)]
    js += [Job('lf_fut', 0)] + [Job('sp_own', f, w, cost=5) for f in (0, 1) for w in (0, 1)]
    # threads: drops race, in every guise; survivors; observers that drop later
    J = lambda h, a, b, c, d, k=5: js.append(Job(h, a, b, c, d, cost=k))   # noqa: E731
    for g in range(7):
        J('cd_n', 100 * g + (g + 2) % 7, 2, 0, 2)
        J('cd_w', 100 * g + 10 * ((g + 3) % 7) + (g + 5) % 7, 2, 2, 2)
    for b, d in ((21, 21), (2111, 21), (21, 0), (0, 21), (21, 231), (231, 21), (213, 213), (3, 21), (21, 3), (23, 23), (2133, 21)):
        J('cd_n', 1000, b, 0, d)
        J('cd_n', 2563, b, 0, d)
    for b, c, d in ((2, 2, 0), (2, 0, 2), (0, 2, 2), (21, 21, 3), (21, 3, 21), (3, 21, 21), (21, 21, 21), (21, 23, 2), (2, 21, 23), (23, 2, 21),
                    (21, 23, 0), (0, 21, 23), (23, 0, 21)):
        J('cd_w', 1000, b, c, d, 20)
        J('cd_w', 2361, b, c, d, 20)
    if tier == 'thorough':
        for b, c, d in ((23, 23, 2), (2, 23, 23), (23, 2, 23), (21, 23, 23), (23, 21, 23), (23, 23, 21)):
            J('cd_w', 1000, b, c, d, 200)
            J('cd_w', 2145, b, c, d, 200)
    return js


def c11(tier):
    js = [Job(h, who + 10 * f, 9, 0, cost=15) for h in ('rs_cw', 'rs_lw') for who in (W, C) for f in range(3)]
    js += [Job(h, C + 10 * f, 9, 0, *r, cost=8) for h, r in (('rs_cn', ()), ('rs_ls', (3,)), ('rs_ls', (2,))) for f in range(3)]
    for h in ('rs_cn', 'rs_ls') if tier == 'quick' else ('rs_cw', 'rs_cn', 'rs_lw', 'rs_ls'):
        for who, sel in ((P, 0), (P, 9), (P, 13), (W, 0), (W, 1), (W, 5), (C, 0), (C, 5), (C, 10), (C, 14)):
            w = h[3] == 'w'
            if who == W and not w:
                continue
            for wf in ([C] if not w else [W, C]):
                js.append(Job(h, wf, who, sel, *((4,) if h == 'rs_ls' else ()), cost=60))
    return js + [j for h in ('sq_cw', 'sq_cn', 'sq_lw', 'sq_ln') for j in seq(h, lambda who, sel: (who, sel) in ((W, 4), (C, 13)))]


def c12(tier):
    js = []
    for h, whos in (('dt_cw', (P, W, C)), ('dt_ln', (C,))):
        for who in whos:
            for s1 in range(5):
                for s2 in range(6):
                    if who == P and 3 in (s1, s2):
                        continue        # the producer's reset_index needs an empty buffer
                    if tier == 'quick' and (s2 == 5 and s1 not in (1, 2) or s1 == s2 and s1 > 2):
                        continue
                    if tier == 'quick' and h == 'dt_ln' and s2 > 3:
                        continue
                    js.append(Job(h, who, s1, s2, 0, cost=10))
                    if tier == 'thorough':
                        js.append(Job(h, who, s1, s2, 1, cost=40))
    js += [Job('dt_st', who, s1, 1, 3, cost=30) for who in (P, W, C) for s1 in (0, 1, 2, 4)]
    js += [Job('da_cw', i, f, cost=90) for i in (P, W, C) for f in (0, 1)] + [Job('da_ln', i, f, cost=30) for i in (P, C) for f in (0, 1)]
    return js


def c13(tier):
    """without a worker: every operation; with one: those of worker and consumer, and a few of the producer"""
    js = []
    nops = {P: 15, W: 7, C: 16}
    th = tier == 'thorough'
    for who in (P, W, C):
        for sel in range(nops[who]):
            ww = th or who != P or sel in (0, 1, 9)
            if ww and (th or who != C or sel in (0, 1, 3, 5, 7, 9, 13, 15)):
                js.append(Job('va_w', who, sel, 1, cost=5))
            if who != W:
                js.append(Job('va_n', who, sel, 0, cost=3))
            if sel < 6:
                if ww:
                    js.append(Job('vf_w', who, sel, 1, 1, cost=5))
                if who != W:
                    js.append(Job('vf_n', who, sel, 1, 0, cost=5))
            if not (who == P and sel in (7, 9, 11)):
                if th or who == W or ww and sel in (0, 1, 5, 10):
                    js.append(Job('vf_w', who, sel, 2, 1, cost=5))
                if who != W:
                    js.append(Job('vf_n', who, sel, 2, 0, cost=5))
            for n in (1, 2, 3, 4) if th else (3,):
                if ww and (th or who == W or sel in (0, 1, 5, 9, 10)):
                    js.append(Job('vs_w', who, sel, n, 1, cost=5))
                if who != W:
                    js.append(Job('vs_n', who, sel, n, 0, cost=5))
    # liveness flags after drops in any order, on both variants
    js += [Job(h, w, o, f) for h in ('lf_c', 'lf_l') for w in (0, 1) for o in range(6) for f in (0, 321)]
    return js


NA = {P: 10, W: 5, C: 14}


def c14(tier):
    js = []
    for who in (P, W, C):
        for sel in range(NA[who]):
            js.append(Job('as_cw', who, sel, cost=12))
            if who != W:
                js.append(Job('as_cn', who, sel, cost=8))
                if tier == 'thorough':
                    js.append(Job('as_ln', who, sel, cost=8))
    return js + [Job('ap_push', f) for f in (0, 1)] + [Job('ap_pop', 0)]


def c15(tier):
    js = []
    for who in (P, W, C):
        for sel in range(NA[who]):
            if (who, sel) in ((W, 4), (C, 13), (C, 4)):
                continue
            js.append(Job('aw_cw' if who == W else 'aw_cn', who, sel, 2, cost=12))
            if tier == 'thorough':
                js.append(Job('aw_cw', who, sel, 3, cost=100))
    return js


def c18(tier):
    js = []
    for kind in range(17):
        for n in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4):
            for w in (0, 1):
                js.append(Job('sp_new', kind, n, w))
    js += [Job(h, w) for h in ('sp_any', 'sp_anyl') for w in (0, 1)]
    for h in ('sp_ac', 'sp_al'):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
            for w in range(4):
                for how in range(4):
                    for sel in (1, 3) if tier == 'quick' else range(4):
                        js.append(Job(h, n, w, how, sel))
    return js + [Job('sp_own', f, w, cost=5) for f in (0, 1) for w in (0, 1)]


def own(tier):
    js = []
    for sel in range(13):
        w = sel in (5, 6)
        for full in (0, 1):
            if not w:
                js += [Job('ow_ch', 3, full, 2, sel, cost=30), Job('ow_cs', 3, full, 1, sel, cost=8)]
            js += [Job('ow_lw', 3, full, 1, sel, cost=8), Job('ow_ls', 2, full, 2, sel, cost=20)]
    js += [Job('ow_ch', 1, f, 0, 1) for f in (0, 1)] + [Job('ow_ls', 1, f, 0, 1) for f in (0, 1)]
    js += [Job('ap_push', f) for f in (0, 1)] + [Job('ap_pop', 0)] + [Job('sp_own', f, w, cost=5) for f in (0, 1) for w in (0, 1)]
    js += [Job('ow_big', k, cost=5) for k in (1, 2, 3, 9, 16, 24)]
    if tier == 'thorough':
        js += [Job('ow_ch', 4, f, 1, sel, cost=100) for f in (0, 1) for sel in range(13) if sel not in (5, 6)]
        js += [Job('ow_lw', 3, f, 2, sel, cost=300) for f in (0, 1) for sel in range(13)]
    return js


def tops(*l):
    """operations of a thread (see h/src/conc.rs)"""
    return sum(o << 5 * i for i, o in enumerate(l))


def n2(a, p, c, h='cc_n', **kw):
    return Job(h, a, tops(*p), 0, tops(*c), cost=5, **kw)


def n3(a, p, w, c, h='cc_w', **kw):
    return Job(h, a, tops(*p), tops(*w), tops(*c), cost=9, **kw)


OPS_P, OPS_W, OPS_C = range(1, 20), range(1, 11), range(1, 21)


def c02(tier):
    """every operation twice in a row against two operations of the others; wrap-around starts"""
    js = []
    for p in OPS_P:
        js += [n2(3010, (p, p), (1, 4)), n2(3220, (p, 1), (1, 1))]
    for c in OPS_C:
        js += [n2(3010, (1, 3), (c, c)), n2(3220, (1, 1), (c, c))]
    for w in OPS_W:
        js += [n3(3010, (1, 1), (w, w), (1, 1)), n3(3221, (1, 1), (w, 1), (1, 4))]
    js += [n2(2000, (1, 1, 1), (1, 1, 1)), n2(2110, (1, 9), (1, 5)), n2(4310, (3, 3), (8, 8)), n2(4200, (9, 1), (5, 1)),
           n3(2000, (1, 1), (1, 1), (1, 1)), n3(2110, (1, 1), (3, 1), (5, 1)), n3(4321, (3, 1), (2, 1), (4, 1)),
           n3(3000, (14, 1), (6, 1), (15, 1)), n3(4000, (14,), (6,), (15, 1)), n3(4321, (1, 14), (6,), (19,)),
           n2(3210, (1, 1, 1), (1, 1, 1)), n3(3210, (1, 1, 1), (1, 1, 1), (1, 1))]
    js += [n2(3010, (1, 3), (1, 4), 'cs_n'), n2(2000, (1, 1), (1, 1), 'cs_n'), n3(3010, (1, 1), (2, 1), (1, 1), 'cs_w')]
    if tier == 'thorough':
        for p in OPS_P:
            for c in OPS_C:
                js += [n2(3110, (p, 1), (c, 1)), n2(4320, (1, p), (1, c))]
        for w in OPS_W:
            js += [n3(3110, (p, 1), (w, 1), (1, 1)) for p in (3, 9, 14, 18)]
            js += [n3(4321, (1, 1), (w, 1), (c, 1)) for c in (3, 5, 11, 14, 15, 18, 19)]
            js += [n3(3000, (1, 1, 1), (w, w), (1, 1)), n3(3220, (1, 1), (w, w), (1, 1), 'cs_w')]
    return js


def c03(tier):
    """grants taken from remembered availability, grants used in two steps, windows across the end"""
    js = []
    for p in OPS_P:
        js += [n2(3120, (1, p), (18, 1)), n2(4300, (18, p), (1, 5))]
    for c in OPS_C:
        js += [n2(3020, (18, 1), (1, c)), n2(4310, (9, 1), (18, c))]
    for w in OPS_W:
        js += [n3(3020, (1,), (w, 1), (18,)), n3(4320, (18,), (8, w), (1, 1))]
    js += [n2(2100, (12, 1), (10, 10)), n2(3010, (16, 1), (19, 1)), n3(3121, (16,), (9, 1), (19, 1)), n3(2110, (1,), (8, 1), (18, 1)),
           n2(3120, (1, 1), (18, 1), 'cs_n'), n3(3121, (1, 1), (8, 1), (18, 1), 'cs_w')]
    if tier == 'thorough':
        js += c02('thorough')
    return js


def c04t(tier):
    """threads"""
    js = [n2(3020, (p, 1), (c, 1)) for p, c in ((1, 1), (2, 5), (5, 14), (9, 18), (14, 15), (15, 16), (18, 19))]
    return js + [n3(3121, (15,), (w, 1), (c, 1)) for w, c in ((1, 1), (3, 14), (5, 16), (6, 15), (7, 18))]


def c05t(tier):
    """threads"""
    js = [n2(3120, (15, p), (c, 1)) for p, c in ((1, 1), (3, 8), (5, 9), (6, 16), (4, 7), (19, 20), (10, 12), (13, 11))]
    js += [n2(3110, (p, 1), (16, c)) for p, c in ((1, 16), (3, 8), (14, 9), (17, 6), (9, 20))]
    return js + [n3(3120, (15,), (7, w), (16,)) for w in (1, 2, 3, 5, 6)]


def c10(tier):
    js = []
    for h, n in (('sh_cw', 3), ('st_cn', 2), ('st_ln', 2)) + ((('st_cn', 3), ('st_ln', 3), ('st_lw', 3)) if tier == 'thorough' else ()):
        js += seq(h, rest=(n,), anyk=False, rounds=9)
    if tier == 'thorough':
        js += [Job('dt_st', who, s1, s2, n, cost=10) for who in (P, W, C) for s1 in (0, 1, 2, 4) for s2 in (1, 5) for n in (2, 3)]
    js += [Job('lf_c', w, o, f) for w in (0, 1) for o in range(6) for f in (0, 321, 654)]
    for p in OPS_P:
        js += [n2(3020, (p, p), ()), n2(3110, (1, p), (1, 1))]
    for c in OPS_C:
        js += [n2(3010, (), (c, c)), n2(3220, (1, 1), (1, c))]
    for w in OPS_W:
        js += [n3(3120, (), (w, w), ()), n3(3020, (1,), (w, 1), (1,))]
    if tier == 'thorough':
        js += c02(tier)
    for j in js:
        j.opt.update(hang=1, max_steps=4000)
    return js


def c17(tier):
    V = lambda h, *a, cost=5, **kw: Job(h, *a, cost=cost, cfg='vmem', **kw)   # noqa: E731
    th = tier == 'thorough'
    small = dict(page=4, max_steps=2000000)
    js = [V('vm_page')] + [V('vm_from', sz, w) for sz in range(5) for w in (0, 1)]
    js += [V('vm_min', kind, m, w, **small) for kind in range(5) for m in range(5) for w in (0, 1)]
    js += [V('vm_min', kind, 1 + 2 * (kind & 1), kind & 1, cost=20, max_steps=2000000) for kind in (range(5) if th else (0, 3))]
    js += [V('vm_odd', k, **small) for k in (0, 1)]
    for kind in range(3):
        for w in (0, 1):
            for p in range(6):
                for c in range(4):
                    for x in (0, 100) if w else (0,):
                        for at in (0, 1, 2) if th or p in (0, 2, 4) else (0,):
                            js.append(V('vm_own', kind, w, x + 10 * c + p, at + 10 * ((p + c) % 3), cost=1, **small))
    # the single-operation checks of the other properties
    for h in ('sq_cw', 'sq_ln') if th else ('sq_cw',):
        js += [V(h, who, sel, 0, cost=60 if (who, sel) == (W, 3) else 10) for who, sel in ops() if h != 'sq_ln' or who != W]
    if th:
        js += [V(h, who, sel, 0, cost=60) for h in ('vm_cw', 'vm_ln') for who, sel in sorted(SLICE) if h != 'vm_ln' or who != W]
    else:
        js += [V('vm_ln', who, sel, 0, cost=15) for who, sel in ((P, 2), (P, 4), (P, 3), (P, 5), (C, 5), (C, 7), (C, 8))]
        js += [V('vm_cw', who, sel, 0, cost=15) for who, sel in ((C, 5), (C, 7), (C, 8))]
    js += [V('vm_hist', 3 if th else 2, cost=15)]
    js += [V('dt_cw', who, s1, s2, cost=10) for who in (P, W, C) for s1, s2 in ((0, 1), (1, 1), (2, 1), (1, 4)) if not (who == P and 3 in (s1, s2))]
    js += [V('da_ln', i, 0, cost=30) for i in (P, C)]
    js += [V('rs_cw', who, 9, 0, cost=15) for who in (W, C)]
    js += [V('as_cn', who, sel, cost=10) for who, sel in ((P, 0), (P, 1), (P, 2), (P, 4), (C, 0), (C, 1), (C, 5), (C, 7), (C, 9))]
    js += [V('va_n', who, sel, 0, cost=5) for who, sel in ((P, 0), (P, 2), (P, 9), (C, 0), (C, 5), (C, 10), (C, 15))]
    js += [V(h, w) for h in ('sp_any', 'sp_anyl') for w in (0, 1)]
    return js


for _p, _j in (('C01', c01), ('C02', c02), ('C03', c03), ('C04', lambda t: c01(t) + c04t(t)), ('C05', lambda t: c01(t) + c05t(t)), ('C06', c06), ('C07', c07), ('C08', own), ('C09', own), ('C10', c10), ('C11', c11),
               ('C12', c12), ('C13', c13), ('C14', c14), ('C15', c15), ('C17', c17), ('C18', c18)):
    prop(_p, _j, texts.ST + texts.T[_p][0], texts.T[_p][1], **({'all_tags': True} if _p == 'C17' else {}))


prop('C16', None, texts.T['C16'][0], texts.T['C16'][1], run=traits.run)
