"""C16: which types may cross threads. The trait solver's problem as a SAT problem.

Input: rustdoc's JSON of /repo as compiled now (all impls, including the auto-trait impls rustc synthesised from the
private fields, with their where-clauses). Every iterator, and every type that methods of an iterator hand out with an
iterator inside (detached, async, futures), is instantiated for every kind of buffer and storage over an item type about
which nothing is known: its Send, Sync, ... are boolean variables. `X: Send` becomes the least fixpoint of the impls
(unfolded; the relation is acyclic), the solver decides whether some instance and some item type is sendable though the
buffer is local or the item is not. What rustdoc does not tell (foreign types not in the table) is left free; a model is
therefore compiled by rustc before it is reported, and refuted models are excluded and the query repeated.
"""
import json
import os
import re
import subprocess
import time

import z3

from . import build

AUTO = ('Send', 'Sync')


REPO = re.search(r'path = "(/[^"]*)", default', open(os.path.join(build.ROOT, 'h', 'Cargo.toml')).read()).group(1)


class Unknown(Exception):
    pass


# types: ('adt', id, name, args) ('prim', n) ('leaf', n) ('tup', ts) ('slice', t) ('array', t) ('ref', mut, t) ('ptr', mut, t)
#        ('fn',) ('const', v) ('dyn', s) ('opaque', s)
def show(t, path):
    k = t[0]
    if k == 'adt':
        a = [show(x, path) for x in t[3] if x[0] != 'lt']
        lt = ["'static" for x in t[3] if x[0] == 'lt']
        p = path(t[1], t[2])
        return p + ('<%s>' % ', '.join(lt + a) if lt or a else '')
    if k == 'prim':
        return t[1]
    if k == 'leaf':
        return t[1]
    if k == 'const':
        return t[1]
    if k == 'tup':
        return '(%s)' % ''.join(show(x, path) + ', ' for x in t[1])
    if k == 'slice':
        return '[%s]' % show(t[1], path)
    if k == 'array':
        return '[%s; 2]' % show(t[1], path)
    if k == 'ref':
        return "&'static %s%s" % ('mut ' if t[1] else '', show(t[2], path))
    if k == 'ptr':
        return '*%s %s' % ('mut' if t[1] else 'const', show(t[2], path))
    raise Unknown('type ' + str(t))


class Crate:
    def __init__(self, doc):
        self.ix = doc['index']
        self.paths = doc['paths']
        self.root = str(doc['root'])
        self.impls = {}
        for it in self.ix.values():
            im = it['inner'].get('impl') if isinstance(it['inner'], dict) else None
            if im and im['trait'] and im.get('blanket_impl') is None:
                self.impls.setdefault(im['trait']['path'].split('::')[-1], []).append(im)
        self.inherent = [it['inner']['impl'] for it in self.ix.values()
                         if 'impl' in it['inner'] and not it['inner']['impl']['trait']]
        self.pub = {}
        self._walk(self.root, '::mutringbuf', set())

    def forget(self, ids):
        for i in ids:
            c = self.pub.pop(i)
            for l in self.impls.values():
                l[:] = [im for im in l if str(im['for'].get('resolved_path', {}).get('id')) != i]

    def item(self, i):
        return self.ix.get(str(i))

    def _walk(self, mid, path, seen):
        m = self.item(mid)
        if not m or (mid, path) in seen:
            return
        seen.add((mid, path))
        for c in m['inner'].get('module', {}).get('items', ()):
            it = self.item(c)
            if not it or it['visibility'] != 'public':
                continue
            inn = it['inner']
            if 'module' in inn:
                self._walk(str(c), path + '::' + it['name'], seen)
            elif 'use' in inn:
                u = inn['use']
                t = self.item(u['id']) if u['id'] is not None else None
                if t is None:
                    continue
                if u['is_glob']:
                    self._walk(str(u['id']), path, seen)
                elif 'module' in t['inner']:
                    self._walk(str(u['id']), path + '::' + u['name'], seen)
                else:
                    self.pub.setdefault(str(u['id']), path + '::' + u['name'])
            elif it['name']:
                self.pub.setdefault(str(c), path + '::' + it['name'])

    # ---- conversion
    def ty(self, j, sub):
        """rustdoc type -> type, generics through sub"""
        if 'generic' in j:
            g = j['generic']
            if g in sub:
                return sub[g]
            raise Unknown('generic ' + g)
        if 'primitive' in j:
            return ('prim', j['primitive'])
        if 'resolved_path' in j:
            r = j['resolved_path']
            it = self.item(r['id'])
            if it and 'type_alias' in it['inner'] and it['crate_id'] == 0:
                al = it['inner']['type_alias']
                s2 = self.bind_params(al['generics'], self.args(r['args'], sub))
                return self.ty(al['type'], s2)
            return ('adt', str(r['id']), r['path'].split('::')[-1], self.args(r['args'], sub))
        if 'borrowed_ref' in j:
            b = j['borrowed_ref']
            return ('ref', b['is_mutable'], self.ty(b['type'], sub))
        if 'raw_pointer' in j:
            b = j['raw_pointer']
            return ('ptr', b['is_mutable'], self.ty(b['type'], sub))
        if 'tuple' in j:
            return ('tup', tuple(self.ty(x, sub) for x in j['tuple']))
        if 'slice' in j:
            return ('slice', self.ty(j['slice'], sub))
        if 'array' in j:
            return ('array', self.ty(j['array']['type'], sub))
        if 'function_pointer' in j:
            return ('fn',)
        if 'qualified_path' in j:
            q = j['qualified_path']
            st = self.ty(q['self_type'], sub)
            tr = q['trait']
            return self.assoc(st, self.trait_name(tr) if tr else None, q['name'])
        if 'impl_trait' in j or 'dyn_trait' in j:
            return ('opaque', json.dumps(j, sort_keys=True))
        raise Unknown('type ' + str(list(j)))

    def trait_name(self, tr):
        it = self.item(tr['id'])
        return it['name'] if it else (self.paths.get(str(tr['id'])) or {'path': [tr['path']]})['path'][-1]

    def args(self, a, sub):
        out = []
        for x in ((a or {}).get('angle_bracketed') or {}).get('args', ()):
            if 'lifetime' in x:
                out.append(('lt',))
            elif 'type' in x:
                out.append(self.ty(x['type'], sub))
            elif 'const' in x:
                e = x['const']['expr']
                out.append(sub.get(e) or ('const', e))
            else:
                raise Unknown('argument')
        return tuple(out)

    def bind_params(self, g, args):
        sub = {}
        ps = [p for p in g['params'] if 'lifetime' not in p['kind']]
        ar = [a for a in args if a[0] != 'lt']
        for p, a in zip(ps, ar):
            sub[p['name']] = a
        return sub

    def unify(self, j, t, sub):
        """does the pattern match t? extends sub"""
        if 'generic' in j:
            g = j['generic']
            if g in sub:
                return sub[g] == t
            sub[g] = t
            return True
        if 'primitive' in j:
            return t == ('prim', j['primitive'])
        if 'resolved_path' in j:
            r = j['resolved_path']
            it = self.item(r['id'])
            if it and 'type_alias' in it['inner'] and it['crate_id'] == 0:
                raise Unknown('alias in impl header')
            if t[0] != 'adt' or t[1] != str(r['id']):
                return False
            pa = [x for x in ((r['args'] or {}).get('angle_bracketed') or {}).get('args', ()) if 'lifetime' not in x]
            ta = [x for x in t[3] if x[0] != 'lt']
            if len(pa) != len(ta):
                return False
            for x, y in zip(pa, ta):
                if 'type' in x:
                    if not self.unify(x['type'], y, sub):
                        return False
                else:
                    e = x['const']['expr']
                    if y[0] != 'const':
                        return False
                    if not x['const'].get('is_literal') and not e.lstrip('-').isdigit() and e not in ('true', 'false'):
                        if sub.setdefault(e, y) != y:
                            return False
                    elif e != y[1]:
                        return False
            return True
        if 'borrowed_ref' in j:
            return t[0] == 'ref' and t[1] == j['borrowed_ref']['is_mutable'] and self.unify(j['borrowed_ref']['type'], t[2], sub)
        if 'tuple' in j:
            return t[0] == 'tup' and len(t[1]) == len(j['tuple']) and all(self.unify(a, b, sub) for a, b in zip(j['tuple'], t[1]))
        if 'slice' in j:
            return t[0] == 'slice' and self.unify(j['slice'], t[1], sub)
        if 'array' in j:
            return t[0] == 'array' and self.unify(j['array']['type'], t[1], sub)
        if 'raw_pointer' in j:
            return t[0] == 'ptr' and t[1] == j['raw_pointer']['is_mutable'] and self.unify(j['raw_pointer']['type'], t[2], sub)
        raise Unknown('impl for ' + str(list(j)))

    def supers(self, name):
        """bounds of a local trait, itself included"""
        out, todo = [], [name]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.append(n)
            for it in self.ix.values():
                if it['name'] == n and 'trait' in it['inner']:
                    for b in it['inner']['trait']['bounds']:
                        if 'trait_bound' in b:
                            todo.append(self.trait_name(b['trait_bound']['trait']))
        return out

    def bounds_of(self, g):
        """[(rustdoc type, bound)] of generics"""
        out = []
        for p in g['params']:
            for b in p['kind'].get('type', {}).get('bounds', ()):
                out.append(({'generic': p['name']}, b))
        for w in g['where_predicates']:
            if 'bound_predicate' in w:
                for b in w['bound_predicate']['bounds']:
                    out.append((w['bound_predicate']['type'], b))
            elif 'eq_predicate' in w:
                out.append((w, None))
        return out

    def complete(self, g, sub):
        """binds generics that only occur as `Trait<Assoc = T>`; false if an equality fails"""
        for _ in range(4):
            for t, b in self.bounds_of(g):
                if b is None or 'trait_bound' not in b:
                    continue
                tr = b['trait_bound']['trait']
                for c in ((tr['args'] or {}).get('angle_bracketed') or {}).get('constraints', ()):
                    eq = c['binding'].get('equality', {}).get('type')
                    if eq is None:
                        continue
                    try:
                        st = self.ty(t, sub)
                    except Unknown:
                        continue
                    v = self.assoc(st, self.trait_name(tr), c['name'])
                    if v is None or not self.unify(eq, v, sub):
                        return False
        return True

    def assoc(self, t, trait, name):
        cand = self.supers(trait) if trait else list(self.impls)
        for tr in cand:
            for im in self.impls.get(tr, ()):
                if im['is_negative']:
                    continue
                sub = {}
                try:
                    if not self.unify(im['for'], t, sub) or not self.complete(im['generics'], sub):
                        continue
                except Unknown:
                    continue
                for i in im['items']:
                    it = self.item(i)
                    if it and it['name'] == name and 'assoc_type' in it['inner'] and it['inner']['assoc_type']['type']:
                        sub['Self'] = t
                        return self.ty(it['inner']['assoc_type']['type'], sub)
        raise Unknown('%s of %s' % (name, t[:3]))


STRUCT = {'Option', 'Result', 'MaybeUninit', 'PhantomData', 'ManuallyDrop', 'Box', 'Vec', 'CachePadded', 'NonZeroUsize',
          'NonZero', 'Poll', 'Pin', 'Wrapping', 'Range', 'AssertUnwindSafe', 'VecDeque'}
BOTH = {'AtomicBool', 'AtomicUsize', 'AtomicU8', 'AtomicU32', 'AtomicU64', 'AtomicIsize', 'Waker', 'String', 'Layout', 'Duration',
        'Instant', 'PhantomPinned', 'Thread'}
NEITHER = {'NonNull', 'Rc', 'Weak', 'Context', 'RawWaker'}


class Enc:
    """formulas for `type: Trait`"""
    def __init__(self, crate):
        self.c = crate
        self.memo = {}
        self.free = {}
        self.busy = set()

    def var(self, t, tr):
        n = '%s: %s' % (t, tr)
        if n not in self.free:
            self.free[n] = (z3.Bool(n), t, tr)
        return self.free[n][0]

    def holds(self, t, tr):
        k = (t, tr)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return z3.BoolVal(tr in AUTO)      # auto traits are coinductive, the others inductive
        self.busy.add(k)
        try:
            try:
                r = self._holds(t, tr)
            except Unknown:
                r = self.var(t, tr)
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def _holds(self, t, tr):
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if tr in ('Sized', 'MetaSized', 'Unpin', 'UnwindSafe', 'RefUnwindSafe', 'Freeze'):
            return T
        k = t[0]
        alts = [self.by_impl(im, t) for im in self.c.impls.get(tr, ()) if not im['is_negative']]
        if k == 'leaf':
            return z3.Or(self.var(t, tr), *[a for a in alts if a is not None])
        if k == 'adt' and (self.c.item(t[1]) or {}).get('crate_id') == 0:
            return z3.Or(F, *[a for a in alts if a is not None])
        alts = [a for a in alts if a is not None]
        if tr not in AUTO:
            return z3.Or(self.var(t, tr), *alts) if k != 'adt' or True else F
        return z3.Or(self.foreign(t, tr), *alts)

    def foreign(self, t, tr):
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        k = t[0]
        if k in ('prim', 'fn', 'const', 'lt'):
            return T
        if k == 'ptr':
            return F
        if k == 'ref':
            return self.holds(t[2], tr if t[1] else 'Sync')
        if k == 'tup':
            return z3.And(T, *[self.holds(x, tr) for x in t[1]])
        if k in ('slice', 'array'):
            return self.holds(t[1], tr)
        if k == 'adt':
            n, a = t[2], [x for x in t[3] if x[0] not in ('lt', 'const')]
            if n in STRUCT:
                return z3.And(T, *[self.holds(x, tr) for x in a])
            if n in BOTH:
                return T
            if n in NEITHER:
                return F
            if n in ('UnsafeCell', 'Cell', 'RefCell', 'OnceCell', 'SyncUnsafeCell'):
                return self.holds(a[0], 'Send') if tr == 'Send' else (self.holds(a[0], 'Sync') if n == 'SyncUnsafeCell' else F)
            if n in ('Mutex',):
                return self.holds(a[0], 'Send')
            if n in ('Arc',):
                return z3.And(self.holds(a[0], 'Send'), self.holds(a[0], 'Sync'))
        raise Unknown(str(t))

    def by_impl(self, im, t):
        sub = {}
        try:
            if not self.c.unify(im['for'], t, sub):
                return None
        except Unknown:
            return z3.Bool('impl %d for %s' % (id(im), t))
        if not self.c.complete(im['generics'], sub):
            return None
        sub['Self'] = t
        cs = []
        for ty, b in self.c.bounds_of(im['generics']):
            if b is None:
                raise Unknown('equality')
            if 'trait_bound' not in b or b['trait_bound'].get('modifier') == 'maybe':
                continue
            cs.append(self.holds(self.c.ty(ty, sub), self.c.trait_name(b['trait_bound']['trait'])))
        return z3.And(z3.BoolVal(True), *cs)


LEAF = {(1, 1): 'L11', (1, 0): 'L10', (0, 1): 'L01', (0, 0): 'L00'}     # see PRE
T = ('leaf', 'T')


def insts(c, enc):
    """[(type, description, local?, expression)] reachable from safe code"""
    def implementors(tr, depth=0):
        out = []
        for im in c.impls.get(tr, ()):
            if im['is_negative']:
                continue
            if 'generic' in im['for']:
                raise Unknown('blanket impl of ' + tr)
            r = im['for'].get('resolved_path')
            if r is None:
                continue
            adt = c.item(r['id'])
            if not adt or adt['crate_id'] != 0:
                continue
            g = next(iter(adt['inner'].values()))['generics']
            for a in fill(g, 0, {}, depth + 1):
                t = ('adt', str(r['id']), adt['name'], a)
                if t not in out and c.unify(im['for'], t, {}):
                    out.append(t)
        return out

    def fill(g, k, sub, depth):
        if k == len(g['params']):
            yield ()
            return
        p = g['params'][k]
        if 'lifetime' in p['kind']:
            ch = [('lt',)]
        elif 'const' in p['kind']:
            ch = [('const', x) for x in (('false', 'true') if p['kind']['const']['type'] == {'primitive': 'bool'} else ('2',))]
        else:
            trs = [c.trait_name(b['trait_bound']['trait']) for b in p['kind']['type']['bounds'] if 'trait_bound' in b]
            trs += [c.trait_name(b['trait_bound']['trait']) for t, b in c.bounds_of(g) if b and t == {'generic': p['name']} and 'trait_bound' in b]
            trs = [x for x in trs if x in c.impls and any(it['name'] == x and 'trait' in it['inner'] for it in c.ix.values())]
            ch = implementors(trs[0], depth) if trs and depth < 5 else [T]
        for x in ch:
            for rest in fill(g, k + 1, sub, depth):
                yield (x,) + rest

    def bufs(t, out):
        if t[0] == 'adt':
            if t[2] in ('LocalMutRingBuf', 'ConcurrentMutRingBuf'):
                out.add(t[2])
            for x in t[3]:
                bufs(x, out)
        elif t[0] in ('ref', 'ptr'):
            bufs(t[2], out)
        elif t[0] in ('slice', 'array'):
            bufs(t[1], out)
        elif t[0] == 'tup':
            for x in t[1]:
                bufs(x, out)
        return out

    path = lambda i, n: c.pub.get(i) or FOREIGN.get(n) or unk(n)   # noqa: E731
    iters = {}
    for tr in ('MRBIterator', 'AsyncIterator'):
        for t in implementors(tr):
            try:
                iters[t] = '(|| -> %s { loop {} })' % show(t, path)
            except Unknown:
                pass
    carrying = {t[1] for t in iters}

    def carries(t):
        if t[0] == 'adt':
            return t[1] in carrying or any(carries(x) for x in t[3])
        return t[0] in ('ref', 'ptr') and carries(t[2]) or t[0] == 'tup' and any(carries(x) for x in t[1])

    out, todo = {}, list(iters.items())
    while todo:
        t, ex = todo.pop(0)
        if t in out or len(out) > 3000:
            continue
        out[t] = ex
        if t[0] != 'adt':
            continue
        fns = []
        for im in c.inherent:
            sub = {'Self': t}
            try:
                if c.unify(im['for'], t, sub) and c.complete(im['generics'], sub):
                    fns += [(i, sub, True) for i in im['items']]
            except Unknown:
                continue
        for tr, ims in c.impls.items():
            trit = next((it for it in c.ix.values() if it['name'] == tr and 'trait' in it['inner'] and it['crate_id'] == 0), None)
            if not trit or str(trit['id']) not in c.pub:
                continue
            for im in ims:
                sub = {'Self': t}
                try:
                    if c.unify(im['for'], t, sub) and c.complete(im['generics'], sub):
                        fns += [(i, sub, False) for i in trit['inner']['trait']['items']]
                except Unknown:
                    continue
        for i, sub, inh in fns:
            f = c.item(i)
            if not f or 'function' not in f['inner'] or inh and f['visibility'] != 'public':
                continue
            fn = f['inner']['function']
            sig = fn['sig']
            if not sig['inputs'] or sig['inputs'][0][0] != 'self' or sig['output'] is None:
                continue
            sub2 = dict(sub)
            for p in fn['generics']['params']:
                if 'type' in p['kind'] or 'const' in p['kind']:
                    sub2.setdefault(p['name'], T)
            try:
                o = c.ty(sig['output'], sub2)
            except Unknown:
                continue
            if not carries(o) or o in out:
                continue
            st = sig['inputs'][0][1]
            recv = '%s()' % ex
            if 'borrowed_ref' in st:
                recv = '(&mut *::std::boxed::Box::leak(::std::boxed::Box::new(%s)))' % recv
            call = '%s.%s(%s)' % (recv, f['name'], ', '.join(['loop {}'] * (len(sig['inputs']) - 1)))
            if fn['header']['is_unsafe']:
                call = 'unsafe { %s }' % call
            todo.append((o, '(|| { %s })' % call))
    return [(t, bufs(t, set()), e) for t, e in out.items()]


FOREIGN = {'Option': '::core::option::Option', 'Box': '::std::boxed::Box', 'Vec': '::std::vec::Vec', 'Result': '::core::result::Result'}


def unk(n):
    raise Unknown('no path to ' + n)


PRE = '''#![allow(warnings)]
use ::mutringbuf::*;
use ::mutringbuf::iterators::*;
use ::mutringbuf::iterators::async_iterators::*;
use ::core::marker::PhantomData as Ph;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct L11(u16);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct L10(u16, Ph<::core::cell::Cell<u8>>);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct L01(u16, Ph<*const u8>);
unsafe impl Sync for L01 {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct L00(u16, Ph<*const u8>);
struct W<F>(::core::marker::PhantomData<F>);
trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<F> No for W<F> {}
impl<F: Send> W<F> { fn send(&self) -> bool { true } }
struct V<F>(::core::marker::PhantomData<F>);
impl<F> No for V<F> {}
impl<F: Sync> V<F> { fn sync(&self) -> bool { true } }
fn w<F>(_: &dyn Fn() -> F) -> W<F> { W(::core::marker::PhantomData) }
fn v<F>(_: &dyn Fn() -> F) -> V<F> { V(::core::marker::PhantomData) }
fn need_send<F: Send>(_: &dyn Fn() -> F) {}
fn need_sync<F: Sync>(_: &dyn Fn() -> F) {}
'''


def crate_dir(cfg, name, src):
    d = os.path.join(build.OUT, 'c16-%s-%s' % (cfg, name))
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'mutringbuf = { path = "%s", features = [%s] }\n' % (REPO, ', '.join('"%s"' % x for x in FEAT[cfg])))
    with open(os.path.join(d, 'src', 'main.rs'), 'w') as f:
        f.write(src)
    return d


FEAT = {'def': ['async'], 'vmem': ['async', 'vmem']}


def env(cfg, sub=''):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly',
             CARGO_TARGET_DIR=os.path.join(build.OUT, 'c16-target-%s%s' % (cfg, sub)))
    return e


def rustdoc(cfg):
    # built from a crate of ours so that nothing is written into /repo
    d = crate_dir(cfg, 'doc', 'fn main() {}\n')
    r = subprocess.run(['cargo', 'rustdoc', '--offline', '-p', 'mutringbuf', '--lib', '--', '-Z', 'unstable-options',
                        '--output-format', 'json', '--document-private-items'], cwd=d, env=env(cfg),
                       capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stdout[-1500:] + r.stderr[-1500:])
    with open(os.path.join(build.OUT, 'c16-target-' + cfg, 'doc', 'mutringbuf.json')) as f:
        return json.load(f)


def rustc(cfg, name, src, run=False):
    d = crate_dir(cfg, name, src)
    r = subprocess.run(['cargo', 'run' if run else 'check', '-q', '--offline'], cwd=d, env=env(cfg, '-' + name),
                       capture_output=True, text=True)
    return r.returncode == 0, r.stdout, r.stderr


class J:
    def __init__(self, name):
        self.name, self.h, self.args, self.cfg, self.opt = name, name, (), 'def', {}


def at(t, leaf):
    return t.replace('LEAF', leaf)


def decide(cfg, R, evdir):
    t0 = time.time()
    c = Crate(rustdoc(cfg))
    enc = Enc(c)
    # rustdoc sets cfg(doc): forget what the real build does not export
    names = {i: p for i, p in c.pub.items() if c.item(i) and c.item(i)['crate_id'] == 0 and ('struct' in c.item(i)['inner'] or 'enum' in c.item(i)['inner'])}
    _, _, err = rustc(cfg, 'names', '#![allow(warnings)]\n' + ''.join('use %s as _;\n' % p for p in names.values()).replace(' as _', ' as X%d')
                      % tuple(range(len(names))) + 'fn main() {}\n')
    gone = [i for i, p in names.items() if re.search(r'`%s`' % re.escape(p.lstrip(':')), err)]
    c.forget(gone)
    path = lambda i, n: c.pub.get(i) or FOREIGN.get(n) or n   # noqa: E731
    all_ = insts(c, enc)
    sT, yT = enc.var(T, 'Send'), enc.var(T, 'Sync')
    solver = z3.Solver()
    nq = 0
    ts = 0.0
    by = {}
    for t, bufs, ex in all_:
        by.setdefault(t[2] if t[0] == 'adt' else 'other', []).append((t, bufs, ex))
    table = []
    for name, ts_ in sorted(by.items()):
        for what, tr in (('sent', 'Send'), ('shared', 'Sync')):
            job = J('%s/%s can be %s' % (cfg, name, what))
            sel = z3.Int('instance')
            alts = []
            for k, (t, bufs, ex) in enumerate(ts_):
                local = 'LocalMutRingBuf' in bufs
                # a shared reference is not the iterator: only those of local buffers must stay
                bad = z3.BoolVal(True) if local else z3.Not(sT) if tr == 'Send' and not (t[0] == 'ref' and not t[1]) else z3.BoolVal(False)
                f = enc.holds(t, tr)
                table.append((t, ex, tr, f, local))
                alts.append(z3.And(sel == k, bad, f))
            r = {'status': 'ok', 'stats': {'queries': 0, 'solver_s': 0.0, 'paths': len(ts_), 'checks': len(ts_), 'instrs': 0}, 'covers': {}, 'funcs': []}
            solver.push()
            solver.add(z3.Or(*alts))
            while True:
                q = time.time()
                res = solver.check()
                r['stats']['queries'] += 1
                r['stats']['solver_s'] += time.time() - q
                if res == z3.unsat:
                    R['done'].append((job, r))
                    break
                if res != z3.sat:
                    r.update(status='stop', why='solver: %s' % res)
                    R['bad'].append((job, r))
                    break
                m = solver.model()
                k = m.eval(sel, model_completion=True).as_long()
                leaf = LEAF[tuple(int(z3.is_true(m.eval(x, model_completion=True))) for x in (sT, yT))]
                t, bufs, ex = ts_[k]
                src = PRE + 'type T = %s;\nfn main() { need_%s(&%s); }\n' % (leaf, tr.lower(), ex)
                ok, _, err = rustc(cfg, 'witness', src)
                if ok:
                    p = os.path.join(evdir, 'replay-C16-%d.rs' % len(R['viol']))
                    with open(p, 'w') as f:
                        f.write('// compiles against /repo (features %s): %s of %s with item %s is %s\n' % (FEAT[cfg], show(t, path), cfg, leaf, tr) + src)
                    r.update(status='violation', kind='trait', msg='%s with item type %s can be %s between threads' % (show(t, path), leaf, what),
                             path=p, replay=[('rustc', 'violation', 'the program compiles')])
                    R['viol'].append((job, r))
                    break
                if 'E0277' not in err:
                    r.update(status='stop', why='witness does not compile for another reason: ' + err[-1500:])
                    R['bad'].append((job, r))
                    break
                # the model relies on a free fact that rustc refutes
                fr = [v for v, _, _ in enc.free.values()]
                r.setdefault('refuted', []).append(show(t, path))
                if r['stats']['queries'] > 40:
                    r.update(status='stop', why='models refuted by rustc: %s' % r['refuted'][:3])
                    R['bad'].append((job, r))
                    break
                solver.add(z3.Or(sel != k, sT != m.eval(sT, model_completion=True), yT != m.eval(yT, model_completion=True)))
            solver.pop()
            nq += r['stats']['queries']
    # the encoding against rustc: every instance, every kind of item
    rows = []
    body = []
    for t, ex, tr, f, local in table:
        for (s, y), leaf in LEAF.items():
            g = z3.simplify(z3.substitute(f, (sT, z3.BoolVal(bool(s))), (yT, z3.BoolVal(bool(y)))))
            if z3.is_true(g) or z3.is_false(g):
                rows.append((t, tr, leaf, z3.is_true(g)))
                body.append((leaf, '{ use super::*; type T = %s; fn f() -> bool { %s(&%s).%s() } println!("{}", f() as u8); }'
                             % (leaf, 'w' if tr == 'Send' else 'v', ex, tr.lower())))
    src = PRE + 'mod m { %s }\nfn main() { %s }\n' % (
        ' '.join('pub fn t%d() %s' % (k, b) for k, (_, b) in enumerate(body)), ' '.join('m::t%d();' % k for k in range(len(body))))
    ok, out, err = rustc(cfg, 'table', src, run=True)
    job = J(cfg + '/encoding against rustc')
    if not ok:
        R['bad'].append((job, {'status': 'error', 'why': 'the table of instances does not compile: ' + err[-1500:]}))
        return
    got = [x == '1' for x in out.split()]
    wrong = [(show(t, path), tr, leaf, e, g) for (t, tr, leaf, e), g in zip(rows, got) if e != g]
    R['witnesses'] = R.get('witnesses', 0) + len(rows) - len(wrong)
    if wrong:
        R['bad'].append((job, {'status': 'mismatch', 'why': 'rustc disagrees (type, trait, item, encoding, rustc): %s' % wrong[:5]}))
    if not any(r[3] for r in rows):
        R['bad'].append((job, {'status': 'vacuous', 'why': 'nothing is sendable'}))
    R.setdefault('extra', {})['types_' + cfg] = {n: len(x) for n, x in by.items()}
    R['extra'].setdefault('impls_' + cfg, sum(len(c.impls.get(x, ())) for x in AUTO))
    R['extra']['seconds_' + cfg] = round(time.time() - t0, 1)
    R['samples'] = [{'type': show(t, path), 'trait': tr, 'formula': str(z3.simplify(f))} for t, ex, tr, f, local in table[::max(1, len(table) // 8)]]


def run(o, deadline):
    R = dict(done=[], bad=[], viol=[], findings=[], skipped=[])
    ev = os.path.join(build.ROOT, 'evidence')
    for cfg in FEAT:
        try:
            decide(cfg, R, ev)
        except build.BuildError as e:
            R['bad'].append((J(cfg), {'status': 'error', 'why': str(e)}))
        except Unknown as e:
            R['bad'].append((J(cfg), {'status': 'error', 'why': 'not understood: %s' % e}))
    return R
