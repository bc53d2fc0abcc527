//! Lock-step runs of two variants of the buffer, or of two forms of an operation, on one history.
use crate::asy::waker;
use crate::core::*;
use crate::nd;
use crate::seq::any_len;
use crate::{ck, cov};
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::*;
use mutringbuf::*;

/// What a caller can see of one operation.
#[derive(Clone, Copy, PartialEq)]
pub struct Obs {
    ok: bool,
    v: [u8; 2],
    hl: usize,
    ho: usize,
    tl: usize,
    to: usize,
}
const NONE: Obs = Obs { ok: false, v: [0; 2], hl: 0, ho: 0, tl: 0, to: 0 };

/// Everything that is chosen, once for both runs.
pub struct Ch {
    rot: usize,
    q: bool,
    k: [usize; 5],
    arg: usize,
    buf: [u8; 2],
    len: usize,
    write: bool,
}
impl Ch {
    pub fn any() -> Ch {
        Ch {
            rot: nd::usize(),
            q: nd::bool(),
            k: [nd::usize(), nd::usize(), nd::usize(), nd::usize(), nd::usize()],
            arg: nd::usize(),
            buf: [nd::u8(), nd::u8()],
            len: nd::split(0, 2),
            write: nd::bool(),
        }
    }
}

fn on_item(x: *mut u8, base: *const u8, c: &Ch) -> Obs {
    let v = unsafe { *x };
    if c.write {
        unsafe { *x = c.buf[0] };
    }
    Obs { ok: true, v: [v, 0], hl: 1, ho: (x as usize).wrapping_sub(base as usize), ..NONE }
}
fn on_win(x: Win<u8>, base: *const u8, c: &Ch) -> Obs {
    let to = if x.tl > 0 { (x.tp as usize).wrapping_sub(base as usize) } else { 0 };
    let ho = if x.hl > 0 { (x.hp as usize).wrapping_sub(base as usize) } else { 0 };
    let e = c.k[4];
    let mut v = 0;
    if x.hl.wrapping_add(x.tl) >= x.hl && e < x.len() {
        v = unsafe { *x.at(e) };
        if c.write {
            unsafe { *x.at(e) = c.buf[0] };
        }
    }
    Obs { ok: true, v: [v, 0], hl: x.hl, ho, tl: x.tl, to }
}
fn unit(r: Option<()>) -> Obs {
    Obs { ok: r.is_some(), ..NONE }
}
fn num(a: usize) -> Obs {
    Obs { ok: true, hl: a, ..NONE }
}
fn poll<F: Future<Output = Option<O>> + Unpin, O>(mut f: F) -> Option<O> {
    let w = waker(0);
    let r = match Pin::new(&mut f).poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => x,
        Poll::Pending => None,
    };
    drop(w);
    r
}

/// operations every iterator has: plain, detached, async
fn common<I: MRBIterator<Item = u8>>(i: &mut I, sel: u8, base: *const u8, c: &Ch, av: usize) -> Obs {
    match sel {
        0 => num(i.available()),
        1 => i.get_workable().map_or(NONE, |x| on_item(x, base, c)),
        2 => i.get_workable_slice_exact(c.arg).map_or(NONE, |x| on_win(win(x), base, c)),
        3 => i.get_workable_slice_avail().map_or(NONE, |x| on_win(win(x), base, c)),
        4 => i.get_workable_slice_multiple_of(1 + c.len).map_or(NONE, |x| on_win(win(x), base, c)),
        _ => {
            nd::assume(c.arg <= av);
            unsafe { i.advance(c.arg) };
            num(i.index())
        }
    }
}
fn common_det<I: MRBIterator<Item = u8>>(i: I, sel: u8, base: *const u8, c: &Ch, av: usize) -> (I, Obs) {
    let mut d = i.detach();
    let o = match sel {
        0 => num(d.available()),
        1 => d.get_workable().map_or(NONE, |x| on_item(x, base, c)),
        2 => d.get_workable_slice_exact(c.arg).map_or(NONE, |x| on_win(win(x), base, c)),
        3 => d.get_workable_slice_avail().map_or(NONE, |x| on_win(win(x), base, c)),
        4 => d.get_workable_slice_multiple_of(1 + c.len).map_or(NONE, |x| on_win(win(x), base, c)),
        _ => {
            nd::assume(c.arg <= av);
            unsafe { d.advance(c.arg) };
            num(d.index())
        }
    };
    (d.attach(), o)
}
macro_rules! common_async {
    ($A:ident, $i:expr, $sel:expr, $base:expr, $c:expr, $av:expr) => {{
        let mut a = $A::from_sync($i);
        let c = $c;
        let o = match $sel {
            0 => num(a.available()),
            1 => poll(a.get_workable()).map_or(NONE, |x| on_item(x, $base, c)),
            2 => poll(a.get_workable_slice_exact(c.arg)).map_or(NONE, |x| on_win(win(x), $base, c)),
            3 => poll(a.get_workable_slice_avail()).map_or(NONE, |x| on_win(win(x), $base, c)),
            4 => poll(a.get_workable_slice_multiple_of(1 + c.len)).map_or(NONE, |x| on_win(win(x), $base, c)),
            _ => {
                nd::assume(c.arg <= $av);
                unsafe { a.advance(c.arg) };
                num(a.index())
            }
        };
        (a.into_sync(), o)
    }};
}
fn prod_sync<B: MutRB<Item = u8>>(p: &mut ProdIter<B>, sel: u8, base: *const u8, c: &Ch) -> Obs {
    match sel {
        6 => match p.push(c.buf[0]) {
            Ok(()) => unit(Some(())),
            Err(x) => Obs { v: [x, 1], ..NONE },
        },
        7 => unit(p.push_init(c.buf[0]).ok()),
        8 => unit(p.push_slice(&c.buf[..c.len])),
        9 => unit(p.push_slice_init(&c.buf[..c.len])),
        10 => unit(p.push_slice_clone(&c.buf[..c.len])),
        11 => unit(p.push_slice_clone_init(&c.buf[..c.len])),
        12 => unsafe { p.get_next_item_mut() }.map_or(NONE, |x| on_item(x, base, c)),
        13 => p.get_next_item_mut_init().map_or(NONE, |x| on_item(x, base, c)),
        _ => unsafe { p.get_next_slices_mut(c.arg) }.map_or(NONE, |x| on_win(win(x), base, c)),
    }
}
fn prod_async<'b, B: MutRB<Item = u8>>(p: ProdIter<'b, B>, sel: u8, base: *const u8, c: &Ch) -> (ProdIter<'b, B>, Obs) {
    let mut a = AsyncProdIter::from_sync(p);
    let o = match sel {
        6 => unit(poll(a.push(c.buf[0]))),
        8 => unit(poll(a.push_slice(&c.buf[..c.len]))),
        10 => unit(poll(a.push_slice_clone(&c.buf[..c.len]))),
        12 => poll(unsafe { a.get_next_item_mut() }).map_or(NONE, |x| on_item(x, base, c)),
        13 => poll(a.get_next_item_mut_init()).map_or(NONE, |x| on_item(x, base, c)),
        _ => poll(unsafe { a.get_next_slices_mut(c.arg) }).map_or(NONE, |x| on_win(win(x), base, c)),
    };
    (a.into_sync(), o)
}
fn ro(x: *const u8, base: *const u8) -> Obs {
    Obs { ok: true, v: [unsafe { *x }, 0], hl: 1, ho: (x as usize).wrapping_sub(base as usize), ..NONE }
}
fn cons_sync<B: MutRB<Item = u8>, const WK: bool>(i: &mut ConsIter<B, WK>, sel: u8, base: *const u8, c: &Ch) -> Obs {
    let mut d = c.buf;
    let nw = Ch { write: false, rot: c.rot, q: c.q, k: c.k, arg: c.arg, buf: c.buf, len: c.len };
    match sel {
        6 => i.pop().map_or(NONE, |x| Obs { ok: true, v: [x, 0], ..NONE }),
        7 => unsafe { i.pop_move() }.map_or(NONE, |x| Obs { ok: true, v: [x, 0], ..NONE }),
        8 => i.peek_ref().map_or(NONE, |x| ro(x, base)),
        9 => i.peek_slice(c.arg).map_or(NONE, |x| on_win(win_ro(x), base, &nw)),
        10 => i.peek_available().map_or(NONE, |x| on_win(win_ro(x), base, &nw)),
        11 => Obs { ok: i.copy_item(&mut d[0]).is_some(), v: d, ..NONE },
        12 => Obs { ok: i.clone_item(&mut d[0]).is_some(), v: d, ..NONE },
        13 => Obs { ok: i.copy_slice(&mut d[..c.len]).is_some(), v: d, ..NONE },
        14 => Obs { ok: i.clone_slice(&mut d[..c.len]).is_some(), v: d, ..NONE },
        _ => {
            i.reset_index();
            num(i.index())
        }
    }
}
fn cons_async<'b, B: MutRB<Item = u8>, const WK: bool>(
    i: ConsIter<'b, B, WK>, sel: u8, base: *const u8, c: &Ch,
) -> (ConsIter<'b, B, WK>, Obs) {
    let mut a = AsyncConsIter::from_sync(i);
    let mut d = c.buf;
    let nw = Ch { write: false, rot: c.rot, q: c.q, k: c.k, arg: c.arg, buf: c.buf, len: c.len };
    let o = match sel {
        6 => poll(a.pop()).map_or(NONE, |x| Obs { ok: true, v: [x, 0], ..NONE }),
        7 => poll(unsafe { a.pop_move() }).map_or(NONE, |x| Obs { ok: true, v: [x, 0], ..NONE }),
        8 => poll(a.peek_ref()).map_or(NONE, |x| ro(x, base)),
        9 => poll(a.peek_slice(c.arg)).map_or(NONE, |x| on_win(win_ro(x), base, &nw)),
        10 => poll(a.peek_available()).map_or(NONE, |x| on_win(win_ro(x), base, &nw)),
        11 => {
            let ok = poll(a.copy_item(&mut d[0])).is_some();
            Obs { ok, v: d, ..NONE }
        }
        12 => {
            let ok = poll(a.clone_item(&mut d[0])).is_some();
            Obs { ok, v: d, ..NONE }
        }
        13 => {
            let ok = poll(a.copy_slice(&mut d[..c.len])).is_some();
            Obs { ok, v: d, ..NONE }
        }
        14 => {
            let ok = poll(a.clone_slice(&mut d[..c.len])).is_some();
            Obs { ok, v: d, ..NONE }
        }
        _ => {
            a.reset_index();
            num(a.index())
        }
    };
    (a.into_sync(), o)
}

/// operations without an async counterpart
fn sync_only(who: u8, sel: u8) -> bool {
    who == P && matches!(sel, 7 | 9 | 11)
}

impl<'b, B: MutRB<Item = u8>, const WK: bool> Sys<'b, B, u8, WK> {
    /// the state both runs start from; the iterator under test may remember an older availability
    fn reach(&mut self, who: u8, c: &Ch) {
        let n = self.m.n;
        nd::assume(c.rot < n);
        self.rot(c.rot);
        self.some(P, c.k[0]);
        if who == P && c.q {
            let _ = self.avail(P);
        }
        if WK {
            if who == W && c.q {
                let _ = self.avail(W);
                self.some(P, c.k[3]);
            }
            self.some(W, c.k[1]);
        }
        if who == C && c.q {
            let _ = self.avail(C);
            self.some(if WK { W } else { P }, c.k[3]);
        }
        self.some(C, c.k[2]);
    }
    fn some(&mut self, who: u8, k: usize) {
        nd::assume(k <= self.av(who));
        self.adv(who, k);
    }
    fn act(self, who: u8, sel: u8, form: u8, c: &Ch) -> (Self, Obs) {
        let av = self.av(who);
        let Sys { mut p, mut w, c: mut ci, m, base, j, vj } = self;
        let o = match (who, sel, form) {
            (P, 0..=5, 0) => common(&mut p, sel, base, c, av),
            (P, 0..=5, 1) => {
                let (i, o) = common_det(p, sel, base, c, av);
                p = i;
                o
            }
            (P, 0..=5, _) => {
                let (i, o) = common_async!(AsyncProdIter, p, sel, base, c, av);
                p = i;
                o
            }
            (P, _, 0) => prod_sync(&mut p, sel, base, c),
            (P, _, _) => {
                let (i, o) = prod_async(p, sel, base, c);
                p = i;
                o
            }
            (W, 6, 0) => {
                let i = w.as_mut().unwrap();
                i.reset_index();
                num(i.index())
            }
            (W, 6, _) => {
                let mut a = AsyncWorkIter::from_sync(w.take().unwrap());
                a.reset_index();
                let o = num(a.index());
                w = Some(a.into_sync());
                o
            }
            (W, _, 0) => common(w.as_mut().unwrap(), sel, base, c, av),
            (W, _, 1) => {
                let (i, o) = common_det(w.take().unwrap(), sel, base, c, av);
                w = Some(i);
                o
            }
            (W, _, _) => {
                let (i, o) = common_async!(AsyncWorkIter, w.take().unwrap(), sel, base, c, av);
                w = Some(i);
                o
            }
            (_, 0..=5, 0) => common(&mut ci, sel, base, c, av),
            (_, 0..=5, 1) => {
                let (i, o) = common_det(ci, sel, base, c, av);
                ci = i;
                o
            }
            (_, 0..=5, _) => {
                let (i, o) = common_async!(AsyncConsIter, ci, sel, base, c, av);
                ci = i;
                o
            }
            (_, _, 0) => cons_sync(&mut ci, sel, base, c),
            (_, _, _) => {
                let (i, o) = cons_async(ci, sel, base, c);
                ci = i;
                o
            }
        };
        (Sys { p, w, c: ci, m, base, j, vj }, o)
    }
    fn seen(&mut self) -> [usize; 12] {
        let w = self.w.as_mut();
        let (wi, wa) = w.map_or((0, 0), |w| (w.index(), w.available()));
        [
            self.p.index(),
            self.c.index(),
            wi,
            self.p.prod_index(),
            if WK { self.p.work_index() } else { 0 },
            self.c.cons_index(),
            self.p.is_prod_alive() as usize,
            if WK { self.p.is_work_alive() as usize } else { 0 },
            self.p.is_cons_alive() as usize,
            self.p.available(),
            wa,
            self.c.available(),
        ]
    }
}

/// Same history on both, same observations.
fn lockstep<'a, 'b, A: MutRB<Item = u8>, B: MutRB<Item = u8>, const WK: bool>(
    mut a: Sys<'a, A, u8, WK>, mut b: Sys<'b, B, u8, WK>, who: u8, sel: u8, fa: u8, fb: u8, then: u8,
) {
    let c = Ch::any();
    if (fa == 2 || fb == 2) && sync_only(who, sel) {
        return;
    }
    a.reach(who, &c);
    b.reach(who, &c);
    let (mut a, oa) = a.act(who, sel, fa, &c);
    let (mut b, ob) = b.act(who, sel, fb, &c);
    cov!(oa.ok, "succeeded");
    cov!(!oa.ok, "refused");
    ck!("C13", oa.ok == ob.ok, "the operation succeeds in both or in neither");
    ck!("C13", oa.v[0] == ob.v[0] || !oa.ok, "same items");
    ck!("C13", oa.v[1] == ob.v[1] || !oa.ok, "same items");
    ck!("C13", oa.hl == ob.hl && oa.tl == ob.tl, "same counts");
    ck!("C13", oa.ho == ob.ho && oa.to == ob.to, "same slots");
    if then == 1 {
        // a further request of the same iterator, right away
        let c2 = Ch::any();
        let x = on_iter!(a, who, i => i.get_workable_slice_exact(c2.arg).is_some());
        let y = on_iter!(b, who, i => i.get_workable_slice_exact(c2.arg).is_some());
        ck!("C13", x == y, "a further request succeeds in both or in neither");
    }
    let sa = a.seen();
    let sb = b.seen();
    let mut i = 0;
    while i < 12 {
        ck!("C13", sa[i] == sb[i], "same indices, availabilities and liveness flags");
        i += 1;
    }
    if a.m.n >= 2 {
        let j = nd::upto(a.m.n - 1);
        ck!("C13", a.content(j) == b.content(j), "same buffer contents");
    }
    a.leak();
    b.leak();
}

fn twin(v: &[u8]) -> Vec<u8> {
    let n = v.len();
    let x = any_vec::<u8>(n);
    unsafe { core::ptr::copy_nonoverlapping(v.as_ptr(), x.as_ptr() as *mut u8, n) };
    x
}
fn plain<'b, B: MutRB<Item = u8>, const WK: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, n: usize) -> Sys<'b, B, u8, WK> {
    let mut p = p;
    let base = p.get_next_item_mut_init().map_or(core::ptr::null(), |x| x as *const u8);
    Sys { p, w, c, m: M::new(n, WK), base, j: 0, vj: 0 }
}
macro_rules! hp {
    (w, $B:ident, $v:expr, $n:expr) => {{
        let (p, w, c) = $B::<u8>::from($v).split_mut();
        plain(p, Some(w), c, $n)
    }};
    (n, $B:ident, $v:expr, $n:expr) => {{
        let (p, c) = $B::<u8>::from($v).split();
        plain(p, None, c, $n)
    }};
}
macro_rules! fixed {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            1 => {
                const $N: usize = 1;
                $e
            }
            2 => {
                const $N: usize = 2;
                $e
            }
            3 => {
                const $N: usize = 3;
                $e
            }
            _ => {
                const $N: usize = 4;
                $e
            }
        }
    };
}
crate::hs! {
    // concurrent against local, heap, any length
    va_w(who, sel, then) {
        let n = any_len::<u8>();
        let v = any_vec::<u8>(n);
        let t = twin(&v);
        lockstep(hp!(w, ConcurrentHeapRB, v, n), hp!(w, LocalHeapRB, t, n), who as u8, sel as u8, 0, 0, then as u8)
    }
    va_n(who, sel, then) {
        let n = any_len::<u8>();
        let v = any_vec::<u8>(n);
        let t = twin(&v);
        lockstep(hp!(n, ConcurrentHeapRB, v, n), hp!(n, LocalHeapRB, t, n), who as u8, sel as u8, 0, 0, then as u8)
    }
    // plain against another form of the same operation, any length (form 1: detached, 2: async)
    vf_w(who, sel, form, then) {
        let n = any_len::<u8>();
        let v = any_vec::<u8>(n);
        let t = twin(&v);
        lockstep(hp!(w, ConcurrentHeapRB, v, n), hp!(w, ConcurrentHeapRB, t, n), who as u8, sel as u8, 0, form as u8, then as u8)
    }
    vf_n(who, sel, form, then) {
        let n = any_len::<u8>();
        let v = any_vec::<u8>(n);
        let t = twin(&v);
        lockstep(hp!(n, LocalHeapRB, v, n), hp!(n, LocalHeapRB, t, n), who as u8, sel as u8, 0, form as u8, then as u8)
    }
    // heap against stack
    #[cfg(not(feature = "vmem"))]
    vs_w(who, sel, n, then) {
        fixed!(n, N => {
            let a = any_arr::<u8, N>();
            let mut b = ConcurrentStackRB::from(a);
            let (p, w, c) = b.split_mut();
            lockstep(hp!(w, ConcurrentHeapRB, Vec::from(a), N), plain(p, Some(w), c, N), who as u8, sel as u8, 0, 0, then as u8)
        })
    }
    #[cfg(not(feature = "vmem"))]
    vs_n(who, sel, n, then) {
        fixed!(n, N => {
            let a = any_arr::<u8, N>();
            let mut b = LocalStackRB::from(a);
            let (p, c) = b.split();
            lockstep(hp!(n, ConcurrentHeapRB, Vec::from(a), N), plain(p, None, c, N), who as u8, sel as u8, 0, 0, then as u8)
        })
    }
}
