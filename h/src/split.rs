//! Construction, splits, repeated splits, liveness flags and the release of the buffer; reset_index.
use crate::asy::waker;
use crate::core::*;
use crate::nd;
use crate::own;
use crate::seq::any_len;
use crate::{ck, cov, heap, stack};
use core::future::Future;
use core::pin::Pin;
use core::task::Context;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::*;
use mutringbuf::*;

// ---- construction ----------------------------------------------------------------------------------
/// fresh session: sizes, contents, capacity
fn session<'b, B: MutRB<Item = T>, T: Val, const WK: bool>(
    p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, n: usize, j: usize, want: Option<T>,
) {
    let mut s = Sys::new(p, w, c, n);
    ck!("C18", s.p.buf_len() == n && s.c.buf_len() == n, "the buffer has the given length");
    ck!("C18", s.p.is_prod_alive() && s.p.is_cons_alive() && (!WK || s.c.is_work_alive()), "iterators of a new session are alive");
    if nd::bool() {
        s.ck_avails();
    }
    ck!("C18", s.c.index() == s.c.cons_index() && s.p.index() == s.p.prod_index(), "positions are published");
    ck!("C18", s.c.peek_ref().is_none(), "nothing to consume yet");
    if let (Some(v), true) = (want, n >= 2) {
        ck!("C18", s.content(j) == v, "supplied contents are kept in order");
    }
    // exactly n-1 items can be in flight
    let k = nd::usize();
    s.probe(P, k);
    let v = T::any();
    let a = nd::usize();
    nd::assume(a <= n - 1);
    s.adv(P, a);
    let ok = s.p.push(v).is_ok();
    ck!("C18 C04", ok == (a < n - 1), "the usable capacity is len-1");
    if ok {
        s.m.bump(P, 1);
    }
    s.ck_avails();
    s.leak();
}
fn spare(n: usize, cap: usize) -> (Vec<u8>, [u8; 4]) {
    let a = any_arr::<u8, 4>();
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < n {
        v.push(a[i]);
        i += 1;
    }
    (v, a)
}
macro_rules! two {
    ($w:expr, $b:expr, $n:expr, $j:expr, $want:expr) => {{
        let b = $b;
        ck!("C18", $n > 0, "a buffer of length 0 is refused");
        if $w == 1 {
            let (p, w, c) = b.split_mut();
            session(p, Some(w), c, $n, $j, $want)
        } else {
            let (p, c) = b.split();
            session(p, None, c, $n, $j, $want)
        }
    }};
}
macro_rules! two_s {
    ($w:expr, $b:expr, $n:expr, $j:expr, $want:expr) => {{
        let mut b = $b;
        ck!("C18", $n > 0, "a buffer of length 0 is refused");
        if $w == 1 {
            let (p, w, c) = b.split_mut();
            session(p, Some(w), c, $n, $j, $want)
        } else {
            let (p, c) = b.split();
            session(p, None, c, $n, $j, $want)
        }
    }};
}
macro_rules! two_a {
    ($w:expr, $b:expr, $n:expr, $j:expr, $want:expr) => {{
        let b = $b;
        ck!("C18", $n > 0, "a buffer of length 0 is refused");
        if $w == 1 {
            let (p, w, c) = b.split_mut_async();
            session(p.into_sync(), Some(w.into_sync()), c.into_sync(), $n, $j, $want)
        } else {
            let (p, c) = b.split_async();
            session(p.into_sync(), None, c.into_sync(), $n, $j, $want)
        }
    }};
}
macro_rules! sizes {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            0 => {
                const $N: usize = 0;
                $e
            }
            1 => {
                const $N: usize = 1;
                $e
            }
            2 => {
                const $N: usize = 2;
                $e
            }
            3 => {
                const $N: usize = 3;
                $e
            }
            _ => {
                const $N: usize = 4;
                $e
            }
        }
    };
}

#[cfg(not(feature = "vmem"))]
fn construct(kind: u64, n: u64, w: u64) {
    let nn = n as usize;
    if n == 0 {
        nd::expect_panic("C18|a buffer of length 0 is refused");
    }
    let j = if nn > 0 { nd::upto(nn - 1) } else { 0 };
    match kind {
        0 => {
            let (v, a) = spare(nn, nn);
            two!(w, ConcurrentHeapRB::<u8>::from(v), nn, j, Some(a[j]))
        }
        1 => {
            let (v, a) = spare(nn, nn + 3);
            two!(w, LocalHeapRB::<u8>::from(v), nn, j, Some(a[j]))
        }
        2 => two!(w, ConcurrentHeapRB::<u8>::default(nn), nn, j, Some(0)),
        3 => two!(w, LocalHeapRB::<u8>::default(nn), nn, j, Some(0)),
        4 => two!(w, unsafe { ConcurrentHeapRB::<u8>::new_zeroed(nn) }, nn, j, None),
        5 => two!(w, unsafe { LocalHeapRB::<u8>::new_zeroed(nn) }, nn, j, None),
        6 => sizes!(n, N => {
            let a = any_arr4::<N>();
            two_s!(w, ConcurrentStackRB::<u8, N>::from(a), nn, j, if N > 0 { Some(a[j]) } else { None })
        }),
        7 => sizes!(n, N => {
            let a = any_arr4::<N>();
            two_s!(w, LocalStackRB::<u8, N>::from(a), nn, j, if N > 0 { Some(a[j]) } else { None })
        }),
        8 => sizes!(n, N => two_s!(w, ConcurrentStackRB::<u8, N>::default(), nn, j, Some(0))),
        9 => sizes!(n, N => two_s!(w, LocalStackRB::<u8, N>::default(), nn, j, Some(0))),
        10 => sizes!(n, N => two_s!(w, unsafe { ConcurrentStackRB::<u8, N>::new_zeroed() }, nn, j, None)),
        11 => sizes!(n, N => two_s!(w, unsafe { LocalStackRB::<u8, N>::new_zeroed() }, nn, j, None)),
        12 => {
            let (v, a) = spare(nn, nn + 1);
            two_a!(w, ConcurrentHeapRB::<u8>::from(v), nn, j, Some(a[j]))
        }
        13 => two_a!(w, ConcurrentHeapRB::<u8>::default(nn), nn, j, Some(0)),
        // items of other sizes
        14 => two!(w, ConcurrentHeapRB::<u64>::default(nn), nn, j, Some(0)),
        15 => two!(w, unsafe { LocalHeapRB::<B3>::new_zeroed(nn) }, nn, j, None),
        _ => {
            let v: Vec<()> = any_vec(nn);
            two!(w, ConcurrentHeapRB::<()>::from(v), nn, j, None)
        }
    }
}
fn any_arr4<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = nd::u8();
        i += 1;
    }
    a
}

// ---- a second session on a stack buffer ------------------------------------------------------------
/// What the first session leaves behind.
struct Left<T> {
    base: *const T,
    m: M,
    j: usize,
    vj: T,
}
fn first<'b, B: MutRB<Item = T>, T: Val, const WK: bool>(mut s: Sys<'b, B, T, WK>, how: u64) -> Left<T> {
    s.arbitrary(1);
    s.op_push(false);
    s.op_take_item(0);
    let Sys { p, w, c, m, base, j, vj } = s;
    match how {
        0 => {
            drop(p);
            drop(w);
            drop(c);
        }
        1 => {
            drop(c);
            drop(p.detach());
            drop(w);
        }
        2 => {
            drop(AsyncProdIter::from_sync(p));
            drop(c.detach());
            drop(w);
        }
        _ => {
            // moved while detached, never synced
            let mut d = c.detach();
            let k = nd::upto(m.av_c());
            unsafe { d.advance(k) };
            drop(d);
            drop(w);
            drop(p);
        }
    }
    Left { base, m, j, vj }
}
fn second<'b, B: MutRB<Item = T>, T: Val, const WK: bool>(
    p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, mut c: ConsIter<'b, B, WK>, l: Left<T>, sel: u64,
) {
    let n = l.m.n;
    let mut p = p;
    let mut w = w;
    let (pi, ci) = (p.index(), c.index());
    let wi = w.as_ref().map_or(0, |w| w.index());
    ck!("C18", pi < n && ci < n && wi < n, "positions inside the buffer");
    ck!("C18", p.prod_index() == pi && c.cons_index() == ci && (!WK || p.work_index() == wi), "positions are published");
    let m = M { n, w: WK, pi, wi, ci };
    if nd::bool() {
        let (a, b, d) = (p.available(), w.as_mut().map_or(0, |w| w.available()), c.available());
        ck!("C18 C04", a.wrapping_add(b).wrapping_add(d) == n - 1, "availabilities sum to len-1 after the split");
    }
    // in flight now: at most what was pushed and not consumed before
    let left = dist(l.m.pi, l.m.ci, n);
    let now = m.av_c() + if WK { m.av_w() } else { 0 };
    ck!("C18 C01", now <= left, "only items pushed and not yet consumed can be obtained");
    ck!("C18 C01", now == 0 || ci == plus(l.m.ci, left - now, n), "only items pushed and not yet consumed can be obtained");
    let k = nd::usize();
    let r = c.get_workable_slice_exact(k).is_some();
    ck!("C18 C01 C04", !r || k <= m.av_c(), "the consumer is granted only what is in flight");
    let mut s = Sys { p, w, c, m, base: l.base, j: l.j, vj: l.vj };
    s.ck_state();
    match sel {
        0 => s.settle(),
        1 => {
            s.op_push(false);
            s.settle();
        }
        2 => {
            s.round1();
            s.op_push(true);
            s.settle();
        }
        _ => {
            s.round1();
            s.op_take_item(0);
            s.settle();
        }
    }
    cov!(left > 0, "items were left behind");
    s.leak();
}
impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    fn round1(&mut self) {
        for who in [P, W, C] {
            if who == W && !WK {
                continue;
            }
            let k = nd::upto(self.av(who));
            self.adv(who, k);
        }
    }
}
macro_rules! again {
    ($b:ident, $n:expr, $w:expr, $how:expr, $sel:expr) => {{
        let l = if $w & 1 == 1 {
            let (p, w, c) = $b.split_mut();
            first(Sys::new(p, Some(w), c, $n), $how)
        } else {
            let (p, c) = $b.split();
            first(Sys::new(p, None, c, $n), $how)
        };
        if $w & 2 == 2 {
            let (p, w, c) = $b.split_mut();
            second(p, Some(w), c, l, $sel)
        } else {
            let (p, c) = $b.split();
            second(p, None, c, l, $sel)
        }
    }};
}
macro_rules! some_n {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            1 => {
                const $N: usize = 1;
                $e
            }
            2 => {
                const $N: usize = 2;
                $e
            }
            3 => {
                const $N: usize = 3;
                $e
            }
            4 => {
                const $N: usize = 4;
                $e
            }
            _ => {
                const $N: usize = 5;
                $e
            }
        }
    };
}

// ---- liveness flags, release ------------------------------------------------------------------------
/// Consumes an iterator in one of its guises; the flag must stay up until the very end.
pub fn end<I: MRBIterator<Item = u8>, A: AsyncIterator<I = I>>(i: I, form: u8, alive: impl Fn() -> bool) {
    match form {
        0 => drop(i),
        1 => {
            let d = i.detach();
            ck!("C07", alive(), "detaching is not dropping");
            drop(d)
        }
        2 => {
            let a = A::from_sync(i);
            ck!("C07", alive(), "wrapping is not dropping");
            drop(a)
        }
        3 => {
            let a = A::from_sync(i).detach();
            ck!("C07", alive(), "detaching is not dropping");
            drop(a)
        }
        4 => {
            let i = i.detach().attach();
            ck!("C07", alive(), "attaching is not dropping");
            drop(i)
        }
        5 => {
            let i = A::from_sync(i).into_sync();
            ck!("C07", alive(), "unwrapping is not dropping");
            drop(i)
        }
        _ => {
            let i = A::from_sync(i).detach().attach().into_sync();
            ck!("C07", alive(), "unwrapping is not dropping");
            drop(i)
        }
    }
}
fn life<'b, B: MutRB<Item = u8>, const WK: bool>(
    p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, order: [u8; 3], forms: [u8; 3],
    before: usize, held: usize,
) {
    let mut p = Some(p);
    let mut w = w;
    let mut c = Some(c);
    let mut up = [true, WK, true];
    let mut i = 0;
    while i < 3 {
        let who = order[i];
        if who == W && !WK {
            i += 1;
            continue;
        }
        // somebody keeps an eye on the flag
        let look: *const ProdIter<'b, B> = p.as_ref().map_or(core::ptr::null(), |x| x);
        let lookc: *const ConsIter<'b, B, WK> = c.as_ref().map_or(core::ptr::null(), |x| x);
        let peer = |x: u8| unsafe {
            let viap = x != P;
            match x {
                P => lookc.as_ref().map_or(true, |c| c.is_prod_alive()),
                W => {
                    if let Some(p) = look.as_ref() {
                        p.is_work_alive()
                    } else {
                        lookc.as_ref().map_or(true, |c| c.is_work_alive())
                    }
                }
                _ => viap && look.as_ref().map_or(true, |p| p.is_cons_alive()),
            }
        };
        match who {
            P => end::<_, AsyncProdIter<'b, B>>(p.take().unwrap(), forms[0], || peer(P)),
            W => end::<_, AsyncWorkIter<'b, B>>(w.take().unwrap(), forms[1], || peer(W)),
            _ => end::<_, AsyncConsIter<'b, B, WK>>(c.take().unwrap(), forms[2], || peer(C)),
        }
        up[who as usize] = false;
        // the survivors still work, and see who is gone
        if let Some(x) = &mut p {
            ck!("C07 C13", x.is_prod_alive() && x.is_work_alive() == up[1] && x.is_cons_alive() == up[2], "flags as seen by the producer");
            let _ = x.push(nd::u8());
            let _ = x.available();
        }
        if let Some(x) = &mut w {
            ck!("C07 C13", x.is_prod_alive() == up[0] && x.is_work_alive() && x.is_cons_alive() == up[2], "flags as seen by the worker");
            if let Some(y) = x.get_workable() {
                *y = nd::u8();
                unsafe { x.advance(1) };
            }
        }
        if let Some(x) = &mut c {
            ck!("C07 C13", x.is_prod_alive() == up[0] && x.is_work_alive() == up[1] && x.is_cons_alive(), "flags as seen by the consumer");
            let _ = x.pop();
        }
        if up[0] || up[1] || up[2] {
            ck!("C07", nd::live() == before + held, "the buffer is kept while an iterator exists");
        } else {
            ck!("C07", nd::live() == before, "the buffer is released with its last iterator");
        }
        i += 1;
    }
}
const ORDERS: [[u8; 3]; 6] = [[P, W, C], [P, C, W], [W, P, C], [W, C, P], [C, P, W], [C, W, P]];
fn forms(code: u64) -> [u8; 3] {
    // one guise fixed by the job for each, or all combinations of two of them
    [(code % 10) as u8, (code / 10 % 10) as u8, (code / 100 % 10) as u8]
}
macro_rules! live_heap {
    ($B:ident, $w:expr, $order:expr, $forms:expr) => {{
        let before = nd::live();
        let b = $B::<u8>::from(vec![1u8, 2, 3]);
        if $w == 1 {
            let (p, w, c) = b.split_mut();
            let held = nd::live() - before;
            ck!("C07", held > 0, "a heap buffer lives on the heap");
            life(p, Some(w), c, ORDERS[$order as usize], forms($forms), before, held)
        } else {
            let (p, c) = b.split();
            let held = nd::live() - before;
            ck!("C07", held > 0, "a heap buffer lives on the heap");
            life(p, None, c, ORDERS[$order as usize], forms($forms), before, held)
        }
    }};
}

/// pending futures hold no share of the buffer
fn futures() {
    let before = nd::live();
    let (mut p, mut c) = ConcurrentHeapRB::<u8>::from(vec![1u8, 2]).split_async();
    let w = waker(0);
    let mut cx = Context::from_waker(&w);
    {
        let mut f = c.pop();
        ck!("C14", Pin::new(&mut f).poll(&mut cx).is_pending(), "nothing to pop");
    }
    {
        let mut f = p.push(3);
        ck!("C14", Pin::new(&mut f).poll(&mut cx).is_ready(), "room to push");
    }
    if nd::bool() {
        drop(p);
        ck!("C07 C13", !c.is_prod_alive() && c.is_cons_alive(), "flags as seen by the consumer");
        let mut f = c.pop();
        ck!("C14", Pin::new(&mut f).poll(&mut cx).is_ready(), "an item is there");
        drop(f);
        drop(c);
    } else {
        drop(c);
        ck!("C07 C13", !p.is_cons_alive() && p.is_prod_alive(), "flags as seen by the producer");
        let mut f = p.push(3);
        ck!("C14", Pin::new(&mut f).poll(&mut cx).is_pending(), "no room");
        drop(f);
        drop(p);
    }
    drop(w);
    ck!("C07", nd::live() == before, "the buffer is released with its last iterator");
}

#[cfg(not(feature = "vmem"))]
/// values of a stack buffer survive its sessions, and die with it
fn stack_own(full: bool, w: u64) {
    own::start();
    {
        let mut b = if full { ConcurrentStackRB::<own::It, 3>::from(own::fresh_arr::<3>()) } else { unsafe { ConcurrentStackRB::<own::It, 3>::new_zeroed() } };
        let mut s = 0;
        let sessions = nd::split(1, 2);
        while s < sessions {
            let pushes = nd::split(0, 2);
            let pops = nd::split(0, 2);
            if w == 1 {
                let (mut p, mut wk, mut c) = b.split_mut();
                sess_p(&mut p, pushes);
                while wk.get_workable().is_some() {
                    unsafe { wk.advance(1) };
                }
                sess_c(&mut c, pops);
            } else {
                let (mut p, mut c) = b.split();
                sess_p(&mut p, pushes);
                sess_c(&mut c, pops);
            }
            s += 1;
        }
        if full {
            let mut alive = 0;
            let mut i = 1;
            while i < own::l().next_id() {
                alive += (own::l().st[i] == 1) as usize;
                i += 1;
            }
            ck!("C07 C08", alive <= 3, "no more values alive than slots");
        }
    }
    own::all_gone();
}
fn sess_p<B: MutRB<Item = own::It>>(p: &mut ProdIter<B>, k: usize) {
    let mut i = 0;
    while i < k {
        ck!("C18 C04", p.push_init(own::It::new()).is_ok(), "room in a fresh session");
        i += 1;
    }
}
fn sess_c<B: MutRB<Item = own::It>, const WK: bool>(c: &mut ConsIter<B, WK>, k: usize) {
    let mut i = 0;
    while i < k {
        if let Some(v) = unsafe { c.pop_move() } {
            ck!("C08 C18", own::l().st[v.id()] == 1, "only live values are handed out");
        }
        i += 1;
    }
}

// ---- reset_index ------------------------------------------------------------------------------------
impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    /// arbitrary state, reset in one of its forms, then whatever
    pub fn reset(mut self, who: u8, form: u8, who2: u8, sel: u8) {
        self.arbitrary_stale();
        // something may have been granted before
        if who2 != 9 && nd::bool() {
            let k = nd::usize();
            self.probe(who, k);
        }
        let n = self.m.n;
        let (fp, fw) = (self.m.av_p(), self.m.av_w());
        let skipped = self.m.av(who);
        let Sys { p, mut w, mut c, mut m, base, j, vj } = self;
        match (who, form) {
            (W, 0) => w.as_mut().unwrap().reset_index(),
            (W, 1) => {
                let mut a = AsyncWorkIter::from_sync(w.take().unwrap());
                a.reset_index();
                w = Some(a.into_sync());
            }
            (W, _) => {
                let mut d = w.take().unwrap().detach();
                d.reset_index();
                ck!("C11 C12", d.available() == 0, "nothing is available after a reset");
                w = Some(d.attach());
            }
            (_, 0) => c.reset_index(),
            (_, 1) => {
                let mut a = AsyncConsIter::from_sync(c);
                a.reset_index();
                c = a.into_sync();
            }
            _ => {
                let mut d = c.detach();
                d.reset_index();
                ck!("C11 C12", d.available() == 0, "nothing is available after a reset");
                c = d.attach();
            }
        }
        if who == W {
            m.wi = m.pi
        } else {
            m.ci = if WK { m.wi } else { m.pi }
        }
        let mut s = Sys { p, w, c, m, base, j, vj };
        let k = nd::usize();
        nd::assume(k >= 1);
        s.probe(who, k);
        ck!("C11", on_iter!(s, who, i => i.index()) == s.m.idx(who), "the iterator is where the one ahead is");
        if nd::bool() {
            let a = s.avail(who);
            ck!("C11", a == 0, "nothing is available after a reset");
        }
        // what was skipped belongs to the iterator behind
        let behind = if who == W { C } else { P };
        let was = if who == W { dist(if WK { plus(s.m.wi, n - skipped, n) } else { s.m.wi }, s.m.ci, n) } else { fp };
        let _ = fw;
        if nd::bool() {
            let b = s.avail(behind);
            ck!("C11", b == was.wrapping_add(skipped), "skipped items are released to the iterator behind");
        }
        cov!(skipped > 1, "skipped several");
        // publications ahead, then any operation
        if nd::bool() {
            s.round1p(who);
        }
        match who2 {
            9 => {}
            P => s.prod_op::<2>(sel),
            W => s.work_op::<2>(sel),
            _ => s.cons_op::<2>(sel),
        }
        s.settle();
        s.leak();
    }
    fn round1p(&mut self, who: u8) {
        let a = if who == C && WK { W } else { P };
        let k = nd::upto(self.av(a));
        self.adv(a, k);
    }
}

crate::hs! {
    // construction: kind, n, worker or not
    #[cfg(not(feature = "vmem"))]
    sp_new(kind, n, w) { construct(kind, n, w) }
    // construction from data of any length
    sp_any(w) {
        let n = any_len::<u8>();
        let v = any_vec::<u8>(n);
        let j = nd::upto(n - 1);
        let x = v[j];
        two!(w, ConcurrentHeapRB::<u8>::from(v), n, j, Some(x))
    }
    sp_anyl(w) {
        let n = any_len::<u16>();
        let v = any_vec::<u16>(n);
        let j = nd::upto(n - 1);
        let x = v[j];
        two!(w, LocalHeapRB::<u16>::from(v), n, j, Some(x))
    }
    // a second session: n, bit 0 / bit 1 = worker in the first / second, how the first ends, what follows
    #[cfg(not(feature = "vmem"))]
    sp_ac(n, w, how, sel) { some_n!(n, N => { let mut b = ConcurrentStackRB::<u8, N>::from(any_arr::<u8, N>()); again!(b, N, w, how, sel) }) }
    #[cfg(not(feature = "vmem"))]
    sp_al(n, w, how, sel) { some_n!(n, N => { let mut b = LocalStackRB::<u8, N>::from(any_arr::<u8, N>()); again!(b, N, w, how, sel) }) }
    #[cfg(not(feature = "vmem"))]
    sp_own(full, w) { stack_own(full != 0, w) }
    lf_c(w, order, forms) { live_heap!(ConcurrentHeapRB, w, order, forms) }
    lf_l(w, order, forms) { live_heap!(LocalHeapRB, w, order, forms) }
    lf_fut() { futures() }
    // reset_index: who + 10 * form, then operation sel of who2
    rs_cw(wf, who2, sel) { heap!(w, ConcurrentHeapRB, u8, any_len::<u8>()).reset((wf % 10) as u8, (wf / 10) as u8, who2 as u8, sel as u8) }
    rs_cn(wf, who2, sel) { heap!(n, ConcurrentHeapRB, u8, any_len::<u8>()).reset((wf % 10) as u8, (wf / 10) as u8, who2 as u8, sel as u8) }
    rs_lw(wf, who2, sel) { heap!(w, LocalHeapRB, u8, any_len::<u8>()).reset((wf % 10) as u8, (wf / 10) as u8, who2 as u8, sel as u8) }
    rs_ls(wf, who2, sel, n) { stack!(n, LocalStackRB, u16, by n, s => s.reset((wf % 10) as u8, (wf / 10) as u8, who2 as u8, sel as u8)) }
}
