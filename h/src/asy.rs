//! Async iterators: one poll is one synchronous attempt; Pending has no effect; tasks are woken.
use crate::core::*;
use crate::nd;
use crate::seq::any_len;
use crate::{ck, cov, heap};
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::*;
use mutringbuf::*;

// ---- a waker that counts, and that lets another stage act in the middle of a poll ------------------
pub struct Wk {
    woken: [usize; 2],
    live: [isize; 2],
    hook: Option<(fn(*mut ()), *mut ())>,
}
pub static mut WK: Wk = Wk { woken: [0; 2], live: [0; 2], hook: None };
#[allow(static_mut_refs)]
fn wk() -> &'static mut Wk {
    unsafe { &mut *core::ptr::addr_of_mut!(WK) }
}
fn at(d: *const ()) -> usize {
    (d as usize) & 1
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |d| {
        wk().live[at(d)] += 1;
        if let Some((f, x)) = wk().hook.take() {
            f(x);
        }
        RawWaker::new(d, &VT)
    },
    |d| {
        wk().woken[at(d)] += 1;
        wk().live[at(d)] -= 1;
    },
    |d| wk().woken[at(d)] += 1,
    |d| wk().live[at(d)] -= 1,
);
pub fn waker(i: usize) -> Waker {
    wk().live[i] += 1;
    unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) }
}

/// The iterators that are not awaiting anything, and the model.
pub struct Env<'b, B: MutRB<Item = T>, T: Val, const WK: bool> {
    pub p: Option<ProdIter<'b, B>>,
    pub w: Option<WorkIter<'b, B>>,
    pub c: Option<ConsIter<'b, B, WK>>,
    pub m: M,
    pub base: *const T,
    pub j: usize,
    pub vj: T,
    pub who: u8,
    /// the stage that makes progress possible publishes this much in the middle of a poll
    mid: usize,
    /// something was published in the middle of this poll
    midd: bool,
}
fn ahead(who: u8, wk: bool) -> u8 {
    match who {
        P => C,
        W => P,
        _ => {
            if wk {
                W
            } else {
                P
            }
        }
    }
}
impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Env<'b, B, T, WK> {
    pub fn content(&self, i: usize) -> T {
        unsafe { core::ptr::read_volatile(self.base.add(i)) }
    }
    /// the stage ahead publishes k more slots
    fn give(&mut self, k: usize) {
        let a = ahead(self.who, WK);
        unsafe {
            match a {
                P => self.p.as_mut().unwrap().advance(k),
                W => self.w.as_mut().unwrap().advance(k),
                _ => self.c.as_mut().unwrap().advance(k),
            }
        }
        self.m.bump(a, k);
    }
    fn give_some(&mut self) {
        let k = nd::upto(self.m.av(ahead(self.who, WK)));
        self.give(k);
    }
    /// nothing moved, nothing written
    fn ck_same(&self) {
        let (pi, wi, ci);
        if let Some(i) = &self.p {
            (pi, wi, ci) = (i.prod_index(), i.work_index(), i.cons_index());
        } else {
            let i = self.c.as_ref().unwrap();
            (pi, wi, ci) = (i.prod_index(), i.work_index(), i.cons_index());
        }
        ck!("C14", pi == self.m.pi && ci == self.m.ci && (!WK || wi == self.m.wi), "Pending moves nothing");
        if self.m.n >= 2 {
            ck!("C14", self.content(self.j) == self.vj, "Pending writes nothing");
        }
    }
}
fn mid_hook<B: MutRB<Item = T>, T: Val, const WK: bool>(e: *mut ()) {
    let e = unsafe { &mut *(e as *mut Env<B, T, WK>) };
    e.give(e.mid);
    e.midd = true;
}

pub struct How {
    /// most polls made
    pub polls: usize,
    /// C15: judge wake-ups, with publications in the middle of polls
    pub wakes: bool,
}

/// Polls as an executor does. `can` tells from the model whether the operation is possible.
pub fn drive<'b, F: Future<Output = Option<O>> + Unpin, O, B: MutRB<Item = T>, T: Val, const WK: bool>(
    f: &mut F, e: &mut Env<'b, B, T, WK>, can: impl Fn(&M) -> bool, how: &How,
) -> Option<O> {
    let wa = waker(0);
    let wb = waker(1);
    let mut i = 0;
    let mut res = None;
    while i < how.polls {
        // the task may be polled with another waker each time
        let which = if how.wakes { nd::split(0, 1) } else { 0 };
        let before = wk().woken[which];
        let could = can(&e.m);
        e.midd = false;
        if how.wakes {
            e.mid = nd::upto(e.m.av(ahead(e.who, WK)));
            wk().hook = Some((mid_hook::<B, T, WK>, e as *mut _ as *mut ()));
        }
        let mut cx = Context::from_waker(if which == 0 { &wa } else { &wb });
        let r = Pin::new(&mut *f).poll(&mut cx);
        wk().hook = None;
        match r {
            Poll::Ready(x) => {
                ck!("C14", can(&e.m), "a future resolves only when the operation succeeds");
                cov!(could, "ready at once");
                cov!(i > 0, "ready on a later poll");
                ck!("C14", x.is_some(), "a future resolves with the operation's result");
                if !how.wakes {
                    res = x;
                }
                break;
            }
            Poll::Pending => {
                cov!(true, "pending");
                if !how.wakes {
                    ck!("C14", !could, "a poll whose condition is true completes");
                }
                ck!("C15", !could, "a task polled when the operation is possible does not stay pending");
                if how.wakes {
                    e.give_some();
                    // possible by now: this task has to be polled again
                    ck!("C15", !can(&e.m) || wk().woken[which] > before, "the task is woken once the operation is possible");
                    if wk().woken[which] == before {
                        // parked, and rightly so
                        break;
                    }
                } else {
                    e.ck_same();
                    if nd::bool() {
                        e.give_some();
                    }
                }
            }
        }
        i += 1;
    }
    if how.wakes && i == how.polls {
        // every poll was pending
        let _ = i;
    }
    drop(wa);
    drop(wb);
    res
}

impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    fn env(self, who: u8) -> (Env<'b, B, T, WK>, Option<ProdIter<'b, B>>, Option<WorkIter<'b, B>>, Option<ConsIter<'b, B, WK>>) {
        let Sys { p, w, c, m, base, j, vj } = self;
        let mut e = Env { p: None, w: None, c: None, m, base, j, vj, who, mid: 0, midd: false };
        match who {
            P => {
                (e.w, e.c) = (w, Some(c));
                (e, Some(p), None, None)
            }
            W => {
                (e.p, e.c) = (Some(p), Some(c));
                (e, None, w, None)
            }
            _ => {
                (e.p, e.w) = (Some(p), w);
                (e, None, None, Some(c))
            }
        }
    }
    fn back(e: Env<'b, B, T, WK>, p: Option<ProdIter<'b, B>>, w: Option<WorkIter<'b, B>>, c: Option<ConsIter<'b, B, WK>>) -> Self {
        let Env { p: ep, w: ew, c: ec, m, base, j, vj, .. } = e;
        Sys { p: p.or(ep).unwrap(), w: w.or(ew), c: c.or(ec).unwrap(), m, base, j, vj }
    }
    pub fn asy<const MAX: usize>(mut self, who: u8, sel: u8, how: How) {
        if how.wakes {
            self.arbitrary_for(who);
        } else {
            self.arbitrary_stale();
        }
        let (mut e, p, w, c) = self.env(who);
        let s = match who {
            P => {
                let mut a = AsyncProdIter::from_sync(p.unwrap());
                prod::<B, T, WK, MAX>(&mut a, &mut e, sel, &how);
                Self::back(e, Some(a.into_sync()), None, None)
            }
            W => {
                let mut a = AsyncWorkIter::from_sync(w.unwrap());
                match sel {
                    0 => {
                        let r = drive(&mut a.get_workable(), &mut e, |m| m.av_w() >= 1, &how);
                        item(&mut e, r.map(|x| x as *const T));
                    }
                    1 => {
                        let k = nd::usize();
            nd::assume(k >= 1);
                        let r = drive(&mut a.get_workable_slice_exact(k), &mut e, |m| k <= m.av_w(), &how);
                        window(&mut e, r.map(win), k);
                    }
                    2 => {
                        let r = drive(&mut a.get_workable_slice_avail(), &mut e, |m| m.av_w() > 0, &how);
                        let k = e.m.av_w();
                        window(&mut e, r.map(win), k);
                    }
                    3 => {
                        let rhs = nd::split(1, MAX);
                        let r = drive(&mut a.get_workable_slice_multiple_of(rhs), &mut e, |m| m.av_w() >= rhs, &how);
                        multiple(&mut e, r.map(win), rhs);
                    }
                    _ => {
                        a.reset_index();
                        e.m.wi = e.m.pi;
                    }
                }
                Self::back(e, None, Some(a.into_sync()), None)
            }
            _ => {
                let mut a = AsyncConsIter::from_sync(c.unwrap());
                cons::<B, T, WK, MAX>(&mut a, &mut e, sel, &how);
                Self::back(e, None, None, Some(a.into_sync()))
            }
        };
        let mut s = s;
        if !how.wakes {
            s.ck_state_a();
        }
        s.settle();
        s.leak();
    }
    fn ck_state_a(&self) {
        ck!("C14 C13", self.p.index() == self.m.pi && self.c.index() == self.m.ci, "indices as after the synchronous operation");
        if self.m.n >= 2 && !T::ZST {
            ck!("C14 C13", self.content(self.j) == self.vj, "contents as after the synchronous operation");
        }
    }
}

fn item<B: MutRB<Item = T>, T: Val, const WK: bool>(e: &mut Env<B, T, WK>, r: Option<*const T>) {
    if let (Some(x), false) = (r, T::ZST) {
        ck!("C14 C06 C13", x == e.base.wrapping_add(e.m.idx(e.who)), "the item at the iterator's index");
    }
}
fn window<B: MutRB<Item = T>, T: Val, const WK: bool>(e: &mut Env<B, T, WK>, r: Option<Win<T>>, k: usize) {
    if let Some(x) = r {
        ck!("C14 C13", x.len() == k, "the window has the requested size");
        ck_window(e.base, e.m.n, e.m.idx(e.who), &x, k);
    }
}
fn multiple<B: MutRB<Item = T>, T: Val, const WK: bool>(e: &mut Env<B, T, WK>, r: Option<Win<T>>, rhs: usize) {
    if let Some(x) = r {
        let k = x.len();
        let t = e.m.av(e.who);
        ck!("C14 C13", k > 0 && k <= t && k % rhs == 0 && t - k < rhs, "the greatest multiple available");
        ck_window(e.base, e.m.n, e.m.idx(e.who), &x, k);
    }
}

fn prod<'b, B: MutRB<Item = T>, T: Val, const WK: bool, const MAX: usize>(
    a: &mut AsyncProdIter<'b, B>, e: &mut Env<'b, B, T, WK>, sel: u8, how: &How,
) {
    match sel {
        0 => {
            let v = T::any();
            if drive(&mut a.push(v), e, |m| m.av_p() >= 1, how).is_some() {
                if e.j == e.m.pi {
                    e.vj = v;
                }
                e.m.bump(P, 1);
            }
        }
        1 | 2 => {
            let buf = any_arr::<T, MAX>();
            let k = nd::each(1, MAX);
            let r = if sel == 1 {
                drive(&mut a.push_slice(&buf[..k]), e, |m| k <= m.av_p(), how)
            } else {
                drive(&mut a.push_slice_clone(&buf[..k]), e, |m| k <= m.av_p(), how)
            };
            if r.is_some() {
                let d = dist(e.j, e.m.pi, e.m.n);
                if d < k {
                    e.vj = buf[d];
                }
                e.m.bump(P, k);
            }
        }
        3 => {
            let r = drive(&mut unsafe { a.get_next_item_mut() }, e, |m| m.av_p() >= 1, how);
            item(e, r.map(|x| x as *const T));
        }
        4 => {
            let r = drive(&mut a.get_next_item_mut_init(), e, |m| m.av_p() >= 1, how);
            item(e, r.map(|x| x as *const T));
        }
        5 => {
            let k = nd::usize();
            nd::assume(k >= 1);
            let r = drive(&mut unsafe { a.get_next_slices_mut(k) }, e, |m| k <= m.av_p(), how);
            window(e, r.map(win), k);
        }
        6 => {
            let r = drive(&mut a.get_workable(), e, |m| m.av_p() >= 1, how);
            item(e, r.map(|x| x as *const T));
        }
        7 => {
            let k = nd::usize();
            nd::assume(k >= 1);
            let r = drive(&mut a.get_workable_slice_exact(k), e, |m| k <= m.av_p(), how);
            window(e, r.map(win), k);
        }
        8 => {
            let r = drive(&mut a.get_workable_slice_avail(), e, |m| m.av_p() > 0, how);
            let k = e.m.av_p();
            window(e, r.map(win), k);
        }
        _ => {
            let rhs = nd::split(1, MAX);
            let r = drive(&mut a.get_workable_slice_multiple_of(rhs), e, |m| m.av_p() >= rhs, how);
            multiple(e, r.map(win), rhs);
        }
    }
}

fn cons<'b, B: MutRB<Item = T>, T: Val, const WK: bool, const MAX: usize>(
    a: &mut AsyncConsIter<'b, B, WK>, e: &mut Env<'b, B, T, WK>, sel: u8, how: &How,
) {
    let i = e.m.ci;
    match sel {
        0 | 1 => {
            let r = if sel == 0 {
                drive(&mut a.pop(), e, |m| m.av_c() >= 1, how)
            } else {
                drive(&mut unsafe { a.pop_move() }, e, |m| m.av_c() >= 1, how)
            };
            if let Some(v) = r {
                if e.m.n >= 2 {
                    if e.j == i {
                        ck!("C14 C13 C01", v == e.vj, "the item at the consumer's position");
                        if sel == 1 {
                            e.vj = unsafe { core::mem::zeroed() };
                        }
                    }
                }
                e.m.bump(C, 1);
            }
        }
        2 => {
            let r = drive(&mut a.peek_ref(), e, |m| m.av_c() >= 1, how);
            item(e, r.map(|x| x as *const T));
        }
        3 => {
            let k = nd::usize();
            nd::assume(k >= 1);
            let r = drive(&mut a.peek_slice(k), e, |m| k <= m.av_c(), how);
            window(e, r.map(win_ro), k);
        }
        4 => {
            // the synchronous form hands out an empty window when nothing is available
            let r = drive(&mut a.peek_available(), e, |_| true, how);
            let k = e.m.av_c();
            window(e, r.map(win_ro), k);
        }
        5 | 6 => {
            let d0 = T::any();
            let mut dst = d0;
            let r = if sel == 5 {
                drive(&mut a.copy_item(&mut dst), e, |m| m.av_c() >= 1, how)
            } else {
                drive(&mut a.clone_item(&mut dst), e, |m| m.av_c() >= 1, how)
            };
            if r.is_some() {
                if e.m.n >= 2 && e.j == i {
                    ck!("C14 C13 C01", dst == e.vj, "the item at the consumer's position");
                }
                e.m.bump(C, 1);
            } else {
                ck!("C14 C05", dst == d0, "a pending copy leaves the destination alone");
            }
        }
        7 | 8 => {
            let mut dst = any_arr::<T, MAX>();
            let d0 = dst;
            let k = nd::each(1, MAX);
            let x = nd::each(0, MAX - 1);
            let r = if sel == 7 {
                drive(&mut a.copy_slice(&mut dst[..k]), e, |m| k <= m.av_c(), how)
            } else {
                drive(&mut a.clone_slice(&mut dst[..k]), e, |m| k <= m.av_c(), how)
            };
            if r.is_some() {
                let d = dist(e.j, i, e.m.n);
                if d < k {
                    ck!("C14 C13 C01", dst[d] == e.vj, "the items from the consumer's position on");
                }
                if x >= k {
                    ck!("C14 C13", dst[x] == d0[x], "nothing is written past the destination");
                }
                e.m.bump(C, k);
            } else {
                ck!("C14 C05", dst[x] == d0[x], "a pending copy leaves the destination alone");
            }
        }
        9 => {
            let r = drive(&mut a.get_workable(), e, |m| m.av_c() >= 1, how);
            item(e, r.map(|x| x as *const T));
        }
        10 => {
            let k = nd::usize();
            nd::assume(k >= 1);
            let r = drive(&mut a.get_workable_slice_exact(k), e, |m| k <= m.av_c(), how);
            window(e, r.map(win), k);
        }
        11 => {
            let r = drive(&mut a.get_workable_slice_avail(), e, |m| m.av_c() > 0, how);
            let k = e.m.av_c();
            window(e, r.map(win), k);
        }
        12 => {
            let rhs = nd::split(1, MAX);
            let r = drive(&mut a.get_workable_slice_multiple_of(rhs), e, |m| m.av_c() >= rhs, how);
            multiple(e, r.map(win), rhs);
        }
        _ => {
            a.reset_index();
            e.m.ci = if WK { e.m.wi } else { e.m.pi };
        }
    }
}

// ---- payload of a push future ----------------------------------------------------------------------
mod pay {
    use super::*;
    use crate::own::{all_gone, fresh, l, start, It};
    /// A push future polled `polls` times, then dropped; room appears before one of the polls or never.
    pub fn push(full: bool) {
        start();
        let room_at = nd::split(0, 3);
        let polls = nd::split(0, 3);
        {
            let b = if full { ConcurrentHeapRB::<It>::from(fresh(2)) } else { ConcurrentHeapRB::<It>::from(fresh(3)) };
            let cap = if full { 1 } else { 2 };
            let (mut p, mut c) = b.split();
            let mut i = 0;
            while i < cap {
                ck!("C05 C04", p.push(It::new()).is_ok(), "room for len-1 items");
                i += 1;
            }
            let mut a = AsyncProdIter::from_sync(p);
            let v = It::new();
            let id = v.id();
            let mut done = false;
            {
                let mut f = a.push(v);
                let wa = waker(0);
                let mut cx = Context::from_waker(&wa);
                let mut i = 0;
                while i < polls && !done {
                    if i == room_at {
                        ck!("C01", c.peek_ref().is_some(), "an item is there");
                        unsafe { c.advance(1) };
                    }
                    let r = Pin::new(&mut f).poll(&mut cx);
                    let can = i >= room_at;
                    ck!("C14", r.is_ready() == can, "push resolves on the first poll that finds room");
                    if let Poll::Ready(x) = r {
                        ck!("C14", x.is_some(), "push resolves with its result");
                        done = true;
                    }
                    ck!("C14", l().st[id] == 1, "the value is alive, in the buffer or in the future");
                    i += 1;
                }
            }
            if done {
                ck!("C14", l().st[id] == 1, "the stored value stays alive when the future is dropped");
                // it is the last item in the buffer
                let mut last = 0;
                while let Some(x) = c.peek_ref() {
                    last = x.id();
                    unsafe { c.advance(1) };
                }
                ck!("C14 C01", last == id, "the value was stored");
            } else {
                ck!("C14 C08", l().st[id] == 2, "the value is dropped with the pending future");
                ck!("C14 C05", c.available() == if room_at < polls { cap - 1 } else { cap }, "a push that stayed pending stored nothing");
            }
            drop(a);
            drop(c);
        }
        all_gone();
    }
    /// pop_move futures hand out each value once
    pub fn pop() {
        start();
        {
            let (mut p, c) = unsafe { ConcurrentHeapRB::<It>::new_zeroed(3) }.split();
            let mut a = AsyncConsIter::from_sync(c);
            let give_at = nd::split(0, 2);
            let polls = nd::split(0, 2);
            let wa = waker(0);
            let mut cx = Context::from_waker(&wa);
            let mut i = 0;
            let mut f = unsafe { a.pop_move() };
            let mut id = 0;
            while i < polls {
                if i == give_at {
                    let v = It::new();
                    id = v.id();
                    ck!("C05", p.push_init(v).is_ok(), "room");
                }
                match Pin::new(&mut f).poll(&mut cx) {
                    Poll::Ready(x) => {
                        ck!("C14", i >= give_at && id != 0, "pop resolves only when there is an item");
                        match x {
                            Some(v) => {
                                ck!("C14 C01", v.id() == id, "the item that was pushed");
                            }
                            None => {
                                ck!("C14", false, "pop resolves with an item");
                            }
                        }
                        break;
                    }
                    Poll::Pending => {
                        ck!("C14", i < give_at, "pop resolves on the first poll that finds an item");
                    }
                }
                i += 1;
            }
            drop(f);
            drop(a);
            drop(p);
        }
        all_gone();
    }
}

const TWO: How = How { polls: 2, wakes: false };
fn or_any(n: u64) -> usize {
    if n == 0 {
        any_len::<u8>()
    } else {
        n as usize
    }
}
fn wake(polls: u64) -> How {
    How { polls: polls as usize, wakes: true }
}
crate::hs! {
    as_cw(who, sel) { heap!(w, ConcurrentHeapRB, u8, any_len::<u8>()).asy::<2>(who as u8, sel as u8, TWO) }
    as_cn(who, sel) { heap!(n, ConcurrentHeapRB, u8, any_len::<u8>()).asy::<2>(who as u8, sel as u8, TWO) }
    as_ln(who, sel) { heap!(n, LocalHeapRB, u16, any_len::<u16>()).asy::<2>(who as u8, sel as u8, TWO) }
    aw_cw(who, sel, polls, n) { heap!(w, ConcurrentHeapRB, u8, or_any(n)).asy::<2>(who as u8, sel as u8, wake(polls)) }
    aw_cn(who, sel, polls, n) { heap!(n, ConcurrentHeapRB, u8, or_any(n)).asy::<2>(who as u8, sel as u8, wake(polls)) }
    ap_push(full) { pay::push(full != 0) }
    ap_pop() { pay::pop() }
}
