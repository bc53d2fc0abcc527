//! Reference model of the ring, and single operations checked against it.
use crate::nd;
use crate::{ck, cov};
use mutringbuf::iterators::*;
use mutringbuf::*;

pub trait Val: Copy + Clone + PartialEq {
    fn any() -> Self;
    const ZST: bool = false;
}
impl Val for u8 {
    fn any() -> Self {
        nd::u8()
    }
}
impl Val for u16 {
    fn any() -> Self {
        nd::u16()
    }
}
impl Val for u32 {
    fn any() -> Self {
        nd::u32()
    }
}
impl Val for u64 {
    fn any() -> Self {
        nd::u64()
    }
}
impl Val for () {
    fn any() -> Self {}
    const ZST: bool = true;
}
/// three-byte item (odd size)
#[derive(Copy, Clone, PartialEq)]
pub struct B3(pub u8, pub u8, pub u8);
impl Val for B3 {
    fn any() -> Self {
        B3(nd::u8(), nd::u8(), nd::u8())
    }
}

/// `(a + k) mod n` for `a < n`, `k <= n`
pub fn plus(a: usize, k: usize, n: usize) -> usize {
    let room = n - a;
    if k >= room {
        k - room
    } else {
        a + k
    }
}
/// `(a - b) mod n`
pub fn dist(a: usize, b: usize, n: usize) -> usize {
    if a >= b {
        a - b
    } else {
        n - (b - a)
    }
}

/// amounts are split into one path per value (small fixed lengths) instead of staying symbolic
pub static mut SPLIT: bool = false;
/// any number in `0..=max`
fn amt(max: usize) -> usize {
    if unsafe { SPLIT } {
        nd::split(0, max)
    } else {
        nd::upto(max)
    }
}

/// Reference positions (what each iterator has published; no detached iterator here).
#[derive(Clone, Copy, PartialEq)]
pub struct M {
    pub n: usize,
    pub w: bool,
    pub pi: usize,
    pub wi: usize,
    pub ci: usize,
}
impl M {
    pub fn new(n: usize, w: bool) -> M {
        M { n, w, pi: 0, wi: 0, ci: 0 }
    }
    /// free slots: capacity n-1 minus what is in flight
    pub fn av_p(&self) -> usize {
        self.n - 1 - dist(self.pi, self.ci, self.n)
    }
    pub fn av_w(&self) -> usize {
        dist(self.pi, self.wi, self.n)
    }
    pub fn av_c(&self) -> usize {
        dist(if self.w { self.wi } else { self.pi }, self.ci, self.n)
    }
    pub fn av(&self, who: u8) -> usize {
        match who {
            P => self.av_p(),
            W => self.av_w(),
            _ => self.av_c(),
        }
    }
    pub fn idx(&self, who: u8) -> usize {
        match who {
            P => self.pi,
            W => self.wi,
            _ => self.ci,
        }
    }
    pub fn set(&mut self, who: u8, i: usize) {
        match who {
            P => self.pi = i,
            W => self.wi = i,
            _ => self.ci = i,
        }
    }
    pub fn bump(&mut self, who: u8, k: usize) {
        let i = plus(self.idx(who), k, self.n);
        self.set(who, i);
    }
}

pub const P: u8 = 0;
pub const W: u8 = 1;
pub const C: u8 = 2;

/// A window of slots handed out: head and (without vmem) tail.
#[derive(Clone, Copy)]
pub struct Win<T> {
    pub hp: *mut T,
    pub hl: usize,
    pub tp: *mut T,
    pub tl: usize,
}
#[cfg(not(feature = "vmem"))]
pub fn win<T>(s: (&mut [T], &mut [T])) -> Win<T> {
    Win { hp: s.0.as_mut_ptr(), hl: s.0.len(), tp: s.1.as_mut_ptr(), tl: s.1.len() }
}
#[cfg(not(feature = "vmem"))]
pub fn win_ro<T>(s: (&[T], &[T])) -> Win<T> {
    Win { hp: s.0.as_ptr() as *mut T, hl: s.0.len(), tp: s.1.as_ptr() as *mut T, tl: s.1.len() }
}
#[cfg(feature = "vmem")]
pub fn win<T>(s: &mut [T]) -> Win<T> {
    Win { hp: s.as_mut_ptr(), hl: s.len(), tp: core::ptr::null_mut(), tl: 0 }
}
#[cfg(feature = "vmem")]
pub fn win_ro<T>(s: &[T]) -> Win<T> {
    Win { hp: s.as_ptr() as *mut T, hl: s.len(), tp: core::ptr::null_mut(), tl: 0 }
}
impl<T> Win<T> {
    pub fn len(&self) -> usize {
        self.hl.wrapping_add(self.tl)
    }
    pub fn at(&self, e: usize) -> *mut T {
        if e < self.hl {
            self.hp.wrapping_add(e)
        } else {
            self.tp.wrapping_add(e - self.hl)
        }
    }
}

pub struct Sys<'b, B: MutRB<Item = T>, T: Val, const WK: bool> {
    pub p: ProdIter<'b, B>,
    pub w: Option<WorkIter<'b, B>>,
    pub c: ConsIter<'b, B, WK>,
    pub m: M,
    /// address of slot 0
    pub base: *const T,
    /// witness: an arbitrary slot whose contents are tracked through every operation
    pub j: usize,
    pub vj: T,
}

#[macro_export]
macro_rules! on_iter {
    ($s:expr, $who:expr, $i:ident => $e:expr) => {
        match $who {
            $crate::core::P => {
                let $i = &mut $s.p;
                $e
            }
            $crate::core::W => {
                let $i = $s.w.as_mut().unwrap();
                $e
            }
            _ => {
                let $i = &mut $s.c;
                $e
            }
        }
    };
}
pub use on_iter;

impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    pub fn new(mut p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, n: usize) -> Self {
        // n == 1 has no grantable slot, hence no address to learn
        let base = match p.get_next_item_mut_init() {
            Some(b) => {
                ck!("C01 C04 C05 C06 C18", n >= 2, "one-slot buffer grants nothing");
                b as *const T
            }
            None => {
                ck!("C04 C05 C18 C10", n == 1, "an empty buffer of n >= 2 slots has room");
                core::ptr::null()
            }
        };
        let j = nd::upto(n - 1);
        let mut s = Sys { p, w, c, m: M::new(n, WK), base, j, vj: T::any() };
        if n >= 2 {
            s.vj = s.content(j);
        }
        s
    }
    pub fn av(&self, who: u8) -> usize {
        self.m.av(who)
    }
    pub fn idx(&self, who: u8) -> usize {
        self.m.idx(who)
    }
    pub fn bump(&mut self, who: u8, k: usize) {
        self.m.bump(who, k)
    }
    /// contract-respecting advance
    pub fn adv(&mut self, who: u8, k: usize) {
        unsafe { on_iter!(self, who, i => MRBIterator::advance(i, k)) };
        self.bump(who, k);
    }
    pub fn avail(&mut self, who: u8) -> usize {
        on_iter!(self, who, i => MRBIterator::available(i))
    }
    pub fn ck_avail(&mut self, who: u8) {
        let a = self.avail(who);
        let t = self.av(who);
        ck!("C01 C04 C05 C11 C12 C18", a <= t, "available() never exceeds the true distance");
        ck!("C04 C05 C10 C11 C12 C18", a >= t, "available() equals the true distance when nothing else runs");
    }
    pub fn content(&self, i: usize) -> T {
        unsafe { core::ptr::read_volatile(self.base.add(i)) }
    }
    fn maybe_avail(&mut self, who: u8) {
        if amt(1) != 0 {
            let _ = self.avail(who);
        }
    }
    fn some_adv(&mut self, who: u8) {
        let k = amt(self.av(who));
        self.adv(who, k);
    }

    /// Arbitrary reachable state: arbitrary common offset, arbitrary fill of every stage and arbitrary
    /// remembered availability of every iterator, reached by public calls only.
    pub fn arbitrary(&mut self, rounds: usize) {
        let n = self.m.n;
        self.rot(nd::upto(n - 1));
        self.maybe_avail(P);
        self.rot(nd::upto(n - 1));
        for _ in 0..rounds {
            self.round();
        }
    }
    /// As `arbitrary(1)`, with every remembered availability possibly older than the last moves ahead.
    pub fn arbitrary_stale(&mut self) {
        let n = self.m.n;
        self.rot(nd::upto(n - 1));
        self.maybe_avail(P);
        self.rot(nd::upto(n - 1));
        self.some_adv(P);
        if WK {
            self.maybe_avail(W);
            self.some_adv(P);
            self.some_adv(W);
        }
        self.maybe_avail(C);
        self.some_adv(if WK { W } else { P });
        self.some_adv(C);
    }
    /// Arbitrary state with an arbitrary remembered availability of iterator `who` only.
    pub fn arbitrary_for(&mut self, who: u8) {
        let n = self.m.n;
        self.rot(amt(n - 1));
        self.some_adv(P);
        if who == P {
            self.maybe_avail(P);
        }
        if WK {
            if who == W {
                self.maybe_avail(W);
                self.some_adv(P);
            }
            self.some_adv(W);
        }
        if who == C {
            self.maybe_avail(C);
            self.some_adv(if WK { W } else { P });
        }
        self.some_adv(C);
    }
    /// move every stage forward by `a` (buffer empty before and after)
    pub fn rot(&mut self, a: usize) {
        self.adv(P, a);
        if WK {
            self.adv(W, a);
        }
        self.adv(C, a);
    }
    fn round(&mut self) {
        self.maybe_avail(P);
        self.some_adv(P);
        if WK {
            self.maybe_avail(W);
            self.some_adv(W);
        }
        self.maybe_avail(C);
        self.some_adv(C);
    }

    /// Indices and contents agree with the model.
    pub fn ck_state(&self) {
        let m = &self.m;
        ck!("C01 C04 C05 C06 C11 C12 C18", self.p.index() == m.pi, "producer index as in the model");
        ck!("C01 C04 C05 C06 C11 C12 C18", self.c.index() == m.ci, "consumer index as in the model");
        ck!("C01 C04 C05 C06 C10 C11 C12 C18", self.c.prod_index() == m.pi, "published producer position");
        ck!("C01 C04 C05 C06 C10 C11 C12 C18", self.p.cons_index() == m.ci, "published consumer position");
        if WK {
            ck!("C01 C04 C05 C06 C11 C12 C18", self.w.as_ref().unwrap().index() == m.wi, "worker index as in the model");
            ck!("C01 C04 C05 C06 C10 C11 C12 C18", self.p.work_index() == m.wi, "published worker position");
        }
        if m.n >= 2 && !T::ZST {
            ck!("C01 C05 C06", self.content(self.j) == self.vj, "slot contents as in the model");
            #[cfg(feature = "vmem")]
            ck!("C01 C06 C17", self.content(m.n + self.j) == self.vj, "the same contents one buffer length further");
        }
    }
    /// An arbitrary request for k slots straight away (no availability query in between) succeeds exactly
    /// when k slots are there.
    pub fn probe(&mut self, who: u8, k: usize) {
        let t = self.av(who);
        let r = on_iter!(self, who, i => i.get_workable_slice_exact(k).is_some());
        ck!("C01 C04 C05 C11 C12 C18", !r || k <= t, "no grant beyond the iterator ahead");
        ck!("C05 C10 C11 C12 C18", r || k > t, "request for what is available succeeds");
    }
    pub fn any_who(&self) -> u8 {
        let who = nd::each(0, if WK { 2 } else { 1 }) as u8;
        if !WK && who == 1 {
            C
        } else {
            who
        }
    }
    /// `probe` for any iterator and any count, then all availabilities.
    pub fn settle(&mut self) {
        let who = self.any_who();
        let k = nd::usize();
        self.probe(who, k);
        self.ck_state();
        self.ck_avails();
    }
    pub fn ck_avails(&mut self) {
        let a = self.avail(P);
        let b = if WK { self.avail(W) } else { 0 };
        let c = self.avail(C);
        ck!("C04 C05 C11 C12 C18", a == self.m.av_p(), "producer availability");
        ck!("C04 C05 C11 C12 C18", b == if WK { self.m.av_w() } else { 0 }, "worker availability");
        ck!("C01 C04 C05 C11 C12 C18", c == self.m.av_c(), "consumer availability");
        ck!("C04 C18", a.wrapping_add(b).wrapping_add(c) == self.m.n - 1, "availabilities sum to len-1");
    }

    /// A window of k slots at the iterator's index.
    pub fn ck_win(&self, who: u8, x: &Win<T>, k: usize) {
        ck_window(self.base, self.m.n, self.idx(who), x, k);
    }

    // ---- operations -------------------------------------------------------------------------------

    /// grant bookkeeping common to every request for k >= 1 slots
    fn ck_grant(&self, who: u8, k: usize, ok: bool) {
        let t = self.av(who);
        ck!("C01 C04 C05 C06 C11", !ok || k <= t, "request granted only when the slots are there");
        ck!("C04 C05 C10", ok || k > t, "request for what is available is granted");
        cov!(ok, "granted");
        cov!(!ok, "refused");
    }
    /// witness slot as seen by a window of k slots at index i: offset into the window
    pub fn off(&self, i: usize, k: usize) -> Option<usize> {
        let d = dist(self.j, i, self.m.n);
        if d < k {
            Some(d)
        } else {
            None
        }
    }

    pub fn op_push(&mut self, init: bool) {
        let v = T::any();
        let r = if init { self.p.push_init(v) } else { self.p.push(v) };
        self.ck_grant(P, 1, r.is_ok());
        match r {
            Ok(()) => {
                if self.j == self.m.pi {
                    self.vj = v;
                }
                self.bump(P, 1);
            }
            Err(x) => {
                ck!("C05", x == v, "a refused push hands the value back");
            }
        }
    }

    pub fn op_push_slice<const MAX: usize>(&mut self, form: u8) {
        let buf = any_arr::<T, MAX>();
        let k = nd::each(0, MAX);
        let s = &buf[..k];
        let r = match form {
            0 => self.p.push_slice(s),
            1 => self.p.push_slice_init(s),
            2 => self.p.push_slice_clone(s),
            _ => self.p.push_slice_clone_init(s),
        };
        if k > 0 {
            self.ck_grant(P, k, r.is_some());
        }
        if r.is_some() {
            if let Some(d) = self.off(self.m.pi, k) {
                self.vj = buf[d];
            }
            self.bump(P, k);
        }
    }

    /// slices of any length (u8 items only)
    pub fn op_push_any(&mut self, init: bool) {
        let k = nd::len(crate::seq::MAX_BYTES);
        let buf = any_vec::<T>(k);
        let r = if init { self.p.push_slice_init(&buf) } else { self.p.push_slice(&buf) };
        if k > 0 {
            self.ck_grant(P, k, r.is_some());
        }
        if r.is_some() {
            if let Some(d) = self.off(self.m.pi, k) {
                self.vj = buf[d];
            }
            self.bump(P, k);
        }
        core::mem::forget(buf);
    }
    pub fn op_copy_any(&mut self) {
        let t = self.m.av_c();
        let i = self.m.ci;
        let n = self.m.n;
        let k = nd::len(crate::seq::MAX_BYTES);
        let mut dst = any_vec::<T>(k);
        let e = nd::usize();
        nd::assume(e < k);
        let want = if n >= 2 && e < n { self.content(plus(i, e, n)) } else { T::any() };
        let d0 = dst[e];
        let r = self.c.copy_slice(&mut dst);
        self.ck_grant(C, k, r.is_some());
        if r.is_some() {
            if k <= t {
                ck!("C01 C06", dst[e] == want, "element e of the copy is ring position (index+e) mod len");
            }
            self.bump(C, k);
        } else {
            ck!("C05", dst[e] == d0, "a refused copy leaves the destination alone");
        }
        core::mem::forget(dst);
    }

    /// item getters: write through the reference, advance or not
    pub fn op_item_mut(&mut self, who: u8, form: u8) {
        let r: Option<*mut T> = match (who, form) {
            (P, 1) => unsafe { self.p.get_next_item_mut().map(|x| x as *mut T) },
            (P, 2) => self.p.get_next_item_mut_init(),
            _ => on_iter!(self, who, i => i.get_workable().map(|x| x as *mut T)),
        };
        self.ck_grant(who, 1, r.is_some());
        if let Some(x) = r {
            let i = self.idx(who);
            if !T::ZST {
                ck!("C01 C03 C06", x as *const T == self.base.wrapping_add(i), "the item handed out is the one at the iterator's index");
            }
            let v = T::any();
            unsafe { *x = v };
            if self.j == i {
                self.vj = v;
            }
            if nd::bool() {
                self.adv(who, 1);
            }
        }
    }

    /// mutable slice getters; form 0 exact, 1 avail, 2 multiple_of, 3 get_next_slices_mut (producer only)
    pub fn op_slice_mut(&mut self, who: u8, form: u8, rhs_max: usize) {
        let t = self.av(who);
        let (k, r) = match form {
            0 => {
                let k = nd::usize();
                (k, on_iter!(self, who, i => i.get_workable_slice_exact(k)))
            }
            1 => (t, on_iter!(self, who, i => i.get_workable_slice_avail())),
            2 => return self.op_multiple_of(who, rhs_max),
            _ => {
                let k = nd::usize();
                (k, unsafe { self.p.get_next_slices_mut(k) })
            }
        };
        if k > 0 {
            self.ck_grant(who, k, r.is_some());
        } else if form == 1 {
            ck!("C05", r.is_none(), "nothing available: the avail getter refuses");
        }
        if let Some(x) = r.map(win) {
            self.ck_win(who, &x, k);
            self.poke(who, &x, k);
            let a = nd::usize();
            if a <= k && a <= t {
                self.adv(who, a);
            }
        }
    }
    fn op_multiple_of(&mut self, who: u8, rhs_max: usize) {
        let t = self.av(who);
        let rhs = nd::split(1, rhs_max);
        match on_iter!(self, who, i => i.get_workable_slice_multiple_of(rhs)).map(win) {
            None => {
                ck!("C05 C10", t < rhs, "the multiple_of getter refuses only when fewer than rhs slots are there");
            }
            Some(x) => {
                let k = x.len();
                ck!("C01 C04 C05 C06 C11", k <= t, "no more slots than available are granted");
                ck!("C05", k > 0, "no empty grant");
                ck!("C05", k % rhs == 0, "the grant is a multiple of rhs");
                ck!("C05", t - k < rhs, "the grant is the greatest multiple of rhs available");
                self.ck_win(who, &x, k);
                self.poke(who, &x, k);
                let a = nd::usize();
                if a <= k && a <= t {
                    self.adv(who, a);
                }
            }
        }
    }
    /// write through one arbitrary element of the window
    fn poke(&mut self, who: u8, x: &Win<T>, k: usize) {
        if k > 0 && x.len() == k && k <= self.m.n {
            let i = self.idx(who);
            let e = nd::upto(k - 1);
            let v = T::any();
            unsafe { *x.at(e) = v };
            if self.off(i, k) == Some(e) {
                self.vj = v;
            }
        }
    }

    /// consumer operations on one item: 0 pop, 1 pop_move, 2 peek_ref(+advance), 3 copy_item, 4 clone_item
    pub fn op_take_item(&mut self, form: u8) {
        let t = self.m.av_c();
        let i = self.m.ci;
        let front = if self.m.n >= 2 { self.content(i) } else { T::any() };
        let d0 = T::any();
        let mut dst = d0;
        let mut moved = 1;
        let r: Option<T> = match form {
            0 => self.c.pop(),
            1 => unsafe { self.c.pop_move() },
            2 => {
                let r = self.c.peek_ref();
                moved = 0;
                match r {
                    Some(x) => {
                        if !T::ZST {
                            ck!("C01 C06", x as *const T == self.base.wrapping_add(i), "peek_ref is the slot at the consumer's index");
                        }
                        Some(*x)
                    }
                    None => None,
                }
            }
            3 => match self.c.copy_item(&mut dst) {
                Some(_) => Some(dst),
                None => None,
            },
            _ => match self.c.clone_item(&mut dst) {
                Some(_) => Some(dst),
                None => None,
            },
        };
        self.ck_grant(C, 1, r.is_some());
        match r {
            Some(v) => {
                if t >= 1 {
                    ck!("C01 C06", v == front, "the consumer gets the item at its position");
                }
                if form == 1 && self.j == i {
                    // the vacated slot holds the crate's "empty" representation
                    self.vj = unsafe { core::mem::zeroed() };
                }
                self.bump(C, moved);
                if form == 2 && nd::bool() {
                    self.adv(C, 1);
                }
            }
            None => {
                ck!("C05", dst == d0, "a refused copy leaves the destination alone");
            }
        }
    }

    /// consumer slice reads: 0 peek_slice, 1 peek_available, 2 copy_slice, 3 clone_slice
    pub fn op_take_slice<const MAX: usize>(&mut self, form: u8) {
        let t = self.m.av_c();
        let i = self.m.ci;
        let n = self.m.n;
        if form <= 1 {
            let (k, r) = if form == 0 {
                let k = nd::usize();
                (k, self.c.peek_slice(k))
            } else {
                (t, self.c.peek_available())
            };
            if k > 0 {
                self.ck_grant(C, k, r.is_some());
            }
            if let Some(x) = r.map(win_ro) {
                self.ck_win(C, &x, k);
                let a = nd::usize();
                if a <= k && a <= t {
                    self.adv(C, a);
                }
            }
        } else {
            let mut dst = any_arr::<T, MAX>();
            let d0 = dst;
            let k = nd::each(0, MAX);
            let e = nd::each(0, MAX - 1);
            // the element that ring position (index + e) holds
            let want = if n >= 2 && e < n { self.content(plus(i, e, n)) } else { T::any() };
            let r = if form == 2 { self.c.copy_slice(&mut dst[..k]) } else { self.c.clone_slice(&mut dst[..k]) };
            if k > 0 {
                self.ck_grant(C, k, r.is_some());
            }
            if r.is_some() {
                if e < k && k <= t {
                    ck!("C01 C06", dst[e] == want, "element e of the copy is ring position (index+e) mod len");
                }
                if e >= k {
                    ck!("C01 C06", dst[e] == d0[e], "nothing is written past the destination");
                }
                self.bump(C, k);
            } else {
                ck!("C05", dst[e] == d0[e], "a refused copy leaves the destination alone");
            }
        }
    }

    pub fn op_reset(&mut self, who: u8) {
        if who == W {
            self.w.as_mut().unwrap().reset_index();
            self.m.wi = self.m.pi;
        } else {
            self.c.reset_index();
            self.m.ci = if WK { self.m.wi } else { self.m.pi };
        }
    }
    pub fn op_advance(&mut self, who: u8) {
        let k = nd::usize();
        nd::assume(k <= self.av(who));
        self.adv(who, k);
    }

    pub fn prod_op<const MAX: usize>(&mut self, sel: u8) {
        match sel {
            0 => self.op_push(false),
            1 => self.op_push(true),
            2 => self.op_push_slice::<MAX>(0),
            3 => self.op_push_slice::<MAX>(1),
            4 => self.op_push_slice::<MAX>(2),
            5 => self.op_push_slice::<MAX>(3),
            6 => self.op_item_mut(P, 0),
            7 => self.op_item_mut(P, 1),
            8 => self.op_item_mut(P, 2),
            9 => self.op_slice_mut(P, 0, 0),
            10 => self.op_slice_mut(P, 1, 0),
            11 => self.op_slice_mut(P, 2, MAX),
            12 => self.op_slice_mut(P, 3, 0),
            13 => self.op_advance(P),
            15 => self.op_push_any(false),
            16 => self.op_push_any(true),
            _ => self.ck_avail(P),
        }
    }
    pub fn work_op<const MAX: usize>(&mut self, sel: u8) {
        match sel {
            0 => self.op_item_mut(W, 0),
            1 => self.op_slice_mut(W, 0, 0),
            2 => self.op_slice_mut(W, 1, 0),
            3 => self.op_slice_mut(W, 2, MAX),
            4 => self.op_reset(W),
            5 => self.op_advance(W),
            _ => self.ck_avail(W),
        }
    }
    pub fn cons_op<const MAX: usize>(&mut self, sel: u8) {
        match sel {
            0..=4 => self.op_take_item(sel),
            5..=8 => self.op_take_slice::<MAX>(sel - 5),
            9 => self.op_item_mut(C, 0),
            10 => self.op_slice_mut(C, 0, 0),
            11 => self.op_slice_mut(C, 1, 0),
            12 => self.op_slice_mut(C, 2, MAX),
            13 => self.op_reset(C),
            14 => self.op_advance(C),
            16 => self.op_copy_any(),
            _ => self.ck_avail(C),
        }
    }

    /// One arbitrary operation from an arbitrary state, then everything is looked at.
    pub fn one<const MAX: usize>(mut self, rounds: usize, who: u8, sel: u8) {
        match rounds {
            0 => self.arbitrary_stale(),
            9 => {
                unsafe { SPLIT = true };
                self.arbitrary_for(who);
                unsafe { SPLIT = false };
            }
            r => self.arbitrary(r),
        }
        match who {
            P => self.prod_op::<MAX>(sel),
            W => self.work_op::<MAX>(sel),
            _ => self.cons_op::<MAX>(sel),
        }
        self.settle();
        self.leak();
    }

    pub fn leak(self) {
        core::mem::forget(self);
    }
}

pub fn ck_window<T: Val>(base: *const T, n: usize, i: usize, x: &Win<T>, k: usize) {
    ck!("C01 C03 C06", x.hl <= k && x.tl == k - x.hl, "the window covers exactly the requested count");
    #[cfg(not(feature = "vmem"))]
    {
        ck!("C01 C03 C06", x.hl <= n - i, "the head stays inside the buffer");
        if k > 0 {
            ck!("C06", x.hl == if k < n - i { k } else { n - i }, "the head reaches up to the physical end");
        }
        cov!(x.tl > 0, "wrapped window");
    }
    if k > 0 && k <= n && !T::ZST {
        let e = nd::upto(k - 1);
        #[cfg(not(feature = "vmem"))]
        ck!("C01 C03 C06", x.at(e) as *const T == base.wrapping_add(plus(i, e, n)), "element e is ring position (index+e) mod len");
        #[cfg(feature = "vmem")]
        ck!("C01 C03 C06 C17", x.at(e) as *const T == base.wrapping_add(i).wrapping_add(e), "element e is ring position (index+e), in the mirror beyond the end");
    }
}

pub fn any_arr<T: Val, const N: usize>() -> [T; N] {
    let mut a = [T::any(); N];
    let mut i = 1;
    while i < N {
        a[i] = T::any();
        i += 1;
    }
    a
}

/// Heap items: `n` arbitrary items of type T.
pub fn any_vec<T: Val>(n: usize) -> Vec<T> {
    if T::ZST {
        return unsafe { Vec::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n, n) };
    }
    let p = nd::array(n * core::mem::size_of::<T>(), core::mem::align_of::<T>());
    unsafe { Vec::from_raw_parts(p as *mut T, n, n) }
}

/// As `any_vec` for a small concrete `n`.
pub fn some_vec<T: Val>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(T::any());
        i += 1;
    }
    v
}
