//! Ownership: every value is recorded in a ledger; empty slots must never be touched as values.
use crate::core::{dist, plus, C, P, W};
use crate::nd;
use crate::ck;
use mutringbuf::iterators::*;
use mutringbuf::*;

const MAXID: usize = 40;
pub struct Ledger {
    pub st: [u8; MAXID], // 0 never made, 1 alive, 2 destroyed
    pub src: [u8; MAXID],
    next: usize,
    mask: u64,
}
pub static mut L: Ledger = Ledger { st: [0; MAXID], src: [0; MAXID], next: 1, mask: 0 };
#[allow(static_mut_refs)]
pub fn l() -> &'static mut Ledger {
    unsafe { &mut *core::ptr::addr_of_mut!(L) }
}

impl Ledger {
    pub fn next_id(&self) -> usize {
        self.next
    }
}

/// An item with a destructor; its bytes are `number ^ mask` with an arbitrary mask that makes no value all-zero.
#[repr(transparent)]
pub struct It(u64);
impl It {
    pub fn made(src: usize) -> It {
        let g = l();
        let id = g.next;
        g.next += 1;
        g.st[id] = 1;
        g.src[id] = src as u8;
        It((id as u64) ^ g.mask)
    }
    pub fn new() -> It {
        It::made(0)
    }
    /// number of a value, checked to be one
    pub fn id(&self) -> usize {
        let g = l();
        let id = self.0 ^ g.mask;
        ck!("C01 C08 C09 C14 C17 C18", self.0 != 0, "an empty slot is used as a value");
        ck!("C01 C08 C09 C14 C17 C18", id < g.next as u64, "what is used as a value is one");
        id as usize
    }
}
impl Drop for It {
    fn drop(&mut self) {
        ck!("C08 C09 C14 C17 C18", self.0 != 0, "an empty slot is never dropped");
        let id = self.id();
        ck!("C08 C09 C14 C17 C18", l().st[id] == 1, "no value is destroyed twice");
        l().st[id] = 2;
    }
}
impl Clone for It {
    fn clone(&self) -> It {
        let id = self.id();
        ck!("C08 C09", l().st[id] == 1, "only a live value is cloned");
        It::made(id)
    }
}
impl Default for It {
    fn default() -> It {
        It::new()
    }
}
pub fn start() {
    let m = nd::u64();
    nd::assume(m >= MAXID as u64);
    l().mask = m;
}
/// everything made has been destroyed exactly once
pub fn all_gone() {
    let g = l();
    let mut i = 1;
    while i < g.next {
        ck!("C08 C09 C14 C17 C18 C07", g.st[i] == 2, "every value is destroyed in the end");
        i += 1;
    }
}

pub struct Own<'b, B: MutRB<Item = It>, const WK: bool, const N: usize> {
    p: ProdIter<'b, B>,
    w: Option<WorkIter<'b, B>>,
    c: ConsIter<'b, B, WK>,
    base: *const It,
    /// number of the value in each slot, 0 = empty
    slot: [usize; N],
    pi: usize,
    wi: usize,
    ci: usize,
}

impl<'b, B: MutRB<Item = It>, const WK: bool, const N: usize> Own<'b, B, WK, N> {
    pub fn new(mut p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, full: bool) -> Self {
        let base = p.get_next_item_mut_init().map_or(core::ptr::null(), |x| x as *const It);
        let mut slot = [0; N];
        if full {
            let mut i = 0;
            while i < N {
                slot[i] = i + 1;
                i += 1;
            }
        }
        let mut s = Own { p, w, c, base, slot, pi: 0, wi: 0, ci: 0 };
        s.ck();
        s
    }
    fn av(&self, who: u8) -> usize {
        match who {
            P => N - 1 - dist(self.pi, self.ci, N),
            W => dist(self.pi, self.wi, N),
            _ => dist(if WK { self.wi } else { self.pi }, self.ci, N),
        }
    }
    /// slots hold what they should, and none of it has been destroyed
    fn ck(&mut self) {
        if N < 2 {
            return;
        }
        let mut j = 0;
        while j < N {
            let id = self.slot[j];
            if id != 0 {
                let x = unsafe { &*self.base.add(j) };
                ck!("C01 C08 C09", x.id() == id, "the slot holds the value put there");
                ck!("C08 C09", l().st[id] == 1, "a value in the buffer has not been destroyed");
            }
            j += 1;
        }
    }
    fn put(&mut self, id: usize) {
        let old = self.slot[self.pi];
        if old != 0 {
            ck!("C08 C09", l().st[old] == 2, "the overwritten value is destroyed at once");
        }
        self.slot[self.pi] = id;
        self.pi = plus(self.pi, 1, N);
    }
    /// the next k slots hold values, so that plain pushes may be used
    fn occupied(&self, k: usize) -> bool {
        let mut i = 0;
        while i < k {
            if self.slot[plus(self.pi, i, N)] == 0 {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn push(&mut self, init: bool) {
        if !init && self.av(P) > 0 {
            nd::assume(self.occupied(1));
        }
        let v = It::new();
        let id = v.id();
        let t = self.av(P);
        let r = if init { self.p.push_init(v) } else { self.p.push(v) };
        match r {
            Ok(()) => {
                ck!("C05 C08", t > 0, "push into a full buffer");
                self.put(id);
            }
            Err(x) => {
                ck!("C05 C08", x.id() == id && l().st[id] == 1, "a refused value is handed back alive");
                drop(x);
            }
        }
    }
    pub fn push_slice(&mut self, init: bool, k: usize) {
        let t = self.av(P);
        if !init && k <= t {
            nd::assume(self.occupied(k));
        }
        let vs = [It::new(), It::new()];
        let n0 = l().next;
        let r = if init { self.p.push_slice_clone_init(&vs[..k]) } else { self.p.push_slice_clone(&vs[..k]) };
        if r.is_some() {
            ck!("C08 C09", l().next == n0 + k, "one clone per element");
            let mut i = 0;
            while i < k {
                ck!("C01 C08 C09", l().src[n0 + i] as usize == vs[i].id(), "elements are cloned in order");
                self.put(n0 + i);
                i += 1;
            }
        } else {
            ck!("C05 C08", l().next == n0, "a refused slice is not cloned");
        }
    }
    /// raw pointer form: write into empty slots, replace values
    pub fn push_raw(&mut self) {
        if let Some(x) = self.p.get_next_item_mut_init() {
            let v = It::new();
            let id = v.id();
            unsafe {
                if self.slot[self.pi] == 0 {
                    x.write(v);
                } else {
                    *x = v;
                }
                self.p.advance(1);
            }
            self.put(id);
        }
    }
    pub fn work(&mut self, edit: bool) {
        let w = self.w.as_mut().unwrap();
        if let Some(x) = w.get_workable() {
            if edit {
                let v = It::new();
                let id = v.id();
                *x = v;
                let old = self.slot[self.wi];
                ck!("C08", l().st[old] == 2, "the edited value is destroyed");
                self.slot[self.wi] = id;
            }
            unsafe { w.advance(1) };
            self.wi = plus(self.wi, 1, N);
        }
    }
    pub fn take(&mut self, form: u8) {
        let t = self.av(C);
        let id = self.slot[self.ci];
        match form {
            0 => match unsafe { self.c.pop_move() } {
                Some(v) => {
                    ck!("C01 C08 C09", t > 0 && v.id() == id, "pop_move hands out the value");
                    ck!("C08 C09", l().st[id] == 1, "the value handed out is alive");
                    drop(v);
                    self.slot[self.ci] = 0;
                    self.ci = plus(self.ci, 1, N);
                }
                None => {
                    ck!("C05", t == 0, "pop_move refuses only when there is nothing");
                }
            },
            1 => {
                if let Some(v) = self.c.peek_ref() {
                    ck!("C01 C08 C09", t > 0 && v.id() == id, "peek_ref shows the value");
                    unsafe { self.c.advance(1) };
                    self.ci = plus(self.ci, 1, N);
                }
            }
            2 => {
                let mut d = It::new();
                let d0 = d.id();
                if self.c.clone_item(&mut d).is_some() {
                    ck!("C01 C08 C09", t > 0 && l().src[d.id()] as usize == id, "clone_item clones the value");
                    ck!("C08", l().st[d0] == 2, "the destination's old value is destroyed");
                    self.ci = plus(self.ci, 1, N);
                }
            }
            3 => {
                let mut d = [It::new(), It::new()];
                if self.c.clone_slice(&mut d).is_some() {
                    ck!("C01 C08 C09", t > 1 && l().src[d[0].id()] as usize == id, "clone_slice clones the values");
                    ck!("C01 C08 C09", l().src[d[1].id()] as usize == self.slot[plus(self.ci, 1, N)], "clone_slice clones the values");
                    self.ci = plus(self.ci, 2, N);
                }
            }
            4 => {
                self.c.reset_index();
                self.ci = if WK { self.wi } else { self.pi };
            }
            _ => {
                // replace in place
                if let Some(x) = self.c.get_workable() {
                    let v = It::new();
                    let nid = v.id();
                    *x = v;
                    ck!("C08", l().st[id] == 2, "the replaced value is destroyed");
                    self.slot[self.ci] = nid;
                }
            }
        }
    }
    pub fn op(&mut self, sel: u8) {
        match sel {
            0 => self.push(false),
            1 => self.push(true),
            2 => {
                let k = nd::split(0, 2);
                self.push_slice(false, k)
            }
            3 => {
                let k = nd::split(0, 2);
                self.push_slice(true, k)
            }
            4 => self.push_raw(),
            5 => {
                if WK {
                    self.work(true)
                }
            }
            6 => {
                if WK {
                    self.work(false)
                }
            }
            7 => self.take(0),
            8 => self.take(1),
            9 => self.take(2),
            10 => self.take(3),
            11 => self.take(4),
            _ => self.take(5),
        }
        self.ck();
    }
    /// a few pushes and removals: any offset, any fill, any pattern of empty slots
    pub fn round(&mut self) {
        let a = nd::split(0, self.av(P));
        let mut i = 0;
        while i < a {
            self.push(true);
            i += 1;
        }
        if WK {
            let b = nd::split(0, self.av(W));
            let mut i = 0;
            while i < b {
                self.work(false);
                i += 1;
            }
        }
        let b = nd::split(0, self.av(C));
        let mut i = 0;
        while i < b {
            if nd::split(0, 1) == 1 {
                self.take(0);
            } else {
                self.take(1);
            }
            i += 1;
        }
    }
    pub fn done(self, order: usize) {
        let Own { p, w, c, .. } = self;
        match order {
            0 => {
                drop(p);
                drop(w);
                drop(c);
            }
            1 => {
                drop(c);
                drop(p);
                drop(w);
            }
            _ => {
                drop(w);
                drop(c);
                drop(p);
            }
        }
    }
    pub fn one(mut self, rounds: u64, sel: u64) {
        let mut i = 0;
        while i < rounds {
            self.round();
            i += 1;
        }
        self.ck();
        if sel < 100 {
            self.op(sel as u8);
        } else {
            self.op((sel % 100) as u8);
            self.op((sel / 100 - 1) as u8);
        }
        let o = nd::split(0, 2);
        self.done(o);
    }
}

pub fn fresh(n: usize) -> Vec<It> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(It::new());
        i += 1;
    }
    v
}
pub fn fresh_arr<const N: usize>() -> [It; N] {
    core::array::from_fn(|_| It::new())
}

/// Items of other sizes: any non-zero representation counts as a value.
pub struct Big<const K: usize>([u8; K]);
pub static mut DROPS: usize = 0;
impl<const K: usize> Drop for Big<K> {
    fn drop(&mut self) {
        let mut z = 0;
        let mut i = 0;
        while i < K {
            z |= self.0[i];
            i += 1;
        }
        ck!("C08 C09", z != 0, "an empty slot is never dropped");
        unsafe { DROPS += 1 };
    }
}
impl<const K: usize> Big<K> {
    fn any() -> Self {
        let mut b = [0; K];
        let mut z = 0;
        let mut i = 0;
        while i < K {
            b[i] = nd::u8();
            z |= b[i];
            i += 1;
        }
        nd::assume(z != 0);
        Big(b)
    }
}
fn drops() -> usize {
    unsafe { core::ptr::addr_of!(DROPS).read() }
}
fn big<const K: usize>() {
    let (mut p, mut c) = unsafe { ConcurrentHeapRB::<Big<K>>::new_zeroed(2) }.split();
    let j = nd::split(0, 3);
    ck!("C09 C08", p.push_init(Big::any()).is_ok() && drops() == 0, "nothing dropped when storing into an empty slot");
    if j & 1 == 0 {
        unsafe { c.advance(1) };
    } else {
        match unsafe { c.pop_move() } {
            Some(v) => {
                ck!("C09 C08", drops() == 0, "moving out drops nothing");
                core::mem::forget(v)
            }
            None => {
                ck!("C01 C08", false, "an item is there");
            }
        }
    }
    ck!("C09 C08", p.push_init(Big::any()).is_ok(), "room");
    ck!("C09 C08", drops() == 0, "second slot was empty");
    unsafe { c.advance(1) };
    let x = Big::<K>::any();
    if j & 2 == 0 {
        ck!("C09 C08", p.push_init(x).is_ok(), "room");
    } else {
        match p.get_next_item_mut_init() {
            Some(s) => unsafe {
                if UnsafeSyncCell::check_zeroed(s as *const Big<K>) {
                    s.write(x)
                } else {
                    *s = x
                }
                p.advance(1);
            },
            None => {
                ck!("C05", false, "room");
            }
        }
    }
    ck!("C09 C08", drops() == (j & 1 == 0) as usize, "a value is replaced with one drop, an empty slot without");
    drop(p);
    drop(c);
    ck!("C09 C08", drops() == 2 + (j & 1 == 0) as usize, "releasing the buffer drops the values and skips the empty slots");
}

macro_rules! own_heap {
    (w, $B:ident, $n:literal, $full:expr, $r:expr, $sel:expr) => {{
        let b = if $full { $B::<It>::from(fresh($n)) } else { unsafe { $B::<It>::new_zeroed($n) } };
        let (p, w, c) = b.split_mut();
        Own::<_, true, $n>::new(p, Some(w), c, $full).one($r, $sel);
        all_gone();
    }};
    (n, $B:ident, $n:literal, $full:expr, $r:expr, $sel:expr) => {{
        let b = if $full { $B::<It>::from(fresh($n)) } else { unsafe { $B::<It>::new_zeroed($n) } };
        let (p, c) = b.split();
        Own::<_, false, $n>::new(p, None, c, $full).one($r, $sel);
        all_gone();
    }};
}
macro_rules! own_stack {
    (w, $B:ident, $n:literal, $full:expr, $r:expr, $sel:expr) => {{
        {
            let mut b = if $full { $B::<It, $n>::from(fresh_arr::<$n>()) } else { unsafe { $B::<It, $n>::new_zeroed() } };
            let (p, w, c) = b.split_mut();
            Own::<_, true, $n>::new(p, Some(w), c, $full).one($r, $sel);
        }
        all_gone();
    }};
    (n, $B:ident, $n:literal, $full:expr, $r:expr, $sel:expr) => {{
        {
            let mut b = if $full { $B::<It, $n>::from(fresh_arr::<$n>()) } else { unsafe { $B::<It, $n>::new_zeroed() } };
            let (p, c) = b.split();
            Own::<_, false, $n>::new(p, None, c, $full).one($r, $sel);
        }
        all_gone();
    }};
}
// kind 1: starts with values, 0: starts empty (new_zeroed)
crate::hs! {
    ow_big(k) {
        match k {
            1 => big::<1>(),
            2 => big::<2>(),
            3 => big::<3>(),
            9 => big::<9>(),
            16 => big::<16>(),
            _ => big::<24>(),
        }
    }
    ow_ch(n, kind, rounds, sel) {
        start();
        let f = kind & 1 == 1;
        match n {
            1 => own_heap!(n, ConcurrentHeapRB, 1, f, rounds, sel),
            2 => own_heap!(n, ConcurrentHeapRB, 2, f, rounds, sel),
            3 => own_heap!(n, ConcurrentHeapRB, 3, f, rounds, sel),
            _ => own_heap!(n, ConcurrentHeapRB, 4, f, rounds, sel),
        }
    }
    ow_lw(n, kind, rounds, sel) {
        start();
        let f = kind & 1 == 1;
        match n {
            2 => own_heap!(w, LocalHeapRB, 2, f, rounds, sel),
            3 => own_heap!(w, LocalHeapRB, 3, f, rounds, sel),
            _ => own_heap!(w, LocalHeapRB, 4, f, rounds, sel),
        }
    }
    #[cfg(not(feature = "vmem"))]
    ow_cs(n, kind, rounds, sel) {
        start();
        let f = kind & 1 == 1;
        match n {
            2 => own_stack!(n, ConcurrentStackRB, 2, f, rounds, sel),
            3 => own_stack!(n, ConcurrentStackRB, 3, f, rounds, sel),
            _ => own_stack!(n, ConcurrentStackRB, 4, f, rounds, sel),
        }
    }
    #[cfg(not(feature = "vmem"))]
    ow_ls(n, kind, rounds, sel) {
        start();
        let f = kind & 1 == 1;
        match n {
            1 => own_stack!(w, LocalStackRB, 1, f, rounds, sel),
            2 => own_stack!(w, LocalStackRB, 2, f, rounds, sel),
            3 => own_stack!(w, LocalStackRB, 3, f, rounds, sel),
            _ => own_stack!(w, LocalStackRB, 4, f, rounds, sel),
        }
    }
}
