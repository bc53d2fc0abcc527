//! Virtual memory: two views of the same memory, whole pages, contents, ownership.
use crate::core::*;
use crate::nd;
use crate::seq::any_len;
use crate::{ck, cov};
use mutringbuf::iterators::*;
use mutringbuf::vmem_helper::{get_page_size_mul, page_size};
use mutringbuf::*;

/// an item with a default that is not all-zero
#[derive(Clone, PartialEq)]
pub struct Dft(u16, u8);
impl Default for Dft {
    fn default() -> Self {
        Dft(0x1234, 0x56)
    }
}

/// slot j through both views
fn both<T: Val>(base: *const T, n: usize, j: usize) -> (T, T) {
    unsafe { (core::ptr::read_volatile(base.add(j)), core::ptr::read_volatile(base.add(n).add(j))) }
}

/// contents of the data it was built from, in both views; a write through one view is seen through the other
fn mirror<'b, B: MutRB<Item = T>, T: Val, const WK: bool>(
    mut p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, n: usize, j: usize, x: T, bytes: usize,
) {
    ck!("C17", p.buf_len() == n, "the length is that of the data");
    ck!("C17", nd::maps() == bytes + 2 * n * core::mem::size_of::<T>(), "two views of the buffer are mapped");
    if let Some(b) = p.get_next_item_mut_init() {
        let base = b as *const T;
        let (a, b) = both(base, n, j);
        ck!("C17", a == x, "the data the buffer was built from");
        ck!("C17", b == x, "the data the buffer was built from, one length further");
        let i = nd::upto(n - 1);
        let y = T::any();
        let second = nd::bool();
        unsafe { core::ptr::write_volatile((base as *mut T).add(if second { n } else { 0 }).add(i), y) };
        let (a, b) = both(base, n, j);
        let want = if i == j { y } else { x };
        ck!("C17", a == want, "a write through either view is seen through the first");
        ck!("C17", b == want, "a write through either view is seen through the second");
        cov!(i == j && second, "written through the second view");
    } else {
        ck!("C17", false, "a page has room");
    }
    // the destructor loops over all the items: see vm_own
    core::mem::forget((p, w, c));
}

fn finish<'b, B: MutRB, const WK: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, order: u8, bytes: usize) {
    match order {
        0 => {
            drop(p);
            drop(w);
            drop(c);
        }
        1 => {
            drop(c);
            drop(w);
            drop(p);
        }
        _ => {
            drop(c);
            drop(p);
            drop(w);
        }
    }
    ck!("C17", nd::maps() == bytes, "both views are unmapped with the last iterator");
}

macro_rules! from_data {
    ($B:ident, $T:ty, $w:expr) => {{
        let bytes = nd::maps();
        let n = any_len::<$T>();
        let v = any_vec::<$T>(n);
        let j = nd::upto(n - 1);
        let x = v[j];
        let b = $B::<$T>::from(v);
        if $w == 1 {
            let (p, w, c) = b.split_mut();
            mirror(p, Some(w), c, n, j, x, bytes)
        } else {
            let (p, c) = b.split();
            mirror(p, None, c, n, j, x, bytes)
        }
    }};
}

/// constructors that take a minimum
fn minimum(kind: u64, min: usize, w: u64) {
    let bytes = nd::maps();
    let blocks = nd::live();
    let page = page_size();
    // relative to the page: 0 -> 1, 1 -> page-1, 2 -> page, 3 -> page+1, 4 -> 2*page
    let min = match min {
        0 => 1,
        1 => page - 1,
        2 => page,
        3 => page + 1,
        _ => 2 * page,
    };
    let n = if min <= page { page } else { 2 * page };
    macro_rules! go {
        ($b:expr, $T:ty, $want:expr) => {{
            let b = $b;
            if w == 1 {
                let (p, w, c) = b.split_mut();
                filled::<_, $T, true>(p, Some(w), c, n, bytes, $want)
            } else {
                let (p, c) = b.split();
                filled::<_, $T, false>(p, None, c, n, bytes, $want)
            }
        }};
    }
    match kind {
        0 => go!(ConcurrentHeapRB::<u8>::default(min), u8, Some(0)),
        1 => go!(LocalHeapRB::<Dft>::default(min), Dft, Some(Dft::default())),
        2 => go!(unsafe { ConcurrentHeapRB::<u32>::new_zeroed(min) }, u32, Some(0)),
        3 => go!(unsafe { LocalHeapRB::<u8>::new_zeroed(min) }, u8, Some(0)),
        _ => go!(ConcurrentHeapRB::<Dft>::default(min), Dft, Some(Dft::default())),
    }
    ck!("C17", nd::live() == blocks, "nothing is leaked");
}
fn filled<'b, B: MutRB<Item = T>, T: PartialEq, const WK: bool>(
    mut p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, c: ConsIter<'b, B, WK>, n: usize, bytes: usize, want: Option<T>,
) {
    ck!("C17", p.buf_len() == n, "the length is the minimum rounded up to whole pages");
    if let (Some(b), Some(x)) = (p.get_next_item_mut_init(), want) {
        for j in [0, 1, n / 2, n - 1] {
            unsafe {
                ck!("C17", *b.add(j) == x, "every slot is initialised");
                ck!("C17", *b.add(n).add(j) == x, "every slot is initialised, through the second view");
            }
        }
    }
    finish(p, w, c, 0, bytes);
}

// ---- ownership ---------------------------------------------------------------------------------------
const MAX: usize = 2 * 4096 + 32;
struct Book {
    /// 0 never made, 1 alive, 2 destroyed
    st: [u8; MAX],
    /// cloned from
    src: [u16; MAX],
    next: usize,
}
static mut BOOK: Book = Book { st: [0; MAX], src: [0; MAX], next: 1 };
#[allow(static_mut_refs)]
fn bk() -> &'static mut Book {
    unsafe { &mut *core::ptr::addr_of_mut!(BOOK) }
}
/// an item in the books; never all-zero
pub struct Led<X>(u16, X);
impl<X: Copy> Led<X> {
    fn made(x: X, src: usize) -> Self {
        let b = bk();
        let id = b.next;
        b.next += 1;
        b.st[id] = 1;
        b.src[id] = src as u16;
        Led(id as u16, x)
    }
    fn id(&self) -> usize {
        let id = self.0 as usize;
        ck!("C08 C09 C17", id != 0 && id < bk().next, "what is used as a value is one");
        id
    }
    fn alive(&self) -> bool {
        bk().st[self.id()] == 1
    }
}
impl<X> Drop for Led<X> {
    fn drop(&mut self) {
        let id = self.0 as usize;
        ck!("C08 C09 C17", id != 0 && id < bk().next, "only values are destroyed");
        ck!("C08 C09 C17", bk().st[id] == 1, "no value is destroyed twice");
        bk().st[id] = 2;
    }
}
impl<X: Copy> Clone for Led<X> {
    fn clone(&self) -> Self {
        let id = self.id();
        ck!("C08 C17", bk().st[id] == 1, "only a live value is cloned");
        Led::made(self.1, id)
    }
}
fn dead(id: usize) -> bool {
    bk().st[id] == 2
}

/// A full buffer of items, all stages moved to slot `at`, then operations across the physical end.
fn owned<'b, B: MutRB<Item = Led<X>>, X: Copy, const WK: bool>(
    mut p: ProdIter<'b, B>, mut w: Option<WorkIter<'b, B>>, mut c: ConsIter<'b, B, WK>, n: usize, x: X, at: usize, sel: u64, order: u8, bytes: usize,
) {
    let Some(b) = p.get_next_item_mut_init() else { return };
    let base = b as *const Led<X>;
    let see = |j: usize| unsafe { ((*base.add(j)).id(), (*base.add(j + n)).id()) };
    ck!("C17", see(0) == (1, 1) && see(n - 1) == (n, n), "the items the buffer was built from");
    unsafe {
        p.advance(at);
        if let Some(w) = &mut w {
            w.advance(at)
        }
        c.advance(at);
    }
    let s0 = at;
    let s1 = plus(at, 1, n);
    let (i0, i1) = (see(s0).0, see(s1).0);
    // produce two
    let (n0, n1);
    match sel % 10 {
        0 | 1 => {
            let (a, b) = (Led::made(x, 0), Led::made(x, 0));
            (n0, n1) = (a.id(), b.id());
            let (r, s) = if sel % 10 == 0 { (p.push(a), p.push(b)) } else { (p.push_init(a), p.push_init(b)) };
            ck!("C04 C17", r.is_ok() && s.is_ok(), "there is room");
        }
        2 | 3 => {
            let v = [Led::made(x, 0), Led::made(x, 0)];
            n0 = bk().next;
            n1 = n0 + 1;
            let r = if sel % 10 == 2 { p.push_slice_clone(&v) } else { p.push_slice_clone_init(&v) };
            ck!("C04 C17", r.is_some(), "there is room");
            ck!("C17", bk().next == n1 + 1 && bk().src[n0] as usize == v[0].id() && bk().src[n1] as usize == v[1].id(), "one clone per element, in order");
        }
        4 => {
            let (a, b) = (Led::made(x, 0), Led::made(x, 0));
            (n0, n1) = (a.id(), b.id());
            match p.get_workable_slice_exact(2) {
                Some(s) => {
                    s[0] = a;
                    s[1] = b;
                }
                None => {
                    ck!("C05 C17", false, "there is room");
                }
            }
            unsafe { p.advance(2) };
        }
        _ => {
            // nothing new
            (n0, n1) = (i0, i1);
            unsafe { p.advance(2) };
        }
    }
    if sel % 10 < 5 {
        ck!("C08 C17", dead(i0) && dead(i1), "replaced values are destroyed at once");
    }
    ck!("C17", see(s0) == (n0, n0) && see(s1) == (n1, n1), "new values through both views");
    let (mut e0, mut e1) = (n0, n1);
    if let Some(w) = &mut w {
        if sel >= 100 {
            if let Some(s) = w.get_workable_slice_avail() {
                ck!("C05 C17", s.len() == 2 && s[0].id() == n0 && s[1].id() == n1, "the worker sees both");
                s[1] = Led::made(x, 0);
                e1 = s[1].id();
                ck!("C08 C17", dead(n1), "an edited value is destroyed");
            }
            unsafe { w.advance(2) };
        } else {
            if let Some(s) = w.get_workable() {
                *s = Led::made(x, 0);
                e0 = s.id();
                ck!("C08 C17", dead(n0), "an edited value is destroyed");
            }
            unsafe { w.advance(2) };
        }
    }
    // consume them
    match sel / 10 % 10 {
        0 => {
            for e in [e0, e1] {
                match unsafe { c.pop_move() } {
                    Some(v) => {
                        ck!("C01 C17", v.id() == e && v.alive(), "the value is handed out");
                    }
                    None => {
                        ck!("C04 C17", false, "there is an item");
                    }
                }
                ck!("C08 C17", dead(e), "moved out and destroyed by its new owner");
            }
        }
        1 => match c.peek_slice(2) {
            Some(s) => {
                ck!("C01 C17", s.len() == 2 && s[0].id() == e0 && s[1].id() == e1 && s[0].alive() && s[1].alive(), "one slice across the physical end");
                unsafe { c.advance(2) };
            }
            None => {
                ck!("C04 C17", false, "there are items");
            }
        },
        2 => {
            let mut d = [Led::made(x, 0), Led::made(x, 0)];
            let (d0, d1) = (d[0].id(), d[1].id());
            ck!("C04 C17", c.clone_slice(&mut d).is_some(), "there are items");
            ck!("C08 C17", dead(d0) && dead(d1), "replaced values are destroyed");
            ck!("C01 C17", bk().src[d[0].id()] as usize == e0 && bk().src[d[1].id()] as usize == e1, "clones of the items");
        }
        _ => {
            let mut d = Led::made(x, 0);
            ck!("C04 C17", c.clone_item(&mut d).is_some(), "there is an item");
            ck!("C01 C17", bk().src[d.id()] as usize == e0, "a clone of the item");
        }
    }
    finish(p, w, c, order, bytes);
    let mut i = 1;
    while i < bk().next {
        ck!("C08 C17", bk().st[i] == 2, "every value is destroyed exactly once in the end");
        i += 1;
    }
}
macro_rules! own {
    ($B:ident, $x:expr, $w:expr, $sel:expr, $at:expr, $order:expr) => {{
        let bytes = nd::maps();
        let blocks = nd::live();
        let n = page_size();
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(Led::made($x, 0));
            i += 1;
        }
        let b = $B::from(v);
        ck!("C17", nd::maps() > bytes, "the buffer is mapped");
        let at = if $at == 0 { n - 1 } else if $at == 1 { n - 2 } else { 0 };
        if $w == 1 {
            let (p, w, c) = b.split_mut();
            owned(p, Some(w), c, n, $x, at, $sel, $order as u8, bytes);
        } else {
            let (p, c) = b.split();
            owned(p, None, c, n, $x, at, $sel, $order as u8, bytes);
        }
        ck!("C17", nd::live() == blocks, "nothing is leaked");
    }};
}

crate::hs! {
    // item size: 0 u8, 1 u16, 2 B3, 3 u32, 4 u8 again
    vm_from(size, w) {
        match size {
            0 => from_data!(ConcurrentHeapRB, u8, w),
            1 => from_data!(LocalHeapRB, u16, w),
            2 => from_data!(ConcurrentHeapRB, B3, w),
            3 => from_data!(LocalHeapRB, u32, w),
            _ => from_data!(LocalHeapRB, u8, w),
        }
    }
    vm_min(kind, min, w) { minimum(kind, min as usize, w) }
    vm_page() {
        let m = nd::upto(1 << 47);
        let r = get_page_size_mul(m);
        let p = page_size();
        ck!("C17", r >= m, "at least the minimum");
        ck!("C17", r % p == 0, "whole pages");
        ck!("C17", r < m + p, "no page too many");
    }
    // a length that is not a whole number of pages is refused
    vm_odd(k) {
        let n = page_size();
        let mut v = Vec::with_capacity(n + 1);
        let mut i = 0;
        while i < (if k == 0 { n - 1 } else { n + 1 }) {
            v.push(1u8);
            i += 1;
        }
        nd::expect_panic("C17|a length that is not a whole number of pages is refused");
        let b = ConcurrentHeapRB::<u8>::from(v);
        core::mem::forget(b);
    }
    vm_own(kind, w, sel, at) {
        let order = at / 10;
        let at = at % 10;
        match kind {
            0 => own!(ConcurrentHeapRB, (), w, sel, at, order),
            1 => own!(LocalHeapRB, [7u16, 8, 9], w, sel, at, order),
            _ => own!(ConcurrentHeapRB, 7u16, w, sel, at, order),
        }
    }
    // other item sizes, one operation in any state
    vm_cw(who, sel, rounds) { crate::heap!(w, ConcurrentHeapRB, u32, any_len::<u32>()).one::<2>(rounds as usize, who as u8, sel as u8) }
    vm_ln(who, sel, rounds) { crate::heap!(n, LocalHeapRB, B3, any_len::<B3>()).one::<2>(rounds as usize, who as u8, sel as u8) }
    vm_hist(steps) { crate::heap!(n, ConcurrentHeapRB, u8, any_len::<u8>()).history(steps as usize) }
}
