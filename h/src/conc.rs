//! Producer, worker and consumer on threads of their own.
//! The iterators stay in place in `Wld`; every thread runs a short list of operations on its own one.
use crate::nd;
use crate::{ck, cov, hs};
use core::future::Future;
use core::mem::ManuallyDrop;
use core::pin::Pin;
use core::ptr;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::*;
use mutringbuf::*;

#[derive(Copy, Clone, PartialEq, Default)]
pub struct It {
    a: u8,
    b: u8,
}
fn any() -> It {
    It { a: nd::u8(), b: nd::u8() }
}
/// what the worker does to an item
fn edit(x: &mut It) {
    x.a = x.a.wrapping_add(1);
    x.b ^= 0x55;
}
fn edited(mut x: It) -> It {
    edit(&mut x);
    x
}

pub const NV: usize = 8;
type Heap = ConcurrentHeapRB<It>;
type Stack<const N: usize> = ConcurrentStackRB<It, N>;

#[repr(C)]
pub struct Wld<B: MutRB<Item = It>, const W: bool> {
    p: ManuallyDrop<ProdIter<'static, B>>,
    c: ManuallyDrop<ConsIter<'static, B, W>>,
    w: ManuallyDrop<Option<WorkIter<'static, B>>>,
    v: [It; NV],
    pops: u64,
    wops: u64,
    cops: u64,
    n: usize,
    off: usize,
    // items so far: accepted, worked, consumed
    np: usize,
    nw: usize,
    nc: usize,
    // ... by the operations before the threads start
    np0: usize,
    nw0: usize,
    lax: bool,
}

fn waker() -> Waker {
    fn c(_: *const ()) -> RawWaker {
        RawWaker::new(ptr::null(), &VT)
    }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(RawWaker::new(ptr::null(), &VT)) }
}
fn poll<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    let w = waker();
    match Pin::new(f).poll(&mut Context::from_waker(&w)) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}

/// next operation of a list
fn take(l: &mut u64) -> u64 {
    let d = *l & 31;
    *l >>= 5;
    d
}

#[cfg(not(feature = "vmem"))]
fn two<T>((a, b): (&mut [T], &mut [T])) -> (*mut T, usize, *mut T, usize) {
    (a.as_mut_ptr(), nd::fork(a.len()), b.as_mut_ptr(), nd::fork(b.len()))
}
#[cfg(not(feature = "vmem"))]
fn two_ref<T>((a, b): (&[T], &[T])) -> (*mut T, usize, *mut T, usize) {
    (a.as_ptr() as _, nd::fork(a.len()), b.as_ptr() as _, nd::fork(b.len()))
}
type Two<T> = (*mut T, usize, *mut T, usize);
fn at<T>(t: Two<T>, i: usize) -> *mut T {
    unsafe {
        if i < t.1 {
            t.0.add(i)
        } else {
            t.2.add(i - t.1)
        }
    }
}

/// a granted slot may be read whether it is advanced past or not
unsafe fn look(t: Two<It>, k: usize) {
    for i in 0..k {
        ptr::read_volatile(at(t, i));
    }
}

unsafe extern "C" fn producer<B: MutRB<Item = It>, const W: bool>(s: *mut Wld<B, W>) {
    let v = &(*s).v;
    let mut l = (*s).pops;
    let mut n = (*s).np0;
    while l != 0 {
        let op = take(&mut l);
        let p = &mut *(*s).p;
        let two_items = || [v[n], v[n + 1]];
        match op {
            1 | 2 => {
                let r = if op == 1 { p.push(v[n]) } else { p.push_init(v[n]) };
                match r {
                    Ok(()) => n += 1,
                    Err(x) => ck!("C02 C05", x == v[n], "a refused push hands the value back"),
                }
            }
            3 => n += p.push_slice(&two_items()).map_or(0, |_| 2),
            4 => n += p.push_slice_clone(&two_items()).map_or(0, |_| 2),
            5 => n += p.push_slice_init(&two_items()).map_or(0, |_| 2),
            6 => n += p.push_slice_clone_init(&two_items()).map_or(0, |_| 2),
            7 => {
                if let Some(x) = p.get_next_item_mut() {
                    *x = v[n];
                    n += 1;
                    p.advance(1);
                }
            }
            8 => {
                if let Some(x) = p.get_next_item_mut_init() {
                    *x = v[n];
                    n += 1;
                    p.advance(1);
                }
            }
            12 => {
                if let Some(x) = p.get_workable() {
                    *x = v[n];
                    n += 1;
                    p.advance(1);
                }
            }
            9 | 10 | 11 | 13 => {
                let r = match op {
                    9 => p.get_next_slices_mut(2),
                    10 => p.get_workable_slice_avail(),
                    11 => p.get_workable_slice_multiple_of(2),
                    _ => p.get_workable_slice_exact(2),
                };
                if let Some(r) = r {
                    let t = two(r);
                    let k = t.1 + t.3;
                    for i in 0..k {
                        *at(t, i) = v[n + i];
                    }
                    let k = if op == 13 { 1 } else { k };
                    n += k;
                    p.advance(k);
                }
            }
            14 => {
                // detached: published by sync_index, then by attach
                let mut d = ptr::read(p).detach();
                for i in 0..2 {
                    if let Some(x) = d.get_workable() {
                        *x = v[n];
                        n += 1;
                        d.advance(1);
                    }
                    if i == 0 {
                        d.sync_index();
                    }
                }
                ptr::write(p, d.attach());
            }
            15 => {
                let a = p.available();
                if nd::fork((a > 0) as usize) == 1 {
                    let ok = p.push(v[n]).is_ok();
                    ck!("C02 C05", ok, "room reported by available can be used");
                    n += ok as usize;
                }
            }
            16 => {
                let mut d = ptr::read(p).detach();
                if d.get_workable().is_some() {
                    d.advance(1);
                    d.go_back(1);
                    let x = d.get_workable();
                    ck!("C02 C12", x.is_some(), "a slot gone back to is still there");
                    if let Some(x) = x {
                        *x = v[n];
                        n += 1;
                        d.advance(1);
                    }
                }
                ptr::write(p, d.attach());
            }
            17 => {
                let mut a = AsyncProdIter::from_sync(ptr::read(p));
                if poll(&mut a.push(v[n])).is_some() {
                    n += 1;
                }
                ptr::write(p, a.into_sync());
            }
            18 => {
                // write one of two granted slots, and come back for the other one
                if let Some(r) = p.get_next_slices_mut(2) {
                    let t = two(r);
                    *at(t, 0) = v[n];
                    p.advance(1);
                    *at(t, 1) = v[n + 1];
                    p.advance(1);
                    n += 2;
                }
            }
            _ => {
                let mut a = AsyncProdIter::from_sync(ptr::read(p));
                let two = two_items();
                if poll(&mut a.push_slice(&two)).is_some() {
                    n += 2;
                }
                ptr::write(p, a.into_sync());
            }
        }
    }
    (*s).np = n;
}

unsafe extern "C" fn worker<B: MutRB<Item = It>, const W: bool>(s: *mut Wld<B, W>) {
    let mut l = (*s).wops;
    let mut n = (*s).nw0;
    let len = (*s).n;
    while l != 0 {
        let op = take(&mut l);
        let w = (*(*s).w).as_mut().unwrap();
        match op {
            1 => {
                if let Some(x) = w.get_workable() {
                    edit(x);
                    n += 1;
                    w.advance(1);
                }
            }
            2 | 3 | 4 | 8 => {
                let r = match op {
                    3 => w.get_workable_slice_avail(),
                    4 => w.get_workable_slice_multiple_of(2),
                    _ => w.get_workable_slice_exact(2),
                };
                if let Some(r) = r {
                    let t = two(r);
                    let k = t.1 + t.3;
                    look(t, k);
                    let k = if op == 8 { 1 } else { k };
                    for i in 0..k {
                        edit(&mut *at(t, i));
                    }
                    n += k;
                    w.advance(k);
                }
            }
            5 => {
                let i = w.index();
                w.reset_index();
                let j = nd::fork(w.index());
                n += if j >= i { j - i } else { len - i + j };
                let none = nd::fork((w.work_index() == j) as usize) == 1;
                ck!("C02 C11", none, "reset_index publishes the position it takes");
            }
            6 => {
                let mut d = ptr::read(w).detach();
                for i in 0..2 {
                    if let Some(x) = d.get_workable() {
                        edit(x);
                        n += 1;
                        d.advance(1);
                    }
                    if i == 0 {
                        d.sync_index();
                    }
                }
                ptr::write(w, d.attach());
            }
            7 => {
                let a = w.available();
                if nd::fork((a > 0) as usize) == 1 {
                    let x = w.get_workable();
                    ck!("C02 C05", x.is_some(), "what available reports can be used");
                    if let Some(x) = x {
                        edit(x);
                        n += 1;
                        w.advance(1);
                    }
                }
            }
            9 => {
                let mut d = ptr::read(w).detach();
                if d.get_workable().is_some() {
                    d.advance(1);
                    d.go_back(1);
                    let x = d.get_workable();
                    ck!("C02 C12", x.is_some(), "a slot gone back to is still there");
                    if let Some(x) = x {
                        edit(x);
                        n += 1;
                        d.advance(1);
                    }
                }
                ptr::write(w, d.attach());
            }
            _ => {
                let mut a = AsyncWorkIter::from_sync(ptr::read(w));
                if let Some(Some(x)) = poll(&mut a.get_workable()) {
                    edit(x);
                    n += 1;
                    a.advance(1);
                }
                ptr::write(w, a.into_sync());
            }
        }
    }
    (*s).nw = n;
}

unsafe fn right<B: MutRB<Item = It>, const W: bool>(s: *mut Wld<B, W>, k: usize, x: It) -> bool {
    let v = (*s).v[k];
    if W {
        x == edited(v) || (*s).lax && x == v
    } else {
        x == v
    }
}

unsafe extern "C" fn consumer<B: MutRB<Item = It>, const W: bool>(s: *mut Wld<B, W>) {
    let mut l = (*s).cops;
    let mut n = 0;
    let len = (*s).n;
    while l != 0 {
        let op = take(&mut l);
        let c = &mut *(*s).c;
        // what was got, and how much of it
        let mut g = [It::default(); NV];
        let mut k = 0;
        match op {
            1 | 2 => {
                let r = if op == 1 { c.pop() } else { c.pop_move() };
                if let Some(x) = r {
                    g[0] = x;
                    k = 1;
                }
            }
            3 => {
                if let Some(x) = c.peek_ref() {
                    g[0] = *x;
                    k = 1;
                    c.advance(1);
                }
            }
            4 | 5 | 18 => {
                let r = if op == 5 { c.peek_available() } else { c.peek_slice(2) };
                if let Some(r) = r {
                    let t = two_ref(r);
                    k = t.1 + t.3;
                    look(t, k);
                    if op == 18 {
                        // leave the second one for later
                        k = 1;
                    }
                    for i in 0..k {
                        g[i] = *at(t, i);
                    }
                    c.advance(k);
                }
            }
            6 | 7 => {
                let mut x = It::default();
                let r = if op == 6 { c.copy_item(&mut x) } else { c.clone_item(&mut x) };
                if r.is_some() {
                    g[0] = x;
                    k = 1;
                } else {
                    ck!("C02 C05", x == It::default(), "a refused request leaves the destination alone");
                }
            }
            8 | 9 => {
                let mut x = [It::default(); 2];
                let r = if op == 8 { c.copy_slice(&mut x) } else { c.clone_slice(&mut x) };
                if r.is_some() {
                    g[0] = x[0];
                    g[1] = x[1];
                    k = 2;
                } else {
                    ck!("C02 C05", x == [It::default(); 2], "a refused request leaves the destination alone");
                }
            }
            10 => {
                if let Some(x) = c.get_workable() {
                    g[0] = *x;
                    // its own until it advances
                    *x = It { a: 9, b: 9 };
                    k = 1;
                    c.advance(1);
                }
            }
            11 | 12 | 13 => {
                let r = match op {
                    11 => c.get_workable_slice_exact(2),
                    12 => c.get_workable_slice_avail(),
                    _ => c.get_workable_slice_multiple_of(2),
                };
                if let Some(r) = r {
                    let t = two(r);
                    k = t.1 + t.3;
                    for i in 0..k {
                        g[i] = *at(t, i);
                        (*at(t, i)).a = 9;
                    }
                    c.advance(k);
                }
            }
            14 => {
                let i = c.index();
                c.reset_index();
                let j = nd::fork(c.index());
                n += if j >= i { j - i } else { len - i + j };
                let same = nd::fork((c.cons_index() == j) as usize) == 1;
                ck!("C02 C11", same, "reset_index publishes the position it takes");
            }
            15 => {
                let mut d = ptr::read(c).detach();
                for i in 0..2 {
                    if let Some(x) = d.get_workable() {
                        g[k] = *x;
                        k += 1;
                        d.advance(1);
                    }
                    if i == 0 {
                        d.sync_index();
                    }
                }
                ptr::write(c, d.attach());
            }
            16 => {
                let a = c.available();
                if nd::fork((a > 0) as usize) == 1 {
                    let x = c.pop();
                    ck!("C02 C05", x.is_some(), "what available reports can be used");
                    if let Some(x) = x {
                        g[0] = x;
                        k = 1;
                    }
                }
            }
            17 => {
                let mut a = AsyncConsIter::from_sync(ptr::read(c));
                if let Some(Some(x)) = poll(&mut a.pop()) {
                    g[0] = x;
                    k = 1;
                }
                ptr::write(c, a.into_sync());
            }
            19 => {
                let mut d = ptr::read(c).detach();
                if d.get_workable().is_some() {
                    d.advance(1);
                    d.go_back(1);
                    let x = d.get_workable();
                    ck!("C02 C12", x.is_some(), "a slot gone back to is still there");
                    if let Some(x) = x {
                        g[0] = *x;
                        k = 1;
                        d.advance(1);
                    }
                }
                ptr::write(c, d.attach());
            }
            _ => {
                let mut a = AsyncConsIter::from_sync(ptr::read(c));
                let mut x = [It::default(); 2];
                if poll(&mut a.copy_slice(&mut x)).is_some() {
                    g[0] = x[0];
                    g[1] = x[1];
                    k = 2;
                }
                ptr::write(c, a.into_sync());
            }
        }
        for i in 0..k {
            ck!("C02 C01", n + i < NV && right(s, n + i, g[i]), "consumed items are the accepted ones, in order, worked on");
        }
        n += k;
    }
    (*s).nc = n;
}

unsafe extern "C" fn after<B: MutRB<Item = It>, const W: bool>(s: *mut Wld<B, W>) {
    let np = nd::fork((*s).np);
    let nc = nd::fork((*s).nc);
    let nw = if W { nd::fork((*s).nw) } else { np };
    let len = (*s).n;
    let p = &mut *(*s).p;
    let c = &mut *(*s).c;
    let (ap, ac) = (p.available(), c.available());
    let mut aw = 0;
    ck!("C02 C04", nc <= nw && nw <= np && np - nc <= len - 1, "nobody oversteps the iterator ahead");
    if let Some(w) = (*(*s).w).as_mut() {
        aw = w.available();
        ck!("C02 C05 C10", aw == np - nw, "the worker finds everything pushed");
        if let Some(r) = w.get_workable_slice_avail() {
            let t = two(r);
            let k = t.1 + t.3;
            for i in 0..k {
                ck!("C02 C01", *at(t, i) == (*s).v[nw + i], "what waits for the worker is what was pushed");
            }
        }
    }
    ck!("C02 C05 C10", ac == nw - nc, "the consumer finds everything released");
    ck!("C02 C05 C10", ap == len - 1 - (np - nc), "the producer finds everything freed");
    ck!("C02 C04", ap + aw + ac == len - 1, "availabilities sum to the capacity");
    let (i, j) = ((*s).off + np, (*s).off + nc);
    ck!("C02 C01", p.index() == i % len && p.prod_index() == i % len, "position of the producer");
    ck!("C02 C01", c.index() == j % len && c.cons_index() == j % len, "position of the consumer");
    for k in nc..nw {
        let x = c.pop();
        ck!("C02 C01", x.is_some() && right(s, k, x.unwrap()), "what is left is what was accepted");
    }
    cov!(nw > nc, "items left after the threads");
    cov!(nc > 0, "items consumed by the threads");
}

/// a: 100 * start + 10 * prefill + worked of it
unsafe fn run<B: MutRB<Item = It>, const W: bool>(
    n: usize,
    (p, w, c): (ProdIter<'static, B>, Option<WorkIter<'static, B>>, ConsIter<'static, B, W>),
    a: u64,
    pops: u64,
    wops: u64,
    cops: u64,
) {
    let (off, pre, wk) = ((a / 100 % 10) as usize, (a / 10 % 10) as usize, (a % 10) as usize);
    let mut v = [It::default(); NV];
    for x in v.iter_mut() {
        *x = any();
    }
    let has = |mut l: u64, op: u64| {
        let mut r = false;
        while l != 0 {
            r |= take(&mut l) == op;
        }
        r
    };
    let mut s = Wld {
        p: ManuallyDrop::new(p),
        w: ManuallyDrop::new(w),
        c: ManuallyDrop::new(c),
        v,
        pops,
        wops,
        cops,
        n,
        off,
        np: pre,
        nw: if W { wk } else { pre },
        nc: 0,
        np0: pre,
        nw0: wk,
        lax: has(wops, 5),
    };
    s.p.advance(off);
    if let Some(w) = s.w.as_mut() {
        w.advance(off);
    }
    s.c.advance(off);
    for i in 0..pre {
        let ok = s.p.push_init(s.v[i]);
        nd::assume(ok.is_ok());
    }
    for _ in 0..wk {
        let w = s.w.as_mut().unwrap();
        edit(w.get_workable().unwrap());
        w.advance(1);
    }
    let s = &mut s as *mut Wld<B, W>;
    if pops != 0 {
        nd::spawn(producer::<B, W>, s);
    }
    if wops != 0 {
        nd::spawn(worker::<B, W>, s);
    }
    if cops != 0 {
        nd::spawn(consumer::<B, W>, s);
    }
    nd::join(after::<B, W>, s);
}

fn cells(n: usize) -> Vec<It> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any());
    }
    v
}

unsafe fn stack<const N: usize>(w: bool, a: u64, b: u64, c: u64, d: u64) {
    let mut buf = Stack::<N>::from([any(); N]);
    let r = &mut *(&mut buf as *mut Stack<N>);
    if w {
        let (p, w, c2) = StackSplit::split_mut(r);
        run(N, (p, Some(w), c2), a, b, c, d)
    } else {
        let (p, c2) = StackSplit::split(r);
        run(N, (p, None, c2), a, b, c, d)
    }
}

hs! {
    // a: 1000 * length + 100 * start + 10 * prefill + worked; b, c, d: operations of producer, worker, consumer
    cc_n(a, b, c, d) {
        unsafe {
            let n = nd::conc((a / 1000) as usize);
            let (p, c2) = Heap::from(cells(n)).split();
            run(n, (p, None, c2), a, b, 0, d)
        }
    }
    cc_w(a, b, c, d) {
        unsafe {
            let n = nd::conc((a / 1000) as usize);
            let (p, w, c2) = Heap::from(cells(n)).split_mut();
            run(n, (p, Some(w), c2), a, b, c, d)
        }
    }
    cs_n(a, b, c, d) {
        unsafe {
            match a / 1000 {
                2 => stack::<2>(false, a, b, c, d),
                3 => stack::<3>(false, a, b, c, d),
                _ => stack::<4>(false, a, b, c, d),
            }
        }
    }
    cs_w(a, b, c, d) {
        unsafe {
            match a / 1000 {
                2 => stack::<2>(true, a, b, c, d),
                3 => stack::<3>(true, a, b, c, d),
                _ => stack::<4>(true, a, b, c, d),
            }
        }
    }
}
