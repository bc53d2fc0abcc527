//! Iterators of one heap buffer dropped by threads of their own: the buffer goes with the last one, once.
use crate::nd;
use crate::split::end;
use crate::{ck, cov, hs};
use mutringbuf::iterators::*;
use mutringbuf::*;

type B = ConcurrentMutRingBuf<HeapStorage<u8>>;
const LEN: usize = 4;

#[repr(C)]
struct Wl<const W: bool> {
    p: Option<ProdIter<'static, B>>,
    c: Option<ConsIter<'static, B, W>>,
    w: Option<WorkIter<'static, B>>,
    // operations of the threads, guise in which the iterator is dropped
    ops: [u64; 3],
    form: [u8; 3],
    // what each has done before it was dropped; plain memory: who sees the flag down may read it
    np: usize,
    nw: usize,
    nc: usize,
    base: usize,
}

fn take(l: &mut u64) -> u64 {
    let d = *l % 10;
    *l /= 10;
    d
}

/// whoever is seen as dead has everything it did visible
macro_rules! see {
    ($s:ident, $i:expr, $alive:ident, $n:ident, $index:ident) => {
        if !$i.$alive() {
            let n = (*$s).$n;
            let ok = $i.$index() == n % LEN;
            ck!("C07", ok, "who sees a peer as dead sees everything it published");
            cov!(true, "a dead peer seen");
        }
    };
}

unsafe extern "C" fn producer<const W: bool>(s: *mut Wl<W>) {
    let mut l = (*s).ops[0];
    while l != 0 {
        let op = take(&mut l);
        if op == 2 {
            if let Some(i) = (*s).p.take() {
                end::<_, AsyncProdIter<'static, B>>(i, (*s).form[0], || true);
            }
            continue;
        }
        if let Some(i) = (*s).p.as_mut() {
            match op {
                1 => {
                    let n = (*s).np;
                    if i.push(n as u8 + 1).is_ok() {
                        (*s).np = n + 1;
                    }
                }
                _ => {
                    ck!("C07", i.is_prod_alive(), "alive until dropped");
                    see!(s, i, is_cons_alive, nc, cons_index);
                    if W {
                        see!(s, i, is_work_alive, nw, work_index);
                    }
                    let gone = !i.is_cons_alive();
                    let a = i.available();
                    if gone {
                        let ok = a == LEN - 1 - ((*s).np - (*s).nc);
                        ck!("C07", ok, "who sees the consumer as dead finds the space it freed");
                    }
                }
            }
        }
    }
}

unsafe extern "C" fn worker<const W: bool>(s: *mut Wl<W>) {
    let mut l = (*s).ops[1];
    while l != 0 {
        let op = take(&mut l);
        if op == 2 {
            if let Some(i) = (*s).w.take() {
                end::<_, AsyncWorkIter<'static, B>>(i, (*s).form[1], || true);
            }
            continue;
        }
        if let Some(i) = (*s).w.as_mut() {
            match op {
                1 => {
                    if let Some(x) = i.get_workable() {
                        *x += 100;
                        (*s).nw += 1;
                        i.advance(1);
                    }
                }
                _ => {
                    ck!("C07", i.is_work_alive(), "alive until dropped");
                    see!(s, i, is_cons_alive, nc, cons_index);
                    see!(s, i, is_prod_alive, np, prod_index);
                    let gone = !i.is_prod_alive();
                    let a = i.available();
                    if gone {
                        let ok = a == (*s).np - (*s).nw;
                        ck!("C07", ok, "who sees the producer as dead finds everything it pushed");
                    }
                }
            }
        }
    }
}

unsafe extern "C" fn consumer<const W: bool>(s: *mut Wl<W>) {
    let mut l = (*s).ops[2];
    while l != 0 {
        let op = take(&mut l);
        if op == 2 {
            if let Some(i) = (*s).c.take() {
                end::<_, AsyncConsIter<'static, B, W>>(i, (*s).form[2], || true);
            }
            continue;
        }
        if let Some(i) = (*s).c.as_mut() {
            match op {
                1 => {
                    if let Some(x) = i.pop() {
                        let n = (*s).nc;
                        let ok = x == n as u8 + if W { 101 } else { 1 };
                        ck!("C07 C02", ok, "the buffer is intact");
                        (*s).nc = n + 1;
                    }
                }
                _ => {
                    ck!("C07", i.is_cons_alive(), "alive until dropped");
                    see!(s, i, is_prod_alive, np, prod_index);
                    let gone = if W {
                        see!(s, i, is_work_alive, nw, work_index);
                        !i.is_work_alive()
                    } else {
                        !i.is_prod_alive()
                    };
                    let a = i.available();
                    if gone {
                        let n = if W { (*s).nw } else { (*s).np };
                        let ok = a == n - (*s).nc;
                        ck!("C07", ok, "who sees the stage ahead as dead finds everything it published");
                    }
                }
            }
        }
    }
}

unsafe extern "C" fn after<const W: bool>(s: *mut Wl<W>) {
    let s = &mut *s;
    let left = s.p.is_some() || s.w.is_some() || s.c.is_some();
    if left {
        ck!("C07", nd::live() > s.base, "the buffer is kept while an iterator exists");
    }
    if let Some(p) = &s.p {
        ck!("C07", p.is_prod_alive(), "alive until dropped");
    }
    if let Some(w) = &s.w {
        ck!("C07", w.is_work_alive(), "alive until dropped");
    }
    if let Some(c) = &s.c {
        ck!("C07", c.is_cons_alive(), "alive until dropped");
        ck!("C07", W || s.p.is_none() || c.is_prod_alive(), "alive until dropped");
        ck!("C07", !W || s.w.is_none() || c.is_work_alive(), "alive until dropped");
    }
    s.c = None;
    s.w = None;
    s.p = None;
    ck!("C07", nd::live() == s.base, "the buffer is released, once, with its last iterator");
}

unsafe fn run<const W: bool>(
    (p, w, c): (ProdIter<'static, B>, Option<WorkIter<'static, B>>, ConsIter<'static, B, W>),
    base: usize,
    a: u64,
    ops: [u64; 3],
) {
    let mut s = Wl { p: Some(p), w, c: Some(c), ops, form: [a as u8 % 10, (a / 10 % 10) as u8, (a / 100 % 10) as u8], np: 0, nw: 0, nc: 0, base };
    for _ in 0..a / 1000 {
        let ok = s.p.as_mut().unwrap().push(s.np as u8 + 1).is_ok();
        nd::assume(ok);
        s.np += 1;
    }
    let s = &mut s as *mut Wl<W>;
    if ops[0] != 0 {
        nd::spawn(producer::<W>, s);
    }
    if ops[1] != 0 {
        nd::spawn(worker::<W>, s);
    }
    if ops[2] != 0 {
        nd::spawn(consumer::<W>, s);
    }
    nd::join(after::<W>, s);
}

hs! {
    // a: 1000 * items pushed before + guises of producer, worker, consumer (1s, 10s, 100s); b, c, d: decimal digits,
    // low first: 1 an operation, 2 drop, 3 look at the peers
    cd_n(a, b, c, d) {
        unsafe {
            let base = nd::live();
            let (p, c2) = B::from(vec![0u8; LEN]).split();
            run(( p, None, c2), base, a, [b, 0, d])
        }
    }
    cd_w(a, b, c, d) {
        unsafe {
            let base = nd::live();
            let (p, w, c2) = B::from(vec![0u8; LEN]).split_mut();
            run((p, Some(w), c2), base, a, [b, c, d])
        }
    }
}
