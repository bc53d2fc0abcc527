//! Detached iterators: local moves only, exact positions, publication by sync_index and attach.
use crate::core::*;
use crate::nd;
use crate::{ck, cov, heap, stack};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::*;
use mutringbuf::*;

/// The iterators that stay attached.
pub struct Oth<'b, B: MutRB<Item = T>, T: Val, const WK: bool> {
    p: Option<ProdIter<'b, B>>,
    w: Option<WorkIter<'b, B>>,
    c: Option<ConsIter<'b, B, WK>>,
    base: *const T,
}
impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Oth<'b, B, T, WK> {
    fn adv(&mut self, m: &mut M, who: u8) {
        let q = nd::bool();
        let k = nd::upto(m.av(who));
        unsafe {
            match who {
                P => {
                    if let Some(i) = &mut self.p {
                        if q {
                            i.available();
                        }
                        i.advance(k)
                    }
                }
                W => {
                    if let Some(i) = &mut self.w {
                        if q {
                            i.available();
                        }
                        i.advance(k)
                    }
                }
                _ => {
                    if let Some(i) = &mut self.c {
                        if q {
                            i.available();
                        }
                        i.advance(k)
                    }
                }
            }
        }
        m.bump(who, k);
    }
    /// one of the other iterators moves; `det` is the detached one
    fn step(&mut self, m: &mut M, det: u8) {
        let who = nd::upto(2) as u8;
        nd::assume(who != det && (WK || who != W));
        self.adv(m, who);
    }
    /// what the others observe is what has been published
    fn ck(&mut self, m: &M) {
        let (pi, wi, ci);
        if let Some(i) = &self.p {
            (pi, wi, ci) = (i.prod_index(), i.work_index(), i.cons_index());
        } else {
            let i = self.c.as_ref().unwrap();
            (pi, wi, ci) = (i.prod_index(), i.work_index(), i.cons_index());
        }
        ck!("C04 C12", pi == m.pi, "published producer position unmoved by the detached iterator");
        ck!("C04 C12", ci == m.ci, "published consumer position unmoved by the detached iterator");
        if WK {
            ck!("C04 C12", wi == m.wi, "published worker position unmoved by the detached iterator");
        }
        if let Some(i) = &mut self.p {
            ck!("C04 C12", i.available() == m.av_p(), "producer sees only what was published");
        }
        if let Some(i) = &mut self.w {
            ck!("C04 C12", i.available() == m.av_w(), "worker sees only what was published");
        }
        if let Some(i) = &mut self.c {
            ck!("C04 C12", i.available() == m.av_c(), "consumer sees only what was published");
        }
    }
    fn leak(self) {
        core::mem::forget(self)
    }
}

/// position of the detached iterator: `o` slots beyond what it has published
fn ck_pos<I: MRBIterator<Item = T>, T: Val>(d: &mut Detached<I>, m: &M, who: u8, o: usize, base: *const T) {
    let at = plus(m.idx(who), o, m.n);
    ck!("C12", d.index() == at, "detached index is exactly where it was moved to");
    let t = m.av(who) - o;
    if nd::bool() {
        let k = nd::usize();
        let r = d.get_workable_slice_exact(k).map(win);
        ck!("C12 C04 C05", r.is_none() || k <= t, "a detached iterator is not granted more than the true distance");
        ck!("C12 C05", r.is_some() || k > t, "a detached iterator is granted what is there");
        if let Some(x) = r {
            if k > 0 {
                ck_window(base, m.n, at, &x, k);
            }
        }
    }
    let a = d.available();
    ck!("C12 C04 C05", a <= t, "detached availability never more than the true distance");
    ck!("C12 C05", a >= t, "detached availability reflects the true distance");
    if nd::bool() {
        let r = d.get_workable().map(|x| x as *mut T);
        ck!("C12 C05", r.is_some() == (t >= 1), "get_workable of a detached iterator");
        if let (Some(x), false) = (r, T::ZST) {
            ck!("C12", x as *const T == base.wrapping_add(at), "the item at the detached position");
        }
    }
}

fn local_move<I: MRBIterator<Item = T>, T: Val>(d: &mut Detached<I>, m: &mut M, who: u8, o: usize, sel: u8, win_max: usize) -> usize {
    let t = m.av(who);
    unsafe {
        match sel {
            0 => {
                let k = nd::upto(t - o);
                d.advance(k);
                o + k
            }
            1 => {
                let k = nd::upto(o);
                d.go_back(k);
                cov!(k > 0 && d.index() > m.idx(who) && k == o, "went back");
                o - k
            }
            2 => {
                let x = nd::upto(t);
                d.set_index(plus(m.idx(who), x, m.n));
                x
            }
            3 => {
                // a producer's reset moves it onto the consumer, which is only meaningful when the buffer is empty
                nd::assume(who != P);
                d.reset_index();
                t
            }
            4 => {
                d.sync_index();
                m.bump(who, o);
                0
            }
            5 => {
                let _ = d.available();
                o
            }
            6 => {
                let _ = d.get_workable_slice_avail();
                o
            }
            _ => {
                let _ = d.get_workable_slice_multiple_of(2);
                let _ = win_max;
                o
            }
        }
    }
}

fn detached<'b, I: MRBIterator<Item = T>, B: MutRB<Item = T>, T: Val, const WK: bool>(
    i: I, mut oth: Oth<'b, B, T, WK>, mut m: M, who: u8, s1: u8, s2: u8, deep: bool,
) -> (I, Oth<'b, B, T, WK>, M) {
    let base = oth.base;
    let mut d = i.detach();
    let mut o = 0;
    if deep {
        // somewhere inside the unpublished window, with something remembered or not
        o = local_move(&mut d, &mut m, who, o, 0, 0);
        if nd::bool() {
            let _ = d.available();
        }
        oth.step(&mut m, who);
    }
    o = local_move(&mut d, &mut m, who, o, s1, 0);
    if !deep {
        oth.step(&mut m, who);
    }
    o = local_move(&mut d, &mut m, who, o, s2, 0);
    oth.ck(&m);
    ck_pos(&mut d, &m, who, o, base);
    let i = d.attach();
    m.bump(who, o);
    (i, oth, m)
}

fn after<I: MRBIterator<Item = T>, B: MutRB<Item = T>, T: Val, const WK: bool>(
    mut i: I, mut oth: Oth<B, T, WK>, m: M, who: u8, probe: bool,
) {
    let t = m.av(who);
    ck!("C12 C13", i.index() == m.idx(who), "index after attach");
    if probe {
        let k = nd::usize();
        let r = i.get_workable_slice_exact(k).is_some();
        ck!("C12 C04 C05", !r || k <= t, "after attach: no grant beyond the iterator ahead");
        ck!("C12 C05", r || k > t, "after attach: request for what is there succeeds");
    }
    oth.ck(&m);
    let a = i.available();
    ck!("C12 C13 C04 C05", a == t, "availability after attach");
    core::mem::forget(i);
    oth.leak();
}

/// async detached iterators: advance, go_back, sync_index, attach
fn adetached<'b, A: AsyncIterator<I = I, B = B>, I: MRBIterator<Item = T>, B: MutRB<Item = T>, T: Val, const WK: bool>(
    i: I, mut oth: Oth<'b, B, T, WK>, mut m: M, who: u8, fin: u8,
) -> (I, Oth<'b, B, T, WK>, M) {
    let mut d = A::from_sync(i).detach();
    let mut o = 0;
    unsafe {
        let k = nd::upto(m.av(who));
        d.advance(k);
        o += k;
        if nd::bool() {
            d.sync_index();
            m.bump(who, o);
            o = 0;
        }
        oth.step(&mut m, who);
        let k = nd::upto(m.av(who) - o);
        d.advance(k);
        o += k;
        let k = nd::upto(o);
        d.go_back(k);
        cov!(k > o - k, "went back");
        o -= k;
        oth.ck(&m);
        if fin == 0 {
            oth.step(&mut m, who);
            let k = nd::upto(m.av(who) - o);
            d.advance(k);
            o += k;
        } else if nd::bool() {
            d.sync_index();
            m.bump(who, o);
            o = 0;
            oth.ck(&m);
        }
    }
    let a = d.attach();
    m.bump(who, o);
    ck!("C12 C13", a.index() == m.idx(who), "index after attach");
    (a.into_sync(), oth, m)
}

impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    pub fn det(mut self, who: u8, s1: u8, s2: u8, deep: bool) {
        self.arbitrary_for(who);
        let Sys { p, w, c, m, base, .. } = self;
        match who {
            P => {
                let o: Oth<'b, B, T, WK> = Oth { p: None, w, c: Some(c), base };
                let (i, o, m) = detached(p, o, m, who, s1, s2, deep);
                after(i, o, m, who, true)
            }
            W => {
                let o: Oth<'b, B, T, WK> = Oth { p: Some(p), w: None, c: Some(c), base };
                let (i, o, m) = detached(w.unwrap(), o, m, who, s1, s2, deep);
                after(i, o, m, who, true)
            }
            _ => {
                let o: Oth<'b, B, T, WK> = Oth { p: Some(p), w, c: None, base };
                let (i, o, m) = detached(c, o, m, who, s1, s2, deep);
                after(i, o, m, who, true)
            }
        }
    }
    pub fn adet(mut self, who: u8, fin: u8) {
        self.arbitrary_for(who);
        let Sys { p, w, c, m, base, .. } = self;
        match who {
            P => {
                let o: Oth<'b, B, T, WK> = Oth { p: None, w, c: Some(c), base };
                let (i, o, m) = adetached::<AsyncProdIter<'b, B>, _, B, T, WK>(p, o, m, who, fin);
                after(i, o, m, who, true)
            }
            W => {
                let o: Oth<'b, B, T, WK> = Oth { p: Some(p), w: None, c: Some(c), base };
                let (i, o, m) = adetached::<AsyncWorkIter<'b, B>, _, B, T, WK>(w.unwrap(), o, m, who, fin);
                after(i, o, m, who, true)
            }
            _ => {
                let o: Oth<'b, B, T, WK> = Oth { p: Some(p), w, c: None, base };
                let (i, o, m) = adetached::<AsyncConsIter<'b, B, WK>, _, B, T, WK>(c, o, m, who, fin);
                after(i, o, m, who, true)
            }
        }
    }
}

use crate::seq::any_len;
crate::hs! {
    dt_cw(who, s1, s2, deep) { heap!(w, ConcurrentHeapRB, u8, any_len::<u8>()).det(who as u8, s1 as u8, s2 as u8, deep != 0) }
    dt_ln(who, s1, s2, deep) { heap!(n, LocalHeapRB, u8, any_len::<u8>()).det(who as u8, s1 as u8, s2 as u8, deep != 0) }
    dt_st(who, s1, s2, n) { stack!(w, LocalStackRB, u32, by n, s => s.det(who as u8, s1 as u8, s2 as u8, true)) }
    da_cw(who, fin) { heap!(w, ConcurrentHeapRB, u8, any_len::<u8>()).adet(who as u8, fin as u8) }
    da_ln(who, fin) { heap!(n, LocalHeapRB, u8, any_len::<u8>()).adet(who as u8, fin as u8) }
}
