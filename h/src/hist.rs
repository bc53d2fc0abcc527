//! Histories from a fresh buffer: every step is any operation of any iterator.
use crate::core::*;
use crate::nd;
use crate::{heap, stack};
use mutringbuf::*;

impl<'b, B: MutRB<Item = T>, T: Val, const WK: bool> Sys<'b, B, T, WK> {
    fn step_p(&mut self) {
        match nd::upto(8) {
            0 => self.op_push(false),
            1 => self.op_push(true),
            2 => self.op_push_slice::<2>(0),
            3 => self.op_push_slice::<2>(3),
            4 => self.op_item_mut(P, 1),
            5 => self.op_slice_mut(P, 0, 0),
            6 => self.op_slice_mut(P, 1, 0),
            7 => self.op_advance(P),
            _ => self.ck_avail(P),
        }
    }
    fn step_w(&mut self) {
        match nd::upto(5) {
            0 => self.op_item_mut(W, 0),
            1 => self.op_slice_mut(W, 0, 0),
            2 => self.op_slice_mut(W, 1, 0),
            3 => self.op_reset(W),
            4 => self.op_advance(W),
            _ => self.ck_avail(W),
        }
    }
    fn step_c(&mut self) {
        match nd::upto(9) {
            0 => self.op_take_item(0),
            1 => self.op_take_item(2),
            2 => self.op_take_item(4),
            3 => self.op_take_slice::<2>(0),
            4 => self.op_take_slice::<2>(1),
            5 => self.op_take_slice::<2>(2),
            6 => self.op_item_mut(C, 0),
            7 => self.op_reset(C),
            8 => self.op_advance(C),
            _ => self.ck_avail(C),
        }
    }
    fn step(&mut self) {
        match nd::upto(if WK { 2 } else { 1 }) {
            0 => self.step_p(),
            1 => self.step_c(),
            _ => self.step_w(),
        }
        self.ck_state();
    }
    pub fn history(mut self, steps: usize) {
        let mut i = 0;
        while i < steps {
            self.step();
            i += 1;
        }
        self.ck_avails();
        self.leak();
    }
}

crate::hs! {
    hi_cw(n, steps) { heap!(w, ConcurrentHeapRB, u8, n as usize).history(steps as usize) }
    hi_cn(n, steps) { heap!(n, ConcurrentHeapRB, u8, n as usize).history(steps as usize) }
    hi_lw(n, steps) { stack!(w, LocalStackRB, u16, by n, s => s.history(steps as usize)) }
    hi_ln(n, steps) { stack!(n, LocalStackRB, u16, by n, s => s.history(steps as usize)) }
}
