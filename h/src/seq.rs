//! One arbitrary operation from an arbitrary state.
use crate::core::*;
use crate::{nd, small};
use mutringbuf::*;

/// a quarter of the address space of a process
pub const MAX_BYTES: usize = 1 << 46;
/// any number of pages
#[cfg(feature = "vmem")]
pub fn any_len<T>() -> usize {
    let s = core::mem::size_of::<T>();
    let page = mutringbuf::vmem_helper::page_size();
    let k = nd::len(if s == 0 { isize::MAX as usize / page } else { MAX_BYTES / s / page });
    nd::assume(k >= 1);
    k * page
}
/// any length a Rust allocation of these items can have
#[cfg(not(feature = "vmem"))]
pub fn any_len<T>() -> usize {
    let s = core::mem::size_of::<T>();
    let n = nd::len(if s == 0 { isize::MAX as usize } else { MAX_BYTES / s });
    nd::assume(n >= 1);
    n
}

#[macro_export]
macro_rules! heap {
    (w, $B:ident, $T:ty, $n:expr) => {{
        let n = $n;
        let (p, w, c) = $B::<$T>::from(any_vec::<$T>(n)).split_mut();
        Sys::new(p, Some(w), c, n)
    }};
    (n, $B:ident, $T:ty, $n:expr) => {{
        let n = $n;
        let (p, c) = $B::<$T>::from(any_vec::<$T>(n)).split();
        Sys::new(p, None, c, n)
    }};
}
/// small concrete length
#[cfg(not(feature = "vmem"))]
#[macro_export]
macro_rules! small {
    (w, $B:ident, $T:ty, $n:expr) => {{
        let n = $n;
        let (p, w, c) = $B::<$T>::from(some_vec::<$T>(n)).split_mut();
        Sys::new(p, Some(w), c, n)
    }};
    (n, $B:ident, $T:ty, $n:expr) => {{
        let n = $n;
        let (p, c) = $B::<$T>::from(some_vec::<$T>(n)).split();
        Sys::new(p, None, c, n)
    }};
}
#[cfg(not(feature = "vmem"))]
#[macro_export]
macro_rules! stack {
    (w, $B:ident, $T:ty, $n:literal, $s:ident => $e:expr) => {{
        let mut b = $B::<$T, $n>::from(any_arr::<$T, $n>());
        let (p, w, c) = b.split_mut();
        let $s = Sys::new(p, Some(w), c, $n);
        $e
    }};
    (n, $B:ident, $T:ty, $n:literal, $s:ident => $e:expr) => {{
        let mut b = $B::<$T, $n>::from(any_arr::<$T, $n>());
        let (p, c) = b.split();
        let $s = Sys::new(p, None, c, $n);
        $e
    }};
    ($w:ident, $B:ident, $T:ty, by $len:expr, $s:ident => $e:expr) => {
        match $len {
            1 => $crate::stack!($w, $B, $T, 1, $s => $e),
            2 => $crate::stack!($w, $B, $T, 2, $s => $e),
            3 => $crate::stack!($w, $B, $T, 3, $s => $e),
            4 => $crate::stack!($w, $B, $T, 4, $s => $e),
            _ => $crate::stack!($w, $B, $T, 5, $s => $e),
        }
    };
}

/// not with whole pages
#[cfg(feature = "vmem")]
#[macro_export]
macro_rules! small {
    ($($t:tt)*) => {
        panic!("not in this configuration")
    };
}
#[cfg(feature = "vmem")]
#[macro_export]
macro_rules! stack {
    ($($t:tt)*) => {
        panic!("not in this configuration")
    };
}

crate::hs! {
    // any length, heap, u8 items
    sq_cw(who, sel, rounds) { heap!(w, ConcurrentHeapRB, u8, any_len::<u8>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    sq_cn(who, sel, rounds) { heap!(n, ConcurrentHeapRB, u8, any_len::<u8>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    sq_lw(who, sel, rounds) { heap!(w, LocalHeapRB, u8, any_len::<u8>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    sq_ln(who, sel, rounds) { heap!(n, LocalHeapRB, u8, any_len::<u8>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    // any length, zero-sized items
    sz_cw(who, sel, rounds) { heap!(w, ConcurrentHeapRB, (), any_len::<()>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    sz_ln(who, sel, rounds) { heap!(n, LocalHeapRB, (), any_len::<()>()).one::<3>(rounds as usize, who as u8, sel as u8) }
    // small fixed lengths, other item sizes
    #[cfg(not(feature = "vmem"))]
    sh_cw(who, sel, rounds, n) { small!(w, ConcurrentHeapRB, u32, n as usize).one::<4>(rounds as usize, who as u8, sel as u8) }
    #[cfg(not(feature = "vmem"))]
    sh_ln(who, sel, rounds, n) { small!(n, LocalHeapRB, B3, n as usize).one::<4>(rounds as usize, who as u8, sel as u8) }
    st_cw(who, sel, rounds, n) { stack!(w, ConcurrentStackRB, u32, by n, s => s.one::<4>(rounds as usize, who as u8, sel as u8)) }
    st_cn(who, sel, rounds, n) { stack!(n, ConcurrentStackRB, B3, by n, s => s.one::<4>(rounds as usize, who as u8, sel as u8)) }
    st_lw(who, sel, rounds, n) { stack!(w, LocalStackRB, u8, by n, s => s.one::<4>(rounds as usize, who as u8, sel as u8)) }
    st_ln(who, sel, rounds, n) { stack!(n, LocalStackRB, u64, by n, s => s.one::<4>(rounds as usize, who as u8, sel as u8)) }
}
