//! Interface to the symbolic executor. Under symbolic execution every `vp_*` value is a fresh solver
//! variable; in the replay binary the same calls read a counterexample from a tape.
extern "C" {
    fn vp_u8() -> u8;
    fn vp_u16() -> u16;
    fn vp_u32() -> u32;
    fn vp_u64() -> u64;
    fn vp_bool() -> u8;
    fn vp_upto(max: u64) -> u64;
    fn vp_len(max: u64) -> u64;
    fn vp_array(n: u64, align: u64) -> *mut u8;
    fn vp_assume(c: bool);
    fn vp_check(c: bool, msg: *const u8, len: usize);
    fn vp_cover(c: bool, msg: *const u8, len: usize);
    fn vp_expect_panic(msg: *const u8, len: usize);
    fn vp_live() -> u64;
    fn vp_maps() -> u64;
    fn vp_concretize(v: u64) -> u64;
    fn vp_split(v: u64) -> u64;
    fn vp_spawn(f: unsafe extern "C" fn(*mut u8), arg: *mut u8);
    fn vp_join(f: unsafe extern "C" fn(*mut u8), arg: *mut u8);
}

pub fn u8() -> u8 {
    unsafe { vp_u8() }
}
pub fn u16() -> u16 {
    unsafe { vp_u16() }
}
pub fn u32() -> u32 {
    unsafe { vp_u32() }
}
pub fn u64() -> u64 {
    unsafe { vp_u64() }
}
pub fn usize() -> usize {
    unsafe { vp_u64() as usize }
}
pub fn bool() -> bool {
    unsafe { vp_bool() != 0 }
}
/// Any number in `0..=max`.
pub fn upto(max: usize) -> usize {
    unsafe { vp_upto(max as u64) as usize }
}
/// Any number in `lo..=hi`, split into one path per value (for loop bounds and array lengths).
pub fn each(lo: usize, hi: usize) -> usize {
    unsafe { vp_concretize(lo as u64 + vp_upto((hi - lo) as u64)) as usize }
}
/// As `each`; the paths stay separate for good.
pub fn split(lo: usize, hi: usize) -> usize {
    unsafe { vp_split(lo as u64 + vp_upto((hi - lo) as u64)) as usize }
}
pub fn conc(v: usize) -> usize {
    unsafe { vp_concretize(v as u64) as usize }
}
/// Any number in `0..=max`; counterexamples are searched with small values first.
pub fn len(max: usize) -> usize {
    unsafe { vp_len(max as u64) as usize }
}
/// As `split`, for a number computed already.
pub fn fork(v: usize) -> usize {
    unsafe { vp_split(v as u64) as usize }
}
/// A thread that runs `f(arg)` once `join` is called.
pub fn spawn<T>(f: unsafe extern "C" fn(*mut T), arg: *mut T) {
    unsafe { vp_spawn(core::mem::transmute::<unsafe extern "C" fn(*mut T), unsafe extern "C" fn(*mut u8)>(f), arg as *mut u8) }
}
/// Runs the threads, then, alone, `f(arg)`.
pub fn join<T>(f: unsafe extern "C" fn(*mut T), arg: *mut T) {
    unsafe { vp_join(core::mem::transmute::<unsafe extern "C" fn(*mut T), unsafe extern "C" fn(*mut u8)>(f), arg as *mut u8) }
}
/// `n` bytes of fresh memory with arbitrary contents (owned by the caller).
pub fn array(n: usize, align: usize) -> *mut u8 {
    unsafe { vp_array(n as u64, align as u64) }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { vp_check(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(c: bool, msg: &'static str) {
    unsafe { vp_cover(c, msg.as_ptr(), msg.len()) }
}
/// The code that follows has to panic.
pub fn expect_panic(msg: &'static str) {
    unsafe { vp_expect_panic(msg.as_ptr(), msg.len()) }
}
/// Number of heap blocks alive.
pub fn live() -> usize {
    unsafe { vp_live() as usize }
}

/// Number of bytes the program has mapped itself.
pub fn maps() -> usize {
    unsafe { vp_maps() as usize }
}

/// Property assertion: counts for the properties named in the tags.
#[macro_export]
macro_rules! ck {
    ($tags:expr, $c:expr, $msg:expr) => {
        $crate::nd::check($c, concat!($tags, "|", $msg))
    };
}

/// Reachability witness.
#[macro_export]
macro_rules! cov {
    ($c:expr, $msg:expr) => {
        $crate::nd::cover($c, $msg)
    };
}

/// A harness entry point; the parameters select one of a family and are concrete.
pub type Entry = extern "C" fn(u64, u64, u64, u64);

/// Harness entry points. Native replay finds them by name in the table.
#[macro_export]
macro_rules! hs {
    ($($(#[$m:meta])* $name:ident($($a:ident),*) $body:block)*) => {
        $( $(#[$m])* $crate::hs!{@ $name [$($a)*] $body} )*
        pub const LIST: &[(&str, $crate::nd::Entry)] = &[
            $( $(#[$m])* (stringify!($name), $name) ),*
        ];
    };
    (@ $name:ident [] $body:block) => { $crate::hs!{@@ $name a b c d $body} };
    (@ $name:ident [$a:ident] $body:block) => { $crate::hs!{@@ $name $a b c d $body} };
    (@ $name:ident [$a:ident $b:ident] $body:block) => { $crate::hs!{@@ $name $a $b c d $body} };
    (@ $name:ident [$a:ident $b:ident $c:ident] $body:block) => { $crate::hs!{@@ $name $a $b $c d $body} };
    (@ $name:ident [$a:ident $b:ident $c:ident $d:ident] $body:block) => { $crate::hs!{@@ $name $a $b $c $d $body} };
    (@@ $name:ident $a:ident $b:ident $c:ident $d:ident $body:block) => {
        #[no_mangle]
        #[allow(unused_variables)]
        pub extern "C" fn $name($a: u64, $b: u64, $c: u64, $d: u64) $body
    };
}
