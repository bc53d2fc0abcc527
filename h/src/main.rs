//! Replays a counterexample against the real code: `replay <harness> a,b,c,d <tape file>`.
//! Exit 101 and a line `REPLAY-VIOLATION ...` when the property is violated, 0 when it is not.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// big arrays: (address, length)
static BIG: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

thread_local! {
    /// running code of the harness, not of this program
    static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn count(d: isize) {
    if ON.with(|c| c.get()) {
        LIVE.fetch_add(d as usize, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1);
        if p as usize == BIG[0].load(SeqCst) && !p.is_null() {
            return;
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

enum Item {
    V(u64),
    A(usize, Vec<u8>),
}
static TAPE: Mutex<(Vec<Item>, usize)> = Mutex::new((Vec::new(), 0));
static EXPECT: Mutex<Option<&'static str>> = Mutex::new(None);

fn bad(kind: &str, msg: &str) -> ! {
    println!("REPLAY-VIOLATION {kind}: {msg}");
    std::process::exit(101)
}

fn val() -> u64 {
    let mut t = TAPE.lock().unwrap();
    let i = t.1;
    t.1 += 1;
    match t.0.get(i) {
        Some(Item::V(v)) => *v,
        Some(_) => {
            println!("REPLAY-DIVERGED array where a value was expected at {i}");
            std::process::exit(78)
        }
        None => 0,
    }
}

#[no_mangle]
extern "C" fn vp_u8() -> u8 {
    val() as u8
}
#[no_mangle]
extern "C" fn vp_u16() -> u16 {
    val() as u16
}
#[no_mangle]
extern "C" fn vp_u32() -> u32 {
    val() as u32
}
#[no_mangle]
extern "C" fn vp_u64() -> u64 {
    val()
}
#[no_mangle]
extern "C" fn vp_bool() -> u8 {
    (val() != 0) as u8
}
#[no_mangle]
extern "C" fn vp_upto(max: u64) -> u64 {
    let v = val();
    vp_assume(v <= max);
    v
}
#[no_mangle]
extern "C" fn vp_len(max: u64) -> u64 {
    let v = val();
    vp_assume(v <= max);
    v
}
#[no_mangle]
extern "C" fn vp_array(n: u64, align: u64) -> *mut u8 {
    let mut t = TAPE.lock().unwrap();
    let i = t.1;
    t.1 += 1;
    let (n, data) = match t.0.get(i) {
        Some(Item::A(m, d)) => {
            if *m != n as usize {
                println!("REPLAY-DIVERGED array length {n}, expected {m}");
                std::process::exit(78)
            }
            (*m, d.as_slice())
        }
        Some(_) => {
            println!("REPLAY-DIVERGED value where an array was expected at {i}");
            std::process::exit(78)
        }
        None => (n as usize, &[][..]),
    };
    unsafe {
        if n == 0 {
            return align as *mut u8;
        }
        if n > 1 << 22 {
            // address space only
            #[cfg(not(feature = "vmem"))]
            extern "C" {
                fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
            }
            #[cfg(feature = "vmem")]
            use vm::raw_mmap as mmap;
            let p = mmap(core::ptr::null_mut(), n, 3, 0x4022, -1, 0);
            if p as isize == -1 {
                println!("REPLAY-TOO-BIG {n} bytes");
                std::process::exit(79)
            }
            BIG[0].store(p as usize, SeqCst);
            BIG[1].store(n, SeqCst);
            count(1);
            return p;
        }
        let p = std::alloc::alloc_zeroed(Layout::from_size_align(n, align as usize).unwrap());
        core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len().min(n));
        p
    }
}
#[no_mangle]
extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("REPLAY-DIVERGED assumption");
        std::process::exit(78)
    }
}
fn text(p: *const u8, n: usize) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
}
#[no_mangle]
extern "C" fn vp_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let (tags, msg) = text(p, n).split_once('|').unwrap();
        if let Ok(prop) = std::env::var("VP_PROP") {
            if tags != "*" && !tags.split(' ').any(|t| t == prop) {
                return;
            }
        }
        bad("assert", msg)
    }
}
#[no_mangle]
extern "C" fn vp_cover(_: bool, _: *const u8, _: usize) {}
#[no_mangle]
extern "C" fn vp_expect_panic(p: *const u8, n: usize) {
    *EXPECT.lock().unwrap() = Some(text(p, n));
}
#[no_mangle]
extern "C" fn vp_live() -> u64 {
    LIVE.load(SeqCst) as u64
}
/// keeps account of what the code under test maps
#[cfg(feature = "vmem")]
mod vm {
    use std::sync::Mutex;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    /// what is mapped: (start, end)
    pub static MAPS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
    fn up(n: usize) -> usize {
        (n + 4095) / 4096 * 4096
    }
    pub fn bytes() -> usize {
        MAPS.lock().unwrap().iter().map(|r| r.1 - r.0).sum()
    }
    pub unsafe fn raw_mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8 {
        syscall(9, a, n, p as i64, f as i64, fd as i64, o) as *mut u8
    }
    fn watched<R>(f: impl FnOnce() -> R) -> Option<R> {
        if super::ON.try_with(|c| c.replace(false)).unwrap_or(false) {
            let r = f();
            super::ON.with(|c| c.set(true));
            Some(r)
        } else {
            None
        }
    }
    fn owned(a: usize, b: usize) -> bool {
        let m = MAPS.lock().unwrap();
        // ranges are kept apart, in order and joined
        m.iter().any(|r| r.0 <= a && b <= r.1)
    }
    fn forget(a: usize, b: usize) {
        let mut m = MAPS.lock().unwrap();
        let old = std::mem::take(&mut *m);
        for (x, y) in old {
            if x < a.min(y) {
                m.push((x, a.min(y)));
            }
            if b.max(x) < y {
                m.push((b.max(x), y));
            }
        }
    }
    #[no_mangle]
    unsafe extern "C" fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8 {
        let on = watched(|| {
            if f & 0x10 != 0 && n > 0 && a as usize % 4096 == 0 && !owned(a as usize, a as usize + up(n)) {
                super::bad("memory", "mmap over memory that was not mapped")
            }
        })
        .is_some();
        let r = raw_mmap(a, n, p, f, fd, o);
        if on && r as isize != -1 {
            watched(|| {
                forget(r as usize, r as usize + up(n));
                let mut m = MAPS.lock().unwrap();
                m.push((r as usize, r as usize + up(n)));
                m.sort();
                let mut out: Vec<(usize, usize)> = Vec::new();
                for &(x, y) in m.iter() {
                    match out.last_mut() {
                        Some(l) if l.1 == x && f & 0x10 != 0 => l.1 = y,
                        _ => out.push((x, y)),
                    }
                }
                *m = out;
            });
        }
        r
    }
    #[no_mangle]
    unsafe extern "C" fn mmap64(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8 {
        mmap(a, n, p, f, fd, o)
    }
    #[no_mangle]
    unsafe extern "C" fn munmap(a: *mut u8, n: usize) -> i32 {
        watched(|| {
            let a = a as usize;
            if n > 0 && a % 4096 == 0 {
                if !owned(a, a + up(n)) {
                    super::bad("memory", "munmap of memory that was not mapped")
                }
                forget(a, a + up(n));
            }
        });
        if n > 0 && a as usize % 4096 == 0 {
            syscall(11, a, n) as i32
        } else {
            -1
        }
    }
}
#[no_mangle]
extern "C" fn vp_maps() -> u64 {
    #[cfg(feature = "vmem")]
    {
        ON.with(|c| c.set(false));
        let r = vm::bytes() as u64;
        ON.with(|c| c.set(true));
        return r;
    }
    #[cfg(not(feature = "vmem"))]
    0
}
#[no_mangle]
extern "C" fn vp_split(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vp_concretize(v: u64) -> u64 {
    v
}

type Th = unsafe extern "C" fn(*mut u8);
static THREADS: Mutex<Vec<(Th, usize)>> = Mutex::new(Vec::new());
#[no_mangle]
extern "C" fn vp_spawn(f: Th, arg: *mut u8) {
    ON.with(|c| c.set(false));
    THREADS.lock().unwrap().push((f, arg as usize));
    ON.with(|c| c.set(true));
}
#[no_mangle]
extern "C" fn vp_join(f: Th, arg: *mut u8) {
    ON.with(|c| c.set(false));
    let ts = std::mem::take(&mut *THREADS.lock().unwrap());
    let n = ts.len();
    let gate = std::sync::Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = ts
        .into_iter()
        .map(|(f, a)| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.fetch_add(1, SeqCst);
                while gate.load(SeqCst) < n {
                    std::thread::yield_now();
                }
                ON.with(|c| c.set(true));
                unsafe { f(a as *mut u8) };
                ON.with(|c| c.set(false));
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    ON.with(|c| c.set(true));
    unsafe { f(arg) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    let mut items = Vec::new();
    for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("v") => items.push(Item::V(w.next().unwrap().parse().unwrap())),
            Some("a") => {
                let n = w.next().unwrap().parse().unwrap();
                items.push(Item::A(n, w.map(|x| x.parse().unwrap()).collect()))
            }
            _ => {}
        }
    }
    TAPE.lock().unwrap().0 = items;
    std::panic::set_hook(Box::new(|i| {
        if let Some(m) = *EXPECT.lock().unwrap() {
            println!("REPLAY-OK expected panic: {m}");
            std::process::exit(0)
        }
        bad("panic", &i.to_string().replace('\n', " "))
    }));
    let f = mrbh::find(&a[1]).unwrap_or_else(|| panic!("no harness {}", a[1]));
    ON.with(|c| c.set(true));
    f(g(0), g(1), g(2), g(3));
    ON.with(|c| c.set(false));
    if let Some(m) = *EXPECT.lock().unwrap() {
        bad("assert", &format!("no panic: {m}"))
    }
    println!("REPLAY-OK");
}
