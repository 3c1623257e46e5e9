//! Counting allocators: Rust's (all builds) and libwebp's (sanitizer build that renames malloc/calloc/free)
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

thread_local! {
    static RUST: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static C_LIVE: Cell<i64> = const { Cell::new(0) };
    static C_CALLS: Cell<u64> = const { Cell::new(0) };
    static FAIL: Cell<Fault> = const { Cell::new(Fault::None) };
}

pub struct Counting;

/// Which allocation of the C library fails
#[derive(Clone, Copy, Debug)]
pub enum Fault {
    None,
    /// the n-th of a call
    Nth(u64),
    /// all of at least this size
    From(usize),
}

/// Of all threads; only counted in the processes that ask for it
static TRACK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

pub fn track() {
    TRACK.store(true, Relaxed);
}

/// Bytes of Rust's heap in use since `track`
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// The largest number of bytes in use while `f` runs beyond those in use before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = live();
    PEAK.store(before, Relaxed);
    let v = f();
    (v, PEAK.load(Relaxed) - before)
}

/// Bytes of the whole heap in use, C libraries included
pub fn heap() -> i64 {
    let m = unsafe { libc::mallinfo2() };
    (m.uordblks + m.hblkhd) as i64
}

fn rust(n: i64, bytes: i64) {
    if TRACK.load(Relaxed) {
        let now = LIVE.fetch_add(bytes, Relaxed) + bytes;
        PEAK.fetch_max(now, Relaxed);
    }
    let _ = RUST.try_with(|r| {
        let v = r.get();
        r.set((v.0 + n, v.1 + bytes))
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rust(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rust(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rust(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rust(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

fn c_alloc(size: usize) -> bool {
    let n = C_CALLS.get();
    C_CALLS.set(n + 1);
    if match FAIL.get() {
        Fault::None => false,
        Fault::Nth(k) => n == k,
        Fault::From(s) => size >= s,
    } {
        return false;
    }
    C_LIVE.set(C_LIVE.get() + 1);
    true
}

#[no_mangle]
pub unsafe extern "C" fn mon_malloc(n: usize) -> *mut c_void {
    if c_alloc(n) {
        libc::malloc(n)
    } else {
        std::ptr::null_mut()
    }
}

#[no_mangle]
pub unsafe extern "C" fn mon_calloc(a: usize, b: usize) -> *mut c_void {
    if c_alloc(a.saturating_mul(b)) {
        libc::calloc(a, b)
    } else {
        std::ptr::null_mut()
    }
}

#[no_mangle]
pub unsafe extern "C" fn mon_free(p: *mut c_void) {
    if !p.is_null() {
        C_LIVE.set(C_LIVE.get() - 1);
        libc::free(p)
    }
}

/// What a call left behind on this thread
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Left {
    pub rust_blocks: i64,
    pub rust_bytes: i64,
    pub c_blocks: i64,
    pub c_calls: u64,
}

/// Run `f` (which must not return memory), with allocations of the C library failing
pub fn balance<T: Copy>(fail: Fault, f: impl FnOnce() -> T) -> (T, Left) {
    let (r, c) = (RUST.get(), C_LIVE.get());
    C_CALLS.set(0);
    FAIL.set(fail);
    let v = f();
    FAIL.set(Fault::None);
    let (r2, c2) = (RUST.get(), C_LIVE.get());
    (v, Left { rust_blocks: r2.0 - r.0, rust_bytes: r2.1 - r.1, c_blocks: c2 - c, c_calls: C_CALLS.get() })
}
