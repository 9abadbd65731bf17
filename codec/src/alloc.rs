//! Counts what is allocated by interposing the C allocator (Rust's own goes through it too).
//! Not in AddressSanitizer builds, which interpose it themselves.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// requests which would take BYTES beyond this fail (0 = no limit)
pub static LIMIT: AtomicU64 = AtomicU64::new(0);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);
pub const COUNTS: bool = cfg!(not(asan));

pub fn live() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
/// from now on: peak = what is live, at most `extra` bytes more may be allocated
pub fn limit(extra: u64) {
    let b = BYTES.load(Relaxed);
    PEAK.store(b, Relaxed);
    REFUSED.store(0, Relaxed);
    RUST_MAX.store(0, Relaxed);
    LIMIT.store(if extra == 0 { 0 } else { b.max(0) as u64 + extra }, Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn refused() -> u64 {
    REFUSED.load(Relaxed)
}

/// the largest single request of Rust code (collections of the library) since limit()
pub static RUST_MAX: AtomicU64 = AtomicU64::new(0);
pub fn rust_max() -> u64 {
    RUST_MAX.load(Relaxed)
}
/// Rust's allocations are counted, but not refused: there is nothing its collections could do about it.
pub struct Global;
#[cfg(not(asan))]
#[global_allocator]
static GLOBAL: Global = Global;
#[cfg(not(asan))]
unsafe impl std::alloc::GlobalAlloc for Global {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        RUST_MAX.fetch_max(l.size() as u64, Relaxed);
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        hooks::add(if l.align() <= 16 { hooks::__libc_malloc(l.size()) } else { hooks::__libc_memalign(l.align(), l.size()) }) as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        RUST_MAX.fetch_max(l.size() as u64, Relaxed);
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        if l.align() <= 16 {
            return hooks::add(hooks::__libc_calloc(1, l.size())) as *mut u8;
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, _: std::alloc::Layout) {
        hooks::free(p as *mut _)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        RUST_MAX.fetch_max(n as u64, Relaxed);
        if n > 1 << 30 {
            return std::ptr::null_mut();
        }
        if l.align() > 16 {
            let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let p = p as *mut libc::c_void;
        hooks::sub(p);
        let q = hooks::__libc_realloc(p, n);
        hooks::add(if q.is_null() { p } else { q });
        q as *mut u8
    }
}

#[cfg(not(asan))]
mod hooks {
    use super::*;
    use libc::{c_int, c_void, size_t};
    extern "C" {
        pub fn __libc_malloc(n: size_t) -> *mut c_void;
        pub fn __libc_calloc(n: size_t, m: size_t) -> *mut c_void;
        pub fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
        fn __libc_free(p: *mut c_void);
        pub fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
        fn malloc_usable_size(p: *mut c_void) -> size_t;
    }
    fn ok(n: usize) -> bool {
        let l = LIMIT.load(Relaxed);
        if l != 0 && (BYTES.load(Relaxed).max(0) as u64).saturating_add(n as u64) > l {
            REFUSED.fetch_add(1, Relaxed);
            return false;
        }
        true
    }
    pub unsafe fn add(p: *mut c_void) -> *mut c_void {
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            let n = malloc_usable_size(p) as i64;
            let b = BYTES.fetch_add(n, Relaxed) + n;
            if b > PEAK.load(Relaxed) {
                PEAK.store(b, Relaxed);
            }
        }
        p
    }
    pub unsafe fn sub(p: *mut c_void) {
        if !p.is_null() {
            BLOCKS.fetch_sub(1, Relaxed);
            BYTES.fetch_sub(malloc_usable_size(p) as i64, Relaxed);
        }
    }
    unsafe fn no() -> *mut c_void {
        *libc::__errno_location() = libc::ENOMEM;
        std::ptr::null_mut()
    }
    #[no_mangle]
    unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
        if !ok(n) {
            return no();
        }
        add(__libc_malloc(n))
    }
    #[no_mangle]
    unsafe extern "C" fn calloc(n: size_t, m: size_t) -> *mut c_void {
        if !ok(n.saturating_mul(m)) {
            return no();
        }
        add(__libc_calloc(n, m))
    }
    #[no_mangle]
    unsafe extern "C" fn realloc(p: *mut c_void, n: size_t) -> *mut c_void {
        if p.is_null() {
            return malloc(n);
        }
        let old = malloc_usable_size(p);
        if n > old && !ok(n - old) {
            return no();
        }
        let q = __libc_realloc(p, n);
        if !q.is_null() {
            BLOCKS.fetch_sub(1, Relaxed);
            BYTES.fetch_sub(old as i64, Relaxed);
            add(q);
        } else if n == 0 {
            BLOCKS.fetch_sub(1, Relaxed);
            BYTES.fetch_sub(old as i64, Relaxed);
        }
        q
    }
    #[no_mangle]
    pub unsafe extern "C" fn free(p: *mut c_void) {
        sub(p);
        __libc_free(p)
    }
    #[no_mangle]
    unsafe extern "C" fn memalign(a: size_t, n: size_t) -> *mut c_void {
        if !ok(n) {
            return no();
        }
        add(__libc_memalign(a, n))
    }
    #[no_mangle]
    unsafe extern "C" fn aligned_alloc(a: size_t, n: size_t) -> *mut c_void {
        memalign(a, n)
    }
    #[no_mangle]
    unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: size_t, n: size_t) -> c_int {
        let p = memalign(a, n);
        if p.is_null() {
            return libc::ENOMEM;
        }
        *out = p;
        0
    }
}
