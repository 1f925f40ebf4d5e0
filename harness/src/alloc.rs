//! Per-thread heap accounting. `CAP` bounds what one case may hold: exceeding it prints the case and exits.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static BASE: Cell<usize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CASE: Cell<(*const u8, usize, *const u8, usize)> = const { Cell::new((std::ptr::null(), 0, std::ptr::null(), 0)) };
}
pub const CAP: usize = 1 << 28;
pub const EXIT_CAP: i32 = 77;
pub const EXIT_CRASH: i32 = 79;

extern "C" {
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

fn grow(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get().wrapping_add(n);
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if (v as isize) > (p.get() as isize) {
                p.set(v)
            }
        });
        let over = ARMED.try_with(|a| a.get()).unwrap_or(false)
            && (v.wrapping_sub(BASE.try_with(|b| b.get()).unwrap_or(0)) as isize) > CAP as isize;
        if over {
            report(b"\nOVERCAP ", EXIT_CAP);
        }
    });
}

fn report(s: &[u8], code: i32) -> ! {
    let (a, b, c, d) = CASE.with(|c| c.get());
    unsafe {
        write(1, s.as_ptr().cast(), s.len());
        write(1, a.cast(), b);
        write(1, b" ".as_ptr().cast(), 1);
        let hexd = b"0123456789abcdef";
        for i in 0..d.min(1 << 16) {
            let x = *c.add(i);
            let o = [hexd[(x >> 4) as usize], hexd[(x & 15) as usize]];
            write(1, o.as_ptr().cast(), 2);
        }
        write(1, b"\n".as_ptr().cast(), 1);
        _exit(code)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = CUR.try_with(|c| c.set(c.get().wrapping_sub(l.size())));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the old and the new block may both be live
        grow(n);
        let r = System.realloc(p, l, n);
        let _ = CUR.try_with(|c| c.set(c.get().wrapping_sub(l.size())));
        r
    }
}

extern "C" fn on_signal(_: i32) {
    report(b"\nCRASH ", EXIT_CRASH)
}
/// Aborts and stack overflows also name the running case (std gives every thread an alternate stack).
pub fn install_signals() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_signal as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// Declare the running case (for the over-cap report) and arm the cap.
pub fn arm(name: &str, input: &[u8]) {
    CASE.with(|c| c.set((name.as_ptr(), name.len(), input.as_ptr(), input.len())));
    BASE.with(|b| b.set(CUR.with(|c| c.get())));
    ARMED.with(|a| a.set(true));
}
pub fn disarm() {
    ARMED.with(|a| a.set(false));
}

/// Peak heap growth while running `f`.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let p = PEAK.with(|p| p.get()).wrapping_sub(base);
    (r, p)
}
