//! Platform instrumentation of the SUT process: counting allocator, substitutable wall clock.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
            ALLOCS.fetch_add(1, Ordering::Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
            ALLOCS.fetch_add(1, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        ALLOCS.fetch_sub(1, Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn live_bytes() -> i64 {
    BYTES.load(Ordering::SeqCst)
}
pub fn live_allocs() -> i64 {
    ALLOCS.load(Ordering::SeqCst)
}

const REAL: i64 = i64::MIN;
static CLOCK: AtomicI64 = AtomicI64::new(REAL);

pub fn set_clock(t: Option<i64>) {
    CLOCK.store(t.unwrap_or(REAL), Ordering::SeqCst);
}

/// Takes the place of libc's clock_gettime in this process: CLOCK_REALTIME can be substituted.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        let t = CLOCK.load(Ordering::SeqCst);
        if t != REAL {
            (*tp).tv_sec = t;
            (*tp).tv_nsec = 123_456_789;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, tp) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(tp: *mut libc::time_t) -> libc::time_t {
    let mut t: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    if !tp.is_null() {
        *tp = t.tv_sec;
    }
    t.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut t: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    if !tv.is_null() {
        (*tv).tv_sec = t.tv_sec;
        (*tv).tv_usec = t.tv_nsec / 1000;
    }
    0
}

pub fn limit_nofile(n: u64) {
    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
    unsafe {
        libc::setrlimit(libc::RLIMIT_NOFILE, &r);
    }
}

/// The replies go to the original standard output; whatever the server prints goes nowhere, so that an unread pipe can
/// never make it wait.
pub fn take_stdout() -> std::fs::File {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("null");
    unsafe {
        let out = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3);
        assert!(out > 2 && libc::dup2(null.as_raw_fd(), 1) == 1);
        std::fs::File::from_raw_fd(out)
    }
}
