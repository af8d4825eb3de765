//! Runtime of the workers: calling the code under test, catching panics, counting allocations,
//! fault injection into file reads, coverage counters, shared state with the driver.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicUsize, Ordering::*};

// ---- shared state (memory-mapped file the driver looks at) ----------------------------------

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// layout: 0 case counter, 1 in-target flag, 2 rng seed of the case, 3 tape length (u64 each), then the tape (u32)
static SHARED: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
pub const SHARED_WORDS: usize = 4;
pub const SHARED_TAPE: usize = crate::tape::MAX_TAPE;

pub fn map_shared(path: &str) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("shared file");
    let len = SHARED_WORDS * 8 + SHARED_TAPE * 4;
    f.set_len(len as u64).expect("shared file size");
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        panic!("mmap");
    }
    SHARED.store(p as *mut u64, SeqCst);
}

pub fn publish(case: u64, seed: u64, tape: &[u32]) {
    let p = SHARED.load(Relaxed);
    if p.is_null() {
        return;
    }
    unsafe {
        let n = tape.len().min(SHARED_TAPE);
        *p.add(1) = 0;
        *p.add(2) = seed;
        *p.add(3) = n as u64;
        std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(SHARED_WORDS) as *mut u32, n);
        *p.add(0) = case + 1;
    }
}

fn flag(v: u64) {
    let p = SHARED.load(Relaxed);
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p.add(1), v) }
    }
}

pub fn limit_memory(bytes: u64) {
    let l = [bytes, bytes];
    unsafe {
        setrlimit(9, &l);
    }
}

pub fn no_core() {
    let l = [0u64, 0u64];
    unsafe {
        setrlimit(4, &l);
    }
}

// ---- calls into the code under test -----------------------------------------------------------

thread_local! {
    static DEPTH: Cell<u32> = Cell::new(0);
    static PANIC: RefCell<Option<(bool, String)>> = RefCell::new(None);
}

/// runs code under test: panics inside are attributed to it
pub fn tgt<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            DEPTH.with(|d| {
                d.set(d.get() - 1);
                if d.get() == 0 {
                    flag(0);
                }
            })
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    flag(1);
    let _g = G;
    f()
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inside = DEPTH.with(|d| d.get() > 0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((inside, format!("{} at {}", msg, loc)));
            }
        });
    }));
}

pub fn take_panic() -> Option<(bool, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

// ---- allocation accounting --------------------------------------------------------------------

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn live_bytes() -> i64 {
    LIVE.load(SeqCst)
}

// ---- fault injection into open and read ---------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Fault {
    /// read fails with this errno once the given number of bytes has been delivered
    ReadErr(usize, i32),
    /// open fails with this errno
    OpenErr(i32),
    /// reads deliver at most this many bytes; every k-th read is interrupted (0: never)
    Choppy(usize, usize),
}

thread_local! {
    static FAULT: RefCell<Option<FaultState>> = RefCell::new(None);
}

#[derive(Clone)]
struct FaultState {
    fault: Fault,
    delivered: usize,
    reads: usize,
    fired: usize,
}

/// runs f with the fault active for this thread; returns how often it fired
pub fn with_fault<R>(fault: Fault, f: impl FnOnce() -> R) -> (R, usize) {
    FAULT.with(|x| *x.borrow_mut() = Some(FaultState { fault, delivered: 0, reads: 0, fired: 0 }));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            FAULT.with(|x| *x.borrow_mut() = None);
        }
    }
    let g = G;
    let r = f();
    let fired = FAULT.with(|x| x.borrow().as_ref().map_or(0, |s| s.fired));
    drop(g);
    (r, fired)
}

unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}

enum Act {
    Pass(usize),
    Err(i32),
}

fn plan_read(len: usize) -> Option<Act> {
    FAULT
        .try_with(|x| {
            let mut b = match x.try_borrow_mut() {
                Ok(b) => b,
                Err(_) => return None,
            };
            let s = match b.as_mut() {
                Some(s) => s,
                None => return None,
            };
            s.reads += 1;
            match s.fault {
                Fault::ReadErr(at, e) => {
                    if s.delivered >= at {
                        s.fired += 1;
                        Some(Act::Err(e))
                    } else {
                        Some(Act::Pass(len.min(at - s.delivered)))
                    }
                }
                Fault::OpenErr(_) => None,
                Fault::Choppy(n, k) => {
                    s.fired += 1;
                    if k > 0 && s.reads % k == 0 {
                        Some(Act::Err(4))
                    } else {
                        Some(Act::Pass(len.min(n)))
                    }
                }
            }
        })
        .unwrap_or(None)
}

fn account(n: isize) {
    if n > 0 {
        let _ = FAULT.try_with(|x| {
            if let Ok(mut b) = x.try_borrow_mut() {
                if let Some(s) = b.as_mut() {
                    s.delivered += n as usize;
                }
            }
        });
    }
}

fn sys_ret(r: i64) -> isize {
    r as isize
}

#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    match plan_read(len) {
        None => sys_ret(syscall(0, fd as i64, buf, len)),
        Some(Act::Err(e)) => fail(e),
        Some(Act::Pass(n)) => {
            let r = sys_ret(syscall(0, fd as i64, buf, n));
            account(r);
            r
        }
    }
}

fn plan_open() -> Option<i32> {
    FAULT
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut b) => match b.as_mut() {
                Some(s) => {
                    if let Fault::OpenErr(e) = s.fault {
                        s.fired += 1;
                        Some(e)
                    } else {
                        None
                    }
                }
                None => None,
            },
            Err(_) => None,
        })
        .unwrap_or(None)
}

#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(e) = plan_open() {
        return fail(e) as i32;
    }
    // openat(AT_FDCWD, ...)
    syscall(257, -100i64, path, flags as i64, mode as i64) as i32
}

// ---- what the code under test writes to standard output and error ------------------------------

/// runs f with fds 1 and 2 redirected into files; returns what arrived there
pub fn captured<R>(dir: &str, f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    use std::io::Write;
    use std::os::unix::io::AsRawFd;
    let path = format!("{}/captured-{}", dir, std::process::id());
    let _ = std::io::stdout().flush();
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("capture file");
    struct G(i32, i32);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe {
                dup2(self.0, 1);
                dup2(self.1, 2);
                let _ = syscall(3, self.0 as i64);
                let _ = syscall(3, self.1 as i64);
            }
        }
    }
    let g = unsafe {
        let g = G(dup(1), dup(2));
        dup2(file.as_raw_fd(), 1);
        dup2(file.as_raw_fd(), 2);
        g
    };
    let r = f();
    let _ = std::io::stdout().flush();
    drop(g);
    let out = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    (r, out)
}

// ---- coverage counters (filled when the code under test is built with SanitizerCoverage) --------

static mut REGIONS: Vec<(usize, usize)> = Vec::new();

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    #[allow(static_mut_refs)]
    unsafe {
        let r = (start as usize, stop as usize);
        if r.0 < r.1 && !REGIONS.contains(&r) {
            REGIONS.push(r);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}


pub fn coverage_size() -> usize {
    #[allow(static_mut_refs)]
    unsafe {
        REGIONS.iter().map(|r| r.1 - r.0).sum()
    }
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// merges the counters into `seen` and clears them; true if something new was reached
pub fn harvest(seen: &mut Vec<u8>) -> bool {
    let mut fresh = false;
    let mut k = 0;
    #[allow(static_mut_refs)]
    unsafe {
        for r in REGIONS.iter() {
            for a in r.0..r.1 {
                let p = a as *mut u8;
                let c = *p;
                if c != 0 {
                    if k >= seen.len() {
                        seen.resize(coverage_size(), 0);
                    }
                    let b = bucket(c);
                    if seen[k] & b == 0 {
                        seen[k] |= b;
                        fresh = true;
                    }
                    *p = 0;
                }
                k += 1;
            }
        }
    }
    fresh
}

pub fn clear_counters() {
    #[allow(static_mut_refs)]
    unsafe {
        for r in REGIONS.iter() {
            std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0);
        }
    }
}

// ---- log records of the code under test ---------------------------------------------------------

thread_local! {
    static RECORDS: RefCell<Option<Vec<(usize, String)>>> = RefCell::new(None);
    static LEVEL: Cell<usize> = Cell::new(0);
}
static SEEN: AtomicUsize = AtomicUsize::new(0);

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, m: &log::LogMetadata) -> bool {
        m.level() as usize <= LEVEL.with(|l| l.get())
    }
    fn log(&self, r: &log::LogRecord) {
        let level = r.level() as usize;
        if level > LEVEL.with(|l| l.get()) {
            return;
        }
        SEEN.fetch_add(1, Relaxed);
        // formatting runs Display and Debug code of the code under test
        let text = format!("{}", r.args());
        RECORDS.with(|x| {
            if let Some(ref mut v) = *x.borrow_mut() {
                v.push((level, text));
            }
        });
    }
}

static FILTER: std::sync::OnceLock<log::MaxLogLevelFilter> = std::sync::OnceLock::new();

pub fn install_logger() {
    let _ = log::set_logger(|max| {
        max.set(log::LogLevelFilter::Off);
        let _ = FILTER.set(max);
        Box::new(Logger)
    });
}

/// 0 off, 1 error, 2 warn, 3 info, 4 debug, 5 trace
pub fn set_level(l: usize) {
    LEVEL.with(|x| x.set(l));
    if let Some(f) = FILTER.get() {
        f.set(match l {
            0 => log::LogLevelFilter::Off,
            1 => log::LogLevelFilter::Error,
            2 => log::LogLevelFilter::Warn,
            3 => log::LogLevelFilter::Info,
            4 => log::LogLevelFilter::Debug,
            _ => log::LogLevelFilter::Trace,
        });
    }
}

pub fn records_seen() -> usize {
    SEEN.load(Relaxed)
}

/// runs f at the log level and returns the records it made
pub fn logged<R>(level: usize, f: impl FnOnce() -> R) -> (R, Vec<(usize, String)>) {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            set_level(self.0);
            RECORDS.with(|x| *x.borrow_mut() = None);
        }
    }
    RECORDS.with(|x| *x.borrow_mut() = Some(Vec::new()));
    let g = G(LEVEL.with(|l| l.get()));
    set_level(level);
    let r = f();
    let v = RECORDS.with(|x| x.borrow_mut().take()).unwrap_or_default();
    drop(g);
    (r, v)
}

// ---- small stacks -------------------------------------------------------------------------------

/// runs f on a thread with a stack of this size; a panic goes on in the calling thread
pub fn on_stack<R: Send>(bytes: usize, f: impl FnOnce() -> R + Send) -> R {
    let out = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(s, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                (r, take_panic())
            })
            .expect("thread")
            .join()
    });
    match out {
        Ok((Ok(r), _)) => r,
        Ok((Err(e), p)) => {
            if let Some(p) = p {
                PANIC.with(|x| *x.borrow_mut() = Some(p));
            }
            std::panic::resume_unwind(e)
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}
