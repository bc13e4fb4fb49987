//! Monitors: the storage reader, the allocator, CPU and step limits.

use crate::disk::Disk;
use ext4_view::Ext4Read;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- reader

/// The error that the monitored reader returns; `id` is unique per failure.
#[derive(Debug, PartialEq, Eq)]
pub struct MonErr {
    pub id: u64,
}
impl fmt::Display for MonErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected error {}", self.id)
    }
}
impl Error for MonErr {}

#[derive(Clone, Debug, Default)]
pub enum Fault {
    #[default]
    None,
    /// Reads with index in [a, b) fail.
    Reads(u64, u64),
    /// Reads touching bytes [a, b) fail, at most `n` times.
    Bytes(u64, u64, u64),
}

pub struct Shared {
    pub disk: Disk,
    /// Bytes that the library may request.
    pub len: Cell<u64>,
    pub reads: Cell<u64>,
    pub bytes: Cell<u64>,
    pub log: RefCell<Option<Vec<(u64, usize)>>>,
    pub fault: RefCell<Fault>,
    pub next_err: Cell<u64>,
    /// Ids of all errors returned.
    pub fired: RefCell<Vec<u64>>,
    /// Requests beyond the end of the volume.
    pub oob: RefCell<Vec<(u64, usize)>>,
    pub max_end: Cell<u64>,
}

thread_local! {
    static TOTAL_BYTES: Cell<u64> = const { Cell::new(0) };
}

/// A deterministic measure of work done by the library so far.
pub fn work() -> u64 {
    crate::cov::steps() + TOTAL_BYTES.with(|t| t.get())
}

#[derive(Clone)]
pub struct Mon(pub Rc<Shared>);

impl Mon {
    pub fn new(disk: Disk) -> Mon {
        let len = disk.len;
        Mon(Rc::new(Shared {
            disk,
            len: Cell::new(len),
            reads: Cell::new(0),
            bytes: Cell::new(0),
            log: RefCell::new(None),
            fault: RefCell::new(Fault::None),
            next_err: Cell::new(1),
            fired: RefCell::new(vec![]),
            oob: RefCell::new(vec![]),
            max_end: Cell::new(0),
        }))
    }
    pub fn boxed(&self) -> Box<dyn Ext4Read> {
        Box::new(self.clone())
    }
    pub fn set_fault(&self, f: Fault) {
        *self.0.fault.borrow_mut() = f;
    }
    pub fn start_log(&self) {
        *self.0.log.borrow_mut() = Some(vec![]);
    }
    pub fn take_log(&self) -> Vec<(u64, usize)> {
        self.0.log.borrow_mut().replace(vec![]).unwrap_or_default()
    }
    pub fn reads(&self) -> u64 {
        self.0.reads.get()
    }
    pub fn fired(&self) -> usize {
        self.0.fired.borrow().len()
    }
}

impl Ext4Read for Mon {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        let s = &*self.0;
        let n = s.reads.get();
        s.reads.set(n + 1);
        s.bytes.set(s.bytes.get() + dst.len() as u64);
        TOTAL_BYTES.with(|t| t.set(t.get() + dst.len() as u64));
        if let Some(l) = s.log.borrow_mut().as_mut() {
            l.push((start, dst.len()));
        }
        let end = start.saturating_add(dst.len() as u64);
        s.max_end.set(s.max_end.get().max(end));
        let fail = match &mut *s.fault.borrow_mut() {
            Fault::None => false,
            Fault::Reads(a, b) => n >= *a && n < *b,
            Fault::Bytes(a, b, left) => {
                let hit = start < *b && end > *a && *left > 0;
                if hit {
                    *left -= 1;
                }
                hit
            }
        };
        let err = || {
            let id = s.next_err.get();
            s.next_err.set(id + 1);
            s.fired.borrow_mut().push(id);
            Box::new(MonErr { id })
        };
        if fail {
            // A failing reader may leave anything in the buffer.
            let half = dst.len() / 2;
            dst[half..].fill(0xa5);
            if half > 0 {
                s.disk.read(start, &mut dst[..half]);
            }
            return Err(err());
        }
        if end > s.len.get() || start.checked_add(dst.len() as u64).is_none() {
            s.oob.borrow_mut().push((start, dst.len()));
            dst.fill(0x5a);
            return Err(err());
        }
        if !s.disk.read(start, dst) {
            s.oob.borrow_mut().push((start, dst.len()));
            return Err(err());
        }
        Ok(())
    }
}

// ------------------------------------------------------------- allocator

pub struct Alloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// Live bytes above which requests are refused.
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static REFUSED: AtomicUsize = AtomicUsize::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

fn grow(n: usize) -> bool {
    let live = LIVE.load(Relaxed);
    if ARMED.load(Relaxed) {
        if n > BIGGEST.load(Relaxed) {
            BIGGEST.store(n, Relaxed);
        }
        if live.saturating_add(n) > LIMIT.load(Relaxed) {
            if REFUSED.load(Relaxed) < n {
                REFUSED.store(n, Relaxed);
            }
            return false;
        }
    }
    // (Single writer in workers; the parent's threads only need no limit.)
    let now = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if now > PEAK.load(Relaxed) && now < usize::MAX / 2 {
        PEAK.store(now, Relaxed);
    }
    true
}

/// Memory used since `mem_mark`: (peak over mark, largest request, largest refused).
pub fn mem_mark(extra: usize) -> usize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    BIGGEST.store(0, Relaxed);
    REFUSED.store(0, Relaxed);
    LIMIT.store(live.saturating_add(extra), Relaxed);
    ARMED.store(true, Relaxed);
    live
}
pub fn mem_stats(mark: usize) -> (usize, usize, usize) {
    ARMED.store(false, Relaxed);
    (
        PEAK.load(Relaxed).saturating_sub(mark),
        BIGGEST.load(Relaxed),
        REFUSED.load(Relaxed),
    )
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

// ---------------------------------------------------------- CPU and steps

#[repr(C)]
struct Timeval {
    sec: i64,
    usec: i64,
}
#[repr(C)]
struct Itimerval {
    interval: Timeval,
    value: Timeval,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setitimer(which: i32, new: *const Itimerval, old: *mut Itimerval) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn setrlimit(what: i32, r: *const Rlimit) -> i32;
}

pub const EXIT_STEPS: i32 = 97;
pub const EXIT_CPU: i32 = 98;

fn say(s: &str) {
    unsafe {
        write(2, s.as_ptr(), s.len());
    }
}

pub fn step_limit_hit() {
    say("harness: step limit exceeded inside the library\n");
    unsafe { _exit(EXIT_STEPS) }
}

extern "C" fn on_prof(_: i32) {
    say("harness: CPU time limit for the case exceeded\n");
    unsafe { _exit(EXIT_CPU) }
}

/// Set the CPU time left for this process before it is stopped.
pub fn cpu_limit(secs: u64) {
    unsafe {
        signal(27, on_prof as extern "C" fn(i32) as usize);
        let t = Itimerval {
            interval: Timeval { sec: 0, usec: 0 },
            value: Timeval { sec: secs as i64, usec: 0 },
        };
        setitimer(2, &t, std::ptr::null_mut());
    }
}

pub fn no_core() {
    unsafe {
        let r = Rlimit { cur: 0, max: 0 };
        setrlimit(4, &r);
    }
}
