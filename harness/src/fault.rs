//! Faults in the file operations of the process: `read`, `write`, `open64`, `readdir64` and
//! `mmap64`/`mmap` of the C library are interposed by the binary itself. While a plan is armed,
//! operations on files below the plan's directory are counted and fail as planned; everything
//! else goes straight to the kernel.
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// only count
    Count,
    /// the operation fails once
    Once,
    /// this operation and all after it fail
    From,
    /// interrupted by a signal before anything happened: to be tried again
    Interrupt,
    /// reads and writes transfer part of what was asked for, and are interrupted now and then
    Short,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Read,
    Write,
    Open,
    List,
    Map,
}
pub const OPS: usize = 5;

pub struct Plan {
    dir: PathBuf,
    op: Op,
    at: usize,
    how: How,
    errno: c_int,
    pub seen: [AtomicUsize; OPS],
    /// failures handed out
    pub hits: AtomicUsize,
}

static ARMED: AtomicUsize = AtomicUsize::new(0);
static PLANS: Mutex<Vec<Arc<Plan>>> = Mutex::new(Vec::new());

pub struct Armed(pub Arc<Plan>);
impl Drop for Armed {
    fn drop(&mut self) {
        PLANS.lock().unwrap().retain(|p| !Arc::ptr_eq(p, &self.0));
        ARMED.fetch_sub(1, SeqCst);
    }
}
impl Armed {
    pub fn hits(&self) -> usize {
        self.0.hits.load(SeqCst)
    }
    pub fn seen(&self, op: Op) -> usize {
        self.0.seen[op as usize].load(SeqCst)
    }
}

pub fn arm(dir: &Path, op: Op, at: usize, how: How, errno: i32) -> Armed {
    let dir = dir.canonicalize().expect("directory");
    let p = Arc::new(Plan { dir, op, at, how, errno, seen: Default::default(), hits: AtomicUsize::new(0) });
    PLANS.lock().unwrap().push(p.clone());
    ARMED.fetch_add(1, SeqCst);
    Armed(p)
}

enum Act {
    Go,
    Fail(c_int),
    Part(u64),
}

/// Leaves `errno` as it was: readdir tells the end of a directory from an error by it, and waiting
/// for a lock here changes it.
fn keep_errno<R>(f: impl FnOnce() -> R) -> R {
    let before = unsafe { *__errno_location() };
    let r = f();
    unsafe { *__errno_location() = before };
    r
}

fn decide(op: Op, path: &Path) -> Act {
    keep_errno(|| decide_for(op, path))
}

fn decide_for(op: Op, path: &Path) -> Act {
    let plan = match PLANS.lock().unwrap().iter().find(|p| path.starts_with(&p.dir)) {
        Some(p) => p.clone(),
        None => return Act::Go,
    };
    let k = plan.seen[op as usize].fetch_add(1, SeqCst);
    if plan.op != op {
        return Act::Go;
    }
    let fail = match plan.how {
        How::Count => false,
        How::Once | How::Interrupt => k == plan.at,
        How::From => k >= plan.at,
        How::Short => {
            let h = crate::util::mix(plan.at as u64 ^ ((k as u64) << 20));
            plan.hits.fetch_add(1, SeqCst);
            return if h % 5 == 0 { Act::Fail(4) } else { Act::Part(h >> 8) };
        }
    };
    if fail {
        plan.hits.fetch_add(1, SeqCst);
        return Act::Fail(if plan.how == How::Interrupt { 4 } else { plan.errno });
    }
    Act::Go
}

fn decide_fd(op: Op, fd: c_int) -> Act {
    if ARMED.load(SeqCst) == 0 || fd < 0 {
        return Act::Go;
    }
    keep_errno(|| match std::fs::read_link(format!("/proc/self/fd/{}", fd)) {
        Ok(p) => decide_for(op, &p),
        Err(_) => Act::Go,
    })
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dirfd(d: *mut c_void) -> c_int;
}

unsafe fn fail(e: c_int) {
    *__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let n = match decide_fd(Op::Read, fd) {
        Act::Go => n,
        Act::Fail(e) => {
            fail(e);
            return -1;
        }
        Act::Part(h) => n.min(1 + h as usize % 300),
    };
    syscall(0, fd, b, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let n = match decide_fd(Op::Write, fd) {
        Act::Go => n,
        Act::Fail(e) => {
            fail(e);
            return -1;
        }
        Act::Part(h) => n.min(1 + h as usize % 300),
    };
    syscall(1, fd, b, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ARMED.load(SeqCst) > 0 {
        let p = Path::new(std::ffi::OsStr::from_bytes(CStr::from_ptr(path).to_bytes())).to_path_buf();
        if let Act::Fail(e) = decide(Op::Open, &p) {
            fail(e);
            return -1;
        }
    }
    // openat with the working directory
    syscall(257, -100i64, path, flags as c_long, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    if let Act::Fail(e) = decide_fd(Op::List, dirfd(d)) {
        fail(e);
        return std::ptr::null_mut();
    }
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    if NEXT.load(SeqCst) == 0 {
        let p = keep_errno(|| dlsym(-1isize as *mut c_void, c"readdir64".as_ptr()));
        assert!(!p.is_null(), "readdir64");
        NEXT.store(p as usize, SeqCst);
    }
    let f: unsafe extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(NEXT.load(SeqCst));
    f(d)
}

unsafe fn map(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    if let Act::Fail(e) = decide_fd(Op::Map, fd) {
        fail(e);
        return -1isize as *mut c_void;
    }
    syscall(9, a, n, prot as c_long, flags as c_long, fd as c_long, off) as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    map(a, n, prot, flags, fd, off)
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    map(a, n, prot, flags, fd, off)
}

pub const EIO: i32 = 5;
pub const ERRORS: &[i32] = &[5, 13, 28, 116, 122, 12, 11];
