//! The system calls of a load or write, under the control of a fault plan.
//!
//! The C library's entry points are defined here and so take precedence over the library's own for the
//! standard library linked into this program. Unless the calling thread is armed they pass through.

use std::cell::{Cell, RefCell};
use std::os::raw::{c_char, c_int, c_void};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Stat,
    Path,
    Other,
}
/// What is to happen at a call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// Fails with this error number.
    Fail(i32),
    /// Is interrupted: fails with EINTR.
    Intr,
    /// Transfers at most this many bytes.
    Short(usize),
    /// A stat reports another size: 0, half, more.
    Size(u8),
    /// A write that transfers nothing.
    Nothing,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    /// Bytes transferred or, for opening, whether for writing.
    pub n: usize,
    pub fault: Option<Fault>,
}
#[derive(Default)]
pub struct State {
    pub plan: Vec<(usize, Fault)>,
    /// A fault for every call of a kind.
    pub every: Option<(Op, Fault)>,
    pub trace: Vec<Call>,
    pub toggle: bool,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ST: RefCell<State> = RefCell::new(State::default());
}

/// Runs f with the plan armed on this thread; returns the calls it made.
pub fn armed<T>(plan: Vec<(usize, Fault)>, every: Option<(Op, Fault)>, f: impl FnOnce() -> T) -> (T, Vec<Call>) {
    ST.with(|s| *s.borrow_mut() = State { plan, every, trace: Vec::with_capacity(256), toggle: false });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, ST.with(|s| std::mem::take(&mut s.borrow_mut().trace)))
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
fn errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn decide(op: Op) -> Option<Option<Fault>> {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return None;
    }
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.trace.len();
        if i > 2_000_000 {
            // A loop that never ends: leave it to the watchdog without filling the memory.
            return None;
        }
        let mut f = s.plan.iter().find(|p| p.0 == i).map(|p| p.1);
        if f.is_none() {
            if let Some((o, e)) = s.every {
                if o == op {
                    // Interruptions come before every other call only, or nothing would ever happen.
                    s.toggle = !s.toggle;
                    if e != Fault::Intr || s.toggle {
                        f = Some(e);
                    }
                }
            }
        }
        // A fault that makes no sense for the call does not happen.
        f = match (op, f) {
            (_, Some(Fault::Fail(_))) => f,
            // Only these are ever interrupted.
            (Op::Open, Some(Fault::Intr)) | (Op::Read, Some(Fault::Intr)) | (Op::Write, Some(Fault::Intr)) => f,
            (Op::Read, Some(Fault::Short(_))) | (Op::Write, Some(Fault::Short(_))) | (Op::Write, Some(Fault::Nothing)) => f,
            (Op::Stat, Some(Fault::Size(_))) => f,
            _ => None,
        };
        s.trace.push(Call { op, n: 0, fault: f });
        Some(f)
    })
}
fn note(n: usize) {
    ST.with(|s| {
        if let Some(c) = s.borrow_mut().trace.last_mut() {
            c.n = n;
        }
    })
}

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static mut P: *mut c_void = std::ptr::null_mut();
        unsafe {
            if P.is_null() {
                P = dlsym(-1isize as *mut c_void, concat!($name, "\0").as_ptr() as *const c_char);
            }
            std::mem::transmute::<*mut c_void, $t>(P)
        }
    }};
}
fn failing(f: Option<Option<Fault>>) -> bool {
    match f {
        Some(Some(Fault::Fail(e))) => {
            errno(e);
            true
        }
        Some(Some(Fault::Intr)) => {
            errno(4);
            true
        }
        _ => false,
    }
}

macro_rules! open_like {
    ($name:ident, $s:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, flags: c_int, mode: u32) -> c_int {
            let f = decide(Op::Open);
            if failing(f) {
                return -1;
            }
            let r = real!($s, extern "C" fn(*const c_char, c_int, u32) -> c_int)(p, flags, mode);
            if f.is_some() {
                note((flags & 3 != 0) as usize);
            }
            r
        }
    };
}
open_like!(open, "open");
open_like!(open64, "open64");
macro_rules! openat_like {
    ($name:ident, $s:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
            let f = decide(Op::Open);
            if failing(f) {
                return -1;
            }
            real!($s, extern "C" fn(c_int, *const c_char, c_int, u32) -> c_int)(d, p, flags, mode)
        }
    };
}
openat_like!(openat, "openat");
openat_like!(openat64, "openat64");

fn limit(f: Option<Option<Fault>>, n: usize) -> usize {
    match f {
        Some(Some(Fault::Short(k))) => n.min(k),
        _ => n,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let f = decide(Op::Read);
    if failing(f) {
        return -1;
    }
    let r = real!("read", extern "C" fn(c_int, *mut c_void, usize) -> isize)(fd, b, limit(f, n));
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    let f = decide(Op::Read);
    if failing(f) {
        return -1;
    }
    let r = real!("pread64", extern "C" fn(c_int, *mut c_void, usize, i64) -> isize)(fd, b, limit(f, n), o);
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    pread64(fd, b, n, o)
}
#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let f = decide(Op::Read);
    if failing(f) {
        return -1;
    }
    let r = match f {
        Some(Some(Fault::Short(k))) if n > 0 => {
            let i = (0..n as usize).find(|i| (*v.add(*i)).len > 0).unwrap_or(0);
            real!("read", extern "C" fn(c_int, *mut c_void, usize) -> isize)(fd, (*v.add(i)).base, (*v.add(i)).len.min(k))
        }
        _ => real!("readv", extern "C" fn(c_int, *const IoVec, c_int) -> isize)(fd, v, n),
    };
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let f = decide(Op::Write);
    if failing(f) {
        return -1;
    }
    if f == Some(Some(Fault::Nothing)) {
        return 0;
    }
    let r = real!("write", extern "C" fn(c_int, *const c_void, usize) -> isize)(fd, b, limit(f, n));
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    let f = decide(Op::Write);
    if failing(f) {
        return -1;
    }
    if f == Some(Some(Fault::Nothing)) {
        return 0;
    }
    let r = real!("pwrite64", extern "C" fn(c_int, *const c_void, usize, i64) -> isize)(fd, b, limit(f, n), o);
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    pwrite64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let f = decide(Op::Write);
    if failing(f) {
        return -1;
    }
    let r = match f {
        Some(Some(Fault::Nothing)) => 0,
        Some(Some(Fault::Short(k))) if n > 0 => {
            let i = (0..n as usize).find(|i| (*v.add(*i)).len > 0).unwrap_or(0);
            real!("write", extern "C" fn(c_int, *const c_void, usize) -> isize)(fd, (*v.add(i)).base, (*v.add(i)).len.min(k))
        }
        _ => real!("writev", extern "C" fn(c_int, *const IoVec, c_int) -> isize)(fd, v, n),
    };
    if f.is_some() && r > 0 {
        note(r as usize);
    }
    r
}
fn lie(f: Option<Option<Fault>>, size: &mut u64) {
    if let Some(Some(Fault::Size(k))) = f {
        *size = match k {
            0 => 0,
            1 => *size / 2,
            2 => *size + 1,
            _ => *size * 2 + 100,
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut c_void) -> c_int {
    let f = decide(Op::Stat);
    if failing(f) {
        return -1;
    }
    let r = real!("statx", extern "C" fn(c_int, *const c_char, c_int, u32, *mut c_void) -> c_int)(d, p, fl, mask, b);
    if r == 0 && f.is_some() {
        lie(f, &mut *((b as *mut u8).add(40) as *mut u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int {
    let f = decide(Op::Stat);
    if failing(f) {
        return -1;
    }
    let r = real!("fstat64", extern "C" fn(c_int, *mut c_void) -> c_int)(fd, b);
    if r == 0 && f.is_some() {
        lie(f, &mut *((b as *mut u8).add(48) as *mut u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    let f = decide(Op::Other);
    if failing(f) {
        return -1;
    }
    real!("lseek64", extern "C" fn(c_int, i64, c_int) -> i64)(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = decide(Op::Write);
    if failing(f) {
        return -1;
    }
    real!("ftruncate64", extern "C" fn(c_int, i64) -> c_int)(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = decide(Op::Write);
    if failing(f) {
        return -1;
    }
    real!("rename", extern "C" fn(*const c_char, *const c_char) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char {
    let f = decide(Op::Path);
    if failing(f) {
        return std::ptr::null_mut();
    }
    real!("realpath", extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, o)
}
