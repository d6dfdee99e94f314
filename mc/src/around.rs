//! What surrounds an operation without being an input of it: the environment, the clock, random numbers,
//! the process and its standard streams. As in `faults`, the C library's entry points are defined here; while
//! a thread is armed, they give the answers it was armed with.

use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_void};

#[derive(Clone, Copy)]
pub struct Around {
    /// The value of every variable of the environment: "-" for none (all unset).
    pub env: Option<&'static str>,
    /// Seconds since 1970, and seconds by which the clock goes on at each look.
    pub clock: Option<(i64, i64)>,
    /// The bytes of random numbers; 1: counting up.
    pub random: Option<u8>,
    pub pid: Option<c_int>,
    pub tty: Option<c_int>,
}
pub const NOTHING: Around = Around { env: None, clock: None, random: None, pid: None, tty: None };
thread_local! {
    static NOW: Cell<Around> = const { Cell::new(NOTHING) };
    static TICKS: Cell<i64> = const { Cell::new(0) };
}
pub fn set(a: Around) {
    NOW.with(|n| n.set(a));
    TICKS.with(|n| n.set(0));
}
fn now() -> Around {
    NOW.try_with(|n| n.get()).unwrap_or(NOTHING)
}
fn tick() -> i64 {
    TICKS
        .try_with(|n| {
            n.set(n.get() + 1);
            n.get()
        })
        .unwrap_or(0)
}
extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static mut P: *mut c_void = std::ptr::null_mut();
        unsafe {
            if P.is_null() {
                P = dlsym(-1isize as *mut c_void, concat!($name, "\0").as_ptr() as *const c_char);
            }
            std::mem::transmute::<*mut c_void, $t>(P)
        }
    }};
}
/// All values a variable is given, each closed by a zero byte.
pub const VALUES: [&str; 14] = ["-", "\0", "1\0", "0\0", "true\0", "always\0", "full\0", "/\0", "/nowhere\0", "C\0", "de_DE.UTF-8\0", "tr_TR\0", "4096\0", "-1\0"];
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    match now().env {
        Some("-") => std::ptr::null_mut(),
        Some(v) => v.as_ptr() as *mut c_char,
        None => real!("getenv", extern "C" fn(*const c_char) -> *mut c_char)(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    match now().tty {
        Some(t) => t,
        None => real!("isatty", extern "C" fn(c_int) -> c_int)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut [i64; 2]) -> c_int {
    match now().clock {
        Some((s, d)) => {
            *t = [s + d * tick(), 123];
            0
        }
        None => real!("clock_gettime", extern "C" fn(c_int, *mut [i64; 2]) -> c_int)(c, t),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match now().pid {
        Some(p) => p,
        None => real!("getpid", extern "C" fn() -> c_int)(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    match now().random {
        Some(r) => {
            for i in 0..n {
                *b.add(i) = if r == 1 { tick() as u8 } else { r };
            }
            n as isize
        }
        None => real!("getrandom", extern "C" fn(*mut u8, usize, u32) -> isize)(b, n, fl),
    }
}
