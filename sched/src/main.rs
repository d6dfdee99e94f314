//! All interleavings of small programs that use the crate from several threads (C18, C25).

mod explore;
mod prog;

use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    fn sched_clear(p: *mut u8, n: usize);
    fn sched_free(p: *mut u8, n: usize);
}
struct Watched;
unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        sched_clear(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched_free(p, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Watched = Watched;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    let code = match &s[1..] {
        // Explores the scenarios of the list (one per line) that it can claim (by a directory of the scenario's
        // number) and writes what happened to OUT.
        ["explore", id, tier, list, out, claims] => explore::explore_all(id, tier, list, out, claims),
        // One scenario with one schedule.
        ["replay", id, file] => explore::replay(id, file),
        ["list", id, tier] => {
            for x in prog::scenarios(id, *tier == "thorough") {
                println!("{}", x);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code)
}
