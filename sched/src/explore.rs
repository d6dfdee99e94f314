//! Exploration of all schedules of a scenario: dynamic partial-order reduction (persistent sets found by
//! races, sleep sets), every schedule in a process of its own; bounded preemptions where that does not end.

use crate::prog::*;
use over::obj::Obj;
use over::value::Value;
use std::cell::UnsafeCell;
use std::panic;
use std::str::FromStr;
use std::time::{Duration, Instant};

const MAXT: usize = 4;
const MAXSTEP: usize = 20000;

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Op {
    addr: u64,
    kind: u32,
    size: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Step {
    tid: u32,
    enabled: u32,
    sleep: u32,
    pad: u32,
    pend: [Op; MAXT],
}
#[repr(C)]
struct Shared {
    prefix_len: u32,
    sleep_in: u32,
    use_sleep: u32,
    nthreads: u32,
    prefix: [u8; MAXSTEP],
    nracy: u32,
    racy: [u64; 64],
    status: u32,
    nsteps: u32,
    races: u32,
    pad: u32,
    race_text: [u8; 1024],
    race_addr: u64,
    steps: [Step; MAXSTEP],
}
const DONE: u32 = 1;
const DEADLOCK: u32 = 2;
const SLEEP: u32 = 3;
const DIVERGED: u32 = 4;
const STEPS: u32 = 5;
const NONE: u32 = 0;
const READ: u32 = 1;
const WAIT: u32 = 3;
const RESUME: u32 = 5;

#[repr(C)]
struct Verdict {
    kind: u32,
    len: u32,
    text: [u8; 1 << 16],
}

extern "C" {
    fn sched_shared() -> *mut Shared;
    fn sched_shared_size() -> usize;
    fn sched_run(n: i32, f: extern "C" fn(*mut u8, i32), arg: *mut u8);
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    static __executable_start: u8;
    static end: u8;
}

struct World {
    s: *mut Shared,
    v: *mut Verdict,
}
impl World {
    fn new() -> World {
        unsafe {
            let s = sched_shared();
            assert_eq!(sched_shared_size(), std::mem::size_of::<Shared>());
            let v = mmap(std::ptr::null_mut(), std::mem::size_of::<Verdict>(), 3, 0x21, -1, 0) as *mut Verdict;
            assert!(v as isize != -1);
            World { s, v }
        }
    }
    fn s(&self) -> &mut Shared {
        unsafe { &mut *self.s }
    }
    fn v(&self) -> &mut Verdict {
        unsafe { &mut *self.v }
    }
}

struct Team {
    programs: Vec<Vec<String>>,
    common: Common,
    left: Vec<UnsafeCell<Left>>,
    me: Option<usize>,
    look: bool,
}
extern "C" fn body(arg: *mut u8, i: i32) {
    let t = unsafe { &*(arg as *const Team) };
    let left = unsafe { &mut *t.left[i as usize].get() };
    let me = t.me.unwrap_or(i as usize);
    for op in &t.programs[i as usize] {
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| step(op, me, &t.common, left, t.look)));
        if r.is_err() {
            left.out.push_str("panic;");
        }
    }
}

pub struct Scenario {
    warm: bool,
    programs: Vec<Vec<String>>,
}
fn parse(s: &str) -> Scenario {
    let (how, rest) = s.split_at(s.find(' ').unwrap());
    Scenario {
        warm: how == "warm",
        programs: rest[1..].split('|').map(|p| p.split(' ').map(|x| x.to_string()).collect()).collect(),
    }
}

/// What there is before the threads start.
struct Start {
    common: Common,
    before: String,
    sh: Vec<Value>,
    counts: Vec<usize>,
}
fn start(sc: &Scenario) -> Start {
    let make = || if sc.warm { Some(Obj::from_str(SHARED).expect("the shared text")) } else { None };
    let common = Common { shared: make(), twin: make() };
    if sc.warm {
        // All that is built on first use.
        let _ = Obj::from_str(TEXTS[2]);
        let _ = Obj::from_str(TEXTS[5]);
    }
    let mut before = String::new();
    let mut sh = vec![];
    if let Some(ref o) = common.shared {
        dump(&Value::Obj(o.clone()), &mut before);
        instances(&Value::Obj(o.clone()), &mut sh);
    }
    let counts = sh.iter().map(refs).collect();
    Start { common, before, sh, counts }
}

/// The child: runs the programs under the schedule laid down in the shared memory and judges the end.
fn child(w: &World, ids_only: bool, sc: &Scenario, st: Start, only: Option<usize>, expected: &[String]) -> ! {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        alarm(20);
    }
    let Start { common, before, sh, counts } = st;
    let programs: Vec<Vec<String>> = match only {
        Some(i) => vec![sc.programs[i].clone()],
        None => sc.programs.clone(),
    };
    let n = programs.len();
    let team = Team { programs, common, left: (0..n).map(|_| Default::default()).collect(), me: only, look: !ids_only };
    unsafe { sched_run(n as i32, body, &team as *const Team as *mut u8) };
    let say = |kind: u32, text: &str| {
        let v = w.v();
        let t = &text.as_bytes()[..text.len().min(v.text.len())];
        v.len = t.len() as u32;
        v.text[..t.len()].copy_from_slice(t);
        v.kind = kind;
        unsafe { _exit(0) }
    };
    let mut left: Vec<Left> = team.left.into_iter().map(|l| l.into_inner()).collect();
    if only.is_some() {
        say(1, &left[0].out);
    }
    if ids_only {
        // Every instance, with the thread that made it.
        let mut ids: Vec<(usize, String)> = sh.iter().map(|v| (id(v).unwrap(), "the beginning".to_string())).collect();
        for (t, l) in left.iter().enumerate() {
            ids.extend(l.made.iter().map(|i| (*i, format!("thread {}", t))));
        }
        ids.sort();
        for p in ids.windows(2) {
            if p[0].0 == p[1].0 {
                say(2, &format!("two instances, made by {} and {}, have the ID {}", p[0].1, p[1].1, p[0].0));
            }
        }
        let mut all = vec![];
        left.iter().for_each(|l| l.kept.iter().for_each(|v| instances(v, &mut all)));
        for (i, a) in all.iter().enumerate() {
            if ids.binary_search_by(|p| p.0.cmp(&id(a).unwrap())).is_err() {
                say(2, &format!("an instance now has the ID {}, which none had when it was made", id(a).unwrap()));
            }
            for b in &all[..i] {
                if id(a) == id(b) {
                    say(2, &format!("two instances have the ID {:?}", id(a)));
                }
            }
        }
        say(1, "");
    }
    for (t, l) in left.iter().enumerate() {
        if l.out != expected[t] {
            say(2, &format!("thread {} obtained {:?}, but {:?} when alone", t, l.out, expected[t]));
        }
    }
    if let Some(ref o) = team.common.shared {
        let mut after = String::new();
        dump(&Value::Obj(o.clone()), &mut after);
        if after != before {
            say(2, &format!("the shared value changed from {:?} to {:?}", before, after));
        }
    }
    for l in left.iter_mut() {
        l.kept.clear();
    }
    for (v, n) in sh.iter().zip(&counts) {
        if refs(v) != *n {
            say(2, &format!("an instance of the shared value has {} references at the end, {} before", refs(v), n));
        }
    }
    say(1, "");
    unreachable!()
}

enum Ran {
    Fine,
    Bad(String),
    /// Says nothing (blocked by sleep sets, did not follow the schedule).
    Open(u32),
}

pub struct Search<'a> {
    w: World,
    sc: &'a Scenario,
    start: Option<Start>,
    ids_only: bool,
    expected: Vec<String>,
    pub runs: u64,
    pub steps: u64,
    pub nodes: u64,
    pub blocked: u64,
    pub diverged: u64,
    pub longest: usize,
    pub restarts: u32,
    deadline: Instant,
    /// Set when a newly found raced-for location became a scheduling point.
    again: bool,
}

impl<'a> Search<'a> {
    fn new(sc: &'a Scenario, ids_only: bool, limit: Duration) -> Search<'a> {
        let w = World::new();
        w.s().nracy = 0;
        let mut s = Search { w, sc, start: Some(start(sc)), ids_only, expected: vec![], runs: 0, steps: 0, nodes: 0, blocked: 0, diverged: 0, longest: 0, restarts: 0, deadline: Instant::now() + limit, again: false };
        if !ids_only {
            s.expected = (0..sc.programs.len())
                .map(|i| {
                    let sh = s.w.s();
                    sh.prefix_len = 0;
                    sh.use_sleep = 0;
                    s.spawn(Some(i));
                    let v = s.w.v();
                    if v.kind != 1 {
                        // Whatever it is, it is no matter of threads.
                        return String::from("(no result)");
                    }
                    String::from_utf8_lossy(&v.text[..v.len as usize]).into_owned()
                })
                .collect();
        }
        s
    }
    fn spawn(&mut self, only: Option<usize>) -> i32 {
        self.w.v().kind = 0;
        self.w.s().status = 0;
        self.w.s().nsteps = 0;
        self.w.s().races = 0;
        unsafe {
            let p = fork();
            assert!(p >= 0, "cannot fork");
            if p == 0 {
                let st = self.start.take().unwrap();
                child(&self.w, self.ids_only, self.sc, st, only, &self.expected);
            }
            let mut st = 0;
            while waitpid(p, &mut st, 0) != p {}
            st
        }
    }
    fn run(&mut self, prefix: &[u8], sleep: Option<u32>) -> Ran {
        let s = self.w.s();
        s.prefix_len = prefix.len() as u32;
        s.prefix[..prefix.len()].copy_from_slice(prefix);
        s.use_sleep = sleep.is_some() as u32;
        s.sleep_in = sleep.unwrap_or(0);
        let st = self.spawn(None);
        self.runs += 1;
        let s = self.w.s();
        self.steps += s.nsteps as u64;
        self.longest = self.longest.max(s.nsteps as usize);
        let sig = st & 127;
        if s.races > 0 {
            if !self.ids_only {
                let e = s.race_text.iter().position(|b| *b == 0).unwrap_or(0);
                return Ran::Bad(format!("data race: {}", String::from_utf8_lossy(&s.race_text[..e])));
            }
            let a = s.race_addr & !7;
            let (lo, hi) = unsafe { (&__executable_start as *const u8 as u64, &end as *const u8 as u64) };
            if a >= lo && a < hi && (s.nracy as usize) < 60 && !s.racy[..s.nracy as usize].contains(&a) {
                s.racy[s.nracy as usize] = a;
                s.nracy += 1;
                self.again = true;
            }
        }
        if sig == 14 {
            return if self.ids_only { Ran::Open(STEPS) } else { Ran::Bad("does not finish within 20 s".into()) };
        }
        if sig != 0 {
            return if self.ids_only { Ran::Open(STEPS) } else { Ran::Bad(format!("crashed with signal {}", sig)) };
        }
        let code = st >> 8 & 255;
        match (s.status, self.w.v().kind) {
            _ if code != 0 => Ran::Open(DIVERGED),
            (DONE, 1) => Ran::Fine,
            (DONE, 2) => {
                let v = self.w.v();
                Ran::Bad(String::from_utf8_lossy(&v.text[..v.len as usize]).into_owned())
            }
            (DEADLOCK, _) => {
                if self.ids_only {
                    Ran::Open(DEADLOCK)
                } else {
                    Ran::Bad("deadlock: no thread can go on".into())
                }
            }
            (SLEEP, _) => Ran::Open(SLEEP),
            (STEPS, _) => {
                if self.ids_only {
                    Ran::Open(STEPS)
                } else {
                    Ran::Bad(format!("no end within {} steps", MAXSTEP))
                }
            }
            _ => Ran::Open(DIVERGED),
        }
    }
    fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
    fn trace(&self) -> Vec<Step> {
        let s = self.w.s();
        s.steps[..s.nsteps as usize].to_vec()
    }
    fn schedule(&self) -> Vec<u8> {
        self.trace().iter().map(|s| s.tid as u8).collect()
    }

    /// All schedules up to equivalence. Ok(true): complete.
    fn dpor(&mut self, cap: u64) -> Result<bool, (Vec<u8>, String)> {
        struct Node {
            enabled: u32,
            sleep: u32,
            chosen: u32,
            todo: u32,
            done: u32,
        }
        let mut nodes: Vec<Node> = vec![];
        let mut prefix: Vec<u8> = vec![];
        let mut sleep = 0;
        let start = self.runs;
        let n = self.sc.programs.len();
        let mut whole = true;
        loop {
            match self.run(&prefix, Some(sleep)) {
                Ran::Fine => (),
                Ran::Bad(why) => return Err((self.schedule(), why)),
                Ran::Open(SLEEP) => self.blocked += 1,
                Ran::Open(_) => {
                    self.diverged += 1;
                    whole = false;
                }
            }
            if self.again && self.restarts < 8 {
                self.again = false;
                self.restarts += 1;
                nodes.clear();
                prefix.clear();
                sleep = 0;
                whole = true;
                continue;
            }
            let tr = self.trace();
            if tr.len() >= prefix.len() {
                for s in &tr[nodes.len().min(tr.len())..] {
                    nodes.push(Node { enabled: s.enabled, sleep: s.sleep, chosen: s.tid, todo: 1 << s.tid, done: 0 });
                    self.nodes += 1;
                }
                // Races: pairs of dependent steps that could have come in the other order.
                let mut clock: Vec<[u32; MAXT]> = Vec::with_capacity(tr.len());
                let mut last = [[0u32; MAXT]; MAXT];
                for j in 0..tr.len() {
                    let p = tr[j].tid as usize;
                    let o = tr[j].pend[p];
                    let mut c = last[p];
                    if o.kind != NONE {
                        let mut first = true;
                        for i in (0..j).rev() {
                            let q = tr[i].tid as usize;
                            if q == p || c[q] > i as u32 {
                                continue;
                            }
                            let x = tr[i].pend[q];
                            if !depends(&x, &o) {
                                continue;
                            }
                            if first && o.kind != RESUME && j < nodes.len() {
                                first = false;
                                let nd = &mut nodes[i];
                                if nd.enabled >> p & 1 == 1 {
                                    nd.todo |= 1 << p;
                                } else {
                                    nd.todo |= nd.enabled;
                                }
                            }
                            for t in 0..MAXT {
                                c[t] = c[t].max(clock[i][t]);
                            }
                        }
                    }
                    c[p] = j as u32 + 1;
                    last[p] = c;
                    clock.push(c);
                }
                // What blocked threads would do counts as well (deadlocks end a run before; here: sleep).
                if let Some(e) = tr.last() {
                    for p in 0..n {
                        let o = e.pend[p];
                        if p as u32 == e.tid || o.kind == NONE || o.kind == RESUME {
                            continue;
                        }
                        for i in (0..tr.len()).rev() {
                            let q = tr[i].tid as usize;
                            if q == p || last[p][q] > i as u32 || !depends(&tr[i].pend[q], &o) {
                                continue;
                            }
                            let nd = &mut nodes[i];
                            if nd.enabled >> p & 1 == 1 {
                                nd.todo |= 1 << p;
                            } else {
                                nd.todo |= nd.enabled;
                            }
                            break;
                        }
                    }
                }
            }
            // The deepest place with something left to do.
            loop {
                let nd = match nodes.last_mut() {
                    Some(nd) => nd,
                    None => return Ok(whole),
                };
                nd.done |= 1 << nd.chosen;
                let cand = nd.todo & nd.enabled & !nd.done & !nd.sleep;
                if cand == 0 {
                    nodes.pop();
                    continue;
                }
                nd.chosen = cand.trailing_zeros();
                sleep = nd.sleep | nd.done;
                break;
            }
            prefix = nodes.iter().map(|n| n.chosen as u8).collect();
            if self.runs - start >= cap || self.late() {
                return Ok(false);
            }
        }
    }

    /// All schedules with at most `bound` preemptions.
    fn bounded(&mut self, bound: u32, cap: u64) -> Result<bool, (Vec<u8>, String)> {
        let mut work: Vec<(Vec<u8>, u32)> = vec![(vec![], 0)];
        let start = self.runs;
        while let Some((prefix, used)) = work.pop() {
            if self.runs - start >= cap || self.late() {
                return Ok(false);
            }
            match self.run(&prefix, None) {
                Ran::Fine => (),
                Ran::Bad(why) => return Err((self.schedule(), why)),
                Ran::Open(_) => self.diverged += 1,
            }
            if self.again && self.restarts < 8 {
                self.again = false;
                self.restarts += 1;
                work = vec![(vec![], 0)];
                continue;
            }
            let tr = self.trace();
            for i in prefix.len()..tr.len() {
                let s = &tr[i];
                let cur = if i > 0 { tr[i - 1].tid } else { s.tid };
                let forced = s.enabled >> cur & 1 == 0;
                for t in 0..self.sc.programs.len() as u32 {
                    if t == s.tid || s.enabled >> t & 1 == 0 {
                        continue;
                    }
                    let cost = if forced || i == 0 { 0 } else { 1 };
                    if used + cost > bound || (cost == 1 && s.pend[cur as usize].kind == NONE) {
                        continue;
                    }
                    let mut p: Vec<u8> = tr[..i].iter().map(|s| s.tid as u8).collect();
                    p.push(t as u8);
                    work.push((p, used + cost));
                    self.nodes += 1;
                }
            }
        }
        Ok(true)
    }
}

fn depends(a: &Op, b: &Op) -> bool {
    if a.kind == NONE || b.kind == NONE {
        return false;
    }
    if a.addr + a.size as u64 <= b.addr || b.addr + b.size as u64 <= a.addr {
        return false;
    }
    let r = |o: &Op| o.kind == READ || o.kind == WAIT || o.kind == RESUME;
    !(r(a) && r(b))
}

fn prepare() {
    panic::set_hook(Box::new(|_| ()));
    files(".");
    // The standard library's own first-time work.
    let _ = std::fs::read_to_string("inc");
    let _ = std::fs::metadata("inc");
    let _ = std::fs::canonicalize("inc");
    let _ = std::thread::current().id();
    let _ = panic::catch_unwind(|| panic!("first"));
    let _: std::collections::HashMap<i32, i32> = Default::default();
}

fn one(id: &str, deep: bool, late: bool, l: &str) -> String {
    let mut o = String::new();
    let sc = parse(l);
    let limit = Duration::from_secs(match (deep, late) {
        (true, false) => 45,
        (false, false) => 10,
        _ => 1,
    });
    let t = Instant::now();
    let mut s = Search::new(&sc, id == "C18", limit);
    let cap = if deep { 400_000 } else { 20_000 };
    let mut r = s.dpor(cap);
    let mut how = "all schedules up to equivalence";
    if let Ok(false) = r {
        s.deadline = Instant::now() + limit;
        how = "incomplete";
        for b in 1..=if deep { 3 } else { 2 } {
            r = s.bounded(b, cap);
            if r != Ok(true) {
                break;
            }
            how = ["", "all schedules with one preemption", "all schedules with two preemptions", "all schedules with three preemptions"][b as usize];
        }
    }
    if let Err((sch, why)) = &r {
        let sch: String = sch.iter().map(|t| (b'0' + t) as char).collect();
        o.push_str(&format!("V\t{}\t{}\t{}\n", l, sch, why.replace('\n', "\\n").replace('\t', " ")));
    }
    o.push_str(&format!("S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", l, s.runs, s.steps, s.nodes, s.blocked, s.diverged, s.longest, how, t.elapsed().as_millis()));
    o
}

pub fn explore_all(id: &str, tier: &str, list: &str, out: &str, claims: &str) -> i32 {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
    let deep = tier == "thorough";
    let list = std::fs::read_to_string(list).unwrap();
    prepare();
    let mut o = String::new();
    let t0 = Instant::now();
    let budget = Duration::from_secs(if deep { 540 } else { 60 });
    for (i, l) in list.lines().enumerate() {
        if std::fs::create_dir(format!("{}/{}", claims, i)).is_err() {
            continue;
        }
        // Every scenario starts in a process in which the crate has done nothing yet.
        let part = format!("{}.part", out);
        let st = unsafe {
            let p = fork();
            assert!(p >= 0, "cannot fork");
            if p == 0 {
                prctl(1, 9, 0, 0, 0);
                let r = one(id, deep, t0.elapsed() > budget, l);
                std::fs::write(&part, r).unwrap();
                _exit(0);
            }
            let mut st = 0;
            while waitpid(p, &mut st, 0) != p {}
            st
        };
        if st != 0 {
            o.push_str(&format!("X\t{}\tended with status {}\n", l, st));
        } else {
            o.push_str(&std::fs::read_to_string(&part).unwrap());
            let _ = std::fs::remove_file(&part);
        }
        std::fs::write(out, &o).unwrap();
        if o.lines().any(|l| l.starts_with("V\t")) {
            break;
        }
    }
    o.push_str("E\n");
    std::fs::write(out, &o).unwrap();
    0
}

/// File: the scenario in the first line, the schedule in the second.
pub fn replay(id: &str, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    prepare();
    let mut l = t.lines();
    let sc = parse(l.next().unwrap());
    let sch: Vec<u8> = l.next().unwrap_or("").bytes().map(|b| b - b'0').collect();
    let mut s = Search::new(&sc, id == "C18", Duration::from_secs(60));
    // Raced-for locations become scheduling points on the way, so a schedule with them needs a search.
    let r = match s.run(&sch, None) {
        Ran::Bad(why) => Err((s.schedule(), why)),
        _ if s.again => s.dpor(20_000).map(|_| ()),
        _ => Ok(()),
    };
    match r {
        Err((sch, why)) => {
            println!("{}", why);
            println!("schedule: {}", sch.iter().map(|t| (b'0' + t) as char).collect::<String>());
            1
        }
        Ok(()) => {
            println!("holds");
            0
        }
    }
}
