//! Sharded exhaustive execution: worker processes, breadcrumbs, confirmation, evidence.

use crate::model::H;
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one explored case came to.
pub struct Done {
    /// Hash of the observed/model state: distinct ones are counted.
    pub state: u64,
    /// Whether extensions of this case can behave differently (token trees).
    pub alive: bool,
    /// Steps taken (tokens, operations, faults, ...).
    pub steps: u64,
    /// Executions of the real code compared with the model.
    pub runs: u64,
    pub skipped: bool,
}
impl Done {
    pub fn state(h: u64) -> Done {
        Done { state: h, alive: true, steps: 1, runs: 1, skipped: false }
    }
    pub fn skip() -> Done {
        Done { state: 0, alive: true, steps: 0, runs: 0, skipped: true }
    }
}

/// Err: the property is violated, with an explanation.
pub type CaseRes = Result<Done, String>;

pub struct Family {
    pub name: &'static str,
    /// What is enumerated and within what bounds (for the evidence).
    pub what: &'static str,
    pub gen: fn(&mut Ctx),
    pub exec: fn(&str) -> CaseRes,
}

pub struct Prop {
    pub id: &'static str,
    pub families: Vec<Family>,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Extra work of the parent process (known findings, schedules).
    pub extra: Option<fn(Tier, &Path) -> Result<Extra, Fail>>,
    /// Per-case time after which it counts as a hang, in seconds.
    pub hang_s: u64,
}

/// What the extra work came to.
#[derive(Default)]
pub struct Extra {
    /// To be printed.
    pub lines: Vec<String>,
    pub fams: Vec<ExtraFam>,
}
#[derive(Default)]
pub struct ExtraFam {
    pub name: &'static str,
    pub what: &'static str,
    pub cases: u64,
    pub runs: u64,
    pub steps: u64,
    pub states: u64,
    pub samples: Vec<String>,
    /// Further members of the family's object in the evidence.
    pub more: String,
}
impl ExtraFam {
    pub fn new(name: &'static str, what: &'static str) -> ExtraFam {
        ExtraFam { name, what, ..Default::default() }
    }
}
pub enum Fail {
    Violation { family: &'static str, case: String, why: String },
    Broken(String),
}

// ---- shared breadcrumb ----

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn malloc_trim(pad: usize) -> i32;
}
const SHM: usize = 4 << 20;

pub struct Shm(*mut u8);
impl Shm {
    fn open(p: &Path) -> Shm {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap();
        f.set_len(SHM as u64).unwrap();
        let m = unsafe { mmap(std::ptr::null_mut(), SHM, 3, 1, f.as_raw_fd(), 0) };
        assert!(m as isize != -1);
        Shm(m)
    }
    fn put(&self, fam: usize, text: &str) {
        unsafe {
            let p = self.0 as *mut u64;
            let n = text.len().min(SHM - 64);
            p.add(1).write_volatile(fam as u64);
            p.add(2).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.0.add(64), n);
            p.add(3).write_volatile(p.add(3).read_volatile() + 1);
            p.write_volatile(1);
        }
    }
    fn clear(&self) {
        unsafe { (self.0 as *mut u64).write_volatile(0) }
    }
    fn active(&self) -> bool {
        unsafe { (self.0 as *mut u64).read_volatile() == 1 }
    }
    fn count(&self) -> u64 {
        unsafe { (self.0 as *mut u64).add(3).read_volatile() }
    }
    fn get(&self) -> (usize, String) {
        unsafe {
            let p = self.0 as *mut u64;
            let n = p.add(2).read_volatile() as usize;
            let b = std::slice::from_raw_parts(self.0.add(64), n);
            (p.add(1).read_volatile() as usize, String::from_utf8_lossy(b).into_owned())
        }
    }
}

// ---- worker ----

pub struct FamStat {
    pub cases: u64,
    pub runs: u64,
    pub steps: u64,
    pub skipped: u64,
    pub dead: u64,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    n: u64,
    idx: u64,
    shm: Shm,
    fam: usize,
    exec: fn(&str) -> CaseRes,
    stats: Vec<FamStat>,
    states: HashSet<u64>,
    pub stop: bool,
    out: PathBuf,
    viol: u64,
}

/// Panic-safe execution of one case.
pub fn guarded(exec: fn(&str) -> CaseRes, text: &str) -> CaseRes {
    match panic::catch_unwind(|| exec(text)) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "unknown".into()
            };
            Err(format!("panic: {}", m))
        }
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// Whether the next unit of work belongs to this worker.
    pub fn mine(&mut self) -> bool {
        self.idx += 1;
        // Scattered, so that no worker gets all the big cases of a regular enumeration.
        (self.idx.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) % self.n == self.shard
    }
    /// Runs the case if it belongs to this worker.
    pub fn case(&mut self, text: &str) {
        if self.stop || !self.mine() {
            return;
        }
        self.run(text, true);
    }
    /// Runs the case here; returns whether it is alive.
    pub fn run(&mut self, text: &str, count: bool) -> bool {
        if self.stop {
            return false;
        }
        self.shm.put(self.fam, text);
        let r = guarded(self.exec, text);
        self.shm.clear();
        match r {
            Ok(d) => {
                if count {
                    let st = &mut self.stats[self.fam];
                    st.cases += 1;
                    st.runs += d.runs;
                    st.steps += d.steps;
                    st.skipped += d.skipped as u64;
                    st.dead += !d.alive as u64;
                    if st.samples.len() < 3 || (st.cases.is_power_of_two() && st.samples.len() < 24) {
                        st.samples.push(text.chars().take(300).collect());
                    }
                    if !d.skipped && self.states.len() < 4_000_000 {
                        let mut h = H::from(d.state);
                        h.u(self.fam as u64);
                        self.states.insert(h.0);
                    }
                }
                d.alive
            }
            Err(e) => {
                self.violation(text, &e);
                false
            }
        }
    }
    fn violation(&mut self, text: &str, why: &str) {
        self.viol += 1;
        let f = self.out.join(format!("viol.{}.{}", self.shard, self.viol));
        let mut s = format!("{}\n{}\n", self.fam, why.replace('\n', "\\n"));
        s.push_str(text);
        fs::write(f, s).unwrap();
        if self.viol >= 3 {
            self.stop = true;
        }
    }

    /// All sequences over `alphabet` up to `max` tokens after `prefix`, dead ones pruned.
    /// `tails` are tried after every dead sequence.
    pub fn tree(&mut self, prefix: &str, alphabet: &[&str], max: usize, tails: &[&str]) {
        let mut text = String::from(prefix);
        self.tree_rec(&mut text, alphabet, max, 0, tails, "");
    }
    /// As `tree`; every case is the sequence with `suffix` appended (which the exec must know how to
    /// handle: dead means dead whatever follows).
    pub fn tree_suffix(&mut self, prefix: &str, alphabet: &[&str], max: usize, tails: &[&str], suffix: &str) {
        let mut text = String::from(prefix);
        self.tree_rec(&mut text, alphabet, max, 0, tails, suffix);
    }
    fn tree_rec(&mut self, text: &mut String, alphabet: &[&str], max: usize, depth: usize, tails: &[&str], suffix: &str) {
        if self.stop {
            return;
        }
        let split = 3.min(max);
        let mine = if depth <= split { self.mine() } else { true };
        let len = text.len();
        let alive = if suffix.is_empty() || depth < split {
            // Above the split every worker needs to know whether the node is alive.
            let a = self.run(text, mine);
            if !suffix.is_empty() && mine {
                text.push_str(suffix);
                self.run(text, true);
                text.truncate(len);
            }
            a
        } else if mine {
            let a = self.run(text, true);
            text.push_str(suffix);
            self.run(text, true);
            text.truncate(len);
            a
        } else {
            true
        };
        if !alive {
            if mine {
                for t in tails {
                    text.push_str(t);
                    self.run(text, true);
                    text.truncate(len);
                }
            }
            return;
        }
        if depth == max || (depth == split && !mine) {
            return;
        }
        for t in alphabet {
            text.push_str(t);
            self.tree_rec(text, alphabet, max, depth + 1, tails, suffix);
            text.truncate(len);
        }
    }
}

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let probe = shm.join(format!("mcprobe{}", std::process::id()));
    if fs::create_dir(&probe).is_ok() {
        let _ = fs::remove_dir(&probe);
        return shm.to_path_buf();
    }
    std::env::temp_dir()
}

fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().expect("worker thread failed")
}

pub fn limits(gb: u64) {
    unsafe {
        setrlimit(9, &[gb << 30, gb << 30]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
    panic::set_hook(Box::new(|_| ()));
}

pub fn work(p: Prop, tier: Tier, shard: u64, n: u64, dir: &str) -> i32 {
    limits(6);
    let dir = PathBuf::from(dir);
    let wd = dir.join(format!("w{}", shard));
    fs::create_dir_all(&wd).unwrap();
    std::env::set_current_dir(&wd).unwrap();
    on_small_stack(move || {
        let shm = Shm::open(&dir.join(format!("shm.{}", shard)));
        let mut c = Ctx {
            tier,
            shard,
            n,
            idx: 0,
            shm,
            fam: 0,
            exec: p.families[0].exec,
            stats: vec![],
            states: HashSet::new(),
            stop: false,
            out: dir.clone(),
            viol: 0,
        };
        let only = std::env::var("MC_ONLY").ok();
        for (i, f) in p.families.iter().enumerate() {
            c.stats.push(FamStat { cases: 0, runs: 0, steps: 0, skipped: 0, dead: 0, samples: vec![] });
            c.fam = i;
            c.exec = f.exec;
            c.idx = 0;
            if only.as_ref().map_or(false, |o| o != f.name) {
                continue;
            }
            let t = Instant::now();
            (f.gen)(&mut c);
            unsafe { malloc_trim(0) };
            if (shard == 0 || t.elapsed().as_secs() >= 5) && std::env::var("MC_TIME").is_ok() {
                eprintln!("  {} {}: {} cases here, {:.1}s", p.id, f.name, c.stats[i].cases, t.elapsed().as_secs_f64());
            }
        }
        let mut o = String::new();
        for s in &c.stats {
            o.push_str(&format!("{} {} {} {} {}\n", s.cases, s.runs, s.steps, s.skipped, s.dead));
            o.push_str(&format!("{}\n", s.samples.len()));
            for x in &s.samples {
                o.push_str(&x.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r"));
                o.push('\n');
            }
        }
        let mut b = Vec::with_capacity(c.states.len() * 8);
        for s in &c.states {
            b.extend_from_slice(&s.to_le_bytes());
        }
        fs::write(dir.join(format!("states.{}", shard)), b).unwrap();
        fs::write(dir.join(format!("stats.{}", shard)), o).unwrap();
    });
    0
}

/// One case alone. Exit 0: fine; 1: violated (explanation on stdout).
pub fn one(p: Prop, fam: &str, file: &str) -> i32 {
    limits(6);
    let text = String::from_utf8_lossy(&fs::read(file).unwrap()).into_owned();
    let i = match p.families.iter().position(|f| f.name == fam) {
        Some(i) => i,
        None => {
            println!("no family {}", fam);
            return 2;
        }
    };
    let exec = p.families[i].exec;
    let wd = scratch_root().join(format!("mcone.{}", std::process::id()));
    fs::create_dir_all(&wd).unwrap();
    std::env::set_current_dir(&wd).unwrap();
    let r = on_small_stack(move || guarded(exec, &text).map(|_| ()));
    std::env::set_current_dir("/").unwrap();
    let _ = fs::remove_dir_all(&wd);
    match r {
        Ok(_) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("{}", e);
            1
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn confirm(p: &Prop, fam: usize, text: &str, dir: &Path, hang: u64) -> Result<Option<String>, String> {
    let f = dir.join("confirm.txt");
    fs::write(&f, text).unwrap();
    let exe = std::env::current_exe().unwrap();
    let out = fs::File::create(dir.join("confirm.out")).unwrap();
    let mut ch = Command::new(exe)
        .args(&["one", p.id, p.families[fam].name, f.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(Stdio::null())
        .process_group(0)
        .spawn()
        .map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            let msg = fs::read_to_string(dir.join("confirm.out")).unwrap_or_default().trim().to_string();
            return match st.code() {
                Some(0) => Ok(None),
                Some(1) => Ok(Some(msg)),
                Some(c) => Err(format!("confirmation exited with {}: {}", c, msg)),
                None => Ok(Some(format!("crashed with signal {} (stack overflow, abort or memory exhausted)", st.signal().unwrap_or(0)))),
            };
        }
        if t.elapsed() > Duration::from_secs(hang * 3) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok(Some(format!("does not finish within {} s", hang * 3)));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn write_replay(id: &str, fam: &str, text: &str, why: &str) -> PathBuf {
    let d = verif_dir().join("evidence").join("replays");
    fs::create_dir_all(&d).unwrap();
    let mut h = H::new();
    h.s(text);
    h.s(fam);
    let f = d.join(format!("{}-{}-{:08x}.txt", id, fam, h.0 as u32));
    fs::write(&f, format!("property: {}\nfamily: {}\nwhy: {}\ncase:\n{}", id, fam, why.replace('\n', "\\n"), text)).unwrap();
    f
}

pub fn check(p: Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let n: u64 = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = scratch_root().join(format!("mc.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = check_in(&p, tier, n, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn check_in(p: &Prop, tier: Tier, n: u64, dir: &Path, t0: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let ts = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids: Vec<_> = (0..n)
        .map(|i| {
            let ch = Command::new(&exe)
                .args(&["work", p.id, ts, &i.to_string(), &n.to_string(), dir.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(if std::env::var("MC_TIME").is_ok() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .expect("cannot start a worker");
            let shm = Shm::open(&dir.join(format!("shm.{}", i)));
            (ch, shm, 0u64, Instant::now(), false)
        })
        .collect();
    const HANG: &str = "does not finish";
    let mut suspects: Vec<(usize, String, String)> = vec![];
    let mut broken = vec![];
    loop {
        let mut alive = 0;
        for (i, k) in kids.iter_mut().enumerate() {
            if k.4 {
                continue;
            }
            match k.0.try_wait().unwrap() {
                None => {
                    alive += 1;
                    let c = k.1.count();
                    if c != k.2 || !k.1.active() {
                        k.2 = c;
                        k.3 = Instant::now();
                    } else if k.3.elapsed() > Duration::from_secs(p.hang_s) {
                        let (f, t) = k.1.get();
                        suspects.push((f, t, HANG.into()));
                        let _ = k.0.kill();
                        let _ = k.0.wait();
                        k.4 = true;
                    }
                }
                Some(st) => {
                    k.4 = true;
                    if st.code() != Some(0) {
                        if k.1.active() {
                            let (f, t) = k.1.get();
                            suspects.push((f, t, format!("worker ended with {:?} signal {:?}", st.code(), st.signal())));
                        } else {
                            broken.push(format!("worker {} ended with {:?} {:?} outside a case", i, st.code(), st.signal()));
                        }
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // Collect.
    let mut fams: Vec<FamStat> = p
        .families
        .iter()
        .map(|_| FamStat { cases: 0, runs: 0, steps: 0, skipped: 0, dead: 0, samples: vec![] })
        .collect();
    let mut states: HashSet<u64> = HashSet::new();
    for i in 0..n {
        if let Ok(s) = fs::read_to_string(dir.join(format!("stats.{}", i))) {
            let mut l = s.lines();
            for f in fams.iter_mut() {
                let v: Vec<u64> = match l.next() {
                    Some(x) => x.split(' ').map(|x| x.parse().unwrap()).collect(),
                    None => break,
                };
                f.cases += v[0];
                f.runs += v[1];
                f.steps += v[2];
                f.skipped += v[3];
                f.dead += v[4];
                let k: usize = l.next().unwrap().parse().unwrap();
                let xs: Vec<String> = (0..k).map(|_| l.next().unwrap().to_string()).collect();
                if f.samples.len() < 6 {
                    // The last samples are the deepest ones.
                    f.samples.extend(xs.into_iter().rev().take(3));
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("states.{}", i))) {
            for c in b.chunks_exact(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(c);
                states.insert(u64::from_le_bytes(a));
            }
        }
    }
    let mut viols: Vec<(usize, String, String)> = vec![];
    for e in fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        if e.file_name().to_string_lossy().starts_with("viol.") {
            let s = String::from_utf8_lossy(&fs::read(e.path()).unwrap()).into_owned();
            let mut it = s.splitn(3, '\n');
            let f: usize = it.next().unwrap().parse().unwrap();
            let why = it.next().unwrap().to_string();
            viols.push((f, it.next().unwrap_or("").to_string(), why));
        }
    }
    let mut engine_errors = broken;
    // Crashes are quickly repeated; of the hangs one is enough, and none is needed beside another violation.
    suspects.sort_by_key(|s| (s.2 == HANG, s.0, s.1.len()));
    for (f, t, how) in suspects {
        if how == HANG && !viols.is_empty() {
            continue;
        }
        match confirm(p, f, &t, dir, p.hang_s) {
            Ok(Some(why)) => viols.push((f, t, format!("{} ({})", why, how))),
            Ok(None) => engine_errors.push(format!("{} on a case of {} but not when repeated: {:?}", how, p.families[f].name, t.chars().take(200).collect::<String>())),
            Err(e) => engine_errors.push(e),
        }
    }
    viols.sort_by_key(|v| (v.0, v.1.len(), v.1.clone()));
    viols.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    let mut ex = Extra::default();
    let mut reported = 0;
    if let Some(extra) = p.extra {
        match extra(tier, dir) {
            Ok(e) => ex = e,
            Err(Fail::Broken(why)) => engine_errors.push(why),
            Err(Fail::Violation { family, case, why }) => {
                let f = write_replay(p.id, family, &case, &why);
                println!("{} {}: {}", p.id, family, why);
                println!("VIOLATION property={} replay={}", p.id, f.display());
                reported += 1;
            }
        }
    }
    for (f, t, why) in viols.iter().take(5) {
        let file = write_replay(p.id, p.families[*f].name, t, why);
        println!("{} {}: {}\n  case: {:?}", p.id, p.families[*f].name, why, t.chars().take(400).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, file.display());
        reported += 1;
    }
    for l in &ex.lines {
        println!("{}", l);
    }
    // Evidence.
    let (mut cases, mut runs, mut steps, mut skipped) = (0, 0, 0, 0);
    let mut fam_json = vec![];
    let mut samples = vec![];
    for (i, f) in fams.iter().enumerate() {
        cases += f.cases;
        runs += f.runs;
        steps += f.steps;
        skipped += f.skipped;
        fam_json.push(format!(
            "{{\"family\":{},\"enumerates\":{},\"cases\":{},\"runs_of_the_crate\":{},\"steps\":{},\"pruned_dead\":{},\"left_open_by_the_property\":{}}}",
            jstr(p.families[i].name), jstr(p.families[i].what), f.cases, f.runs, f.steps, f.dead, f.skipped
        ));
        for s in f.samples.iter().take(3) {
            samples.push(jstr(&format!("{}: {}", p.families[i].name, s)));
        }
    }
    let mut distinct = states.len() as u64;
    for f in &ex.fams {
        cases += f.cases;
        runs += f.runs;
        steps += f.steps;
        distinct += f.states;
        fam_json.push(format!(
            "{{\"family\":{},\"enumerates\":{},\"cases\":{},\"runs_of_the_crate\":{},\"steps\":{}{}{}}}",
            jstr(f.name), jstr(f.what), f.cases, f.runs, f.steps, if f.more.is_empty() { "" } else { "," }, f.more
        ));
        for s in f.samples.iter().take(3) {
            samples.push(jstr(&format!("{}: {}", f.name, s)));
        }
    }
    let ended = engine_errors.is_empty() && reported == 0;
    let mut cov = String::new();
    if p.level == "fault_enumeration" {
        cov.push_str(&format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"runs_of_the_crate\":{},\"calls\":{}",
            cases,
            states.len(),
            jstr("one evaluation per fault plan and scenario; counted as distinct and non-trivial by the sequence of system calls with their faults and transfers and the outcome"),
            runs,
            steps
        ));
    } else {
        cov.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{}",
            distinct, steps, runs, cases
        ));
    }
    cov.push_str(&format!(
        ",\"left_open\":{},\"exhaustive\":{},\"families\":[{}],\"samples\":[{}]",
        skipped, ended, fam_json.join(","), samples.join(",")
    ));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(p.id), ts, seed, p.level, cov,
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(), reported
    );
    let evd = verif_dir().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    let mut f = fs::File::create(evd.join(format!("{}.json", p.id))).unwrap();
    f.write_all(ev.as_bytes()).unwrap();
    println!(
        "{} {}: {} cases, {} runs, {} states, {} left open, {:.1}s",
        p.id, ts, cases, runs, distinct, skipped, t0.elapsed().as_secs_f64()
    );
    if reported > 0 {
        return 1;
    }
    if !engine_errors.is_empty() {
        for e in engine_errors {
            println!("ERROR: {}", e);
        }
        return 2;
    }
    0
}
