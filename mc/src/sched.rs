//! The schedules of C18 and C25, explored by /verif/sched, and C25's serial histories.

#[path = "../../sched/src/prog.rs"]
mod prog;

use crate::engine::*;
use crate::model::H;
use over::value::Value;
use prog::*;
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn binary() -> PathBuf {
    verif_dir().join("target/sched/x86_64-unknown-linux-gnu/release/sched")
}

fn schedules(id: &'static str, tier: Tier, dir: &Path) -> Result<Extra, Fail> {
    let deep = tier == Tier::Thorough;
    let ts = if deep { "thorough" } else { "quick" };
    let d = dir.join("sched");
    fs::create_dir_all(d.join("claims")).unwrap();
    let list = scenarios(id, deep);
    fs::write(d.join("list"), list.join("\n")).unwrap();
    let t0 = Instant::now();
    let mut kids: Vec<_> = (0..8)
        .map(|i| {
            let wd = d.join(format!("s{}", i));
            fs::create_dir_all(&wd).unwrap();
            Command::new(binary())
                .args(&["explore", id, ts, "../list", "out", "../claims"])
                .current_dir(&wd)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start the scheduler")
        })
        .collect();
    let limit = Duration::from_secs(if deep { 800 } else { 400 });
    while kids.iter_mut().any(|k| k.try_wait().unwrap().is_none()) {
        if t0.elapsed() > limit {
            for k in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut x = ExtraFam::new(
        "schedules",
        "the crate and the standard library under a controlled scheduler: every interleaving, up to the order of independent steps, of the steps (atomic operations, locks, thread-local and raced-for memory) of 2 to 4 threads running the programs of every scenario",
    );
    let (mut full, mut partly, mut blocked, mut diverged, mut longest) = (0, HashMap::new(), 0, 0, 0);
    let mut bad = vec![];
    let mut broken = vec![];
    let mut ended = 0;
    let mut done = 0;
    for i in 0..8 {
        let o = fs::read_to_string(d.join(format!("s{}/out", i))).unwrap_or_default();
        for l in o.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" => bad.push((f[1].to_string(), f[2].to_string(), f[3].to_string())),
                "X" => broken.push(format!("scenario {:?} {}", f[1], f[2])),
                "E" => ended += 1,
                "S" => {
                    let n = |k: usize| f[k].parse::<u64>().unwrap();
                    done += 1;
                    x.cases += n(2);
                    x.runs += n(2);
                    x.steps += n(3);
                    x.states += n(4);
                    blocked += n(5);
                    diverged += n(6);
                    longest = longest.max(n(7));
                    if f[8].starts_with("all schedules up to") {
                        full += 1;
                    } else {
                        *partly.entry(f[8].to_string()).or_insert(0) += 1;
                    }
                    if x.samples.len() < 3 && n(2) > 100 {
                        x.samples.push(format!("{}: {} schedules of up to {} steps, {}", f[1], f[2], f[7], f[8]));
                    }
                }
                _ => (),
            }
        }
    }
    let mut parts: Vec<_> = partly.into_iter().collect();
    parts.sort();
    x.more = format!(
        "\"scenarios\":{},\"scenarios_with_all_schedules\":{},\"scenarios_bounded\":{{{}}},\"schedules\":{},\"blocked_by_sleep_sets\":{},\"not_followed\":{},\"longest\":{}",
        list.len(),
        full,
        parts.iter().map(|(h, n)| format!("{}:{}", jstr(h), n)).collect::<Vec<_>>().join(","),
        x.runs,
        blocked,
        diverged,
        longest
    );
    bad.sort_by_key(|b| (b.1.len(), b.0.clone()));
    if let Some((sc, sch, why)) = bad.into_iter().next() {
        return Err(Fail::Violation { family: "schedules", case: format!("{}\n{}\n", sc, sch), why: format!("{} (threads {:?})", why, sc) });
    }
    if ended < 8 {
        broken.push(format!("{} of 8 scheduler processes did not end", 8 - ended));
    }
    if done < list.len() && broken.is_empty() {
        broken.push(format!("{} of {} scenarios explored", done, list.len()));
    }
    if !broken.is_empty() {
        return Err(Fail::Broken(broken.swap_remove(0)));
    }
    Ok(Extra { lines: vec![], fams: vec![x] })
}
pub fn extra_c18(t: Tier, d: &Path) -> Result<Extra, Fail> {
    schedules("C18", t, d)
}
pub fn extra_c25(t: Tier, d: &Path) -> Result<Extra, Fail> {
    schedules("C25", t, d)
}
/// A schedule of a replay file again.
pub fn replay(id: &str, case: &str) -> i32 {
    let wd = scratch_root().join(format!("mcreplay.{}", std::process::id()));
    fs::create_dir_all(&wd).unwrap();
    fs::write(wd.join("case"), case).unwrap();
    let st = Command::new(binary()).args(&["replay", id, "case"]).current_dir(&wd).status();
    let _ = fs::remove_dir_all(&wd);
    st.ok().and_then(|s| s.code()).unwrap_or(2)
}

// ---- C25: one after the other, each in a thread of its own ----

const OPS: [&str; 16] = ["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7", "f", "B", "i", "p", "e", "u", "g", "v"];

fn common() -> Common {
    Common { shared: over::obj::Obj::from_str(SHARED).ok(), twin: over::obj::Obj::from_str(SHARED).ok() }
}
fn in_thread(op: &'static str, me: usize, c: &Common) -> Result<(String, Vec<Value>), String> {
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut l = Left::default();
            step(op, me, c, &mut l, true);
            (l.out, l.kept)
        })
        .join()
    })
    .map_err(|_| format!("{} panics", op))
}
extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn alarm(s: u32) -> u32;
}
/// What the operation gives in a process that does nothing else.
fn alone(op: &'static str) -> String {
    let f = format!("alone.{}", op);
    let _ = fs::remove_file(&f);
    unsafe {
        let p = fork();
        assert!(p >= 0, "cannot fork");
        if p == 0 {
            alarm(20);
            let c = common();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut l = Left::default();
                step(op, 0, &c, &mut l, true);
                l.out
            }));
            let _ = fs::write(&f, r.unwrap_or_else(|_| "panic".into()));
            _exit(0);
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
    }
    fs::read_to_string(&f).unwrap_or_else(|_| "nothing".into())
}
fn serial_exec(text: &str) -> CaseRes {
    static ALONE: Mutex<Option<HashMap<&'static str, String>>> = Mutex::new(None);
    let seq: Vec<&'static str> = text.split(' ').map(|w| *OPS.iter().find(|o| **o == w).expect("operation")).collect();
    if fs::metadata("ring").is_err() {
        files(".");
    }
    let alone = ALONE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(|| OPS.iter().map(|o| (*o, alone(o))).collect()).clone();
    let mut h = H::new();
    for keep in [false, true] {
        let c = common();
        if c.shared.is_none() {
            return Ok(Done::skip());
        }
        let mut before = String::new();
        dump(&Value::Obj(c.shared.clone().unwrap()), &mut before);
        let mut kept = vec![];
        for (i, op) in seq.iter().enumerate() {
            let (out, k) = in_thread(op, i, &c)?;
            if keep {
                kept.push(k);
            }
            h.s(&out);
            if alone[op] != out {
                return Err(format!("{} gives {:?}, but alone {:?}", op, out, alone[op]));
            }
            let mut after = String::new();
            dump(&Value::Obj(c.shared.clone().unwrap()), &mut after);
            if after != before {
                return Err(format!("the shared value changed from {:?} to {:?}", before, after));
            }
        }
    }
    let mut d = Done::state(h.0);
    d.steps = seq.len() as u64 * 2;
    d.runs = d.steps;
    Ok(d)
}
fn serial(c: &mut Ctx) {
    let n = c.pick(3, 4);
    fn rec(c: &mut Ctx, t: &str, n: usize) {
        for o in OPS {
            let u = if t.is_empty() { o.to_string() } else { format!("{} {}", t, o) };
            c.case(&u);
            if n > 1 {
                rec(c, &u, n - 1);
            }
        }
    }
    rec(c, "", n);
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        level: "model_checking",
        assumptions: vec![
            "memory is sequentially consistent (accesses that race under the happens-before relation are reported, whatever their outcome)",
            "num-bigint, num-rational and lazy_static are explored as compiled here",
        ],
        extra: Some(extra_c25),
        hang_s: 30,
        families: vec![Family {
            name: "serial",
            what: "all sequences of up to 3 (4) of 16 operations on shared and new values, each by a thread of its own, one after the other; each gives what it gives alone",
            gen: serial,
            exec: serial_exec,
        }],
    }
}
