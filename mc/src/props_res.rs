//! C27 and C28: nothing is left behind, nothing depends on what was done before.

use crate::corpus::*;
use crate::docs::*;
use crate::around;
use crate::engine::*;
use crate::faults::*;
use crate::mem::live;
use crate::model::*;
use crate::props_io::{enc, explore, load_scenarios, plan_of, set_last, write_scenarios, EVERY};
use crate::props_more::TOKENS;
use crate::props_ref::{ops, ops_run};
use num_bigint::BigInt;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::{OverError, ReferenceType};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::os::unix::fs::MetadataExt;
use std::path::Path;
use std::str::FromStr;
use std::sync::Mutex;

// ---------------------------------------------------------------- C27

extern "C" {
    fn dup(fd: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// The lowest descriptor that is free.
fn free_fd() -> i32 {
    unsafe {
        let n = dup(0);
        if n >= 0 {
            close(n);
        }
        n
    }
}
/// Uses the result in every way and drops it.
fn use_up(r: Result<Obj, OverError>) {
    match r {
        Ok(o) => {
            let d = o.clone();
            let _ = (o.write_to_string().len(), o.to_string().len(), o == d, o.len());
            let _ = (o.get("a").is_some(), o.get_with_source("b").is_some(), o.get_parent().is_some(), o.get_int("a").is_ok(), o.get_arr("b").is_ok());
            let _ = Value::Obj(d).get_type();
            o.with_each(|a, b| drop((a.to_string(), b.clone())));
        }
        Err(e) => drop((e.to_string(), format!("{:?}", e))),
    }
}
/// Repeating f uses up neither memory nor descriptors. What is kept for reuse must reach its full size.
fn settles(f: &mut dyn FnMut()) -> Result<(), String> {
    f();
    let (a, fd) = (live(), free_fd());
    f();
    let b = live();
    if free_fd() != fd {
        return Err(format!("a descriptor is left open (the lowest free one was {}, then {})", fd, free_fd()));
    }
    if b.0 <= a.0 && b.1 <= a.1 {
        return Ok(());
    }
    let mut k = 62;
    let mut from = b;
    // Growth with every repetition, twice.
    for _ in 0..2 {
        for _ in 0..k {
            f();
        }
        let c = live();
        if c.0 - from.0 < k && c.1 - from.1 < 8 * k {
            return Ok(());
        }
        if k > 62 {
            return Err(format!("{} repetitions leave {} blocks with {} bytes allocated", k, c.0 - from.0, c.1 - from.1));
        }
        from = c;
        k = 500;
    }
    unreachable!()
}
fn done(h: u64, runs: u64) -> CaseRes {
    Ok(Done { state: h, alive: true, steps: runs, runs, skipped: false })
}
fn text_exec(t: &str) -> CaseRes {
    settles(&mut || use_up(Obj::from_str(t)))?;
    let mut h = H::new();
    h.s(t);
    done(h.0, 2)
}
fn each_exec(t: &str) -> CaseRes {
    let mut n = 0;
    for x in t.split(SEP) {
        text_exec(x).map_err(|e| format!("{:?}: {}", x, e))?;
        n += 2;
    }
    let mut h = H::new();
    h.s(t);
    done(h.0, n)
}
fn tokens(c: &mut Ctx) {
    let k = c.pick(3, 4);
    c.tree("", TOKENS, k, &[]);
    for p in &["a:", "o:{a:(0 1)}\n@g:o\nb:", "a:[[1] [2]] x:(", "^:{a:1} x:{^:", "a:\"t/none\" b:<"] {
        c.tree(p, TOKENS, k, &[]);
    }
}
fn text_edits(c: &mut Ctx) {
    for d in SHORT.iter().chain(LONG) {
        let mut v: Vec<String> = vec![];
        edits(d, &mut |x| v.push(x.to_string()));
        for p in v.chunks(40) {
            c.case(&p.join(&SEP.to_string()));
        }
    }
}
fn ops_exec(t: &str) -> CaseRes {
    let alive = ops_run(t)?;
    if alive {
        let mut bad = None;
        settles(&mut || {
            if let Err(e) = ops_run(t) {
                bad = Some(e);
            }
        })?;
        if let Some(e) = bad {
            return Err(e);
        }
    }
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, alive, steps: t.split(' ').count() as u64, runs: 3, skipped: false })
}
fn op_trees(c: &mut Ctx) {
    for (full, d) in &[(true, c.pick(2, 3)), (false, c.pick(3, 4))] {
        let a: Vec<String> = ops(*full).iter().map(|s| format!("{} ", s)).collect();
        let r: Vec<&str> = a.iter().map(|s| &s[..]).collect();
        c.tree("", &r, *d, &[]);
    }
    let few = ["E ", "l2 ", "t01 ", "p0 ", "c0 ", "g00 ", "q0 ", "d0 ", "d1 ", "w "];
    let d = c.pick(5, 6);
    c.tree("", &few, d, &[]);
}

/// Everything below a directory but the names in `but`.
fn tree_of(root: &str, but: &[&str]) -> BTreeMap<String, String> {
    fn rec(p: &Path, rel: &str, but: &[&str], m: &mut BTreeMap<String, String>) {
        let mut l: Vec<_> = fs::read_dir(p).unwrap().map(|e| e.unwrap()).collect();
        l.sort_by_key(|e| e.file_name());
        for e in l {
            let name = format!("{}{}", rel, e.file_name().to_string_lossy());
            if but.contains(&&name[..]) {
                continue;
            }
            let md = fs::symlink_metadata(e.path()).unwrap();
            let what = if md.file_type().is_symlink() {
                format!("link to {:?}", fs::read_link(e.path()).unwrap())
            } else if md.is_dir() {
                "directory".into()
            } else if md.is_file() {
                let c = fs::read(e.path()).unwrap();
                let mut h = H::new();
                h.s(&String::from_utf8_lossy(&c));
                format!("file of {} bytes, hash {:x}, last changed {}.{}", c.len(), h.0, md.mtime(), md.mtime_nsec())
            } else {
                "something".into()
            };
            m.insert(name.clone(), format!("{}, mode {:o}, inode {}", what, md.mode(), md.ino()));
            if md.is_dir() {
                rec(&e.path(), &format!("{}/", name), but, m);
            }
        }
    }
    let mut m = BTreeMap::new();
    rec(Path::new(root), "", but, &mut m);
    m
}
fn unchanged(before: &BTreeMap<String, String>, after: &BTreeMap<String, String>) -> Result<(), String> {
    for (k, v) in before {
        match after.get(k) {
            None => return Err(format!("{} is gone ({})", k, v)),
            Some(w) if w != v => return Err(format!("{} was {} and is {}", k, v, w)),
            _ => (),
        }
    }
    for (k, v) in after {
        if !before.contains_key(k) {
            return Err(format!("{} was made ({})", k, v));
        }
    }
    Ok(())
}
fn trace(sc: &str, calls: &[Call], ok: bool) -> u64 {
    let mut h = H::new();
    h.s(sc);
    for c in calls {
        h.b(c.op as u8);
        h.u(c.n as u64);
        h.s(&c.fault.map_or(String::new(), enc));
    }
    h.b(ok as u8);
    h.0
}
/// Files and what is loaded, and a plan of faults.
fn load_exec(t: &str) -> CaseRes {
    let k = t.rfind(" | ").unwrap();
    let (sc, pl) = (&t[..k], &t[k + 3..]);
    let (plan, every) = plan_of(pl);
    let mut d = Disk::new();
    let mut what = "";
    for e in sc.split(SEP) {
        if e.starts_with('!') || e.starts_with('=') {
            what = e;
            continue;
        }
        let (name, rest) = split_entry(e);
        match rest.as_bytes().first() {
            Some(b'=') => d.file(name, rest[1..].as_bytes()),
            Some(b'>') => d.link(name, &rest[1..]),
            _ => d.dir(name),
        }
    }
    let cwd = std::env::current_dir().unwrap();
    let before = tree_of(&d.root, &[]);
    let rest = &what[1..];
    let load = || if what.starts_with('!') { Obj::from_file(rest) } else { Obj::from_str(rest) };
    let mut last = vec![];
    let mut ok = false;
    settles(&mut || {
        let (r, calls) = armed(plan.clone(), every, load);
        ok = r.is_ok();
        use_up(r);
        last = calls;
    })?;
    unchanged(&before, &tree_of(&d.root, &[]))?;
    if std::env::current_dir().ok() != Some(cwd) {
        return Err("the working directory changed".into());
    }
    let h = trace(sc, &last, ok);
    let steps = last.len() as u64;
    set_last(last);
    Ok(Done { state: h, alive: true, steps, runs: 2, skipped: false })
}
fn load_gen(c: &mut Ctx) {
    let mut v = load_scenarios(false);
    let j = |v: &[&str]| v.join(&SEP.to_string());
    for t in [
        j(&["f=a:<\"g\">", "g=a:<\"f\">", "!t/f"]),
        j(&["f=a:<Str \"f\">", "!t/f"]),
        j(&["f=a:<\"g\"> b:<\"h\">", "g=x:<Arr \"h\">", "h=1", "!t/f"]),
        j(&["f=a:<\"d\">", "d/", "!t/f"]),
        j(&["f=a:<\"l\">", "l>l", "!t/f"]),
        j(&["f=a:<Arr \"g\"> b:]", "g=1 2", "!t/f"]),
        j(&["f=@g:<Tup \"g\"> a:@g b:<Tup \"g\">", "g=1 [2]", "!t/f"]),
        j(&["d/", "=a:<\"t/d\">"]),
    ] {
        v.push((t, 0));
    }
    for (sc, _) in v {
        let depth = if sc.len() > 3000 { 1 } else { c.pick(1, 2) };
        explore(c, &sc, depth);
        for e in &EVERY {
            c.case(&format!("{} | {}", sc, e));
        }
    }
}
fn write_exec(t: &str) -> CaseRes {
    let k = t.rfind(" | ").unwrap();
    let (sc, pl) = (&t[..k], &t[k + 3..]);
    let (plan, every) = plan_of(pl);
    let (target, text) = sc.split_at(sc.find(SEP).unwrap());
    let text = match &text[SEP.len_utf8()..] {
        "#big" => crate::props_io::big(9000),
        x => x.to_string(),
    };
    let o = Obj::from_str(&text).map_err(|e| format!("rejected: {}", e))?;
    let mut d = Disk::new();
    let old = "x:\"old\" ".repeat(text.len() / 4 + 3);
    let mut but = vec!["o"];
    match target {
        "none" => (),
        "shorter" => d.file("o", b"q"),
        "longer" | "huge" => d.file("o", old.as_bytes()),
        "same" => d.file("o", o.write_to_string().as_bytes()),
        "empty" => d.file("o", b""),
        "link" => {
            d.file("p", old.as_bytes());
            d.link("o", "p");
            but = vec!["o", "p"];
        }
        "dangling" => {
            d.link("o", "p");
            but = vec!["o", "p"];
        }
        "hard" => {
            d.file("p", old.as_bytes());
            fs::hard_link(d.abs("p"), d.abs("o")).unwrap();
            but = vec!["o", "p"];
        }
        _ => panic!(),
    }
    for other in ["o~", "o.bak", ".o", "o.tmp", "q", "s/o"] {
        if other == "s/o" {
            d.dir("s");
        }
        d.file(other, b"other");
    }
    let before = tree_of(&d.root, &but);
    let text = o.to_string();
    let (mut last, mut ok) = (vec![], false);
    settles(&mut || {
        let (r, calls) = armed(plan.clone(), every, || o.write_to_file("t/o"));
        ok = r.is_ok();
        last = calls;
    })?;
    unchanged(&before, &tree_of(&d.root, &but))?;
    if o.to_string() != text || o.num_references() != 1 {
        return Err(format!("the written object changed from {:?} to {:?}, {} references", text, o.to_string(), o.num_references()));
    }
    let h = trace(sc, &last, ok);
    let steps = last.len() as u64;
    set_last(last);
    Ok(Done { state: h, alive: true, steps, runs: 2, skipped: false })
}
fn write_gen(c: &mut Ctx) {
    for (sc, _) in write_scenarios(false) {
        explore(c, &sc, c.pick(1, 2));
        for e in &EVERY {
            c.case(&format!("{} | {}", sc, e));
        }
    }
}
/// "N TEXT": the text many times; "N" alone: as many different texts.
fn repeat_exec(t: &str) -> CaseRes {
    let k = t.find(' ').unwrap_or(t.len());
    let n: usize = t[..k].parse().unwrap();
    let other = k == t.len();
    let files: Option<Disk> = if t.contains('<') {
        let mut d = Disk::new();
        d.file("f", b"a:<\"g\"> b:<Str \"g\">");
        d.file("g", b"x:[1 {}]");
        d.file("r", b"a:<\"r\">");
        d.file("e", b"a:]");
        Some(d)
    } else {
        None
    };
    let go = |i: usize| {
        if other {
            use_up(Obj::from_str(&format!("a:{} n{}:(\"s{}\" {{f{}:[{}.5]}}) b:{}", i, i, i, i, i, if i % 3 == 0 { "]" } else { "1" })));
        } else {
            use_up(Obj::from_str(&t[k + 1..]));
        }
    };
    for i in 0..n / 8 {
        go(i);
    }
    let (a, fd) = (live(), free_fd());
    for i in n / 8..n {
        go(i);
    }
    let b = live();
    if free_fd() != fd {
        return Err("descriptors are left open".into());
    }
    let m = (n - n / 8) as i64;
    if b.0 - a.0 > m / 2 || b.1 - a.1 > 4 * m {
        return Err(format!("{} loads leave {} blocks with {} bytes allocated", m, b.0 - a.0, b.1 - a.1));
    }
    drop(files);
    let mut h = H::new();
    h.s(t);
    done(h.0, n as u64)
}
fn repeat_gen(c: &mut Ctx) {
    let n = c.pick(2000, 20_000);
    for t in SHORT.iter().chain(LONG) {
        c.case(&format!("{} {}", n, t));
    }
    for t in ["a:", "a:]", "a:[1 \"s\"]", "a:{b:\"x", "a:b", "a:1/0", "a:1 a:2", "a:<\"t/f\">", "a:<Str \"t/f\"> b:<Arr \"t/g\">", "a:<\"t/r\">", "a:<\"t/e\">", "a:<\"t/none\">"] {
        c.case(&format!("{} {}", n, t));
    }
    c.case(&n.to_string());
    c.case(&(n * 10).to_string());
}
/// "SHAPE N": large documents, as texts and files, as objects and in every other way.
fn big_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    let mut h = H::new();
    let mut n = 0;
    for x in crate::sizes::texts(t) {
        settles(&mut || use_up(Obj::from_str(&x)))?;
        d.file("f", x.as_bytes());
        d.file("g", &x.as_bytes()[x.find(':').map_or(0, |k| k + 1)..]);
        for y in ["", "a:<\"t/f\">", "a:<Str \"t/f\">", "a:<Arr \"t/g\">", "a:<Tup \"t/g\"> b:<\"t/g\">"] {
            let mut ok = false;
            settles(&mut || {
                let r = if y.is_empty() { Obj::from_file("t/f") } else { Obj::from_str(y) };
                ok = r.is_ok();
                use_up(r)
            })?;
            h.b(ok as u8);
            n += 2;
        }
    }
    h.s(t);
    done(h.0, n)
}
fn big_gen(c: &mut Ctx) {
    let top = c.pick(13, 15);
    for k in 5..=top {
        for d in [-1i64, 0, 1] {
            for s in ["arr", "tup", "strs", "objs", "arrs", "empties", "odd", "sums", "chain", "obj", "globals", "name", "digits", "parents", "blanks", "string", "fault"] {
                if k < 12 || !["obj", "parents", "globals", "chain", "sums"].contains(&s) {
                    c.case(&format!("{} {}", s, (1i64 << k) + d));
                }
            }
        }
    }
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        level: "model_checking",
        assumptions: vec!["memory is counted by the program's allocator, per thread; what is kept for reuse may grow to a bound, but not with every repetition"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "tokens", what: "all sequences of up to 3 (4) of 34 tokens after 6 beginnings, loaded, used, dropped, repeated: memory and descriptors", gen: tokens, exec: text_exec },
            Family { name: "edits", what: "all single edits of 45 texts, the same", gen: text_edits, exec: each_exec },
            Family { name: "operations", what: "all sequences of 2 (3) of 126, 3 (4) of 71, 5 (6) of 10 operations (see C26), everything dropped, repeated: memory", gen: op_trees, exec: ops_exec },
            Family { name: "loads", what: "38 layouts of files and every plan of 1 (2) faults over the system calls of the load: memory, descriptors, every file of the tree (content, time, inode, mode), working directory", gen: load_gen, exec: load_exec },
            Family { name: "writes", what: "36 writes and every plan of 1 (2) faults: memory, descriptors, every other file, the object itself", gen: write_gen, exec: write_exec },
            Family { name: "big", what: "documents of 17 shapes with every size 2^k-1, 2^k, 2^k+1, k=5..13 (15), as text, file and include of every type", gen: big_gen, exec: big_exec },
            Family { name: "repeat", what: "57 texts 2000 (20000) times each, and 20000 (200000) different ones", gen: repeat_gen, exec: repeat_exec },
        ],
    }
}

// ---------------------------------------------------------------- C28

const DIR: &str = "hist";
/// What may be done, by name: its observation contains no IDs.
const ACTS: [&str; 40] = [
    "=a:1 b:a", "=@g:[1] a:@g b:{^:{q:1} c:(@g)}", "=a:\"x\\n\"+\"y\" b:-1.5*2", "=t:(1 (2)) x:t.1.0", "=o:{^:{p:1} q:2} r:o.p s:o", "=", "=a:[[] [1]] b:[[1]]+[[]]", "=DEEP", "=é:\"漢\" # c\nz:é",
    "=a:1 a:2", "=a:]", "=a:\"x", "=a:x", "=a:[1 \"s\"]", "=a:@g", "=DEEPER", "=a:1/0", "=\n\n a:t.0", "=@g:1 @g:2", "=a:{b:\"\\q\"}", "=a:1 b:2 c", "=\"",
    "!f", "!ring", "!missing", "!broken", "!latin", "!none", "!self", "!s/up", "!types", "!long",
    "write", "build", "refuse", "compare", "types", "typed", "print", "<hist/types",
];
fn files() {
    if fs::metadata(DIR).is_ok() {
        return;
    }
    fs::create_dir_all(format!("{}/s", DIR)).unwrap();
    for (n, t) in [
        ("f", &b"a:<\"g\"> b:<\"./g\"> c:<Str \"g\"> d:<Arr \"h\"> e:<Tup \"h\">"[..]),
        ("g", b"x:[1 2] y:<Str \"h\">"),
        ("h", b"1 2"),
        ("ring", b"a:<\"ring2\">"),
        ("ring2", b"q:1 b:<\"ring\">"),
        ("missing", b"a:<\"g\"> b:<\"nowhere\">"),
        ("broken", b"a:<\"g\"> b:<\"bad\">"),
        ("bad", b"x:1\n y:]"),
        ("latin", b"a:\"\xe9\""),
        ("self", b"a:<Str \"self\">"),
        ("s/up", b"a:<\"../g\"> b:<Arr \"../h\">"),
        ("types", b"a:<Arr \"h\"> b:<Obj \"g\"> c:<Tup \"h\"> d:<Str \"h\">"),
        ("long", &vec![b' '; 20_000]),
    ] {
        fs::write(format!("{}/{}", DIR, n), t).unwrap();
    }
}
fn shown(r: Result<Obj, OverError>, kept: &mut Vec<Value>) -> String {
    match r {
        Ok(o) => {
            let mut s = format!("{}|{:?}|{}", o.write_to_string(), Value::Obj(o.clone()).get_type().to_string(), o.num_references());
            for p in o.pairs_ref() {
                s.push_str(&format!("|{}:{}", p.0, p.1.get_type()));
            }
            kept.push(Value::Obj(o));
            s
        }
        Err(e) => format!("error: {}", e),
    }
}
fn act(a: &str, kept: &mut Vec<Value>) -> String {
    files();
    if let Some(t) = a.strip_prefix('=') {
        let t = match t {
            "DEEP" => format!("a:{}{}", "[".repeat(63), "]".repeat(63)),
            "DEEPER" => format!("a:{}{}", "(".repeat(64), ")".repeat(64)),
            t => t.to_string(),
        };
        return shown(Obj::from_str(&t), kept);
    }
    if let Some(t) = a.strip_prefix('!') {
        return shown(Obj::from_file(&format!("{}/{}", DIR, t)), kept);
    }
    if let Some(t) = a.strip_prefix('<') {
        return shown(Obj::from_str(&format!("a:<\"{}\"> b:<Obj \"{}\">", t, t)), kept);
    }
    let int = |i: i64| Value::Int(BigInt::from(i));
    let text = |s: &str| Value::Str(s.into());
    match a {
        "write" => {
            let o = Obj::from_pairs(vec![Pair("a".into(), int(1)), Pair("b".into(), text("$\n"))], None).unwrap();
            let r = o.write_to_file("hist/out").map_err(|e| e.to_string());
            let s = fs::read_to_string("hist/out").unwrap_or_default();
            let _ = fs::remove_file("hist/out");
            let q = o.write_to_file("hist/none/out").map_err(|e| e.to_string());
            kept.push(Value::Obj(o));
            format!("{:?} {:?} {:?}", r, s, q)
        }
        "build" => {
            let arr = Arr::from_values(vec![int(1), int(2)]).unwrap();
            let tup = Tup::from_values(vec![Value::Arr(arr.clone()), Value::Null, Value::Arr(Arr::empty())]);
            let p = Obj::from_pairs(vec![Pair("p".into(), Value::Tup(tup.clone()))], None).unwrap();
            let o = Obj::from_pairs(vec![Pair("a".into(), Value::Arr(arr.clone()))], Some(p)).unwrap();
            let s = format!("{} {} {} {} {} {}", o, arr.num_references(), tup.num_references(), o.get("p").unwrap(), o.len(), arr.inner_type());
            kept.push(Value::Obj(o));
            s
        }
        "refuse" => {
            let a = Arr::from_values(vec![int(1), text("x")]).map(|_| ()).map_err(|e| e.to_string());
            let b = Obj::from_pairs(vec![Pair("1".into(), Value::Null)], None).map(|_| ()).map_err(|e| e.to_string());
            let c = Arr::from_values(vec![Value::Arr(Arr::empty()), int(1)]).map(|_| ()).map_err(|e| e.to_string());
            format!("{:?} {:?} {:?} {} {}", a, b, c, Obj::is_valid_field("é"), Obj::is_valid_field("1"))
        }
        "compare" => {
            let x = Obj::from_str("a:[1 2] b:{^:{q:1}}").unwrap();
            let y = Obj::from_str("a:[1 2] b:{^:{q:1}}").unwrap();
            let z = Obj::from_str("a:[1 2] b:{^:{q:2}}").unwrap();
            let s = format!("{} {} {} {} {}", x == y, x == z, x == x.clone(), x.ptr_eq(&y), x.get("a") == y.get("a"));
            kept.push(Value::Obj(x));
            kept.push(Value::Obj(y));
            s
        }
        "types" => {
            let t = Type::Arr(Box::new(Type::Any));
            let u = Type::Arr(Box::new(Type::Tup(vec![Type::Int, Type::Any])));
            format!("{} {} {} {}", t, u, t == u, Value::Tup(Tup::from_values(vec![Value::Arr(Arr::empty()), int(1)])).get_type())
        }
        "typed" => {
            let o = Obj::from_str("a:1 b:\"s\" c:(1) ^:{d:2.5}").unwrap();
            let e = |r: Result<(), OverError>| r.map_err(|e| e.to_string());
            format!("{:?} {:?} {:?} {:?} {:?} {:?}", e(o.get_int("a").map(drop)), e(o.get_int("b").map(drop)), e(o.get_tup("c").map(drop)), e(o.get_frac("d").map(drop)), e(o.get_arr("z").map(drop)), e(o.get_tup("c").unwrap().get(3).map(drop)))
        }
        "print" => {
            let o = Obj::from_str("a:[1 {b:(2 \"x\") ^:{c:()}} {}] d:-1/3 e:[[]]");
            let p = Obj::from_str("a:({b:(2 \"x\\t\") ^:{c:()}} {}) d:-1/3 e:[[] [null]]").unwrap();
            format!("{:?} {} {} {}", o.map(|o| o.to_string()).map_err(|e| e.to_string()), p, p.get("a").unwrap(), p.get("d").unwrap())
        }
        _ => panic!("no act {:?}", a),
    }
}
extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn alarm(s: u32) -> u32;
}
/// What each act gives in a process that does nothing else.
fn alone() -> HashMap<&'static str, String> {
    static ALONE: Mutex<Option<HashMap<&'static str, String>>> = Mutex::new(None);
    let mut a = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    a.get_or_insert_with(|| {
        files();
        ACTS.iter()
            .map(|a| {
                let f = "hist.alone";
                let _ = fs::remove_file(f);
                unsafe {
                    let p = fork();
                    assert!(p >= 0, "cannot fork");
                    if p == 0 {
                        alarm(20);
                        let r = std::panic::catch_unwind(|| act(a, &mut vec![]));
                        let _ = fs::write(f, r.unwrap_or_else(|_| "panic".into()));
                        _exit(0);
                    }
                    let mut st = 0;
                    while waitpid(p, &mut st, 0) != p {}
                }
                (*a, fs::read_to_string(f).unwrap_or_else(|_| "nothing".into()))
            })
            .collect()
    })
    .clone()
}
thread_local! {
    static WANT: Vec<(&'static str, String)> = { let a = alone(); ACTS.iter().map(|x| (*x, a[x].clone())).collect() };
}
fn doing(i: usize, kept: &mut Vec<Value>, after: &dyn Fn() -> String) -> Result<u64, String> {
    WANT.with(|w| {
        let (a, want) = &w[i];
        let got = act(a, kept);
        if got != *want {
            return Err(format!("{:?} gives {:?}{}, but in a process of its own {:?}", a, got, after(), want));
        }
        Ok(got.len() as u64)
    })
}
/// Numbers of acts.
fn seq_exec(t: &str) -> CaseRes {
    let seq: Vec<usize> = t.split(' ').map(|x| x.parse().unwrap()).collect();
    let mut h = H::new();
    for keep in [false, true] {
        let mut kept = vec![];
        let mut last = String::new();
        for (k, i) in seq.iter().enumerate() {
            let mut mine = vec![];
            let s = doing(*i, &mut mine, &|| format!(" after {:?}", seq[..k].iter().map(|j| ACTS[*j]).collect::<Vec<_>>()))?;
            h.u(s);
            if keep {
                kept.extend(mine);
            }
            if keep && k == 0 {
                last = kept.iter().map(|v| v.to_string()).collect();
            }
        }
        if keep && !last.is_empty() {
            // What the first one gave still shows the same.
            let now: String = kept.iter().map(|v| v.to_string()).collect();
            if !now.starts_with(&last) {
                return Err(format!("a kept value was {:?} and is {:?}", last, now));
            }
        }
    }
    Ok(Done { state: h.0, alive: true, steps: 2 * seq.len() as u64, runs: 2 * seq.len() as u64, skipped: false })
}
fn seq_gen(c: &mut Ctx) {
    fn rec(c: &mut Ctx, t: &str, n: usize) {
        for i in 0..ACTS.len() {
            let u = if t.is_empty() { i.to_string() } else { format!("{} {}", t, i) };
            // The others are prefixes of these.
            if n == 1 {
                c.case(&u);
            } else {
                rec(c, &u, n - 1);
            }
        }
    }
    rec(c, "", c.pick(3, 4));
}
/// A text, then the acts: the short ones always.
fn after_text(t: &str) -> Result<u64, String> {
    let r = Obj::from_str(t);
    let first = match &r {
        Ok(o) => o.write_to_string(),
        Err(e) => e.to_string(),
    };
    for i in [0, 1, 2, 3, 6, 8, 9, 12, 13, 15, 22] {
        doing(i, &mut vec![], &|| format!(" after {:?}", t))?;
    }
    let again = match Obj::from_str(t) {
        Ok(o) => o.write_to_string(),
        Err(e) => e.to_string(),
    };
    if again != first {
        return Err(format!("{:?} gives {:?} the second time instead of {:?}", t, again, first));
    }
    Ok(first.len() as u64)
}
fn text28(t: &str) -> CaseRes {
    let n = after_text(t)?;
    let mut h = H::new();
    h.s(t);
    h.u(n);
    done(h.0, 13)
}
fn each28(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut n = 0;
    for x in t.split(SEP) {
        h.u(after_text(x)?);
        n += 13;
    }
    done(h.0, n)
}
fn tokens28(c: &mut Ctx) {
    let k = c.pick(2, 3);
    for p in &["", "a:", "o:{a:(0 1)}\n@g:o\nb:", "a:[[1] [2]] x:(", "^:{a:1} x:{^:", "a:\"hist/f\" b:<"] {
        c.tree(p, TOKENS, k, &[]);
    }
    c.tree("a:", TOKENS, k + 1, &[]);
}
fn edits28(c: &mut Ctx) {
    for d in SHORT.iter().chain(LONG) {
        let mut v: Vec<String> = vec![];
        edits(d, &mut |x| v.push(x.to_string()));
        for p in v.chunks(40) {
            c.case(&p.join(&SEP.to_string()));
        }
    }
}
/// "A N": act A n times, then all acts.
fn many_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|x| x.parse().unwrap()).collect();
    let mut h = H::new();
    for k in 0..f[1] {
        h.u(doing(f[0], &mut vec![], &|| format!(" the {}th time", k + 1))?);
    }
    for i in 0..ACTS.len() {
        doing(i, &mut vec![], &|| format!(" after {} times {:?}", f[1], ACTS[f[0]]))?;
    }
    done(h.0, (f[1] + ACTS.len()) as u64)
}
fn many_gen(c: &mut Ctx) {
    let top = c.pick(11, 15);
    for a in 0..ACTS.len() {
        for n in 0..c.pick(20, 70) {
            c.case(&format!("{} {}", a, n));
        }
        for k in 5..=top {
            for d in [-1i64, 0, 1] {
                c.case(&format!("{} {}", a, (1i64 << k) + d));
            }
        }
    }
}
/// What surrounds an act without being one of its inputs.
fn surroundings() -> Vec<String> {
    let mut v = vec![];
    for i in 0..around::VALUES.len() {
        v.push(format!("env {}", i));
        if i > 0 {
            v.push(format!("environ {}", i));
        }
    }
    for c in ["0 0", "0 1", "1 -1", "1700000000 0", "1700000000 3600", "2147483647 1", "4294967296 -86400", "253402300800 1"] {
        v.push(format!("clock {}", c));
    }
    for r in ["0", "255", "90", "1"] {
        v.push(format!("random {}", r));
    }
    for p in ["1", "2", "65536", "4194304"] {
        v.push(format!("pid {}", p));
    }
    v.push("tty 0".into());
    v.push("tty 1".into());
    for m in 1..8 {
        v.push(format!("closed {}", m));
    }
    for k in ["cwd 0", "cwd 1", "mask 0", "mask 63", "main 0", "stack 512", "stack 65536", "others 1", "others 40", "named 0", "nested 0", "files 3", "core 0"] {
        v.push(k.into());
    }
    v
}
const NAMES: [&str; 26] = [
    "PWD", "OLDPWD", "HOME", "USER", "PATH", "LANG", "LC_ALL", "LC_NUMERIC", "LC_CTYPE", "TERM", "NO_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLUMNS", "TMPDIR", "TZ", "RUST_BACKTRACE", "RUST_LOG", "DEBUG", "CI", "OVER", "OVER_PATH", "OVER_DEBUG", "OVER_MAX_DEPTH",
    "OVER_INCLUDE", "OVER_STRICT",
];
extern "C" {
    fn umask(m: u32) -> u32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
/// "SURROUNDINGS|what": an act, or a text after "=".
fn around_exec(t: &str) -> CaseRes {
    let (how, what) = t.split_at(t.find('|').unwrap());
    let what = &what[1..];
    let want = match ACTS.iter().position(|a| *a == what) {
        Some(i) => WANT.with(|w| w[i].1.clone()),
        None => act(what, &mut vec![]),
    };
    let f: Vec<&str> = how.split(' ').collect();
    let num = |i: usize| f[i].parse::<i64>().unwrap();
    let out = format!("{}/around.out", std::env::current_dir().unwrap().display());
    let _ = fs::remove_file(&out);
    let mut a = around::NOTHING;
    match f[0] {
        "env" => a.env = Some(around::VALUES[num(1) as usize]),
        "clock" => a.clock = Some((num(1), num(2))),
        "random" => a.random = Some(num(1) as u8),
        "pid" => a.pid = Some(num(1) as i32),
        "tty" => a.tty = Some(num(1) as i32),
        _ => (),
    }
    unsafe {
        let p = fork();
        assert!(p >= 0, "cannot fork");
        if p == 0 {
            alarm(20);
            let mut stack = 2 << 20;
            match f[0] {
                "environ" => {
                    for n in &NAMES {
                        std::env::set_var(n, around::VALUES[num(1) as usize].trim_end_matches('\0'));
                    }
                }
                "closed" => (0..3).filter(|b| num(1) >> b & 1 == 1).for_each(|b| {
                    close(b as i32);
                }),
                "cwd" => {
                    fs::create_dir_all("elsewhere/x").unwrap();
                    let _ = std::os::unix::fs::symlink("../hist", "elsewhere/hist");
                    let _ = std::os::unix::fs::symlink("../../hist", "elsewhere/x/hist");
                    std::env::set_current_dir(["elsewhere", "elsewhere/x"][num(1) as usize]).unwrap();
                }
                "mask" => {
                    umask(num(1) as u32);
                }
                "stack" => stack = (num(1) as usize) << 10,
                "files" => {
                    // So many descriptors may still be opened.
                    let n = fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok()).max().unwrap_or(2);
                    let n = n.max(2) + num(1) as u64 + 64;
                    setrlimit(7, &[n, n]);
                }
                "others" => (0..num(1)).for_each(|_| {
                    std::thread::Builder::new().stack_size(1 << 16).spawn(|| std::thread::sleep(std::time::Duration::from_secs(30))).unwrap();
                }),
                _ => (),
            }
            let w = what.to_string();
            let run = move || {
                around::set(a);
                let r = std::panic::catch_unwind(|| act(&w, &mut vec![])).unwrap_or_else(|_| "panic".into());
                around::set(around::NOTHING);
                r
            };
            let r = match f[0] {
                "main" => run(),
                "named" => std::thread::Builder::new().name("é\u{1}x".into()).stack_size(stack).spawn(run).unwrap().join().unwrap(),
                "nested" => std::thread::spawn(move || std::thread::spawn(run).join().unwrap()).join().unwrap(),
                _ => std::thread::Builder::new().stack_size(stack).spawn(run).unwrap().join().unwrap(),
            };
            let _ = fs::write(&out, r);
            _exit(0);
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
    }
    let got = fs::read_to_string(&out).unwrap_or_else(|_| "nothing".into());
    if got != want {
        return Err(format!("{:?} gives {:?} with {:?} around it, otherwise {:?}", what, got, how, want));
    }
    let mut h = H::new();
    h.s(&want);
    done(h.0, 1)
}
fn around_gen(c: &mut Ctx) {
    for k in surroundings() {
        for a in &ACTS {
            c.case(&format!("{}|{}", k, a));
        }
        // More texts where the environment or chance might be asked.
        if c.thorough() || k.starts_with("env ") || k.starts_with("random") || k.starts_with("tty") {
            for d in SHORT.iter().chain(LONG) {
                c.case(&format!("{}|={}", k, d));
            }
        }
    }
}
/// A list of texts forward, then backward, then with larger and larger steps: each time the same outcomes.
fn orders_exec(t: &str) -> CaseRes {
    let v: Vec<&str> = t.split(SEP).collect();
    let out = |x: &str| match Obj::from_str(x) {
        Ok(o) => o.write_to_string(),
        Err(e) => e.to_string(),
    };
    let mut h = H::new();
    let first: Vec<String> = v.iter().map(|x| out(x)).collect();
    first.iter().for_each(|x| h.s(x));
    let n = v.len();
    let mut runs = n as u64;
    let mut again = |i: usize, how: &str| -> Result<(), String> {
        runs += 1;
        let s = out(v[i]);
        if s != first[i] {
            return Err(format!("{:?} gives {:?} {}, before {:?}", v[i], s, how, first[i]));
        }
        Ok(())
    };
    for i in (0..n).rev() {
        again(i, "going backward")?;
    }
    for step in [2usize, 3, 5, 7, 11] {
        for r in 0..step {
            for i in (r..n).step_by(step) {
                again(i, &format!("with step {}", step))?;
            }
        }
    }
    done(h.0, runs)
}
fn orders_gen(c: &mut Ctx) {
    let put = |c: &mut Ctx, v: &[String]| {
        if c.mine() {
            c.run(&v.join(&SEP.to_string()), true);
        }
    };
    for d in SHORT.iter().chain(LONG) {
        let mut v: Vec<String> = vec![];
        edits(d, &mut |x| v.push(x.to_string()));
        put(c, &v);
    }
    // Numbers, names, strings: many of a kind.
    let n = c.pick(3000, 40_000);
    for (a, b) in [("a:", ""), ("n", ":1"), ("a:\"", "\""), ("a:[", "]"), ("a:(1 ", " 2)"), ("a:0.", ""), ("@n", ":1 a:2"), ("a:1 b:x", ""), ("a:-", "/7"), ("a:{k", ":{}}"), ("#", "\na:1"), ("a:<\"", "\">")] {
        let v: Vec<String> = (0..n).map(|i| format!("{}{}{}", a, i, b)).collect();
        put(c, &v);
    }
    // All short texts over few characters.
    let abc = ["a", ":", "1", "[", "]", " ", "\"", "{", "}", "-", ".", "@"];
    for p in ["", "a:", "a:[1] b:a"] {
        let mut v = vec![String::new()];
        let mut last = v.clone();
        for _ in 0..c.pick(3, 4) {
            last = last.iter().flat_map(|x| abc.iter().map(move |y| format!("{}{}", x, y))).collect();
            v.extend(last.iter().cloned());
        }
        let v: Vec<String> = v.iter().map(|x| format!("{}{}", p, x)).collect();
        put(c, &v);
    }
}
/// Documents whose meaning must not depend on the order in which a table is walked: "SURROUNDINGS|TEXT", the text
/// loaded 16 times (each table has keys of its own).
fn tables_exec(t: &str) -> CaseRes {
    let (how, x) = t.split_at(t.find('|').unwrap());
    let x = x[1..].to_string();
    let random = how.parse::<u8>().ok();
    let want = act(&x, &mut vec![]);
    let w = want.clone();
    let run = move || {
        around::set(around::Around { random, ..around::NOTHING });
        let r = (0..16).map(|_| act(&x, &mut vec![])).find(|s| *s != w);
        around::set(around::NOTHING);
        (r, x)
    };
    // A thread of its own asks for random keys of its own.
    let (r, x) = if random.is_some() { std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join().map_err(|_| "panic".to_string())? } else { run() };
    if let Some(s) = r {
        return Err(format!("{:?} gives {:?}, before {:?}", x, s, want));
    }
    let mut h = H::new();
    h.s(&want);
    done(h.0, 17)
}
fn tables_gen(c: &mut Ctx) {
    let lists: Vec<Vec<String>> = vec![
        (0..8).map(|i| format!("{}", (b'a' + i) as char)).collect(),
        (0..20).map(|i| format!("n{:02}", i)).collect(),
        (0..12).map(|i| "q".repeat(i + 1)).collect(),
        ["ab", "aB", "Ab", "AB", "a_", "_a", "ba", "é", "aé", "éa"].iter().map(|s| s.to_string()).collect(),
    ];
    let ends = [
        "", "x:@zz", "x:zz", "x:@z", "x:z", "x:@q", "x:@n2", "x:@n021", "x:@aa", "x:o.zz", "x:o.z", "x:o.n2", "x:o.qqqqqqqqqqqqqq", "x:o.@ab", "@FIRST:0", "FIRST:0", "x:{LAST:1 LAST:2}", "o:0", "x:o+1", "x:[1 @FIRST o]", "x:[o @FIRST]", "x:@LAST.0", "x:@FIRST+\"s\"", "x:<\"hist/none\">", "x:<Arr \"hist/f\">", "x:",
        "x:]", "x:[", "x:1.2.3", "x:{@FIRST:1}", "x:{^:o y:zz}", "x:{^:o}.zz", "^:o x:zz", "^:o ^:o", "^:1", "x:<\"hist/f\"> y:<\"hist/f\"> z:<\"hist/g\">", "x:\"\\q\"", "1:1", "@:1", "x:(@FIRST @LAST o.FIRST o.zz)", "x:{a:@zz b:@yy c:@xx}", "x:[@zz @yy @xx]",
    ];
    for l in &lists {
        for n in [1, 2, 3, 5, l.len()] {
            let v = &l[..n.min(l.len())];
            let list = |p: &str| v.iter().enumerate().map(|(i, s)| format!("{}{}:{} ", p, s, i)).collect::<String>();
            for (p, o) in [("@", false), ("@", true), ("", true), ("", false)] {
                let base = format!("{}o:{{{}}} ", list(p), if o { list("") } else { "^:{".to_string() + &list("") + "}" });
                for e in &ends {
                    let e = e.replace("FIRST", &v[0]).replace("LAST", &v[v.len() - 1]);
                    for how in ["-", "0", "255", "1"] {
                        c.case(&format!("{}|={}{}", how, base, e));
                    }
                }
            }
        }
    }
    for d in SHORT.iter().chain(LONG) {
        for how in ["-", "0", "255", "1"] {
            c.case(&format!("{}|={}", how, d));
        }
    }
}
/// All of many names, strings, numbers, missing files: in one process each must give its own.
fn names_exec(t: &str) -> CaseRes {
    let v: Vec<&str> = t.split(SEP).collect();
    let (kind, v) = (v[0], &v[1..]);
    let mut kept = vec![];
    let mut h = H::new();
    for (k, x) in v.iter().chain(v.iter().rev()).enumerate() {
        let bad = |what: String| Err(format!("{} {:?}: {}", kind, x, what));
        match kind {
            "name" => {
                let q = if *x == "q" { "w" } else { "q" };
                let o = Obj::from_str(&format!("@{}:\"{}\" {}:@{} {}:{{{}:3 ^:{{{}1:4}}}}", x, x, x, x, q, x, x)).map_err(|e| format!("{:?}: {}", x, e))?;
                let i = o.get_obj(q).map_err(|e| e.to_string())?;
                let own: Vec<&String> = o.pairs_ref().iter().map(|p| &p.0).collect();
                if own != [x, q] {
                    return bad(format!("the fields are {:?}", own));
                }
                if o.get_str(x).ok() != Some(x.to_string()) || i.get(x) != Some(Value::Int(3.into())) || i.len() != 1 || i.get(&format!("{}1", x)) != Some(Value::Int(4.into())) {
                    return bad(format!("loaded as {}", o));
                }
                match Obj::from_str(&format!("{}:1 {}:2", x, x)) {
                    Err(e) if e.to_string().contains(&format!("\"{}\"", x)) => (),
                    r => return bad(format!("twice: {:?}", r.map(|o| o.to_string()).map_err(|e| e.to_string()))),
                }
                if k % 16 == 0 {
                    kept.push(o);
                }
            }
            "string" => {
                let o = Obj::from_str(&format!("a:\"{}\" b:[\"{}\" \"\"]", x, x)).map_err(|e| format!("{:?}: {}", x, e))?;
                if o.get_str("a").ok().as_deref() != Some(x) || o.get_arr("b").unwrap().get(0) != Ok(Value::Str(x.to_string())) {
                    return bad(format!("loaded as {}", o));
                }
            }
            "number" => {
                let o = Obj::from_str(&format!("a:{}", x)).map_err(|e| format!("{:?}: {}", x, e))?;
                if o.to_string() != format!("a: {}", x) && o.write_to_string() != format!("a: {}\n", x) && o.get("a").unwrap().to_string() != *x {
                    return bad(format!("loaded as {}", o));
                }
            }
            _ => match Obj::from_str(&format!("a:<\"hist/none/{}\">", x)) {
                Err(e) if e.to_string().contains(&format!("hist/none/{}", x)) => (),
                r => return bad(format!("{:?}", r.map(|o| o.to_string()).map_err(|e| e.to_string()))),
            },
        }
        h.s(x);
    }
    done(h.0, 4 * v.len() as u64)
}
fn names_gen(c: &mut Ctx) {
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain(Some('_')).collect();
    let next: Vec<char> = first.iter().cloned().chain('0'..='9').collect();
    let mut put = |kind: &str, v: Vec<String>| {
        if c.mine() {
            c.run(&format!("{}{}{}", kind, SEP, v.join(&SEP.to_string())), true);
        }
    };
    let is_word = |s: &String| !["null", "true", "false", "and", "or", "not", "mod", "Obj", "Arr", "Tup", "Str", "Any"].contains(&&s[..]);
    let one: Vec<String> = first.iter().map(|c| c.to_string()).collect();
    let two: Vec<String> = one.iter().flat_map(|a| next.iter().map(move |b| format!("{}{}", a, b))).filter(is_word).collect();
    let few: Vec<char> = "aAbBzZ_019yYcC".chars().collect();
    let three: Vec<String> = two.iter().filter(|s| s.chars().all(|c| few.contains(&c))).flat_map(|a| few.iter().map(move |b| format!("{}{}", a, b))).collect();
    let four: Vec<String> = three.iter().flat_map(|a| few[..6].iter().map(move |b| format!("{}{}", a, b))).collect();
    let long: Vec<String> = [31, 32, 33, 63, 64, 65, 255, 256].iter().flat_map(|n| two[..200].iter().flat_map(move |t| vec![format!("{}{}", "l".repeat(*n), t), format!("{}{}", t, "l".repeat(*n)), format!("{}{}{}", t, "l".repeat(*n), t)])).collect();
    let names: Vec<String> = one.into_iter().chain(two).chain(three).chain(four).chain(long).collect();
    put("name", names.clone());
    put("missing file", names);
    let abc: Vec<char> = (32u8..127).map(|b| b as char).filter(|c| !"\"\\$".contains(*c)).chain("éÉß中".chars()).collect();
    let one: Vec<String> = abc.iter().map(|c| c.to_string()).collect();
    let two: Vec<String> = one.iter().flat_map(|a| abc.iter().map(move |b| format!("{}{}", a, b))).collect();
    let three: Vec<String> = "aAbB01 #".chars().flat_map(|x| two.iter().map(move |t| format!("{}{}", t, x))).collect();
    put("string", one.into_iter().chain(two).chain(three).collect());
    let mut v: Vec<String> = (-20_000i64..70_000).map(|i| i.to_string()).collect();
    for k in 17..130 {
        for d in -3i64..=3 {
            let b: BigInt = (BigInt::from(1) << k) + BigInt::from(d);
            v.push(b.to_string());
            v.push((-b).to_string());
        }
    }
    put("number", v);
}
pub fn c28() -> Prop {
    Prop {
        id: "C28",
        level: "model_checking",
        assumptions: vec!["what an operation gives \"alone\" is what it gives in a process that does nothing else"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "sequences", what: "all sequences of 3 (4) of 40 operations: loads of texts and files, valid or with errors of each kind, writes, constructions, comparisons, prints; results kept or dropped; each gives what it gives in a process of its own", gen: seq_gen, exec: seq_exec },
            Family { name: "texts", what: "all sequences of up to 2 (3) of 34 tokens after 6 beginnings, one more after a:, each followed by 11 of the operations and itself", gen: tokens28, exec: text28 },
            Family { name: "edits", what: "all single edits of 45 texts, the same", gen: edits28, exec: each28 },
            Family { name: "surroundings", what: "each operation (and 45 texts) with 14 answers to every question for an environment variable, with 26 variables set to each, 8 clocks, 4 kinds of random numbers, process numbers, terminals or not, standard streams closed, other working directories, masks, threads, stacks, limits", gen: around_gen, exec: around_exec },
            Family { name: "orders", what: "all edits of each of 45 texts, 12 lists of 3,000 (40,000) texts that differ in a number, all texts of up to 3 (4) of 12 characters after 3 beginnings: loaded forward, backward and with 5 larger steps", gen: orders_gen, exec: orders_exec },
            Family { name: "tables", what: "all of 4 lists of 1-20 names as globals, fields, or fields of a parent, before 42 ends with an error of each kind or none, and 45 texts; each loaded 16 times, with 4 kinds of random numbers", gen: tables_gen, exec: tables_exec },
            Family { name: "names", what: "all names of up to 2 characters, of 3 and 4 of 14 (6), 4,800 long ones; all strings of up to 2 of 96 characters, 3 of 8; whole numbers -20,000 to 69,999 and around powers of two: in one process each gives its own", gen: names_gen, exec: names_exec },
            Family { name: "many", what: "each operation n times, then every one; n to 19 (69) and around powers of two to 2^11 (2^15)", gen: many_gen, exec: many_exec },
        ],
    }
}
