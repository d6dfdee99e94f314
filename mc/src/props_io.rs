//! C15: faults of the system below loads and writes.

use crate::docs::*;
use crate::engine::*;
use crate::faults::*;
use crate::interp::*;
use crate::model::*;
use over::Obj;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::str::FromStr;

thread_local! {
    static KNOWN: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
    static LAST: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}

pub fn enc(f: Fault) -> String {
    match f {
        Fault::Fail(e) => format!("e{}", e),
        Fault::Intr => "i".into(),
        Fault::Short(k) => format!("s{}", k),
        Fault::Size(k) => format!("z{}", k),
        Fault::Nothing => "n".into(),
    }
}
fn dec(s: &str) -> Fault {
    let k = || s[1..].parse().unwrap();
    match s.as_bytes()[0] {
        b'e' => Fault::Fail(k()),
        b'i' => Fault::Intr,
        b's' => Fault::Short(k() as usize),
        b'z' => Fault::Size(k() as u8),
        _ => Fault::Nothing,
    }
}
/// "SCENARIO | 0:e5 3:s1" or "SCENARIO | *R:s1".
pub fn plan_of(s: &str) -> (Vec<(usize, Fault)>, Option<(Op, Fault)>) {
    let mut plan = vec![];
    let mut every = None;
    for p in s.split(' ').filter(|p| !p.is_empty()) {
        let (a, b) = p.split_at(p.find(':').unwrap());
        let f = dec(&b[1..]);
        match a {
            "*R" => every = Some((Op::Read, f)),
            "*W" => every = Some((Op::Write, f)),
            "*O" => every = Some((Op::Open, f)),
            "*S" => every = Some((Op::Stat, f)),
            "*P" => every = Some((Op::Path, f)),
            _ => plan.push((a.parse().unwrap(), f)),
        }
    }
    (plan, every)
}
fn menu(c: &Call) -> Vec<Fault> {
    use Fault::*;
    let mut m = match c.op {
        Op::Open => vec![Fail(13), Fail(24), Fail(2), Intr],
        Op::Read => vec![Fail(5), Fail(21), Fail(11), Intr],
        Op::Write => vec![Fail(28), Fail(5), Fail(11), Fail(32), Intr, Nothing],
        Op::Stat => vec![Fail(5), Size(0), Size(1), Size(2), Size(3)],
        Op::Path => vec![Fail(13), Fail(2), Fail(5)],
        Op::Other => vec![Fail(29)],
    };
    if c.op == Op::Read || c.op == Op::Write {
        if c.n <= 14 {
            m.extend((1..c.n).map(Short));
        } else {
            m.extend([1, 2, 3, 7, c.n / 2, c.n - 1].iter().map(|k| Short(*k)));
        }
    }
    m
}

pub fn big(n: usize) -> String {
    // A text of at least n bytes with characters of all lengths, so that pieces end within characters.
    let mut s = String::new();
    let mut i = 0;
    while s.len() < n {
        s.push_str(&format!("f{}:({} \"é漢🌍{}\"\n 7)\n", i, i, i));
        i += 1;
    }
    s
}
fn big_arr(n: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while s.len() < n {
        s.push_str(&format!("\"é漢🌍{}\" ", i));
        i += 1;
    }
    s
}

/// Files and what is loaded: '!' a file, '=' a text.
pub fn load_scenarios(deep: bool) -> Vec<(String, u8)> {
    let j = |v: &[&str]| v.join(&SEP.to_string());
    // The number is the depth of the exploration on top of the tier's.
    let mut v: Vec<(String, u8)> = vec![
        (j(&["f=a:1", "!t/f"]), 1),
        (j(&["f=", "!t/f"]), 1),
        (j(&["f=a:\"é漢\"", "!t/f"]), 1),
        (j(&["f=#é", "!t/f"]), 1),
        (j(&["f=a:1 b:12", "!t/f"]), 1),
        (j(&["f=a:]", "!t/f"]), 1),
        (j(&["g=x", "L>g", "f=a:1", "M>f", "!t/M"]), 0),
        (j(&["g=b:7", "=a:<\"t/g\">"]), 1),
        (j(&["g=1 \"é\"", "=a:<Arr \"t/g\"> c:1"]), 0),
        (j(&["g=1 [2]", "=a:<Tup \"t/g\"> c:1"]), 0),
        (j(&["g=é\r\n漢", "=a:<Str \"t/g\"> c:1"]), 0),
        (j(&["g=", "=a:<Str \"t/g\">"]), 0),
        (j(&["g=b:7", "f=a:<\"g\"> c:1", "!t/f"]), 0),
        (j(&["g=é1", "f=a:<Str \"g\"> c:1", "!t/f"]), 0),
        (j(&["g=1 2", "f=a:<Arr \"g\"> c:<Tup \"g\">", "!t/f"]), 0),
        (j(&["g=q:1", "f=a:<\"g\"> c:<\"g\"> d:<\"./g\">", "!t/f"]), 0),
        (j(&["h=z:0", "g=y:<\"h\">", "f=x:<\"g\">", "!t/f"]), 0),
        (j(&["h=5", "g=[1] <Tup \"h\">", "f=x:<Arr \"h\"> y:<Tup \"g\">", "!t/f"]), 0),
        (j(&["f=x:<\"f\">", "!t/f"]), 0),
        (j(&["!t/none"]), 0),
    ];
    for n in &[100usize, 9000] {
        let b = big(*n);
        v.push((j(&[&format!("f={}", b), "!t/f"]), 0));
        v.push((j(&[&format!("g={}", b), "=a:<\"t/g\">"]), 0));
        v.push((j(&[&format!("g={}", b), "=a:<Str \"t/g\">"]), 0));
        let a = big_arr(*n);
        v.push((j(&[&format!("g={}", a), "=a:<Arr \"t/g\">"]), 0));
        v.push((j(&[&format!("g={}", a), "=a:<Tup \"t/g\">"]), 0));
    }
    if deep {
        let b = big(40_000);
        v.push((j(&[&format!("f={}", b), "!t/f"]), 0));
        v.push((j(&[&format!("g={}", b), "=a:<Str \"t/g\">"]), 0));
    }
    v
}

fn load_exec(t: &str) -> CaseRes {
    let k = t.rfind(" | ").unwrap();
    let (sc, pl) = (&t[..k], &t[k + 3..]);
    let (plan, every) = plan_of(pl);
    let mut d = Disk::new();
    let mut what = "";
    for e in sc.split(SEP) {
        if e.starts_with('!') || e.starts_with('=') {
            what = e;
            continue;
        }
        let (name, rest) = split_entry(e);
        match rest.as_bytes()[0] {
            b'=' => d.file(name, rest[1..].as_bytes()),
            _ => d.link(name, &rest[1..]),
        }
    }
    let rest = &what[1..];
    let is_file = what.starts_with('!');
    let model = if is_file { eval_file(rest, &d.fs) } else { Ok(eval_text(rest, Some(&d.fs))) };
    let load = || if is_file { Obj::from_file(rest) } else { Obj::from_str(rest) };
    let judged = |r, faulty: &str| match &model {
        Ok(m) => judge(r, m, VALUE).map_err(|e| format!("{}{}", faulty, e)),
        Err(()) => match r {
            Ok(_) => Err(format!("{}loading {:?} succeeded", faulty, rest)),
            Err(_) => Ok(Done::state(1)),
        },
    };
    let (r, calls) = armed(plan, every, load);
    let hard = calls.iter().position(|c| matches!(c.fault, Some(Fault::Fail(_))) && (c.op == Op::Open || c.op == Op::Read));
    let soft = calls.iter().any(|c| matches!(c.fault, Some(Fault::Fail(_))));
    let mut h = H::new();
    h.s(sc);
    for c in &calls {
        h.b(c.op as u8);
        h.u(c.n as u64);
        h.s(&c.fault.map_or(String::new(), enc));
    }
    h.b(r.is_ok() as u8);
    let steps = calls.len() as u64;
    let acts: Vec<String> = calls.iter().map(|c| format!("{:?}{}", c.op, c.fault.map_or(String::new(), |f| format!("={:?}", f)))).take(60).collect();
    let failed = soft && r.is_err();
    LAST.with(|l| *l.borrow_mut() = calls);
    if let Some(i) = hard {
        if r.is_ok() {
            return Err(format!("a load succeeded although call {} failed; calls: {}", i, acts.join(" ")));
        }
    }
    if !failed {
        judged(r, "").map_err(|e| format!("{}; calls: {}", e, acts.join(" ")))?;
    }
    // And nothing lingers.
    judged(load(), "repeated without faults: ")?;
    Ok(Done { state: h.0, alive: true, steps, runs: 2, skipped: false })
}

/// The calls at which faults are injected: all of them, unless there are very many (code that reads or
/// writes in small pieces): then the first and last ones and some between.
fn spots(from: usize, len: usize) -> Vec<usize> {
    if len <= 64 {
        return (from..len).collect();
    }
    let mut v: Vec<usize> = (0..12).chain(len - 6..len).chain((1..8).map(|k| len * k / 8)).filter(|i| *i >= from).collect();
    v.sort();
    v.dedup();
    v
}
/// The calls of the case just run, for explore.
pub fn set_last(c: Vec<Call>) {
    LAST.with(|l| *l.borrow_mut() = c);
}
/// Every plan of up to `depth` faults.
pub fn explore(c: &mut Ctx, sc: &str, depth: usize) {
    c.run(&format!("{} | ", sc), false);
    let calls = LAST.with(|l| l.borrow().clone());
    // Fewer faults at once where there are many calls.
    let depth = depth.min(match calls.len() {
        0..=16 => depth,
        17..=64 => 2,
        _ => 1,
    });
    if c.mine() {
        c.run(&format!("{} | ", sc), true);
    }
    for i in spots(0, calls.len()) {
        for f in menu(&calls[i]) {
            if c.mine() {
                rec(c, sc, &format!("{}:{}", i, enc(f)), i + 1, depth - 1);
            }
        }
    }
}
fn rec(c: &mut Ctx, sc: &str, plan: &str, from: usize, depth: usize) {
    if c.stop {
        return;
    }
    c.run(&format!("{} | {}", sc, plan), true);
    if depth == 0 {
        return;
    }
    let calls = LAST.with(|l| l.borrow().clone());
    for i in spots(from, calls.len()) {
        for f in menu(&calls[i]) {
            rec(c, sc, &format!("{} {}:{}", plan, i, enc(f)), i + 1, depth - 1);
        }
    }
}
pub const EVERY: [&str; 16] = ["*R:s1", "*R:s2", "*R:s3", "*R:s5", "*R:s1000", "*R:i", "*W:s1", "*W:s2", "*W:s3", "*W:s5", "*W:s1000", "*W:i", "*O:i", "*S:z0", "*S:z1", "*S:z3"];

fn load_gen(c: &mut Ctx) {
    for (sc, extra) in load_scenarios(c.thorough()) {
        let depth = c.pick(2, 3) + if sc.len() > 9000 { 0 } else { extra as usize };
        let depth = if sc.len() > 9000 { depth - 1 } else { depth };
        explore(c, &sc, depth);
        for e in &EVERY {
            c.case(&format!("{} | {}", sc, e));
            // Together with one failing call at every place.
            for i in 0..c.pick(12, if sc.len() > 9000 { 12 } else { 40 }) {
                for g in &["e5", "i", "s1"] {
                    c.case(&format!("{} | {} {}:{}", sc, e, i, g));
                }
            }
        }
    }
}

// ---- writes ----

pub fn write_scenarios(deep: bool) -> Vec<(String, u8)> {
    let texts = ["a:1", "", "a:\"é漢🌍\" b:[1 2] c:{d:()}", "#big"];
    let targets = ["none", "shorter", "longer", "huge", "link", "dangling", "hard", "same", "empty"];
    let mut v = vec![];
    for t in &texts {
        for g in &targets {
            v.push((format!("{}{}{}", g, SEP, t), (*t == "a:1" || (deep && *t != "#big")) as u8));
        }
    }
    if deep {
        for g in &targets {
            v.push((format!("{}{}#large", g, SEP), 0));
        }
    }
    v
}
fn write_exec(t: &str) -> CaseRes {
    let k = t.rfind(" | ").unwrap();
    let (sc, pl) = (&t[..k], &t[k + 3..]);
    let (plan, every) = plan_of(pl);
    let (target, text) = sc.split_at(sc.find(SEP).unwrap());
    let text = match &text[SEP.len_utf8()..] {
        "#big" => big(9000),
        "#large" => big(40_000),
        x => x.to_string(),
    };
    let o = Obj::from_str(&text).map_err(|e| format!("rejected: {}", e))?;
    let want = o.write_to_string();
    // The text itself is right by C20; here it has to mean the same.
    if KNOWN.with(|k| k.borrow_mut().insert(want.clone())) {
        let m = eval_text(&text, None);
        judge(Obj::from_str(&want), &m, VALUE)?;
    }
    let mut d = Disk::new();
    let old = "x:\"old\" ".repeat(want.len() / 4 + 3);
    match target {
        "none" => (),
        "shorter" => d.file("o", b"q"),
        "longer" => d.file("o", old.as_bytes()),
        "huge" => d.file("o", "z:1 ".repeat(60_000).as_bytes()),
        "same" => d.file("o", want.as_bytes()),
        "empty" => d.file("o", b""),
        "link" => {
            d.file("p", old.as_bytes());
            d.link("o", "p");
        }
        "dangling" => d.link("o", "p"),
        "hard" => {
            d.file("p", old.as_bytes());
            fs::hard_link(d.abs("p"), d.abs("o")).unwrap();
        }
        _ => panic!(),
    }
    let check = |when: &str| -> Result<(), String> {
        let got = fs::read(d.abs("o")).map_err(|e| format!("{}: the file cannot be read: {}", when, e))?;
        if got != want.as_bytes() {
            return Err(format!("{}: the file holds {} bytes {:?} instead of {} bytes {:?}", when, got.len(), String::from_utf8_lossy(&got).chars().take(60).collect::<String>(), want.len(), want.chars().take(60).collect::<String>()));
        }
        Ok(())
    };
    let (r, calls) = armed(plan, every, || o.write_to_file("t/o"));
    let mut h = H::new();
    h.s(sc);
    for c in &calls {
        h.b(c.op as u8);
        h.u(c.n as u64);
        h.s(&c.fault.map_or(String::new(), enc));
    }
    h.b(r.is_ok() as u8);
    let steps = calls.len() as u64;
    let acts: Vec<String> = calls.iter().map(|c| format!("{:?}{}", c.op, c.fault.map_or(String::new(), |f| format!("={:?}", f)))).take(60).collect();
    let hard = calls.iter().any(|c| matches!(c.fault, Some(Fault::Fail(_))) && (c.op == Op::Open || c.op == Op::Write));
    let soft = calls.iter().any(|c| matches!(c.fault, Some(Fault::Fail(_)) | Some(Fault::Nothing)));
    LAST.with(|l| *l.borrow_mut() = calls);
    match r {
        Ok(()) => {
            if hard {
                return Err(format!("a write succeeded although a call failed; calls: {}", acts.join(" ")));
            }
            check("after a successful write").map_err(|e| format!("{}; calls: {}", e, acts.join(" ")))?;
        }
        Err(e) => {
            if !soft {
                return Err(format!("a write failed without cause: {}; calls: {}", e, acts.join(" ")));
            }
        }
    }
    o.write_to_file("t/o").map_err(|e| format!("a write failed when repeated without faults: {}", e))?;
    check("after a repeated write")?;
    Ok(Done { state: h.0, alive: true, steps, runs: 2, skipped: false })
}
fn write_gen(c: &mut Ctx) {
    for (sc, extra) in write_scenarios(c.thorough()) {
        let depth = c.pick(2, 3) + extra as usize;
        let depth = if sc.ends_with("#large") { 2 } else { depth };
        explore(c, &sc, depth);
        for e in &EVERY {
            c.case(&format!("{} | {}", sc, e));
            for i in 0..c.pick(12, if sc.contains("#") { 12 } else { 40 }) {
                for g in &["e28", "i", "n", "s1"] {
                    c.case(&format!("{} | {} {}:{}", sc, e, i, g));
                }
            }
        }
    }
}

// ---- what the file system itself refuses, and what it holds ----

/// "load PATH", "write PATH" with the directory of odd things; or "bytes N HEX": content of a file.
fn odd_setup() -> Disk {
    let mut d = Disk::new();
    d.file("f", b"a:1");
    d.dir("d");
    d.link("loop", "loop");
    d.link("l1", "l2");
    d.link("l2", "l1");
    d.link("dl", "d");
    d.link("no", "nothing/there");
    d.link("nul", "/dev/null");
    d.link("full", "/dev/full");
    d.file("bad", b"a:\"\xff\"");
    d.file("cut", b"a:\"\xe6\xbc");
    d
}
fn odd_paths() -> Vec<String> {
    let mut v: Vec<String> = ["f", "d", "d/", "loop", "l1", "dl", "dl/", "no", "none", "none/x", "f/x", "f/", "f/.", "d/x/y", "", ".", "..", "full", "d/../f", "a\0b", "f\0", "bad", "cut"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in &[200usize, 255, 256, 257, 4095, 4096, 5000, 100_000] {
        v.push("x".repeat(*n));
        v.push(format!("{}f", "d/../".repeat(n / 5)));
    }
    v
}
fn odd_exec(t: &str) -> CaseRes {
    let d = odd_setup();
    let mut it = t.splitn(2, ' ');
    let (op, k) = (it.next().unwrap(), it.next().unwrap().parse::<usize>().unwrap());
    let p = &odd_paths()[k];
    let path = if p.is_empty() { String::new() } else { format!("t/{}", p) };
    // What the system says about the path.
    let readable = if p == "full" { Err(std::io::ErrorKind::Other.into()) } else { fs::read_to_string(&path) };
    let mut h = H::new();
    match op {
        "load" => {
            let r = Obj::from_file(&path);
            h.b(r.is_ok() as u8);
            match (r, readable) {
                (Ok(_), Err(e)) => return Err(format!("loading {:?} succeeded although {}", path, e)),
                (Err(e), Ok(_)) => return Err(format!("loading {:?} failed: {}", path, e)),
                (Ok(o), Ok(s)) => {
                    judge(Ok(o), &eval_text(&s, None), VALUE)?;
                }
                _ => (),
            }
        }
        "include" => {
            // Names with odd characters do not arise here: none of the paths has quotes.
            for kw in &["", "Arr ", "Tup ", "Str ", "Obj "] {
                for text in &[format!("a:<{}\"{}\">", kw, path), format!("b:1 a:[<{}\"{}\">] c:2", kw, path), format!("{{a:1 ^:<{}\"{}\">}}", kw, path)] {
                    let r = Obj::from_str(text);
                    h.b(r.is_ok() as u8);
                    if r.is_ok() && readable.is_err() {
                        return Err(format!("including {:?} succeeded", path));
                    }
                }
            }
        }
        _ => {
            let o = Obj::from_str("k:[1 2 3]").unwrap();
            let want = o.write_to_string();
            // Whether the system would let anybody write there.
            let before = readable.ok();
            let may = fs::OpenOptions::new().write(true).create(true).truncate(false).open(&path).and_then(|mut f| {
                use std::io::Write;
                f.write_all(b"").and_then(|_| if p == "full" { f.write_all(b"x") } else { Ok(()) })
            });
            let r = o.write_to_file(&path);
            h.b(r.is_ok() as u8);
            match (r, may) {
                (Ok(()), Err(e)) => return Err(format!("writing {:?} succeeded although {}", path, e)),
                (Err(e), Ok(())) => return Err(format!("writing {:?} failed: {}", path, e)),
                (Ok(()), Ok(())) => {
                    let got = fs::read_to_string(&path).unwrap_or_default();
                    if got != want {
                        return Err(format!("{:?} holds {:?} instead of {:?}", path, got, want));
                    }
                }
                (Err(_), Err(_)) => {
                    if p != "full" && fs::read_to_string(&path).ok() != before {
                        return Err(format!("{:?} was changed by a failed opening", path));
                    }
                }
            }
        }
    }
    let _ = d;
    h.s(t);
    Ok(Done { state: h.0, alive: true, steps: 1, runs: 1, skipped: false })
}
fn odd_gen(c: &mut Ctx) {
    for k in 0..odd_paths().len() {
        for op in &["load", "include", "write"] {
            // Reading /dev/full never ends.
            if odd_paths()[k] == "full" && *op != "write" {
                continue;
            }
            c.case(&format!("{} {}", op, k));
        }
    }
}

/// File contents byte by byte: no load succeeds with contents that are no text.
fn bytes_exec(t: &str) -> CaseRes {
    let b: Vec<u8> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut d = Disk::new();
    let mut h = H::new();
    let mut n = 0;
    for (pre, post) in &[(&b""[..], &b""[..]), (b"a:\"", b"\""), (b"#", b"\n"), (b"a:'", b"'")] {
        let mut x = pre.to_vec();
        x.extend_from_slice(&b);
        x.extend_from_slice(post);
        d.file("f", &x);
        let ok = std::str::from_utf8(&x).is_ok();
        for text in &["!", "=a:<\"t/f\">", "=a:<Str \"t/f\">", "=a:<Arr \"t/f\">", "=a:<Tup \"t/f\">"] {
            n += 1;
            if *text == "!" {
                if !ok && Obj::from_file("t/f").is_ok() {
                    return Err(format!("a file of the bytes {:02x?} was loaded", x));
                }
                if ok {
                    h.u(d.judge("t/f", VALUE)?.state);
                }
            } else if !ok {
                if Obj::from_str(&text[1..]).is_ok() {
                    return Err(format!("a file of the bytes {:02x?} was included by {:?}", x, &text[1..]));
                }
            } else {
                h.u(d.judge_text(&text[1..], VALUE)?.state);
            }
        }
    }
    Ok(Done { state: h.0, alive: true, steps: n, runs: n, skipped: false })
}
fn bytes_gen(c: &mut Ctx) {
    // All sequences of up to 4 (5) bytes from the borders of the classes of bytes in UTF-8.
    let bs = [0x00u8, 0x22, 0x31, 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xfe, 0xff];
    let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    c.case("");
    for a in 0..=255u8 {
        c.case(&hex(&[a]));
    }
    for a in &bs {
        for b in &bs {
            c.case(&hex(&[*a, *b]));
            for x in &bs {
                c.case(&hex(&[*a, *b, *x]));
                if c.thorough() && *a >= 0xe0 {
                    for y in &bs {
                        c.case(&hex(&[*a, *b, *x, *y]));
                    }
                }
            }
        }
    }
    // Truncated and damaged texts: every prefix and every byte replaced.
    let text = "a:\"é漢🌍\" b:1";
    for i in 0..text.len() {
        c.case(&hex(&text.as_bytes()[..i]));
        for x in &bs {
            let mut v = text.as_bytes().to_vec();
            v[i] = *x;
            c.case(&hex(&v));
        }
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "fault_enumeration",
        assumptions: vec![
            "faults are injected at the C library's entry points the standard library uses (open, read, write, stat, realpath and their relatives); closing is assumed not to fail",
            "a stat may report any size (0, half, more) for a file whose contents are complete",
            "a failing stat, seek or realpath may fail the load or be recovered from",
        ],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "load", what: "for 30 layouts of files (contents of 0 to 9000 (40000) bytes, includes of every type, chains, repeated, links): every plan of up to 2 (3; one more for the smallest) faults over the calls of the load: every error, interruption, every short transfer, false sizes; and the same fault at every call together with one more anywhere; every load is repeated without faults", gen: load_gen, exec: load_exec },
            Family { name: "write", what: "for texts of 0 to 9000 (40000) bytes and 9 previous states of the target: every plan of up to 2 (3; one more for the smallest) faults over the calls of the write", gen: write_gen, exec: write_exec },
            Family { name: "refused", what: "loading from, including and writing to 39 odd paths (directories, loops, dangling links, over-long and NUL-carrying names, /dev/full)", gen: odd_gen, exec: odd_exec },
            Family { name: "bytes", what: "all sequences of up to 3 (4) bytes at the borders of the UTF-8 byte classes, all prefixes and single-byte damages of a text, in a file loaded and included as each type", gen: bytes_gen, exec: bytes_exec },
        ],
    }
}
