//! C01, C09, C16: totality, parents, the nesting limit.

use crate::cmp::*;
use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use over::obj::Pair;
use over::value::Value;
use over::{Obj, OverError, ReferenceType};
use std::fs;
use std::rc::Rc;
use std::str::FromStr;

// ---------------------------------------------------------------- C01

fn use_result(r: Result<Obj, OverError>, h: &mut H) {
    match r {
        Ok(o) => {
            let t = o.write_to_string();
            let s = o.to_string();
            let _ = o == o.clone();
            for f in &["a", "x", "", "^", "@g"] {
                let _ = o.get(f);
                let _ = o.get_with_source(f);
            }
            h.s(&t);
            h.u(s.len() as u64);
        }
        Err(e) => {
            let t = e.to_string();
            h.s(&t);
            h.u(format!("{:?}", e).len() as u64);
        }
    }
}
fn c01_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    use_result(Obj::from_str(t), &mut h);
    Ok(Done::state(h.0))
}
/// Texts separated by SEP.
fn c01_each(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut n = 0;
    for x in t.split(SEP) {
        use_result(Obj::from_str(x), &mut h);
        n += 1;
    }
    Ok(Done { state: h.0, alive: true, steps: n, runs: n, skipped: false })
}
const C01_CHARS: &[&str] = &[
    "a", "n", "0", "9", " ", "\n", "\r", "\t", ":", "\"", "\\", "{", "}", "[", "]", "(", ")", "<", ">", "+", "-", "*", "/", "%", ".", ",", "_", "@", "^", "#", "$", "'", "=", "é", "𝄞", "\u{a0}", "\u{0}", "²", "\u{301}",
];
const C01_CTX: &[&str] = &["", "a:", "a:\"", "a:[", "a:(1 ", "a:{", "a:<", "o:{x:(0 1)}\na:o.", "t:[[0]]\na:t.", "@g:{x:1} a:@g", "a:1", "^:", "a:\"s\"+", "a:1.", "a:-"];
fn c01_chars(c: &mut Ctx) {
    // All character sequences, in every context; nothing is pruned.
    for (i, ctx) in C01_CTX.iter().enumerate() {
        let d = if i == 0 { c.pick(4, 5) } else { c.pick(3, 4) };
        c.tree(ctx, C01_CHARS, d, &[]);
    }
}
pub const TOKENS: &[&str] = &[
    "a:", "b:", "@g:", "^:", "a", "b ", "@g", "1", "0 ", "-", "+", "*", "/", "%", ".", "1.5", "\"s\"", "\"", "null ", "true", "Obj ", "Arr", "{", "}", "[", "]", "(", ")", "<", ">", " ", "\n", "#", "_",
];
fn c01_tokens(c: &mut Ctx) {
    let k = c.pick(3, 4);
    c.tree("a:", TOKENS, k + 1, &[]);
    for p in &["", "o:{a:(0 1)}\n@g:o\nb:", "a:[[1] [2]] x:(", "^:{a:1} x:{^:", "a:\"t/none\" b:<"] {
        c.tree(p, TOKENS, k, &[]);
    }
}
fn c01_edits(c: &mut Ctx) {
    let mut all: Vec<&str> = SHORT.to_vec();
    all.extend(LONG);
    for d in all {
        edits(d, &mut |t| c.case(t));
        cuts(d, &mut |t| c.case(t));
    }
    if c.thorough() {
        // Two edits.
        for d in SHORT {
            edits(d, &mut |t| {
                if c.mine() {
                    let t = t.to_string();
                    edits(&t, &mut |u| {
                        c.run(u, true);
                    });
                }
            });
        }
    }
}
fn c01_unicode_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut n = 0;
    for (p, s) in &[
        ("", ""), ("", ":1"), ("a", ":1"), ("a:", ""), ("a:", " "), ("a:1", ""), ("a:\"\\", "\""), ("a:[", "]"), ("a:{", "}"), ("a:{x:1", "}"), ("@", ":1"), ("a:1.", ""), ("a:-", ""), ("o:{x:1} a:o.", ""), ("o:[1] a:o.", ""),
        ("a:<", ">"), ("#", ""), ("a ", ":1"), ("a:1+", ""), ("^", ":{}"), ("a:\"", "\""), ("a:\"", ""), ("a:1_", ""), ("a:@", ""), ("a", ""),
    ] {
        use_result(Obj::from_str(&format!("{}{}{}", p, t, s)), &mut h);
        n += 1;
    }
    let ch = t.chars().next().unwrap();
    let _ = (Obj::is_valid_field(t), Obj::is_valid_field_char(ch, true), Obj::is_valid_field_char(ch, false));
    let _ = Obj::from_pairs(vec![Pair(t.into(), Value::Null)], None).map(|o| use_result(Ok(o), &mut h));
    Ok(Done { state: h.0, alive: true, steps: n, runs: n, skipped: false })
}
fn c01_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c01_repeat(c: &mut Ctx) {
    let n = c.pick(700, 4000);
    let ctx = ["", "a:", "o:{x:1}\na:o", "t:(0 1)\na:t", "a:\"", "a:1", "@g:{x:1} a:@g", "a:<"];
    let toks = ["a:", "a", "@g", "^:", "^", "1", "0", "-", "+", "*", "/", "%", ".", ".0", ".x", ",", "_", "\"", "\\", "\"s\"", "null", "Obj", "{", "}", "[", "]", "(", ")", "<", ">", " ", "\n", "\r", "#", "é", ":", "1 ", "{a:", "[1]", "{^:", "<\"t/x\">"];
    for p in &ctx {
        for x in &toks {
            c.case(&format!("{}{}", p, x.repeat(n * 40)));
            for y in &toks {
                if !c.mine() {
                    continue;
                }
                c.run(&format!("{}{}", p, format!("{}{}", x, y).repeat(n)), true);
                c.run(&format!("{}{}{}", p, x.repeat(n), y.repeat(n)), true);
                if c.thorough() {
                    for z in &toks {
                        c.run(&format!("{}{}", p, format!("{}{}{}", x, y, z).repeat(200)), true);
                        c.run(&format!("{}{}{}{}", p, x.repeat(200), y, z.repeat(200)), true);
                    }
                }
            }
        }
    }
}
/// "kind n": large, mostly valid texts.
fn c01_scale_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let n = f[1];
    let rep = |s: &str| s.repeat(n);
    let each = |g: &dyn Fn(usize) -> String| (0..n).map(|i| g(i)).collect::<Vec<_>>().join("");
    let d = match f[0] {
        0 => each(&|i| format!("f{}:{}\n", i, i)),
        1 => format!("{} x:@g{}", each(&|i| format!("@g{}:{}\n", i, i)), n.max(1) - 1),
        2 => format!("@p0:{{x:1}} {} ^:@p{}", each(&|i| format!("@p{}:{{^:@p{} y:1}}\n", i + 1, i)), n),
        3 => format!("a:[{}]", rep("1 ")),
        4 => format!("a:({})", rep("() ")),
        5 => format!("a:{}1", rep("9")),
        6 => format!("a:0.{}1", rep("9")),
        7 => format!("a:\"{}\"", rep("é\\n")),
        8 => format!("a:1{}", rep("+1")),
        9 => format!("a:1{}", rep("*7")),
        10 => format!("a:1{}", rep("/3")),
        11 => format!("a:\"\"{}", rep("+\"x\"")),
        12 => format!("a:[]{}", rep("+[1]")),
        13 => format!("a:{}1", rep("-+")),
        14 => format!("a:1 {}", rep("#c\n")),
        15 => format!("a:[{}]", rep("[] ")),
        16 => format!("{}:1", rep("é")),
        17 => format!("a:1{}", rep("+1*2/3-1%5")),
        18 => format!("a:{}{}", rep("["), rep("]")),
        19 => format!("a:1{}", rep("+1/7*3")),
        20 => format!("a:{}.5", rep("1_0")),
        21 => format!("a:{{{}}}", each(&|i| format!("f{}:{{x:{}}} ", i, i))),
        22 => format!("a:[{}]", rep("([] 1) ")),
        23 => format!("t:(0) a:t{}", rep(".0")),
        24 => format!("t:(0) a:0{}", rep("+t.0")),
        25 => format!("a:({})", rep("{^:{}} ")),
        _ => format!("a:1{}", rep("+9999999999999.99999999999")),
    };
    use_result(Obj::from_str(&d), &mut h);
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs: 1, skipped: false })
}
fn c01_scale(c: &mut Ctx) {
    for k in 0..=26 {
        for n in 0..c.pick(260, if k == 2 { 500 } else { 1100 }) {
            c.case(&format!("{} {}", k, n));
        }
        for n in &[2000usize, 4000] {
            // (Printing a long chain of parents takes cubic time.)
            if k == 2 {
                continue;
            }
            c.case(&format!("{} {}", k, n));
        }
    }
}
/// "n", then what stands before, what is repeated, what stands after.
fn c01_huge_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    let f: Vec<&str> = t.split(SEP).collect();
    let n: usize = f[0].parse().unwrap();
    use_result(Obj::from_str(&format!("{}{}{}", f[1], f[2].repeat(n), f[3])), &mut h);
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs: 1, skipped: false })
}
fn c01_huge(c: &mut Ctx) {
    let units = ["#\n", "# c\n", "#\n ", " ", "\n", "\r", "\r\n", " \n", "1 ", "1.5 ", "[] ", "() ", "{} ", "null ", "true ", "\"s\" ", "x ", "@g ", "+1", "-1", "*1", "/1", "%2", "-", "+", "+-1", "+\"s\"", "+[]", "+[1]", "1", "0", "_", ".", ",", "é", "\\n", "\\\"", "s", "^", "@", "\u{feff}", "\t", ":", "]", ")", "}", ">", "o.x ", "<", "< ", ".x", ".0"];
    let ctx = [("", ""), ("", "a:1"), ("a:1", ""), ("a:1 ", " b:2"), ("a:", "1"), ("a:1", "1 b:2"), ("a", ":1"), ("a:[", "]"), ("a:(", ")"), ("a:{", "}"), ("a:\"", "\""), ("a:<", "\"x\">"), ("a:<Str", "\"x\">"), ("a:<\"", "\">"), ("a:1+", "1"), ("a:\"\"", ""), ("a:[]", ""), ("a:-", "1"), ("^:", "{}"), ("@g:1 x:2 a:", "@g"), ("@g:{} o:{x:1} a:(", ")"), ("o:{x:1} a:o", ""), ("t:(0) a:t.0", ""), ("a:0.", "1"), ("a:1.5", ""), ("a:null", ""), ("a:1/", "1"), ("a:2", "2 b:[1]")];
    for n in c.pick(&[60_000usize][..], &[60_000, 600_000][..]) {
        for (a, b) in &ctx {
            for u in &units {
                // (Chains of array sums and long numbers take quadratic time.)
                let n = if *u == "+[1]" { 3000 } else if *n > 60_000 && (u.chars().all(|x| "01_".contains(x)) || u.contains("s\"")) { continue } else { *n };
                c.case(&[&n.to_string()[..], a, u, b].join(&SEP.to_string()));
            }
        }
    }
}
/// Whole numbers at the edges of the machine's ones.
pub fn edge_numbers() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for k in &[0u32, 1, 7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128] {
        let p = num_bigint::BigInt::from(1) << (*k as usize);
        for d in -2i32..=2 {
            v.push((p.clone() + d).to_string());
        }
    }
    v.extend(["10", "100", "999", "1000000007", "99999999999999999999999999999999999999999999"].iter().map(|s| s.to_string()));
    v.retain(|s| !s.starts_with('-'));
    v.sort();
    v.dedup();
    v
}
fn c01_numbers(c: &mut Ctx) {
    let n = edge_numbers();
    let sep = SEP.to_string();
    for a in &n {
        for t in &["[1 2]", "(1 2)", "[]", "()", "[[1] [2]]", "\"str\"", "{x:1}", "5", "null"] {
            let mut v = vec![];
            for i in &[a.clone(), format!("-{}", a), format!("{}.0", a), format!("{}+1", a), format!("(1-{})", a)] {
                v.push(format!("a:{} b:a.{}", t, i));
                v.push(format!("a:{} i:{} b:a.i", t, i));
                v.push(format!("@a:{} @i:{} b:@a.@i", t, i));
                v.push(format!("a:{} b:a.0.{}", t, i));
            }
            c.case(&v.join(&sep));
        }
        for b in &n {
            let mut v = vec![];
            for o in &["+", "-", "*", "/", "%"] {
                v.push(format!("a:{}{}{}", a, o, b));
                v.push(format!("a:-{}{}-{}", a, o, b));
                v.push(format!("a:-{}{}{}", a, o, b));
                v.push(format!("a:{}{}-{}", a, o, b));
                v.push(format!("a:{}.5{}{}", a, o, b));
                v.push(format!("a:-{}{}-{}.25", a, o, b));
                v.push(format!("a:1/{}{}-{}", a, o, b));
            }
            c.case(&v.join(&sep));
        }
    }
}
/// The bytes of a file, in hexadecimal; loaded, and included as each type.
fn c01_bytes_exec(t: &str) -> CaseRes {
    let b: Vec<u8> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut h = H::new();
    let mut n = 0;
    for p in &["", "a:\"", "a:1 #"] {
        let mut x = p.as_bytes().to_vec();
        x.extend(&b);
        fs::write("m", &x).unwrap();
        use_result(Obj::from_file("m"), &mut h);
        n += 1;
    }
    use_result(Obj::from_str("a:<Str \"m\">"), &mut h);
    fs::write("m", &b).unwrap();
    use_result(Obj::from_str("a:<Tup \"m\">"), &mut h);
    use_result(Obj::from_str("a:<Arr \"m\">"), &mut h);
    Ok(Done { state: h.0, alive: true, steps: b.len() as u64, runs: n + 3, skipped: false })
}
fn c01_bytes(c: &mut Ctx) {
    c.case("");
    for a in 0..256 {
        c.case(&format!("{:02x}", a));
        for b in 0..256 {
            if c.thorough() || a >= 0x80 || b >= 0x80 {
                c.case(&format!("{:02x}{:02x}", a, b));
            }
        }
    }
    // Sequences of boundary bytes of UTF-8.
    let k = [0x00, 0x0a, 0x22, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff];
    let d = c.pick(3, 4);
    let mut last = vec![String::new()];
    for i in 1..=d {
        let mut next = vec![];
        for p in &last {
            for x in &k {
                let q = format!("{}{:02x}", p, x);
                if i > 2 {
                    c.case(&q);
                }
                next.push(q);
            }
        }
        last = next;
    }
}
extern "C" {
    fn mkfifo(p: *const u8, mode: u32) -> i32;
}
/// Loading strange paths, directly and as includes.
fn c01_paths_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut d = Disk::new();
    d.file("ok", b"x:1");
    d.dir("dir");
    d.link("loop", "loop");
    d.link("dangling", "nowhere");
    d.link("self", ".");
    d.file("sub", b"<\"ok\">");
    unsafe {
        mkfifo(b"t/fifo\0".as_ptr(), 0o600);
    }
    if t == "deleted" {
        use std::os::unix::io::AsRawFd;
        for body in &["a:<\"ok\">", "a:1", "a:<\"gone\">", "a:<Str \"../x\">"] {
            fs::write("t/gone", body).unwrap();
            let f = fs::File::open("t/gone").unwrap();
            fs::remove_file("t/gone").unwrap();
            use_result(Obj::from_file(&format!("/proc/self/fd/{}", f.as_raw_fd())), &mut h);
        }
        return Ok(Done::state(h.0));
    }
    if !t.contains("fifo") && !t.starts_with("/dev") {
        use_result(Obj::from_file(t), &mut h);
        let o = Obj::from_str("a:1").unwrap();
        if t.starts_with("t/") || t.is_empty() {
            let _ = o.write_to_file(t).map_err(|e| e.to_string());
        }
    }
    for k in &["", "Obj ", "Arr ", "Tup ", "Str "] {
        let x = format!("a:<{}{}>", k, lit_str(t));
        use_result(Obj::from_str(&x), &mut h);
        d.file("main", x.as_bytes());
        use_result(Obj::from_file("t/main"), &mut h);
    }
    Ok(Done { state: h.0, alive: true, steps: 1, runs: 12, skipped: false })
}
fn c01_paths(c: &mut Ctx) {
    for p in &["deleted", "", ".", "..", "/", "//", "./", "\0", "t/ok\0", "t", "t/", "t/dir", "t/dir/", "t/ok", "t/ok/", "t/ok/x", "t/loop", "t/dangling", "t/self", "t/self/self/ok", "t/fifo", "fifo", "main", "t/main", "./main", "sub", "t/sub", "none", "é", "\n", " ", "~", "*", "/dev/null", "/dev/zero", "/dev/full", "/proc/self/cmdline", "\u{feff}", "\\", "\"", "a:1", "..."] {
        c.case(p);
    }
    for n in &[100usize, 254, 255, 256, 257, 1000, 4094, 4095, 4096, 4097, 10000, 100000] {
        c.case(&"x".repeat(*n));
        c.case(&format!("t/{}", "y".repeat(*n)));
        c.case(&"../".repeat(*n));
        c.case(&format!("{}ok", "t/../".repeat(*n)));
    }
}

/// What is known to fail and recorded in known-findings.txt: each is tried in a process of its own.
pub fn known(which: &str) -> i32 {
    limits(2);
    match which {
        "deep-drop" => {
            let mut s = String::from("@a0:{}\n");
            for i in 1..150_000 {
                s.push_str(&format!("@a{}:{{x:@a{}}}\n", i, i - 1));
            }
            s.push_str("r:@a149999");
            match Obj::from_str(&s) {
                Ok(o) => drop(o),
                Err(e) => println!("{}", e),
            }
        }
        _ => {
            let mut s = String::from("@a0:(1 1)\n");
            for i in 1..40 {
                s.push_str(&format!("@a{}:(@a{} @a{})\n", i, i - 1, i - 1));
            }
            match Obj::from_str(&s) {
                Ok(o) => drop(o),
                Err(e) => println!("{}", e),
            }
        }
    }
    0
}
fn c01_known(_: Tier, _: &std::path::Path) -> Result<Extra, Fail> {
    use std::process::{Command, Stdio};
    let list = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for (which, what) in &[
        ("deep-drop", "a value nested 150000 levels through globals overflows the stack when it is dropped"),
        ("doubling", "28 lines of doubling tuples (@a1:(@a0 @a0) ...) build a type of exponential size while loading"),
    ] {
        if !list.lines().any(|l| l.starts_with(&format!("known: property=C01 id={}", which))) {
            continue;
        }
        let mut ch = Command::new(std::env::current_exe().unwrap()).args(&["known", which]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let t = std::time::Instant::now();
        let failed = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break !st.success();
            }
            if t.elapsed().as_secs() >= 3 {
                let _ = ch.kill();
                let _ = ch.wait();
                break true;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        };
        if failed {
            out.push(format!("KNOWN-FINDING: property=C01 {}", what));
        }
    }
    Ok(Extra { lines: out, fams: vec![] })
}

/// The files of c16_mix, to be survived.
fn c01_nests(t: &str) -> CaseRes {
    let (kinds, sib) = t.split_at(t.len() - 1);
    let (v, files) = c16_nest(kinds.as_bytes(), sib.parse().unwrap());
    let mut d = Disk::new();
    for (n, b) in &files {
        d.file(n, b.as_bytes());
    }
    let mut h = H::new();
    for x in &[format!("a:{}", v), format!("^:{}", v)] {
        d.file("main", x.as_bytes());
        use_result(Obj::from_file("t/main"), &mut h);
    }
    Ok(Done { state: h.0, alive: true, steps: kinds.len() as u64, runs: 2, skipped: false })
}
fn c01_nests_gen(c: &mut Ctx) {
    let all = b"[({^OPAT";
    let ds: &[usize] = if c.thorough() { &[62, 63, 64, 65, 100] } else { &[63, 64] };
    for a in all {
        for b in all {
            for x in all {
                if !c.thorough() && a != b && b != x {
                    continue;
                }
                for d in ds {
                    let k: Vec<u8> = (0..*d).map(|i| [*a, *b, *x][i % 3]).collect();
                    for s in [0, 3] {
                        c.case(&format!("{}{}", String::from_utf8(k.clone()).unwrap(), s));
                    }
                }
            }
        }
    }
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        assumptions: vec!["a stack of 2 MB, as std gives to threads", "an address space of 6 GB", "a case that takes more than 30 s does not terminate"],
        extra: Some(c01_known),
        hang_s: 30,
        families: vec![
            Family { name: "chars", what: "all sequences of up to 4 (5) of 39 characters, and of up to 3 (4) after each of 14 beginnings; loaded, the error or object printed, compared, looked up in, dropped", gen: c01_chars, exec: c01_exec },
            Family { name: "tokens", what: "all sequences of up to 4 (5) of 34 tokens, and of up to 3 (4) after 5 beginnings", gen: c01_tokens, exec: c01_exec },
            Family { name: "edits", what: "all single (thorough: also double) edits and all cuts of 45 texts that use every construct", gen: c01_edits, exec: c01_exec },
            Family { name: "unicode", what: "every Unicode scalar value at 25 places", gen: c01_unicode, exec: c01_unicode_exec },
            Family { name: "repeat", what: "x^n, (xy)^n, x^n y^n for all of 41 tokens after 8 beginnings, n in the hundreds (thousands)", gen: c01_repeat, exec: c01_exec },
            Family { name: "scale", what: "27 kinds of large text with every size to 260 (1100) and 2000, 4000", gen: c01_scale, exec: c01_scale_exec },
            Family { name: "huge", what: "52 units 60,000 (also 600,000) times at 28 places", gen: c01_huge, exec: c01_huge_exec },
            Family { name: "numbers", what: "2^k-2..2^k+2 for k = 0, 1, 7, 8, 15, 16, 31 and so on to 128, both signs, whole and not, as index into values of every type and in all pairs as operands", gen: c01_numbers, exec: c01_each },
            Family { name: "bytes", what: "files and includes of all sequences of up to 2 bytes, 3 (4) boundary bytes of UTF-8", gen: c01_bytes, exec: c01_bytes_exec },
            Family { name: "nests", what: "every nesting pattern of period up to 3 (quick: with two alike) of arrays, tuples, objects, parents and includes as each type, as deep as allowed and one deeper (62-65, 100)", gen: c01_nests_gen, exec: c01_nests },
            Family { name: "paths", what: "strange paths, directly and included: directories, links, loops, FIFOs, devices, deleted files, overlong names", gen: c01_paths, exec: c01_paths_exec },
        ],
    }
}

// ---------------------------------------------------------------- C09

const NAMES: [&str; 4] = ["a", "b", "c", "zz"];

/// All views of the object that concern own fields and parents.
fn c09_obj(o: &Obj, m: &Rc<MObj>, names: &[&str]) -> Res {
    // The chains, level by level.
    let mut ro = vec![o.clone()];
    let mut mo = vec![m.clone()];
    loop {
        let (a, b) = (ro.last().unwrap().clone(), mo.last().unwrap().clone());
        if a.has_parent() != b.parent.is_some() {
            return Err(format!("ancestor {}: has_parent() is {}", ro.len() - 1, a.has_parent()));
        }
        match (a.get_parent(), &b.parent) {
            (None, None) => break,
            (Some(p), Some(q)) => {
                ro.push(p);
                mo.push(q.clone());
            }
            (p, _) => return Err(format!("get_parent() gives {}", if p.is_some() { "a parent" } else { "none" })),
        }
    }
    for (i, (a, b)) in ro.iter().zip(mo.iter()).enumerate() {
        let at = |e: &str| format!("ancestor {}: {}", i, e);
        let own: Vec<&str> = b.pairs.iter().map(|p| &*p.0).collect();
        if a.len() != own.len() || a.is_empty() != own.is_empty() {
            return Err(at(&format!("len() {} is_empty() {} with {} own fields", a.len(), a.is_empty(), own.len())));
        }
        if a.pairs_ref().iter().map(|p| &p.0[..]).collect::<Vec<_>>() != own || a.iter().map(|p| &p.0[..]).collect::<Vec<_>>() != own {
            return Err(at("fields listed are not the own fields"));
        }
        let mut seen = vec![];
        a.with_each(|f, _| seen.push(f.clone()));
        if seen != own {
            return Err(at("fields visited are not the own fields"));
        }
        // Besides, what is no name of a field: paths, names with signs and blanks, parts of names.
        let mut odd: Vec<String> = vec!["^", "", "@", "A", ".", "^.a", "a ", " a", "a\0", "a:", "a.0", "0", "null"].into_iter().map(String::from).collect();
        for x in names.iter().take(3) {
            for y in names.iter().take(3) {
                odd.push(format!("{}.{}", x, y));
            }
            odd.push(format!("^.{}", x));
            odd.push(format!("^{}", x));
            odd.push(format!("@{}", x));
            odd.push(x.to_uppercase());
            odd.push(format!("{}{}", x, x));
        }
        odd.retain(|n| !names.contains(&&n[..]));
        for n in names.iter().cloned().chain(odd.iter().map(|s| &s[..])) {
            if a.contains(n) != own.contains(&n) {
                return Err(at(&format!("contains({:?}) is {}", n, a.contains(n))));
            }
            // The nearest ancestor that has it.
            let src = mo[i..].iter().position(|x| x.own(n).is_some()).map(|k| i + k);
            match (a.get(n), a.get_with_source(n), src) {
                (None, None, None) => (),
                (Some(v), Some((w, s)), Some(k)) => {
                    let want = mo[k].own(n).unwrap();
                    Cmp::plain().val(&v, want).map_err(|e| at(&format!("get({:?}): {}", n, e)))?;
                    Cmp::plain().val(&w, want).map_err(|e| at(&format!("get_with_source({:?}): {}", n, e)))?;
                    if !s.ptr_eq(&ro[k]) || s.id() != ro[k].id() {
                        return Err(at(&format!("get_with_source({:?}) names another source than ancestor {}", n, k)));
                    }
                    // Values that are containers come out as the very instance held there.
                    let held = ro[k].pairs_ref().iter().find(|p| p.0 == n).map(|p| p.1.clone());
                    let same = match (&v, &w, held) {
                        (Value::Obj(x), Value::Obj(y), Some(Value::Obj(z))) => x.ptr_eq(&z) && y.ptr_eq(&z),
                        (Value::Arr(x), Value::Arr(y), Some(Value::Arr(z))) => x.ptr_eq(&z) && y.ptr_eq(&z),
                        (Value::Tup(x), Value::Tup(y), Some(Value::Tup(z))) => x.ptr_eq(&z) && y.ptr_eq(&z),
                        _ => true,
                    };
                    if !same {
                        return Err(at(&format!("get({:?}) gives another instance", n)));
                    }
                    let typed = match want {
                        MV::Null => true,
                        MV::Bool(b) => a.get_bool(n) == Ok(*b),
                        MV::Int(b) => a.get_int(n).as_ref() == Ok(b),
                        MV::Frac(..) => a.get_frac(n).is_ok(),
                        MV::Str(b) => a.get_str(n).as_ref().map(|s| &s[..]) == Ok(&**b),
                        MV::Arr(_) => a.get_arr(n).is_ok(),
                        MV::Tup(_) => a.get_tup(n).is_ok(),
                        MV::Obj(_) => a.get_obj(n).is_ok(),
                        MV::Kw(_) => true,
                    };
                    if !typed {
                        return Err(at(&format!("typed lookup of {:?} fails", n)));
                    }
                }
                (v, w, s) => return Err(at(&format!("looking up {:?} gives {:?}, with source {:?}; it is {}", n, v.is_some(), w.is_some(), s.map_or("nowhere".into(), |k| format!("in ancestor {}", k))))),
            }
        }
    }
    Ok(())
}
fn c09_all(o: &Obj, m: &Rc<MObj>, names: &[&str]) -> Res {
    c09_obj(o, m, names)?;
    fn sub(v: &Value, m: &MV, names: &[&str]) -> Res {
        match (v, m) {
            (Value::Obj(o), MV::Obj(m)) => c09_all(o, m, names),
            (Value::Arr(a), MV::Arr(b)) => a.iter().zip(b.vals.iter()).map(|(x, y)| sub(x, y, names)).collect(),
            (Value::Tup(a), MV::Tup(b)) => a.iter().zip(b.vals.iter()).map(|(x, y)| sub(x, y, names)).collect(),
            _ => Ok(()),
        }
    }
    for (n, v) in &m.pairs {
        sub(&o.pairs_ref().iter().find(|p| *p.0 == **n).ok_or("field lost")?.1, v, names)?;
    }
    match (o.get_parent(), &m.parent) {
        (Some(p), Some(q)) => {
            for (n, v) in &q.pairs {
                sub(&p.pairs_ref().iter().find(|p| *p.0 == **n).ok_or("field lost")?.1, v, names)?;
            }
        }
        _ => (),
    }
    Ok(())
}
fn c09_text(t: &str) -> CaseRes {
    c09_text_names(t, &NAMES)
}
fn c09_text_names(t: &str, names: &[&str]) -> CaseRes {
    let m = eval_text(t, None);
    let real = Obj::from_str(t);
    if let (Ok(r), Ok(v), false) = (&real, &m.res, m.quirk) {
        c09_all(r, v, names)?;
    }
    let d = judge(real, &m, Oracle { share: true, ..VALUE })?;
    Ok(d)
}
fn c09_tree(c: &mut Ctx) {
    let d = c.pick(7, 8);
    let a = ["a:", "b:", "^:", "@p:", "@q:", "a ", "@p ", "@q ", "1 ", "{", "} "];
    c.tree("", &a, d, &[]);
    c.tree("@p:{a:1 b:2}\n@q:{^:@p b:{}}\n", &["a:", "b:", "c:", "^:", "@p ", "@q ", "a ", "1 ", "{", "} ", "[", "] "], d, &[]);
    c.tree("a:{b:1}\n", &["^:", "a ", "b:", "x:", "x", ".b ", ".^ ", "{", "} ", "null ", "\"\" ", "[] ", "{} ", "a.b "], c.pick(6, 7), &[]);
}
/// All positions of the parent entry among n fields, all values as parents.
fn c09_caret(c: &mut Ctx) {
    let pars = ["{a:0 f1:9 x:3}", "{}", "1", "null", "true", "\"s\"", "1.5", "[]", "[{}]", "()", "({})", "@g", "@n", "o", "o.p", "n", "none", "@none", "{^:{a:1}}", "{^:1}", "{^:o}", "<\"none\">", "-1", "1+1", ""];
    for n in 0..=c.pick(6, 12) {
        for i in 0..=n {
            for p in &pars {
                let f: Vec<String> = (0..=n).map(|k| if k == i { format!("^:{}", p) } else { format!("f{}:{}", if k > i { k - 1 } else { k }, k) }).collect();
                let pre = "@g:{a:5} @n:1 o:{p:{a:7} f0:8} n:2\n";
                c.case(&format!("{}{}", pre, f.join(" ")));
                c.case(&format!("{}x:{{{}}}", pre, f.join("\n")));
                c.case(&format!("{}x:[{{{}}}] y:({{{}}})", pre, f.join(" "), f.join(" ")));
                // A second one anywhere.
                for j in 0..=n + 1 {
                    let mut g = f.clone();
                    g.insert(j, "^:{c:1}".into());
                    c.case(&format!("{}{}", pre, g.join(" ")));
                    c.case(&format!("{}x:{{{}}}", pre, g.join(" ")));
                }
            }
        }
    }
}
fn c09_caret_exec(t: &str) -> CaseRes {
    c09_text_names(t, &["a", "f0", "f1", "f2", "f5", "x", "o", "c"])
}
/// All forests: for each object its parent (an earlier one or none) and which of three fields it has,
/// "p m p m ...": parent index + 1 or 0, field mask.
fn c09_forest_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.bytes().map(|b| (b - b'0') as usize).collect();
    let n = f.len() / 2;
    let mut real: Vec<Obj> = vec![];
    let mut mac: Vec<Obj> = vec![];
    let mut model: Vec<Rc<MObj>> = vec![];
    let mut text = String::new();
    for i in 0..n {
        let (p, mask) = (f[2 * i], f[2 * i + 1]);
        let mut pairs = vec![];
        for k in 0..3 {
            if mask >> k & 1 == 1 {
                let v = match (i + k) % 4 {
                    0 => MV::int((10 * i + k) as i64),
                    1 => MV::str(&format!("s{}{}", i, k)),
                    2 => MV::tup(vec![MV::int((10 * i + k) as i64)]),
                    _ => MV::arr(vec![MV::int((10 * i + k) as i64)]).unwrap(),
                };
                pairs.push((NAMES[k], v));
            }
        }
        let par = if p > 0 { Some(p - 1) } else { None };
        let rp: Vec<Pair> = pairs.iter().map(|(n, v)| Pair(n.to_string(), build(v))).collect();
        if i % 2 == 0 {
            real.push(Obj::from_pairs(rp.clone(), par.map(|p| real[p].clone())).map_err(|e| e.to_string())?);
        } else {
            real.push(Obj::from_pairs_unchecked(rp.clone(), par.map(|p| real[p].clone())));
        }
        // The macro, with the parent at the front, in the middle or at the end.
        use over::try_obj;
        let m = match (par, rp.len()) {
            (None, 0) => Ok(Obj::empty()),
            (Some(p), 0) => { try_obj! { "^" => mac[p].clone() } }
            (None, 1) => { try_obj! { &rp[0].0[..] => rp[0].1.clone() } }
            (Some(p), 1) => { try_obj! { &rp[0].0[..] => rp[0].1.clone(), "^" => mac[p].clone() } }
            (None, 2) => { try_obj! { &rp[0].0[..] => rp[0].1.clone(), &rp[1].0[..] => rp[1].1.clone() } }
            (Some(p), 2) => { try_obj! { &rp[0].0[..] => rp[0].1.clone(), "^" => mac[p].clone(), &rp[1].0[..] => rp[1].1.clone() } }
            (None, _) => { try_obj! { &rp[0].0[..] => rp[0].1.clone(), &rp[1].0[..] => rp[1].1.clone(), &rp[2].0[..] => rp[2].1.clone() } }
            (Some(p), _) => { try_obj! { "^" => mac[p].clone(), &rp[0].0[..] => rp[0].1.clone(), &rp[1].0[..] => rp[1].1.clone(), &rp[2].0[..] => rp[2].1.clone() } }
        };
        mac.push(m.map_err(|e| e.to_string())?);
        for (k, set) in [&real, &mac].iter().enumerate() {
            match (set[i].get_parent(), par) {
                (None, None) => (),
                (Some(q), Some(p)) if q.ptr_eq(&set[p]) && q.id() == set[p].id() => (),
                _ => return Err(format!("the parent of object {} is not the one given ({})", i, if k == 0 { "constructor" } else { "macro" })),
            }
        }
        text.push_str(&format!("@o{}:{{", i));
        let mut fields: Vec<String> = pairs.iter().map(|(n, v)| format!("{}:{}", n, lit(v))).collect();
        if let Some(p) = par {
            let at = (i + mask) % (fields.len() + 1);
            fields.insert(at, format!("^:@o{}", p));
        }
        text.push_str(&fields.join(" "));
        text.push_str(&format!("}} o{}:@o{}\n", i, i));
        model.push(Rc::new(MObj { pairs: pairs.into_iter().map(|(n, v)| (n.into(), v)).collect(), parent: par.map(|p| model[p].clone()) }));
    }
    let l = Obj::from_str(&text).map_err(|e| format!("rejected: {}", e))?;
    let loaded: Vec<Obj> = (0..n).map(|i| l.get_obj(&format!("o{}", i)).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    let mut h = H::new();
    for i in 0..n {
        c09_obj(&real[i], &model[i], &NAMES).map_err(|e| format!("constructed object {}: {}", i, e))?;
        c09_obj(&mac[i], &model[i], &NAMES).map_err(|e| format!("object {} from the macro: {}", i, e))?;
        c09_obj(&loaded[i], &model[i], &NAMES).map_err(|e| format!("loaded object {}: {}", i, e))?;
        if f[2 * i] > 0 && !loaded[i].get_parent().unwrap().ptr_eq(&loaded[f[2 * i] - 1]) {
            return Err(format!("the parent of loaded object {} is another instance than the one given", i));
        }
        h.o(&model[i]);
    }
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs: 3 * n as u64, skipped: false })
}
fn c09_forest(c: &mut Ctx) {
    fn rec(c: &mut Ctx, s: &mut String, i: usize, n: usize, masks: &[usize]) {
        if i == n {
            c.case(s);
            return;
        }
        for p in 0..=i {
            for m in masks {
                let l = s.len();
                s.push_str(&format!("{}{}", p, m));
                rec(c, s, i + 1, n, masks);
                s.truncate(l);
            }
        }
    }
    for n in 1..=3 {
        rec(c, &mut String::new(), n - n, n, &[0, 1, 2, 3, 4, 5, 6, 7]);
    }
    rec(c, &mut String::new(), 0, 4, if c.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 5] });
    rec(c, &mut String::new(), 0, 5, if c.thorough() { &[0, 1, 2, 3] } else { &[0, 1] });
}
/// "n k": a chain of n ancestors of which the k-th has the field.
fn c09_chain_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, k) = (f[0], f[1]);
    let mut real: Option<Obj> = None;
    let mut model: Option<Rc<MObj>> = None;
    let mut text = String::new();
    for i in (0..=n).rev() {
        let pairs: Vec<(Rc<str>, MV)> = if i == k { vec![("a".into(), MV::int(i as i64)), ("c".into(), MV::Null)] } else if i > k && i % 3 == 0 { vec![("c".into(), MV::int(1)), ("a".into(), MV::str("far"))] } else { vec![("b".into(), MV::int(i as i64))] };
        let rp = pairs.iter().map(|(n, v)| Pair(n.to_string(), build(v))).collect();
        text.push_str(&format!("@p{}:{{{}{}}}\n", i, pairs.iter().map(|(n, v)| format!("{}:{} ", n, lit(v))).collect::<String>(), if i < n { format!("^:@p{}", i + 1) } else { String::new() }));
        real = Some(Obj::from_pairs(rp, real).map_err(|e| e.to_string())?);
        model = Some(Rc::new(MObj { pairs, parent: model }));
    }
    let (real, model) = (real.unwrap(), model.unwrap());
    let find = |o: &Obj| -> Res {
        let mut a = o.clone();
        for _ in 0..k {
            a = a.get_parent().ok_or("the chain is too short")?;
        }
        match o.get_with_source("a") {
            Some((v, s)) if v == Value::Int((k as i64).into()) && s.ptr_eq(&a) => (),
            x => return Err(format!("get_with_source gives {:?}", x.map(|x| x.0))),
        }
        if o.get("a") != Some(Value::Int((k as i64).into())) || o.get_int("a") != Ok((k as i64).into()) || o.get("d") != None {
            return Err(format!("get gives {:?}", o.get("a")));
        }
        let _ = &model;
        Ok(())
    };
    find(&real).map_err(|e| format!("constructed: {}", e))?;
    let l = Obj::from_str(&format!("{}x:@p0 y:@p0.a", text)).map_err(|e| format!("rejected: {}", e))?;
    find(&l.get_obj("x").map_err(|e| e.to_string())?).map_err(|e| format!("loaded: {}", e))?;
    if l.get("y") != Some(Value::Int((k as i64).into())) {
        return Err(format!("dot gives {:?}", l.get("y")));
    }
    if n <= 40 {
        c09_obj(&real, &model, &["a", "b", "c"])?;
    }
    Ok(Done { state: (n * 1000 + k) as u64, alive: true, steps: n as u64, runs: 2, skipped: false })
}
fn c09_chain(c: &mut Ctx) {
    let max = c.pick(70, 160);
    for n in 0..=max {
        for k in 0..=n {
            c.case(&format!("{} {}", n, k));
        }
    }
    for n in &[200usize, 255, 256, 257, 300, 1000] {
        for k in &[0usize, 1, 63, 64, 65, 100, 127, 128, 199, 200, 255, 256, 299, 999, 1000] {
            if k <= n {
                c.case(&format!("{} {}", n, k));
            }
        }
    }
}
/// "n k": an object with n fields, the k-th looked up, through 0, 1 and 2 parents.
fn c09_wide_exec(t: &str) -> CaseRes {
    let n: usize = t.parse().unwrap();
    let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
    let mk = |m: usize| -> Vec<(Rc<str>, MV)> { names.iter().enumerate().filter(|(i, _)| m == 0 || i % (m + 1) == 0).map(|(i, s)| (s[..].into(), MV::int((i + m * 1000) as i64))).collect() };
    let gp = Rc::new(MObj { pairs: mk(0), parent: None });
    let p = Rc::new(MObj { pairs: mk(1), parent: Some(gp) });
    let m = Rc::new(MObj { pairs: mk(2), parent: Some(p) });
    let nr: Vec<&str> = if n <= 300 {
        names.iter().map(|s| &s[..]).collect()
    } else {
        crate::sizes::places(n).into_iter().flat_map(|p| p..n.min(p + 6)).map(|i| &names[i][..]).collect()
    };
    c09_obj(&build_obj(&m), &m, &nr)?;
    let mut s = String::new();
    body_to(&m, &mut s);
    let o = Obj::from_str(&s).map_err(|e| format!("rejected: {}", e))?;
    c09_obj(&o, &m, &nr)?;
    // The parent given after some of the fields, or all.
    let mut par = String::from(" ^:{");
    body_to(m.parent.as_ref().unwrap(), &mut par);
    par.push_str("} ");
    for k in if n < 300 || n % 64 < 2 { vec![m.pairs.len() / 2, m.pairs.len()] } else { vec![] } {
        let mut s = String::new();
        for (i, (n, v)) in m.pairs.iter().enumerate() {
            if i == k {
                s.push_str(&par);
            }
            s.push_str(&format!("{}:{} ", n, lit(v)));
        }
        if k == m.pairs.len() {
            s.push_str(&par);
        }
        let o = Obj::from_str(&s).map_err(|e| format!("rejected: {}", e))?;
        c09_obj(&o, &m, &nr[..nr.len().min(40)]).map_err(|e| format!("parent given after {} fields: {}", k, e))?;
    }
    Ok(Done { state: n as u64, alive: true, steps: 3 * n as u64, runs: 2, skipped: false })
}
fn c09_wide(c: &mut Ctx) {
    let top = c.pick(4097, 33_000);
    for n in (0..c.pick(100, 300)).chain(crate::sizes::sizes(c).into_iter().filter(|n| *n <= top)) {
        c.case(&n.to_string());
    }
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "tree", what: "all token sequences up to length 7 (8) of fields, parents, globals, names and braces, three beginnings; every object reached examined in all views with every name", gen: c09_tree, exec: c09_text },
            Family { name: "caret", what: "the parent entry at every position among up to 6 (12) fields, 25 parent values, second entries at every position", gen: c09_caret, exec: c09_caret_exec },
            Family { name: "forests", what: "all forests of up to 4 (field sets: 8, of 4 objects 4 (8)) and 5 objects (2 (4) field sets), constructed, by macro and loaded", gen: c09_forest, exec: c09_forest_exec },
            Family { name: "chains", what: "chains of every length to 70 (160) with the field at every level; longer ones to 1000", gen: c09_chain, exec: c09_chain_exec },
            Family { name: "wide", what: "three levels with every number of fields to 100 (300), every field looked up at each level; around powers of two to 4097 (32769), fields around these", gen: c09_wide, exec: c09_wide_exec },
        ],
    }
}

// ---------------------------------------------------------------- C16

/// Nested values, outermost kind first: [ ( { ^ and includes O P A T. Returns the text and the files.
fn c16_nest(kinds: &[u8], sib: u8) -> (String, Vec<(String, String)>) {
    let (f, l) = (sib & 1 == 1, sib & 2 == 2);
    let mut files = vec![];
    let mut v = String::from(match kinds.last() {
        Some(b'^') | Some(b'P') => "{}",
        _ => "7",
    });
    for (i, k) in kinds.iter().enumerate().rev() {
        let q = |open: &str, key: &str, close: &str| format!("{}{}{}{}{}{}", open, if f { "p:[1 2] " } else { "" }, key, v, if l { " r:(2)" } else { "" }, close);
        let t = |open: &str, close: &str| format!("{}{}{}{}{}", open, if f { "{a:1} " } else { "" }, v, if l { " 2" } else { "" }, close);
        let (kw, body) = match k {
            b'[' => {
                v = format!("[{}]", v);
                continue;
            }
            b'(' => {
                v = t("(", ")");
                continue;
            }
            b'{' => {
                v = q("{", "q:", "}");
                continue;
            }
            b'^' => {
                v = q("{", "^:", "}");
                continue;
            }
            b'O' => ("Obj ", q("", "q:", "")),
            b'P' => ("", q("", "^:", "")),
            b'A' => ("Arr ", v.clone()),
            _ => ("Tup ", t("", "")),
        };
        files.push((format!("f{}", i), body));
        v = format!("<{}\"f{}\">", kw, i);
    }
    (v, files)
}
/// "kinds sib" or a text.
fn c16_mix_exec(t: &str) -> CaseRes {
    let (kinds, sib) = t.split_at(t.len() - 1);
    let (v, files) = c16_nest(kinds.as_bytes(), sib.parse().unwrap());
    let mut d = Disk::new();
    for (n, b) in &files {
        d.file(n, b.as_bytes());
    }
    let mut h = H::new();
    let mut n = 0;
    let obj = match kinds.as_bytes().first() {
        None | Some(b'[') | Some(b'(') | Some(b'A') | Some(b'T') => false,
        _ => true,
    };
    for x in &[format!("a:{}", v), format!("^:{}", v), format!("b:[[]] a:{} c:{{}}", v)] {
        if x.starts_with('^') && !obj {
            continue;
        }
        d.file("main", x.as_bytes());
        let r = d.judge("t/main", DEPTH).map_err(|e| format!("{} levels below the top: {}", kinds.len(), e))?;
        h.u(r.state);
        n += 1;
        if files.is_empty() {
            let r = d.judge_text(x, DEPTH).map_err(|e| format!("{} levels below the top: {}", kinds.len(), e))?;
            h.u(r.state);
            n += 1;
        }
    }
    Ok(Done { state: h.0, alive: true, steps: kinds.len() as u64, runs: n, skipped: false })
}
fn ok_kinds(k: &[u8]) -> bool {
    (0..k.len()).all(|i| (k[i] != b'^' && k[i] != b'P') || i + 1 == k.len() || b"{^OP".contains(&k[i + 1]))
}
fn c16_mix(c: &mut Ctx) {
    // Periodic patterns.
    let all = b"[({^OPAT";
    let plain = b"[({^";
    let mut pats: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    let max = c.pick(3, 4);
    while i < pats.len() {
        if pats[i].len() < max {
            for k in all {
                let mut p = pats[i].clone();
                p.push(*k);
                pats.push(p);
            }
        }
        i += 1;
    }
    for p in pats.iter().filter(|p| !p.is_empty()) {
        let text = p.iter().all(|k| plain.contains(k));
        let ds: Vec<usize> = if text || (c.thorough() && p.len() < 4) { (0..=70).collect() } else if p.len() == 1 { (0..70).collect() } else { vec![63, 64] };
        for d in ds {
            let k: Vec<u8> = (0..d).map(|i| p[i % p.len()]).collect();
            if !ok_kinds(&k) {
                continue;
            }
            for s in if text || d < 60 { vec![0, 1, 2, 3] } else { vec![0, 3] } {
                if text && d < 60 && s > 0 && !c.thorough() {
                    continue;
                }
                c.case(&format!("{}{}", String::from_utf8(k.clone()).unwrap(), s));
            }
        }
    }
}
fn c16_switch(c: &mut Ctx) {
    // One kind, then another, changing at every level; one odd level at every place.
    let all = b"[({^OPAT";
    for a in all {
        for b in all {
            for d in &[63usize, 64] {
                let inc = b"OPAT".contains(a) || b"OPAT".contains(b);
                for i in 0..=*d {
                    if inc && !c.thorough() && i % 7 > 1 && i < 60 {
                        continue;
                    }
                    for odd in &[false, true] {
                        let k: Vec<u8> = (0..*d).map(|j| if (*odd && j == i) || (!*odd && j >= i) { *b } else { *a }).collect();
                        if ok_kinds(&k) {
                            c.case(&format!("{}0", String::from_utf8(k).unwrap()));
                        }
                    }
                }
            }
        }
    }
}
fn depth_text(t: &str) -> CaseRes {
    text_case(t, DEPTH)
}
fn depth_each(t: &str) -> CaseRes {
    each_text(t, DEPTH)
}
fn wrap(kinds: &[u8], leaf: &str) -> String {
    let (v, f) = c16_nest(kinds, 0);
    assert!(f.is_empty());
    let i = v.find('7').unwrap();
    format!("{}{}{}", &v[..i], leaf, &v[i + 1..])
}
fn c16_around(c: &mut Ctx) {
    // What stands before, after and inside has no influence.
    let deep: Vec<String> = vec![vec![b'['; 62], vec![b'{'; 62], vec![b'('; 62], (0..62).map(|i| b"[({"[i % 3]).collect::<Vec<u8>>()].iter().map(|k| wrap(k, "7")).collect();
    let closed = ["[]", "()", "{}", "{a:{b:{}}}", "[[[[[]]]]]", "((((()))))", "1", "\"[[[[\"", "-1", "---+1", "1+2*3", "[1]+[2]", "{^:{^:{}}}", "([1] {a:2} \"{\")", "#[[[\n1", "null"];
    let max = c.pick(130, 400);
    for d in &deep {
        for x in &closed {
            for n in (0..max).step_by(if c.thorough() { 1 } else { 3 }) {
                if !c.mine() {
                    continue;
                }
                let before: String = (0..n).map(|i| format!("f{}:{}\n", i, x)).collect();
                // 63 levels (with the outer one) and 64.
                for o in &["", "["] {
                    let cl = if o.is_empty() { "" } else { "]" };
                    c.run(&format!("{}a:({}{}{})", before, o, d, cl), true);
                    c.run(&format!("a:({} {}{}{})", vec![*x; n].join(" "), o, d, cl), true);
                    c.run(&format!("a:({}{}{} {})", o, d, cl, vec![*x; n].join(" ")), true);
                    c.run(&format!("a:{{{} z:{}{}{} y:1}}", before, o, d, cl), true);
                }
            }
            for n in crate::sizes::sizes(c) {
                if n > 1025 && !(c.thorough() || *d == deep[3] && n % 2 == 1) {
                    continue;
                }
                for o in &["", "["] {
                    let cl = if o.is_empty() { "" } else { "]" };
                    c.case(&format!("a:({} {}{}{})", vec![*x; n].join(" "), o, d, cl));
                }
            }
            // Earlier deep values, closed again.
            for n in 1..c.pick(8, 30) {
                let before: String = (0..n).map(|i| format!("f{}:({}) ", i, d)).collect();
                c.case(&format!("{}a:({}) b:{}", before, d, x));
                c.case(&format!("{}a:({}) b:([{}])", before, d, d));
                c.case(&format!("a:({} {})", vec![&d[1..d.len() - 1]; n].join(" "), x));
                c.case(&format!("@g:({}) {} a:({})", d, (0..n).map(|i| format!("f{}:@g ", i)).collect::<String>(), d));
            }
        }
    }
}
fn c16_inside(c: &mut Ctx) {
    // Every kind of value at the deepest level, with many operators, signs, elements.
    let max = c.pick(120, 400);
    for pat in [&b"["[..], b"(", b"{", b"[({", b"(["].iter() {
        for d in &[0usize, 1, 31, 61, 62, 63] {
            let k: Vec<u8> = (0..*d).map(|i| pat[i % pat.len()]).collect();
            for n in 0..max {
                if !c.mine() {
                    continue;
                }
                for x in &[
                    format!("{}1", "-".repeat(n)),
                    format!("{}1.5", "+-".repeat(n)),
                    format!("1{}", "+1".repeat(n)),
                    format!("1{}", "*2-1".repeat(n)),
                    format!("1{}", "+-1".repeat(n)),
                    format!("\"\"{}", "+\"x\"".repeat(n)),
                    format!("1{}", "9".repeat(n)),
                    // (Other operands than literals.)
                    format!("{}@t.x", "-".repeat(n)),
                    format!("{}@t.y.0", "+-".repeat(n)),
                    format!("{}@t.z.w.v", "--".repeat(n)),
                    format!("@t.x{}", "+@t.x".repeat(n)),
                    format!("@t.y.1{}", "*@t.y.0-@t.x".repeat(n)),
                    format!("@t.l{}", "+@t.l".repeat(n)),
                ] {
                    c.run(&format!("@t:{{x:1 y:(2 3) z:{{w:{{v:4}}}} l:[5]}} a:{} b:1", wrap(&k, x)), true);
                }
                if *d > 0 && *d <= 62 {
                    let elems = |e: &str| vec![e; n].join(" ");
                    c.run(&format!("a:{}", wrap(&k, &format!("({})", elems("1")))), true);
                    c.run(&format!("a:{}", wrap(&k, &format!("[]{}", "+[1]".repeat(n)))), true);
                    if *d <= 61 {
                        c.run(&format!("a:{}", wrap(&k, &format!("({})", elems("[]")))), true);
                        c.run(&format!("a:{}", wrap(&k, &format!("[{}]", elems("{}")))), true);
                    } else {
                        c.run(&format!("a:{}", wrap(&k, &format!("({} [])", elems("1")))), true);
                    }
                }
            }
        }
    }
}
fn c16_operands(c: &mut Ctx) {
    // What is nested in operands counts as what is nested elsewhere, however the levels are reached.
    // Each step: what stands before and after one level down, and whether it yields an array, tuple, object.
    let steps: [(&str, &str, u8); 15] = [
        ("[", "]", b'a'), ("[]+[", "]", b'a'), ("[", "]+[]", b'a'), ("[]+[]+[", "]", b'a'), ("(", ")", b't'), ("(1 ", " 2)", b't'), ("(1+1 ", ")", b't'), ("([]+[] ", ")", b't'), ("(", " []+[])", b't'), ("({} ", " 1*2)", b't'),
        ("{a:", "}", b'o'), ("{a:1+2 b:", "}", b'o'), ("{x:{y:[1]+[2]} b:", "}", b'o'), ("{^:{} b:", "}", b'o'), ("{@g:1 b:@g+1 c:", "}", b'o'),
    ];
    let leaves = ["7", "1+2", "\"a\"+\"b\"", "[]", "[]+[]", "[1]+[2]", "()", "{}", "-1", "1+-1", "[[]]+[[]]", "([]+[])"];
    let max = c.pick(2, 3);
    let mut pats: Vec<Vec<usize>> = (0..steps.len()).map(|i| vec![i]).collect();
    let mut i = 0;
    while i < pats.len() {
        if pats[i].len() < max {
            for k in 0..steps.len() {
                let mut p = pats[i].clone();
                p.push(k);
                pats.push(p);
            }
        }
        i += 1;
    }
    for p in &pats {
        let ds: Vec<usize> = if p.len() == 1 { (0..=75).chain(vec![100, 129, 200]).collect() } else if p.len() == 2 { vec![61, 62, 63, 64, 65, 80] } else { vec![62, 63, 64] };
        for d in ds {
            if !c.mine() {
                continue;
            }
            for l in if p.len() == 1 { &leaves[..] } else { &leaves[..5] } {
                let mut s = String::from("a:");
                for i in 0..d {
                    s.push_str(steps[p[i % p.len()]].0);
                }
                s.push_str(l);
                for i in (0..d).rev() {
                    s.push_str(steps[p[i % p.len()]].1);
                }
                c.run(&format!("{}\nz:1", s), true);
            }
        }
    }
    // One step of another kind at every level.
    for a in 0..steps.len() {
        for b in 0..steps.len() {
            for d in &[63usize, 64, 65] {
                for at in 0..*d {
                    if !c.mine() || (!c.thorough() && at % 5 > 0 && at < d - 2) {
                        continue;
                    }
                    let k = |i: usize| if i == at { b } else { a };
                    let s: String = (0..*d).map(|i| steps[k(i)].0).collect();
                    let e: String = (0..*d).rev().map(|i| steps[k(i)].1).collect();
                    c.run(&format!("a:{}7{}", s, e), true);
                }
            }
        }
    }
}
fn c16_names(c: &mut Ctx) {
    // Nesting through names does not count: only what is written nested does.
    for n in 1..c.pick(150, 400) {
        for (o, cl) in &[("{x:", "}"), ("{^:", "}"), ("[", "]"), ("(", ")")] {
            let mut s = String::from("@g0:{}\n");
            for i in 1..=n {
                s.push_str(&format!("@g{}:{}@g{}{}\n", i, o, i - 1, cl));
            }
            c.case(&format!("{}a:@g{}", s, n));
            let k = vec![b'('; 63];
            c.case(&format!("{}a:{}", s, wrap(&k, &format!("@g{}", n))));
            let k = vec![b'('; 62];
            c.case(&format!("{}a:{}", s, wrap(&k, &format!("[@g{}]", n))));
            c.case(&format!("{}a:{}", s, wrap(&k, &format!("[[@g{}]]", n))));
        }
    }
    for k in 0..=62 {
        for n in 0..=(60usize.min(124 - k)) {
            // Dots in nested places.
            let kk = vec![b'('; k];
            c.case(&format!("@t:{{}} @t1:{{x:(0)}} a:{}", wrap(&kk, &format!("@t1{}", if n > 0 { ".x" } else { "" }))));
        }
    }
}
fn c16_history(c: &mut Ctx) {
    // Whatever was loaded or rejected before has no influence on the next load.
    let ok = format!("a:{}", wrap(&vec![b'['; 63], "7"));
    let over = format!("a:{}", wrap(&vec![b'['; 64], "7"));
    let bad: Vec<String> = vec![
        "a:".into(), "a:[".into(), "a:[[[[[[[[".into(), "a:{b:{c:{d:".into(), "a:((((x".into(), "a:{^:{^:{^:1}}}".into(), "a:[[[[1 \"s\"]]]]".into(), "a:---".into(), "a:-\"s\"".into(), "a:1/0".into(), "a:<".into(), "a:<\"none\">".into(), "a:[[[<Arr \"none\">]]]".into(), "a:{b:[({c:}".into(), "a:\"".into(), over.clone(), ok.clone(), "".into(), "a:[1]]".into(), "o:{x:1} a:o.y".into(),
    ];
    for b in &bad {
        for n in 0..c.pick(70, 200) {
            let mut v = vec![&b[..]; n];
            v.push(&ok);
            v.push(&over);
            v.push(&ok);
            c.case(&v.join(&SEP.to_string()));
        }
    }
    for a in &bad {
        for b in &bad {
            for x in &bad {
                c.case(&[&a[..], b, x, &ok, &over].join(&SEP.to_string()));
            }
        }
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        level: "model_checking",
        assumptions: vec!["a cached include that is used again at a deeper place is left open"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "mix", what: "all nesting patterns of period up to 3 (4) of arrays, tuples, objects, parents and includes as each type, at depths 0-70 (with includes: 63, 64), with and without siblings", gen: c16_mix, exec: c16_mix_exec },
            Family { name: "switch", what: "all pairs of kinds of nesting, changing at every level or with one odd level, 63 and 64 deep", gen: c16_switch, exec: c16_mix_exec },
            Family { name: "around", what: "up to 130 (400), and around powers of two to 65537 (131073), siblings of 16 kinds before, beside and after values nested 63 and 64 deep", gen: c16_around, exec: depth_text },
            Family { name: "inside", what: "up to 120 (400) signs, operators, elements at the deepest level", gen: c16_inside, exec: depth_text },
            Family { name: "operands", what: "all patterns of period up to 2 (3) of 15 ways to nest within operands, tuples, fields beside operators; depths to 75 and 200, 12 innermost values; one other way at every level", gen: c16_operands, exec: depth_text },
            Family { name: "names", what: "nesting through names to 150 (400) levels", gen: c16_names, exec: depth_text },
            Family { name: "history", what: "up to 70 (200) earlier loads of each of 20 texts, and all triples of them, then 63, 64, 63 levels", gen: c16_history, exec: depth_each },
        ],
    }
}
