//! Large regular documents whose size steps over every power of two (where counters, indices and buffers
//! of a fixed width would give out), each with the uses and faults that would show it.
//! Cases are written "shape n [k]": the texts are made when the case is run.

use crate::docs::*;
use crate::engine::*;
use crate::model::H;

/// Cost that grows with the square of the size (fields of one object, merged tuple types).
const SQUARE: &[&str] = &["obj", "fields", "dups", "parents-in", "merge"];

pub fn sizes(c: &Ctx) -> Vec<usize> {
    let mut v = vec![];
    let top = c.pick(16, 17);
    for k in 7..=top {
        for d in [-1i64, 0, 1].iter() {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    if c.thorough() {
        v.extend((130..1100).step_by(7));
        v.extend([1000, 10_000, 100_000].iter());
    } else {
        v.extend([1000, 10_000].iter());
    }
    v
}
/// Queues "shape n" for the shapes and every size.
pub fn queue(c: &mut Ctx, shapes: &[&str]) {
    let top = c.pick(4097, 16_385);
    for n in sizes(c) {
        for s in shapes {
            if *s == "cut" && n > c.pick(1025, 4097) {
                continue;
            }
            if n > top && SQUARE.contains(s) {
                continue;
            }
            c.case(&format!("{} {}", s, n));
        }
    }
}
fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&f(i));
    }
    s
}
/// The places of interest in 0..n.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n - 1];
    for k in &[7, 8, 15, 16, 17] {
        let p = 1usize << k;
        for q in &[p - 1, p, p + 1] {
            if *q < n {
                v.push(*q);
            }
        }
        if n > p {
            v.push(n - 1 - p);
            v.push(n - p);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn texts(t: &str) -> Vec<String> {
    let f: Vec<&str> = t.split(' ').collect();
    let n: usize = f[1].parse().unwrap();
    let int = |i: usize| i.to_string();
    let mut v = vec![];
    match f[0] {
        // An array, a tuple: elements and what lies beyond.
        "arr" | "tup" => {
            let (o, cl) = if f[0] == "arr" { ("[", "]") } else { ("(", ")") };
            let base = format!("x:{}{}{} ", o, list(n, int), cl);
            let uses: Vec<String> = places(n).iter().enumerate().map(|(j, p)| format!("u{}:x.{}", j, p)).collect();
            v.push(format!("{}{} i:{} j:x.i", base, uses.join(" "), n - 1));
            for p in [n, n + 1, 2 * n, n + 256, n + 65_536, 65_536 * 65_536, 65_536 * 65_536 + n - 1].iter() {
                v.push(format!("{}u:x.{}", base, p));
            }
        }
        // Arrays of other elements.
        "strs" => v.push(format!("x:[{}] u:x.{}", list(n, |i| format!("\"s{}\"", i)), n - 1)),
        "fracs" => v.push(format!("x:[{}] u:x.{}", list(n, |i| format!("{}.5", i)), n - 1)),
        "objs" => v.push(format!("x:[{}] u:x.{}.p", list(n, |i| format!("{{p:{}}}", i)), n - 1)),
        "tups" => v.push(format!("x:[{}] u:x.{}.1", list(n, |i| format!("({} \"{}\")", i, i)), n - 1)),
        "arrs" => v.push(format!("x:[{}] u:x.{}.0", list(n, |i| format!("[{}]", i)), n - 1)),
        "empties" => {
            v.push(format!("x:[{}]", list(n, |_| "[]".into())));
            for p in places(n) {
                v.push(format!("x:[{}]", list(n, |i| if i == p { "[1]".into() } else { "[]".into() })));
            }
            // Two places that disagree, far apart.
            v.push(format!("x:[{}]", list(n, |i| if i == 0 { "[1]".into() } else if i == n - 1 { "[\"s\"]".into() } else { "[]".into() })));
        }
        // One element of another type.
        "odd" => {
            for p in places(n) {
                v.push(format!("y:0 x:[{}]", list(n, |i| if i == p { "\"s\"".into() } else { "1".into() })));
            }
        }
        "odd-lines" => {
            for p in places(n) {
                let s = list(n, |i| if i == p { "\"s\"".into() } else { "1".into() });
                v.push(format!("y:0\nx:[{}]", s.replace(' ', "\n")));
            }
        }
        // Wide tuple types that must be merged.
        "merge" => {
            let row = |p: usize, e: &str| list(n, |i| if i == p { e.into() } else { "[]".into() });
            for p in places(n) {
                v.push(format!("x:[({}) ({})]", row(p, "[1]"), row(0, "[]")));
                v.push(format!("x:[({}) ({})]", row(p, "[1]"), row(p, "[\"s\"]")));
            }
            v.push(format!("x:[({}) ({} [])]", row(0, "[]"), row(0, "[]")));
        }
        // Sums of large arrays, and of large strings.
        "sums" => {
            v.push(format!("a:[{}] b:[{}] x:a+b u:x.{} w:x.{}", list(n, int), list(n, |i| (n + i).to_string()), n, 2 * n - 1));
            v.push(format!("a:[{}] x:a+[7] u:x.{}", list(n, int), n));
            v.push(format!("a:[{}] x:[7]+a u:x.{}", list(n, int), n));
            v.push(format!("a:[{}] x:a+[\"s\"]", list(n, int)));
            v.push(format!("a:\"{}\" x:a+a+\"é\"", "ab".repeat(n)));
            v.push(format!("a:\"{}\" x:\"é\"+a", "b".repeat(n)));
        }
        // Chains of operators (operands, and results, small).
        "chain" => {
            v.push(format!("x:0{}", "+1".repeat(n)));
            v.push(format!("x:{}{}", n, "-1".repeat(n)));
            v.push(format!("x:1{}", "*1".repeat(n)));
            v.push(format!("x:{}7", "-".repeat(n)));
            v.push(format!("x:1{}", "+2*3-4".repeat(n / 4)));
            v.push(format!("x:1{}+\"s\"", "+1".repeat(n)));
        }
        // A braced object and its dotted fields.
        "obj" => {
            let base = format!("o:{{{}}} ", list(n, |i| format!("f{}:{}", i, i)));
            let uses: Vec<String> = places(n).iter().enumerate().map(|(j, p)| format!("u{}:o.f{}", j, p)).collect();
            v.push(format!("{}{}", base, uses.join(" ")));
            v.push(format!("{}u:o.f{}", base, n));
        }
        // Names defined before.
        "fields" => {
            let base = format!("{} ", list(n, |i| format!("f{}:{}", i, i)));
            let uses: Vec<String> = places(n).iter().enumerate().map(|(j, p)| format!("u{}:f{}", j, p)).collect();
            v.push(format!("{}{}", base, uses.join(" ")));
            v.push(format!("{}u:f{}", base, n));
        }
        "dups" => {
            for p in places(n) {
                v.push(format!("{} f{}:0", list(n, |i| format!("f{}:{}", i, i)), p));
                v.push(format!("o:{{{} f{}:0}}", list(n, |i| format!("f{}:{}", i, i)), p));
            }
        }
        "globals" => {
            let base = format!("{} ", list(n, |i| format!("@f{}:{}", i, i)));
            let uses: Vec<String> = places(n).iter().enumerate().map(|(j, p)| format!("u{}:@f{}", j, p)).collect();
            v.push(format!("{}{}", base, uses.join(" ")));
            v.push(format!("{}o:{{{}}}", base, uses.join(" ")));
            v.push(format!("{}u:@f{}", base, n));
            for p in places(n) {
                v.push(format!("{}@f{}:0", base, p));
            }
        }
        // Long names.
        "name" => {
            let a = format!("{}a", "n".repeat(n - 1));
            let b = format!("{}b", "n".repeat(n - 1));
            v.push(format!("{}:1 {}:2 x:{} y:{}", a, b, a, b));
            v.push(format!("@{}:1 @{}:2 x:@{} y:@{}", a, b, a, b));
            v.push(format!("o:{{{}:1 {}:2}} x:o.{} y:o.{}", a, b, a, b));
            v.push(format!("{}:1 x:{}", a, b));
            v.push(format!("{}:1 {}:2", a, a));
            v.push(format!("@{}:1 x:@{}", a, b));
            v.push(format!("o:{{{}:1}} x:o.{}", a, b));
            v.push(format!("o:{{{}:1}} x:o.{}", a, &a[1..]));
            v.push(format!("o:{{^:{{{}:1}} {}:2}} x:o.{}", a, b, a));
            let u = format!("{}é", "n".repeat(n - 1));
            v.push(format!("{}:1 x:{} o:{{{}:2}} y:o.{}", u, u, u, u));
        }
        // Long numbers (arithmetic on them is quadratic).
        "digits" if n > 5000 => (),
        "digits" => {
            let d = "7".repeat(n);
            v.push(format!("x:{} y:-{} z:{}.5 w:.{} u:5.{}", d, d, d, d, d));
            v.push(format!("a:{} x:a+1 y:a-a z:a*3 w:a/7 u:a%1000", d));
            v.push(format!("x:{}1 y:0.{}1", "0".repeat(n), "0".repeat(n)));
        }
        // Objects in parents' line.
        "parents" => {
            let mut s = String::from("@p0:{f0:0} ");
            for i in 1..n.min(1100) {
                s.push_str(&format!("@p{}:{{^:@p{} f{}:{}}} ", i, i - 1, i, i));
            }
            let last = n.min(1100) - 1;
            for p in places(last + 1) {
                v.push(format!("{}x:@p{}.f{}", s, last, p));
            }
            v.push(format!("{}x:@p{}.g", s, last));
        }
        "parents-in" => {
            // Many fields, in the object and its parents.
            let fs = |p: &str| list(n, |i| format!("{}{}:{}", p, i, i));
            let base = format!("o:{{^:{{^:{{{}}} {}}} {}}} ", fs("a"), fs("b"), fs("c"));
            let uses: Vec<String> = places(n).iter().enumerate().map(|(j, p)| format!("u{}:o.a{} v{}:o.b{} w{}:o.c{}", j, p, j, p, j, p)).collect();
            v.push(format!("{}{}", base, uses.join(" ")));
            v.push(format!("{}u:o.a{}", base, n));
        }
        // Blanks and comments.
        "blanks" => {
            for (b, _) in [(" ", 0), ("\n", 0), ("\t", 0), (",", 0), ("#\n", 0), ("#ab\n", 0), ("\r\n", 0)].iter() {
                let b = b.repeat(n);
                v.push(format!("x:1{}y:[2{}3]{}z:{}(4{}){}", b, b, b, b, b, b));
                v.push(format!("{}x:1 y:x.0", b));
                v.push(format!("x:1{}]", b));
            }
            v.push(format!("x:1 #{}\ny:2", "c".repeat(n)));
            v.push(format!("x:1 #{}", "é".repeat(n)));
            v.push(format!("x:1 #{}\ny:]", "é".repeat(n)));
        }
        // Strings.
        "string" => {
            for u in ["a", "é", "中", "😀", "\\n", "\\\"", "\n"].iter() {
                v.push(format!("x:\"{}\" y:1", u.repeat(n)));
                v.push(format!("x:\"{}", u.repeat(n)));
                v.push(format!("x:\"{}\" y:]", u.repeat(n)));
                v.push(format!("x:\"{}\\q\"", u.repeat(n)));
            }
        }
        // A fault behind much that is right.
        "fault" => {
            for (p, u, s) in [
                ("x:[", "1 ", "}"), ("x:[", "1 ", ""), ("x:(", "1 ", "]"), ("x:(", "\"s\" ", "y"), ("x:[", "[] ", "u"), ("x:[", "1\n", "\"s\"]"), ("x:(", "é ", ")"),
                ("", "x:1\n", ""), ("x:\"", "é", "\" y:z"), ("x:(", "{} ", "{a:1 a:2})"), ("x:(", "(1)\n", "1.2.3)"), ("x:1", "+1", "+"), ("x:1", "+1\n", "x:2"), ("@a:1 x:(", "@a ", "@b)"),
            ]
            .iter()
            {
                v.push(format!("{}{}{}", p, u.repeat(n), s));
            }
        }
        // One large container in several places.
        "shared" => {
            for (o, e, cl) in [("[", "1 ", "]"), ("[", "[] ", "]"), ("(", "1 ", ")"), ("[", "(1) ", "]"), ("[", "{} ", "]"), ("[", "\"s\" ", "]")].iter() {
                let x = format!("{}{}{}", o, e.repeat(n), cl);
                v.push(format!("x:{} y:x z:(x [x x]) w:{{^:{{a:1}}}} u:z.0 t:z.1.0", x));
                v.push(format!("@x:{} y:@x z:{{^:{{k:@x}} l:(@x)}} u:z.k t:z.l.0", x));
            }
            if n < 5000 {
                let fs = list(n, |i| format!("f{}:1", i));
                v.push(format!("@x:{{{}}} y:@x z:{{^:@x l:[@x @x]}} u:z.l.0 t:z.f0", fs));
                v.push(format!("@g:[] @x:({}) y:@x z:[@g @x.0]", "@g ".repeat(n)));
            }
        }
        // A text that breaks off (or goes on wrongly) far down.
        "cut" => {
            for open in ["", "a:", "a:{", "a:[", "a:(", "a:{b:(", "a:[{b:1 ", "^:{", "@g:(", "a:<"] {
                for fill in [" ", "\n", "#c\n"] {
                    let p = format!("{}{}", open, fill.repeat(n));
                    for tail in [
                        "", "{", "{b:1", "{b:", "{b", "[", "[1", "[1 ", "(", "(1", "(()", "<", "<Str", "<Obj ", "<\"f\"", "<\"f", "\"", "\"s", "b:", "b", "b:1", "@g", "@", "-", "1+", "1.", "\"s\"+", "^", "^:", "b.", "null", "]", "}", ")", ">", "{b:1}", "[1]", "(1)", "#c",
                    ] {
                        v.push(format!("{}{}", p, tail));
                        if tail.len() == 1 {
                            v.push(format!("{}{}{}", p, tail, fill));
                        }
                    }
                }
            }
        }
        s => panic!("no shape {}", s),
    }
    v
}

/// The texts of the case, each judged.
pub fn each(t: &str, f: fn(&str) -> CaseRes) -> CaseRes {
    let mut h = H::new();
    let mut d = Done::state(0);
    d.runs = 0;
    d.steps = 0;
    for x in texts(t) {
        let r = f(&x).map_err(|e| {
            let head: String = x.chars().take(120).collect();
            let tail: Vec<char> = x.chars().rev().take(120).collect();
            format!("{}\n   text: {:?} ... {:?}", e.chars().take(600).collect::<String>(), head, tail.into_iter().rev().collect::<String>())
        })?;
        h.u(r.state);
        d.runs += r.runs;
        d.steps += r.steps;
    }
    d.state = h.0;
    Ok(d)
}

pub const WHAT: &str = "large documents of every size 2^k-1, 2^k, 2^k+1, k=7..16 (17): see sizes.rs; uses and faults at each place around these sizes";

macro_rules! family {
    ($id:ident, $gen:ident, $exec:ident, $judge:path, $shapes:expr) => {
        fn $gen(c: &mut Ctx) {
            queue(c, $shapes);
        }
        fn $exec(t: &str) -> CaseRes {
            each(t, $judge)
        }
        pub fn $id() -> Family {
            Family { name: "sizes", what: WHAT, gen: $gen, exec: $exec }
        }
    };
}
use crate::props_val;
family!(c02, g02, e02, props_val::c02_exec, &["arr", "tup", "strs", "fracs", "objs", "tups", "arrs", "empties", "obj", "fields", "name", "digits", "parents", "string", "merge", "sums"]);
family!(c03, g03, e03, props_val::c03_exec_light, &["arr", "tup", "strs", "fracs", "objs", "tups", "arrs", "empties", "digits", "string", "sums"]);
family!(c05, g05, e05, value_text, &["digits"]);
family!(c06, g06, e06, typed_text, &["chain", "sums", "digits"]);
family!(c07, g07, e07, value_text, &["fields", "dups", "globals", "name", "parents-in"]);
family!(c08, g08, e08, value_text, &["arr", "tup", "strs", "objs", "tups", "arrs", "obj", "parents-in", "name", "sums"]);
family!(c10, g10, e10, typed_text, &["arr", "strs", "objs", "tups", "arrs", "empties", "odd", "merge", "sums"]);
family!(c17, g17, e17, place_text, &["odd", "odd-lines", "dups", "globals", "name", "blanks", "string", "fault", "arr", "tup", "chain", "cut"]);
family!(c21, g21, e21, value_text, &["blanks"]);
family!(c22, g22, e22, accept_text, &["arr", "tup", "odd", "dups", "globals", "name", "digits", "blanks", "string", "fault", "chain", "merge", "empties", "cut"]);
family!(c24, g24, e24, props_val::c24_doc, &["arr", "tup", "strs", "fracs", "objs", "tups", "arrs", "obj", "fields", "sums", "name", "string"]);
family!(c26, g26, e26, crate::props_ref::loaded_exec, &["shared", "arr", "tup", "objs", "tups", "arrs", "empties", "obj", "fields", "globals", "sums", "parents", "merge"]);
