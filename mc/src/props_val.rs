//! C02, C03, C10, C11, C19, C20, C23, C24: printing, types, equality, access.

use crate::cmp::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use crate::values::*;
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::{Obj, OverError, ReferenceType};
use std::rc::Rc;
use std::str::FromStr;

fn doc(v: &MV) -> String {
    match v {
        MV::Obj(o) => {
            let mut s = String::new();
            body_to(o, &mut s);
            s
        }
        _ => unreachable!(),
    }
}
fn depth(v: &MV) -> usize {
    match v {
        MV::Arr(a) => 1 + a.vals.iter().map(depth).max().unwrap_or(0),
        MV::Tup(a) => 1 + a.vals.iter().map(depth).max().unwrap_or(0),
        MV::Obj(o) => 1 + odepth(o),
        _ => 0,
    }
}
/// How many containers deep an object's contents are.
fn odepth(o: &MObj) -> usize {
    let f = o.pairs.iter().map(|(_, v)| depth(v)).max().unwrap_or(0);
    let p = o.parent.as_ref().map_or(0, |p| 1 + odepth(p));
    f.max(p)
}

// ---------------------------------------------------------------- C02

fn round_trip(o: &Obj, m: &Rc<MObj>, file: bool) -> Res {
    let t = o.write_to_string();
    let r = Obj::from_str(&t).map_err(|e| format!("what it is written as is rejected: {}; text: {:?}", e, t))?;
    Cmp::typed().obj(&r, m).map_err(|e| format!("writing and loading changes it: {}; text: {:?}", e, t))?;
    if r != *o || *o != r {
        return Err(format!("the reloaded object is not equal to the original; text: {:?}", t));
    }
    let t2 = r.write_to_string();
    if t2 != t {
        return Err(format!("written again the text differs: {:?} and {:?}", t, t2));
    }
    if file {
        o.write_to_file("out").map_err(|e| format!("cannot write it to a file: {}", e))?;
        let b = std::fs::read("out").map_err(|e| e.to_string())?;
        if b != t.as_bytes() {
            return Err(format!("the file holds {:?} instead of {:?}", String::from_utf8_lossy(&b), t));
        }
        let r = Obj::from_file("out").map_err(|e| format!("the written file is rejected: {}", e))?;
        Cmp::typed().obj(&r, m).map_err(|e| format!("writing to a file and loading changes it: {}", e))?;
    }
    Ok(())
}
fn c02_doc(t: &str, file: bool) -> CaseRes {
    let m = eval_text(t, None);
    let alive = m.res.is_ok() || m.saw_end;
    let v = match (&m.res, m.quirk) {
        (Ok(v), false) if odepth(v) <= 63 => v,
        _ => return Ok(Done { alive, ..Done::skip() }),
    };
    let b = build_obj(v);
    round_trip(&b, v, file).map_err(|e| format!("constructed object: {}", e))?;
    if let Ok(l) = Obj::from_str(t) {
        // Loading correctly is not this property's matter: whatever was loaded must survive.
        if Cmp::typed().obj(&l, v).is_ok() {
            round_trip(&l, v, false).map_err(|e| format!("loaded object: {}", e))?;
        } else {
            let t = l.write_to_string();
            let r = Obj::from_str(&t).map_err(|e| format!("what a loaded object is written as is rejected: {}; text: {:?}", e, t))?;
            if r != l || r.write_to_string() != t {
                return Err(format!("a loaded object changes when written and reloaded; text: {:?}", t));
            }
        }
    }
    let mut h = H::new();
    h.o(v);
    Ok(Done { state: h.0, alive, steps: 4, runs: 2, skipped: false })
}
pub fn c02_exec(t: &str) -> CaseRes {
    c02_doc(t, false)
}
fn c02_exec_file(t: &str) -> CaseRes {
    c02_doc(t, true)
}
fn few_leaves() -> Vec<MV> {
    vec![MV::int(1), MV::str("s")]
}
fn all_objs(c: &mut Ctx, leaves: &[MV], max: usize, f: &mut dyn FnMut(&mut Ctx, &MV)) {
    for n in by_size(leaves, max, &["b", "a", "c"], true, 3) {
        for v in n {
            if let MV::Obj(_) = v {
                f(c, &v);
            }
        }
    }
}
fn c02_values(c: &mut Ctx) {
    let k = c.pick(6, 7);
    all_objs(c, &few_leaves(), k, &mut |c, v| {
        if c.mine() {
            c.run(&doc(v), true);
        }
    });
}
fn c02_leaves(c: &mut Ctx) {
    let l = many_leaves();
    // Every leaf, and every pair of leaves, in every container.
    for x in &l {
        for y in &l {
            let (a, b) = (lit(x), lit(y));
            if !c.mine() {
                continue;
            }
            for t in &[
                format!("a:{} b:{}", a, b),
                format!("a:({} {})", a, b),
                format!("a:[{} {}]", a, b),
                format!("a:[{}] b:({})", a, b),
                format!("a:{{b:{} c:[({})]}}", a, b),
                format!("^:{{a:{}}} a:{}", a, b),
                format!("a:{{^:{{x:{}}} y:{}}}", a, b),
            ] {
                c.run(t, true);
            }
        }
    }
}
fn c02_files(c: &mut Ctx) {
    all_objs(c, &few_leaves(), 4, &mut |c, v| {
        if c.mine() {
            c.run(&doc(v), true);
        }
    });
    for x in &many_leaves() {
        c.case(&format!("a:{} b:[{}]", lit(x), lit(x)));
    }
    for n in (0..c.pick(60, 400)).chain(vec![1000, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]) {
        c.case(&format!("a:\"{}\" b:1", "é".repeat(n)));
        c.case(&format!("{}", "x".repeat(n + 1) + ":1"));
    }
}
fn c02_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c02_unicode_exec(t: &str) -> CaseRes {
    let ch = t.chars().next().unwrap();
    let s = lit_str(t);
    let mut d = c02_exec(&format!("a:{} b:\"x{} c:[{} \"\"]", s, &s[1..], s))?;
    d.state = ch as u64;
    if ch.is_alphabetic() {
        d.runs += c02_exec(&format!("{}:1 {}{}:{{{}:2}} x{}:3", ch, ch, ch, ch, ch))?.runs;
    }
    Ok(d)
}
fn nest(kinds: &[u8], depth: usize, leaf: &str, first: bool, last: bool) -> String {
    // Nested containers in a repeating pattern, with a sibling before and/or after each level.
    let mut open = String::new();
    let mut close = String::new();
    for i in 0..depth {
        match kinds[i % kinds.len()] {
            b'[' => {
                open.push('[');
                close.insert(0, ']');
            }
            b'(' => {
                open.push_str(if first { "(1 " } else { "(" });
                close.insert_str(0, if last { " 2)" } else { ")" });
            }
            b'{' => {
                open.push_str(if first { "{p:1 q:" } else { "{q:" });
                close.insert_str(0, if last { " r:2}" } else { "}" });
            }
            _ => {
                open.push_str(if first { "{p:1 ^:" } else { "{^:" });
                close.insert_str(0, if last { " r:2}" } else { "}" });
            }
        }
    }
    // A parent must be an object.
    let last_kind = if depth == 0 { b' ' } else { kinds[(depth - 1) % kinds.len()] };
    let leaf = if last_kind == b'^' { "{z:1}" } else { leaf };
    format!("{}{}{}", open, leaf, close)
}
fn patterns(max: usize) -> Vec<Vec<u8>> {
    let k = [b'[', b'(', b'{', b'^'];
    let mut all: Vec<Vec<u8>> = vec![];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for p in &last {
            for x in &k {
                let mut q = p.clone();
                q.push(*x);
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    // '^' must be followed (cyclically too) by an object.
    all.retain(|p| (0..p.len()).all(|i| p[i] != b'^' || p[(i + 1) % p.len()] == b'{' || p[(i + 1) % p.len()] == b'^'));
    all
}
fn c02_depth(c: &mut Ctx) {
    for p in patterns(c.pick(3, 4)) {
        for d in 0..=63 {
            if d > 12 && d < 58 && !c.thorough() && d % 7 != 0 {
                continue;
            }
            for (f, l) in [(false, false), (true, false), (false, true), (true, true)].iter() {
                c.case(&format!("a:{} b:1", nest(&p, d, "7", *f, *l)));
            }
        }
    }
}
fn c02_wide(c: &mut Ctx) {
    let max = c.pick(150, 700);
    for n in 0..=max {
        let e: Vec<String> = (0..n).map(|i| format!("{}", i as i64 - 3)).collect();
        let f: Vec<String> = (0..n).map(|i| format!("f{}:{}", i, i)).collect();
        c.case(&format!("a:[{}] b:({}) c:{{{}}} {}", e.join(" "), e.join(" "), f.join(" "), f.join(" ")));
        let digits: String = "7394".chars().cycle().take(n + 1).collect();
        c.case(&format!("a:{} b:-{} c:{}.{} d:1/{}", digits, digits, digits, digits, digits));
        c.case(&format!("{}:1", "n".repeat(n + 1)));
    }
}
fn c02_loaded(c: &mut Ctx) {
    let d = c.pick(7, 9);
    c.tree("", &["a:", "b:", "@g:", "^:", "1 ", "\"s\\n\" ", "1/3 ", "a ", "@g ", "{", "} ", "[", "] ", "(", ") "], d, &[]);
    let d = c.pick(3, 4);
    c.tree(
        "o:{p:[1 (2)] q:{r:\"x\"}} @e:[] @f:{^:o s:1.5}\nx:",
        &["o", "o.p", "o.q", "o.p.1", "@e", "@f", "@f.q", "@f.s", "[o o]", "(", ") ", "[", "] ", "+", " ", "{^:@f y:", "} ", "y:"],
        d + 2,
        &[],
    );
}
/// Values held several times: as one instance, as equal ones, or as others.
fn c02_shared(c: &mut Ctx) {
    let vals = ["1", "\"s\"", "[]", "[1]", "[[]]", "(1)", "()", "{}", "{k:1}", "{^:{}}", "null", "1.5"];
    let shapes = [
        "a:{^:{k:X} k:Y}", "a:{^:{k:X k2:Y} k2:Y k:X}", "a:{^:{^:{k:X}} k:Y}", "^:{k:X} k:Y", "a:{k:Y ^:{^:{k:X} j:Y} j:X}", "a:X b:Y", "a:(X Y)", "a:(X (Y X))", "a:{k:X l:Y m:X}", "a:X b:{k:Y l:{k:X}}", "o:{^:{k:X} l:Y}", "a:{k:X} b:{k:Y}",
        "a:{^:{k:{m:X}} k:{m:Y}}", "a:{^:{k:(X)} k:(Y) j:(X)}", "a:{k:X l:{^:{k:Y} k:X}}", "@p:{k:X} a:{^:@p k:Y} b:{^:@p k:X} c:@p", "@p:{k:X} a:(@p {^:@p k:Y} @p)", "@p:{k:X l:Y} a:{^:{^:@p k:X} l:Y k:Y}", "@p:{k:X} a:{p:@p ^:@p k:@p.k l:Y}",
    ];
    for s in &shapes {
        for x in &vals {
            for y in &vals {
                // X and Y: one instance (of X), instances of their own, Y's a part of another's.
                let (lx, ly) = (s.replace('X', x).replace('Y', y), s.replace('X', "@x").replace('Y', "@y"));
                c.case(&lx);
                c.case(&format!("@x:{} @y:{} {}", x, y, ly));
                c.case(&format!("@x:{} {}", x, s.replace('X', "@x").replace('Y', "@x")));
                c.case(&format!("@x:{} {}", x, s.replace('X', "@x").replace('Y', y)));
                c.case(&format!("@h:{{x:{} y:{}}} {}", x, y, s.replace('X', "@h.x").replace('Y', "@h.y")));
                c.case(&format!("@x:{} @y:({} @x) {}", x, y, ly));
                c.case(&format!("@x:{} @y:{{k:@x l:{}}} {}", x, y, ly));
                c.case(&format!("@y:{} @x:{{^:{{k:@y}} k:{}}} {}", y, x, ly));
            }
        }
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        assumptions: vec!["objects nested deeper than the reader's limit through names are outside the property"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c02(),
            Family { name: "values", what: "all objects of up to 6 (7) nodes over two leaves, three names, arrays, tuples, objects and parents; each constructed and loaded, written, reloaded, rewritten", gen: c02_values, exec: c02_exec },
            Family { name: "leaves", what: "all pairs of 66 leaves in 7 containers", gen: c02_leaves, exec: c02_exec },
            Family { name: "files", what: "all objects of up to 4 nodes, all leaves, strings and names of many sizes, through a file", gen: c02_files, exec: c02_exec_file },
            Family { name: "unicode", what: "every Unicode scalar value in strings, every letter in names", gen: c02_unicode, exec: c02_unicode_exec },
            Family { name: "long-numbers", what: "5 patterns of digits, of every number of digits near 2^k and 10^k and some multiples to 16385 (40000): integers, and to 5000 fractions and decimals", gen: long_numbers, exec: c02_exec },
            Family { name: "numbers", what: "integers to 3000 (30000), all fractions and decimals with parts below 60 (250) or over denominators near b^k for 9 b, k to 12 (40); every number of digits to 120 (600)", gen: c03_numbers, exec: c02_exec },
            Family { name: "depth", what: "all nesting patterns of period up to 3 (4) at depths to 63, with and without siblings before and after", gen: c02_depth, exec: c02_exec },
            Family { name: "wide", what: "every number of elements, fields, digits and name characters to 150 (700)", gen: c02_wide, exec: c02_exec },
            Family { name: "loaded", what: "everything loadable among the token sequences up to length 7 (9), with names, globals, parents, dots, sums", gen: c02_loaded, exec: c02_exec },
            Family { name: "shared", what: "all pairs of 12 values in 19 shapes (own and inherited fields of one name, parents, siblings), held as one instance, as equal ones and as parts of each other", gen: c02_shared, exec: c02_exec },
            Family { name: "special", what: "each of 10 special characters at every place of strings of every length to 40 (140), of some to 8193", gen: c02_special, exec: c02_exec },
        ],
    }
}

// ---------------------------------------------------------------- C03

/// A case is a text whose field x holds the value.
fn c03_exec(t: &str) -> CaseRes {
    c03_ways(t, true)
}
pub fn c03_exec_light(t: &str) -> CaseRes {
    c03_ways(t, false)
}
fn c03_ways(t: &str, all: bool) -> CaseRes {
    let m = eval_text(t, None);
    let alive = m.res.is_ok() || m.saw_end;
    let v = match (&m.res, m.quirk) {
        (Ok(v), false) => v,
        _ => return Ok(Done { alive, ..Done::skip() }),
    };
    let x = match v.own("x") {
        Some(x) if depth(x) <= 63 => x,
        _ => return Ok(Done { alive, ..Done::skip() }),
    };
    let mut vals = vec![build(x)];
    if !all {
        // Only printed as a value.
    } else if let Ok(o) = Obj::from_str(t) {
        if let Some(l) = o.get("x") {
            if Cmp::typed().val(&l, x).is_ok() {
                vals.push(l);
            }
        }
    }
    for val in vals {
        let mut texts = vec![format!("{}", val)];
        match &val {
            Value::Arr(a) => texts.push(a.to_string()),
            Value::Tup(a) => texts.push(a.to_string()),
            Value::Obj(a) => texts.push(a.to_string()),
            _ => (),
        }
        for s in texts {
            for d in [format!("w: 0 x: {}\ny:1", s), format!("x:{}", s)].iter().take(1 + all as usize) {
                let o = Obj::from_str(d).map_err(|e| format!("the printed form {:?} is no literal: {}", s, e))?;
                let r = o.get("x").ok_or("field lost")?;
                Cmp::typed().val(&r, x).map_err(|e| format!("the printed form {:?} denotes another value: {}", s, e))?;
                if r != val {
                    return Err(format!("the printed form {:?} loads as a value that is not equal", s));
                }
            }
        }
    }
    let mut h = H::new();
    h.v(x);
    Ok(Done { state: h.0, alive, steps: 2, runs: 2, skipped: false })
}
fn c03_values(c: &mut Ctx) {
    let k = c.pick(6, 7);
    for n in by_size(&few_leaves(), k, &["b", "a", "c"], true, 3) {
        for v in n {
            if c.mine() {
                c.run(&format!("x:{}", lit(&v)), true);
            }
        }
    }
}
fn c03_leaves(c: &mut Ctx) {
    let l = many_leaves();
    for x in &l {
        c.case(&format!("x:{}", lit(x)));
        for y in &l {
            let (a, b) = (lit(x), lit(y));
            if !c.mine() {
                continue;
            }
            for t in &[format!("x:({} {})", a, b), format!("x:[{} {}]", a, b), format!("x:[({}) ({})]", a, b), format!("x:{{b:{} c:[({})]}}", a, b), format!("x:{{^:{{x:{}}} y:{}}}", a, b)] {
                c.run(t, true);
            }
        }
    }
}
fn c03_unicode(c: &mut Ctx) {
    for ch in scalars() {
        let o = if ch.is_alphabetic() { format!("{{{}:1 a{}:{{}}}}", ch, ch) } else { String::new() };
        let t = ch.to_string();
        c.case(&format!("x:({} {} {} {})", lit_str(&t), lit_str(&format!("a{}", ch)), lit_str(&format!("{}b", ch)), o));
    }
}
fn c03_depth(c: &mut Ctx) {
    for p in patterns(c.pick(3, 4)) {
        for d in 0..=63 {
            if d > 12 && d < 58 && !c.thorough() && d % 7 != 0 {
                continue;
            }
            for (f, l) in [(false, false), (true, false), (false, true), (true, true)].iter() {
                c.case(&format!("x:{}", nest(&p, d, "7", *f, *l)));
            }
        }
    }
}
/// Fractions over round and near-round denominators; both signs, small and large parts.
fn fractions(c: &mut Ctx) {
    let mut ds: Vec<num_bigint::BigInt> = vec![];
    let big = |i: i64| num_bigint::BigInt::from(i);
    for b in &[2i64, 3, 5, 7, 10, 20, 25, 60, 100] {
        let mut p = big(*b);
        for _ in 0..c.pick(12, 40) {
            for d in -1i64..=1 {
                ds.push(p.clone() + d);
            }
            p *= *b;
        }
    }
    ds.sort();
    ds.dedup();
    ds.retain(|d| *d > big(1));
    for d in &ds {
        if !c.mine() {
            continue;
        }
        let mut ns = vec![];
        for k in &[big(0), big(7), big(10), big(1000), d.clone(), d * 2, d * 10, d / 2, d / 3, d / 10, d * d] {
            for e in -2i64..=2 {
                ns.push(k.clone() + e);
            }
        }
        ns.sort();
        ns.dedup();
        ns.retain(|n| *n >= big(0));
        let v: Vec<String> = ns.iter().map(|n| format!("{}/{} -{}/{}", n, d, n, d)).collect();
        c.run(&format!("x:({})", v.join(" ")), true);
    }
}
fn c03_numbers(c: &mut Ctx) {
    fractions(c);
    for n in 0..c.pick(3000, 30000) {
        c.case(&format!("x:({} -{} {}.0 -{}.0)", n, n, n, n));
    }
    let m = c.pick(60, 250);
    for a in 0..m {
        for b in 1..m {
            c.case(&format!("x:({}/{} -{}/{} {}.{} [{}/{} -{}.{}])", a, b, a, b, a, b, b, b + a + 1, a, b));
        }
    }
    for n in 1..c.pick(120, 600) {
        let d: String = "8153".chars().cycle().take(n).collect();
        c.case(&format!("x:({} -{} {}.0 -{}.{} 1/{} -{}/7)", d, d, d, d, d, d, d));
    }
}
/// Numbers of many digits.
fn long_numbers(c: &mut Ctx) {
    let top = c.pick(16_385, 40_000);
    let mut l = vec![];
    for k in 7..17 {
        for d in 0..3 {
            l.push((1usize << k) + d - 1);
        }
    }
    for k in 2..5 {
        let p = 10usize.pow(k);
        l.extend([p - 1, p, p + 1, p + 100, 2 * p, 2 * p + 1, 3 * p, 5 * p, 5 * p + 1]);
    }
    l.sort();
    l.dedup();
    for n in l.into_iter().filter(|n| *n <= top) {
        let z = "0".repeat(n - 2);
        for d in [format!("1{}1", z), format!("1{}0", z), "9".repeat(n), format!("1{}7{}2", "0".repeat(n / 2), "0".repeat(n - n / 2 - 3)), "8153".chars().cycle().take(n).collect::<String>()].iter() {
            c.case(&format!("x:({} -{})", d, d));
            if n <= 5000 {
                c.case(&format!("x:({}/7 -7/{} {}.0 {}.5 0.{})", d, d, d, d, d));
            }
        }
    }
}
/// A character that is printed in another way than it stands, at every place of strings of every length.
pub fn special_places(c: &mut Ctx, max: usize, wrap: &dyn Fn(&[String]) -> String) {
    for n in (1..=max).chain(vec![255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8193]) {
        for i in 0..n {
            if i > 40 && i + 40 < n && n > max && i % 64 > 1 && i % 64 < 63 {
                continue;
            }
            if !c.mine() {
                continue;
            }
            for (a, b) in &[("x", "y"), ("é", "x"), ("x", "€")] {
                if n > max && *a != "x" {
                    continue;
                }
                let all: Vec<String> = ['\\', '"', '\'', '$', '\n', '\r', '\t', 'é', '𝄞', '\0'].iter().map(|ch| lit_str(&format!("{}{}{}", a.repeat(i), ch, b.repeat(n - 1 - i)))).collect();
                c.run(&wrap(&all), true);
            }
        }
    }
}
fn c02_special(c: &mut Ctx) {
    special_places(c, c.pick(40, 140), &|l| format!("a:({})", l.join(" ")));
}
fn c03_special(c: &mut Ctx) {
    special_places(c, c.pick(70, 260), &|l| format!("x:({})", l.join(" ")));
}
fn c03_wide(c: &mut Ctx) {
    for n in 0..c.pick(120, 500) {
        let e: Vec<String> = (0..n).map(|i| format!("{}", i)).collect();
        let f: Vec<String> = (0..n).map(|i| format!("f{}:{}", i, i)).collect();
        c.case(&format!("x:[{}]", e.join(" ")));
        c.case(&format!("x:({})", e.join(" ")));
        c.case(&format!("x:{{{}}}", f.join(" ")));
        c.case(&format!("x:\"{}\"", "q\\\\".repeat(n)));
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c03(),
            Family { name: "special", what: "each of 10 special characters at every place of strings of every length to 70 (260), of some to 8193", gen: c03_special, exec: c03_exec_light },
            Family { name: "values", what: "all values of up to 6 (7) nodes over two leaves, arrays, tuples, objects, parents; constructed and loaded; printed as Value and as the container itself", gen: c03_values, exec: c03_exec },
            Family { name: "leaves", what: "all pairs of 66 leaves in 5 containers", gen: c03_leaves, exec: c03_exec },
            Family { name: "unicode", what: "every Unicode scalar value in strings, every letter in names", gen: c03_unicode, exec: c03_exec_light },
            Family { name: "depth", what: "all nesting patterns of period up to 3 (4) at depths to 63, with and without siblings", gen: c03_depth, exec: c03_exec },
            Family { name: "long-numbers", what: "5 patterns of digits, of every number of digits near 2^k and 10^k and some multiples to 16385 (40000): integers, and to 5000 fractions and decimals", gen: long_numbers, exec: c03_exec },
            Family { name: "numbers", what: "integers to 3000 (30000), all fractions and decimals with parts below 60 (250) or over denominators near b^k for 9 b, k to 12 (40); every number of digits to 120 (600)", gen: c03_numbers, exec: c03_exec },
            Family { name: "wide", what: "every number of elements, fields and string characters to 120 (500)", gen: c03_wide, exec: c03_exec },
        ],
    }
}

// ---------------------------------------------------------------- C10

/// A case is a list of element literals separated by SEP, produced in every way.
fn c10_exec(t: &str) -> CaseRes {
    c10_ways(t, false)
}
fn c10_exec_files(t: &str) -> CaseRes {
    c10_ways(t, true)
}
fn c10_check(way: &str, got: Result<Value, String>, want: &Option<MV>) -> Res {
    match (got, want) {
        (Ok(v), Some(m)) => Cmp::typed().val(&v, m).map_err(|e| format!("{}: {}", way, e)),
        (Err(_), None) => Ok(()),
        (Ok(v), None) => Err(format!("{}: elements that do not agree are accepted, as {}", way, ty_of(&v.get_type()).show())),
        (Err(e), Some(m)) => Err(format!("{}: elements that agree (as {}) are rejected: {}", way, m.ty().show(), e)),
    }
}
fn c10_ways(t: &str, files: bool) -> CaseRes {
    let els: Vec<&str> = if t.is_empty() { vec![] } else { t.split(SEP).collect() };
    let mvs: Vec<MV> = els
        .iter()
        .map(|e| {
            let o = eval_text(&format!("x:{}", e), None).res.unwrap_or_else(|e2| panic!("bad element {:?}: {:?}", e, e2));
            o.own("x").unwrap().clone()
        })
        .collect();
    let want = MV::arr(mvs.clone());
    let load = |d: &str| -> Result<Value, String> {
        let o = Obj::from_str(d).map_err(|e| e.to_string())?;
        o.get("a").ok_or_else(|| "no field".to_string())
    };
    let n = els.len();
    let mut runs = 0;
    let mut check = |w: &str, g: Result<Value, String>| {
        runs += 1;
        c10_check(w, g, &want)
    };
    check("literal", load(&format!("a:[{}]", els.join(" "))))?;
    check("literal by names", load(&format!("{} a:[{}]", els.iter().enumerate().map(|(i, e)| format!("f{}:{}", i, e)).collect::<Vec<_>>().join(" "), (0..n).map(|i| format!("f{}", i)).collect::<Vec<_>>().join(" "))))?;
    // Concatenations of all splits into two (each part must itself agree).
    for i in 0..=n {
        let (x, y) = (&els[..i], &els[i..]);
        check("concatenation", load(&format!("a:[{}]+[{}]", x.join(" "), y.join(" "))))?;
        if n <= 3 {
            for j in i..=n {
                check("concatenation of three", load(&format!("a:[{}]+[{}]+[{}]", els[..i].join(" "), els[i..j].join(" "), els[j..].join(" "))))?;
            }
        }
    }
    if n > 0 {
        check("concatenation of single elements", load(&format!("a:{}", els.iter().map(|e| format!("[{}]", e)).collect::<Vec<_>>().join("+"))))?;
    }
    let vals = || mvs.iter().map(build).collect::<Vec<Value>>();
    check("constructor", Arr::from_values(vals()).map(Value::Arr).map_err(|e| e.to_string()))?;
    check("conversion", std::convert::TryFrom::try_from(vals()).map(|a: Arr| Value::Arr(a)).map_err(|e: OverError| e.to_string()))?;
    use over::try_arr;
    let v = vals();
    match n {
        1 => check("macro", try_arr![v[0].clone()].map(Value::Arr).map_err(|e| e.to_string()))?,
        2 => check("macro", try_arr![v[0].clone(), v[1].clone()].map(Value::Arr).map_err(|e| e.to_string()))?,
        3 => check("macro", try_arr![v[0].clone(), v[1].clone(), v[2].clone()].map(Value::Arr).map_err(|e| e.to_string()))?,
        _ => (),
    }
    // As an element of further containers: the type is reported through them.
    if let Some(w) = &want {
        let outer = MV::arr(vec![w.clone()]).unwrap();
        c10_check("nested", load(&format!("a:[[{}]]", els.join(" "))), &Some(outer))?;
        let outer = MV::tup(vec![w.clone()]);
        c10_check("in a tuple", load(&format!("a:([{}])", els.join(" "))), &Some(outer))?;
    }
    if files {
        std::fs::write("inc", els.join(" ")).unwrap();
        std::fs::write("inc2", els.join("\n")).unwrap();
        check("include", load("a:<Arr \"inc\">"))?;
        check("include", load("b:<Tup \"inc2\"> c:<Arr \"inc2\"> a:[]+c"))?;
    }
    let mut h = H::new();
    h.s(&want.as_ref().map_or("none".into(), |w| w.ty().show()));
    Ok(Done { state: h.0, alive: true, steps: n as u64 + 1, runs, skipped: false })
}
fn typed_leaves() -> Vec<MV> {
    vec![MV::int(1), MV::str("s")]
}
pub fn el_list(k: usize) -> Vec<String> {
    let mut out = vec![];
    for n in by_size(&typed_leaves(), k, &["f"], false, 2) {
        for v in n {
            out.push(lit(&v));
        }
    }
    out.extend(["null", "true", "1.5", "{}", "(null)", "[true]", "[1.5]", "[null]"].iter().map(|s| s.to_string()));
    out
}
fn c10_pairs(c: &mut Ctx) {
    let big = el_list(c.pick(4, 5));
    c.case("");
    for x in &big {
        c.case(x);
    }
    let mid = el_list(c.pick(3, 4));
    for x in &mid {
        for y in &mid {
            if c.mine() {
                c.run(&format!("{}{}{}", x, SEP, y), true);
            }
        }
    }
    let small = el_list(c.pick(2, 3));
    for x in &small {
        for y in &small {
            for z in &small {
                if c.mine() {
                    c.run(&format!("{}{s}{}{s}{}", x, y, z, s = SEP), true);
                }
            }
        }
    }
}
fn c10_partial(c: &mut Ctx) {
    // Elements whose types are partly unknown: all sequences up to length 4 (5).
    let els = ["[]", "[[]]", "[1]", "[[1]]", "[\"s\"]", "[([] [])]", "[([1] [])]", "[([] [\"s\"])]", "[()]", "([] [])", "([1] [])", "([] [1])", "([] [\"s\"])", "([1] [1])", "([[]] [])", "([[2]] [])", "(1 [])", "(1 [2])", "()", "{}"];
    let max = c.pick(4, 5);
    let mut last: Vec<String> = vec![String::new()];
    for n in 0..max {
        let mut next = vec![];
        for s in &last {
            for e in &els {
                let t = if n == 0 { e.to_string() } else { format!("{}{}{}", s, SEP, e) };
                if c.mine() {
                    c.run(&t, true);
                }
                next.push(t);
            }
        }
        last = next;
    }
}
fn c10_files(c: &mut Ctx) {
    let small = el_list(2);
    c.case("");
    for x in &small {
        c.case(x);
        for y in &small {
            c.case(&format!("{}{}{}", x, SEP, y));
        }
    }
    let els = ["[]", "[[]]", "[1]", "[\"s\"]", "([] [])", "([1] [])", "([] [\"s\"])", "1", "{}"];
    for x in &els {
        for y in &els {
            for z in &els {
                c.case(&format!("{}{s}{}{s}{}", x, y, z, s = SEP));
            }
        }
    }
}
fn c10_long(c: &mut Ctx) {
    // The odd element at every position of arrays of every length.
    let max = c.pick(24, 70);
    for (base, odds) in [("1", vec!["1.5", "\"s\"", "null", "[]", "2"]), ("[]", vec!["[1]", "1", "()", "[[]]"]), ("([] [])", vec!["([1] [])", "([] [2])", "([1])", "([1] [\"s\"])"]), ("[1]", vec!["[]", "[\"s\"]", "[[]]"])].iter() {
        for n in 1..=max {
            for i in 0..n {
                for o in odds {
                    let v: Vec<&str> = (0..n).map(|k| if k == i { *o } else { *base }).collect();
                    c.case(&v.join(&SEP.to_string()));
                    if n <= 8 {
                        for j in 0..n {
                            for o2 in odds {
                                let v: Vec<&str> = (0..n).map(|k| if k == i { *o } else if k == j { *o2 } else { *base }).collect();
                                c.case(&v.join(&SEP.to_string()));
                            }
                        }
                    }
                }
            }
        }
    }
}
/// "base~odd~n~i~j": n elements, the one at i (and at j, if not the same) is the odd one.
fn c10_scale_exec(t: &str) -> CaseRes {
    let f: Vec<&str> = t.split('~').collect();
    let num = |i: usize| f[i].parse::<usize>().unwrap();
    let (n, i, k) = (num(2), num(3), num(4));
    let one = |e: &str| eval_text(&format!("x:{}", e), None).res.unwrap().own("x").unwrap().clone();
    let (base, odd) = (one(f[0]), one(f[1]));
    let at = |p: usize| p == i || p == k;
    let mvs: Vec<MV> = (0..n).map(|p| if at(p) { odd.clone() } else { base.clone() }).collect();
    let texts: Vec<&str> = (0..n).map(|p| if at(p) { f[1] } else { f[0] }).collect();
    let want = MV::arr(mvs.clone());
    let load = |d: &str| -> Result<Value, String> {
        let o = Obj::from_str(d).map_err(|e| e.to_string())?;
        o.get("a").ok_or_else(|| "no field".to_string())
    };
    let mut runs = 0;
    let mut check = |w: &str, g: Result<Value, String>| {
        runs += 1;
        c10_check(w, g, &want)
    };
    let body = texts.join(" ");
    check("literal", load(&format!("a:[{}]", body)))?;
    for s in &[i, i + 1, n / 2] {
        let s = (*s).min(n);
        check("concatenation", load(&format!("a:[{}]+[{}]", texts[..s].join(" "), texts[s..].join(" "))))?;
    }
    let vals = || mvs.iter().map(build).collect::<Vec<Value>>();
    check("constructor", Arr::from_values(vals()).map(Value::Arr).map_err(|e| e.to_string()))?;
    check("conversion", std::convert::TryFrom::try_from(vals()).map(|a: Arr| Value::Arr(a)).map_err(|e: OverError| e.to_string()))?;
    std::fs::write("inc", &body).unwrap();
    check("include", load("a:<Arr \"inc\">"))?;
    let mut h = H::new();
    h.s(&want.as_ref().map_or("none".into(), |w| w.ty().show()));
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs, skipped: false })
}
fn c10_scale(c: &mut Ctx) {
    let top = c.pick(4097, 16_385);
    for n in crate::sizes::sizes(c).into_iter().filter(|n| *n <= top) {
        for (base, odds) in [("1", vec!["1", "1.5", "[1]", "null"]), ("[]", vec!["[1]", "()", "[[]]"]), ("([] [])", vec!["([1] [])", "([])", "([] \"s\")"]), ("[1]", vec!["[]", "[\"s\"]", "[[]]"]), ("([1] 2)", vec!["([] 2)", "([2] \"s\")", "([\"s\"] 2)", "([1] 2 3)"]), ("{a:1}", vec!["{}", "[]"]), ("\"s\"", vec!["[\"s\"]"])].iter() {
            for o in odds {
                for i in crate::sizes::places(n) {
                    c.case(&format!("{}~{}~{}~{}~{}", base, o, n, i, i));
                }
                c.case(&format!("{}~{}~{}~{}~{}", base, o, n, 0, n - 1));
            }
        }
    }
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c10(),
            Family { name: "elements", what: "all arrays of one element of up to 4 (5) nodes, two of up to 3 (4), three of up to 2 (3); each as literal, by names, all splits into two and three concatenated parts, constructor, conversion, macro, nested", gen: c10_pairs, exec: c10_exec },
            Family { name: "partial", what: "all sequences of up to 4 (5) over 20 elements with partly unknown types", gen: c10_partial, exec: c10_exec },
            Family { name: "files", what: "pairs and triples also as included files", gen: c10_files, exec: c10_exec_files },
            Family { name: "sums", what: "all sums of up to 3 (5) of 10 operands (names, globals, elements, fields, literals) for 6 sets of contents, used in 8 more ways in pairs", gen: c24_sums, exec: typed_text },
            Family { name: "long", what: "an odd element at every position (and every pair of positions up to length 8) of arrays of every length to 24 (70)", gen: c10_long, exec: c10_exec },
            Family { name: "scale", what: "an odd element (20 pairs of element and odd one) at the first, middle, last place and around powers of two in arrays of every size 2^k-1, 2^k, 2^k+1, k=7..12 (14): literal, concatenation, constructor, conversion, include", gen: c10_scale, exec: c10_scale_exec },
        ],
    }
}

// ---------------------------------------------------------------- C11

thread_local! {
    static TYS: Vec<Ty> = types(4, 3).into_iter().flatten().collect();
}
fn c11_pair(a: &Ty, b: &Ty) -> Res {
    let (x, y) = (ty_to(a), ty_to(b));
    let want = unify(a, b);
    let got = Type::most_specific(&x, &y);
    match (&want, &got) {
        (None, None) => (),
        (Some(w), Some((g, any))) => {
            if ty_of(g) != *w || *any != w.has_any() {
                return Err(format!("{} and {} combine to {} ({}) instead of {} ({})", a.show(), b.show(), ty_of(g).show(), any, w.show(), w.has_any()));
            }
        }
        (w, g) => return Err(format!("{} and {} combine to {:?} instead of {:?}", a.show(), b.show(), g, w)),
    }
    if (x == y) != want.is_some() {
        return Err(format!("{} == {} is {}", a.show(), b.show(), x == y));
    }
    if x.is(&y) != (a == b) {
        return Err(format!("{}.is({}) is {}", a.show(), b.show(), x.is(&y)));
    }
    if x.has_any() != a.has_any() {
        return Err(format!("{}.has_any() is {}", a.show(), x.has_any()));
    }
    Ok(())
}
/// "i": type i with all others. "i j": the pair combined with all small types (associativity).
fn c11_exec(t: &str) -> CaseRes {
    TYS.with(|ts| {
        let ix: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
        let mut h = H::new();
        if ix.len() == 1 {
            let a = &ts[ix[0]];
            for b in ts {
                c11_pair(a, b)?;
                c11_pair(b, a)?;
                if let Some(u) = unify(a, b) {
                    h.s(&u.show());
                }
            }
            return Ok(Done { state: h.0, alive: true, steps: ts.len() as u64, runs: 2 * ts.len() as u64, skipped: false });
        }
        let (a, b) = (&ts[ix[0]], &ts[ix[1]]);
        let (x, y) = (ty_to(a), ty_to(b));
        let mut n = 0;
        for c in &ts[..ix[2]] {
            let z = ty_to(c);
            let l = Type::most_specific(&x, &y).and_then(|(t, _)| Type::most_specific(&t, &z));
            let r = Type::most_specific(&y, &z).and_then(|(t, _)| Type::most_specific(&x, &t));
            n += 1;
            match (l, r) {
                (None, None) => (),
                (Some((l, f)), Some((r, g))) if ty_of(&l) == ty_of(&r) && f == g => {
                    h.s(&ty_of(&l).show());
                }
                (l, r) => return Err(format!("combining {}, {}, {} depends on the grouping: {:?} and {:?}", a.show(), b.show(), c.show(), l, r)),
            }
        }
        Ok(Done { state: h.0, alive: true, steps: n, runs: n * 4, skipped: false })
    })
}
fn c11_pairs(c: &mut Ctx) {
    let n = TYS.with(|t| t.len());
    for i in 0..n {
        c.case(&i.to_string());
    }
}
fn c11_triples(c: &mut Ctx) {
    let n: usize = types(c.pick(2, 3), 3).iter().map(|v| v.len()).sum();
    let k: usize = types(3, 3).iter().map(|v| v.len()).sum();
    for i in 0..n.max(k.min(c.pick(60, 200))) {
        for j in 0..n.max(k.min(c.pick(60, 200))) {
            c.case(&format!("{} {} {}", i, j, k));
        }
    }
}
fn c11_value(t: &str) -> CaseRes {
    let m = eval_text(t, None).res.map_err(|e| format!("bad case {:?}", e))?;
    let want = m.own("x").unwrap();
    let v = build(want);
    Cmp::typed().val(&v, want)?;
    if let Ok(o) = Obj::from_str(t) {
        if let Some(l) = o.get("x") {
            if Cmp::plain().val(&l, want).is_ok() {
                Cmp::typed().val(&l, want).map_err(|e| format!("loaded: {}", e))?;
            }
        }
    }
    let mut h = H::new();
    h.s(&want.ty().show());
    Ok(Done::state(h.0))
}
fn c11_values(c: &mut Ctx) {
    let k = c.pick(5, 6);
    for n in by_size(&[MV::int(1), MV::str("s"), MV::Null], k, &["f"], false, 3) {
        for v in n {
            if c.mine() {
                c.run(&format!("x:{}", lit(&v)), true);
            }
        }
    }
    for l in many_leaves() {
        c.case(&format!("x:{}", lit(&l)));
    }
    for n in 0..c.pick(40, 200) {
        c.case(&format!("x:({})", (0..n).map(|i| ["1", "\"s\"", "1.5", "null", "[]", "[true]", "{}"][i % 7]).collect::<Vec<_>>().join(" ")));
        let d = n.max(1).min(60);
        c.case(&format!("x:{}{}", "[".repeat(d), "]".repeat(d)));
        c.case(&format!("x:{}1{}", "(".repeat(d), ")".repeat(d)));
    }
}
/// Deep types: the difference at every depth and position.
fn c11_deep_exec(t: &str) -> CaseRes {
    // "kind depth level variant"
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let mk = |leaf: Ty, odd: Option<(usize, Ty)>| {
        let mut t = leaf;
        for i in 0..f[1] {
            if let Some((k, ref o)) = odd {
                if k == i {
                    t = o.clone();
                }
            }
            t = match f[0] {
                0 => Ty::Arr(Box::new(t)),
                1 => Ty::Tup(vec![t]),
                2 => Ty::Tup(vec![Ty::Int, t]),
                3 => Ty::Tup(vec![t, Ty::Any]),
                4 => if i % 2 == 0 { Ty::Arr(Box::new(t)) } else { Ty::Tup(vec![t, Ty::Arr(Box::new(Ty::Any)), Ty::Str]) },
                _ => Ty::Tup(vec![Ty::Any, t, Ty::Int]),
            };
        }
        t
    };
    let leaves = [Ty::Any, Ty::Int, Ty::Str, Ty::Obj, Ty::Tup(vec![]), Ty::Arr(Box::new(Ty::Any)), Ty::Null];
    for a in &leaves {
        for b in &leaves {
            let (x, y) = (mk(Ty::Int, Some((f[2], a.clone()))), mk(Ty::Int, Some((f[2], b.clone()))));
            c11_pair(&x, &y)?;
            c11_pair(&mk(a.clone(), None), &y)?;
            c11_pair(&y, &mk(a.clone(), None))?;
        }
    }
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, alive: true, steps: 49, runs: 147, skipped: false })
}
fn c11_deep(c: &mut Ctx) {
    for k in 0..6 {
        for d in 1..=c.pick(20, 60) {
            for l in 0..d {
                c.case(&format!("{} {} {}", k, d, l));
            }
        }
    }
}
fn c11_wide_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, i, j) = (f[0], f[1], f[2]);
    let odd = [Ty::Any, Ty::Int, Ty::Str, Ty::Arr(Box::new(Ty::Any)), Ty::Arr(Box::new(Ty::Int))];
    for base in [Ty::Any, Ty::Int, Ty::Arr(Box::new(Ty::Any))].iter() {
        for a in &odd {
            for b in &odd {
                let mut x = vec![base.clone(); n];
                let mut y = vec![base.clone(); n];
                x[i] = a.clone();
                y[j] = b.clone();
                c11_pair(&Ty::Tup(x.clone()), &Ty::Tup(y.clone()))?;
                y.push(Ty::Any);
                c11_pair(&Ty::Tup(x.clone()), &Ty::Tup(y.clone()))?;
                c11_pair(&Ty::Tup(y), &Ty::Tup(x))?;
            }
        }
    }
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, alive: true, steps: 75, runs: 225, skipped: false })
}
fn c11_wide(c: &mut Ctx) {
    for n in 1..=c.pick(12, 30) {
        for i in 0..n {
            for j in 0..n {
                c.case(&format!("{} {} {}", n, i, j));
            }
        }
    }
    let top = c.pick(1025, 4097);
    for n in crate::sizes::sizes(c).into_iter().filter(|n| *n <= top) {
        let v = crate::sizes::places(n);
        for (k, i) in v.iter().enumerate() {
            for j in [0, *i, v[(k + 1) % v.len()], n - 1].iter() {
                c.case(&format!("{} {} {}", n, i, j));
            }
        }
    }
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 60,
        families: vec![
            Family { name: "pairs", what: "all ordered pairs of the types of up to 4 nodes with tuples up to width 3, against a reference lattice; commutativity, idempotence and unit follow from agreement on all pairs", gen: c11_pairs, exec: c11_exec },
            Family { name: "triples", what: "both groupings of all triples of small types", gen: c11_triples, exec: c11_exec },
            Family { name: "deep", what: "types nested to depth 20 (60) in 6 patterns that differ at each one level", gen: c11_deep, exec: c11_deep_exec },
            Family { name: "wide", what: "tuple types of every width to 12 (30) that differ at each position, and in length; also around powers of two to 1025 (4097)", gen: c11_wide, exec: c11_wide_exec },
            Family { name: "values", what: "the reported type of all values of up to 5 (6) nodes, constructed and loaded", gen: c11_values, exec: c11_value },
        ],
    }
}

// ---------------------------------------------------------------- C19

fn c19_set(c: bool) -> Vec<MV> {
    let leaves = vec![MV::int(1), fr(1, 1), MV::str("1"), MV::Null];
    let mut v: Vec<MV> = by_size(&leaves, if c { 4 } else { 3 }, &["a", "b"], true, 2).into_iter().flatten().collect();
    v.extend(many_leaves());
    for t in C19_EXTRA {
        v.push(eval_text(&format!("x:{}", t), None).res.unwrap().own("x").unwrap().clone());
    }
    v
}
const C19_EXTRA: &[&str] = &[
    "[[] [1]]", "[[1] []]", "[[] []]", "[[]]", "([] [1])", "([1] [])", "[1 2 3]", "[1 3 2]", "[1 2]", "[1 2 4]", "(1 2 3)", "(3 2 1)", "{a:1 b:2}", "{b:2 a:1}", "{a:2 b:1}", "{a:1 b:2 c:3}", "{a:1 c:2}",
    "{^:{a:1} b:2}", "{^:{b:2} a:1}", "{^:{a:1}}", "{^:{a:2}}", "{^:{} a:1}", "{^:{^:{}}}", "{^:{^:{a:1}}}", "{^:{^:{a:1} b:1}}", "{^:{^:{b:1} a:1}}", "{^:{a:1} a:1}", "{^:{a:1} a:2}", "{^:{a:2} a:1}", "[{^:{a:1}}]", "[{^:{a:2}}]", "[{a:1}]",
    "[1]+[]", "[]+[1]", "[[]]+[[1]]", "[[1]]+[[]]", "1/2+1/2", "2/2", "4/4*2", "[1.0]", "[\"\"]", "(())", "([])", "({})", "[()]", "[{}]", "[[[]]]", "{a:{a:{a:1}}}", "{a:{a:{a:2}}}", "{a:{a:{b:1}}}", "[(1 [2 3]) (1 [2 4])]", "[(1 [2 3]) (1 [2 3])]",
];
thread_local! {
    static C19Q: (Vec<MV>, Vec<Value>, Vec<Value>) = c19_vals(false);
    static C19T: (Vec<MV>, Vec<Value>, Vec<Value>) = c19_vals(true);
}
fn c19_vals(th: bool) -> (Vec<MV>, Vec<Value>, Vec<Value>) {
    let m = c19_set(th);
    let a: Vec<Value> = m.iter().map(build).collect();
    // A second, independently made set: loaded where loading gives that value.
    let b = m
        .iter()
        .map(|v| match Obj::from_str(&format!("x:{}", lit(v))).ok().and_then(|o| o.get("x")) {
            Some(l) if Cmp::plain().val(&l, v).is_ok() => l,
            _ => build(v),
        })
        .collect();
    (m, a, b)
}
fn eq_all(x: &Value, y: &Value, want: bool, what: &str) -> Res {
    let bad = |how: &str| Err(format!("{}: {} compared with {} ({}) should give {}", what, x, y, how, want));
    if (x == y) != want {
        return bad("as values");
    }
    if (x != y) == want {
        return bad("as values, !=");
    }
    macro_rules! native {
        ($n:expr) => {{
            if (x == $n) != want {
                return bad("value == native");
            }
            if ($n == x) != want {
                return bad("native == value");
            }
        }};
    }
    match y {
        Value::Null => (),
        Value::Bool(b) => native!(b),
        Value::Int(b) => native!(b),
        Value::Frac(b) => native!(b),
        Value::Str(b) => {
            native!(b);
            let s: &str = b;
            if (*x == s) != want || (s == *x) != want {
                return bad("&str");
            }
        }
        Value::Arr(b) => {
            native!(b);
            if let Value::Arr(a) = x {
                if (a == b) != want {
                    return bad("as arrays");
                }
            }
        }
        Value::Tup(b) => {
            native!(b);
            if let Value::Tup(a) = x {
                if (a == b) != want {
                    return bad("as tuples");
                }
            }
        }
        Value::Obj(b) => {
            native!(b);
            if let Value::Obj(a) = x {
                if (a == b) != want {
                    return bad("as objects");
                }
            }
        }
    }
    Ok(())
}
fn c19_pairs_exec(t: &str) -> CaseRes {
    let f = |d: &(Vec<MV>, Vec<Value>, Vec<Value>)| {
        let i: usize = t[1..].parse().unwrap();
        let (m, a, b) = d;
        let mut h = H::new();
        for j in 0..m.len() {
            let want = meq(&m[i], &m[j]);
            h.b(want as u8);
            eq_all(&a[i], &a[j], want, "both constructed")?;
            eq_all(&a[i], &b[j], want, "constructed and loaded")?;
            eq_all(&b[i], &a[j], want, "loaded and constructed")?;
        }
        // Clones and rewrapped values.
        let c = a[i].clone();
        eq_all(&c, &a[i], true, "clone")?;
        let l = MV::tup(vec![m[i].clone(), m[i].clone()]);
        let shared = Value::Tup(Tup::from_values(vec![a[i].clone(), a[i].clone()]));
        let copied = Value::Tup(Tup::from_values(vec![a[i].clone(), b[i].clone()]));
        eq_all(&shared, &copied, true, "shared and copied elements")?;
        eq_all(&copied, &build(&l), true, "copied elements and fresh ones")?;
        Ok(Done { state: h.0, alive: true, steps: m.len() as u64, runs: 3 * m.len() as u64, skipped: false })
    };
    if &t[..1] == "t" {
        C19T.with(f)
    } else {
        C19Q.with(f)
    }
}
fn c19_pairs(c: &mut Ctx) {
    let (n, p) = if c.thorough() { (C19T.with(|d| d.0.len()), "t") } else { (C19Q.with(|d| d.0.len()), "q") };
    for i in 0..n {
        c.case(&format!("{}{}", p, i));
    }
}
fn c19_ints(c: &mut Ctx) {
    for k in 0..70 {
        for d in -3i64..=3 {
            c.case(&format!("{} {}", k, d));
        }
    }
}
fn c19_ints_exec(t: &str) -> CaseRes {
    use num_bigint::BigInt;
    let f: Vec<i64> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let mut p = BigInt::from(1);
    for _ in 0..f[0] {
        p = p * BigInt::from(2);
    }
    let x: BigInt = p + BigInt::from(f[1]);
    let mut runs = 0;
    for x in vec![x.clone(), neg(&x)] {
        let v = Value::Int(x.clone());
        let fv = Value::Frac(num_rational::BigRational::from_integer(x.clone()));
        let sv = Value::Str(x.to_string());
        macro_rules! ty {
            ($t:ty) => {
                for n in [<$t>::min_value(), <$t>::max_value(), 0 as $t, 1 as $t, (0 as $t).wrapping_sub(1), x.to_string().parse::<$t>().unwrap_or(7), x.to_bytes_le().1.iter().take(8).enumerate().fold(0 as $t, |a, (i, b)| if i < std::mem::size_of::<$t>() { a | ((*b as $t) << (8 * i)) } else { a })].iter() {
                    let want = BigInt::from(*n) == x;
                    runs += 4;
                    if (v == *n) != want || (*n == v) != want || (v != *n) == want {
                        return Err(format!("{} compared with {}{} should give {}", x, n, stringify!($t), want));
                    }
                    if (v == Value::from(*n)) != want {
                        return Err(format!("{} compared with the value {} should give {}", x, n, want));
                    }
                    if fv == *n || *n == fv || sv == *n || *n == sv || Value::Null == *n || Value::Bool(true) == *n {
                        return Err(format!("a value that is no integer equals {}", n));
                    }
                    let back = Value::from(*n);
                    match back {
                        Value::Int(ref b) if *b == BigInt::from(*n) => (),
                        _ => return Err(format!("{}{} converts to {:?}", n, stringify!($t), back)),
                    }
                }
            };
        }
        ty!(u8);
        ty!(u16);
        ty!(u32);
        ty!(u64);
        ty!(usize);
        ty!(i8);
        ty!(i16);
        ty!(i32);
        ty!(i64);
        if v == fv || fv == v || v == sv {
            return Err("values of different kinds are equal".into());
        }
    }
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, alive: true, steps: 1, runs, skipped: false })
}
fn c19_strs(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c19_strs_exec(t: &str) -> CaseRes {
    let v = Value::from(t);
    let w = Value::from(format!("{}x", t));
    let a = Value::from("a");
    let up: String = t.to_uppercase();
    let s: &str = &up;
    if v != t || t != v || v == w || w == v || (v == a) != (t == "a") || (v == s) != (s == t) || (Value::from(s) == v) != (s == t) {
        return Err("string comparison is not by characters".into());
    }
    Ok(Done::state(t.chars().next().unwrap() as u64))
}
/// Long containers that differ at one place only; long parent chains that differ at one place.
fn c19_long(c: &mut Ctx) {
    for n in 1..=c.pick(60, 300) {
        for i in 0..n {
            c.case(&format!("{} {}", n, i));
        }
    }
    for n in crate::sizes::sizes(c) {
        for i in crate::sizes::places(n) {
            c.case(&format!("{} {}", n, i));
        }
    }
}
fn c19_long_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, i) = (f[0], f[1]);
    let ints = |odd: i64| (0..n).map(|k| Value::from(if k == i { odd } else { k as i64 })).collect::<Vec<Value>>();
    let (a, b) = (ints(i as i64), ints(-1));
    let arr = |v: &Vec<Value>| Value::Arr(Arr::from_values(v.clone()).unwrap());
    let tup = |v: &Vec<Value>| Value::Tup(Tup::from_values(v.clone()));
    let obj = |v: &Vec<Value>| Value::Obj(Obj::from_pairs(v.iter().enumerate().map(|(k, v)| Pair(format!("f{}", k), v.clone())).collect(), None).unwrap());
    let names = |odd: &str| Value::Obj(Obj::from_pairs((0..n).map(|k| Pair(if k == i { odd.to_string() } else { format!("f{}", k) }, 1.into())).collect(), None).unwrap());
    let chain = |odd: i64| {
        let mut p = None;
        // Long chains are cut short about the odd place: they are compared and dropped by recursion.
        let from = if n <= 4100 { 0 } else { i.saturating_sub(2000) };
        for k in from..n.min(from + 4100) {
            p = Some(Obj::from_pairs(vec![Pair("v".into(), Value::from(if k == i { odd } else { k as i64 }))], p).unwrap());
        }
        Value::Obj(p.unwrap())
    };
    for (x, y, z) in vec![(arr(&a), arr(&a), arr(&b)), (tup(&a), tup(&a), tup(&b)), (obj(&a), obj(&a), obj(&b)), (names(&format!("f{}", i)), names(&format!("f{}", i)), names("g")), (chain(i as i64), chain(i as i64), chain(-1))] {
        eq_all(&x, &y, true, "equal")?;
        eq_all(&x, &z, false, "different at one place")?;
        eq_all(&z, &y, false, "different at one place")?;
    }
    // Strings, names and numbers that differ at one place.
    let st = |odd: &str| {
        let mut s = "x".repeat(i);
        s.push_str(odd);
        s.push_str(&"y".repeat(n - 1 - i));
        s
    };
    for (p, q) in [("a", "b"), ("a", "A"), ("é", "è"), ("a", "\0"), ("a", ""), ("\u{fe}", "\u{1fe}")].iter() {
        let (s, z) = (st(p), st(q));
        let name = |s: &str| Value::Obj(Obj::from_pairs_unchecked(vec![Pair(s.into(), Value::Null)], None));
        for (x, y, z) in vec![(Value::from(&s[..]), Value::from(s.clone()), Value::from(z.clone())), (name(&s), name(&s), name(&z))] {
            eq_all(&x, &y, true, "equal")?;
            eq_all(&x, &z, false, "different at one character")?;
            eq_all(&z, &x, false, "different at one character")?;
        }
    }
    let one = num_bigint::BigInt::from(1);
    let (x, y) = (one.clone() << n, (one.clone() << n) + (one.clone() << i));
    let fr = |x: &num_bigint::BigInt| Value::Frac(num_rational::BigRational::new_raw(x.clone(), num_bigint::BigInt::from(1)));
    for (v, w, z) in vec![(Value::Int(x.clone()), Value::Int(x.clone()), Value::Int(y.clone())), (fr(&x), fr(&x), fr(&y)), (Value::Int(-x.clone()), Value::Int(-x.clone()), Value::Int(x.clone()))] {
        eq_all(&v, &w, true, "equal")?;
        eq_all(&v, &z, false, "different in one bit")?;
        eq_all(&z, &v, false, "different in one bit")?;
    }
    // A prefix is not equal.
    let (x, y) = (arr(&a), arr(&a[..i].to_vec()));
    eq_all(&x, &y, false, "array prefix")?;
    eq_all(&y, &x, false, "array prefix")?;
    let (x, y) = (tup(&a), tup(&a[..i].to_vec()));
    eq_all(&x, &y, false, "tuple prefix")?;
    eq_all(&y, &x, false, "tuple prefix")?;
    let (x, y) = (obj(&a), obj(&a[..i].to_vec()));
    eq_all(&x, &y, false, "object prefix")?;
    eq_all(&y, &x, false, "object prefix")?;
    Ok(Done { state: (n * 1_000_000 + i) as u64, alive: true, steps: 1, runs: 66, skipped: false })
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        assumptions: vec!["arrays made with the unchecked constructor under a wrong type are outside the property"],
        extra: None,
        hang_s: 60,
        families: vec![
            Family { name: "pairs", what: "all ordered pairs of the values of up to 3 (4) nodes over confusable leaves, 66 leaves and 50 special values, in three combinations of constructed and loaded, as values and natives in both directions; agreement with the model's equality on all pairs implies the equivalence laws", gen: c19_pairs, exec: c19_pairs_exec },
            Family { name: "ints", what: "+-(2^k+d), k<70, |d|<=3, against 9 native types at 7 values each", gen: c19_ints, exec: c19_ints_exec },
            Family { name: "strings", what: "every Unicode scalar value", gen: c19_strs, exec: c19_strs_exec },
            Family { name: "long", what: "containers, parent chains, strings, names and numbers of every length to 60 (300) that differ at each one place, and prefixes; also around powers of two to 65537 (131073), and at each place around these", gen: c19_long, exec: c19_long_exec },
        ],
    }
}

// ---------------------------------------------------------------- C20

fn kind(t: &Ty) -> u8 {
    match t {
        Ty::Any => 0,
        Ty::Null => 1,
        Ty::Bool => 2,
        Ty::Int => 3,
        Ty::Frac => 4,
        Ty::Str => 5,
        Ty::Arr(_) => 6,
        Ty::Tup(_) => 7,
        Ty::Obj => 8,
    }
}
fn mismatch<T>(r: Result<T, OverError>, want: u8, actual: &Ty, what: &str) -> Res {
    match r {
        Ok(_) => Err(format!("{} succeeds on a value of type {}", what, actual.show())),
        Err(OverError::TypeMismatch(e, a)) => {
            if kind(&ty_of(&e)) != want || ty_of(&a) != *actual {
                Err(format!("{} on a value of type {} reports expected {}, actual {}", what, actual.show(), ty_of(&e).show(), ty_of(&a).show()))
            } else {
                Ok(())
            }
        }
        Err(e) => Err(format!("{} on a value of type {} gives the error {:?}", what, actual.show(), e)),
    }
}
fn c20_value(v: &Value, m: &MV) -> Res {
    let t = m.ty();
    macro_rules! get {
        ($f:ident, $k:expr, $pat:pat => $ok:expr) => {{
            let r = v.$f();
            match (m, &r) {
                ($pat, Ok(x)) => {
                    let f: &dyn Fn(_) -> bool = &$ok;
                    if !f(x) {
                        return Err(format!("{} returns something else", stringify!($f)));
                    }
                }
                _ => {
                    let ok = kind(&t) == $k || ($k == 4 && kind(&t) == 3);
                    if ok {
                        return Err(format!("{} fails on a value of type {}: {:?}", stringify!($f), t.show(), r.err()));
                    }
                    mismatch(r, $k, &t, stringify!($f))?
                }
            }
        }};
    }
    get!(get_bool, 2, MV::Bool(b) => |x: &bool| x == b);
    get!(get_int, 3, MV::Int(b) => |x: &num_bigint::BigInt| x == b);
    get!(get_str, 5, MV::Str(b) => |x: &String| **x == **b);
    get!(get_arr, 6, MV::Arr(_) => |x: &Arr| Cmp::typed().val(&Value::Arr(x.clone()), m).is_ok() && if let Value::Arr(a) = v { a.ptr_eq(x) } else { false });
    get!(get_tup, 7, MV::Tup(_) => |x: &Tup| Cmp::typed().val(&Value::Tup(x.clone()), m).is_ok() && if let Value::Tup(a) = v { a.ptr_eq(x) } else { false });
    get!(get_obj, 8, MV::Obj(_) => |x: &Obj| Cmp::typed().val(&Value::Obj(x.clone()), m).is_ok() && if let Value::Obj(a) = v { a.ptr_eq(x) } else { false });
    let fr = v.get_frac();
    match (m, &fr) {
        (MV::Frac(n, d), Ok(x)) if x.numer() == n && x.denom() == d => (),
        (MV::Int(n), Ok(x)) if x.numer() == n && *x.denom() == num_bigint::BigInt::from(1) => (),
        (MV::Frac(..), _) | (MV::Int(_), _) => return Err(format!("get_frac gives {:?}", fr)),
        _ => mismatch(fr, 4, &t, "get_frac")?,
    }
    if v.is_null() != (kind(&t) == 1) {
        return Err("is_null is wrong".into());
    }
    // Elements.
    let els: Option<(&Vec<MV>, Box<dyn Fn(usize) -> Result<Value, OverError>>, bool)> = match (v, m) {
        (Value::Arr(a), MV::Arr(b)) => {
            let a = a.clone();
            Some((&b.vals, Box::new(move |i| a.get(i)), true))
        }
        (Value::Tup(a), MV::Tup(b)) => {
            let a = a.clone();
            Some((&b.vals, Box::new(move |i| a.get(i)), false))
        }
        _ => None,
    };
    if let Some((vals, get, is_arr)) = els {
        let n = vals.len();
        for i in (0..n + 3).chain(vec![255, 256, 65536, 1 << 32, usize::max_value(), usize::max_value() - 1, (1 << 63)]) {
            let r = get(i);
            if i < n {
                match r {
                    Ok(x) => Cmp::typed().val(&x, &vals[i]).map_err(|e| format!("get({}): {}", i, e))?,
                    Err(e) => return Err(format!("get({}) of {} elements fails: {}", i, n, e)),
                }
            } else {
                match r {
                    Err(OverError::ArrOutOfBounds(k)) if is_arr && k == i => (),
                    Err(OverError::TupOutOfBounds(k)) if !is_arr && k == i => (),
                    r => return Err(format!("get({}) of {} elements gives {:?}", i, n, r)),
                }
            }
        }
    }
    Ok(())
}
fn c20_obj(o: &Obj, m: &Rc<MObj>, names: &[&str]) -> Res {
    for f in names {
        match lookup(m, f) {
            Some((mv, _)) => {
                let t = mv.ty();
                macro_rules! get {
                    ($f:ident, $k:expr) => {
                        let r = o.$f(f);
                        let ok = kind(&t) == $k || ($k == 4 && kind(&t) == 3);
                        match r {
                            Ok(x) if ok => {
                                let v: Value = x.into();
                                let want = match mv {
                                    MV::Int(i) if $k == 4 => MV::Frac(i.clone(), 1.into()),
                                    m => m.clone(),
                                };
                                Cmp::typed().val(&v, &want).map_err(|e| format!("{}({}): {}", stringify!($f), f, e))?
                            }
                            r if !ok => mismatch(r, $k, &t, &format!("{}({:?})", stringify!($f), f))?,
                            r => return Err(format!("{}({:?}) fails on type {}: {:?}", stringify!($f), f, t.show(), r.err())),
                        }
                    };
                }
                get!(get_bool, 2);
                get!(get_int, 3);
                get!(get_frac, 4);
                get!(get_str, 5);
                get!(get_arr, 6);
                get!(get_tup, 7);
                get!(get_obj, 8);
            }
            None => {
                macro_rules! miss {
                    ($f:ident) => {
                        match o.$f(f) {
                            Err(OverError::FieldNotFound(n)) if n == *f => (),
                            Err(e) => return Err(format!("{}({:?}) of a missing field gives {:?}", stringify!($f), f, e)),
                            Ok(_) => return Err(format!("{}({:?}) finds a missing field", stringify!($f), f)),
                        }
                    };
                }
                miss!(get_bool);
                miss!(get_int);
                miss!(get_frac);
                miss!(get_str);
                miss!(get_arr);
                miss!(get_tup);
                miss!(get_obj);
            }
        }
    }
    Ok(())
}
const C20_NAMES: &[&str] = &["x", "y", "z", "w", "a", "X", "", "^", "x ", "xx", "null"];
fn c20_exec(t: &str) -> CaseRes {
    let out = eval_text(t, None);
    let m = match (out.res, out.quirk) {
        (Ok(m), false) => m,
        _ => return Ok(Done::skip()),
    };
    let mut objs = vec![build_obj(&m)];
    if let Ok(o) = Obj::from_str(t) {
        if Cmp::typed().obj(&o, &m).is_ok() {
            objs.push(o);
        }
    }
    for o in &objs {
        c20_obj(o, &m, C20_NAMES)?;
        let mut cur = (o.clone(), m.clone());
        loop {
            for (i, (n, mv)) in cur.1.pairs.iter().enumerate() {
                c20_value(&cur.0.pairs_ref()[i].1, mv).map_err(|e| format!("field {}: {}", n, e))?;
                if let (Value::Obj(o), MV::Obj(m)) = (&cur.0.pairs_ref()[i].1, mv) {
                    c20_obj(o, m, C20_NAMES)?;
                }
            }
            match (cur.0.get_parent(), cur.1.parent.clone()) {
                (Some(a), Some(b)) => cur = (a, b),
                _ => break,
            }
        }
    }
    let mut h = H::new();
    h.o(&m);
    Ok(Done { state: h.0, alive: true, steps: 8, runs: objs.len() as u64, skipped: false })
}
fn c20_values(c: &mut Ctx) {
    for v in many_leaves() {
        c.case(&format!("x:{}", lit(&v)));
        c.case(&format!("^:{{x:{}}} y:1", lit(&v)));
        c.case(&format!("^:{{x:{}}} x:[\"s\"]", lit(&v)));
        c.case(&format!("^:{{x:[\"s\"] z:null}} x:{}", lit(&v)));
        c.case(&format!("^:{{^:{{x:{}}} y:2}} z:()", lit(&v)));
        c.case(&format!("x:({}) y:[{}] z:{{x:{}}}", lit(&v), lit(&v), lit(&v)));
    }
    let k = c.pick(4, 5);
    for n in by_size(&[MV::int(1), fr(1, 2), MV::str("s"), MV::Null, MV::Bool(true)], k, &["x", "y"], true, 2) {
        for v in n {
            if !c.mine() {
                continue;
            }
            c.run(&format!("x:{}", lit(&v)), true);
            if let MV::Obj(_) = v {
                c.run(&format!("^:{} w:1", lit(&v)), true);
            }
        }
    }
}
fn c20_wide(c: &mut Ctx) {
    let top = c.pick(4097, 16_385);
    for n in (0..c.pick(200, 1000)).chain(crate::sizes::sizes(c).into_iter().filter(|n| *n <= top)) {
        let e: Vec<String> = (0..n).map(|i| format!("{}", i)).collect();
        c.case(&format!("x:[{}] y:({}) z:[{}]", e.join(" "), e.join(" "), (0..n).map(|i| format!("\"{}\"", i)).collect::<Vec<_>>().join(" ")));
    }
    for n in 1..c.pick(40, 150) {
        // Fields of an ancestor n generations up, and of the same name nearer.
        let mut s = String::from("{x:1 y:\"far\"}");
        for k in 0..n {
            s = format!("{{^:{} f{}:{}}}", s, k, k);
            if k == n / 2 {
                s = format!("{{^:{} y:[1]}}", s);
            }
        }
        if n < 60 {
            c.case(&format!("z:{} ^:z", s));
        }
    }
}
fn c20_conv(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c20_conv_exec(t: &str) -> CaseRes {
    let s = format!("{}{}x", t, t);
    let (a, b): (Value, Value) = ((&s[..]).into(), s.clone().into());
    if a.get_str().as_ref() != Ok(&s) || b.get_str().as_ref() != Ok(&s) {
        return Err("a string is changed by conversion".into());
    }
    let n = t.chars().next().unwrap() as u32;
    let i: Value = n.into();
    if i.get_int() != Ok(n.into()) {
        return Err("an integer is changed by conversion".into());
    }
    let f = num_rational::BigRational::new((n as i64 - 70000).into(), 7.into());
    let v: Value = f.clone().into();
    if v.get_frac() != Ok(f) {
        return Err("a fraction is changed by conversion".into());
    }
    for b in &[true, false] {
        if Value::from(*b).get_bool() != Ok(*b) {
            return Err("a boolean is changed by conversion".into());
        }
    }
    let tup: Tup = vec![a.clone(), i.clone(), v.clone()].into();
    let tv: Value = tup.clone().into();
    if tup.len() != 3 || tv.get_tup().map(|x| x.ptr_eq(&tup)) != Ok(true) || tup.get(0) != Ok(a.clone()) || tup.get(1) != Ok(i) || tup.get(2) != Ok(v) {
        return Err("a tuple is changed by conversion".into());
    }
    Ok(Done::state(n as u64))
}

/// "type k": the native integers of one type near 2^k (all of them for the 8 and 16 bit types).
fn c20_native_exec(t: &str) -> CaseRes {
    use num_bigint::BigInt;
    #[allow(unused_imports)]
    use over::{arr, frac, int, obj, try_arr, try_obj, tup};
    let (ty, k) = t.split_at(t.find(' ').unwrap());
    let k: i32 = k[1..].parse().unwrap();
    let mut runs = 0;
    macro_rules! ty {
        ($t:ty) => {{
            let mut ns: Vec<$t> = vec![];
            let (lo, hi) = (<$t>::min_value() as i128, <$t>::max_value() as i128);
            let mut put = |n: i128| if n >= lo && n <= hi { ns.push(n as $t) };
            if k < 0 {
                // A block of 256 of a small type.
                (0..256).for_each(|i| put((-k as i128 - 129) * 256 + i));
            } else {
                for d in -3..=3 {
                    put((1i128 << k) + d);
                    put(-(1i128 << k) + d);
                    put(lo + (1i128 << k) + d);
                    put(hi - (1i128 << k) + d);
                }
            }
            for n in ns {
                let want: BigInt = n.to_string().parse().unwrap();
                let text = n.to_string();
                let bad = |what: &str, is: &dyn std::fmt::Debug| Err(format!("{}{} by {} becomes {:?}", n, ty, what, is));
                let v = Value::from(n);
                let w: Value = n.into();
                for (what, x) in [("conversion", &v), ("into", &w)].iter() {
                    if x.get_int() != Ok(want.clone()) || x.to_string() != text || !x.get_type().is(&Type::Int) {
                        return bad(what, x);
                    }
                    match x.get_frac() {
                        Ok(ref f) if *f.numer() == want && *f.denom() == BigInt::from(1) => (),
                        f => return bad("get_frac", &f),
                    }
                    if !(**x == n) || !(n == **x) || **x != v {
                        return Err(format!("the value of {}{} does not equal it", n, ty));
                    }
                }
                let b: BigInt = int!(n);
                if b != want {
                    return bad("int!", &b);
                }
                let a = arr![n, n];
                let u = tup!(n, "s");
                let o = obj! { "f" => n };
                for (what, x) in [("arr!", a.get(1)), ("tup!", u.get(0)), ("obj!", o.get("f").ok_or(OverError::NoParentFound))].iter() {
                    match x {
                        Ok(x) if x.get_int() == Ok(want.clone()) => (),
                        x => return bad(what, x),
                    }
                }
                if o.get_int("f") != Ok(want.clone()) || o.get_frac("f").map(|f| f.numer().clone()) != Ok(want.clone()) || o.write_to_string() != format!("f: {}\n", text) {
                    return bad("a field", &o);
                }
                if n != 0 as $t {
                    let f: num_rational::BigRational = frac!(1u8, n);
                    if f.clone() * num_rational::BigRational::from_integer(want.clone()) != num_rational::BigRational::from_integer(1.into()) {
                        return bad("frac!", &f);
                    }
                    let v = Value::from(f.clone());
                    if v.get_frac() != Ok(f.clone()) || !v.get_type().is(&Type::Frac) || v.get_int().is_ok() {
                        return bad("a fraction's conversion", &v);
                    }
                }
                runs += 8;
            }
        }};
    }
    match ty {
        "u8" => ty!(u8),
        "u16" => ty!(u16),
        "u32" => ty!(u32),
        "u64" => ty!(u64),
        "usize" => ty!(usize),
        "i8" => ty!(i8),
        "i16" => ty!(i16),
        "i32" => ty!(i32),
        "i64" => ty!(i64),
        _ => panic!("no type {:?}", t),
    }
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, alive: true, steps: runs, runs, skipped: false })
}
fn c20_native(c: &mut Ctx) {
    for t in &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"] {
        for k in 0..=64 {
            c.case(&format!("{} {}", t, k));
        }
        if t.ends_with('8') || t.ends_with("16") {
            for b in 1..=386 {
                c.case(&format!("{} -{}", t, b));
            }
        }
    }
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "values", what: "66 leaves and all values of up to 4 (5) nodes as own field, inherited field and element, x every getter and every index, present and missing names", gen: c20_values, exec: c20_exec },
            Family { name: "wide", what: "containers of every length to 200 (1000), and around powers of two to 4097 (16385), at every index; fields inherited over up to 40 (60) generations", gen: c20_wide, exec: c20_exec },
            Family { name: "natives", what: "9 native integer types: every value of up to 16 bits, values within 3 of +-2^k, min+2^k, max-2^k for every k to 64, by conversion and by every macro, as value, element, field and denominator", gen: c20_native, exec: c20_native_exec },
            Family { name: "conversions", what: "conversions of strings and numbers for every Unicode scalar value", gen: c20_conv, exec: c20_conv_exec },
        ],
    }
}

// ---------------------------------------------------------------- C23

fn c23_name(n: &str) -> Res {
    let want = valid_name(n);
    if Obj::is_valid_field(n) != want {
        return Err(format!("is_valid_field({:?}) is {}", n, !want));
    }
    match Obj::from_pairs(vec![Pair(n.into(), 1.into())], None) {
        Ok(o) => {
            if !want {
                return Err(format!("from_pairs accepts the field name {:?}", n));
            }
            if o.get(n) != Some(1.into()) || !o.contains(n) || o.len() != 1 {
                return Err(format!("field {:?} is not found under its name", n));
            }
        }
        Err(OverError::InvalidFieldName(ref m)) if m == n => {
            if want {
                return Err(format!("from_pairs rejects the valid field name {:?}", n));
            }
        }
        Err(e) => return Err(format!("from_pairs fails on the field name {:?} with {:?}", n, e)),
    }
    if want {
        use over::{obj, try_obj};
        let o = obj! { n => 1 };
        if o.get(n) != Some(1.into()) {
            return Err(format!("field {:?} made with obj! is not found", n));
        }
    }
    // The reader.
    let readable = want && !reserved(n);
    let exact = |t: &str| -> Option<Obj> {
        match Obj::from_str(t) {
            Ok(o) if o.len() == 1 && o.pairs_ref()[0].0 == n => Some(o),
            _ => None,
        }
    };
    match exact(&format!("{}:5", n)) {
        Some(o) => {
            if !readable {
                return Err(format!("the reader accepts the field name {:?}", n));
            }
            if o.get(n) != Some(5.into()) || !o.contains(n) {
                return Err(format!("field {:?} read from a text is not found under its name", n));
            }
        }
        None => {
            if readable {
                return Err(format!("the reader does not accept the field name {:?}", n));
            }
        }
    }
    if readable {
        let o = Obj::from_str(&format!("z9:{{{}:5 r:{}}} q9:z9.{}", n, n, n)).map_err(|e| if n == "r" { String::new() } else { format!("field {:?} cannot be referenced: {}", n, e) });
        match o {
            Err(e) if e.is_empty() => (),
            Err(e) => return Err(e),
            Ok(o) => {
                let i = o.get_obj("z9").map_err(|e| e.to_string())?;
                if i.get("r") != Some(5.into()) || o.get("q9") != Some(5.into()) {
                    return Err(format!("a reference to the field {:?} yields something else", n));
                }
            }
        }
    }
    // Globals: the same rule (keywords are no matter after @).
    let g = Obj::from_str(&format!("@{}:5 r:@{}", n, n));
    if want && !reserved(n) {
        match g {
            Ok(o) if o.len() == 1 && o.get("r") == Some(5.into()) => (),
            r => return Err(format!("the reader does not accept the global name {:?}: {:?}", n, r)),
        }
    } else if !want {
        if let Ok(o) = g {
            if o.len() == 1 && o.get("r") == Some(5.into()) && !n.contains(|c: char| c.is_whitespace() || c == '#') {
                return Err(format!("the reader accepts the global name {:?}", n));
            }
        }
    }
    Ok(())
}
fn c23_exec(t: &str) -> CaseRes {
    c23_name(t)?;
    let mut h = H::new();
    h.s(t);
    h.0 = h.0 % 1_000_003;
    Ok(Done { state: h.0, alive: true, steps: 1, runs: 5, skipped: false })
}
fn c23_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c23_unicode_exec(t: &str) -> CaseRes {
    let ch = t.chars().next().unwrap();
    for n in &[format!("{}", ch), format!("a{}", ch), format!("{}a", ch), format!("_{}_", ch), format!("é{}", ch), format!("a1{}b", ch)] {
        c23_name(n)?;
    }
    if ch != '^' {
        let first = ch.is_alphabetic() || ch == '_';
        if Obj::is_valid_field_char(ch, true) != first || Obj::is_valid_field_char(ch, false) != (first || ch.is_ascii_digit()) {
            return Err(format!("is_valid_field_char is wrong for {:?}", ch));
        }
    }
    Ok(Done { state: ch as u64, alive: true, steps: 6, runs: 32, skipped: false })
}
fn c23_short(c: &mut Ctx) {
    let abc = ["a", "Z", "_", "0", "9", "é", "中", "ª", "٣", "²", "\u{301}", "^", "@", "-", ".", ":", " ", "$", "\"", "+", "#", "\n", "Ⅷ", "\u{200d}", "𝒳", "😀"];
    let max = c.pick(3, 4);
    let mut last = vec![String::new()];
    c.case("");
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in &abc {
                let t = format!("{}{}", s, a);
                if c.mine() {
                    c.run(&t, true);
                }
                next.push(t);
            }
        }
        last = next;
    }
}
fn c23_words(c: &mut Ctx) {
    let words = ["null", "true", "false", "Obj", "Str", "Arr", "Tup", "Int", "Frac", "Any", "Null", "obj", "if", "let", "_", "__"];
    for w in &words {
        for p in &["", "_", "a", "@", "^", "1", "é", " "] {
            for s in &["", "_", "a", "1", "^", "é", "-", "."] {
                c.case(&format!("{}{}{}", p, w, s));
            }
        }
        let up = w.to_uppercase();
        c.case(&up);
    }
    for n in 1..c.pick(200, 2000) {
        c.case(&"x".repeat(n));
        c.case(&format!("{}1", "é".repeat(n)));
        for bad in &["-", "^", "٣", " "] {
            c.case(&format!("{}{}", "x".repeat(n), bad));
            c.case(&format!("{}{}y", "x".repeat(n), bad));
        }
    }
}
/// Several pairs: one bad name at each position is found.
fn c23_pairs_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, i) = (f[0], f[1]);
    for bad in &["1a", "", "^", "a-b", "é ", "a.", "^x"] {
        for parent in vec![None, Some(Obj::empty())] {
            let pairs = (0..n).map(|k| Pair(if k == i { bad.to_string() } else { format!("f{}", k) }, 1.into())).collect();
            match Obj::from_pairs(pairs, parent) {
                Err(OverError::InvalidFieldName(ref m)) if m == bad => (),
                r => return Err(format!("{} pairs with the name {:?} at {}: {:?}", n, bad, i, r.map(|o| o.to_string()))),
            }
        }
    }
    Ok(Done::state((n * 1000 + i) as u64))
}
fn c23_pairs(c: &mut Ctx) {
    for n in 1..c.pick(40, 120) {
        for i in 0..n {
            c.case(&format!("{} {}", n, i));
        }
    }
    let top = c.pick(2049, 16_385);
    for n in crate::sizes::sizes(c) {
        if n <= top {
            for i in crate::sizes::places(n) {
                c.case(&format!("{} {}", n, i));
            }
        }
    }
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        level: "model_checking",
        assumptions: vec!["Rust's char::is_alphabetic is the definition of a letter"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "unicode", what: "every Unicode scalar value as a name, first, middle and last character; validity tests, constructor, macro, reader, references, globals", gen: c23_unicode, exec: c23_unicode_exec },
            Family { name: "short", what: "all names up to length 3 (4) over 26 characters of every class", gen: c23_short, exec: c23_exec },
            Family { name: "words", what: "keywords with 8 prefixes and 8 suffixes; names of every length to 200 (2000), with a bad character last or last but one", gen: c23_words, exec: c23_exec },
            Family { name: "pairs", what: "a bad name at every position among up to 40 (120) pairs; around powers of two to 2049 (16385), at places around these", gen: c23_pairs, exec: c23_pairs_exec },
        ],
    }
}

// ---------------------------------------------------------------- C24

fn c24_check_obj(o: &Obj, names: &[String], vals: &[MV]) -> Res {
    let n = names.len();
    if o.len() != n || o.is_empty() != (n == 0) {
        return Err(format!("len {} and is_empty {} for {} fields", o.len(), o.is_empty(), n));
    }
    let p = o.pairs_ref();
    if p.len() != n || o.iter().count() != n {
        return Err("raw list or iterator has another length".into());
    }
    for (i, x) in o.iter().enumerate() {
        if x.0 != names[i] || p[i].0 != names[i] {
            return Err(format!("field {} is {:?} instead of {:?}", i, x.0, names[i]));
        }
        Cmp::plain().val(&x.1, &vals[i]).map_err(|e| format!("iter, field {}: {}", names[i], e))?;
        Cmp::plain().val(&p[i].1, &vals[i]).map_err(|e| format!("pairs_ref, field {}: {}", names[i], e))?;
    }
    let mut seen = vec![];
    o.with_each(|f, v| seen.push((f.clone(), v.clone())));
    if seen.len() != n {
        return Err("the visiting function sees another number of fields".into());
    }
    for i in 0..n {
        if seen[i].0 != names[i] {
            return Err("the visiting function sees another order".into());
        }
        Cmp::plain().val(&seen[i].1, &vals[i]).map_err(|e| format!("with_each: {}", e))?;
        match o.get(&names[i]) {
            Some(v) => Cmp::plain().val(&v, &vals[i]).map_err(|e| format!("get({}): {}", names[i], e))?,
            None => return Err(format!("get({}) finds nothing", names[i])),
        }
        if !o.contains(&names[i]) {
            return Err(format!("contains({}) is false", names[i]));
        }
    }
    if o.contains("no_such_field") || o.get("no_such_field").is_some() {
        return Err("a field that is not there is found".into());
    }
    Ok(())
}
fn c24_seq(what: &str, vals: &[MV], len: usize, empty: bool, iter: Vec<Value>, each: Vec<Value>, raw: &[Value], get: &dyn Fn(usize) -> Result<Value, OverError>) -> Res {
    let n = vals.len();
    if len != n || empty != (n == 0) || iter.len() != n || each.len() != n || raw.len() != n {
        return Err(format!("{} of {} elements: len {}, is_empty {}, {} iterated, {} visited, {} listed", what, n, len, empty, iter.len(), each.len(), raw.len()));
    }
    for i in 0..n {
        Cmp::plain().val(&iter[i], &vals[i]).map_err(|e| format!("{} iter {}: {}", what, i, e))?;
        Cmp::plain().val(&each[i], &vals[i]).map_err(|e| format!("{} with_each {}: {}", what, i, e))?;
        Cmp::plain().val(&raw[i], &vals[i]).map_err(|e| format!("{} values_ref {}: {}", what, i, e))?;
        match get(i) {
            Ok(v) => Cmp::plain().val(&v, &vals[i]).map_err(|e| format!("{} get({}): {}", what, i, e))?,
            Err(e) => return Err(format!("{} get({}) fails: {}", what, i, e)),
        }
    }
    if get(n).is_ok() {
        return Err(format!("{} get({}) succeeds", what, n));
    }
    Ok(())
}
fn c24_check_arr(a: &Arr, vals: &[MV]) -> Res {
    let mut each = vec![];
    a.with_each(|v| each.push(v.clone()));
    c24_seq("array", vals, a.len(), a.is_empty(), a.iter().cloned().collect(), each, a.values_ref(), &|i| a.get(i))
}
fn c24_check_tup(a: &Tup, vals: &[MV]) -> Res {
    let mut each = vec![];
    a.with_each(|v| each.push(v.clone()));
    c24_seq("tuple", vals, a.len(), a.is_empty(), a.iter().cloned().collect(), each, a.values_ref(), &|i| a.get(i))
}
/// Every container in the value, in all views.
fn c24_deep(v: &Value, m: &MV) -> Res {
    match (v, m) {
        (Value::Arr(a), MV::Arr(b)) => {
            c24_check_arr(a, &b.vals)?;
            for i in 0..b.vals.len() {
                c24_deep(&a.values_ref()[i], &b.vals[i])?;
            }
        }
        (Value::Tup(a), MV::Tup(b)) => {
            c24_check_tup(a, &b.vals)?;
            for i in 0..b.vals.len() {
                c24_deep(&a.values_ref()[i], &b.vals[i])?;
            }
        }
        (Value::Obj(a), MV::Obj(b)) => c24_deep_obj(a, b)?,
        _ => Cmp::plain().val(v, m)?,
    }
    Ok(())
}
fn c24_deep_obj(a: &Obj, b: &Rc<MObj>) -> Res {
    let names: Vec<String> = b.pairs.iter().map(|p| p.0.to_string()).collect();
    let vals: Vec<MV> = b.pairs.iter().map(|p| p.1.clone()).collect();
    c24_check_obj(a, &names, &vals)?;
    for i in 0..vals.len() {
        c24_deep(&a.pairs_ref()[i].1, &vals[i])?;
    }
    match (a.get_parent(), &b.parent) {
        (Some(p), Some(q)) => c24_deep_obj(&p, q),
        (None, None) => Ok(()),
        _ => Err("parent".into()),
    }
}
pub fn c24_doc(t: &str) -> CaseRes {
    let m = eval_text(t, None);
    let alive = m.res.is_ok() || m.saw_end;
    let v = match (&m.res, m.quirk) {
        (Ok(v), false) => v,
        _ => return Ok(Done { alive, ..Done::skip() }),
    };
    c24_deep_obj(&build_obj(v), v).map_err(|e| format!("constructed: {}", e))?;
    let l = Obj::from_str(t).map_err(|e| format!("rejected: {}", e))?;
    c24_deep_obj(&l, v).map_err(|e| format!("loaded: {}", e))?;
    // The written text has the same fields in the same order.
    if odepth(v) <= 63 {
        let w = eval_text(&l.write_to_string(), None);
        match w.res {
            Ok(ref x) if oeq(x, v) => (),
            _ => return Err(format!("the written text holds other contents: {:?}", l.write_to_string().chars().take(300).collect::<String>())),
        }
    }
    let mut h = H::new();
    h.o(v);
    Ok(Done { state: h.0, alive, steps: 1, runs: 2, skipped: false })
}
/// "n kind"
fn c24_scale_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let n = f[0];
    let el = |i: usize| match f[1] {
        0 => MV::int(i as i64),
        1 => MV::str(&format!("s{}", i)),
        2 => MV::tup(vec![MV::int(i as i64)]),
        _ => MV::int((i % 2) as i64),
    };
    let vals: Vec<MV> = (0..n).map(el).collect();
    let names: Vec<String> = (0..n).map(|i| if f[1] == 1 { format!("é{}_", i) } else { format!("f{}", (i * 7919) % (n.max(1) * 10007)) }).collect();
    let rv: Vec<Value> = vals.iter().map(build).collect();
    let pairs = || names.iter().cloned().zip(rv.iter().cloned()).map(|(a, b)| Pair(a, b)).collect::<Vec<_>>();
    c24_check_arr(&Arr::from_values(rv.clone()).map_err(|e| e.to_string())?, &vals)?;
    c24_check_tup(&Tup::from_values(rv.clone()), &vals)?;
    c24_check_tup(&rv.clone().into(), &vals)?;
    let o = Obj::from_pairs(pairs(), None).map_err(|e| e.to_string())?;
    c24_check_obj(&o, &names, &vals)?;
    c24_check_obj(&Obj::from_pairs_unchecked(pairs(), None), &names, &vals)?;
    c24_check_obj(&Obj::from_pairs(pairs(), Some(o.clone())).map_err(|e| e.to_string())?, &names, &vals)?;
    let els = vals.iter().map(lit).collect::<Vec<_>>().join(" ");
    let fields = (0..n).map(|i| format!("{}:{}", names[i], lit(&vals[i]))).collect::<Vec<_>>().join("\n");
    let d = Obj::from_str(&format!("a:[{}] t:({}) o:{{{}}} c:[{}]+[]", els, els, fields, els)).map_err(|e| format!("rejected: {}", e))?;
    c24_check_arr(&d.get_arr("a").map_err(|e| e.to_string())?, &vals)?;
    c24_check_arr(&d.get_arr("c").map_err(|e| e.to_string())?, &vals)?;
    c24_check_tup(&d.get_tup("t").map_err(|e| e.to_string())?, &vals)?;
    c24_check_obj(&d.get_obj("o").map_err(|e| e.to_string())?, &names, &vals)?;
    let top = Obj::from_str(&fields).map_err(|e| format!("rejected: {}", e))?;
    c24_check_obj(&top, &names, &vals)?;
    // A sum of two parts of all (few) sizes keeps the order.
    if n <= 40 {
        for k in 0..=n {
            let (x, y) = (vals[..k].iter().map(lit).collect::<Vec<_>>().join(" "), vals[k..].iter().map(lit).collect::<Vec<_>>().join(" "));
            let d = Obj::from_str(&format!("a:[{}]+[{}]", x, y)).map_err(|e| format!("rejected: {}", e))?;
            c24_check_arr(&d.get_arr("a").map_err(|e| e.to_string())?, &vals)?;
        }
    }
    Ok(Done { state: (n * 4 + f[1]) as u64, alive: true, steps: n as u64, runs: 11, skipped: false })
}
fn c24_scale(c: &mut Ctx) {
    for n in 0..=c.pick(200, 700) {
        for k in 0..4 {
            c.case(&format!("{} {}", n, k));
        }
    }
    for n in [1023usize, 1024, 1025, 2047, 2048, 2049, 4096, 4097].iter() {
        c.case(&format!("{} 0", n));
        c.case(&format!("{} 2", n));
    }
}
/// "n i": names of n characters that differ at place i only (or not at all from the one there is).
fn c24_alike_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, i) = (f[0], f[1]);
    let mut runs = 0;
    for base in &["a", "aé", "abcdefghijklmnopqrstuvwxyz"] {
        let name = |ch: Option<char>| -> String {
            let mut s: Vec<char> = base.chars().cycle().take(n).collect();
            match ch {
                Some(x) => s[i] = x,
                None => {
                    s.pop();
                }
            }
            s.into_iter().collect()
        };
        let mut names: Vec<String> = ['_', 'q', 'Q', 'è', '\u{3b1}'].iter().map(|x| name(Some(*x))).collect();
        if n > 1 {
            names.push(name(None));
        }
        names.push(format!("{}_", name(Some('q'))));
        names.push(format!("_{}", name(Some('q'))));
        let vals: Vec<MV> = (0..names.len()).map(|k| MV::int(k as i64)).collect();
        // All of them, and each without one of the others: that one must not be found.
        for out in 0..=names.len() {
            let keep = |k: &usize| *k != out;
            let (ns, vs): (Vec<String>, Vec<MV>) = (0..names.len()).filter(keep).map(|k| (names[k].clone(), vals[k].clone())).unzip();
            let pairs = ns.iter().cloned().zip(vs.iter().map(build)).map(|(a, b)| Pair(a, b)).collect::<Vec<_>>();
            let text: String = ns.iter().zip(&vs).map(|(a, b)| format!("{}:{}\n", a, lit(b))).collect();
            let o = Obj::from_pairs(pairs, None).map_err(|e| e.to_string())?;
            let l = Obj::from_str(&text).map_err(|e| format!("rejected: {}", e))?;
            runs += 2;
            for (o, how) in &[(&o, "constructed"), (&l, "loaded")] {
                c24_check_obj(o, &ns, &vs).map_err(|e| format!("{}: {}", how, e))?;
                if out < names.len() {
                    let x = &names[out];
                    if o.contains(x) || o.get(x).is_some() || o.get_with_source(x).is_some() || o.get_int(x).is_ok() {
                        return Err(format!("{}: {} is found although only similar names are there", how, x));
                    }
                }
            }
            // Names of values within the text, through dots and as globals.
            if out == names.len() {
                for (k, x) in ns.iter().enumerate() {
                    let r = Obj::from_str(&format!("oo:{{{}}} a:oo.{}", text, x)).map_err(|e| format!("rejected: {}", e))?;
                    Cmp::plain().val(&r.get("a").unwrap(), &vs[k]).map_err(|e| format!("through a dot: {}", e))?;
                    let r = Obj::from_str(&format!("{}zz:{}", text, x)).map_err(|e| format!("rejected: {}", e))?;
                    Cmp::plain().val(&r.get("zz").unwrap(), &vs[k]).map_err(|e| format!("by name: {}", e))?;
                    let g: String = ns.iter().zip(&vs).map(|(a, b)| format!("@{}:{}\n", a, lit(b))).collect();
                    let r = Obj::from_str(&format!("{}zz:@{}", g, x)).map_err(|e| format!("rejected: {}", e))?;
                    Cmp::plain().val(&r.get("zz").unwrap(), &vs[k]).map_err(|e| format!("by global name: {}", e))?;
                    runs += 3;
                }
            }
        }
    }
    Ok(Done { state: (n * 1_000_000 + i) as u64, alive: true, steps: n as u64, runs, skipped: false })
}
fn c24_alike(c: &mut Ctx) {
    for n in 1..=c.pick(40, 140) {
        for i in 0..n {
            c.case(&format!("{} {}", n, i));
        }
    }
    for n in &[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1000] {
        for i in &[0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62] {
            c.case(&format!("{} {}", n, i));
            c.case(&format!("{} {}", n, n - 1 - i));
        }
    }
}
fn c24_values(c: &mut Ctx) {
    let k = c.pick(6, 7);
    all_objs(c, &[MV::int(1), MV::int(2)], k, &mut |c, v| {
        if c.mine() {
            c.run(&doc(v), true);
        }
    });
}
/// Sums of arrays (and strings) through all kinds of mentions of them.
pub fn sums(c: &mut Ctx, max: usize) {
    let pres = [
        ("@g:[1 2] x:[3 4 5] y:@g z:x e:[] o:{p:[6] q:@g} t:([8] @g) s:[7]+x ", "[9 1]"),
        ("@g:[[1] []] x:[[]] y:@g z:x e:[] o:{p:[[6]] q:@g} t:([[]] @g) s:[[7]]+x ", "[[] [9]]"),
        ("@g:[{a:1}] x:[{} {}] y:@g z:x e:[] o:{p:[{b:2}] q:@g} t:([{}] @g) s:[{c:3}]+x ", "[{}]"),
        ("@g:\"g1\" x:\"x\" y:@g z:x e:\"\" o:{p:\"p\" q:@g} t:(\"t\" @g) s:\"s\"+x ", "\"é\""),
        ("@g:3 x:5 y:@g z:x e:0 o:{p:7 q:@g} t:(8 @g) s:2+x ", "9"),
        ("@g:(1 2) x:[(3 [])] y:[@g] z:x e:[] o:{p:[(4 [5])] q:y} t:([@g] [(6 [\"\"])]) s:x+x ", "[@g]"),
    ];
    for (p, l) in &pres {
        let ops = ["x", "y", "z", "e", "@g", "t.0", "t.1", "s", "o.p", l];
        let mut last: Vec<String> = ops.iter().map(|o| o.to_string()).collect();
        for _ in 1..max {
            let mut next = vec![];
            for a in &last {
                for o in &ops {
                    let e = format!("{}+{}", a, o);
                    c.case(&format!("{}a:{} b:x", p, e));
                    next.push(e);
                }
            }
            last = next;
        }
        for a in &ops {
            for b in &ops {
                for q in &["a:[X+Y X]", "a:(X+Y Y+X)", "a:{w:1 v:[1]} b:X+Y", "a:X+Y b:a+a c:a+X d:b+b", "@h:X+Y a:@h+@h b:@h+X", "a:[X Y]+[X]", "a:(X+Y).0", "a:X+X+X+X+X b:Y+Y+X+Y"] {
                    c.case(&format!("{}{}", p, q.replace('X', a).replace('Y', b)));
                }
            }
        }
    }
}
pub fn c24_sums(c: &mut Ctx) {
    let d = c.pick(3, 5);
    sums(c, d);
}
fn c24_tree(c: &mut Ctx) {
    let d = c.pick(7, 9);
    c.tree("", &["a:", "b:", "c:", "@g:", "^:", "1 ", "2 ", "b ", "@g ", "{", "} ", "[", "] ", "(", ") "], d, &[]);
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        level: "model_checking",
        assumptions: vec!["field lists with repeated names given to the constructors are left open"],
        extra: None,
        hang_s: 60,
        families: vec![
            crate::sizes::c24(),
            Family { name: "values", what: "all objects of up to 6 (7) nodes, constructed and loaded, every container in every view", gen: c24_values, exec: c24_doc },
            Family { name: "tree", what: "everything loadable among the token sequences up to length 7 (9)", gen: c24_tree, exec: c24_doc },
            Family { name: "sums", what: "all sums of up to 3 (5) of 10 operands (names, globals, elements, fields, literals) for 6 sets of contents, used in 8 more ways in pairs", gen: c24_sums, exec: c24_doc },
            Family { name: "alike", what: "fields whose names of every length to 40 (140) and some to 1000 differ at one place (each place) or in length, all and all but one of them, constructed and loaded, looked up every way", gen: c24_alike, exec: c24_alike_exec },
            Family { name: "scale", what: "arrays, tuples and objects of every size to 200 (700) and around powers of two to 4097, in every way of making and seeing them", gen: c24_scale, exec: c24_scale_exec },
        ],
    }
}
