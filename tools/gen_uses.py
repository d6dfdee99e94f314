#!/usr/bin/env python3
"""Writes uses/src/main.rs, uses/src/bin/old.rs and uses/src/bin/moves.rs: each macro of the crate, each way to import it, each place an expression may stand (C33)."""
import os
here = os.path.dirname(os.path.abspath(__file__))
# Macro, how it is written, whether it gives a result, the text of the value.
USES = [
    ("int", "int!(5)", 0, "5"), ("int", "int!(-5i64)", 0, "-5"),
    ("frac", "frac!(1, 2)", 0, "1/2"), ("frac", "frac!(-4, 6)", 0, "-2/3"),
    ("arr", "arr![]", 0, "[]"), ("arr", "arr![1]", 0, "[1]"), ("arr", "arr![1,]", 0, "[1]"), ("arr", "arr![1, 2]", 0, "[1 2]"), ("arr", 'arr!["a", "b",]', 0, '["a" "b"]'),
    ("try_arr", "try_arr![1]", 1, "[1]"), ("try_arr", "try_arr![1,]", 1, "[1]"), ("try_arr", "try_arr![1, 2]", 1, "[1 2]"), ("try_arr", "try_arr![1, 2,]", 1, "[1 2]"),
    ("tup", "tup!()", 0, "()"), ("tup", "tup!(1)", 0, "(1)"), ("tup", "tup!(1,)", 0, "(1)"), ("tup", 'tup!(1, "s")', 0, '(1 "s")'), ("tup", "tup!(1, true,)", 0, "(1 true)"),
    ("obj", "obj!{}", 0, "{}"), ("obj", 'obj!{"a" => 1}', 0, "{a:1}"), ("obj", 'obj!{"a" => 1,}', 0, "{a:1}"), ("obj", 'obj!{"a" => 1, "b" => "s"}', 0, '{a:1 b:"s"}'), ("obj", 'obj!("a" => 1, "b" => 2,)', 0, "{a:1 b:2}"),
    ("obj", 'obj!{"a" => 1, "^" => over::Obj::empty()}', 0, "{a:1 ^:{}}"),
    ("try_obj", 'try_obj!{"a" => 1}', 1, "{a:1}"), ("try_obj", 'try_obj!{"a" => 1,}', 1, "{a:1}"), ("try_obj", 'try_obj!{"a" => 1, "b" => 2}', 1, "{a:1 b:2}"), ("try_obj", 'try_obj!{"^" => over::Obj::empty(), "b" => 2,}', 1, "{b:2 ^:{}}"),
]
PLACES = [
    "let r = E;", "let r = id(E);", "let r = { E };", "let r = { let x = E; x };", "let r = match 1 { 1 => E, _ => panic!() };", "let r = (|| E)();", "let r = vec![E].pop().unwrap();", "let r = if true { E } else { E };", "let r = (E, 1).0;", "let r = Ok::<_, ()>(E).unwrap();", "let r = Ok::<_, ()>(E).unwrap();",
    "let r = S { v: E }.v;", "let r = [E].into_iter().next().unwrap();", "let r = loop { break E; };", "let r; r = E;", "let r = Some(E).unwrap();", "let r = id((E));", "let f = || { return E; }; let r = f();", "let r = Box::new(E); let r = *r;",
]
HEAD = """use over::value::Value;
use over::Obj;

fn id<T>(t: T) -> T {
    t
}
struct S<T> {
    v: T,
}
fn check(fails: &mut usize, what: &str, v: Value, text: &str) {
    let w = text.parse::<Obj>().ok().and_then(|o| o.get("x"));
    if w.as_ref() != Some(&v) || v.to_string() != w.unwrap().to_string() {
        println!("{} gives {}, but {:?} was meant", what, v, text);
        *fails += 1;
    }
}
"""


def body(e, m, tr, text, places, k):
    s = ""
    for p in places:
        s += "        {\n            " + p.replace("E", e) + "\n"
        v = "Value::from(r.unwrap())" if tr else "Value::from(r)"
        what = p.replace("E", e)
        s += f"            check(n, r#\"{what}\"#, {v}, r#\"x:{text}\"#);\n        }}\n"
    return s


def prog(head, tail, imports, all_places):
    out = "//! Written by tools/gen_uses.py.\n#![allow(warnings)]\n" + head + HEAD
    calls = []
    for how in imports:
        for m in sorted({u[0] for u in USES}):
            name = f"{how}_{m}"
            b = ""
            for u in USES:
                if u[0] == m:
                    e = u[1]
                    if how == "path":
                        e = "over::" + e
                    b += body(e, m, u[2], u[3], PLACES if all_places or how == "alone" else PLACES[:2], 0)
            use = f"    use over::{m};\n" if how == "alone" else ""
            out += f"mod {name} {{\n    use super::{{check, id, S, Value}};\n{use}    pub fn all(n: &mut usize) {{\n{b}    }}\n}}\n"
            calls.append(f"    {name}::all(&mut n);\n")
    out += "fn main() {\n    let mut n = 0;\n" + "".join(calls) + "    std::process::exit(if n > 0 { 1 } else { 0 });\n}\n"
    return out


def moves():
    """Items that are moved, and that note their evaluation: each once, in order."""
    out = "//! Written by tools/gen_uses.py.\n#![allow(warnings)]\n" + HEAD + """
fn once(fails: &mut usize, what: &str, log: Vec<usize>, n: usize) {
    if log != (0..n).collect::<Vec<usize>>() {
        println!("{} evaluates its items in the order {:?}", what, log);
        *fails += 1;
    }
}
fn main() {
    use over::{arr, obj, try_arr, try_obj, tup};
    let mut n = 0;
"""
    count = 0

    def case(mac, items, text, tr, k):
        nonlocal out, count
        for comma in ["", ","]:
            count += 1
            inner = ", ".join(items) + comma
            o, c = {"arr": "[]", "try_arr": "[]", "tup": "()", "obj": "{}", "try_obj": "{}"}[mac]
            call = mac + "!" + o + inner + c
            out += "    {\n        let mut log = vec![];\n        let mut f = |i: usize, s: &str| {\n            log.push(i);\n            format!(\"x:{}\", s).parse::<Obj>().unwrap().get(\"x\").unwrap()\n        };\n"
            for i in range(k):
                out += f"        let m{i} = Value::from(\"m{i}\");\n" if any(f"m{i}" == x.split("=> ")[-1] for x in items) else ""
            out += f"        let r = {call}{'.unwrap()' if tr else ''};\n"
            out += f"        check(&mut n, r#\"{call}\"#, Value::from(r), r#\"x:{text}\"#);\n"
            called = sum("f(" in x for x in items)
            out += f"        once(&mut n, r#\"{call}\"#, log, {called});\n    }}\n"
    for k in range(1, 7):
        for mac, tr, (o, c) in [("arr", 0, "[]"), ("try_arr", 1, "[]"), ("tup", 0, "()")]:
            case(mac, [f'f({i}, "{i}")' for i in range(k)], o + " ".join(str(i) for i in range(k)) + c, tr, k)
            case(mac, [f"m{i}" for i in range(k)], o + " ".join(f'"m{i}"' for i in range(k)) + c, tr, k)
        for mac, tr in [("obj", 0), ("try_obj", 1)]:
            # The parent at each place, or nowhere.
            for at in range(-1, k):
                names = ["^" if i == at else "abcdef"[i] for i in range(k)]
                vals = ["{p:1}" if i == at else str(i) for i in range(k)]
                case(mac, [f'"{names[i]}" => f({i}, "{vals[i]}")' for i in range(k)], "{" + " ".join(a + ":" + b for a, b in zip(names, vals)) + "}", tr, k)
            case(mac, [f'"{"abcdef"[i]}" => m{i}' for i in range(k)], "{" + " ".join(f'{"abcdef"[i]}:"m{i}"' for i in range(k)) + "}", tr, k)
    out += "    std::process::exit(if n > 0 { 1 } else { 0 });\n}\n"
    return out, count


w = os.path.join(here, "..", "uses", "src")
open(os.path.join(w, "main.rs"), "w").write(prog("", "", ["alone", "path"], False))
open(os.path.join(w, "bin", "old.rs"), "w").write(prog("#[macro_use]\nextern crate over;\n", "", ["all"], False))
m, count = moves()
open(os.path.join(w, "bin", "moves.rs"), "w").write(m)
print(count, "moves")
print(len(USES) * len(PLACES) + 2 * 2 * len(USES))
