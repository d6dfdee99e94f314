#!/usr/bin/env python3
"""Writes mc/src/builds.rs: values built by the crate's macros, each with the text of the same value (C33)."""
import os
LEAVES = [("1", "1"), ('"s"', '"s"'), ("true", "true")]
N = "pqrstuvw"
out = []
seen = set()
count = [0]


def leaves(n):
    return LEAVES[:2]


def comma():
    count[0] += 1
    return "," if count[0] % 3 == 0 else ""


def arr(xs):
    if not xs:
        return ("arr![]", "[]")
    return (f"try_arr![{', '.join(e for e, _ in xs)}{comma()}]?", "[" + " ".join(t for _, t in xs) + "]")


def tup(xs):
    if not xs:
        return ("over::tup::Tup::empty()", "()")
    return (f"tup!({', '.join(e for e, _ in xs)}{comma() if xs else ''})", "(" + " ".join(t for _, t in xs) + ")")


def obj(xs, parent=None, at=0):
    fs = [(f'"{N[i]}" => {e}', f"{N[i]}:{t}") for i, (e, t) in enumerate(xs)]
    if parent:
        fs.insert(at, (f'"^" => {parent[0]}', f"^:{parent[1]}"))
    if not fs:
        return ("obj!{}", "{}")
    text = "{" + " ".join(t for _, t in fs) + "}"
    e = ", ".join(e for e, _ in fs)
    if parent and parent[1][0] != "{":
        # (Refused; this form compiles even where try_obj! is no expression.)
        return (f"{{ fn f() -> Result<over::Obj, OverError> {{ try_obj!{{{e}}} }} f()? }}", text)
    return (f"obj!{{{e}{comma()}}}", text)


def seqs(w, n, top):
    if w == 0:
        if n == 0:
            yield []
        return
    for k in range(1, n + 1):
        for r in seqs(w - 1, n - k, top):
            for v in trees(k, top):
                yield [v] + r


memo = {}


def trees(n, top):
    if (n, top) not in memo:
        v = list(leaves(top)) if n == 1 else []
        for w in range(0, n):
            for s in seqs(w, n - 1, top):
                v += [arr(s), tup(s), obj(s)]
                if w > 0:
                    # One of the children is the parent.
                    for i in range(w):
                        rest = s[:i] + s[i + 1:]
                        v.append(obj(rest, s[i], i))
        memo[(n, top)] = v
    return memo[(n, top)]


def put(x):
    if x not in seen:
        seen.add(x)
        out.append(x)


for n in (1, 2, 3):
    for x in trees(n, n):
        put(x)
NATIVE = ["0u8", "255u8", "65535u16", "4294967295u32", "18446744073709551615u64", "9223372036854775808usize", "-128i8", "-32768i16",
          "-2147483648i32", "i64::min_value()", "9223372036854775807i64", "false", "true"]
natives = [(e, e.replace("i64::min_value()", "-9223372036854775808").rstrip("usize") if False else e) for e in NATIVE]


def text(e):
    if e == "i64::min_value()":
        return "-9223372036854775808"
    for s in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        if e.endswith(s):
            return e[:-len(s)]
    return e


natives = [(e, text(e)) for e in NATIVE]
natives += [("int!(7)", "7"), ("int!(-7i64)", "-7"), ("int!(18446744073709551615u64) * int!(18446744073709551615u64)", "340282366920938463426481119284349108225"),
            ("frac!(1, 2)", "1/2"), ("frac!(-6, 4)", "-3/2"), ("frac!(4, -2)", "-2.0"), ("frac!(int!(1), 3u8)", "1/3"), ("frac!(0, 5)", "0.0"), ('"é\\n\\"$"', '"é\\n\\"\\$"'),
            ('String::from("")', '""'), ('String::from("a b")', '"a b"'), ('"null"', '"null"'), ('"^"', '"^"'), ("Value::Null", "null"), ("Value::Bool(true)", "true"),
            ("Value::from(\"x\")", '"x"'), ("arr![1, 2,]", "[1 2]"), ("arr![frac!(1, 2)]", "[0.5]"), ("tup!(1,)", "(1)"), ('obj!{"a" => 1,}', "{a:1}"),
            ('obj!{"^" => obj!{"a" => 1},}', "{^:{a:1}}"), ('arr![arr![], arr![1]]', "[[] [1]]"), ("arr![arr![arr![]], arr![]]", "[[[]] []]"),
            ('arr![obj!{}, obj!{"a" => 1}]', "[{} {a:1}]"), ("arr![tup!(arr![]), tup!(arr![1])]", "[([]) ([1])]")]
for x in natives:
    put((x[0], x[1]))
    for y in (natives[0], natives[5], natives[13], natives[16], natives[21]):
        put(arr([x, y]))
        put(arr([y, x, y]))
        put(tup([y, x]))
        put(obj([x, y]))
    put(obj([x], ("obj!{\"z\" => " + x[0] + "}", "{z:" + x[1] + "}"), 1))
    put(obj([], x, 0))
    put(obj([natives[0]], x, 1))
# Any number of items.
for n in range(1, 41):
    put(arr([(str(i), str(i)) for i in range(n)]))
    put(tup([(str(i), str(i)) for i in range(n)]))
for n in range(1, 9):
    for at in range(n + 1):
        put(obj([(str(i), str(i)) for i in range(n)], ("obj!{\"p\" => 9, \"z\" => 8}", "{p:9 z:8}"), at))
    put(obj([(str(i), str(i)) for i in range(n)]))

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "mc", "src", "builds.rs"), "w") as f:
    f.write("//! Written by tools/gen_builds.py: values built by macros, and the texts of the same values.\n")
    f.write("use over::value::Value;\nuse over::{arr, frac, int, obj, try_arr, try_obj, tup, OverError};\n\n")
    f.write("type R = Result<Value, OverError>;\n")
    # Functions of up to 20 values each.
    fns = []
    for i in range(0, len(out), 20):
        f.write(f"#[allow(clippy::all)]\n#[inline(never)]\nfn b{i // 20}(i: usize) -> R {{\n    Ok(match i {{\n")
        chunk = out[i:i + 20]
        for j, (e, _) in enumerate(chunk):
            pat = str(j) if j < len(chunk) - 1 else "_"
            f.write(f"        {pat} => Value::from({e}),\n" if e != "Value::Null" else f"        {pat} => Value::Null,\n")
        f.write("    })\n}\n")
        fns.append(f"b{i // 20}")
    f.write(f"const FNS: &[fn(usize) -> R] = &[{', '.join(fns)}];\n")
    f.write("pub fn value(i: usize) -> R {\n    FNS[i / 20](i % 20)\n}\n")
    f.write("pub const TEXTS: &[&str] = &[\n")
    for _, t in out:
        f.write("    r##\"" + t + "\"##,\n")
    f.write("];\n")
print(len(out))
