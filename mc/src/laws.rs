//! Values built in code and loaded (C33), names and their values (C34), texts one behind the other (C35).

use crate::cmp::*;
use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use crate::same::*;
use crate::values::*;
use crate::{builds, props_more::TOKENS};
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::str::FromStr;

fn done(state: u64, n: u64) -> CaseRes {
    Ok(Done { state, alive: true, steps: n, runs: n, skipped: false })
}
fn shown(v: &Value) -> String {
    let mut s = String::new();
    shows(v, &mut s);
    s
}
fn load(t: &str) -> Result<Value, String> {
    let o = Obj::from_str(&format!("x:{}", t)).map_err(|e| format!("{:?} is rejected: {}", t, e))?;
    o.get("x").ok_or(format!("no x in {:?}", t))
}

// ---------------------------------------------------------------- C33

/// A value built in code, and one loaded.
fn alike33(a: &Value, b: &Value, what: &dyn Fn() -> String) -> Result<u64, String> {
    let (x, y) = (shown(a), shown(b));
    if x != y {
        return Err(format!("{}: built it is {}, loaded {}", what(), x, y));
    }
    if a != b || b != a {
        return Err(format!("{}: built and loaded are not equal ({})", what(), x));
    }
    if a.to_string() != b.to_string() {
        return Err(format!("{}: built it prints {:?}, loaded {:?}", what(), a.to_string(), b.to_string()));
    }
    if a.get_type() != b.get_type() || !a.get_type().is(&b.get_type()) {
        return Err(format!("{}: built its type is {}, loaded {}", what(), a.get_type(), b.get_type()));
    }
    // As parts of something else.
    let (p, q) = (Tup::from(vec![a.clone(), Value::Null]), Tup::from(vec![b.clone(), Value::Null]));
    let (s, t) = (Arr::from_values(vec![a.clone(), b.clone()]), Arr::from_values(vec![b.clone(), a.clone()]));
    let (s, t) = (s.map_err(|e| format!("{}: built and loaded do not agree: {}", what(), e))?, t.map_err(|e| format!("{}: loaded and built do not agree: {}", what(), e))?);
    if p != q || s != t || shown(&s.clone().into()) != shown(&t.clone().into()) {
        return Err(format!("{}: with the built value a tuple or array differs from one with the loaded", what()));
    }
    let (o, r) = (Obj::from_pairs(vec![Pair("x".to_string(), a.clone())], None), Obj::from_pairs(vec![Pair("x".to_string(), b.clone())], None));
    let (o, r) = (o.map_err(|e| e.to_string())?, r.map_err(|e| e.to_string())?);
    if o != r || o.write_to_string() != r.write_to_string() {
        return Err(format!("{}: with the built value an object differs from one with the loaded", what()));
    }
    // What is written of the built one loads again.
    let back = Obj::from_str(&o.write_to_string()).map_err(|e| format!("{}: built and written as {:?} it is rejected: {}", what(), o.write_to_string(), e))?;
    if back != o || back != r {
        return Err(format!("{}: built and written as {:?} it loads as {}", what(), o.write_to_string(), back));
    }
    let mut h = H::new();
    h.s(&x);
    Ok(h.0)
}
/// All that the macros write: one case a value.
fn macros33(c: &mut Ctx) {
    for i in 0..builds::TEXTS.len() {
        c.case(&i.to_string());
    }
}
fn macros33_exec(t: &str) -> CaseRes {
    let i: usize = t.parse().unwrap();
    let t = builds::TEXTS[i];
    match (builds::value(i), load(t)) {
        (Ok(a), Ok(b)) => done(alike33(&a, &b, &|| format!("the value of {:?}", t))?, 9),
        (Err(_), Err(_)) => done(1, 2),
        (Ok(a), Err(e)) => Err(format!("the macros build {}, but {}", a, e)),
        (Err(e), Ok(b)) => Err(format!("{:?} is {}, but the macros refuse it: {}", t, b, e)),
    }
}
/// "NAME SEP NAME": an object with fields so named is built if the text with them is accepted.
fn names33(c: &mut Ctx) {
    let abc = ["a", "Z", "_", "1", "^", "@", " ", ".", ":", "\"", "é", "٣", "$", "#", "null", "Obj"];
    let mut v: Vec<String> = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..c.pick(2, 3) {
        last = last.iter().flat_map(|s| abc.iter().map(move |a| format!("{}{}", s, a))).collect();
        v.extend(last.iter().cloned());
    }
    for a in &v {
        for b in ["", "^", "b", "a", "^^", "^a", "a b", "1"] {
            c.case(&format!("{}{}{}", a, SEP, b));
        }
    }
    for ch in scalars() {
        if c.thorough() || (ch as u32) < 0x3000 {
            c.case(&format!("a{}{}b", ch, SEP));
            c.case(&format!("{}{}b", ch, SEP));
        }
    }
}
fn names33_exec(t: &str) -> CaseRes {
    use over::{obj, try_obj, OverError};
    let (a, b) = t.split_once(SEP).unwrap();
    if reserved(a) {
        // (Code may name fields like keywords; texts may not.)
        return done(7, 1);
    }
    let p = obj! {"z" => 9};
    // (Only names that end at the colon can be compared with a text.)
    let plain = |n: &str| !n.is_empty() && n.chars().all(|c| !c.is_whitespace() && !":#".contains(c)) && !n.starts_with('@');
    let text = |t: String| Obj::from_str(&t);
    let one = |n: &str, v: Value| -> Result<Obj, OverError> { try_obj! {n => v.clone()} };
    let two = |n: &str, v: Value, m: &str, w: Value| -> Result<Obj, OverError> { try_obj! {n => v.clone(), m => w.clone()} };
    let pairs = |ps: Vec<(&str, Value)>| {
        let parent = ps.iter().find(|p| p.0 == "^").map(|p| p.1.get_obj().unwrap());
        Obj::from_pairs(ps.into_iter().filter(|p| p.0 != "^").map(|(n, v)| Pair(n.to_string(), v)).collect(), parent)
    };
    let mut n = 0;
    let mut h = H::new();
    let mut same = |what: String, x: Result<Obj, OverError>, y: Result<Obj, String>| -> Result<(), String> {
        n += 1;
        match (x, y) {
            (Ok(o), Ok(r)) => {
                h.s(&shown(&Value::Obj(o.clone())));
                alike33(&o.into(), &r.into(), &|| what.clone()).map(|_| ())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(o), Err(e)) => Err(format!("{} builds {}, but {}", what, o, e)),
            (Err(e), Ok(r)) => Err(format!("{} is refused ({}), but the text is {}", what, e, r)),
        }
    };
    let val = |m: &str, i: i64| if m == "^" { Value::Obj(p.clone()) } else { Value::from(i) };
    let lit = |m: &str, i: i64| if m == "^" { "{z:9}".to_string() } else { i.to_string() };
    let by_text = |t: String| text(t.clone()).map_err(|e| format!("{:?} is rejected: {}", t, e));
    if plain(a) {
        let t = format!("{}:{}", a, lit(a, 1));
        same(format!("try_obj! with {:?}", a), one(a, val(a, 1)), by_text(t.clone()))?;
        same(format!("from_pairs with {:?}", a), pairs(vec![(a, val(a, 1))]), by_text(t.clone()))?;
        let valid = text(t).is_ok();
        if a != "^" && Obj::is_valid_field(a) != valid {
            return Err(format!("is_valid_field({:?}) is {}, the text is {}", a, !valid, if valid { "accepted" } else { "rejected" }));
        }
    } else {
        // No text: no macro.
        let bad = |what: &str, r: Result<Obj, OverError>| r.map_or(Ok(()), |o| Err(format!("{} builds {} with the name {:?}", what, o, a)));
        bad("try_obj!", one(a, 1.into()))?;
        bad("from_pairs", pairs(vec![(a, 1.into())]))?;
        if Obj::is_valid_field(a) {
            return Err(format!("is_valid_field({:?})", a));
        }
    }
    if plain(a) && plain(b) && a != b && !reserved(b) {
        let t = format!("{}:{} {}:{}", a, lit(a, 1), b, lit(b, 2));
        same(format!("try_obj! with {:?} and {:?}", a, b), two(a, val(a, 1), b, val(b, 2)), by_text(t.clone()))?;
        same(format!("from_pairs with {:?} and {:?}", a, b), pairs(vec![(a, val(a, 1)), (b, val(b, 2))]), by_text(t))?;
        let t = format!("{}:{} {}:{}", b, lit(b, 2), a, lit(a, 1));
        same(format!("try_obj! with {:?} and {:?}", b, a), two(b, val(b, 2), a, val(a, 1)), by_text(t))?;
    }
    done(h.0, n)
}
/// The value by constructors other than `build`'s.
fn build2(m: &MV) -> Value {
    use std::convert::TryFrom;
    match m {
        MV::Null => Value::Null,
        MV::Bool(b) => (*b).into(),
        MV::Int(i) => i.clone().into(),
        MV::Frac(n, d) => num_rational::BigRational::new(n.clone(), d.clone()).into(),
        MV::Str(s) => (&**s).into(),
        MV::Arr(a) if a.vals.is_empty() => Arr::default().into(),
        MV::Arr(a) => Arr::try_from(a.vals.iter().map(build2).collect::<Vec<_>>()).expect("agreeing elements were rejected").into(),
        MV::Tup(t) if t.vals.is_empty() => Tup::default().into(),
        MV::Tup(t) => Tup::from(t.vals.iter().map(build2).collect::<Vec<_>>()).into(),
        MV::Obj(o) if o.pairs.is_empty() && o.parent.is_none() => Obj::default().into(),
        MV::Obj(o) => {
            let p = o.parent.as_ref().map(|p| match build2(&MV::Obj(p.clone())) {
                Value::Obj(p) => p,
                _ => panic!(),
            });
            Obj::from_pairs_unchecked(o.pairs.iter().map(|(n, v)| Pair(n.to_string(), build2(v))).collect(), p).into()
        }
        MV::Kw(_) => panic!(),
    }
}
fn trees33(c: &mut Ctx) {
    let leaves = vec![MV::Bool(true), MV::int(1), fr(1, 2), MV::str("s")];
    for vs in by_size(&leaves, c.pick(5, 6), &["f", "g"], true, 2) {
        for v in vs {
            c.case(&lit(&v));
        }
    }
    for k in 0..c.pick(200, 2000) {
        for d in -1i64..=1 {
            let n = (BigInt::from(1) << k) + BigInt::from(d);
            for t in ["V", "-V", "V.0", "-V.0", "V.5", "0.V", "[V 1]", "[V.0 1.0]", "(V.0 -V)", "{f:V.0}", "1/3*V.0", "2.0/V1"] {
                c.case(&t.replace('V', &n.to_string()));
            }
        }
    }
    for v in many_leaves() {
        for t in ["V", "[V]", "(V)", "{f:V}", "{^:{f:V}}", "([V])"] {
            c.case(&t.replace('V', &lit(&v)));
        }
    }
    for n in (0..c.pick(100, 600)).chain(crate::sizes::sizes(c)) {
        if n == 0 {
            continue;
        }
        c.case(&lit(&MV::str(&"s".repeat(n))));
        c.case(&lit(&MV::str(&"\n".repeat(n))));
        if n < 5000 {
            c.case(&format!("[{}]", "1 ".repeat(n)));
            c.case(&format!("({})", "1 \"s\" ".repeat(n)));
        }
        if n < 2000 {
            c.case(&"7".repeat(n));
            c.case(&format!("1.{}", "7".repeat(n)));
            c.case(&format!("{{{}}}", (0..n).map(|i| format!("n{}:{} ", i, i)).collect::<String>()));
        }
        if n < 30 {
            for (o, cl) in [("[", "]"), ("(", ")"), ("{f:", "}"), ("{^:", "}")] {
                c.case(&format!("{}{{}}{}", o.repeat(n), cl.repeat(n)));
            }
        }
    }
}
fn trees33_exec(t: &str) -> CaseRes {
    let m = eval_text(&format!("x:{}", t), None);
    let m = match &m.res {
        Ok(o) => o.own("x").unwrap().clone(),
        Err(_) => panic!("no value: {:?}", t),
    };
    let b = load(t)?;
    let short: String = t.chars().take(200).collect();
    let h = alike33(&build(&m), &b, &|| format!("the value of {:?}", short))?;
    alike33(&build2(&m), &b, &|| format!("the value of {:?} by conversions", short))?;
    done(h, 18)
}
/// A native value and a loaded one are equal exactly if they are the same.
fn equal33(c: &mut Ctx) {
    for k in 0..=66 {
        for d in -2i64..=2 {
            for s in [1, -1] {
                c.case(&format!("{}", BigInt::from(s) * ((BigInt::from(1) << k) + BigInt::from(d))));
            }
        }
    }
    for v in many_leaves() {
        c.case(&lit(&v));
    }
    for t in ["[]", "()", "{}", "[1]", "(1)", "[true]", "[\"s\"]", "1.0", "0.0", "256.0", "4/2", "-1.0", "\"0\"", "\"-1\"", "\"true\"", "[[]]", "[0]", "(0)", "{a:0}", "{^:{}}", "1/2"] {
        c.case(t);
    }
    for n in 0..c.pick(2000, 70000) {
        c.case(&n.to_string());
        c.case(&(-n).to_string());
    }
}
fn equal33_exec(t: &str) -> CaseRes {
    let v = load(t)?;
    let int = match &v {
        Value::Int(i) => Some(i.clone()),
        _ => None,
    };
    let mut n = 0;
    let bad = |t2: &str, is: bool| Err(format!("the value {} and {} are {}equal", t, t2, if is { "" } else { "not " }));
    macro_rules! ty {
        ($t:ty) => {
            let (lo, hi) = (<$t>::min_value(), <$t>::max_value());
            let mut ns: Vec<$t> = vec![lo, hi, lo + 1, hi - 1, 0, 1, 2, hi / 2, hi / 2 + 1, lo / 2, 10, 127];
            if let Some(i) = &int {
                // The same bits as another type, and neighbours.
                let low = (i & BigInt::from(u64::max_value())).to_u64().unwrap_or(0);
                ns.extend([low as $t, (low as $t).wrapping_add(1), (low as $t).wrapping_sub(1), (low as $t).wrapping_neg()]);
            }
            for x in ns {
                let want = int == Some(BigInt::from(x));
                if (v == x) != want || (x == v) != want || (v == Value::from(x)) != want || (Value::from(x) == v) != want {
                    return bad(&format!("{}{}", x, stringify!($t)), !want);
                }
                n += 4;
            }
        };
    }
    ty!(u8);
    ty!(u16);
    ty!(u32);
    ty!(u64);
    ty!(usize);
    ty!(i8);
    ty!(i16);
    ty!(i32);
    ty!(i64);
    // The other types.
    for b in [true, false] {
        let want = matches!(v, Value::Bool(x) if x == b);
        if (v == b) != want || (b == v) != want {
            return bad(&b.to_string(), !want);
        }
    }
    for s in ["", "s", "0", "-1", "true", "null", "a", " "] {
        let want = matches!(&v, Value::Str(x) if x == s);
        if (v == s) != want || (s == v) != want || (v == s.to_string()) != want || (s.to_string() == v) != want {
            return bad(&format!("{:?}", s), !want);
        }
    }
    if let Value::Str(s) = &v {
        let t: &str = s;
        if v != t || t != v || v != s.clone() || s.clone() != v || v == format!("{} ", s) || v == &s[..s.len() - s.chars().last().map_or(0, |c| c.len_utf8())] && !s.is_empty() {
            return bad(&format!("{:?}", s), false);
        }
    }
    for i in [0i64, 1, -1, 2, 256] {
        let (b, f) = (BigInt::from(i), num_rational::BigRational::from_integer(i.into()));
        let want = int.as_ref() == Some(&b);
        if (v == b) != want || (b == v) != want {
            return bad(&b.to_string(), !want);
        }
        let want = matches!(&v, Value::Frac(x) if *x == f);
        if (v == f) != want || (f == v) != want {
            return bad(&format!("the fraction {}", f), !want);
        }
    }
    let (a, u, o) = (Arr::empty(), Tup::empty(), Obj::empty());
    for (is, what, want) in [
        (v == a, "[]", matches!(&v, Value::Arr(x) if x.is_empty())),
        (a == v, "[]", matches!(&v, Value::Arr(x) if x.is_empty())),
        (v == u, "()", matches!(&v, Value::Tup(x) if x.is_empty())),
        (u == v, "()", matches!(&v, Value::Tup(x) if x.is_empty())),
        (v == o, "{}", matches!(&v, Value::Obj(x) if x.is_empty() && !x.has_parent())),
        (o == v, "{}", matches!(&v, Value::Obj(x) if x.is_empty() && !x.has_parent())),
    ] {
        if is != want {
            return bad(what, is);
        }
    }
    match &v {
        Value::Arr(x) if !(v == *x && *x == v && x.ptr_eq(&v.get_arr().unwrap())) => return bad("itself", false),
        Value::Tup(x) if !(v == *x && *x == v) => return bad("itself", false),
        Value::Obj(x) if !(v == *x && *x == v) => return bad("itself", false),
        Value::Int(x) if !(v == *x && *x == v) => return bad("itself", false),
        Value::Frac(x) if !(v == *x && *x == v) => return bad("itself", false),
        _ => (),
    }
    if v.is_null() != (t == "null") || (v == Value::Null) != (t == "null") || v.get_type().is(&Type::Null) != (t == "null") {
        return bad("null", v.is_null());
    }
    let mut h = H::new();
    h.s(t);
    done(h.0, n + 60)
}
/// The program that writes each macro in each place compiled (our caller has tried), and runs.
fn extra_c33(_: Tier, _: &Path) -> Result<Extra, Fail> {
    let target = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| ".".into())).join("target");
    let fail = |case: String, why: &str| Err(Fail::Violation { family: "uses", case, why: why.to_string() });
    match std::env::var("MC_USES").as_deref() {
        Ok("0") => (),
        Ok("3") => {
            let log = fs::read_to_string(target.join("build.uses.log")).unwrap_or_default();
            let errors: Vec<&str> = log.split("\n\n").filter(|p| p.starts_with("error")).take(5).collect();
            return fail(errors.join("\n\n"), "the macros cannot be used in each place of a program an expression may stand in");
        }
        _ => return Err(Fail::Broken("the uses of the macros were not built".into())),
    }
    let mut x = ExtraFam::new("uses", "28 uses of the 7 macros, imported alone in 18 places of a program, by path and by #[macro_use] in 2, and 204 with 1 to 6 items that are moved or note their evaluation: the program compiles, the values are those of the texts, each item is evaluated once and in order");
    for b in ["uses", "old", "moves"] {
        let o = Command::new(target.join("uses/debug").join(b)).output().map_err(|e| Fail::Broken(format!("{}: {}", b, e)))?;
        match o.status.code() {
            Some(0) => (),
            _ => return fail(String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr), "a macro gives another value than was written"),
        }
    }
    x.cases = 28 * 22 + 204;
    x.runs = x.cases;
    x.steps = x.cases;
    x.states = 28 + 204;
    Ok(Extra { lines: vec![], fams: vec![x] })
}
pub fn c33() -> Prop {
    Prop {
        id: "C33",
        level: "model_checking",
        assumptions: vec![],
        extra: Some(extra_c33),
        hang_s: 30,
        families: vec![
            Family { name: "macros", what: "the values the crate's macros build (all nests of up to 3 nodes over 2 leaves, every native type in every container, 1 to 40 items, a parent at each place, commas at the end), against the loaded text", gen: macros33, exec: macros33_exec },
            Family { name: "trees", what: "all values of up to 5 (6) nodes, 66 leaves in 6 places, 2^k and its neighbours to 2^200 (2^2000) in 12 places, strings, numbers, containers of every size to 100 (600) and around powers of two, built by two sets of constructors, against the loaded text", gen: trees33, exec: trees33_exec },
            Family { name: "names", what: "objects with one or two fields whose names are all strings of up to 2 (3) of 16 pieces (valid or not, ^ among them), and every character below 0x3000 (every scalar value), built by try_obj! and from_pairs, against the text; is_valid_field", gen: names33, exec: names33_exec },
            Family { name: "equal", what: "integers within 2 of +-2^k to 2^66 and to +-2000 (70000), 66 leaves and 20 values, loaded, compared both ways with up to 16 values of each of 9 native integer types, booleans, strings, big integers, fractions and empty containers", gen: equal33, exec: equal33_exec },
        ],
    }
}

// ---------------------------------------------------------------- C34

/// Ways to name the value V; those from GLOBAL on may stand in objects, too.
const REFS: &[(&str, usize, &str)] = &[
    // What defines the name, how many fields that gives, the name.
    ("rr:V\n", 1, "rr"),
    ("rr:V\nr2:rr\n", 2, "r2"),
    ("oo:{k:V\nl:1}\n", 1, "oo.k"),
    ("oo:{^:{k:1 j:V\n} l:1}\n", 1, "oo.j"),
    ("tt:(0 V\n)\n", 1, "tt.1"),
    ("aa:[V\n]\n", 1, "aa.0"),
    ("jj:1 tt:(0 V\n)\n", 2, "tt.jj"),
    ("@jj:0 aa:[V\nV\n]\n", 1, "aa.@jj"),
    ("ob:{ar:[V\n]}\n", 1, "ob.ar.0"),
    ("ob:{tu:(2 [] V\n)}\n", 1, "ob.tu.2"),
    ("ob:{tu:{vv:{ww:V\n}}}\n", 1, "ob.tu.vv.ww"),
    ("@gg:V\n", 0, "@gg"),
    ("@go:{k:{k:V\n}}\n", 0, "@go.k.k"),
    ("tt:(0 V\n)\n@gt:tt.1\n", 1, "@gt"),
    ("@gg:V\n@gr:@gg\n", 0, "@gr"),
    ("@ga:{^:{l:[V\n]}}\n", 0, "@ga.l.0"),
];
const GLOBAL: usize = 11;
const PLACES34: &[&str] = &[
    "x:H", "x:H y:1", "x:[H]", "x:(H)", "x:(H H)", "x:[H H]", "x:(1 H \"s\")", "x:{y:H}", "x:{y:H z:{y:H}}", "x:{^:H}", "x:{^:H a:1}", "x:{a:1 ^:H}", "^:H", "^:H\na:1", "x:[[H]]", "x:[[] [H]]", "x:([H] (H) {y:H})", "x:H+H", "x:H-H", "x:H*H", "x:H/H", "x:H%H", "x:H+1", "x:1+H", "x:H-1", "x:1-H",
    "x:H*2", "x:2*H", "x:H/2", "x:2/H", "x:H%2", "x:7%H", "x:H+0.5", "x:0.5*H", "x:H+\"s\"", "x:\"s\"+H", "x:H+[1]", "x:[1]+H", "x:[]+H", "x:H+[]", "x:[[]]+H", "x:H+[[1]]", "x:H+{}", "x:H+()", "x:(1)+H", "x:H+null", "x:true+H", "x:1+2*H", "x:H*2+1", "x:2*H*3", "x:8/2/H", "x:8-2-H", "x:1-H+H", "x:H+H*H", "x:H*H-H/2",
    "x:-H", "x:+H", "x:--H", "x:-+H", "x:1+-H", "x:-H*2", "x:2*-H", "x:[-H]", "x:[1 H]", "x:[H 1]", "x:[\"s\" H]", "x:[[] H]", "x:[H []]", "x:[() H]", "x:[{} H]", "x:[null H]", "x:[true H]", "x:[([]) (H)]", "x:[(H) ([1])]", "x:H+[H]", "x:[H]+[H]", "x:[H]+H", "x:[H+H]", "x:(H+H -H)", "@z:H\nx:@z", "@z:[H]\nx:@z.0", "@z:{a:H}\nx:@z.a", "y:H\nx:y", "y:H\nx:y+y",
    "y:(H H)\nx:y.1", "y:[H H]\nx:y.0", "y:{a:{b:H}}\nx:y.a.b", "y:{^:{b:H}}\nx:y.b", "y:(5 6 7)\nx:y.H", "y:[5 6 7]\nx:y.H", "@y:(5 6)\nx:@y.H", "x:H\nx:1", "x:<H>", "x:<\"none\">", "x:<Obj H>", "x:<Str H>", "x:<Arr H>", "x:H H", "x:H)", "x:[H", "x:{y:H", "x:H]", "x:[H)", "x:H:", "x:(H +H)", "x:H #c\n", "x:H# }\ny:1", "x:\n H\n",
    "x:\t[\nH\n]", "x:1 y:H+x", "x:H+ 1", "x:H +1", "x:(1 2 H)+(H)", "x:{a:H b:[H {c:H}]}",
];
fn strip_place(e: &str) -> String {
    // Without line and column.
    match (e.find("line "), e.find(": ")) {
        (Some(i), _) => {
            let rest = &e[i..];
            format!("{}{}", &e[..i], rest.find(": ").map_or("", |j| &rest[j..]))
        }
        _ => e.to_string(),
    }
}
/// What loading gives, but the first k fields.
fn skipping(t: &str, k: usize) -> Result<String, String> {
    let o = Obj::from_str(t).map_err(|e| strip_place(&e.to_string()))?;
    Ok(skipped(&o, k))
}
fn skipped(o: &Obj, k: usize) -> String {
    let mut s = String::new();
    for p in &o.pairs_ref()[k..] {
        s.push_str(&format!("{:?}:", p.0));
        shows(&p.1, &mut s);
    }
    if let Some(p) = o.get_parent() {
        s.push('^');
        shows(&Value::Obj(p), &mut s);
    }
    s
}
/// The text with H as the value, and as each name.
fn same34(v: &str, t: &str, strict: bool) -> Result<(u64, u64), String> {
    let direct = t.replace('H', v);
    let x = skipping(&direct, 0);
    let in_obj = t.contains('{');
    let mut n = 1;
    for (pre, k, r) in REFS.iter().skip(if in_obj { GLOBAL } else { 0 }) {
        let text = format!("{}{}", pre.replace('V', v), t.replace('H', r));
        let y = skipping(&text, *k);
        n += 1;
        let same = match (&x, &y) {
            (Ok(a), Ok(b)) => a == b,
            // (What a message quotes of the text is what stands there.)
            (Err(a), Err(b)) => a == b || !strict || !a.contains(" type"),
            _ => false,
        };
        if !same {
            return Err(format!("{:?} with H = {} is {}, but with H = {}, which has this value, {}", t, v, tail(&x), r, tail(&y)));
        }
    }
    let mut h = H::new();
    match &x {
        Ok(s) | Err(s) => h.s(s),
    }
    Ok((h.0, n))
}
/// (The named values come first and are the same.)
fn tail(x: &Result<String, String>) -> String {
    match x {
        Ok(s) => {
            let v: Vec<char> = s.chars().collect();
            v[v.len().saturating_sub(150)..].iter().collect()
        }
        Err(e) => format!("error {:?}", e),
    }
}
fn places34(c: &mut Ctx) {
    let mut vals: Vec<String> = vec![];
    let leaves = vec![MV::Null, MV::Bool(true), MV::int(0), MV::int(1), MV::int(2), fr(1, 2), MV::str("s")];
    for vs in by_size(&leaves, c.pick(3, 4), &["f", "g"], true, 2) {
        vals.extend(vs.iter().map(lit));
    }
    for v in many_leaves() {
        vals.push(lit(&v));
    }
    for n in [10, 40, 300] {
        vals.push(format!("\"{}\"", "s".repeat(n)));
        vals.push("7".repeat(n));
        vals.push(format!("0.{}", "3".repeat(n)));
        vals.push(format!("[{}]", "1 ".repeat(n)));
        vals.push(format!("({})", "1 \"s\"".repeat(n)));
    }
    vals.retain(|v| !v.starts_with('-') && !v.contains("/"));
    vals.dedup();
    for v in vals {
        c.case(&format!("{}{}", v, SEP));
    }
}
fn places34_exec(t: &str) -> CaseRes {
    let v = t.split(SEP).next().unwrap();
    fs::write("f34", "1").unwrap();
    let mut h = H::new();
    let mut n = 0;
    for p in PLACES34 {
        let (a, b) = same34(v, p, true)?;
        h.u(a);
        n += b;
    }
    done(h.0, n)
}
/// Numbers, strings and containers of many sizes, in a few places.
fn values34(c: &mut Ctx) {
    let (bits, most, large): (usize, usize, &[usize]) = c.pick((130, 34, &[63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024]), (400, 140, &[255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000]));
    let mut put = |v: String| c.case(&format!("{}{}", v, SEP));
    for k in 0..bits {
        for d in [-1i64, 0, 1] {
            let n = (BigInt::from(1) << k) + BigInt::from(d);
            put(n.to_string());
            put(format!("{}.0", n));
            put(format!("{}.5", n));
            put(format!("0.{}", n));
        }
    }
    for n in (1..most).chain(large.iter().copied()) {
        for v in ["1 ", "1.0 ", "\"s\" ", "[] ", "[1] ", "null "] {
            put(format!("[{}]", v.repeat(n)));
            put(format!("({})", v.repeat(n)));
        }
        put(format!("\"{}\"", "s".repeat(n)));
        put(format!("\"{}\"", "é\n".repeat(n)));
        put(format!("{{{}}}", (0..n).map(|i| format!("n{}:{} ", i, i)).collect::<String>()));
        if n < 28 {
            for (o, e) in [("[", "]"), ("(", ")"), ("{f:", "}"), ("{^:", "}")] {
                put(format!("{}{{}}{}", o.repeat(n), e.repeat(n)));
            }
        }
    }
}
fn values34_exec(t: &str) -> CaseRes {
    let v = t.split(SEP).next().unwrap();
    let mut h = H::new();
    let mut n = 0;
    for p in ["x:H", "x:[H]", "x:(1 H)", "x:{y:H}", "x:[H]+[H]", "x:H+H", "x:H/3"] {
        let (a, b) = same34(v, p, false)?;
        h.u(a);
        n += b;
    }
    done(h.0, n)
}
/// As `places`, in a file of another directory, where includes are found.
fn files34(c: &mut Ctx) {
    for v in ["\"f34\"", "\"d/f34\"", "\"../f34\"", "\"none\"", "\"\"", "1", "[1]", "(\"f34\")", "{^:{a:1}}", "null"] {
        for p in 0..FILES34.len() {
            c.case(&format!("{}{}{}", v, SEP, p));
        }
    }
}
const FILES34: &[&str] = &[
    "x:<H>", "x:<Str H>", "x:<Obj H>", "x:<Arr H>", "x:<Tup H>", "x:[<H>]", "x:(<H> <Str H>)", "x:{y:<H>}", "^:<H>", "x:<H> y:<H>", "x:<H+\"\">", "x:<\"\"+H>", "x:< H >", "x:<H#c\n>", "x:<H>.v", "x:<Str H>+H", "x:<Str H>+<Str \"f34\">", "x:H", "x:[H <Str H>]", "x:<\"g34\">", "x:<H", "x:<H H>", "@z:<H>\nx:@z", "x:{y:{z:<H>}}",
];
fn files34_exec(t: &str) -> CaseRes {
    thread_local! {
        static LAID: () = {
            for d in ["d34", "d34/d"] {
                let _ = fs::create_dir(d);
            }
            fs::write("f34", "1").unwrap();
            fs::write("d34/f34", "v:2").unwrap();
            fs::write("d34/d/f34", "v:3").unwrap();
            fs::write("d34/g34", "v:<\"f34\">").unwrap();
        };
    }
    LAID.with(|_| ());
    let (v, p) = t.split_once(SEP).unwrap();
    let p = FILES34[p.parse::<usize>().unwrap()];
    let x = skip_file(&p.replace('H', v), 0);
    let mut n = 1;
    for (pre, k, r) in REFS.iter().skip(if p.contains('{') { GLOBAL } else { 0 }) {
        let y = skip_file(&format!("{}{}", pre.replace('V', v), p.replace('H', r)), *k);
        n += 1;
        let same = match (&x, &y) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("in a file, {:?} with H = {} is {}, but with H = {}, which has this value, {}", p, v, tail(&x), r, tail(&y)));
        }
    }
    let mut h = H::new();
    match &x {
        Ok(s) | Err(s) => h.s(s),
    }
    done(h.0, n)
}
fn skip_file(t: &str, k: usize) -> Result<String, String> {
    fs::write("d34/m", t).unwrap();
    let o = Obj::from_file("d34/m").map_err(|e| strip_place(&e.to_string()))?;
    Ok(skipped(&o, k))
}
const TOKENS34: &[&str] = &["H", " ", "1", "2.5", "+", "-", "*", "/", "%", "[", "]", "(", ")", "{", "}", "k:", "\"s\"", "\n", ".0", "#\n"];
const VALS34: &[&str] = &["3", "0.5", "\"t\"", "[2]", "[]", "(1 2)", "{f:1}", "null", "true", "[[1]]", "\"f34\""];
fn tokens34(c: &mut Ctx) {
    for v in VALS34 {
        c.tree(&format!("{}{}x:", v, SEP), TOKENS34, c.pick(4, 5), &[]);
        for p in ["H", "[H", "(H ", "{k:H", "1+H", "-H", "H+H", "{^:H", "[H]+", "H "] {
            c.tree(&format!("{}{}x:{}", v, SEP, p), TOKENS34, c.pick(3, 4), &[]);
        }
    }
}
fn tokens34_exec(t: &str) -> CaseRes {
    let (v, x) = t.split_once(SEP).unwrap();
    let cs: Vec<char> = x.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if *c == 'H' {
            let joins = |c: &char| c.is_alphanumeric() || "_.@\"".contains(*c);
            if i > 0 && joins(&cs[i - 1]) || cs.get(i + 1).map_or(false, joins) {
                // Name and literal run into what stands there differently.
                return Ok(Done { alive: false, ..Done::state(7) });
            }
        }
    }
    let m = eval_text(&x.replace('H', v), None);
    if m.quirk {
        return Ok(Done { alive: true, ..Done::state(8) });
    }
    let alive = m.res.is_ok() || m.saw_end;
    if !x.contains('H') {
        return Ok(Done { alive, ..Done::state(9) });
    }
    let (h, n) = same34(v, x, false)?;
    Ok(Done { state: h, alive, steps: n, runs: n, skipped: false })
}
pub fn c34() -> Prop {
    Prop {
        id: "C34",
        level: "model_checking",
        assumptions: vec!["inside objects only globals are in scope; a name is set apart from what would become part of it"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "places", what: "all values of up to 3 (4) nodes, 60 leaves, long strings, numbers and containers, literally and by 16 names (field, global, path, inherited, index, variable index, name of a name) in 117 places", gen: places34, exec: places34_exec },
            Family { name: "values", what: "2^k and its neighbours to 2^130 (2^400), whole, with decimals and behind a decimal sign, strings, arrays, tuples, objects of every size to 33 (139) and around powers of two, nests to 27 deep, in 7 places", gen: values34, exec: values34_exec },
            Family { name: "files", what: "10 values, 5 of them paths, in 24 places of a file of another directory, most of them includes", gen: files34, exec: files34_exec },
            Family { name: "tokens", what: "all sequences of up to 4 (5) of 20 tokens, of 3 (4) behind 10 beginnings, one of them standing for each of 11 values, literally and by 16 names", gen: tokens34, exec: tokens34_exec },
        ],
    }
}

// ---------------------------------------------------------------- C35

/// What may follow or precede, with names of its own, and the fields it gives.
const TAILS: &[&str] = &[
    "zz:1", "zz:1\n", "zz:\"a\"", "zz:[1 2]", "zz:(1 \"s\")", "zz:{zy:1}", "zz:1 zy:2", "zz:{zy:{zx:1}} zw:zz.zy.zx", "zz:1 zy:zz+1", "@zz:1 zy:@zz", "@zz:1\n", "zz:\"}\"", "zz:\"#\"", "zz:1#", "zz:1#c\n", "zz:null", "zz:-1.5", "zz:2*3", "zz:[[] [1]]", "zz:()", "zz:{}", "zz:{^:{zy:1}}", "zz:\"\n\"", "zz:\"\\\"\"", "#c", "#c\n", "", " ", "\n\n", "zz:(((1)))", "zz:[\n1\n]",
    "zz:<\"inc35\">", "zz:<Arr \"inc35a\">", "zz:[<Str \"inc35\">]",
];
/// What is no text of its own.
const JUNK: &[&str] = &["}", ")", "]", "zz", "zz:", "1", ":", "\"", "zz:[", "@", "^", "^:1", "<", "zz:1 zz:2", "zz:1}", ",", "\\", "\u{0}", "é", "zz:{", "zz:1+", "zz:1 2", "zz:zy", "@zz", "#}", "\"\n"];
const SEPS: &[&str] = &["\n", " ", "\n\n", "\t", " #c\n", "\r\n", "#:\"{\n"];
fn fields(o: &Obj) -> Vec<String> {
    o.pairs_ref()
        .iter()
        .map(|p| {
            let mut s = format!("{:?}:", p.0);
            shows(&p.1, &mut s);
            s
        })
        .collect()
}
fn parent(o: &Obj) -> Option<String> {
    o.get_parent().map(|p| shown(&Value::Obj(p)))
}
/// A text of the model (named by other letters than z).
fn exec35(t: &str) -> CaseRes {
    thread_local! {
        static TAILS_ALONE: Vec<Vec<String>> = {
            lay35();
            TAILS.iter().map(|t| fields(&Obj::from_str(t).unwrap_or_else(|e| panic!("{:?}: {}", t, e)))).collect()
        };
    }
    lay35();
    let m = eval_text(t, None);
    let a = Obj::from_str(t);
    let mut n = 1;
    let mut h = H::new();
    h.u(outcome_hash(&m));
    match (&m.res, &a) {
        (_, Ok(o)) if !m.quirk && !m.saw_end | m.res.is_ok() => {
            // (A name at the end of the text, say, may go on with what follows: all separators end it.)
            let fs = fields(o);
            let par = parent(o);
            TAILS_ALONE.with(|alone| -> Result<(), String> {
                for (i, z) in TAILS.iter().enumerate() {
                    // All separators with the first tail, all tails with the first.
                    for s in if i == 0 && !t.contains('#') { SEPS } else { &SEPS[..1] } {
                        let x = format!("{}{}{}", t, s, z);
                        let r = Obj::from_str(&x).map_err(|e| format!("{:?} loads, and {:?} does, but not {:?}: {}", t, z, x, e))?;
                        let want: Vec<&String> = fs.iter().chain(&alone[i]).collect();
                        if fields(&r).iter().collect::<Vec<_>>() != want || parent(&r) != par {
                            return Err(format!("{:?} is {}, but {:?} alone {:?}, and {:?} {:?}", x, r, t, fs, z, alone[i]));
                        }
                        n += 1;
                        // In the other order.
                        let x = format!("{}{}{}", z, if z.contains('#') { "\n" } else { s }, t);
                        let r = Obj::from_str(&x).map_err(|e| format!("{:?} loads, and {:?} does, but not {:?}: {}", t, z, x, e))?;
                        let want: Vec<&String> = alone[i].iter().chain(&fs).collect();
                        if fields(&r).iter().collect::<Vec<_>>() != want || parent(&r) != par {
                            return Err(format!("{:?} is {}, but {:?} alone {:?}, and {:?} {:?}", x, r, z, alone[i], t, fs));
                        }
                        n += 1;
                    }
                }
                Ok(())
            })?;
        }
        (Err(_), Err(e)) if !m.saw_end && !m.quirk => {
            // Whatever follows, it is the same fault at the same place.
            let e = e.to_string();
            for z in TAILS.iter().chain(JUNK) {
                for s in ["", "\n"] {
                    let x = format!("{}{}{}", t, s, z);
                    match Obj::from_str(&x) {
                        Err(f) if f.to_string() == e => (),
                        r => return Err(format!("{:?} gives {:?}, but {:?} {}", t, e, x, r.map_or_else(|e| format!("gives {:?}", e.to_string()), |o| format!("is {}", o)))),
                    }
                    n += 1;
                }
            }
            // And whatever precedes it, a line further down.
            for z in TAILS.iter().filter(|z| !z.contains('\n')) {
                let x = format!("{}\n{}", z, t);
                match Obj::from_str(&x) {
                    Err(f) if strip_place(&f.to_string()) == strip_place(&e) && line(&f.to_string()) == line(&e).map(|l| l + 1) => (),
                    r => return Err(format!("{:?} gives {:?}, but {:?} {}", t, e, x, r.map_or_else(|e| format!("gives {:?}", e.to_string()), |o| format!("is {}", o)))),
                }
                n += 1;
            }
        }
        _ => (),
    }
    let alive = m.res.is_ok() || m.saw_end || m.quirk;
    Ok(Done { state: h.0, alive, steps: n, runs: n, skipped: false })
}
fn line(e: &str) -> Option<u64> {
    let r = &e[e.find("line ")? + 5..];
    r[..r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len())].parse().ok()
}
fn lay35() {
    // (Laid out once in each working directory.)
    if fs::metadata("inc35a").is_err() {
        fs::write("inc35", "zy:1\n").unwrap();
        fs::write("inc35a", "1 2\n").unwrap();
    }
}
fn tokens35(c: &mut Ctx) {
    c.tree("", TOKENS, c.pick(3, 4), &[]);
    for p in ["a:", "a:1 ", "o:{a:(0 1)}\n@g:o\nb:", "a:[", "a:{", "a:1\n^:", "a:(1 ", "a:\"", "@g:", "a:2+"] {
        c.tree(p, TOKENS, c.pick(2, 3), &[]);
    }
}
fn edits35(c: &mut Ctx) {
    for d in SHORT.iter().chain(LONG) {
        if !d.contains('z') && !d.contains('<') {
            c.case(d);
            edits(d, &mut |t| c.case(t));
        }
    }
    // Each unusual character at each place.
    let odd: Vec<char> = (0..32u8).chain(127..=160).map(|b| b as char).chain("\u{ad}\u{1680}\u{200b}\u{200d}\u{200e}\u{2028}\u{2029}\u{202e}\u{3000}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{10ffff}".chars()).collect();
    for d in ["a:1 b:[1 (2)] c:{d:\"s\"}", "a:1\n^:{b:2} @g:a\nc:a+@g#d\n", "a:\"s\""] {
        let cs: Vec<char> = d.chars().collect();
        for i in 0..=cs.len() {
            for o in &odd {
                c.case(&format!("{}{}{}", cs[..i].iter().collect::<String>(), o, cs[i..].iter().collect::<String>()));
                c.case(&format!("{} {} {}", cs[..i].iter().collect::<String>(), o, cs[i..].iter().collect::<String>()));
            }
        }
    }
}
/// "N K": a fault behind N lines or fields is the fault it is alone, N lines further down.
fn far35(c: &mut Ctx) {
    for n in (0..c.pick(300, 1500)).chain(crate::sizes::sizes(c)).chain([65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073]) {
        for k in 0..FAR.len() {
            if n < 5000 || !FAR[k].contains('%') {
                c.case(&format!("{} {}", n, k));
            }
        }
    }
}
/// (% is the number of the line.)
const FAR: &[&str] = &["\n", "#}\n", "\r\n", " \n", "_%:1\n", "_%:[1\n]\n", "_%:\"s\" _%_:{a:(1\n)}\n", "@_%:1\n", "#c\n\n"];
const FAULTS35: &[&str] = &["a:1 a:2", "a:]", "a:x", " a:[1 \"s\"]", "a:\"\\q\"", "$", "a:1/0", "@g:1\n@g:2", "a:{b:1\n b:2}", "a:1\n\n\nb:a.x", "null:1", "^:1", "a:(1\n>"];
const GOOD35: &[&str] = &["^:{z:1 ^:{y:1}}", "^:{z:1} a:{^:{b:1 ^:{c:2}} d:3}", "@g:{x:(1 [2])} ^:@g a:@g.x.1 b:a.0", "a:{b:{c:1}} d:a.b.c e:[a] f:-d*2+1", "a:\"\\n}\" b:[[] [1]] c:(b a 0.5 null)"];
fn far35_exec(t: &str) -> CaseRes {
    let (n, k) = t.split_once(' ').unwrap();
    let (n, k): (usize, usize) = (n.parse().unwrap(), k.parse().unwrap());
    let u = FAR[k];
    let mut text = String::new();
    for i in 0..n {
        text.push_str(&u.replace('%', &i.to_string()));
    }
    let lines = text.matches('\n').count() as u64;
    let mut cases = 0;
    for f in FAULTS35 {
        let e = match Obj::from_str(f) {
            Err(e) => e.to_string(),
            Ok(o) => return Err(format!("{:?} is accepted: {}", f, o)),
        };
        let col = |e: &str| e.find("col").map(|i| e[i..].to_string());
        match Obj::from_str(&format!("{}{}", text, f)) {
            Err(g) => {
                let g = g.to_string();
                if strip_place(&g) != strip_place(&e) || line(&g) != line(&e).map(|l| l + lines) || col(&g) != col(&e) {
                    return Err(format!("{:?} gives {:?}, but behind {} lines ({} times {:?}) {:?}", f, e, lines, n, u, g));
                }
            }
            Ok(_) => return Err(format!("{:?} gives {:?}, but behind {} lines ({} times {:?}) it is accepted", f, e, lines, n, u)),
        }
        cases += 1;
    }
    // What is right is as it is alone.
    for g in GOOD35 {
        let a = Obj::from_str(g).map_err(|e| format!("{:?}: {}", g, e))?;
        let o = Obj::from_str(&format!("{}{}", text, g)).map_err(|e| format!("{:?} loads, but not behind {} times {:?}: {}", g, n, u, e))?;
        let (fa, fo) = (fields(&a), fields(&o));
        if fo.len() < fa.len() || fo[fo.len() - fa.len()..] != fa[..] || parent(&o) != parent(&a) {
            return Err(format!("{:?} gives {:?} and the parent {:?}, but behind {} times {:?} the last fields are {:?} and the parent is {:?}", g, fa, parent(&a), n, u, &fo[fo.len().saturating_sub(fa.len())..], parent(&o)));
        }
        cases += 1;
    }
    // A field that was there already.
    if u.contains('%') && n > 0 {
        for i in [0, n / 2, n - 1, n.saturating_sub(300), n.saturating_sub(130)] {
            let name = if u.starts_with('@') { format!("@_{}", i) } else { format!("_{}", i) };
            match Obj::from_str(&format!("{}{}:2", text, name)) {
                Err(e) if line(&e.to_string()) == Some(lines + 1) && e.to_string().to_lowercase().contains("duplicate") => (),
                Err(e) => return Err(format!("{:?} {} times, then {} again: {:?}", u, n, name, e.to_string())),
                Ok(_) => return Err(format!("{:?} {} times, then {} again: is accepted", u, n, name)),
            }
            cases += 1;
        }
    }
    let mut h = H::new();
    h.s(t);
    done(h.0, cases)
}
/// N texts with names of their own, one behind the other.
fn many35(c: &mut Ctx) {
    for n in (1..c.pick(60, 300)).chain(crate::sizes::sizes(c)) {
        for k in 0..c.pick(2, 4) {
            if n < 20000 {
                c.case(&format!("{} {}", n, k));
            }
        }
    }
}
const BLOCKS: &[&str] = &[
    "a#:1 b#:a#+1 c#:[a# b#]", "@g#:{x:1} p#:@g#.x", "o#:{x:{y:(1 \"s\")}} q#:o#.x.y.1", "s#:\"}#\\n\" t#:s#+s#", "u#:(1 [2.5] null) v#:u#.1", "w#:{^:{x:[]} y:1} r#:w#.x", "d#:-1/2*4-3 e#:0.5+d#", "i#:1 f#:(7 8) h#:f#.i#", "k#:{} l#:() m#:[] n#:\"\"",
];
fn block(b: &str, name: &str) -> String {
    b.replace("}#\\n", "\u{1}").replace('#', name).replace('\u{1}', "}#\\n")
}
fn many35_exec(t: &str) -> CaseRes {
    let (n, k) = t.split_once(' ').unwrap();
    let (n, k): (usize, usize) = (n.parse().unwrap(), k.parse().unwrap());
    let mut want = vec![];
    let mut text = String::new();
    let mut alone: Vec<Vec<String>> = vec![];
    for b in BLOCKS {
        alone.push(fields(&Obj::from_str(&block(b, "_")).map_err(|e| format!("{:?}: {}", b, e))?));
    }
    for i in 0..n {
        // Another order of blocks for each k.
        let j = (i * (2 * k + 1) + i / 9 * k + k) % BLOCKS.len();
        let name = format!("_{}", i);
        text.push_str(&block(BLOCKS[j], &name));
        text.push_str(SEPS[(i + k) % SEPS.len()]);
        for f in &alone[j] {
            want.push(f.replacen("_\":", &format!("{}\":", name), 1));
        }
    }
    let o = Obj::from_str(&text).map_err(|e| format!("each of {} texts loads, but not one behind the other: {}", n, e))?;
    let got = fields(&o);
    if got != want || o.has_parent() {
        let i = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!("{} texts with names of their own, one behind the other: field {:?} is {:?}, alone {:?}", n, i, i.map(|i| &got[i]), i.map(|i| &want[i])));
    }
    let mut h = H::new();
    h.s(t);
    done(h.0, n as u64)
}
pub fn c35() -> Prop {
    Prop {
        id: "C35",
        level: "model_checking",
        assumptions: vec!["the texts use different names, and only one has a parent"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "tokens", what: "all sequences of up to 3 (4) of 34 tokens, and 2 (3) behind 10 beginnings: behind and before 34 texts, with 7 separators; faulty ones before 34 texts and 26 faulty pieces, and a line below the texts", gen: tokens35, exec: exec35 },
            Family { name: "edits", what: "all single edits of 45 texts, and 79 unusual characters at each place of 3 texts, the same", gen: edits35, exec: exec35 },
            Family { name: "far", what: "13 faults, and 5 texts with parents, names, strings, behind every number of lines or fields to 300 (1500), and around powers of two to 2^17, of 9 kinds, and fields again that are defined so far before", gen: far35, exec: far35_exec },
            Family { name: "many", what: "every number to 60 (300) and around powers of two of texts one behind the other, in 2 (4) orders", gen: many35, exec: many35_exec },
        ],
    }
}
