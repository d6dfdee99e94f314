//! C29: what an error says. The words for each kind of fault are learnt from one example, with items that cannot be
//! mistaken for anything else; every other fault of the kind must be told in the same words, with its own items.

use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use crate::props_val::*;
use num_bigint::BigInt;
use over::{arr::Arr, obj::Pair, value::Value, Obj, OverError};
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::Mutex;

/// Numbers of lines and columns are C17's matter: "line 3, column 5" (also "col 5") becomes "line #", if it is the place.
fn unplaced(msg: &str, line: usize, col: Option<usize>) -> String {
    let mut m = msg.to_string();
    if let Some(c) = col {
        for w in ["column", "col"] {
            let p = format!("line {}, {} {}", line, w, c);
            if let Some(i) = m.find(&p).filter(|i| !m[i + p.len()..].starts_with(|c: char| c.is_ascii_digit())) {
                m.replace_range(i..i + p.len(), "line #");
                return m;
            }
        }
    }
    let p = format!("line {}", line);
    if let Some(i) = m.find(&p).filter(|i| !m[i + p.len()..].starts_with(|c: char| c.is_ascii_digit())) {
        m.replace_range(i..i + p.len(), "line #");
    }
    m
}
/// (kind, number of items, a word that tells variants apart) -> texts, items.
const EXAMPLES: &[(EK, usize, &str, &str, &[&str])] = &[
    (EK::BinOp, 3, "", "\n a:null*({})", &["*", "Null", "Tup(Obj)"]),
    (EK::UnOp, 2, "", "\n a:-({})", &["-", "Tup(Obj)"]),
    (EK::DupField, 1, "", "\nzqx:1 zqx:1", &["zqx"]),
    (EK::DupGlobal, 1, "", "\n@zqx:1 @zqx:1", &["@zqx"]),
    (EK::ExpType, 2, "", "\n  a:[null ({})]", &["Null", "Tup(Obj)"]),
    (EK::NoGlobal, 1, "", "\n   a:@zqx", &["@zqx"]),
    (EK::NoVar, 1, "", "\n   a:zqx", &["zqx"]),
    (EK::Index, 1, "", "\n   @i:-9753 x:[1] a:x.@i", &["-9753"]),
    (EK::Bracket, 2, "", "\n a:[)", &[")", "]"]),
    (EK::Bracket, 1, "", "\n a:1)", &[")"]),
    (EK::Dot, 1, "", "\n a:1.5 b:a.x", &["Frac"]),
    (EK::Escape, 1, "", "\n a:\"\\Q\"", &["Q"]),
    (EK::FieldChar, 1, "", "\n Q!", &["!"]),
    (EK::FieldName, 1, "", "\n ^zqx:1", &["^zqx"]),
    (EK::IncPath, 1, "", "\n a:<\"zqx/none\">", &["zqx/none"]),
    (EK::IncToken, 1, "", "\n a:<null>", &["Null"]),
    (EK::Numeric, 0, "", "\n a:1/0", &[]),
    (EK::Value, 1, "", "\n a:@", &["@"]),
    (EK::ValueChar, 1, "", "\n a:!", &["!"]),
    (EK::End, 0, "", "\n a:", &[]),
    (EK::ParentType, 2, "", "\n ^:({})", &["Obj", "Tup(Obj)"]),
    (EK::Bounds, 2, "Arr", "\n a:[0] b:a.9753", &["Arr", "9753"]),
    (EK::Bounds, 2, "Tup", "\n a:(0) b:a.9753", &["Tup", "9753"]),
    (EK::Depth, 0, "", "DEEP", &[]),
    (EK::Cyclic, 1, "", "FILE", &[]),
];
type Words = HashMap<(u8, usize, String), Result<Vec<String>, String>>;
/// The message of an example: the words between its items, in order; each item must be there once.
fn words() -> Words {
    let mut w = HashMap::new();
    for (k, n, v, t, items) in EXAMPLES {
        if *k == EK::Cyclic {
            continue;
        }
        let text = if *t == "DEEP" { format!("\n a:{}{}", "[".repeat(70), "]".repeat(70)) } else { t.to_string() };
        let m = eval_text(&text, None);
        let me = m.res.err().unwrap();
        assert!(me.kind == *k && me.items.len() == *n && me.items == items.to_vec(), "example {:?}: {:?}", k, me);
        let r = match Obj::from_str(&text) {
            Ok(_) => Err(format!("{:?} is accepted", text)),
            Err(e) => learn(&e.to_string(), &me).map_err(|x| format!("the error of {:?} is {:?}: {}", text, e.to_string(), x)),
        };
        w.insert((*k as u8, *n, v.to_string()), r);
    }
    w
}
/// Pieces of the message around the items; the order of the items is told by pieces "\u{3}0" and so on.
fn learn(msg: &str, me: &MErr) -> Result<Vec<String>, String> {
    let m = unplaced(msg, me.line, me.col);
    if !m.contains("line #") {
        return Err("it does not say where".into());
    }
    let mut at: Vec<(usize, usize)> = vec![];
    for (i, x) in me.items.iter().enumerate() {
        // The last that is not part of another item.
        let p = m.match_indices(&x[..]).map(|p| p.0).find(|p| at.iter().all(|(q, j)| p + x.len() <= *q || *p >= q + me.items[*j].len()));
        match p {
            None => return Err(format!("it does not name {:?}", x)),
            Some(p) => at.push((p, i)),
        }
    }
    at.sort();
    let mut v = vec![];
    let mut from = 0;
    for (p, i) in at {
        v.push(m[from..p].to_string());
        v.push(format!("\u{3}{}", i));
        from = p + me.items[i].len();
    }
    v.push(m[from..].to_string());
    Ok(v)
}
fn ways(item: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in if item == "Int\u{2}Frac" { vec!["Int", "Frac"] } else { vec![item] } {
        v.push(x.into());
        let mut dbg = format!("{:?}", x);
        dbg = dbg[1..dbg.len() - 1].to_string();
        v.push(dbg);
        v.push(x.escape_default().to_string());
        if x.chars().count() == 1 {
            let c = x.chars().next().unwrap();
            let d = format!("{:?}", c);
            v.push(d[1..d.len() - 1].to_string());
        }
    }
    v.dedup();
    v
}
fn said(m: &str, pieces: &[String], items: &[String]) -> bool {
    match pieces.split_first() {
        None => m.is_empty(),
        Some((p, rest)) => match p.strip_prefix('\u{3}') {
            Some(i) => ways(&items[i.parse::<usize>().unwrap()]).iter().any(|w| m.starts_with(&w[..]) && said(&m[w.len()..], rest, items)),
            None => m.starts_with(&p[..]) && said(&m[p.len()..], rest, items),
        },
    }
}
/// Whether the message says what the model says is wrong.
pub fn says(msg: &str, me: &MErr) -> Result<(), String> {
    thread_local! {
        static WORDS: Words = words();
    }
    if me.kind == EK::Io {
        // In the operating system's words; the include must be named.
        return if msg.contains(&me.items[0]) { Ok(()) } else { Err(format!("an include cannot be read, but {:?} does not name {:?}", msg, me.items[0])) };
    }
    let variant = if me.kind == EK::Bounds { me.items[0].clone() } else { String::new() };
    let kind = if me.kind == EK::Cyclic { EK::IncPath } else { me.kind };
    WORDS.with(|w| {
        let e = match &w[&(kind as u8, me.items.len(), variant)] {
            Err(e) => return Err(e.clone()),
            Ok(e) => e,
        };
        // The path of the file and ": " may stand before it.
        let m = match &me.file {
            None => msg.to_string(),
            Some(_) => {
                let i = msg.find(": ").map_or(0, |i| i + 2);
                msg[i..].to_string()
            }
        };
        let m = unplaced(&m, me.line, me.col);
        if me.kind == EK::Cyclic {
            // Its words are its own, but the path is named, and it is not said to be missing.
            if !ways(&me.items[0]).iter().any(|w| m.contains(&w[..])) {
                return Err(format!("a circle of includes, but {:?} does not name {:?}", msg, me.items[0]));
            }
            if said(&m, e, &me.items) {
                return Err(format!("a circle of includes, but the message is {:?}", msg));
            }
            return Ok(());
        }
        if said(&m, e, &me.items) {
            return Ok(());
        }
        let want: String = e.iter().map(|p| p.strip_prefix('\u{3}').map_or(p.clone(), |i| me.items[i.parse::<usize>().unwrap()].replace('\u{2}', "|"))).collect();
        Err(format!("the error is {:?}, but other errors of the kind ({:?}) read {:?}", msg, me.kind, want))
    })
}

// ---- the check ----

fn edits29(c: &mut Ctx) {
    for doc in SHORT.iter().chain(LONG.iter()) {
        edits(doc, &mut |t| c.case(t));
    }
}
fn tokens29(c: &mut Ctx) {
    crate::props_text2::c22_tokens(c);
    crate::props_text2::c17_tokens(c);
    // Names that differ.
    let names = ["a:", "a1:", "@a:", "@a1:", "^:", "a ", "a1 ", "@a ", "@a1 ", "{", "}", "[", "]", "1 ", "\"s\" ", "a.", "-", "+", "%"];
    c.tree("", &names, c.pick(4, 5), &["1 ", "}", "]"]);
    c.tree("a:{b:[1 2]} ", &names, c.pick(4, 5), &["1 ", "}", "]"]);
}
/// Where a character is, or may be, at fault.
const AROUND: &[&str] = &["C", "Cx:1", "x:1 yC:1", "x:1 yC", "x:C", "x:C ", "x:yC", "x:@C", "x:@yC ", "x:1C", "x:-C", "x:1.C", "x:1+C", "x:[C", "x:(1 C)", "x:{C:1}", "x:\"\\C\"", "x:\"s\"C", "x:[]C", "x:{}C1", "x:{y:1} z:x.C", "x:[1] z:x.C", "x:<C>", "x:<\"C\">", "x:<\"zC/y\">", "@C:1", "^C:1", "x:1 x:\n\nC", "@y:1 @yC:2 @yC:3", "yC:1 yC:2"];
fn unicode29(c: &mut Ctx) {
    for ch in scalars() {
        if c.thorough() || (ch as u32) < 0x3100 || (ch as u32) % 64 < 2 || (ch as u32) > 0xfe00 && (ch as u32) < 0x10100 {
            c.case(&ch.to_string());
        }
    }
}
fn unicode29_exec(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut n = 0;
    for a in AROUND {
        let x = a.replace('C', t);
        let r = text_case(&x, WHAT).map_err(|e| format!("{}\n   text: {:?}", e, x))?;
        h.u(r.state);
        n += 1;
    }
    Ok(Done { state: h.0, alive: true, steps: n, runs: n, skipped: false })
}
fn all_values(c: &Ctx) -> Vec<String> {
    let mut v = el_list(c.pick(2, 3));
    v.extend(["-1", "0", "\"\"", "(1 [] (\"s\"))", "[([] 1)]", "[[[]]]", "((()))", "[{}]", "({} null)", "[1 2 3]", "9999999999999999999999", "-0.5", "{a:1}", "{^:{a:1}}", "[[\"a\"] [\"b\"]]", "(true false)"].iter().map(|s| s.to_string()));
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
/// All pairs of values in everything that takes two (or more) of them.
fn pairs29(c: &mut Ctx) {
    let v = all_values(c);
    for a in &v {
        let mut one: Vec<String> = vec![];
        for p in ["^:V", "x:-V", "x:+V", "x:--V", "x:<V>", "x:<Str V>", "@g:V x:@g.y", "x:V y:x.z", "x:V y:x.1", "x:{y:V} z:x.y.z", "x:[V] z:x.0.5", "x:(1 V) z:x.1.y", "i:V x:[1] y:x.i", "@i:V x:(1) y:x.@i", "x:{^:V}", "x:[1 V]", "x:[{} V]"] {
            one.push(p.replace('V', a));
        }
        if c.mine() {
            c.run(&one.join(&SEP.to_string()), true);
        }
        for b in &v {
            if !c.mine() {
                continue;
            }
            let mut x = vec![];
            for op in ["+", "-", "*", "/", "%"] {
                x.push(format!("x:{}{}{}", a, op, b));
                x.push(format!("a:{} b:{} x:a{}b", a, b, op));
                x.push(format!("x:1+2{}{}{}{}", op, a, op, b));
            }
            x.push(format!("x:[{} {}]", a, b));
            x.push(format!("x:[{} {} {}]", a, a, b));
            x.push(format!("x:[[{}] [{}]]", a, b));
            x.push(format!("x:[({}) ({})]", a, b));
            x.push(format!("x:[({} 1) ({} [])]", a, b));
            x.push(format!("x:[({}) ({} {})]", a, a, b));
            x.push(format!("x:[[] [{}] {}]", a, b));
            x.push(format!("x:[[] [[]] [{}] [{}]]", a, b));
            c.run(&x.join(&SEP.to_string()), true);
        }
    }
}
fn index29(c: &mut Ctx) {
    for k in 0..=130usize {
        for d in -2i64..=2 {
            let i = (BigInt::from(1) << k) + BigInt::from(d);
            let mut v = vec![];
            for i in [i.clone(), -i] {
                for (o, cl) in [("[", "]"), ("(", ")")] {
                    for n in [0, 1, 3, 200] {
                        v.push(format!("x:{}{}{} i:{} y:x.i", o, "7 ".repeat(n), cl, i));
                        if i >= zero() {
                            v.push(format!("x:{}{}{} y:x.{}", o, "7 ".repeat(n), cl, i));
                        }
                    }
                }
            }
            c.case(&v.join(&SEP.to_string()));
        }
    }
}
/// Names of every length, wrong in all ways.
fn names29(c: &mut Ctx) {
    for n in (1..c.pick(300, 1500)).chain(crate::sizes::sizes(c)) {
        for u in ["n", "é", "𝒳", "ab_1"] {
            if n > 20_000 && u != "n" {
                continue;
            }
            let x: String = format!("q{}", u.repeat(n)).chars().take(n).collect();
            let y = format!("{}z", x);
            let mut v = vec![];
            for t in ["a:X", "X:1 X:2", "@X:1 @X:2", "a:@X", "X:1 a:Y", "Y:1 a:X", "@X:1 a:@Y", "@Y:1 a:@X", "X:1 Y:2 X:3", "X:1 Y:2 Y:3", "X:{a:1} b:X.Y", "X:{Y:1} b:X.X", "X:{Y:{}} b:X.Y.X", "^X:1", "@^X:1", "a:<\"X\">", "a:<\"X/Y\">", "a:<Str \"../X\">", "X:{Y:1 Y:2}", "X:1 o:{Y:X}", "^:{Y:1} a:Y", "X:1 b:X.Y", "X:\"s\" b:[1] c:b.X"] {
                v.push(t.replace('X', &x).replace('Y', &y));
            }
            c.case(&v.join(&SEP.to_string()));
        }
    }
}
fn files29(c: &mut Ctx) {
    crate::props_text2::c17_files(c);
    crate::props_text2::c17_inside(c);
}
fn files29_exec(t: &str) -> CaseRes {
    if t.contains(SEP) {
        disk_what(t)
    } else {
        what_text(t)
    }
}
/// Circles: the include that closes it is named, as written.
fn circles29(c: &mut Ctx) {
    let s = SEP;
    for n in 1..c.pick(12, 40) {
        for w in ["f", "./f", "../t/f", "d/../f", "l", "d/l"] {
            for k in ["", "Obj ", "Arr ", "Tup "] {
                let mut t = format!("d/{}", s);
                // By links of other names.
                for i in 0..n {
                    match w {
                        "l" => t.push_str(&format!("l{}>f{}{}", i, i, s)),
                        "d/l" if n > 3 => t.push_str(&format!("d/l{}>../f{}{}", i, (i + 1) % n, s)),
                        "d/l" => t.push_str(&format!("d/l{}>../f{}{}", i, i, s)),
                        _ => (),
                    }
                }
                for i in 0..n {
                    let body = format!("<{}\"{}{}\">", if i + 1 == n { "" } else { k }, w, (i + 1) % n);
                    let top = i == 0 || k == "" || k == "Obj ";
                    t.push_str(&format!("f{}={}{}{}", i, if top { "\na: " } else { "\n1 " }, body, s));
                }
                c.case(&format!("{}!t/f0{}=x:<\"t/f0\">", t, s));
            }
        }
    }
}
fn sizes29(c: &mut Ctx) {
    crate::sizes::queue(c, &["odd", "dups", "globals", "name", "fault", "merge", "cut", "empties", "chain", "parents-in", "arr", "tup", "obj", "fields", "sums", "digits"]);
}
fn sizes29_exec(t: &str) -> CaseRes {
    crate::sizes::each(t, what_text)
}
/// The errors of constructors and getters, and how they are displayed.
fn api29_exec(t: &str) -> CaseRes {
    let v: Vec<&str> = t.split(SEP).collect();
    let m: Vec<MV> = v.iter().map(|x| eval_text(&format!("a:{}", x), None).res.unwrap().own("a").unwrap().clone()).collect();
    let r: Vec<Value> = v.iter().map(|x| Obj::from_str(&format!("a:{}", x)).unwrap().get("a").unwrap()).collect();
    let mut h = H::new();
    // Types unify from the left; the first that does not is reported.
    let mut ty = Ty::Any;
    let mut bad = None;
    for x in &m {
        match unify(&ty, &x.ty()) {
            Some(t) => ty = t,
            None => {
                bad = Some((ty.clone(), x.ty()));
                break;
            }
        }
    }
    let shows = |e: &OverError, items: &[String]| {
        let s = e.to_string();
        let mut from = 0;
        for i in items {
            match s[from..].find(&i[..]) {
                Some(p) => from += p + i.len(),
                None => return Err(format!("{:?} is shown as {:?}, without {:?}", e, s, i)),
            }
        }
        Ok(())
    };
    match (Arr::from_values(r.clone()), bad) {
        (Ok(_), None) => (),
        (Err(OverError::ArrTypeMismatch(a, b)), Some((x, y))) => {
            // Displayed exactly: what is equal may still be shown differently.
            if a.to_string() != x.show() || b.to_string() != y.show() {
                return Err(format!("an array of {:?} is refused because of {} and {}, but these are {} and {}", v, a, b, x.show(), y.show()));
            }
            shows(&OverError::ArrTypeMismatch(a, b), &[x.show(), y.show()])?;
        }
        (r, b) => return Err(format!("an array of {:?}: {:?}, expected {:?}", v, r.map(|_| ()), b.map(|b| (b.0.show(), b.1.show())))),
    }
    for (x, y) in r.iter().zip(&m) {
        let t = y.ty();
        let want = [("Bool", x.get_bool().err()), ("Int", x.get_int().err()), ("Str", x.get_str().err()), ("Arr", x.get_arr().err()), ("Tup", x.get_tup().err()), ("Obj", x.get_obj().err()), ("Frac", x.get_frac().err())];
        let o = Obj::from_pairs(vec![Pair("f".into(), x.clone())], None).unwrap();
        let on = [o.get_bool("f").err(), o.get_int("f").err(), o.get_str("f").err(), o.get_arr("f").err(), o.get_tup("f").err(), o.get_obj("f").err(), o.get_frac("f").err()];
        let none = [o.get_bool("g").err(), o.get_int("g").err(), o.get_str("g").err(), o.get_arr("g").err(), o.get_tup("g").err(), o.get_obj("g").err(), o.get_frac("g").err()];
        for (i, (w, e)) in want.into_iter().enumerate() {
            if e != on[i] {
                return Err(format!("get_{} of {} fails with {:?}, of a field with {:?}", w, t.show(), e, on[i]));
            }
            match e {
                None => (),
                Some(e @ OverError::TypeMismatch(_, _)) => shows(&e, &[w.to_string(), t.show()])?,
                Some(e) => return Err(format!("get_{} of {} fails with {:?}", w, t.show(), e)),
            }
            if none[i] != Some(OverError::FieldNotFound("g".into())) {
                return Err(format!("get_{} of a missing field fails with {:?}", w, none[i]));
            }
        }
        let n = 7;
        for i in [0usize, 1, 2, 9, 1000, usize::MAX] {
            let (e, w) = match x {
                Value::Arr(a) => (a.get(i).err(), OverError::ArrOutOfBounds(i)),
                Value::Tup(a) => (a.get(i).err(), OverError::TupOutOfBounds(i)),
                _ => continue,
            };
            if let Some(e) = e {
                if e != w {
                    return Err(format!("get({}) of a {} fails with {:?}", i, t.show(), e));
                }
                shows(&e, &[i.to_string()])?;
            }
        }
        h.u(n);
    }
    for w in v.iter() {
        h.s(w);
    }
    done(h.0, v.len() as u64)
}
fn done(state: u64, n: u64) -> CaseRes {
    Ok(Done { state, alive: true, steps: n, runs: n, skipped: false })
}
fn api29(c: &mut Ctx) {
    let v = all_values(c);
    for a in &v {
        for b in &v {
            c.case(&format!("{}{}{}", a, SEP, b));
            for x in ["[]", "[[]]", "([])", "1"] {
                c.case(&[x, a, b].join(&SEP.to_string()));
                c.case(&[a, x, b].join(&SEP.to_string()));
            }
        }
    }
}
/// The names of fields that are missing, or that no field can have.
fn missing29_exec(t: &str) -> CaseRes {
    let o = Obj::from_str("a:1 b:\"s\" ^:{c:[1]}").unwrap();
    let has = ["a", "b", "c"].contains(&t);
    for e in [o.get_bool(t).err(), o.get_int(t).err(), o.get_str(t).err(), o.get_arr(t).err(), o.get_tup(t).err(), o.get_obj(t).err(), o.get_frac(t).err()] {
        let e = match e {
            None if has => continue,
            None => return Err(format!("there is a field {:?}", t)),
            Some(e) => e,
        };
        if !has {
            if e != OverError::FieldNotFound(t.into()) {
                return Err(format!("the missing field {:?} gives {:?}", t, e));
            }
            let s = e.to_string();
            if !ways(t).iter().any(|w| s.contains(&w[..])) {
                return Err(format!("the missing field {:?} is shown as {:?}", t, s));
            }
        }
    }
    match Obj::from_pairs(vec![Pair("ok".into(), Value::Null), Pair(t.into(), Value::Null)], None) {
        Ok(_) if valid_name(t) => (),
        Err(e) if !valid_name(t) && e == OverError::InvalidFieldName(t.into()) => {
            let s = e.to_string();
            if !ways(t).iter().any(|w| s.contains(&w[..])) {
                return Err(format!("the invalid name {:?} is shown as {:?}", t, s));
            }
        }
        r => return Err(format!("a field {:?} gives {:?}", t, r.map(|_| ()))),
    }
    let mut h = H::new();
    h.s(t);
    done(h.0, 8)
}
fn missing29(c: &mut Ctx) {
    c.tree("", &["a", "b", "_", "1", "@", "^", " ", "\n", "é", ".", "\"", "\0", ":", "{}", "\\", "A", "#", "Obj", "null", "\u{301}"], c.pick(4, 5), &[]);
    for ch in scalars() {
        c.case(&format!("x{}", ch));
        c.case(&format!("{}x", ch));
    }
    for n in (1..c.pick(600, 3000)).chain(crate::sizes::sizes(c)) {
        for u in ["n", "é", "^", "@", " ", "9"] {
            c.case(&u.repeat(n));
            c.case(&format!("n{}", u.repeat(n)));
        }
    }
}
pub fn c29() -> Prop {
    Prop {
        id: "C29",
        level: "model_checking",
        assumptions: vec!["the words for a kind of fault are those of one example of it", "of a whole number and a fraction as operands of %, either may be called a fraction"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "edits", what: "every single edit of 45 texts", gen: edits29, exec: what_text },
            Family { name: "tokens", what: "all token sequences of up to 5 (6) over 26 and over 24 tokens, of 4 (5) over 19 tokens of similar names from 2 beginnings", gen: tokens29, exec: what_text },
            Family { name: "pairs", what: "all pairs of values of every type in every operator, in arrays, tuples in arrays; each as parent, signed, as include, index, container", gen: pairs29, exec: each_what },
            Family { name: "index", what: "indices 2^k-2..2^k+2, k to 130, both signs, of 4 sizes", gen: index29, exec: each_what },
            Family { name: "names", what: "names of every length to 300 (1500) and around powers of two, of 4 kinds, in 23 faults", gen: names29, exec: each_what },
            Family { name: "unicode", what: "Unicode scalar values (quick: of the lower planes, and 1 in 32) in 30 places", gen: unicode29, exec: unicode29_exec },
            Family { name: "files", what: "the 70 faults of C17 in files and in contexts", gen: files29, exec: files29_exec },
            Family { name: "circles", what: "circles of up to 11 (39) includes of 4 spellings, and by links of other names, as each type", gen: circles29, exec: disk_what },
            Family { name: "sizes", what: crate::sizes::WHAT, gen: sizes29, exec: sizes29_exec },
            Family { name: "missing", what: "names of up to 4 (5) of 20 pieces, with every Unicode scalar value, of every length to 600 (3000) and around powers of two, asked for and given to the constructor", gen: missing29, exec: missing29_exec },
            Family { name: "api", what: "all pairs of values, and with a third of 4, in the constructor; every getter of each", gen: api29, exec: api29_exec },
        ],
    }
}
