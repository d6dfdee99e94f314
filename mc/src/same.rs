//! What makes no difference: whether a text is in a file or a string (C30), where a value stands (C31), which names
//! are chosen (C32).

use crate::cmp::*;
use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use crate::props_more::TOKENS;
use crate::props_val::el_list;
use over::value::Value;
use over::{Obj, OverError};
use std::fs;
use std::rc::Rc;
use std::str::FromStr;

fn done(state: u64, n: u64) -> CaseRes {
    Ok(Done { state, alive: true, steps: n, runs: n, skipped: false })
}

// ---------------------------------------------------------------- C30

/// Everything a value shows of itself, but its ID.
pub fn shows(v: &Value, s: &mut String) {
    s.push_str(&v.get_type().to_string());
    match v {
        Value::Arr(a) => {
            s.push_str(&format!("[{}:", a.inner_type()));
            a.values_ref().iter().for_each(|x| shows(x, s));
            s.push(']');
        }
        Value::Tup(a) => {
            s.push('(');
            a.values_ref().iter().for_each(|x| shows(x, s));
            s.push(')');
        }
        Value::Obj(o) => {
            s.push('{');
            for p in o.pairs_ref() {
                s.push_str(&format!("{:?}:", p.0));
                shows(&p.1, s);
            }
            if let Some(p) = o.get_parent() {
                s.push('^');
                shows(&Value::Obj(p), s);
            }
            s.push('}');
        }
        x => s.push_str(&format!("{:?}", x)),
    }
}
pub fn outcome(r: &Result<Obj, OverError>) -> Result<String, String> {
    match r {
        Ok(o) => {
            let mut s = String::new();
            shows(&Value::Obj(o.clone()), &mut s);
            Ok(s)
        }
        Err(e) => Err(e.to_string()),
    }
}
/// The path of an included file may be spelled from the file that includes it.
fn same_but_path(x: &str, y: &str) -> bool {
    match (x.find(": "), y.find(": ")) {
        (Some(i), Some(j)) => {
            let (a, b) = (fs::canonicalize(&x[..i]), fs::canonicalize(&y[..j]));
            x[i..] == y[j..] && a.is_ok() && a.ok() == b.ok()
        }
        _ => false,
    }
}
const SPELLINGS: [&str; 4] = ["f30", "./f30", "%/f30", ".//f30"];
/// The text as a string, and as a file in the current directory by several spellings.
fn alike30(t: &str) -> Result<(u64, u64), String> {
    thread_local! {
        static CWD: String = std::env::current_dir().unwrap().to_str().unwrap().to_string();
    }
    let a = Obj::from_str(t);
    let x = outcome(&a);
    fs::write("f30", t).unwrap();
    let mut h = H::new();
    let mut n = 1;
    for p in SPELLINGS.iter().take(if t.len() < 3000 { 4 } else { 1 }) {
        let p = CWD.with(|c| p.replace('%', c));
        let b = Obj::from_file(&p);
        n += 1;
        match (&x, outcome(&b)) {
            (Ok(x), Ok(y)) if *x == y => (),
            (Err(x), Err(y)) if *x == y || y.strip_prefix(&p[..]).map_or(false, |r| r.strip_prefix(": ") == Some(x)) || same_but_path(x, &y) => (),
            (x, y) => {
                let y = y.map_err(|e| e);
                return Err(format!("from the file {:?}: {}, from the string: {}", p, show(&y), show(x)));
            }
        }
        if let (Ok(o), true) = (&a, n == 2) {
            // Written to a file and to a string.
            let s = o.write_to_string();
            let _ = fs::remove_file("g30");
            o.write_to_file("g30").map_err(|e| format!("cannot be written: {}", e))?;
            if fs::read("g30").unwrap() != s.as_bytes() {
                return Err(format!("written to a file {:?}, to a string {:?}", fs::read_to_string("g30"), s));
            }
            n += 2;
        }
    }
    match &x {
        Ok(s) | Err(s) => h.s(s),
    }
    Ok((h.0, n))
}
pub fn show(x: &Result<String, String>) -> String {
    match x {
        Ok(s) => s.chars().take(200).collect(),
        Err(e) => format!("error {:?}", e),
    }
}
/// One text: dead if the model says so.
fn text30(t: &str) -> CaseRes {
    let (h, n) = alike30(t)?;
    let m = eval_text(t, None);
    Ok(Done { state: h, alive: m.res.is_ok() || m.saw_end || m.quirk || t.contains('<'), steps: n, runs: n, skipped: false })
}
fn each30(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut n = 0;
    for x in t.split(SEP) {
        let (a, b) = alike30(x).map_err(|e| format!("{}\n   text: {:?}", e, x.chars().take(300).collect::<String>()))?;
        h.u(a);
        n += b;
    }
    done(h.0, n)
}
fn tokens30(c: &mut Ctx) {
    let k = c.pick(3, 4);
    c.tree("", TOKENS, k, &[]);
    c.tree("a:", TOKENS, k, &[]);
    c.tree("o:{a:(0 1)}\n@g:o\nb:", TOKENS, k, &[]);
    // Characters that reading a file might treat in a way of its own.
    let abc = ["a", "1", ":", "\r", "\n", "\u{feff}", "\u{0}", "\u{1a}", "\"", "é", "\u{10ffff}", "#", " ", "\\", "\t", "\u{c}", "\u{b}", "\u{85}", "\u{2028}"];
    c.tree("", &abc, c.pick(4, 5), &[]);
    c.tree("a:", &abc, k, &[]);
    c.tree("a:\"", &abc, k, &[]);
    c.tree("a:1#", &abc, k, &[]);
    // Includes.
    c.tree("a:<", &["\"inc30\"", "\"./inc30\"", "\"none\"", "Str", "Arr", "Tup", "Obj", " ", ">", "\"\"", "1", "\"d30/i\"", "\".\"", "\"..\"", "+", "\"/\"", ".0", "[", "]"], c.pick(4, 5), &[]);
}
fn includes30(t: &str) -> CaseRes {
    // (Laid out anew each time: it costs little.)
    fs::create_dir_all("d30").unwrap();
    fs::write("inc30", "x:1 y:[2]\n").unwrap();
    fs::write("d30/i", "1 2 3").unwrap();
    text30(t)
}
fn edits30(c: &mut Ctx) {
    for d in SHORT.iter().chain(LONG) {
        edits(d, &mut |t| c.case(t));
        cuts(d, &mut |t| c.case(t));
    }
}
fn unicode30(c: &mut Ctx) {
    for ch in scalars() {
        if c.thorough() || (ch as u32) < 0x3100 || (ch as u32) % 64 < 2 || (ch as u32) > 0xfe00 && (ch as u32) < 0x10100 {
            c.case(&["Ca:1", "a:1C", "a:\"C\"", "a:\"\\C\"", "#C\na:1", "aC:1", "a:C", "a:1 Cb:2", "a:[C]"].iter().map(|p| p.replace('C', &ch.to_string())).collect::<Vec<_>>().join(&SEP.to_string()));
        }
    }
}
fn sizes30(c: &mut Ctx) {
    crate::sizes::queue(c, &["arr", "tup", "strs", "objs", "odd-lines", "obj", "fields", "globals", "name", "digits", "blanks", "string", "fault", "merge", "sums"]);
}
fn sizes30_exec(t: &str) -> CaseRes {
    crate::sizes::each(t, |x| {
        let (h, n) = alike30(x)?;
        done(h, n)
    })
}
fn lengths30(c: &mut Ctx) {
    // Files of every length, ending in a character of each width and in halves of constructs.
    for n in (0..c.pick(600, 5000)).chain(crate::sizes::sizes(c)) {
        let mut v = vec![];
        for u in ["a", "é", "中", "😀"] {
            for e in ["\"", "\"\n", "", "\" b:]", "\" b:1", "\\", "\" #", "\"\r"] {
                v.push(format!("x:\"{}{}{}", "y".repeat(n), u, e));
            }
            v.push(format!("x:1 #{}{}", "y".repeat(n), u));
            v.push(format!("{}{}:1", "y".repeat(n), u));
        }
        c.case(&v.join(&SEP.to_string()));
    }
}
pub fn c30() -> Prop {
    Prop {
        id: "C30",
        level: "model_checking",
        assumptions: vec!["the file lies in the working directory, so that includes mean the same"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "tokens", what: "all sequences of up to 3 (4) of 34 tokens from 3 beginnings, of 4 (5) of 19 special characters, of 3 (4) after 3 beginnings, all includes of up to 4 (5) of 19 tokens; each as a string and as a file by 4 spellings of its path", gen: tokens30, exec: includes30 },
            Family { name: "edits", what: "all single edits and cuts of 45 texts, the same", gen: edits30, exec: text30 },
            Family { name: "unicode", what: "Unicode scalar values (quick: of the lower planes, and 1 in 32) in 9 places", gen: unicode30, exec: each30 },
            Family { name: "lengths", what: "files of every length to 600 (5000) and around powers of two to 2^16 (2^17) with 34 ends", gen: lengths30, exec: each30 },
            Family { name: "sizes", what: crate::sizes::WHAT, gen: sizes30, exec: sizes30_exec },
        ],
    }
}

// ---------------------------------------------------------------- C31

const PRE: &str = "@g:[1 2] @h:{p:\"s\" q:{r:2}} a:1.5 o:{p:(1 2) ^:{q:[3]}}\n";
/// Where a value V may stand, and the way to it (fields by name, elements by number).
const PLACES: &[(&str, &[&str])] = &[
    ("x:V\n", &["x"]),
    ("x:[V\n]", &["x", "0"]),
    ("x:(V\n)", &["x", "0"]),
    ("x:(1 V\n\"s\")", &["x", "1"]),
    ("x:(V\nV\n)", &["x", "1"]),
    ("x:({} [] \"}\" V\n#]\n)", &["x", "3"]),
    ("x:[V\nV\nV\n]", &["x", "2"]),
    ("x:[[] [V\n]]", &["x", "1", "0"]),
    ("x:[V\n]+[V\n]", &["x", "1"]),
    ("x:[]+[V\n]", &["x", "0"]),
    ("x:{y:V\n}", &["x", "y"]),
    ("x:{y:V\nz:1}", &["x", "y"]),
    ("x:{^:{y:V\n}}", &["x", "y"]),
    ("^:{x:V\n}", &["x"]),
    ("w:1 x:V\nz:2", &["x"]),
    ("@z:V\nx:@z", &["x"]),
    ("@z:V\nx:{y:[@z]}", &["x", "y", "0"]),
    ("y:V\nx:y", &["x"]),
    ("y:V\nx:(y y)", &["x", "1"]),
    ("y:[V\n] x:y.0", &["x"]),
    ("y:(0 V\n) x:y.1", &["x"]),
    ("y:{z:V\n} x:y.z", &["x"]),
    ("y:{^:{z:V\n}} x:y.z", &["x"]),
    ("@y:{z:{w:V\n}} x:@y.z.w", &["x"]),
    ("x:(((((V\n)))))", &["x", "0", "0", "0", "0", "0"]),
    ("x:[{a:[({b:V\n})]}]", &["x", "0", "a", "0", "0", "b"]),
    ("x:((((((((((((((((((((((((((((((((((((((((V\n))))))))))))))))))))))))))))))))))))))))", &["x", "0*40"]),
    ("\n\n\t x:\r\n\t#c V\n V\n#d", &["x"]),
    ("x:1 y:{x:2} z:{x:V\n}", &["z", "x"]),
];
const FILES: &[(&str, &str, &[&str])] = &[
    // The file, what includes it, the way.
    ("P x:V\n", "z:<\"v31\">", &["z", "x"]),
    ("V", "z:<Arr \"v31\">", &["z", "0"]),
    ("\n V\n#c", "z:<Tup \"v31\">", &["z", "0"]),
    ("1 V\n \"s\"", "z:<Tup \"v31\">", &["z", "1"]),
    ("[V\n] [] [V\n]", "z:<Arr \"v31\">", &["z", "2", "0"]),
    ("P x:[V\n]", "z:[<Obj \"v31\">]", &["z", "0", "x", "0"]),
    ("P x:V\n", "^:<\"v31\">", &["x"]),
    ("V\nV\nV", "z:<Arr \"v31\">", &["z", "2"]),
    ("V\nV #c", "z:<Tup \"v31\">", &["z", "1"]),
    ("{} V", "z:<Tup \"v31\">", &["z", "1"]),
    ("(V\n)", "@z:<Tup \"v31\"> x:{y:@z.0}", &["x", "y", "0"]),
];
fn reach(o: &Obj, way: &[&str]) -> Result<Value, String> {
    let mut v = Value::Obj(o.clone());
    for w in way {
        let (w, n) = match w.split_once('*') {
            Some((w, n)) => (w, n.parse::<usize>().unwrap()),
            None => (*w, 1),
        };
        for _ in 0..n {
            v = match &v {
                Value::Obj(o) => o.get(w).ok_or(format!("no {}", w))?,
                Value::Arr(a) => a.get(w.parse().map_err(|_| "an array".to_string())?).map_err(|e| e.to_string())?,
                Value::Tup(a) => a.get(w.parse().map_err(|_| "a tuple".to_string())?).map_err(|e| e.to_string())?,
                _ => return Err(format!("no {}", w)),
            };
        }
    }
    Ok(v)
}
/// Whether it may define a global (which can be done once only).
fn defines(v: &str) -> bool {
    v.split('@').skip(1).any(|r| r.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_').starts_with(':'))
}
/// What is no value is none elsewhere. (It may be several, or part of what stands around it: only where the model agrees.)
fn no_value(v: &str, m: &Outcome, alive: bool) -> CaseRes {
    let mut n = 0;
    for (p, _) in [1usize, 3, 11, 15, 20].iter().map(|i| &PLACES[*i]) {
        let x = format!("{}{}", if v.contains(|c| "ao@".contains(c)) { PRE } else { "" }, p.replace('V', v));
        let e = eval_text(&x, None);
        if e.res.is_ok() || e.quirk {
            continue;
        }
        n += 1;
        if Obj::from_str(&x).is_ok() {
            return Err(format!("{:?} is no value, but is accepted in {:?}", v, p));
        }
    }
    Ok(Done { alive, steps: n, runs: n, ..Done::state(outcome_hash(m)) })
}
fn exec31(t: &str) -> CaseRes {
    let m = eval_text(t, None);
    let alive = m.res.is_ok() || m.saw_end || m.quirk;
    let v = t.strip_prefix(PRE).and_then(|t| t.strip_prefix("x:")).unwrap();
    let want = match &m.res {
        Ok(o) if !m.quirk && o.pairs.len() == 3 && o.parent.is_none() && !defines(v) => o.own("x").unwrap().clone(),
        // (With more fields or globals it is no value alone.)
        Ok(_) => return Ok(Done { alive, ..Done::state(outcome_hash(&m)) }),
        Err(_) => return no_value(v, &m, alive),
    };
    let mut h = H::new();
    h.u(outcome_hash(&m));
    let mut n = 0;
    let mut one = |r: Result<Obj, OverError>, what: &str, way: &[&str]| -> Result<(), String> {
        n += 1;
        let got = match r {
            Ok(o) => reach(&o, way),
            Err(e) => Err(e.to_string()),
        };
        let got = got.map_err(|e| format!("{:?} is a value, but in {:?}: {}", v, what, e))?;
        Cmp::typed().val(&got, &want).map_err(|e| format!("{:?} has another value in {:?}: {}", v, what, e))
    };
    // (In 2,000 levels of brackets nothing more fits in.)
    let deep = v.matches(|c| "[({".contains(c)).count();
    for (p, way) in PLACES {
        if way.contains(&"0*40") && deep > 20 {
            continue;
        }
        let x = format!("{}{}", PRE, p.replace('V', v));
        let r = Obj::from_str(&x);
        if r.is_err() && v.len() < 2000 && eval_text(&x, None).res.is_err() {
            continue; // It needs names that are not in scope there.
        }
        one(r, p, way)?;
    }
    let mut needs = None;
    for (f, p, way) in FILES {
        let alone = !f.starts_with("P ");
        if alone && v.len() < 2000 && *needs.get_or_insert_with(|| eval_text(&format!("x:{}", v), None).res.is_err()) {
            continue;
        }
        fs::write("v31", f.replace("P ", PRE).replace('V', v)).unwrap();
        one(Obj::from_str(p), &format!("{} with {}", p, f), way)?;
    }
    Ok(Done { state: h.0, alive, steps: n, runs: n, skipped: false })
}
const VALUE_TOKENS: &[&str] = &["1", "-", "+", "*", "/", "%", "\"s\"", "[", "]", "(", ")", "{", "}", "b:", "null", "true", ".5", "a", "o", ".p", ".q", "@g", "@h", ".0", ".1", " ", "\n", "^:", "#c\n", "2.50", "_", "\"\\n\\\"\"", ",", ",5"];
fn tokens31(c: &mut Ctx) {
    let p = format!("{}x:", PRE);
    c.tree(&p, VALUE_TOKENS, c.pick(4, 5), &[]);
    for q in ["[", "(", "{b:", "[1 ", "(a ", "1+", "-", "[[] ", "o.q+", "@h."] {
        c.tree(&format!("{}{}", p, q), VALUE_TOKENS, c.pick(3, 4), &[]);
    }
}
fn values31(c: &mut Ctx) {
    let p = format!("{}x:", PRE);
    for v in el_list(c.pick(4, 5)) {
        c.case(&format!("{}{}", p, v));
    }
    for v in crate::values::many_leaves() {
        c.case(&format!("{}{}", p, lit(&v)));
    }
    for n in (1..c.pick(200, 1500)).chain(crate::sizes::sizes(c)) {
        let mut v: Vec<String> = vec![];
        v.push(format!("\"{}\"", "s".repeat(n)));
        v.push(format!("\"{}\"", "é\\n".repeat(n)));
        v.push(format!("[{}]", "1 ".repeat(n)));
        v.push(format!("({})", "\"s\" ".repeat(n)));
        if n < 5000 {
            v.push("7".repeat(n));
            v.push(format!("0.{}", "7".repeat(n)));
            v.push(format!("1{}", "+1".repeat(n)));
            v.push(format!("{}1", "-".repeat(n)));
            v.push(format!("{{{}}}", (0..n).map(|i| format!("n{}:{} ", i, i)).collect::<String>()));
        }
        if n < 60 {
            for (o, cl) in [("[", "]"), ("(", ")"), ("{b:", "}"), ("{^:{", "}}"), ("[({b:", "})]")] {
                v.push(format!("{}{}", o.repeat(n / o.matches(|c| "[({".contains(c)).count()), cl.repeat(n / o.matches(|c| "[({".contains(c)).count())));
            }
        }
        for x in v {
            if !x.ends_with(":}") {
                c.case(&format!("{}{}", p, x));
            }
        }
    }
}
fn unicode31(c: &mut Ctx) {
    for ch in scalars() {
        if c.thorough() || (ch as u32) < 0x3100 || (ch as u32) % 512 < 2 {
            c.case(&format!("{}x:\"{}\"", PRE, ch));
            c.case(&format!("{}x:{{b{}:1}}", PRE, ch));
            c.case(&format!("{}x:1{}", PRE, ch));
        }
    }
}
pub fn c31() -> Prop {
    Prop {
        id: "C31",
        level: "model_checking",
        assumptions: vec!["a value that uses fields by name is placed only where these are in scope"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "tokens", what: "all sequences of up to 4 (5) of 34 tokens, of 3 (4) after 10 beginnings, that form one value: it is the same value of the same type in 29 places of a text and 11 of included files; and what is none is none in 5 places", gen: tokens31, exec: exec31 },
            Family { name: "values", what: "all values of up to 4 (5) nodes, 70 leaves, strings, numbers, containers of every size to 200 (1500) and around powers of two", gen: values31, exec: exec31 },
            Family { name: "unicode", what: "Unicode scalar values (quick: to U+3100, and 1 in 256) in strings, in names, behind a number", gen: unicode31, exec: exec31 },
        ],
    }
}

// ---------------------------------------------------------------- C32

/// Valid names someone might treat specially, or take for each other.
fn labels() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "b", "c", "A", "B", "x", "X", "y", "_", "__", "_a", "a_", "a__b", "a1", "a01", "a10", "e", "E", "e5", "E5", "x0", "o7", "b1", "inf", "nan", "NaN", "Infinity", "nul", "nulll", "Null", "NULL", "null_", "_null", "nullx", "True", "TRUE", "true1", "truee", "tru", "trueish", "False", "fals", "falsey",
        "false_", "Objx", "Obj_", "obj", "OBJ", "Ob", "Object", "Strx", "str", "String", "Arrx", "arr", "Array", "Tupx", "tup", "Tuple", "Any", "Int", "Frac", "Bool", "include", "import", "parent", "self", "super", "this", "base", "root", "global", "len", "get", "id", "type", "value", "values", "key", "keys", "name", "field",
        "fields", "length", "size", "index", "first", "last", "and", "or", "not", "mod", "div", "xor", "if", "then", "else", "let", "in", "for", "fn", "as", "is", "none", "None", "nil", "undefined", "yes", "no", "on", "off", "Aa", "BB", "AaAa", "BBBB", "AaBB", "aB", "Ab", "ab", "ba", "abc", "acb", "cab", "proto", "constructor",
        "__proto__", "__init__", "é", "É", "è", "e_", "ß", "ẞ", "ss", "İ", "ı", "i", "I", "ﬁ", "fi", "а", "α", "Ω", "ω", "ﾊ", "中", "国", "中国", "𝒳", "𝐚", "ªb", "ʰ", "Ⅷ", "ǆ", "ǅ", "Ǆ", "ſ", "s", "S", "K", "k", "µ", "μ", "aª", "ñ", "Å", "Å", "Ω", "K", "n\u{303}", "한", "각", "豈", "豈", "ﬀ", "ff", "Ａ", "ｱ", "ア", "Ĳ", "ĳ", "IJ", "DŽ", "ŉ", "ͅ", "ι", "Ι", "ς", "σ", "Σ", "ϐ", "β", "ө", "θ", "ϑ",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.retain(|s| valid_name(s) && !reserved(s));
    for n in [8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] {
        v.push("n".repeat(n));
        v.push(format!("{}m", "n".repeat(n - 1)));
        v.push(format!("m{}", "n".repeat(n - 1)));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
const BIG: &[&str] = &[
    "p:{q:{p:1 q:2} p:3} x:p.q.p y:p.q.q z:p.p", "p:{^:{^:{p:1 q:2} q:3} x:4} y:p.p z:p.q", "@p:1 @q:2 p:@q q:@p x:(p q @p @q)", "@p:{q:1} p:{^:@p p:2} q:p.q+p.p", "p:1 q:[p p+1] x:q.p", "p:0 q:{p:[7 8]} x:q.p.0", "p:1 o:{p:2 q:{p:3}} x:o.p y:o.q.p z:p",
    "^:{p:1 q:{p:2}} p:3", "q:1 p:(1 {q:2}) x:p.q", "@q:{p:{q:{p:5}}} x:@q.p.q.p", "p:\"p\" q:\"q\" x:p+q", "p:1 q:-p x:p*q-p%2", "p:{q:1} q:p.q", "q:0 p:[{q:1} {q:2}] x:p.q y:x.q", "@p:[1 2] q:@p.0+@p.1",
    ];
/// Texts over the names p and q (no other letters of theirs occur).
fn shapes32(n: usize) -> (Vec<String>, Vec<String>) {
    let toks = ["p:", "q:", "@p:", "@q:", "1 ", "2 ", "p ", "q ", "@p ", "@q ", "{", "}", "^:", ".p ", ".q ", "[", "] ", "p.", "@q."];
    let (mut out, mut bad) = (vec![], vec![]);
    fn rec(t: &str, toks: &[&str], n: usize, out: &mut Vec<String>, bad: &mut Vec<String>) {
        let m = eval_text(t, None);
        if m.res.is_ok() {
            if t.contains('p') && !m.quirk {
                out.push(t.to_string());
            }
        } else if !m.saw_end {
            if t.contains('p') && !m.quirk && matches!(m.res, Err(e) if matches!(e.kind, EK::DupField | EK::DupGlobal | EK::NoVar | EK::NoGlobal | EK::Dot)) {
                bad.push(t.to_string());
            }
            return;
        }
        if n > 0 {
            for k in toks {
                rec(&format!("{}{}", t, k), toks, n - 1, out, bad);
            }
        }
    }
    rec("", &toks, n, &mut out, &mut bad);
    // The first name is p: the rest is the same with the names exchanged.
    let p_first = |t: &String| t.find('p').unwrap() < t.find('q').unwrap_or(t.len());
    out.retain(p_first);
    bad.retain(p_first);
    for t in BIG {
        out.push(t.to_string());
    }
    (out, bad)
}
fn with(t: &str, a: &str, b: &str) -> String {
    let mut s = String::new();
    for c in t.chars() {
        match c {
            'p' => s.push_str(a),
            'q' => s.push_str(b),
            'x' => s.push_str("X_x"),
            'y' => s.push_str("Y_y"),
            'z' => s.push_str("Z_z"),
            'o' => s.push_str("O_o"),
            c => s.push(c),
        }
    }
    s
}
/// "a SEP b": the shapes with these names; the fields must be what they are with p and q.
fn exec32(t: &str) -> CaseRes {
    thread_local! {
        static SHAPES: std::cell::RefCell<[(Vec<(String, Rc<MObj>)>, Vec<String>); 2]> = const { std::cell::RefCell::new([(vec![], vec![]), (vec![], vec![])]) };
    }
    let f: Vec<&str> = t.split(SEP).collect();
    let (a, b) = (f[0], f[1]);
    SHAPES.with(|s| {
        let mut s = s.borrow_mut();
        let n: usize = f[2].parse().unwrap();
        let s = &mut s[n - 6];
        if s.0.is_empty() {
            // (Filled once in each worker.)
            let (good, bad) = shapes32(n);
            *s = (good.into_iter().map(|t| (t.clone(), eval_text(&with(&t, "p", "q"), None).res.unwrap())).collect(), bad);
        }
        let mut h = H::new();
        for t in &s.1 {
            let x = with(t, a, b);
            if Obj::from_str(&x).is_ok() {
                return Err(format!("{:?} is accepted, but it is {:?} with other names, which has a fault", x, t));
            }
        }
        for (t, m) in s.0.iter() {
            let x = with(t, a, b);
            let r = Obj::from_str(&x).map_err(|e| format!("{:?} is rejected ({}) though {:?} is fine", x, e, t))?;
            renamed(&Value::Obj(r), &MV::Obj(m.clone()), a, b).map_err(|e| format!("{:?} is not {:?} with other names: {}", x, t, e))?;
            h.s(&x);
        }
        done(h.0, (s.0.len() + s.1.len()) as u64)
    })
}
/// Names like these two, but other names.
struct Similar(String, String, Rc<Vec<String>>);
impl Similar {
    fn of(&mut self, a: &str, b: &str) -> Rc<Vec<String>> {
        if self.0 != a || self.1 != b {
            let mut v = vec![];
            for x in [a, b] {
                v.extend([format!("{}_", x), format!("_{}", x), format!("@{}", x), format!(" {}", x), format!("{} ", x), format!("^{}", x), format!("{}.", x), format!("{}\0", x), x.to_uppercase(), x.to_lowercase(), x[..x.char_indices().last().unwrap().0].to_string()]);
                v.push(x.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect());
                v.push(x.chars().rev().collect());
            }
            v.retain(|x| x != a && x != b && !["p", "q", "X_x", "Y_y", "Z_z", "O_o"].contains(&&**x));
            *self = Similar(a.into(), b.into(), Rc::new(v));
        }
        self.2.clone()
    }
}
thread_local! {
    static SIMILAR: std::cell::RefCell<Similar> = std::cell::RefCell::new(Similar(String::new(), String::new(), Rc::new(vec![])));
}
fn renamed(v: &Value, m: &MV, a: &str, b: &str) -> Result<(), String> {
    let all = |x: &[Value], y: &[MV]| -> Result<(), String> {
        if x.len() != y.len() {
            return Err(format!("{} elements instead of {}", x.len(), y.len()));
        }
        x.iter().zip(y).map(|(x, y)| renamed(x, y, a, b)).collect()
    };
    match (v, m) {
        (Value::Arr(x), MV::Arr(y)) => all(x.values_ref(), &y.vals),
        (Value::Tup(x), MV::Tup(y)) => all(x.values_ref(), &y.vals),
        (Value::Obj(x), MV::Obj(y)) => {
            if x.len() != y.pairs.len() || x.has_parent() != y.parent.is_some() {
                return Err(format!("{} fields instead of {}", x.len(), y.pairs.len()));
            }
            for (p, q) in x.pairs_ref().iter().zip(&y.pairs) {
                let n = match &*q.0 {
                    "p" => a,
                    "q" => b,
                    n => n,
                };
                if p.0 != n {
                    return Err(format!("a field {:?} instead of {:?}", p.0, n));
                }
                renamed(&p.1, &q.1, a, b)?;
                match x.get(n) {
                    Some(v) if v == p.1 => (),
                    r => return Err(format!("get({:?}) gives {:?}", n, r.map(|v| v.to_string()))),
                }
            }
            // Other names than its own are not found in it.
            for n in [a, b, "p", "q", "X_x"].into_iter().chain(SIMILAR.with(|s| s.borrow_mut().of(a, b)).iter().map(|s| &**s)) {
                let old = if n == a { "p" } else if n == b { "q" } else if n == "p" || n == "q" { "" } else if n == "X_x" { n } else { "" };
                let (own, all) = (y.own(old).is_some(), lookup(y, old).is_some());
                if x.contains(n) != own || x.get(n).is_some() != all || x.get_with_source(n).is_some() != all {
                    return Err(format!("contains({:?}) is {}, get gives {:?}", n, x.contains(n), x.get(n).map(|v| v.to_string())));
                }
            }
            match (x.get_parent(), &y.parent) {
                (Some(x), Some(y)) => renamed(&Value::Obj(x), &MV::Obj(y.clone()), a, b),
                _ => Ok(()),
            }
        }
        (x, y) => {
            let y = match y {
                MV::Str(s) if &**s == "p" || &**s == "q" || &**s == "pq" => MV::str(&with(s, a, b)),
                y => y.clone(),
            };
            Cmp::typed().val(x, &y)
        }
    }
}
/// "c": every letter there is as a name, alone and beside other names.
fn unicode32(c: &mut Ctx) {
    for ch in scalars().filter(|ch| valid_name(&ch.to_string())) {
        c.case(&ch.to_string());
    }
}
fn unicode32_exec(t: &str) -> CaseRes {
    thread_local! {
        static SHAPES: Vec<(String, Rc<MObj>)> = BIG.iter().map(|t| (t.to_string(), eval_text(&with(t, "p", "q"), None).res.unwrap())).collect();
    }
    SHAPES.with(|s| {
        let two = format!("{}{}", t, t);
        let pre = format!("a_{}", t);
        let names = [(t, "q_"), ("p_", t), (t, &two), (&pre, &two)];
        for (a, b) in names {
            for (t, m) in s.iter().take(7) {
                let x = with(t, a, b);
                let r = Obj::from_str(&x).map_err(|e| format!("{:?} is rejected ({}) though {:?} is fine", x, e, t))?;
                renamed(&Value::Obj(r), &MV::Obj(m.clone()), a, b).map_err(|e| format!("{:?} is not {:?} with other names: {}", x, t, e))?;
            }
        }
        let mut h = H::new();
        h.s(t);
        done(h.0, 28)
    })
}
/// Names only a global may have, and others: "a SEP b".
fn globals32(c: &mut Ctx) {
    let mut v: Vec<String> = ["null", "true", "false", "Obj", "Arr", "Tup", "Str", "Int", "Frac", "Bool", "Any", "Null", "Self", "self", "parent", "include", "import", "g", "_", "é", "NULL", "nul", "nulls", "True", "x1", "a"].iter().map(|s| s.to_string()).collect();
    v.extend((1..20).map(|n| "g".repeat(n)));
    v.push("null".repeat(20));
    v.dedup();
    for a in &v {
        for b in &v {
            if a != b {
                c.case(&[&a[..], b].join(&SEP.to_string()));
            }
        }
    }
}
const GLOBALS32: &[&str] = &[
    "@p:1", "@p:1 x:@p", "x:@p", "@p:1 @p:2", "@p:1 @q:2 x:@p+@q*2", "@p:{y:5} x:@p.y", "@p:(5 6) @q:1 x:@p.@q", "@p:1 @q:@p x:@q", "x:{y:@p}", "@p:[1] x:{y:@p z:(@p @p)}", "x:{@p:1}", "@p:{^:{y:1}} ^:@p", "@p:null x:[@p]", "@p:\"s\" x:@p+@q", "@p:1 x:-@p y:@p.0", "@p:@p",
    "@p:{y:@q}", "@p:\n1#c\nx:(@p)", "@q:1 @p:2 x:@q-@p", "@p:{y:{z:1}} x:@p.y.z", "@p:{y:{z:1}} x:@p.y.o", "@p:1 x:@p@q", "@p 1", "@p: x:1", "x:@p:1", "x:1 @p:x y:@p",
];
fn globals32_exec(t: &str) -> CaseRes {
    let (a, b) = t.split_once(SEP).unwrap();
    let mut h = H::new();
    for t in GLOBALS32 {
        let (x, y) = (t.replace('p', a).replace("@q", &format!("@{}", b)), *t);
        match (Obj::from_str(&x), Obj::from_str(y)) {
            (Ok(o), Ok(r)) => {
                if o != r || o.to_string() != r.to_string() {
                    return Err(format!("{:?} is {}, but {:?} with other names {}", x, o, y, r));
                }
                h.s(&x);
            }
            (Err(_), Err(_)) => h.u(1),
            (Ok(_), Err(e)) => return Err(format!("{:?} is accepted, but {:?} with other names is not: {}", x, y, e)),
            (Err(e), Ok(_)) => return Err(format!("{:?} is rejected ({}), but {:?} with other names is fine", x, e, y)),
        }
    }
    done(h.0, 2 * GLOBALS32.len() as u64)
}
fn gen32(c: &mut Ctx) {
    let v = labels();
    let few: Vec<&String> = v.iter().step_by(9).collect();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if a == b {
                continue;
            }
            // Each with every 9th and its neighbours.
            let some = few.contains(&b) && i % 3 == j % 3 || (i as i64 - j as i64).abs() < 3;
            if c.thorough() || some {
                c.case(&[a, b, "6"].join(&SEP.to_string()));
            }
            if c.thorough() && some {
                c.case(&[a, b, "7"].join(&SEP.to_string()));
            }
        }
    }
}
/// "n m i": two names of up to n letters (and other ones) that differ at place i.
fn long32(c: &mut Ctx) {
    for n in crate::sizes::sizes(c) {
        for p in crate::sizes::places(n) {
            c.case(&format!("{} {}", n, p));
        }
    }
}
fn long32_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, i) = (f[0], f[1]);
    thread_local! {
        static SHAPES: Vec<(String, Rc<MObj>)> = BIG.iter().map(|t| (t.to_string(), eval_text(&with(t, "p", "q"), None).res.unwrap())).collect();
    }
    let a = format!("{}k{}", "n".repeat(i), "n".repeat(n - 1 - i));
    let b = "n".repeat(n);
    let e = format!("{}é{}", "n".repeat(i), "n".repeat(n - 1 - i));
    let longer = format!("{}n", b);
    SHAPES.with(|s| {
        for (a, b) in [(&a, &b), (&b, &a), (&e, &b), (&b, &longer), (&longer, &b)] {
            for (t, m) in s.iter().take(7) {
                let x = with(t, a, b);
                let short = |e: String| e.chars().take(300).collect::<String>();
                let r = Obj::from_str(&x).map_err(|e| short(format!("{:?} with names of {} bytes that differ at {} is rejected: {}", t, n, i, e)))?;
                renamed(&Value::Obj(r), &MV::Obj(m.clone()), a, b).map_err(|e| short(format!("{:?} with names of {} bytes that differ at {}: {}", t, n, i, e)))?;
            }
        }
        done((n * 70_000 + i) as u64, 35)
    })
}
pub fn c32() -> Prop {
    Prop {
        id: "C32",
        level: "model_checking",
        assumptions: vec![],
        extra: None,
        hang_s: 60,
        families: vec![Family { name: "names", what: "all texts of up to 6 of 19 tokens (thorough: of 7, with the quick pairs) that are accepted, or rejected because of a name, over two names (definitions, globals, uses, dots, parents) and 15 larger ones, with pairs (quick: 3 in 80, thorough: all) of 200 names that could be treated specially: keywords and their parts, words of other languages, numbers, cases, scripts, lengths to 257", gen: gen32, exec: exec32 }, Family { name: "globals", what: "all ordered pairs of 46 names of globals, the keywords among them, in 26 texts", gen: globals32, exec: globals32_exec }, Family { name: "long", what: "names of every length 2^k-1, 2^k, 2^k+1, k=7..16 (17), that differ at one of the places around these, or in one more letter, in 7 texts", gen: long32, exec: long32_exec }, Family { name: "unicode", what: "every Unicode letter as a name, beside three others, in 7 texts", gen: unicode32, exec: unicode32_exec }],
    }
}
