//! The programs of the threads.

use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::ReferenceType;
use std::str::FromStr;

pub const TEXTS: [&str; 8] = [
    "a:1",
    "a:[1]",
    "a:<Str \"inc\">",
    "@g:(1) a:[@g @g] b:{^:{c:@g}}",
    "a:{b:1 c:b} d:a.b+2 e:\"x$\"",
    "a:<\"obj\"> b:<Arr \"arr\"> c:<Tup \"arr\">",
    "a:[1 b:]",
    "a:<\"ring\">",
];
/// A fault of each kind; each thread's is at another place.
pub const FAULTY: [&str; 24] = [
    "a:[1 }", "a:1 ]", "a:(1 >", "a:{b:1 )", "a:x", "a:@x", "a:1 a:2", "@g:1 @g:2", "a:1 b:a.c", "a:{} b:a.c", "a:(1) b:a.7", "a:\"\\q\"", "a:1 $:2", "a:1+\"s\"", "a:[1 \"s\"]", "a:-null", "a:.", "a:1..2", "null:1", "a:<\"none\">", "a:<Str 1>",
    "a:[1", "a:1/0", "^:1",
];
pub const SHARED: &str = "a:[1 2] b:{c:(\"x\" [])} d:\"s\n$\" e:b ^:{p:[0.5]}";

pub fn files(dir: &str) {
    let w = |n: &str, s: &str| std::fs::write(format!("{}/{}", dir, n), s).unwrap();
    w("inc", "text");
    w("obj", "q:{} r:<Str \"inc\">");
    w("arr", "1 2");
    w("ring", "a:<\"ring\">");
    w("main", "x:<\"obj\"> y:[<Str \"inc\">]");
    let _ = std::fs::create_dir(format!("{}/sub", dir));
    w("sub/main", "x:<Str \"inc\"> y:<Arr \"../arr\">");
    w("sub/inc", "other");
}

/// What all threads see.
pub struct Common {
    pub shared: Option<Obj>,
    pub twin: Option<Obj>,
}

/// What one thread leaves behind.
#[derive(Default)]
pub struct Left {
    pub out: String,
    pub kept: Vec<Value>,
    /// IDs of the instances it made, at the time.
    pub made: Vec<usize>,
}

pub fn id(v: &Value) -> Option<usize> {
    Some(match v {
        Value::Arr(a) => a.id(),
        Value::Tup(a) => a.id(),
        Value::Obj(a) => a.id(),
        _ => return None,
    })
}
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => a.ptr_eq(b),
        (Value::Tup(a), Value::Tup(b)) => a.ptr_eq(b),
        (Value::Obj(a), Value::Obj(b)) => a.ptr_eq(b),
        _ => false,
    }
}
pub fn refs(v: &Value) -> usize {
    match v {
        Value::Arr(a) => a.num_references(),
        Value::Tup(a) => a.num_references(),
        Value::Obj(a) => a.num_references(),
        _ => 0,
    }
}
/// Every instance reachable, once each, told apart by identity.
pub fn instances(v: &Value, into: &mut Vec<Value>) {
    if id(v).is_none() || into.iter().any(|x| same(x, v)) {
        return;
    }
    into.push(v.clone());
    match v {
        Value::Arr(a) => a.values_ref().iter().for_each(|x| instances(x, into)),
        Value::Tup(a) => a.values_ref().iter().for_each(|x| instances(x, into)),
        Value::Obj(o) => {
            o.pairs_ref().iter().for_each(|p| instances(&p.1, into));
            if let Some(p) = o.get_parent() {
                instances(&Value::Obj(p), into);
            }
        }
        _ => (),
    }
}
/// Everything there is to see of a value, parents and types included.
pub fn dump(v: &Value, s: &mut String) {
    match v {
        Value::Arr(a) => {
            s.push_str(&format!("[{}:", a.inner_type()));
            a.values_ref().iter().for_each(|x| dump(x, s));
            s.push(']');
        }
        Value::Tup(a) => {
            s.push('(');
            a.values_ref().iter().for_each(|x| dump(x, s));
            s.push(')');
        }
        Value::Obj(o) => {
            s.push('{');
            for p in o.pairs_ref() {
                s.push_str(&p.0);
                s.push(':');
                dump(&p.1, s);
            }
            if let Some(p) = o.get_parent() {
                s.push('^');
                dump(&Value::Obj(p), s);
            }
            s.push('}');
        }
        Value::Str(t) => s.push_str(&format!("{:?} ", t)),
        other => s.push_str(&format!("{} ", other)),
    }
}

fn fresh(l: &mut Left, v: Value, look: bool) {
    if look {
        dump(&v, &mut l.out);
    }
    let mut all = vec![];
    instances(&v, &mut all);
    for x in &all {
        l.made.push(id(x).unwrap());
    }
    drop(all);
    l.kept.push(v);
}

/// An array, a tuple, objects and an array in a tuple of the shared value.
fn part(o: &Obj, k: usize) -> Value {
    match k {
        0 => Value::Arr(o.get_arr("a").unwrap()),
        1 => Value::Tup(o.get_obj("b").unwrap().get_tup("c").unwrap()),
        2 => Value::Obj(o.get_obj("e").unwrap()),
        3 => Value::Obj(o.get_parent().unwrap()),
        _ => o.get_obj("b").unwrap().get_tup("c").unwrap().get(1).unwrap(),
    }
}

/// One operation. `look`: whether results are recorded (not needed where only IDs matter).
pub fn step(op: &str, me: usize, c: &Common, l: &mut Left, look: bool) {
    let b = op.as_bytes();
    let k = || (b[1] - b'0') as usize;
    let sh = || c.shared.as_ref().expect("no shared value");
    match b[0] {
        b'l' => match Obj::from_str(TEXTS[k()]) {
            Ok(o) => fresh(l, Value::Obj(o), look),
            Err(e) => l.out.push_str(&format!("error {};", e)),
        },
        b'z' => {
            let t = FAULTY[op[1..].parse::<usize>().unwrap()];
            match Obj::from_str(&format!("n{}:{}{}{}", me, "1".repeat(3 * me + 1), "\n ".repeat(me + 1), t)) {
                Ok(o) => fresh(l, Value::Obj(o), look),
                Err(e) => l.out.push_str(&format!("error {};", e)),
            }
        }
        b'f' => match Obj::from_file("main") {
            Ok(o) => fresh(l, Value::Obj(o), look),
            Err(e) => l.out.push_str(&format!("error {};", e)),
        },
        // A file in another directory, a file through several directories.
        b'h' => match Obj::from_file(["sub/main", "sub/../sub/./main"][k()]) {
            Ok(o) => fresh(l, Value::Obj(o), look),
            Err(e) => l.out.push_str(&format!("error {};", e)),
        },
        b'A' => fresh(l, Value::Arr(Arr::empty()), look),
        b'B' => {
            let v = Value::Arr(Arr::from_values(vec![Value::Int(1.into())]).unwrap());
            fresh(l, v, look)
        }
        b'U' => {
            let v = Value::Arr(Arr::from_values_unchecked(vec![], Type::Any));
            fresh(l, v, look)
        }
        b'T' => fresh(l, Value::Tup(Tup::empty()), look),
        b'V' => fresh(l, Value::Tup(Tup::from_values(vec![Value::Null])), look),
        b'O' => fresh(l, Value::Obj(Obj::empty()), look),
        b'P' => {
            let o = Obj::from_pairs(vec![Pair("n".into(), Value::Null)], None).unwrap();
            fresh(l, Value::Obj(o), look)
        }
        b'Q' => {
            let o = Obj::from_pairs_unchecked(vec![], None);
            fresh(l, Value::Obj(o), look)
        }
        // Built around the shared value.
        b'S' => {
            let o = Obj::from_pairs(vec![Pair("s".into(), Value::Obj(sh().clone()))], Some(sh().clone())).unwrap();
            if look {
                dump(&Value::Obj(o.clone()), &mut l.out);
            }
            l.made.push(o.id());
            l.kept.push(Value::Obj(o));
        }
        // The shared value.
        b'c' => l.kept.push(Value::Obj(sh().clone())),
        b'x' => drop(l.kept.pop()),
        b'g' => {
            let v = sh().get("b").expect("field b");
            dump(&v, &mut l.out);
            l.kept.push(v);
        }
        b'u' => {
            let (v, s) = sh().get_with_source("p").expect("field p");
            dump(&v, &mut l.out);
            l.kept.push(v);
            l.kept.push(Value::Obj(s));
        }
        b'i' => {
            sh().with_each(|n, v| {
                l.out.push_str(n);
                dump(v, &mut l.out);
            });
        }
        // Handles of what is inside the shared value: kept, or dropped at once.
        b'm' => l.kept.push(part(sh(), k())),
        b'M' => {
            let v = part(sh(), k());
            l.out.push_str(&format!("{};", v.get_type()));
        }
        // Parts compared with each other and printed.
        b'y' => {
            let t = c.twin.as_ref().unwrap();
            let (v, w) = (part(sh(), k()), part(t, k()));
            l.out.push_str(&format!("{}{}{}{};", v == w, w == v, same(&v, &w), v));
        }
        // Elements, types, fields that are not there or of another type.
        b'v' => {
            let a = sh().get_arr("a").expect("field a");
            l.out.push_str(&format!("{:?}{:?}{}{};", a.get(1), a.get(2), a.inner_type(), a));
        }
        b'n' => {
            let f = ["no", "b", "p"][me % 3];
            l.out.push_str(&format!("{:?}{:?}{}{};", sh().get(f).is_some(), sh().get_int(f).err(), sh().contains(f), Obj::is_valid_field(f)));
        }
        // Printing something of its own.
        b'd' => {
            let s = format!("{}\"{}", me, me);
            l.out.push_str(&format!("{} {};", Value::Str(s), Value::Int((1000 + me).into())));
        }
        b'p' => l.out.push_str(&sh().write_to_string()),
        b'e' => {
            let t = c.twin.as_ref().unwrap();
            l.out.push_str(&format!("{}{}{};", sh() == t, t == sh(), sh().ptr_eq(t)));
        }
        b'w' => {
            let n = format!("out{}", me);
            l.out.push_str(&format!("{:?};", sh().write_to_file(&n).is_ok()));
            l.out.push_str(&std::fs::read_to_string(&n).unwrap_or_default());
        }
        b'k' => {
            let n = format!("sub/out{}", me);
            l.out.push_str(&format!("{:?};", sh().get_obj("b").unwrap().write_to_file(&n).is_ok()));
            l.out.push_str(&std::fs::read_to_string(&n).unwrap_or_default());
        }
        b'r' => {
            let n = format!("re{}", me);
            l.out.push_str(&format!("{:?};", sh().write_to_file(&n).is_ok()));
            match Obj::from_file(&n) {
                Ok(o) => l.out.push_str(&format!("{};", o == *c.twin.as_ref().unwrap())),
                Err(e) => l.out.push_str(&format!("error {};", e)),
            }
        }
        _ => panic!("no operation {}", op),
    }
}

/// "cold A l1|T" or "warm c x|g": programs of the threads.
pub fn scenarios(id: &str, deep: bool) -> Vec<String> {
    let mut v = vec![];
    let makers = ["A", "B", "U", "T", "V", "O", "P", "Q", "l1", "l2", "l3", "f"];
    let pairs = |ops: &[&str]| {
        let mut r = vec![];
        for (i, a) in ops.iter().enumerate() {
            for b in &ops[i..] {
                r.push(format!("{}|{}", a, b));
            }
        }
        r
    };
    let triples = |ops: &[&str]| {
        let mut r = vec![];
        for (i, a) in ops.iter().enumerate() {
            for (j, b) in ops.iter().enumerate().skip(i) {
                for c in &ops[j..] {
                    r.push(format!("{}|{}|{}", a, b, c));
                }
            }
        }
        r
    };
    let seqs = |ops: &[&str]| {
        let mut r = vec![];
        for a in ops {
            for b in ops {
                r.push(format!("{} {}", a, b));
            }
        }
        r
    };
    let add = |v: &mut Vec<String>, how: &str, xs: Vec<String>| v.extend(xs.into_iter().map(|x| format!("{} {}", how, x)));
    if id == "C18" {
        add(&mut v, "cold", pairs(&makers));
        add(&mut v, "warm", pairs(&makers));
        add(&mut v, "warm", triples(&["A", "T", "O", "S", "l1"]));
        let two = seqs(&["A", "T", "O"]);
        let two: Vec<&str> = two.iter().map(|s| &s[..]).collect();
        add(&mut v, "warm", pairs(&two));
        add(&mut v, "cold", vec!["A A|T T".into(), "A T O|O T A".into()]);
        if deep {
            add(&mut v, "cold", triples(&["A", "B", "T", "V", "O", "P", "l1"]));
            add(&mut v, "warm", triples(&["A", "B", "T", "O", "P", "S", "l1", "l2", "l3"]));
            let two = seqs(&["A", "T", "O", "l1", "S"]);
            let two: Vec<&str> = two.iter().map(|s| &s[..]).collect();
            add(&mut v, "warm", pairs(&two));
            add(&mut v, "cold", pairs(&two[..]));
            add(&mut v, "warm", vec!["A A|T T|O O".into(), "A T O A|O T A T".into(), "l3 l3|l3 A".into(), "A|T|O|P".into(), "A|A|A|A".into(), "l1|l1|l1".into()]);
            add(&mut v, "cold", vec!["A|T|O|P".into(), "l1|l2|f".into()]);
        } else {
            // Too many schedules for every change; these are left to the thorough tier.
            let heavy = ["l2", "l3", "f"];
            let many = |x: &String| x.starts_with("cold") && x[5..].split('|').all(|p| heavy.contains(&p));
            v.retain(|x| !many(x) && x != "cold l1|f");
        }
    } else {
        let loads = ["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7", "f", "A"];
        add(&mut v, "cold", pairs(&loads));
        let uses = ["c", "c x", "g", "g x", "u", "i", "p", "e", "w", "S", "S x", "l3", "l6", "v", "n", "d"];
        add(&mut v, "warm", pairs(&uses));
        add(&mut v, "warm", triples(&["c", "g x", "S x"]));
        add(&mut v, "warm", pairs(&["h0", "h1", "w", "k", "l2", "f"]));
        let parts = ["m0", "m1", "m2", "m3", "m4", "M0", "M1", "M2", "M3", "M4"];
        add(&mut v, "warm", pairs(&parts));
        add(&mut v, "warm", (0..5).flat_map(|i| vec![format!("y{}|y{}", i, i), format!("m{}|y{}", i, i), format!("m{} x|m{} x", i, i)]).collect());
        let faulty: Vec<String> = (0..FAULTY.len()).map(|i| format!("z{}", i)).collect();
        add(&mut v, "warm", faulty.iter().map(|z| format!("{}|{}", z, z)).collect());
        add(&mut v, "warm", faulty.iter().zip(faulty.iter().cycle().skip(1)).map(|(a, b)| format!("{}|{}", a, b)).collect());
        if deep {
            let faulty: Vec<&str> = faulty.iter().map(|z| &z[..]).collect();
            add(&mut v, "warm", pairs(&faulty));
            add(&mut v, "warm", triples(&faulty[..4]));
            add(&mut v, "warm", triples(&["h0", "w", "k", "f"]));
            add(&mut v, "warm", triples(&parts[5..]));
            add(&mut v, "warm", triples(&["m0 x", "m1 x", "M2", "y3"]));
            add(&mut v, "warm", pairs(&["y0", "y1", "y2", "y3", "y4", "c x", "g x", "S x", "w", "p"]));
            add(&mut v, "warm", pairs(&["h0 w", "w h1", "k f", "f k", "h0 f"]));
            add(&mut v, "cold", triples(&["A", "l2"]));
            add(&mut v, "warm", triples(&["c", "c x", "g", "g x", "u", "i", "p", "e", "S x", "l1"]));
            let two = seqs(&["c", "x", "g", "S", "e", "p"]);
            let two: Vec<&str> = two.iter().map(|s| &s[..]).filter(|s| !s.starts_with('x')).collect();
            add(&mut v, "warm", pairs(&two));
            add(&mut v, "cold", triples(&["A", "l1", "l2", "l5", "f"]));
            add(&mut v, "warm", pairs(&["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7", "f", "r"]));
            add(&mut v, "warm", vec!["c|c|c|c".into(), "c x|c x|c x|c x".into(), "g x|S x|c x|u".into()]);
        } else {
            let heavy = ["l2", "l3", "l5", "f"];
            let many = |x: &String| {
                let p: Vec<&str> = x[5..].split('|').collect();
                if x.starts_with("cold") {
                    p.iter().all(|p| heavy.contains(p) || ["l1", "l4"].contains(p)) && p.iter().any(|p| heavy.contains(p)) && *x != "cold l1|l2"
                } else {
                    p.iter().filter(|p| p.starts_with('S')).count() > 1
                }
            };
            v.retain(|x| !many(x));
        }
    }
    v.sort();
    v.dedup();
    v
}
