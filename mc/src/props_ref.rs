//! C26 and the sequential part of C18: instances, references, IDs.

use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use over::value::Value;
use over::ReferenceType;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::str::FromStr;

/// Texts in which one instance is reached in several ways.
const TEXTS: [&str; 10] = [
    "x:1",
    "@g:[1] a:@g b:@g",
    "@g:{b:1} a:@g b:{^:@g a:[@g]}",
    "a:(1) b:a",
    "a:{b:2} b:(a.b a a)",
    "@g:([] []) a:[@g @g] b:@g.0",
    "a:[[1]] b:(a.0 a)",
    "^:{a:[1]} b:{^:{a:()}}",
    "a:{} b:[a]+[a {}]",
    "a:<\"t/f\"> b:<Arr \"t/g\">",
];

thread_local! {
    static SEEN: RefCell<Bits> = RefCell::new(Bits::default());
}
/// Set of IDs met in this process.
#[derive(Default)]
pub struct Bits {
    low: Vec<u64>,
    high: HashSet<usize>,
}
impl Bits {
    /// Whether it is new.
    pub fn insert(&mut self, x: usize) -> bool {
        if x < 1 << 31 {
            if self.low.len() <= x / 64 {
                self.low.resize((x / 64 + 1).next_power_of_two(), 0);
            }
            let old = self.low[x / 64];
            self.low[x / 64] |= 1 << (x % 64);
            old >> (x % 64) & 1 == 0
        } else {
            self.high.insert(x)
        }
    }
}

fn ptr(m: &MV) -> Option<usize> {
    Some(match m {
        MV::Arr(a) => Rc::as_ptr(a) as usize,
        MV::Tup(a) => Rc::as_ptr(a) as usize,
        MV::Obj(a) => Rc::as_ptr(a) as usize,
        _ => return None,
    })
}
fn id(v: &Value) -> Option<usize> {
    Some(match v {
        Value::Arr(a) => a.id(),
        Value::Tup(a) => a.id(),
        Value::Obj(a) => a.id(),
        _ => return None,
    })
}
fn refs(v: &Value) -> usize {
    match v {
        Value::Arr(a) => a.num_references(),
        Value::Tup(a) => a.num_references(),
        Value::Obj(a) => a.num_references(),
        _ => 0,
    }
}
fn same(a: &Value, b: &Value) -> Option<bool> {
    Some(match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => a.ptr_eq(b),
        (Value::Tup(a), Value::Tup(b)) => a.ptr_eq(b),
        (Value::Obj(a), Value::Obj(b)) => a.ptr_eq(b),
        _ => return None,
    })
}

/// One instance as met by walking from the slots.
struct Met {
    model: usize,
    id: usize,
    refs: usize,
    expected: usize,
}
#[derive(Default)]
struct Walk {
    met: Vec<Met>,
    by_model: HashMap<usize, usize>,
    by_id: HashMap<usize, usize>,
}
impl Walk {
    /// Counts one reference to the instance; extra: references that exist for the walk's own sake.
    fn visit(&mut self, v: &Value, m: &MV, extra: usize) -> Result<(), String> {
        match (v, m) {
            (Value::Null, MV::Null) => return Ok(()),
            (Value::Bool(a), MV::Bool(b)) if a == b => return Ok(()),
            (Value::Int(a), MV::Int(b)) if a == b => return Ok(()),
            (Value::Frac(a), MV::Frac(n, d)) if a.numer() == n && a.denom() == d => return Ok(()),
            (Value::Str(a), MV::Str(b)) if **a == **b => return Ok(()),
            (Value::Arr(_), MV::Arr(_)) | (Value::Tup(_), MV::Tup(_)) | (Value::Obj(_), MV::Obj(_)) => (),
            _ => return Err(format!("{:?} instead of {:?}", v, m)),
        }
        let (i, p) = (id(v).unwrap(), ptr(m).unwrap());
        match (self.by_model.get(&p), self.by_id.get(&i)) {
            (None, None) => (),
            (Some(a), Some(b)) if a == b => {
                let x = &mut self.met[*a];
                x.expected += 1;
                if refs(v) - extra != x.refs {
                    return Err(format!("handles of the instance with ID {} report {} and {} references", i, x.refs, refs(v) - extra));
                }
                return Ok(());
            }
            (Some(a), _) => return Err(format!("one instance appears with IDs {} and {}", self.met[*a].id, i)),
            (None, Some(_)) => return Err(format!("two instances share the ID {}", i)),
        }
        let k = self.met.len();
        self.by_model.insert(p, k);
        self.by_id.insert(i, k);
        self.met.push(Met { model: p, id: i, refs: refs(v).wrapping_sub(extra), expected: 1 });
        let _ = self.met[k].model;
        match (v, m) {
            (Value::Arr(a), MV::Arr(b)) => self.all(a.values_ref(), &b.vals),
            (Value::Tup(a), MV::Tup(b)) => self.all(a.values_ref(), &b.vals),
            (Value::Obj(a), MV::Obj(b)) => {
                let ps = a.pairs_ref();
                if ps.len() != b.pairs.len() || a.len() != ps.len() {
                    return Err(format!("{} fields instead of {}", ps.len(), b.pairs.len()));
                }
                for (x, y) in ps.iter().zip(&b.pairs) {
                    if *x.0 != *y.0 {
                        return Err(format!("field {} instead of {}", x.0, y.0));
                    }
                    self.visit(&x.1, &y.1, 0)?;
                }
                match (a.get_parent(), &b.parent) {
                    (None, None) => Ok(()),
                    (Some(x), Some(y)) => self.visit(&Value::Obj(x), &MV::Obj(y.clone()), 1),
                    _ => Err("a parent came or went".into()),
                }
            }
            _ => unreachable!(),
        }
    }
    fn all(&mut self, a: &[Value], b: &[MV]) -> Result<(), String> {
        if a.len() != b.len() {
            return Err(format!("{} elements instead of {}", a.len(), b.len()));
        }
        for (x, y) in a.iter().zip(b) {
            self.visit(x, y, 0)?;
        }
        Ok(())
    }
}

struct Machine {
    slots: Vec<(Value, MV)>,
    /// Every instance made in this run, kept from being freed in the model so that none is confused.
    made: Vec<MV>,
    /// IDs by model instance.
    ids: HashMap<usize, usize>,
    id_owner: HashMap<usize, usize>,
    disk: Option<Disk>,
}
impl Machine {
    fn kids(m: &MV) -> &[MV] {
        match m {
            MV::Arr(a) => &a.vals,
            MV::Tup(a) => &a.vals,
            _ => &[],
        }
    }
    /// Whether the operation makes sense here.
    fn step(&mut self, op: &str) -> Result<bool, String> {
        let b = op.as_bytes();
        let n = self.slots.len();
        let arg: Vec<usize> = b[1..].iter().map(|c| (c - b'0') as usize).collect();
        let full = n >= 4;
        let needs = match b[0] {
            b'k' | b'g' | b'l' | b'w' => false,
            _ => true,
        };
        if needs && arg.iter().any(|i| *i >= n) {
            return Ok(false);
        }
        let real = |s: &Self, i: usize| s.slots[i].0.clone();
        let model = |s: &Self, i: usize| s.slots[i].1.clone();
        let new: (Value, MV) = match b[0] {
            // New instances.
            b'A' if !full => (Value::Arr(Arr::empty()), MV::arr(vec![]).unwrap()),
            b'T' if !full => (Value::Tup(Tup::empty()), MV::tup(vec![])),
            b'E' if !full => (Value::Obj(Obj::empty()), MV::obj(vec![], None)),
            b'D' if !full => (Value::Obj(Obj::default()), MV::obj(vec![], None)),
            b'a' => {
                let ms: Vec<MV> = arg.iter().map(|i| model(self, *i)).collect();
                let r = Arr::from_values(arg.iter().map(|i| real(self, *i)).collect());
                match (r, MV::arr(ms)) {
                    (Ok(r), Some(m)) => (Value::Arr(r), m),
                    // Disagreement about types is for C10 to judge; nothing may have changed.
                    _ => {
                        return Ok(true);
                    }
                }
            }
            b't' => (Value::Tup(Tup::from_values(arg.iter().map(|i| real(self, *i)).collect())), MV::tup(arg.iter().map(|i| model(self, *i)).collect())),
            // Objects: fields a, b, ...
            b'o' => {
                let names = ["a", "b"];
                let r = Obj::from_pairs(arg.iter().enumerate().map(|(k, i)| Pair(names[k].into(), real(self, *i))).collect(), None).map_err(|e| e.to_string())?;
                (Value::Obj(r), MV::obj(arg.iter().enumerate().map(|(k, i)| (names[k], model(self, *i))).collect(), None))
            }
            // With a parent: the first argument.
            b'p' | b'u' => {
                let (pr, pm) = match (real(self, arg[0]), model(self, arg[0])) {
                    (Value::Obj(x), MV::Obj(y)) => (x, y),
                    _ => return Ok(false),
                };
                let pairs = arg[1..].iter().map(|i| Pair("b".into(), real(self, *i))).collect();
                let r = if b[0] == b'p' { Obj::from_pairs(pairs, Some(pr)).map_err(|e| e.to_string())? } else { Obj::from_pairs_unchecked(pairs, Some(pr)) };
                (Value::Obj(r), MV::obj(arg[1..].iter().map(|i| ("b", model(self, *i))).collect(), Some(pm)))
            }
            // More handles.
            b'c' => (real(self, arg[0]), model(self, arg[0])),
            // The handle itself is cloned, not the value around it.
            b'h' => {
                let r = match &self.slots[arg[0]].0 {
                    Value::Arr(x) => Value::from(x.clone()),
                    Value::Tup(x) => Value::from(x.clone()),
                    Value::Obj(x) => Value::from(x.clone()),
                    _ => return Ok(false),
                };
                (r, model(self, arg[0]))
            }
            // Element or field k of slot i: gik.
            b'g' | b'k' => {
                if arg[0] >= n {
                    return Ok(false);
                }
                let k = arg[1];
                let names = ["a", "b"];
                let m = model(self, arg[0]);
                match (&self.slots[arg[0]].0, &m) {
                    (Value::Obj(o), MV::Obj(mo)) => {
                        let want = lookup(mo, names[k]).map(|(v, s)| (v.clone(), s.clone()));
                        if b[0] == b'g' {
                            match (o.get(names[k]), want) {
                                (Some(v), Some((w, _))) => (v, w),
                                (None, None) => return Ok(false),
                                _ => return Err(format!("field {} found or not", names[k])),
                            }
                        } else {
                            // The object the field was found in.
                            match (o.get_with_source(names[k]), want) {
                                (Some((_, s)), Some((_, w))) => (Value::Obj(s), MV::Obj(w)),
                                (None, None) => return Ok(false),
                                _ => return Err(format!("field {} found or not", names[k])),
                            }
                        }
                    }
                    (v, m) => {
                        let w = match Self::kids(m).get(k) {
                            Some(w) => w.clone(),
                            None => return Ok(false),
                        };
                        let g = match (v, b[0]) {
                            (Value::Arr(x), b'g') => x.get(k).map_err(|e| e.to_string())?,
                            (Value::Tup(x), b'g') => x.get(k).map_err(|e| e.to_string())?,
                            (Value::Arr(x), _) => x.iter().nth(k).ok_or("iteration ends early")?.clone(),
                            (Value::Tup(x), _) => x.iter().nth(k).ok_or("iteration ends early")?.clone(),
                            _ => return Ok(false),
                        };
                        (g, w)
                    }
                }
            }
            b'q' => match (&self.slots[arg[0]].0, model(self, arg[0])) {
                (Value::Obj(o), MV::Obj(mo)) => match (o.get_parent(), &mo.parent) {
                    (Some(r), Some(m)) => (Value::Obj(r), MV::Obj(m.clone())),
                    (None, None) => return Ok(false),
                    _ => return Err("a parent came or went".into()),
                },
                _ => return Ok(false),
            },
            // Drops.
            b'd' => {
                let (r, m) = self.slots.remove(arg[0]);
                self.made.push(m);
                drop(r);
                return Ok(true);
            }
            // Overwritten by another one.
            b'=' => {
                if arg[0] == arg[1] {
                    return Ok(false);
                }
                let m = model(self, arg[1]);
                let old = std::mem::replace(&mut self.slots[arg[0]].1, m);
                self.made.push(old);
                self.slots[arg[0]].0 = self.slots[arg[1]].0.clone();
                return Ok(true);
            }
            // Loads.
            b'l' => {
                let text = TEXTS[arg[0]];
                if self.disk.is_none() && text.contains('<') {
                    let mut d = Disk::new();
                    d.file("f", b"b:[1] a:b");
                    d.file("g", b"[1] <Arr \"h\">");
                    d.file("h", b"2");
                    self.disk = Some(d);
                }
                let m = eval_text(text, self.disk.as_ref().map(|d| &d.fs)).res.map_err(|_| format!("the model rejects {:?}", text))?;
                let r = Obj::from_str(text).map_err(|e| format!("{:?} rejected: {}", text, e))?;
                (Value::Obj(r), MV::Obj(m))
            }
            // A load that fails halfway, with what it built.
            b'w' => {
                if Obj::from_str("@g:[1 {a:()}] a:@g b:(@g {^:{a:@g}}) c:]").is_ok() {
                    return Err("an invalid text was loaded".into());
                }
                return Ok(true);
            }
            // Reading, comparing and printing in every way.
            b'r' => {
                for (v, _) in &self.slots {
                    let _ = v.to_string().len() + format!("{:?}", v).len();
                    let _ = v.get_type().to_string();
                    for (w, _) in &self.slots {
                        let _ = v == w;
                        let _ = same(v, w);
                    }
                    match v {
                        Value::Arr(x) => {
                            x.with_each(|y| drop(y.clone()));
                            let _ = (x.len(), x.is_empty(), x.inner_type(), x.iter().count(), x.get(0).is_ok(), x.get(9).is_ok());
                            let _ = v.get_arr().map(|y| y.len());
                        }
                        Value::Tup(x) => {
                            x.with_each(|y| drop(y.clone()));
                            let _ = (x.len(), x.is_empty(), x.inner_type_vec(), x.iter().count(), x.get(0).is_ok());
                            let _ = v.get_tup().map(|y| y.len());
                        }
                        Value::Obj(x) => {
                            x.with_each(|a, b| drop((a.to_string(), b.clone())));
                            let _ = (x.len(), x.is_empty(), x.has_parent(), x.contains("a"), x.iter().count());
                            let _ = (x.get_with_source("b").is_some(), x.get_arr("a").is_ok(), x.get_obj("a").is_ok(), x.get_tup("b").is_ok(), x.get_int("a").is_ok());
                            let _ = x.write_to_string();
                        }
                        _ => (),
                    }
                }
                return Ok(true);
            }
            _ => return Ok(false),
        };
        if full {
            // The handle comes and goes.
            self.made.push(new.1);
            drop(new.0);
            return Ok(true);
        }
        self.slots.push(new);
        Ok(true)
    }

    fn check(&mut self) -> Result<u64, String> {
        let mut w = Walk::default();
        for (v, m) in &self.slots {
            w.visit(v, m, 0)?;
        }
        let mut h = H::new();
        for x in &w.met {
            h.u(x.expected as u64);
            if x.refs != x.expected {
                return Err(format!("the instance with ID {} reports {} references where there are {}", x.id, x.refs, x.expected));
            }
            // IDs through the whole history.
            if *self.ids.entry(x.model).or_insert(x.id) != x.id {
                return Err(format!("the ID of an instance changed from {} to {}", self.ids[&x.model], x.id));
            }
            if *self.id_owner.entry(x.id).or_insert(x.model) != x.model {
                return Err(format!("the ID {} was used for another instance before", x.id));
            }
        }
        for (v, m) in &self.slots {
            h.v(m);
            for (x, y) in &self.slots {
                if let Some(s) = same(v, x) {
                    if s != (ptr(m) == ptr(y)) {
                        return Err(format!("ptr_eq is {} between handles of {} (IDs {:?} and {:?})", s, if s { "two instances" } else { "one instance" }, id(v), id(x)));
                    }
                    if s {
                        h.b(1);
                    }
                }
            }
            // One level down, so that elements are met as handles of their own.
            for a in elems(v).iter().zip(model_elems(m).iter()) {
                for (x, y) in &self.slots {
                    if let Some(s) = same(a.0, x) {
                        if s != (ptr(a.1) == ptr(y)) {
                            return Err(format!("ptr_eq is {} between an element and a handle of {}", s, if s { "two instances" } else { "one instance" }));
                        }
                    }
                }
            }
        }
        Ok(h.0)
    }
}
fn elems(v: &Value) -> Vec<&Value> {
    match v {
        Value::Arr(x) => x.values_ref().iter().collect(),
        Value::Tup(x) => x.values_ref().iter().collect(),
        Value::Obj(x) => x.pairs_ref().iter().map(|p| &p.1).collect(),
        _ => vec![],
    }
}
fn model_elems(v: &MV) -> Vec<&MV> {
    match v {
        MV::Arr(x) => x.vals.iter().collect(),
        MV::Tup(x) => x.vals.iter().collect(),
        MV::Obj(x) => x.pairs.iter().map(|p| &p.1).collect(),
        _ => vec![],
    }
}

/// A sequence of operations, each ending in a space: the state is judged after the last one (its prefixes
/// are cases of their own); a sequence in capitals after "every " is judged after each.
fn ops_exec(t: &str) -> CaseRes {
    let (every, t) = match t.strip_prefix("every ") {
        Some(x) => (true, x),
        None => (false, t),
    };
    let mut m = Machine { slots: Vec::with_capacity(5), made: vec![], ids: HashMap::new(), id_owner: HashMap::new(), disk: None };
    let mut steps = 0;
    let mut last = 0;
    for op in t.split(' ').filter(|s| !s.is_empty()) {
        steps += 1;
        if !m.step(op).map_err(|e| format!("{} (at operation {})", e, steps))? {
            return Ok(Done { state: 0, alive: false, steps, runs: 0, skipped: false });
        }
        if every {
            last = m.check().map_err(|e| format!("{} (after operation {})", e, steps))?;
        }
    }
    if !every {
        // IDs of what the walk meets earlier matter as well: judge every prefix's IDs cheaply by judging the end.
        last = m.check()?;
    }
    // What is left goes away in order; the counts follow.
    while !m.slots.is_empty() {
        m.step("d0")?;
        m.check().map_err(|e| format!("{} (while dropping the rest)", e))?;
    }
    Ok(Done { state: last, alive: true, steps, runs: 1, skipped: false })
}

/// Does the operations and drops everything; whether they all make sense.
pub fn ops_run(t: &str) -> Result<bool, String> {
    let mut m = Machine { slots: Vec::with_capacity(5), made: vec![], ids: HashMap::new(), id_owner: HashMap::new(), disk: None };
    for op in t.split(' ').filter(|s| !s.is_empty()) {
        if !m.step(op)? {
            return Ok(false);
        }
    }
    Ok(true)
}

pub fn ops(full: bool) -> Vec<String> {
    let mut v: Vec<String> = ["A", "E", "T", "r", "w"].iter().map(|s| s.to_string()).collect();
    let n = if full { 4 } else { 3 };
    for i in 0..n {
        for o in &["a", "t", "o", "p", "c", "q", "d"] {
            v.push(format!("{}{}", o, i));
        }
        if full {
            v.push(format!("h{}", i));
        }
        for k in 0..2 {
            v.push(format!("g{}{}", i, k));
            if full {
                v.push(format!("k{}{}", i, k));
            }
        }
        for k in 0..n {
            v.push(format!("t{}{}", i, k));
            v.push(format!("o{}{}", i, k));
            v.push(format!("p{}{}", i, k));
            if full {
                v.push(format!("a{}{}", i, k));
                v.push(format!("u{}{}", i, k));
                v.push(format!("={}{}", i, k));
            }
        }
    }
    for k in 0..if full { TEXTS.len() } else { 6 } {
        v.push(format!("l{}", k));
    }
    v
}
fn run_tree(c: &mut Ctx, ops: &[String], depth: usize) {
    let a: Vec<String> = ops.iter().map(|s| format!("{} ", s)).collect();
    let r: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    c.tree("", &r, depth, &[]);
}
fn c26_all(c: &mut Ctx) {
    let d = c.pick(3, 4);
    run_tree(c, &ops(true), d);
}
fn c26_deep(c: &mut Ctx) {
    let d = c.pick(4, 5);
    run_tree(c, &ops(false), d);
}
fn c26_few(c: &mut Ctx) {
    // Few operations, long histories.
    let v: Vec<String> = ["E", "l2", "t01", "p0", "c0", "g00", "q0", "d0", "d1", "=01"].iter().map(|s| s.to_string()).collect();
    let d = c.pick(6, 7);
    run_tree(c, &v, d);
}

/// Counts in the large: n handles and n containers of one instance, made and dropped in several orders.
fn many_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (kind, n, order) = (f[0], f[1], f[2]);
    let x = match kind {
        0 => Value::Arr(Arr::empty()),
        1 => Value::Tup(Tup::empty()),
        _ => Value::Obj(Obj::empty()),
    };
    let i = id(&x);
    let mut held = vec![];
    let mut want = 1;
    let ok = |x: &Value, want: usize, what: &str| -> Result<(), String> {
        if refs(x) != want || id(x) != i {
            return Err(format!("{} references where there are {} ({})", refs(x), want, what));
        }
        Ok(())
    };
    for k in 0..n {
        let y = x.clone();
        match k % 4 {
            0 => {
                held.push((y, 1));
                want += 1;
            }
            1 => {
                held.push((Value::Tup(Tup::from_values(vec![y.clone(), y])), 2));
                want += 2;
            }
            2 => {
                held.push((Value::Arr(Arr::from_values(vec![y.clone(), y]).map_err(|e| e.to_string())?), 2));
                want += 2;
            }
            _ => {
                held.push((Value::Obj(Obj::from_pairs(vec![Pair("a".into(), y)], if let Value::Obj(ref o) = x { Some(o.clone()) } else { None }).map_err(|e| e.to_string())?), if kind == 2 { 2 } else { 1 }));
                want += if kind == 2 { 2 } else { 1 };
            }
        }
        ok(&x, want, "growing")?;
    }
    while !held.is_empty() {
        let k = match order {
            0 => held.len() - 1,
            1 => 0,
            _ => held.len() / 2,
        };
        let (v, n) = held.remove(k);
        drop(v);
        want -= n;
        ok(&x, want, "shrinking")?;
    }
    Ok(Done { state: n as u64, alive: true, steps: 2 * n as u64, runs: 1, skipped: false })
}
fn many(c: &mut Ctx) {
    for kind in 0..3 {
        for order in 0..3 {
            for n in (0..c.pick(70, 300)).chain([255usize, 256, 257, 1000, c.pick(2000, 70_000)].iter().cloned()) {
                c.case(&format!("{} {} {}", kind, n, order));
            }
        }
    }
}

/// Values loaded from a text keep exactly the references its containers hold: all texts of a token tree.
pub fn loaded_exec(t: &str) -> CaseRes {
    let m = eval_text(t, None);
    let dead = m.res.is_err() && !m.saw_end;
    let r = Obj::from_str(t);
    let mut h = H::new();
    if let (Ok(r), Ok(m)) = (r, &m.res) {
        let mut w = Walk::default();
        let (rv, mv) = (Value::Obj(r), MV::Obj(m.clone()));
        if mv.has_kw() {
            return Ok(Done::skip());
        }
        w.visit(&rv, &mv, 0)?;
        for x in &w.met {
            if x.refs != x.expected {
                return Err(format!("the instance with ID {} reports {} references where there are {}", x.id, x.refs, x.expected));
            }
            h.u(x.expected as u64);
        }
        h.v(&mv);
    }
    Ok(Done { state: h.0, alive: !dead, steps: 1, runs: 1, skipped: false })
}
fn loaded(c: &mut Ctx) {
    let toks = ["a:", "b:", "@g:", "^:", "a ", "@g ", "a.b ", "a.0 ", "1 ", "[", "] ", "(", ") ", "{", "} ", "+"];
    let d = c.pick(6, 7);
    c.tree("", &toks, d, &[]);
    for p in &["@g:[] a:[@g @g] ", "a:{b:()} ", "a:(() [()]) b:a ", "a:[(1)] ", "a:[[1]] @g:a ", "a:[{b:[1]}] ", "a:({b:(1)}) ", "^:{b:{} a:[{}]} "] {
        c.tree(p, &toks, d - 1, &[]);
    }
}
/// Operands and paths in every combination, with what they share.
fn loaded_more(c: &mut Ctx) {
    let d = c.pick(4, 5);
    c.tree(
        "a:[[1] []] b:[(1 [2]) (2 [])] t:({p:[1]} (1) [{}] \"s\") @g:a o:{p:a q:{p:t ^:{u:b}} ^:{w:@g l:[{p:()}]}} x:",
        &["a", "b", "t", "o", "@g", ".0", ".1", ".2", ".p", ".q", ".u", ".w", ".l", "+a", "+@g", "+[]", " y:", "[", "] ", "(", ") ", "{^:o k:", "} "],
        d,
        &[],
    );
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        level: "model_checking",
        assumptions: vec!["one thread (threads: C18, C25)", "a load's own intermediate handles are gone when it returns"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c26(),
            Family { name: "operations", what: "all sequences of 3 (4) of 126 operations (construct arrays, tuples, objects with and without parents from handles; clone, get, iterate, parent, source, overwrite, drop; load 10 texts and files with shared parts; failing load; read everything) on up to 4 handles: counts, pointer equality, IDs and contents of everything reachable", gen: c26_all, exec: ops_exec },
            Family { name: "deeper", what: "all sequences of 4 (5) of 71 of these operations on up to 3 handles", gen: c26_deep, exec: ops_exec },
            Family { name: "histories", what: "all sequences of 6 (7) of 10 operations", gen: c26_few, exec: ops_exec },
            Family { name: "counts", what: "up to 2000 (70000) handles and containers of one instance, dropped in three orders", gen: many, exec: many_exec },
            Family { name: "loaded", what: "all texts of up to 6 (7) of 16 tokens, and 5 (6) after each of 8 beginnings: instances and counts in the loaded value", gen: loaded, exec: loaded_exec },
            Family { name: "paths", what: "the same for all sequences of up to 4 (5) of 23 names, dots, indices, sums and brackets after a beginning with all kinds of nesting", gen: loaded_more, exec: loaded_exec },
            Family { name: "dots", what: "the same for the paths of C08", gen: crate::props_text::c08_tree, exec: loaded_exec },
            Family { name: "sums", what: "the same for all sums of up to 3 (5) of 10 operands for 6 sets of contents, used in 8 more ways in pairs", gen: crate::props_val::c24_sums, exec: loaded_exec },
        ],
    }
}

// ---------------------------------------------------------------- C18, one thread

/// As C26's sequences, but what counts is that no ID ever comes twice in the life of the process.
fn ids_exec(t: &str) -> CaseRes {
    let mut m = Machine { slots: Vec::with_capacity(5), made: vec![], ids: HashMap::new(), id_owner: HashMap::new(), disk: None };
    let mut steps = 0;
    let mut h = H::new();
    for op in t.split(' ').filter(|s| !s.is_empty()) {
        steps += 1;
        if !m.step(op).unwrap_or(false) {
            return Ok(Done { state: 0, alive: false, steps, runs: 0, skipped: false });
        }
        // Everything reachable.
        let mut w = Walk::default();
        for (v, mv) in &m.slots {
            match w.visit(v, mv, 0) {
                Ok(()) => (),
                Err(e) if e.contains("ID") => return Err(format!("{} (after operation {})", e, steps)),
                // Contents and counts are for other properties.
                Err(_) => return Ok(Done::skip()),
            }
        }
        for x in &w.met {
            match m.ids.get(&x.model) {
                Some(i) if *i != x.id => return Err(format!("the ID of an instance changed from {} to {} at operation {}", i, x.id, steps)),
                Some(_) => (),
                None => {
                    m.ids.insert(x.model, x.id);
                    if !SEEN.with(|s| s.borrow_mut().insert(x.id)) {
                        return Err(format!("the ID {} was used before by another instance (operation {})", x.id, steps));
                    }
                }
            }
            h.u(x.expected as u64);
        }
    }
    for (_, mv) in &m.slots {
        h.v(mv);
    }
    Ok(Done { state: h.0, alive: true, steps, runs: 1, skipped: false })
}
fn ids_all(c: &mut Ctx) {
    let d = c.pick(3, 4);
    run_tree(c, &ops(true), d);
}
fn ids_deep(c: &mut Ctx) {
    let d = c.pick(3, 5);
    run_tree(c, &ops(false), d);
}
/// Every instance in a loaded value.
fn ids_loaded_exec(t: &str) -> CaseRes {
    let m = eval_text(t, None);
    let dead = m.res.is_err() && !m.saw_end;
    let mut h = H::new();
    if let (Ok(r), Ok(m)) = (Obj::from_str(t), &m.res) {
        let mut w = Walk::default();
        let mv = MV::Obj(m.clone());
        if mv.has_kw() {
            return Ok(Done::skip());
        }
        match w.visit(&Value::Obj(r), &mv, 0) {
            Ok(()) => (),
            Err(e) if e.contains("ID") => return Err(e),
            Err(_) => return Ok(Done::skip()),
        }
        for x in &w.met {
            if !SEEN.with(|s| s.borrow_mut().insert(x.id)) {
                return Err(format!("the ID {} was used before by another instance", x.id));
            }
        }
        h.v(&mv);
    }
    Ok(Done { state: h.0, alive: !dead, steps: 1, runs: 1, skipped: false })
}
fn ids_loaded(c: &mut Ctx) {
    let toks = ["a:", "b:", "@g:", "^:", "a ", "@g ", "a.b ", "a.0 ", "1 ", "[", "] ", "(", ") ", "{", "} ", "+"];
    let d = c.pick(5, 7);
    c.tree("", &toks, d, &[]);
    for p in &["@g:[] a:[@g @g] ", "a:{b:()} ", "a:(() [()]) b:a "] {
        c.tree(p, &toks, d - 1, &[]);
    }
}
/// Very many instances.
fn ids_many_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (kind, n) = (f[0], f[1]);
    for k in 0..n {
        let v = match (kind + if kind == 3 { k } else { 0 }) % 3 {
            0 => Value::Arr(Arr::empty()),
            1 => Value::Tup(Tup::empty()),
            _ => Value::Obj(Obj::empty()),
        };
        let i = id(&v).unwrap();
        if !SEEN.with(|s| s.borrow_mut().insert(i)) {
            return Err(format!("the ID {} came twice among {} instances", i, n));
        }
    }
    Ok(Done { state: n as u64 + kind as u64, alive: true, steps: n as u64, runs: 1, skipped: false })
}
fn ids_many(c: &mut Ctx) {
    for kind in 0..4 {
        for n in &[256usize, 1 << 12, 70_000, c.pick(1 << 20, 20_000_000)] {
            c.case(&format!("{} {}", kind, n));
        }
    }
}
/// "n k alive": n threads, one after the other (alive: all there at once), with k instances of each kind each.
fn ids_threads_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (n, k, alive) = (f[0], f[1], f[2]);
    fn make(k: usize) -> Vec<Value> {
        (0..k).flat_map(|_| vec![Value::Arr(Arr::empty()), Value::Tup(Tup::empty()), Value::Obj(Obj::empty())]).collect()
    }
    let mut all = vec![];
    if alive == 1 {
        let b = std::sync::Arc::new(std::sync::Barrier::new(n + 1));
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let b = b.clone();
                std::thread::Builder::new()
                    .stack_size(1 << 16)
                    .spawn(move || {
                        let v = make(k);
                        b.wait();
                        v
                    })
                    .expect("cannot start a thread")
            })
            .collect();
        b.wait();
        for h in hs {
            all.extend(h.join().map_err(|_| "a thread panics")?);
        }
    } else {
        for _ in 0..n {
            let h = std::thread::Builder::new().stack_size(1 << 16).spawn(move || make(k)).expect("cannot start a thread");
            all.extend(h.join().map_err(|_| "a thread panics")?);
        }
    }
    for v in &all {
        let i = id(v).unwrap();
        if !SEEN.with(|s| s.borrow_mut().insert(i)) {
            return Err(format!("the ID {} came twice among the instances of {} threads", i, n));
        }
    }
    Ok(Done { state: (n * 10 + k) as u64 * 2 + alive as u64, alive: true, steps: (n * k * 3) as u64, runs: 1, skipped: false })
}
fn ids_threads(c: &mut Ctx) {
    let many = |k: u32| (1usize << k) + 1;
    for n in (1..20).chain((5..=10).map(many)) {
        for k in &[1, 2, 5] {
            for alive in &["0", "1"] {
                c.case(&format!("{} {} {}", n, k, alive));
            }
        }
    }
    c.case(&format!("{} 1 0", many(16)));
    for n in &[2, 3] {
        for k in &[300, c.pick(1 << 14, 1 << 18)] {
            c.case(&format!("{} {} 0", n, k));
            c.case(&format!("{} {} 1", n, k));
        }
    }
    if c.thorough() {
        c.case(&format!("{} 1 0", many(18)));
        c.case(&format!("{} 2 1", many(12)));
    }
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        level: "model_checking",
        assumptions: vec!["fewer than 2^64 instances"],
        extra: Some(crate::sched::extra_c18),
        hang_s: 30,
        families: vec![
            Family { name: "operations", what: "one thread: all sequences of 3 (4) of 126 operations on up to 4 handles; no ID is ever met twice in the process but for the same instance, and none changes", gen: ids_all, exec: ids_exec },
            Family { name: "deeper", what: "one thread: all sequences of 3 (5) of 71 operations on up to 3 handles", gen: ids_deep, exec: ids_exec },
            Family { name: "loaded", what: "one thread: all texts of up to 5 (7) of 16 tokens", gen: ids_loaded, exec: ids_loaded_exec },
            Family { name: "many", what: "one thread: up to 2^20 (20 million) instances of each type", gen: ids_many, exec: ids_many_exec },
            Family { name: "threads", what: "1 to 20 threads and 2^k+1 to 2^10, 2^16 (2^18) threads, one after the other or all there at once, with several instances of each kind; no ID twice (here not under the controlled scheduler: which IDs the threads take must not depend on the schedule for this to see it)", gen: ids_threads, exec: ids_threads_exec },
        ],
    }
}
