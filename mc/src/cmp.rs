//! Comparing the crate's values with the model's through the public interface.

use crate::model::*;
use over::types::Type;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::collections::HashMap;
use std::rc::Rc;

pub fn ty_of(t: &Type) -> Ty {
    match t {
        Type::Any => Ty::Any,
        Type::Null => Ty::Null,
        Type::Bool => Ty::Bool,
        Type::Int => Ty::Int,
        Type::Frac => Ty::Frac,
        Type::Str => Ty::Str,
        Type::Arr(t) => Ty::Arr(Box::new(ty_of(t))),
        Type::Tup(ts) => Ty::Tup(ts.iter().map(ty_of).collect()),
        Type::Obj => Ty::Obj,
    }
}
pub fn ty_to(t: &Ty) -> Type {
    match t {
        Ty::Any => Type::Any,
        Ty::Null => Type::Null,
        Ty::Bool => Type::Bool,
        Ty::Int => Type::Int,
        Ty::Frac => Type::Frac,
        Ty::Str => Type::Str,
        Ty::Arr(t) => Type::Arr(Box::new(ty_to(t))),
        Ty::Tup(ts) => Type::Tup(ts.iter().map(ty_to).collect()),
        Ty::Obj => Type::Obj,
    }
}

/// Compares content strictly; optionally the reported types; optionally the sharing structure.
#[derive(Default)]
pub struct Cmp {
    pub types: bool,
    pub share: bool,
    m2r: HashMap<usize, usize>,
    r2m: HashMap<usize, usize>,
    seen: HashMap<(usize, usize), ()>,
}

pub type Res = Result<(), String>;

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 200 {
        format!("{}...", s.chars().take(200).collect::<String>())
    } else {
        s
    }
}

impl Cmp {
    pub fn plain() -> Cmp {
        Cmp::default()
    }
    pub fn typed() -> Cmp {
        Cmp { types: true, ..Cmp::default() }
    }
    pub fn shared() -> Cmp {
        Cmp { share: true, ..Cmp::default() }
    }

    fn same_instance(&mut self, real: usize, model: usize) -> Res {
        if !self.share {
            return Ok(());
        }
        let a = *self.m2r.entry(model).or_insert(real);
        let b = *self.r2m.entry(real).or_insert(model);
        if a != real {
            return Err(format!("one instance is represented by two (IDs {} and {})", a, real));
        }
        if b != model {
            return Err(format!("two instances are represented by one (ID {})", real));
        }
        Ok(())
    }

    pub fn val(&mut self, v: &Value, m: &MV) -> Res {
        if self.types {
            let (t, e) = (ty_of(&v.get_type()), m.ty());
            if t != e {
                return Err(format!("type {} where {} is expected", t.show(), e.show()));
            }
        }
        match (v, m) {
            (Value::Null, MV::Null) => Ok(()),
            (Value::Bool(a), MV::Bool(b)) if a == b => Ok(()),
            (Value::Int(a), MV::Int(b)) if a == b => Ok(()),
            (Value::Frac(a), MV::Frac(n, d)) if a.numer() == n && a.denom() == d => Ok(()),
            (Value::Str(a), MV::Str(b)) if **a == **b => Ok(()),
            (Value::Arr(a), MV::Arr(b)) => {
                self.same_instance(a.id(), Rc::as_ptr(b) as usize)?;
                if self.seen.insert((a.id(), Rc::as_ptr(b) as usize), ()).is_some() {
                    return Ok(());
                }
                if self.types {
                    let t = ty_of(&a.inner_type());
                    if t != b.ty {
                        return Err(format!("inner type {} where {} is expected", t.show(), b.ty.show()));
                    }
                }
                self.vals(a.values_ref(), &b.vals, "array")
            }
            (Value::Tup(a), MV::Tup(b)) => {
                self.same_instance(a.id(), Rc::as_ptr(b) as usize)?;
                if self.seen.insert((a.id(), Rc::as_ptr(b) as usize), ()).is_some() {
                    return Ok(());
                }
                if self.types {
                    let t: Vec<Ty> = a.inner_type_vec().iter().map(ty_of).collect();
                    let e: Vec<Ty> = b.vals.iter().map(|v| v.ty()).collect();
                    if t != e {
                        return Err(format!("inner types {} where {} is expected", Ty::Tup(t).show(), Ty::Tup(e).show()));
                    }
                }
                self.vals(a.values_ref(), &b.vals, "tuple")
            }
            (Value::Obj(a), MV::Obj(b)) => self.obj(a, b),
            _ => Err(format!("{} where {} is expected", short(v), short(m))),
        }
    }

    fn vals(&mut self, a: &[Value], b: &[MV], what: &str) -> Res {
        if a.len() != b.len() {
            return Err(format!("{} of {} elements where {} are expected", what, a.len(), b.len()));
        }
        for i in 0..a.len() {
            self.val(&a[i], &b[i]).map_err(|e| format!("{} element {}: {}", what, i, e))?;
        }
        Ok(())
    }

    pub fn obj(&mut self, a: &Obj, b: &Rc<MObj>) -> Res {
        let mut a = a.clone();
        let mut b = b.clone();
        let mut level = 0;
        loop {
            self.same_instance(a.id(), Rc::as_ptr(&b) as usize)?;
            if self.seen.insert((a.id(), Rc::as_ptr(&b) as usize), ()).is_some() {
                return Ok(());
            }
            let pairs = a.pairs_ref();
            let names = |_: ()| {
                format!(
                    "fields {} where {} are expected",
                    short(&pairs.iter().map(|p| p.0.clone()).collect::<Vec<_>>()),
                    short(&b.pairs.iter().map(|p| p.0.to_string()).collect::<Vec<_>>())
                )
            };
            if pairs.len() != b.pairs.len() {
                return Err(names(()));
            }
            for i in 0..pairs.len() {
                if *pairs[i].0 != *b.pairs[i].0 {
                    return Err(names(()));
                }
                self.val(&pairs[i].1, &b.pairs[i].1).map_err(|e| {
                    format!("field {}{}: {}", pairs[i].0, if level > 0 { format!(" (of ancestor {})", level) } else { String::new() }, e)
                })?;
            }
            match (a.get_parent(), &b.parent) {
                (None, None) => return Ok(()),
                (Some(p), Some(q)) => {
                    let q = q.clone();
                    a = p;
                    b = q;
                    level += 1;
                }
                (p, _) => return Err(format!("object {} a parent", if p.is_some() { "has" } else { "lacks" })),
            }
        }
    }
}

/// Builds the value with the crate's constructors.
pub fn build(m: &MV) -> Value {
    match m {
        MV::Null => Value::Null,
        MV::Bool(b) => Value::Bool(*b),
        MV::Int(i) => Value::Int(i.clone()),
        MV::Frac(n, d) => Value::Frac(num_rational::BigRational::new(n.clone(), d.clone())),
        MV::Str(s) => Value::Str(s.to_string()),
        MV::Arr(a) => Value::Arr(
            over::arr::Arr::from_values(a.vals.iter().map(build).collect()).expect("agreeing elements were rejected"),
        ),
        MV::Tup(t) => Value::Tup(over::tup::Tup::from_values(t.vals.iter().map(build).collect())),
        MV::Obj(o) => Value::Obj(build_obj(o)),
        MV::Kw(_) => panic!(),
    }
}
pub fn build_obj(o: &MObj) -> Obj {
    // Long parent chains are built from the far end.
    let mut chain = vec![o];
    let mut cur = o;
    while let Some(ref p) = cur.parent {
        chain.push(p);
        cur = p;
    }
    let mut parent = None;
    for o in chain.into_iter().rev() {
        let pairs = o.pairs.iter().map(|(n, v)| over::obj::Pair(n.to_string(), build(v))).collect();
        parent = Some(Obj::from_pairs(pairs, parent).expect("valid field names were rejected"));
    }
    parent.unwrap()
}
