//! The reference model's values and types. Nothing here calls the crate under test.

use num_bigint::{BigInt, Sign};
use std::collections::HashMap;
use std::rc::Rc;

/// Types of the language (strict structural equality here; `unify` is the language's compatibility).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Any,
    Null,
    Bool,
    Int,
    Frac,
    Str,
    Arr(Box<Ty>),
    Tup(Vec<Ty>),
    Obj,
}

impl Ty {
    pub fn has_any(&self) -> bool {
        match self {
            Ty::Any => true,
            Ty::Arr(t) => t.has_any(),
            Ty::Tup(ts) => ts.iter().any(|t| t.has_any()),
            _ => false,
        }
    }

    pub fn show(&self) -> String {
        match self {
            Ty::Any => "Any".into(),
            Ty::Null => "Null".into(),
            Ty::Bool => "Bool".into(),
            Ty::Int => "Int".into(),
            Ty::Frac => "Frac".into(),
            Ty::Str => "Str".into(),
            Ty::Obj => "Obj".into(),
            Ty::Arr(t) => format!("Arr({})", t.show()),
            Ty::Tup(ts) => format!(
                "Tup({})",
                ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}

/// The least specific type that is at least as specific as both, if there is one.
pub fn unify(a: &Ty, b: &Ty) -> Option<Ty> {
    match (a, b) {
        (Ty::Any, t) | (t, Ty::Any) => Some(t.clone()),
        (Ty::Arr(x), Ty::Arr(y)) => unify(x, y).map(|t| Ty::Arr(Box::new(t))),
        (Ty::Tup(x), Ty::Tup(y)) => {
            if x.len() != y.len() {
                return None;
            }
            let mut out = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                out.push(unify(&x[i], &y[i])?);
            }
            Some(Ty::Tup(out))
        }
        (x, y) => {
            if x == y {
                Some(x.clone())
            } else {
                None
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum MV {
    Null,
    Bool(bool),
    Int(BigInt),
    /// Numerator and positive denominator, in lowest terms.
    Frac(BigInt, BigInt),
    Str(Rc<str>),
    Arr(Rc<MArr>),
    Tup(Rc<MTup>),
    Obj(Rc<MObj>),
    /// An include keyword used as a value (outside of what the properties speak about).
    Kw(u8),
}

#[derive(Debug)]
pub struct MArr {
    pub vals: Vec<MV>,
    pub ty: Ty,
}

#[derive(Debug)]
pub struct MTup {
    pub vals: Vec<MV>,
}

#[derive(Debug)]
pub struct MObj {
    pub pairs: Vec<(Rc<str>, MV)>,
    pub parent: Option<Rc<MObj>>,
}

impl MObj {
    pub fn own(&self, f: &str) -> Option<&MV> {
        self.pairs.iter().find(|(n, _)| &**n == f).map(|(_, v)| v)
    }
}

/// The nearest object on the parent chain that has the field.
pub fn lookup<'a>(o: &'a Rc<MObj>, f: &str) -> Option<(&'a MV, &'a Rc<MObj>)> {
    let mut cur = o;
    loop {
        if let Some(v) = cur.own(f) {
            return Some((v, cur));
        }
        match cur.parent {
            Some(ref p) => cur = p,
            None => return None,
        }
    }
}

/// Parent chains may be long: do not recurse over them when they are dropped.
impl Drop for MObj {
    fn drop(&mut self) {
        let mut next = self.parent.take();
        while let Some(rc) = next {
            match Rc::try_unwrap(rc) {
                Ok(mut o) => next = o.parent.take(),
                Err(_) => break,
            }
        }
    }
}

impl MV {
    pub fn ty(&self) -> Ty {
        match self {
            MV::Null => Ty::Null,
            MV::Bool(_) => Ty::Bool,
            MV::Int(_) => Ty::Int,
            MV::Frac(..) => Ty::Frac,
            MV::Str(_) => Ty::Str,
            MV::Arr(a) => Ty::Arr(Box::new(a.ty.clone())),
            MV::Tup(t) => Ty::Tup(t.vals.iter().map(|v| v.ty()).collect()),
            MV::Obj(_) | MV::Kw(_) => Ty::Obj,
        }
    }

    pub fn int(i: i64) -> MV {
        MV::Int(BigInt::from(i))
    }
    pub fn str(s: &str) -> MV {
        MV::Str(s.into())
    }
    /// An array, if the elements agree.
    pub fn arr(vals: Vec<MV>) -> Option<MV> {
        let mut t = Ty::Any;
        for v in &vals {
            t = unify(&t, &v.ty())?;
        }
        Some(MV::Arr(Rc::new(MArr { vals, ty: t })))
    }
    pub fn tup(vals: Vec<MV>) -> MV {
        MV::Tup(Rc::new(MTup { vals }))
    }
    pub fn obj(pairs: Vec<(&str, MV)>, parent: Option<Rc<MObj>>) -> MV {
        MV::Obj(Rc::new(MObj {
            pairs: pairs.into_iter().map(|(n, v)| (n.into(), v)).collect(),
            parent,
        }))
    }
    pub fn frac(n: BigInt, d: BigInt) -> MV {
        let (n, d) = reduce(n, d);
        MV::Frac(n, d)
    }

    pub fn has_kw(&self) -> bool {
        match self {
            MV::Kw(_) => true,
            MV::Arr(a) => a.vals.iter().any(|v| v.has_kw()),
            MV::Tup(t) => t.vals.iter().any(|v| v.has_kw()),
            MV::Obj(o) => {
                o.pairs.iter().any(|(_, v)| v.has_kw())
                    || o.parent.as_ref().map_or(false, |p| MV::Obj(p.clone()).has_kw())
            }
            _ => false,
        }
    }
}

/// Content equality in the model.
pub fn meq(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Null, MV::Null) => true,
        (MV::Bool(x), MV::Bool(y)) => x == y,
        (MV::Int(x), MV::Int(y)) => x == y,
        (MV::Frac(a, b), MV::Frac(c, d)) => a == c && b == d,
        (MV::Str(x), MV::Str(y)) => x == y,
        (MV::Arr(x), MV::Arr(y)) => veq(&x.vals, &y.vals),
        (MV::Tup(x), MV::Tup(y)) => veq(&x.vals, &y.vals),
        (MV::Obj(x), MV::Obj(y)) => oeq(x, y),
        _ => false,
    }
}
fn veq(a: &[MV], b: &[MV]) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| meq(&a[i], &b[i]))
}
pub fn oeq(a: &MObj, b: &MObj) -> bool {
    let p = match (&a.parent, &b.parent) {
        (None, None) => true,
        (Some(p), Some(q)) => oeq(p, q),
        _ => false,
    };
    p && a.pairs.len() == b.pairs.len()
        && (0..a.pairs.len())
            .all(|i| a.pairs[i].0 == b.pairs[i].0 && meq(&a.pairs[i].1, &b.pairs[i].1))
}

pub fn zero() -> BigInt {
    BigInt::from(0)
}
pub fn is_zero(x: &BigInt) -> bool {
    x.sign() == Sign::NoSign
}
pub fn neg(x: &BigInt) -> BigInt {
    BigInt::from(0) - x
}
pub fn abs(x: &BigInt) -> BigInt {
    if x.sign() == Sign::Minus {
        neg(x)
    } else {
        x.clone()
    }
}
pub fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (abs(a), abs(b));
    while !is_zero(&b) {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
pub fn reduce(n: BigInt, d: BigInt) -> (BigInt, BigInt) {
    assert!(!is_zero(&d));
    let g = gcd(&n, &d);
    let (mut n, mut d) = (n / &g, d / &g);
    if d.sign() == Sign::Minus {
        n = neg(&n);
        d = neg(&d);
    }
    (n, d)
}
/// Remainder with the sign of the dividend.
pub fn rem(a: &BigInt, b: &BigInt) -> BigInt {
    let r = abs(a) - (abs(a) / abs(b)) * abs(b);
    if a.sign() == Sign::Minus {
        neg(&r)
    } else {
        r
    }
}
pub fn digits_to_int(s: &str) -> BigInt {
    // Chunked schoolbook conversion, independent of the library's parser.
    let mut x = zero();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let mut chunk = 0u64;
        let mut p = 1u64;
        let mut k = 0;
        while k < 18 && i < b.len() {
            chunk = chunk * 10 + (b[i] - b'0') as u64;
            p *= 10;
            i += 1;
            k += 1;
        }
        x = x * BigInt::from(p) + BigInt::from(chunk);
    }
    x
}
pub fn pow10(n: usize) -> BigInt {
    let mut x = BigInt::from(1);
    for _ in 0..n {
        x = x * BigInt::from(10);
    }
    x
}

/// A literal denoting the value, on one line, for generating texts.
pub fn lit(v: &MV) -> String {
    let mut s = String::new();
    lit_to(v, &mut s);
    s
}
pub fn lit_str(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
pub fn lit_to(v: &MV, s: &mut String) {
    match v {
        MV::Null => s.push_str("null"),
        MV::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        MV::Int(i) => s.push_str(&i.to_string()),
        MV::Frac(n, d) => {
            if *d == BigInt::from(1) {
                s.push_str(&format!("{}.0", n));
            } else {
                s.push_str(&format!("{}/{}", n, d));
            }
        }
        MV::Str(t) => s.push_str(&lit_str(t)),
        MV::Arr(a) => {
            s.push('[');
            for (i, x) in a.vals.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                lit_to(x, s);
            }
            s.push(']');
        }
        MV::Tup(a) => {
            s.push('(');
            for (i, x) in a.vals.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                lit_to(x, s);
            }
            s.push(')');
        }
        MV::Obj(o) => {
            s.push('{');
            body_to(o, s);
            s.push('}');
        }
        MV::Kw(_) => panic!("keyword has no literal"),
    }
}
pub fn body_to(o: &MObj, s: &mut String) {
    let mut first = true;
    if let Some(ref p) = o.parent {
        s.push_str("^:{");
        body_to(p, s);
        s.push('}');
        first = false;
    }
    for (n, x) in &o.pairs {
        if !first {
            s.push(' ');
        }
        first = false;
        s.push_str(n);
        s.push(':');
        lit_to(x, s);
    }
}

/// 64-bit hash of a value's content (states of the explored space are counted by it).
#[derive(Clone, Copy)]
pub struct H(pub u64, u32);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325, 0)
    }
    pub fn from(x: u64) -> H {
        H(x, 0)
    }
    pub fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
    pub fn bytes(&mut self, x: &[u8]) {
        for b in x {
            self.b(*b);
        }
        self.b(0xff);
    }
    pub fn s(&mut self, x: &str) {
        self.bytes(x.as_bytes());
    }
    pub fn u(&mut self, x: u64) {
        self.bytes(&x.to_le_bytes());
    }
    pub fn v(&mut self, v: &MV) {
        // Shared parts are walked once per path: bounded.
        self.1 += 1;
        if self.1 > 20_000 {
            return;
        }
        match v {
            MV::Null => self.b(1),
            MV::Bool(b) => self.b(2 + *b as u8),
            MV::Int(i) => {
                self.b(4);
                let (s, b) = i.to_bytes_le();
                self.b(s as u8);
                self.bytes(&b);
            }
            MV::Frac(n, d) => {
                self.b(5);
                let (s, b) = n.to_bytes_le();
                self.b(s as u8);
                self.bytes(&b);
                self.bytes(&d.to_bytes_le().1);
            }
            MV::Str(s) => {
                self.b(6);
                self.s(s);
            }
            MV::Arr(a) => {
                self.b(7);
                for x in &a.vals {
                    self.v(x);
                }
                self.b(8);
            }
            MV::Tup(a) => {
                self.b(9);
                for x in &a.vals {
                    self.v(x);
                }
                self.b(10);
            }
            MV::Obj(o) => {
                self.b(11);
                self.o(o);
            }
            MV::Kw(k) => self.b(20 + k),
        }
    }
    pub fn o(&mut self, o: &MObj) {
        let mut cur = Some(o);
        while let Some(o) = cur {
            for (n, x) in &o.pairs {
                self.s(n);
                self.v(x);
            }
            self.b(12);
            cur = o.parent.as_deref();
        }
        self.b(13);
    }
}

/// An in-memory file system.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(String),
}
#[derive(Clone, Debug, Default)]
pub struct MemFs {
    pub nodes: HashMap<String, Node>,
    pub cwd: String,
}
impl MemFs {
    pub fn new(cwd: &str) -> MemFs {
        MemFs { nodes: HashMap::new(), cwd: cwd.into() }
    }
    /// Resolves to an absolute path without links, if it exists.
    pub fn resolve(&self, path: &str) -> Option<String> {
        let mut fuel = 40;
        let base = if path.starts_with('/') { String::from("/") } else { self.cwd.clone() };
        if path.is_empty() || path.contains('\0') {
            return None;
        }
        self.walk(base, path, &mut fuel)
    }
    fn walk(&self, mut at: String, path: &str, fuel: &mut i32) -> Option<String> {
        for comp in path.split('/') {
            // Every component but the last must be a directory; so must one followed by '/'.
            if !self.is_dir_abs(&at) {
                return None;
            }
            match comp {
                "" | "." => (),
                ".." => {
                    at = match at.rfind('/') {
                        Some(0) | None => "/".into(),
                        Some(i) => at[..i].into(),
                    };
                }
                c => {
                    let next = if at == "/" { format!("/{}", c) } else { format!("{}/{}", at, c) };
                    match self.get(&next) {
                        None => return None,
                        Some(Node::Link(t)) => {
                            *fuel -= 1;
                            if *fuel < 0 {
                                return None;
                            }
                            let start = if t.starts_with('/') { "/".into() } else { at.clone() };
                            at = self.walk(start, &t, fuel)?;
                        }
                        Some(_) => at = next,
                    }
                }
            }
        }
        Some(at)
    }
    fn get(&self, abs: &str) -> Option<Node> {
        if let Some(n) = self.nodes.get(abs) {
            return Some(n.clone());
        }
        if self.is_dir_abs(abs) {
            return Some(Node::Dir);
        }
        None
    }
    fn is_dir_abs(&self, abs: &str) -> bool {
        if abs == "/" || self.cwd == abs || self.cwd.starts_with(&format!("{}/", abs)) {
            return true;
        }
        self.nodes.get(abs) == Some(&Node::Dir)
    }
    /// The file's content if the path leads to a regular file.
    pub fn read(&self, path: &str) -> Option<(String, Vec<u8>)> {
        let abs = self.resolve(path)?;
        match self.nodes.get(&abs) {
            Some(Node::File(b)) => Some((abs, b.clone())),
            _ => None,
        }
    }
}
