//! The reference interpreter: what a text (and the files it reaches) means, or where its fault is.

use crate::model::*;
use num_bigint::BigInt;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const LIMIT: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    BinOp,
    Cyclic,
    DupField,
    DupGlobal,
    ExpType,
    NoGlobal,
    Index,
    Bracket,
    Dot,
    Escape,
    FieldChar,
    FieldName,
    IncPath,
    IncToken,
    Numeric,
    Value,
    ValueChar,
    Depth,
    UnOp,
    End,
    NoVar,
    ParentType,
    Bounds,
    Io,
}

#[derive(Clone, Debug)]
pub struct MErr {
    pub file: Option<String>,
    pub kind: EK,
    pub line: usize,
    /// None for an unexpected end.
    pub col: Option<usize>,
    /// What the fault is about, in the order in which it is said.
    pub items: Vec<String>,
}

pub struct Src {
    ch: Vec<char>,
    pos: usize,
    line: usize,
    col: usize,
    pub saw_end: bool,
    file: Option<String>,
}

impl Src {
    fn new(text: &str, file: Option<String>) -> Src {
        Src { ch: text.chars().collect(), pos: 0, line: 1, col: 1, saw_end: false, file }
    }
    fn peek(&mut self) -> Option<char> {
        if self.pos < self.ch.len() {
            Some(self.ch[self.pos])
        } else {
            self.saw_end = true;
            None
        }
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.pos += 1;
        if c == '\n' {
            self.line += 1;
            self.col = 1;
        } else {
            self.col += 1;
        }
        Some(c)
    }
    /// Skips blanks and comments; whether anything follows.
    fn skip(&mut self) -> bool {
        loop {
            match self.peek() {
                None => return false,
                Some('#') => loop {
                    match self.next() {
                        None => return false,
                        Some('\n') => break,
                        _ => (),
                    }
                },
                Some(c) if c.is_whitespace() => {
                    self.next();
                }
                _ => return true,
            }
        }
    }
    fn at(&self) -> (usize, usize) {
        (self.line, self.col)
    }
    fn err<T>(&self, kind: EK, at: (usize, usize), items: &[&str]) -> Result<T, MErr> {
        Err(MErr { file: self.file.clone(), kind, line: at.0, col: Some(at.1), items: items.iter().map(|s| s.to_string()).collect() })
    }
    fn here<T>(&self, kind: EK, items: &[&str]) -> Result<T, MErr> {
        self.err(kind, self.at(), items)
    }
    fn here_char<T>(&self, kind: EK, c: char) -> Result<T, MErr> {
        self.err(kind, self.at(), &[&c.to_string()])
    }
    /// The bracket here, where another one (or none) should be.
    fn bracket<T>(&self, at: (usize, usize), found: char, want: Option<char>) -> Result<T, MErr> {
        match want {
            Some(w) => self.err(EK::Bracket, at, &[&found.to_string(), &w.to_string()]),
            None => self.err(EK::Bracket, at, &[&found.to_string()]),
        }
    }
    fn end<T>(&self) -> Result<T, MErr> {
        Err(MErr { file: self.file.clone(), kind: EK::End, line: self.line, col: None, items: vec![] })
    }
    fn prev(&self) -> (usize, usize) {
        (self.line, self.col - 1)
    }
}

type R<T> = Result<T, MErr>;

fn closer(c: char) -> bool {
    matches!(c, ')' | ']' | '}' | '>')
}
fn is_op(c: char) -> bool {
    matches!(c, '+' | '-' | '*' | '/' | '%')
}
fn ends_value(c: char) -> bool {
    c.is_whitespace() || c == '#' || closer(c) || is_op(c)
}
fn first_char(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
fn later_char(c: char) -> bool {
    first_char(c) || c.is_ascii_digit()
}
fn starts_number(c: char) -> bool {
    c.is_ascii_digit() || c == '.' || c == ','
}
pub fn valid_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        None => false,
        Some(c) => first_char(c) && it.all(later_char),
    }
}
pub fn reserved(s: &str) -> bool {
    matches!(s, "null" | "true" | "false" | "Obj" | "Str" | "Arr" | "Tup")
}

struct FileState {
    globals: HashMap<String, MV>,
}

/// What is in scope where a value is read.
struct Scope {
    pairs: Vec<(Rc<str>, MV)>,
    names: HashSet<Rc<str>>,
    parent: Option<Rc<MObj>>,
}

pub struct Model<'a> {
    fs: Option<&'a MemFs>,
    cache: HashMap<(u8, String), MV>,
    active: Vec<String>,
    /// The verdict depends on something the properties leave open.
    pub quirk: bool,
    /// Every file read, by resolved name.
    pub reads: Vec<(u8, String)>,
}

pub struct Outcome {
    pub res: Result<Rc<MObj>, MErr>,
    /// The verdict depended on where the (outermost) text ends.
    pub saw_end: bool,
    pub quirk: bool,
    pub reads: Vec<(u8, String)>,
}

pub fn eval_text(text: &str, fs: Option<&MemFs>) -> Outcome {
    let mut m = Model { fs, cache: HashMap::new(), active: vec![], quirk: false, reads: vec![] };
    let mut s = Src::new(text, None);
    let res = m.top(&mut s, 1);
    let quirk = m.quirk;
    Outcome { res, saw_end: s.saw_end, quirk, reads: m.reads }
}

/// Load of a file by path. Err(None) if it cannot be read.
pub fn eval_file(path: &str, fs: &MemFs) -> Result<Outcome, ()> {
    let (abs, bytes) = fs.read(path).ok_or(())?;
    let text = String::from_utf8(bytes).map_err(|_| ())?;
    let mut m = Model { fs: Some(fs), cache: HashMap::new(), active: vec![], quirk: false, reads: vec![(0, abs)] };
    let mut s = Src::new(&text, Some(path.into()));
    let res = m.top(&mut s, 1);
    let quirk = m.quirk;
    Ok(Outcome { res, saw_end: s.saw_end, quirk, reads: m.reads })
}

impl<'a> Model<'a> {
    /// The fields of a file's (or text's) top-level object.
    fn top(&mut self, s: &mut Src, depth: usize) -> R<Rc<MObj>> {
        let mut fst = FileState { globals: HashMap::new() };
        let mut sc = Scope { pairs: vec![], names: HashSet::new(), parent: None };
        while s.skip() {
            self.field(s, &mut fst, &mut sc, depth, None)?;
        }
        Ok(Rc::new(MObj { pairs: sc.pairs, parent: sc.parent }))
    }

    fn field(&mut self, s: &mut Src, fst: &mut FileState, sc: &mut Scope, depth: usize, brace: Option<char>) -> R<()> {
        let c = s.peek().unwrap();
        if closer(c) {
            return s.bracket(s.at(), c, brace);
        }
        let at = s.at();
        // The name.
        let mut global = false;
        let mut name = String::new();
        if c == '@' {
            s.next();
            global = true;
        }
        let mut caret = false;
        loop {
            let c = match s.next() {
                None => break,
                Some(c) => c,
            };
            let first = name.is_empty();
            if c == ':' && !first {
                break;
            }
            let ok = if first { first_char(c) || c == '^' } else { later_char(c) };
            if !ok {
                return s.err(EK::FieldChar, s.prev(), &[&c.to_string()]);
            }
            if c == '^' {
                caret = true;
            }
            name.push(c);
        }
        let full = if global { format!("@{}", name) } else { name.clone() };
        if !global && reserved(&name) || global && name.is_empty() {
            return s.err(EK::FieldName, at, &[&full]);
        }
        let parent = caret && !global && name == "^";
        if caret && !parent {
            return s.err(EK::FieldName, at, &[&full]);
        }
        if global {
            if fst.globals.contains_key(&name) {
                return s.err(EK::DupGlobal, at, &[&full]);
            }
        } else if parent {
            if sc.parent.is_some() {
                return s.err(EK::DupField, at, &[&full]);
            }
        } else if sc.names.contains(&*name) {
            return s.err(EK::DupField, at, &[&full]);
        }
        if !s.skip() {
            return s.end();
        }
        let vat = s.at();
        let v = self.value(s, fst, &sc.pairs, vat, depth, brace)?;
        if let MV::Kw(_) = v {
            self.quirk = true;
        }
        if global {
            fst.globals.insert(name, v);
        } else if parent {
            match v {
                MV::Obj(o) => sc.parent = Some(o),
                v => return s.err(EK::ParentType, vat, &["Obj", &v.ty().show()]),
            }
        } else {
            let n: Rc<str> = name.as_str().into();
            sc.names.insert(n.clone());
            sc.pairs.push((n, v));
        }
        Ok(())
    }

    /// A value at the place where one is expected, with everything that belongs to it.
    fn value(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], at: (usize, usize), depth: usize, brace: Option<char>) -> R<MV> {
        // Sum of products: `sum` holds the closed summands, `cur` the product being read.
        let mut cur = self.term(s, fst, sc, at, depth, brace)?;
        let mut sum: Vec<(MV, Option<(char, (usize, usize))>)> = vec![];
        let mut cur_op = None;
        loop {
            let op = match s.peek() {
                Some(c) if is_op(c) => c,
                _ => break,
            };
            s.next();
            if s.peek().is_none() {
                return s.end();
            }
            let oat = s.at();
            let v = self.term(s, fst, sc, oat, depth, brace)?;
            if op == '+' || op == '-' {
                sum.push((cur, cur_op));
                cur = v;
                cur_op = Some((op, oat));
            } else {
                cur = match bin(op, &cur, &v) {
                    Ok(v) => v,
                    Err(k) => return bin_err(s, k, oat, op, &cur, &v),
                };
            }
        }
        sum.push((cur, cur_op));
        // What may follow a value.
        match s.peek() {
            None => (),
            Some(c) if closer(c) => {
                if Some(c) != brace {
                    return s.bracket(s.at(), c, brace);
                }
            }
            Some(c) if ends_value(c) => (),
            Some(c) => return s.here_char(EK::ValueChar, c),
        }
        let mut it = sum.into_iter();
        let mut acc = it.next().unwrap().0;
        for (v, op) in it {
            let (op, oat) = op.unwrap();
            acc = match bin(op, &acc, &v) {
                Ok(v) => v,
                Err(k) => return bin_err(s, k, oat, op, &acc, &v),
            };
        }
        Ok(acc)
    }

    /// A single operand, with its signs.
    fn term(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], at: (usize, usize), depth: usize, brace: Option<char>) -> R<MV> {
        let c = s.peek().unwrap();
        match c {
            '"' => self.string(s),
            '{' => {
                if depth + 1 > LIMIT {
                    return s.here(EK::Depth, &[]);
                }
                s.next();
                let mut sub = Scope { pairs: vec![], names: HashSet::new(), parent: None };
                loop {
                    if !s.skip() {
                        return s.end();
                    }
                    if s.peek() == Some('}') {
                        s.next();
                        break;
                    }
                    self.field(s, fst, &mut sub, depth + 1, Some('}'))?;
                }
                Ok(MV::Obj(Rc::new(MObj { pairs: sub.pairs, parent: sub.parent })))
            }
            '[' | '(' => {
                if depth + 1 > LIMIT {
                    return s.here(EK::Depth, &[]);
                }
                s.next();
                let close = if c == '[' { ']' } else { ')' };
                let v = self.elements(s, fst, sc, depth + 1, Some(close))?;
                Ok(v)
            }
            '<' => {
                if depth + 1 > LIMIT {
                    return s.here(EK::Depth, &[]);
                }
                s.next();
                self.include(s, fst, sc, depth + 1)
            }
            '+' | '-' => {
                let mut signs = vec![];
                while let Some(c) = s.peek() {
                    if c != '+' && c != '-' {
                        break;
                    }
                    s.next();
                    signs.push((c, s.at()));
                }
                if s.peek().is_none() {
                    return s.end();
                }
                let tat = s.at();
                let mut v = self.term(s, fst, sc, tat, depth + 1, brace)?;
                for (c, oat) in signs.into_iter().rev() {
                    v = match (c, v) {
                        ('+', v @ MV::Int(_)) | ('+', v @ MV::Frac(..)) => v,
                        ('-', MV::Int(i)) => MV::Int(neg(&i)),
                        ('-', MV::Frac(n, d)) => MV::Frac(neg(&n), d),
                        (c, v) => return s.err(EK::UnOp, oat, &[&c.to_string(), &v.ty().show()]),
                    };
                }
                Ok(v)
            }
            c if starts_number(c) => self.number(s, at),
            c if first_char(c) || c == '^' || c == '@' => self.path(s, fst, sc, at),
            c => s.err(EK::ValueChar, at, &[&c.to_string()]),
        }
    }

    /// Elements up to the closing bracket (or the end of the file).
    fn elements(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], depth: usize, close: Option<char>) -> R<MV> {
        let is_arr = close == Some(']');
        let mut vals = vec![];
        let mut ty = Ty::Any;
        loop {
            if !s.skip() {
                return s.end();
            }
            let c = s.peek().unwrap();
            if Some(c) == close {
                s.next();
                break;
            }
            if closer(c) {
                return s.bracket(s.at(), c, close);
            }
            let at = s.at();
            let v = self.value(s, fst, sc, at, depth, close)?;
            if let MV::Kw(_) = v {
                self.quirk = true;
            }
            if is_arr {
                match unify(&ty, &v.ty()) {
                    Some(t) => ty = t,
                    None => return s.err(EK::ExpType, at, &[&ty.show(), &v.ty().show()]),
                }
            }
            vals.push(v);
        }
        Ok(if is_arr { MV::Arr(Rc::new(MArr { vals, ty })) } else { MV::tup(vals) })
    }

    /// A whole file read as the elements of an array or tuple.
    fn file_elements(&mut self, s: &mut Src, depth: usize, is_arr: bool) -> R<MV> {
        let mut fst = FileState { globals: HashMap::new() };
        let mut vals = vec![];
        let mut ty = Ty::Any;
        while s.skip() {
            let at = s.at();
            let v = self.value(s, &mut fst, &[], at, depth, None)?;
            if let MV::Kw(_) = v {
                self.quirk = true;
            }
            if is_arr {
                match unify(&ty, &v.ty()) {
                    Some(t) => ty = t,
                    None => return s.err(EK::ExpType, at, &[&ty.show(), &v.ty().show()]),
                }
            }
            vals.push(v);
        }
        Ok(if is_arr { MV::Arr(Rc::new(MArr { vals, ty })) } else { MV::tup(vals) })
    }

    fn string(&mut self, s: &mut Src) -> R<MV> {
        s.next();
        let mut t = String::new();
        loop {
            match s.next() {
                None => return s.end(),
                Some('"') => return Ok(MV::Str(t.into())),
                Some('\\') => match s.next() {
                    None => return s.end(),
                    Some('n') => t.push('\n'),
                    Some('r') => t.push('\r'),
                    Some('t') => t.push('\t'),
                    Some(c @ '\\') | Some(c @ '"') | Some(c @ '\'') | Some(c @ '$') => t.push(c),
                    Some(c) => return s.err(EK::Escape, s.prev(), &[&c.to_string()]),
                },
                Some(c) => t.push(c),
            }
        }
    }

    fn number(&mut self, s: &mut Src, at: (usize, usize)) -> R<MV> {
        let (mut a, mut b) = (String::new(), String::new());
        let mut point = false;
        let mut last = ' ';
        while let Some(c) = s.peek() {
            match c {
                c if ends_value(c) => break,
                '0'..='9' => {
                    if point {
                        b.push(c)
                    } else {
                        a.push(c)
                    }
                }
                '.' | ',' if !point => point = true,
                '_' if last != '_' => (),
                c => return s.here_char(EK::ValueChar, c),
            }
            last = c;
            s.next();
        }
        if a.is_empty() && b.is_empty() {
            return s.err(EK::Numeric, at, &[]);
        }
        if point {
            let digits = format!("{}{}", a, b);
            Ok(MV::frac(digits_to_int(&digits), pow10(b.len())))
        } else {
            Ok(MV::Int(digits_to_int(&a)))
        }
    }

    /// A name, possibly followed by dots.
    fn path(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], at: (usize, usize)) -> R<MV> {
        let global = s.peek() == Some('@');
        if global {
            s.next();
        }
        let (name, dot) = self.path_name(s)?;
        let v = if global {
            if name.is_empty() {
                return s.err(EK::Value, at, &["@"]);
            }
            match fst.globals.get(&name) {
                Some(v) => v.clone(),
                None => return s.err(EK::NoGlobal, at, &[&format!("@{}", name)]),
            }
        } else {
            match &name[..] {
                "null" => MV::Null,
                "true" => MV::Bool(true),
                "false" => MV::Bool(false),
                "Obj" => MV::Kw(0),
                "Str" => MV::Kw(1),
                "Arr" => MV::Kw(2),
                "Tup" => MV::Kw(3),
                n => match sc.iter().find(|(f, _)| **f == *n) {
                    Some((_, v)) => v.clone(),
                    None => return s.err(EK::NoVar, at, &[n]),
                },
            }
        };
        if dot {
            self.dots(s, fst, sc, v, false, at)
        } else {
            Ok(v)
        }
    }

    /// One component of a path; whether a dot follows it (and has been consumed).
    fn path_name(&mut self, s: &mut Src) -> R<(String, bool)> {
        let mut name = String::new();
        loop {
            match s.peek() {
                None => return Ok((name, false)),
                Some('.') => {
                    s.next();
                    return match s.peek() {
                        None => s.end(),
                        Some(c) if c == '@' || c == '^' || first_char(c) || starts_number(c) => Ok((name, true)),
                        Some(c) => s.here_char(EK::ValueChar, c),
                    };
                }
                Some(c) if ends_value(c) => return Ok((name, false)),
                Some(c) if later_char(c) => {
                    s.next();
                    name.push(c);
                }
                Some(c) => return s.here_char(EK::ValueChar, c),
            }
        }
    }

    fn dots(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], v: MV, inside: bool, of: (usize, usize)) -> R<MV> {
        let at = s.at();
        match v {
            MV::Obj(o) => {
                if s.peek() == Some('@') {
                    return s.here(EK::ValueChar, &["@"]);
                }
                let (name, dot) = self.path_name(s)?;
                let v = match lookup(&o, &name) {
                    Some((v, _)) => v.clone(),
                    None => return s.err(EK::NoVar, at, &[&name]),
                };
                if dot {
                    self.dots(s, fst, &o.pairs, v, true, at)
                } else {
                    Ok(v)
                }
            }
            MV::Arr(_) | MV::Tup(_) => {
                let c = s.peek().unwrap();
                let i = if starts_number(c) {
                    self.number(s, at)?
                } else {
                    // Which names an index behind an object's dot sees is left open.
                    if inside && c != '@' {
                        self.quirk = true;
                    }
                    self.path(s, fst, sc, at)?
                };
                let i = match i {
                    MV::Int(i) => i,
                    v => return s.err(EK::ExpType, at, &["Int", &v.ty().show()]),
                };
                let vals = match v {
                    MV::Arr(ref a) => &a.vals,
                    MV::Tup(ref t) => &t.vals,
                    _ => unreachable!(),
                };
                if i < zero() || i > BigInt::from(u64::MAX) {
                    return s.err(EK::Index, at, &[&i.to_string()]);
                }
                for (k, x) in vals.iter().enumerate() {
                    if BigInt::from(k) == i {
                        return Ok(x.clone());
                    }
                }
                s.err(EK::Bounds, at, &[if let MV::Arr(_) = v { "Arr" } else { "Tup" }, &i.to_string()])
            }
            MV::Kw(_) => {
                self.quirk = true;
                s.err(EK::NoVar, at, &[])
            }
            v => s.err(EK::Dot, of, &[&v.ty().show()]),
        }
    }

    fn include(&mut self, s: &mut Src, fst: &mut FileState, sc: &[(Rc<str>, MV)], depth: usize) -> R<MV> {
        if !s.skip() {
            return s.end();
        }
        let mut at = s.at();
        let mut v = self.value(s, fst, sc, at, depth, Some('>'))?;
        let kind = match v {
            MV::Kw(k) => Some(k),
            MV::Str(_) => None,
            _ => return s.err(EK::IncToken, at, &[&v.ty().show()]),
        };
        if kind.is_some() {
            if !s.skip() {
                return s.end();
            }
            at = s.at();
            v = self.value(s, fst, sc, at, depth, Some('>'))?;
        }
        if !s.skip() {
            return s.end();
        }
        let c = s.next();
        if c != Some('>') {
            return s.bracket(s.prev(), c.unwrap(), Some('>'));
        }
        let p = match v {
            MV::Str(p) => p,
            v => return s.err(EK::ExpType, at, &["Str", &v.ty().show()]),
        };
        let kind = kind.unwrap_or(0);
        let fs = match self.fs {
            Some(fs) => fs,
            None => return s.err(EK::IncPath, at, &[&p]),
        };
        let path = if p.starts_with('/') {
            p.to_string()
        } else {
            match s.file {
                Some(ref f) => match f.rfind('/') {
                    Some(0) => format!("/{}", p),
                    Some(i) => format!("{}/{}", &f[..i], p),
                    None => p.to_string(),
                },
                None => p.to_string(),
            }
        };
        let (abs, bytes) = match fs.read(&path) {
            Some(x) => x,
            None => return s.err(EK::IncPath, at, &[&p]),
        };
        let mine = s.file.as_ref().and_then(|f| fs.resolve(f));
        if Some(&abs) == mine.as_ref() || self.active.contains(&abs) {
            return s.err(EK::Cyclic, at, &[&p]);
        }
        if let Some(v) = self.cache.get(&(kind, abs.clone())) {
            return Ok(v.clone());
        }
        self.reads.push((kind, abs.clone()));
        let text = match String::from_utf8(bytes) {
            Ok(t) => t,
            Err(_) => return s.err(EK::Io, at, &[&p]),
        };
        let n = self.active.len();
        if let Some(m) = mine {
            self.active.push(m);
        }
        let v = if kind == 1 {
            MV::Str(text.into())
        } else {
            let mut sub = Src::new(&text, Some(path));
            match kind {
                0 => MV::Obj(self.top(&mut sub, depth)?),
                k => self.file_elements(&mut sub, depth, k == 2)?,
            }
        };
        self.active.truncate(n);
        self.cache.insert((kind, abs), v.clone());
        Ok(v)
    }
}

fn bin_err<T>(s: &Src, k: EK, at: (usize, usize), op: char, a: &MV, b: &MV) -> R<T> {
    if k != EK::BinOp {
        return s.err(k, at, &[]);
    }
    let (mut x, mut y) = (a.ty().show(), b.ty().show());
    // Whether the whole operand is called what it is or what it was taken for is left open.
    if x == "Int" && y == "Frac" {
        x = "Int\u{2}Frac".into();
    } else if x == "Frac" && y == "Int" {
        y = "Int\u{2}Frac".into();
    }
    s.err(k, at, &[&op.to_string(), &x, &y])
}
fn bin(op: char, a: &MV, b: &MV) -> Result<MV, EK> {
    let bad = Err(EK::BinOp);
    let one = BigInt::from(1);
    match (a, b) {
        (MV::Int(x), MV::Int(y)) => Ok(match op {
            '+' => MV::Int(x + y),
            '-' => MV::Int(x - y),
            '*' => MV::Int(x * y),
            '/' => {
                if is_zero(y) {
                    return Err(EK::Numeric);
                }
                MV::frac(x.clone(), y.clone())
            }
            _ => {
                if is_zero(y) {
                    return Err(EK::Numeric);
                }
                MV::Int(rem(x, y))
            }
        }),
        (MV::Int(x), MV::Frac(..)) => bin2(op, (x, &one), b),
        (MV::Frac(n, d), _) => bin2(op, (n, d), b),
        (MV::Str(x), MV::Str(y)) if op == '+' => Ok(MV::Str(format!("{}{}", x, y).into())),
        (MV::Arr(x), MV::Arr(y)) if op == '+' => match unify(&x.ty, &y.ty) {
            Some(ty) => {
                let mut vals = x.vals.clone();
                vals.extend(y.vals.iter().cloned());
                Ok(MV::Arr(Rc::new(MArr { vals, ty })))
            }
            None => bad,
        },
        _ => bad,
    }
}
fn bin2(op: char, (n1, d1): (&BigInt, &BigInt), b: &MV) -> Result<MV, EK> {
    let (n2, d2) = match b {
        MV::Frac(n, d) => (n.clone(), d.clone()),
        MV::Int(i) => (i.clone(), BigInt::from(1)),
        _ => return Err(EK::BinOp),
    };
    Ok(match op {
        '+' => MV::frac(n1 * &d2 + &n2 * d1, d1 * &d2),
        '-' => MV::frac(n1 * &d2 - &n2 * d1, d1 * &d2),
        '*' => MV::frac(n1 * &n2, d1 * &d2),
        '/' => {
            if is_zero(&n2) {
                return Err(EK::Numeric);
            }
            MV::frac(n1 * &d2, d1 * &n2)
        }
        _ => return Err(EK::BinOp),
    })
}
