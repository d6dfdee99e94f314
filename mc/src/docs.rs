//! Oracles on single texts and on sets of files.

use crate::cmp::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use over::{Obj, OverError};
use std::fs;
use std::str::FromStr;

#[derive(Clone, Copy)]
pub struct Oracle {
    /// Accepted exactly if the model accepts.
    pub accept: bool,
    /// An accepted text's value is compared...
    pub value: bool,
    /// ...with the reported types
    pub types: bool,
    /// ...and with the sharing of instances.
    pub share: bool,
    /// A rejected text's error names the fault's place.
    pub place: bool,
    /// Exceeding the nesting limit is said so.
    pub depth: bool,
    /// A rejected text's error says what is wrong.
    pub what: bool,
}
pub const ACCEPT: Oracle = Oracle { accept: true, value: false, types: false, share: false, place: false, depth: false, what: false };
pub const VALUE: Oracle = Oracle { accept: true, value: true, types: false, share: false, place: false, depth: false, what: false };
pub const TYPED: Oracle = Oracle { accept: true, value: true, types: true, share: false, place: false, depth: false, what: false };
pub const SHARED: Oracle = Oracle { accept: true, value: true, types: false, share: true, place: false, depth: false, what: false };
pub const DEPTH: Oracle = Oracle { accept: true, value: false, types: false, share: false, place: false, depth: true, what: false };
pub const PLACE: Oracle = Oracle { accept: false, value: false, types: false, share: false, place: true, depth: false, what: false };
pub const WHAT: Oracle = Oracle { accept: false, value: false, types: false, share: false, place: false, depth: false, what: true };

pub fn outcome_hash(o: &Outcome) -> u64 {
    let mut h = H::new();
    match &o.res {
        Ok(v) => h.o(v),
        Err(e) => {
            h.b(0xee);
            h.b(e.kind as u8);
            h.u(e.line as u64);
            h.u(e.col.unwrap_or(usize::MAX) as u64);
            h.b(o.saw_end as u8);
        }
    }
    h.0
}

fn number_after(msg: &str, pat: &str) -> bool {
    // Whether `pat` (which ends in a number) occurs and is not followed by a further digit.
    let mut from = 0;
    while let Some(i) = msg[from..].find(pat) {
        let end = from + i + pat.len();
        if !msg[end..].starts_with(|c: char| c.is_ascii_digit()) {
            return true;
        }
        from = end;
    }
    false
}

/// Whether the message names the place.
pub fn names_place(msg: &str, e: &MErr) -> bool {
    match e.col {
        None => number_after(msg, &format!("line {}", e.line)),
        Some(c) => {
            number_after(msg, &format!("line {}, column {}", e.line, c))
                || number_after(msg, &format!("line {}, col {}", e.line, c))
        }
    }
}

pub fn judge(real: Result<Obj, OverError>, m: &Outcome, o: Oracle) -> CaseRes {
    let alive = m.res.is_ok() || m.saw_end;
    if m.quirk {
        return Ok(Done { alive: true, ..Done::skip() });
    }
    match (&real, &m.res) {
        (Ok(r), Ok(v)) => {
            if o.value {
                let mut c = if o.types { Cmp::typed() } else { Cmp::plain() };
                c.share = o.share;
                c.obj(r, v).map_err(|e| format!("wrong value: {}", e))?;
            }
        }
        (Err(e), Err(me)) => {
            if o.depth && me.kind == EK::Depth && !e.to_string().to_lowercase().contains("recursion depth") {
                return Err(format!("nested too deeply, but the message is: {}", e));
            }
            if o.what {
                crate::says::says(&e.to_string(), me)?;
            }
            if o.place {
                let msg = e.to_string();
                if !names_place(&msg, me) {
                    return Err(format!(
                        "the fault ({:?}) is at line {}{}, but the message is: {}",
                        me.kind,
                        me.line,
                        me.col.map_or(String::new(), |c| format!(", column {}", c)),
                        msg
                    ));
                }
                let file_ok = match &me.file {
                    None => true,
                    Some(f) => match msg.find(": ") {
                        None => false,
                        Some(_) => prefix_is(&msg, f),
                    },
                };
                if !file_ok {
                    return Err(format!("the fault is in {:?}, but the message is: {}", me.file, msg));
                }
            }
        }
        (Ok(r), Err(me)) => {
            if o.accept {
                return Err(format!("accepted (as {}) although there is a fault ({:?} at line {} column {:?})", r.to_string().chars().take(200).collect::<String>(), me.kind, me.line, me.col));
            }
        }
        (Err(e), Ok(_)) => {
            if o.accept {
                return Err(format!("rejected although nothing is wrong: {}", e));
            }
        }
    }
    Ok(Done { state: outcome_hash(m), alive, steps: 1, runs: 1, skipped: false })
}

/// Whether the message starts with a spelling of the path.
fn prefix_is(msg: &str, f: &str) -> bool {
    if msg.starts_with(&format!("{}: ", f)) {
        return true;
    }
    let want = fs::canonicalize(f).ok();
    let mut from = 0;
    while let Some(i) = msg[from..].find(": ") {
        let p = &msg[..from + i];
        if want.is_some() && fs::canonicalize(p).ok() == want {
            return true;
        }
        from += i + 2;
    }
    false
}

pub fn text_case(text: &str, o: Oracle) -> CaseRes {
    let m = eval_text(text, None);
    judge(Obj::from_str(text), &m, o)
}

pub fn accept_text(t: &str) -> CaseRes {
    text_case(t, ACCEPT)
}
pub fn value_text(t: &str) -> CaseRes {
    text_case(t, VALUE)
}
pub fn typed_text(t: &str) -> CaseRes {
    text_case(t, TYPED)
}
pub fn shared_text(t: &str) -> CaseRes {
    text_case(t, SHARED)
}
pub fn place_text(t: &str) -> CaseRes {
    text_case(t, PLACE)
}

// ---- several texts in one case ----

pub const SEP: char = '\u{1}';
/// A case made of several texts; each is judged.
pub fn each_text(t: &str, o: Oracle) -> CaseRes {
    let mut h = H::new();
    let mut d = Done::state(0);
    d.runs = 0;
    d.steps = 0;
    for x in t.split(SEP) {
        let r = text_case(x, o).map_err(|e| format!("{}\n   text: {:?}", e, x.chars().take(300).collect::<String>()))?;
        h.u(r.state);
        d.runs += r.runs;
        d.steps += r.steps;
    }
    d.state = h.0;
    Ok(d)
}
pub fn each_value(t: &str) -> CaseRes {
    each_text(t, VALUE)
}
pub fn each_accept(t: &str) -> CaseRes {
    each_text(t, ACCEPT)
}
pub fn each_place(t: &str) -> CaseRes {
    each_text(t, PLACE)
}
pub fn what_text(t: &str) -> CaseRes {
    text_case(t, WHAT)
}
pub fn each_what(t: &str) -> CaseRes {
    each_text(t, WHAT)
}
pub fn disk_what(t: &str) -> CaseRes {
    disk_case(t, WHAT)
}

// ---- file systems ----

/// Files laid out on disk below the current directory, and the model's view of them.
pub struct Disk {
    pub root: String,
    pub fs: MemFs,
}
impl Disk {
    pub fn new() -> Disk {
        let cwd = std::env::current_dir().unwrap().to_str().unwrap().to_string();
        let root = format!("{}/t", cwd);
        wipe(&root);
        fs::create_dir_all(&root).unwrap();
        let mut m = MemFs::new(&cwd);
        m.nodes.insert(root.clone(), Node::Dir);
        Disk { root, fs: m }
    }
    pub fn abs(&self, name: &str) -> String {
        if name.starts_with('/') { name.into() } else { format!("{}/{}", self.root, name) }
    }
    pub fn dir(&mut self, name: &str) {
        let a = self.abs(name);
        fs::create_dir_all(&a).unwrap();
        // Its parents below the scratch directory are directories now, too.
        let mut p = &a[..];
        while p.len() > self.root.len() {
            self.fs.nodes.entry(p.to_string()).or_insert(Node::Dir);
            p = match p.rfind('/') {
                Some(i) => &p[..i],
                None => break,
            };
        }
    }
    pub fn file(&mut self, name: &str, content: &[u8]) {
        let a = self.abs(name);
        fs::write(&a, content).unwrap();
        self.fs.nodes.insert(a, Node::File(content.to_vec()));
    }
    pub fn link(&mut self, name: &str, target: &str) {
        let a = self.abs(name);
        let _ = fs::remove_file(&a);
        std::os::unix::fs::symlink(target, &a).unwrap();
        self.fs.nodes.insert(a, Node::Link(target.into()));
    }
    /// A FIFO: something that is no regular file, so to the model nothing at all.
    pub fn fifo(&mut self, name: &str) {
        extern "C" {
            fn mkfifo(p: *const u8, mode: u32) -> i32;
        }
        let p = format!("{}\0", self.abs(name));
        unsafe {
            mkfifo(p.as_ptr(), 0o600);
        }
    }
    pub fn remove(&mut self, name: &str) {
        let a = self.abs(name);
        let _ = fs::remove_file(&a);
        self.fs.nodes.remove(&a);
    }
    /// Loads `name` (relative to the current directory's t/) by the given path spelling.
    pub fn load(&self, path: &str) -> (Result<Obj, OverError>, Result<Outcome, ()>) {
        (Obj::from_file(path), eval_file(path, &self.fs))
    }
    pub fn judge(&self, path: &str, o: Oracle) -> CaseRes {
        let (r, m) = self.load(path);
        match m {
            Err(()) => match r {
                Ok(_) => Err(format!("loading {:?}, which cannot be read, succeeded", path)),
                Err(_) => Ok(Done::state(1)),
            },
            Ok(m) => judge(r, &m, o),
        }
    }
    pub fn judge_text(&self, text: &str, o: Oracle) -> CaseRes {
        judge(Obj::from_str(text), &eval_text(text, Some(&self.fs)), o)
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        wipe(&self.root);
    }
}
pub fn wipe(p: &str) {
    // Only ever called on a directory t below a scratch directory of our own.
    assert!(p.ends_with("/t") && (p.starts_with("/dev/shm/mc") || p.starts_with(&format!("{}/mc", std::env::temp_dir().display()))));
    if fs::symlink_metadata(p).is_ok() {
        fs::remove_dir_all(p).unwrap();
    }
}

/// Encoding of a set of files as a case: entries separated by SEP, "name=content" for a file,
/// "name>target" for a link, "name/" for a directory; the last entry is what is loaded:
/// "!path" for a file, "=text" for a text.
pub fn disk_case(t: &str, o: Oracle) -> CaseRes {
    let mut d = Disk::new();
    let mut h = H::new();
    let mut done = Done::state(0);
    done.runs = 0;
    done.steps = 0;
    for e in t.split(SEP) {
        let e = &e.replace("%R", &d.root);
        let r = if let Some(p) = e.strip_prefix('!') {
            d.judge(p, o)
        } else if let Some(x) = e.strip_prefix('=') {
            d.judge_text(x, o)
        } else {
            // Names in subdirectories: the separator is the last one of a leading path.
            let (name, rest) = split_entry(e);
            done.steps += 1;
            match rest.chars().next() {
                Some('=') => d.file(name, rest[1..].as_bytes()),
                Some('>') => d.link(name, &rest[1..]),
                Some('/') | None => d.dir(name),
                Some('-') => d.remove(name),
                Some('|') => d.fifo(name),
                _ => panic!("bad entry {:?}", e),
            }
            continue;
        };
        let r = r.map_err(|x| format!("{}\n   at {:?}", x, e))?;
        h.u(r.state);
        done.runs += r.runs;
        done.steps += r.steps;
        done.skipped |= r.skipped;
    }
    done.state = h.0;
    Ok(done)
}
pub fn split_entry(e: &str) -> (&str, &str) {
    for (i, c) in e.char_indices() {
        if c == '=' || c == '>' || c == '-' || c == '|' {
            return (&e[..i], &e[i..]);
        }
    }
    (e.trim_end_matches('/'), "")
}
pub fn disk_value(t: &str) -> CaseRes {
    disk_case(t, VALUE)
}
pub fn disk_accept(t: &str) -> CaseRes {
    disk_case(t, ACCEPT)
}
pub fn disk_shared(t: &str) -> CaseRes {
    disk_case(t, SHARED)
}
pub fn disk_place(t: &str) -> CaseRes {
    disk_case(t, PLACE)
}

/// All scalar values.
pub fn scalars() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(std::char::from_u32)
}
