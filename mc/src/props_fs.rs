//! C12, C13, C14: includes.

use crate::cmp::*;
use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use over::value::Value;
use over::{Obj, ReferenceType};
use std::collections::HashSet;
use std::str::FromStr;

const KINDS: [&str; 5] = ["", "Obj ", "Arr ", "Tup ", "Str "];

fn j(v: &[&str]) -> String {
    v.join(&SEP.to_string())
}

// ---------------------------------------------------------------- C12

/// The body of a file f, included as every type (the strict comparison includes types).
fn c12_body_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    d.file("f", t.as_bytes());
    let mut h = H::new();
    let mut n = 0;
    for k in &KINDS {
        let r = d.judge_text(&format!("a:<{}\"t/f\">", k), TYPED).map_err(|e| format!("included as {:?}: {}", k, e))?;
        h.u(r.state);
        n += 1;
    }
    // As the only thing in a file, and twice at once as different types.
    d.file("m", b"a:<Tup \"f\"> b:<Str \"f\">");
    h.u(d.judge("t/m", TYPED).map_err(|e| format!("included from a file: {}", e))?.state);
    let alive = |p: &str| {
        let m = eval_text(&format!("{}{}", p, t), None);
        m.res.is_ok() || m.saw_end
    };
    Ok(Done { state: h.0, alive: alive("") || alive("x:(") || alive("x:["), steps: 1, runs: n + 1, skipped: false })
}
fn c12_bodies(c: &mut Ctx) {
    c.tree("", &["a:", "@g:", "^:", "a ", "@g ", "1 ", "1.5 ", "\"s\"", "null ", "[", "] ", "(", ") ", "{", "} ", "#", "\n", "+"], c.pick(4, 5), &[]);
    for d in SHORT.iter().chain(LONG.iter()) {
        c.case(d);
        c.case(&format!("{}\n", d));
        c.case(&format!("\u{feff}{}", d));
        c.case(&d.replace('\n', "\r\n"));
        for p in &["1 2 3", "[1] []", "1 \"s\"", "[1] [\"s\"]", "x", "#", "(1 2) (3 4)", "{} {a:1}"] {
            c.case(&format!("{} {}", p, d));
            c.case(&format!("{} {}", d, p));
        }
    }
    for b in &["1 2 3", "[1] []", "[] [1]", "1 \"s\"", "[1] [\"s\"]", "1 1.5", "null null", "{a:1} {b:2}", "(1 []) (2 [3])", "1+2*3", "\"a\"+\"b\" \"c\"", "-1 +2", "[1]+[2] [3]", "1 #c\n2", "#c", "1 2 ]", "1 2 )", "1 2 }", "1,2", "@g", "a", "1a", "\"x", "[1", "null", "true false", "Obj", "x:1 2", "1 x:2", "@g:1 @g", "@g:1", "^:{a:1}", "^:{a:1} b:2"] {
        c.case(b);
        c.case(&format!("\n {} \n", b));
        c.case(&format!("{}#end", b));
    }
}
/// Verbatim strings: the file holds the text, included as a string.
fn c12_str_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    d.file("f", t.as_bytes());
    let r = d.judge_text("a:<Str \"t/f\"> b:<Str \"t/../t/f\">+\"|\"", VALUE)?;
    let mut h = H::new();
    h.s(t);
    Ok(Done { state: h.0, ..r })
}
fn c12_str(c: &mut Ctx) {
    let all: Vec<char> = scalars().collect();
    for x in all.chunks(48) {
        c.case(&x.iter().collect::<String>());
    }
    for x in &["", "\u{feff}", "\u{feff}a", "a\u{feff}", "\r\n", "a\r\nb\rc\n", "\n", " ", "  a  ", "\0", "a\0b", "\\n", "\\", "\"", "\"x\"", "\\\"", "#c", "a:1", "\u{1a}", "é", "\u{e9}e\u{301}", "\t", "$x", "}", "\n\n\n", "x\n"] {
        c.case(x);
        for y in &["a", "\n", "\"", "\\", "\r", "\u{feff}"] {
            c.case(&format!("{}{}", x, y));
            c.case(&format!("{}{}", y, x));
        }
    }
    for n in (0..c.pick(300, 1000)).chain(vec![1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 65535, 65536, 65537, 131072, 131073, 1 << 20, (1 << 20) + 1]) {
        c.case(&"x".repeat(n));
        c.case(&format!("a{}", "é".repeat(n)));
    }
}
/// What stands between < and >.
fn c12_syntax_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    d.file("f", b"x:1");
    d.file("g", b"1 2");
    d.file("h.x", b"[1]");
    d.judge_text(t, TYPED)
}
fn c12_syntax(c: &mut Ctx) {
    let k = c.pick(5, 6);
    c.tree("p:\"t/f\" o:{q:\"t/g\"} a:<", &["Obj", "Arr", "Tup", "Str", " ", "\"t/f\"", "\"t/g\"", "\"t/h\"", "p", "o.q", "+", "\".x\"", ">", "#>\n", "<", "1", "[", "]"], k, &[]);
    c.tree("@g:\"t/g\" a:[<", &["Arr ", "Tup", "Obj\n", "\"t/g\"", "@g", ">", "] ", " ", "null", "-", ".0", "{}", "b:", "Str \"t/f\""], k, &[]);
}
/// Where a path leads: every path of up to k components, from several places.
fn c12_path_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    for x in &["d", "d/e", "o"] {
        d.dir(x);
    }
    for x in &["f", "d/f", "d/e/f", "o/f", "d/g", "fd"] {
        d.file(x, format!("at:\"{}\"", x).as_bytes());
    }
    d.link("L", "d/e");
    d.link("K", "f");
    d.link("d/U", "..");
    d.link("d/A", &d.abs("o"));
    d.link("d/V", "../o/f");
    d.link("X", "none");
    d.link("Y", "Y");
    d.link("Z", "K");
    let body = format!("a:<{}>", lit_str(&t.replace("%R", &d.root)));
    let mut h = H::new();
    let mut n = 0;
    d.link("lm", "d/main");
    for place in &["main", "d/main", "d/e/main"] {
        d.file(place, body.as_bytes());
    }
    let abs = d.abs("d/main");
    for load in &["t/main", "t/d/main", "t/d/e/main", "t/L/main", "t/d/../main", "./t/d/main", "t/lm", "t/d/U/d/main", &abs] {
        let r = d.judge(load, VALUE).map_err(|e| format!("{}\n   from {:?}", e, load))?;
        h.u(r.state);
        n += 1;
    }
    let r = d.judge_text(&body, VALUE).map_err(|e| format!("{}\n   from a text", e))?;
    h.u(r.state);
    Ok(Done { state: h.0, alive: true, steps: t.matches('/').count() as u64 + 1, runs: n + 1, skipped: false })
}
fn c12_paths(c: &mut Ctx) {
    let comps = ["f", "d", "e", "o", "..", ".", "", "L", "K", "g", "V", "X", "Y", "U", "A", "t", "Z", "fd", "main"];
    let max = c.pick(3, 4);
    let mut last: Vec<String> = vec![];
    for k in 1..=max {
        let mut next = vec![];
        for x in &comps {
            if k == 1 {
                next.push(x.to_string());
            } else {
                for p in &last {
                    next.push(format!("{}/{}", p, x));
                }
            }
        }
        for p in &next {
            c.case(p);
            if k < max {
                c.case(&format!("%R/{}", p));
            }
        }
        last = next;
    }
    for x in &[" f", "f ", "F", "f\0", "\0f", "f\n", "./f#", "é", "*", "?", "~/f", "$HOME", "\\f", "d\\f", "f/../f", "//f", "file:f", "f.over", ".f", "f."] {
        c.case(x);
    }
}
/// "a b r1 r2": files in directories a and b; main includes the first, which includes the second.
fn c12_nested_exec(t: &str) -> CaseRes {
    disk_typed(t)
}
fn disk_typed(t: &str) -> CaseRes {
    disk_case(t, TYPED)
}
fn c12_nested(c: &mut Ctx) {
    let dirs = ["", "d/", "d/e/", "o/"];
    let rel = ["f", "./f", "../f", "d/f", "e/f", "o/f", "../o/f", "../d/f", "../../f", "d/e/f", "t/f", "%R/f", "%R/d/f"];
    for m in &dirs {
        for a in &dirs {
            for r in &rel {
                for k in &KINDS {
                    for kk in &["", "Str "] {
                        if !c.mine() {
                            continue;
                        }
                        // The including file is elsewhere than what is loaded.
                        let body = match *k {
                            "" | "Obj " => format!("i:<{}\"{}\">", kk, r),
                            _ => format!("<{}\"{}\">", kk, r),
                        };
                        let up = "../".repeat(m.matches('/').count());
                        let main = format!("{}main=x:<{}\"{}{}inc\"> y:1", m, k, up, a);
                        let inc = format!("{}inc={}", a, body);
                        let load = format!("!t/{}main", m);
                        let text = format!("=x:<{}\"t/{}inc\">", k, a);
                        c.run(&j(&["d/", "d/e/", "o/", "f=at:0", "d/f=at:1", "d/e/f=at:2", "o/f=at:3", &main, &inc, &load, &text]), true);
                    }
                }
            }
        }
    }
}
fn c12_scope_exec(t: &str) -> CaseRes {
    let p: Vec<&str> = t.split(SEP).collect();
    let mut d = Disk::new();
    let mut h = H::new();
    d.file("f", p[0].as_bytes());
    for k in &KINDS {
        let body = format!("{}x:<{}\"f\"> {}", p[1], k, p[2]);
        d.file("m", body.as_bytes());
        h.u(d.judge("t/m", VALUE).map_err(|e| format!("as {:?}: {}", k, e))?.state);
    }
    let alive = |p: &str, t: &str| {
        let m = eval_text(&format!("{}{}", p, t), None);
        m.res.is_ok() || m.saw_end
    };
    // Alive for further text in the included file or in the including one.
    let live = alive("", p[0]) || alive("z:(", p[0]) || alive(&format!("{}x:1 ", p[1]), p[2]);
    Ok(Done { state: h.0, alive: live, steps: 2, runs: 5, skipped: false })
}
pub fn c12_scope(c: &mut Ctx) {
    let pres = ["", "a:1 @g:2 ", "a:{b:1} @g:[7] @h:\"s\" "];
    let posts = ["", "b:a ", "b:@g ", "a:3 ", "@g:3 c:@g ", "b:x.a ", "b:[x] @h:1"];
    let mut bodies: Vec<String> = vec![];
    // All file bodies of up to 3 of these parts.
    let parts = ["a:5 ", "b:a ", "@g:6 ", "b:@g ", "a ", "@g ", "x ", "1 ", "^:{a:9} ", "@h:@g ", "{b:a} ", "c:{d:@g} "];
    let mut last = vec![String::new()];
    for _ in 0..c.pick(3, 4) {
        let mut next = vec![];
        for l in &last {
            for p in &parts {
                next.push(format!("{}{}", l, p));
            }
        }
        bodies.extend(next.iter().cloned());
        last = next;
    }
    bodies.push(String::new());
    for b in &bodies {
        for p in &pres {
            for q in &posts {
                if c.mine() {
                    c.run(&j(&[b, p, q]), true);
                }
            }
        }
    }
    // Two included files and the includer share no names.
    let defs = ["a:1", "@g:1", "@g:1 a:@g", "", "a:{b:2}", "^:{a:3}"];
    let uses = ["b:a", "b:@g", "a:2 b:a", "@g:5 b:@g", "b:[a]", "b:{c:a}", "b:{c:@g}"];
    for d in &defs {
        for u in &uses {
            for o in &["x:<\"d\"> y:<\"u\">", "x:<\"u\"> y:<\"d\">", "x:{i:<\"d\"> j:<\"u\">}", "x:[<\"d\"> <\"u\">]", "^:<\"d\"> y:<\"u\">", "^:<\"d\"> b:a", "@g:<\"d\"> y:<\"u\">", "a:<\"d\"> y:<\"u\">", "x:<\"d\"> b:x.a", "x:<\"d\">.a", "x:(<\"d\"> 1) b:x.0.a"] {
                c.case(&j(&[&format!("d={}", d), &format!("u={}", u), &format!("m={}", o), "!t/m"]));
            }
        }
    }
}
fn c12_faults(c: &mut Ctx) {
    // What is included cannot be read as the type, wherever and however it is included.
    let bad = ["f/", "f|", "f>none", "f>f", "f>d", "q=", "f=a:", "f=\u{0}", "f=a:1 a:2", "f=a:1]", "f=[1", "f=1 \"s\"", "f=\"", "f=x:<\"none\">", "f=x:<Arr \"bad\">"];
    let wraps = ["a:<{}\"f\">", "a:[<{}\"f\">]", "a:{b:<{}\"f\">}", "^:<{}\"f\">", "@g:<{}\"f\">", "a:1 b:(1 <{}\"f\"> 2) c:3", "a:<{}\"f\">+[]", "a:\"\"+<{}\"f\">", "a:<{}\"f\">.a", "x:<\"in\">"];
    for b in &bad {
        for k in &KINDS {
            for w in &wraps {
                let m = format!("m={}", w.replace("{}", k));
                let i = format!("in=y:<{}\"f\">", k);
                c.case(&j(&["d/", "bad=1 null", b, &i, &m, "!t/m"]));
                c.case(&j(&["d/", "bad=1 null", b, &i, &format!("={}", w.replace("{}", k).replace("\"f\"", "\"t/f\"").replace("\"in\"", "\"t/in\""))]));
            }
        }
    }
}
/// A directory with a file of every name there is: each must be found under its own name alone.
fn names12() -> Vec<String> {
    let odd = ["%", "2", "0", " ", "~", "$", "\\", "*", "?", "+", ".", "a", "&", ";", "é", "\"", "'", "A", ":", "n", "{", "}", "|", "<", ">", "#", "\n", "\t", "-", "!", "(", "@", "=", "^", ",", "\u{301}", "x"];
    let mut v: Vec<String> = (1..=255u32).filter_map(std::char::from_u32).map(|c| c.to_string()).collect();
    v.extend((1..=127u8).map(|b| format!("f{}g", b as char)));
    for a in &odd {
        for b in &odd {
            v.push(format!("{}{}", a, b));
            v.push(format!("k{}{}k", a, b));
        }
    }
    for a in &odd[..12] {
        for b in &odd[..12] {
            for c in &odd[..12] {
                v.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    v.extend(["%41", "k%41k", "%2e", "%2E%2E", "%2F", "%2f", "&amp;", "&#97;", "$HOME", "${HOME}", "~root", "file:", "file:k", "C:", "NUL", "CON", "\\u0041", "\\x41", "\\n", "..a", "a..", "...", "....", "[a]", "{a,A}", "a*", "?a", "A.over", "a.over", "a.OVER"].iter().map(|s| s.to_string()));
    for n in (1..60).chain([63, 64, 65, 100, 127, 128, 129, 200, 249, 250, 251, 252, 253, 254, 255].iter().cloned()) {
        v.push("n".repeat(n));
        v.push(format!("{}m", "n".repeat(n - 1)));
        v.push(format!("m{}", "n".repeat(n - 1)));
    }
    v.retain(|s| !s.contains('/') && s != "." && s != "..");
    v.sort();
    v.dedup();
    v
}
thread_local! {
    static NAMES12: Vec<String> = {
        let v = names12();
        for d in ["names12", "names12/sub dir%20"] {
            std::fs::create_dir_all(d).unwrap();
            for (i, n) in v.iter().enumerate() {
                std::fs::write(format!("{}/{}", d, n), format!("i:{}", i + 100_000 * (d.len() - 7))).unwrap();
            }
        }
        v
    };
}
fn c12_names(c: &mut Ctx) {
    for i in 0..names12().len() {
        c.case(&i.to_string());
    }
}
fn c12_names_exec(t: &str) -> CaseRes {
    let i: usize = t.parse().unwrap();
    NAMES12.with(|v| {
        let n = &v[i];
        for d in ["names12", "names12/sub dir%20"] {
            let want: num_bigint::BigInt = (i + 100_000 * (d.len() - 7)).into();
            let p = lit_str(&format!("{}/{}", d, n));
            let o = Obj::from_str(&format!("a:<{}> b:<Str {}>", p, p)).map_err(|e| format!("the file {:?} is not included: {}", n, e))?;
            let got = o.get_obj("a").and_then(|o| o.get_int("i")).map_err(|e| e.to_string())?;
            if got != want || o.get_str("b").map_err(|e| e.to_string())? != format!("i:{}", want) {
                return Err(format!("including the file {:?} gives what {:?} holds", n, o.to_string()));
            }
            let l = Obj::from_file(&format!("{}/{}", d, n)).map_err(|e| format!("the file {:?} is not loaded: {}", n, e))?;
            if l.get_int("i").map_err(|e| e.to_string())? != want {
                return Err(format!("loading the file {:?} gives {}", n, l));
            }
        }
        Ok(Done { state: i as u64, alive: true, steps: 1, runs: 4, skipped: false })
    })
}
/// An included file that is a link to a file of another directory includes beside the link.
fn c12_links(c: &mut Ctx) {
    let dirs = ["", "d/", "d/e/", "o/"];
    let rel = ["f", "./f", "../f", "e/f", "../o/f", "d/f", "%R/d/f"];
    for a in &dirs {
        for b in &dirs {
            for r in &rel {
                for k in &KINDS[..4] {
                    for abs in [false, true] {
                        if !c.mine() {
                            continue;
                        }
                        let body = match *k {
                            "" | "Obj " => format!("i:<\"{}\">", r),
                            _ => format!("<\"{}\">", r),
                        };
                        let target = if abs { format!("%R/{}tgt", b) } else { format!("{}{}tgt", "../".repeat(a.matches('/').count()), b) };
                        let (tgt, link) = (format!("{}tgt={}", b, body), format!("{}inc>{}", a, target));
                        let main = format!("main=x:<{}\"{}inc\"> y:1", k, a);
                        let more = format!("d/lm>../main");
                        let text = format!("=x:<{}\"t/{}inc\">", k, a);
                        let top = format!("!t/{}inc", a);
                        let mut v = vec!["d/", "d/e/", "o/", "f=at:0", "d/f=at:1", "d/e/f=at:2", "o/f=at:3", &tgt, &link, &main, &more, "!t/main", "!t/d/lm", &text];
                        if k.is_empty() {
                            v.push(&top);
                        }
                        c.run(&j(&v), true);
                    }
                }
            }
        }
    }
}
/// Invalid UTF-8: hexadecimal bytes of the included file.
fn c12_utf8_exec(t: &str) -> CaseRes {
    let b: Vec<u8> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut d = Disk::new();
    d.file("f", &b);
    let mut h = H::new();
    for k in &KINDS {
        h.u(d.judge_text(&format!("a:<{}\"t/f\">", k), VALUE).map_err(|e| format!("as {:?}: {}", k, e))?.state);
    }
    Ok(Done { state: h.0, alive: true, steps: b.len() as u64, runs: 5, skipped: false })
}
fn c12_utf8(c: &mut Ctx) {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
    for a in 0..=255u8 {
        c.case(&hex(&[a]));
        for pre in &["a:\"", "a:1 #", "a:1 ", "1 2 ", "\"x"] {
            for post in &["", "\"", "\n", " b:2"] {
                let mut v = pre.as_bytes().to_vec();
                v.push(a);
                v.extend(post.as_bytes());
                c.case(&hex(&v));
                if a >= 0xc0 {
                    for k in &[0x80u8, 0xbf] {
                        let mut v = pre.as_bytes().to_vec();
                        v.extend(&[a, *k]);
                        v.extend(post.as_bytes());
                        c.case(&hex(&v));
                    }
                }
            }
        }
    }
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        assumptions: vec!["a Linux file system; paths are UTF-8"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "bodies", what: "all file bodies of up to 4 (5) of 18 tokens and 45 larger texts with changes, included as each of the five types, compared with types", gen: c12_bodies, exec: c12_body_exec },
            Family { name: "strings", what: "every Unicode scalar value, blanks, byte order marks, line ends, and all sizes to 300 (1000) and around powers of two, in a file included as a string", gen: c12_str, exec: c12_str_exec },
            Family { name: "syntax", what: "all sequences of up to 5 (6) tokens inside <...>", gen: c12_syntax, exec: c12_syntax_exec },
            Family { name: "paths", what: "all paths of up to 3 (4) of 19 components (links to files, directories, nothing, themselves; . .. and empty ones), relative and absolute, from files at 9 places and from a text", gen: c12_paths, exec: c12_path_exec },
            Family { name: "alike", what: "all ordered pairs of 55 names that are easily confused, of files of one size, as each two types, each included twice", gen: c14_alike, exec: disk_value },
            Family { name: "big", what: BIG, gen: big_gen, exec: big_value },
            Family { name: "nested", what: "an include inside an included file: all combinations of directories, 13 spellings, types", gen: c12_nested, exec: c12_nested_exec },
            Family { name: "links", what: "an included file that is a relative or absolute link from each of 4 directories to each, including a file itself, as 4 types, 7 spellings; loaded from a file, a link, a text, and directly", gen: c12_links, exec: c12_nested_exec },
            Family { name: "names", what: "two directories with files of 4,600 names (every character to U+00FF, all pairs of 37 odd characters, triples of 12, escapes of shells, addresses, markup; all lengths to 60 and around powers of two to 255): each included twice and loaded, gives its own contents", gen: c12_names, exec: c12_names_exec },
            Family { name: "scope", what: "all included bodies of up to 3 (4) of 12 parts against 3 beginnings and 7 ends of the including file, as each type; pairs of included files", gen: c12_scope, exec: c12_scope_or_disk },
            Family { name: "faults", what: "15 unreadable or malformed targets, as each type, at 10 places, from files and texts", gen: c12_faults, exec: disk_value },
            Family { name: "bytes", what: "every byte at five places of a file included as each type", gen: c12_utf8, exec: c12_utf8_exec },
        ],
    }
}
pub fn c12_scope_or_disk(t: &str) -> CaseRes {
    if t.contains("!t/m") {
        disk_typed(t)
    } else {
        c12_scope_exec(t)
    }
}

// ---------------------------------------------------------------- C13

/// "n kinds edges": files f0.. of a kind (o, a, t: how it is written and included), and for each ordered
/// pair the include: 0 none, 1 as its kind, 2 as a string, 3 both.
fn c13_graph_exec(t: &str) -> CaseRes {
    let (kinds, edges) = t.split_at(t.find(' ').unwrap());
    let (kinds, edges) = (kinds.as_bytes(), edges[1..].as_bytes());
    let n = kinds.len();
    let mut d = Disk::new();
    for i in 0..n {
        let mut inc = vec![];
        for k in 0..n {
            let as_kind = match kinds[k] {
                b'o' => format!("<\"f{}\">", k),
                b'a' => format!("<Arr \"f{}\">", k),
                _ => format!("<Tup \"f{}\">", k),
            };
            let e = edges[i * n + k] - b'0';
            if e & 1 == 1 {
                inc.push(as_kind);
            }
            if e & 2 == 2 {
                inc.push(format!("<Str \"f{}\">", k));
            }
        }
        let body = match kinds[i] {
            b'o' => inc.iter().enumerate().map(|(k, x)| format!("e{}:{} ", k, x)).collect::<String>(),
            b'a' => inc.iter().map(|x| format!("{{e:{}}} ", x)).collect::<String>(),
            _ => inc.join(" "),
        };
        d.file(&format!("f{}", i), body.as_bytes());
    }
    let mut h = H::new();
    let mut runs = 0;
    for i in 0..n {
        // Files that are not objects are loaded through a text.
        let r = if kinds[i] == b'o' { d.judge(&format!("t/f{}", i), ACCEPT) } else { d.judge_text(&format!("x:<{} \"t/f{}\">", if kinds[i] == b'a' { "Arr" } else { "Tup" }, i), ACCEPT) };
        h.u(r.map_err(|e| format!("starting at f{}: {}", i, e))?.state);
        runs += 1;
        if n <= 2 {
            let r = d.judge_text(&format!("x:<Str \"t/f{}\"> y:<Str \"t/f0\">", i), ACCEPT);
            h.u(r.map_err(|e| format!("as strings: {}", e))?.state);
            runs += 1;
        }
    }
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs, skipped: false })
}
fn c13_graphs(c: &mut Ctx) {
    fn all(c: &mut Ctx, kinds: &str, vals: &[u8], edges: &mut Vec<u8>, left: usize) {
        if left == 0 {
            c.case(&format!("{} {}", kinds, String::from_utf8(edges.clone()).unwrap()));
            return;
        }
        for v in vals {
            edges.push(b'0' + v);
            all(c, kinds, vals, edges, left - 1);
            edges.pop();
        }
    }
    for k in &["o", "a", "t"] {
        all(c, k, &[0, 1, 2, 3], &mut vec![], 1);
    }
    for k in &["oo", "oa", "ot", "aa", "at", "tt", "ao", "to", "ta"] {
        all(c, k, &[0, 1, 2, 3], &mut vec![], 4);
    }
    let three: Vec<&str> = if c.thorough() { vec!["ooo", "ooa", "oot", "oaa", "oat", "ott", "aaa", "aat", "att", "ttt", "aoo", "oao", "too"] } else { vec!["ooo", "oat"] };
    for k in three {
        if c.thorough() {
            all(c, k, &[0, 1, 2], &mut vec![], 9);
        } else {
            all(c, k, &[0, 1], &mut vec![], 9);
        }
    }
    if c.thorough() {
        all(c, "oooo", &[0, 1], &mut vec![], 16);
    }
}
/// Names that one might take for each other: in other directories, prefixes, case, blanks, length.
pub fn alike_names() -> Vec<String> {
    let mut v: Vec<String> = ["f", "d/f", "e/f", "d/e/f", "e/d/f", "d/d/f", "ff", "F", "f.over", "d/f.over", "é", "e\u{301}", "d/é", "f f", " f", "f ", ".f", "..f", "f.", "f..", "%66", "f:", "f~", "d/ff", "0", "00", "d/0"].iter().map(|s| s.to_string()).collect();
    // What other programs give a meaning to.
    v.extend(["f\tg", "f\\tg", "f\ng", "f\\ng", "f\\g", "f\"g", "f\\\"g", "$f", "\\$f", "~f", "f#x", "f?x", "f*", "f;g", "f,g", "@f", "[f]", "{f}", "f&g", "\r", "f\r", "f\u{a0}", "\u{feff}f", "Obj", "Str f"].iter().map(|s| s.to_string()));
    for e in &["a", "b", "a/f", "b/f"] {
        v.push(format!("{}{}", if e.len() == 1 { "l" } else { "m" }.repeat(200), e));
    }
    v
}
/// The name as it is written in a text.
fn esc(s: &str) -> String {
    let mut t = String::new();
    for ch in s.chars() {
        match ch {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\t' => t.push_str("\\t"),
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '$' => t.push_str("\\$"),
            ch => t.push(ch),
        }
    }
    t
}
/// The path of file `b` seen from file `a`.
fn rel(a: &str, b: &str) -> String {
    format!("{}{}", "../".repeat(a.matches('/').count()), b)
}
/// "name|name...|edges": an include graph over files of these names, all of the same size.
fn c13_alike_exec(t: &str) -> CaseRes {
    let mut names: Vec<&str> = t.split('|').collect();
    let edges = names.pop().unwrap().as_bytes();
    let n = names.len();
    let mut d = Disk::new();
    for (i, f) in names.iter().enumerate() {
        let mut b = String::new();
        for (k, g) in names.iter().enumerate() {
            let e = edges[i * n + k] - b'0';
            if e & 1 == 1 {
                b.push_str(&format!("o{}:<\"{}\"> ", k, esc(&rel(f, g))));
            }
            if e & 2 == 2 {
                b.push_str(&format!("s{}:<Str \"{}\"> ", k, esc(&rel(f, g))));
            }
        }
        let body = format!("{:1$}", b, 1300 * n);
        if let Some(p) = f.rfind('/') {
            d.dir(&f[..p]);
        }
        d.file(f, body.as_bytes());
    }
    let mut h = H::new();
    let mut runs = 0;
    for f in &names {
        h.u(d.judge(&format!("t/{}", f), ACCEPT).map_err(|e| format!("starting at {:?}: {}", f, e))?.state);
        h.u(d.judge_text(&format!("x:<\"t/{}\"> y:<Str \"t/{}\">", esc(f), esc(names[0])), ACCEPT).map_err(|e| format!("starting at a text that includes {:?}: {}", f, e))?.state);
        runs += 2;
    }
    Ok(Done { state: h.0, alive: true, steps: n as u64, runs, skipped: false })
}
fn c13_alike(c: &mut Ctx) {
    let names = alike_names();
    for a in 0..names.len() {
        for b in 0..names.len() {
            if a == b || (a > b && !c.thorough()) {
                continue;
            }
            for e in 0..256u32 {
                if !c.thorough() && !(a == 0 || b == 0) && (e >> 6) & 3 != 0 && e & 3 != 0 {
                    // Both files include themselves: one suffices.
                    continue;
                }
                c.case(&format!("{}|{}|{}{}{}{}", names[a], names[b], e & 3, (e >> 2) & 3, (e >> 4) & 3, (e >> 6) & 3));
            }
        }
    }
    for t in &["f|d/f|d/e/f", "f|d/f|e/f", "d/f|e/f|d/e/f", "f|ff|F", "é|e\u{301}|d/é", "f|f | f", "f|f.over|d/f.over", "0|00|d/0"] {
        for e in 0..512u32 {
            c.case(&format!("{}|{}", t, (0..9).map(|i| if (e >> i) & 1 == 1 { '1' } else { '0' }).collect::<String>()));
            if c.thorough() {
                c.case(&format!("{}|{}", t, (0..9).map(|i| if (e >> i) & 1 == 1 { '2' } else { '1' }).collect::<String>()));
                c.case(&format!("{}|{}", t, (0..9).map(|i| if (e >> i) & 1 == 1 { '2' } else { '0' }).collect::<String>()));
            }
        }
    }
}
/// Files that are easily confused, with contents of one size, each included twice.
pub fn c14_alike(c: &mut Ctx) {
    let names = alike_names();
    for a in &names {
        for b in &names {
            if a == b || !c.mine() {
                continue;
            }
            for k in &KINDS {
                for k2 in &KINDS {
                    let body = |k: &str, x: &str| if k.trim() == "Obj" || k.is_empty() { format!("v:[{}]", x) } else { format!("[{}]  ", x) };
                    let mut v = vec![];
                    for f in &[a, b] {
                        if let Some(p) = f.rfind('/') {
                            v.push(format!("{}/", &f[..p]));
                        }
                    }
                    v.push(format!("{}={}", a, body(k, "1")));
                    v.push(format!("{}={}", b, body(k2, "2")));
                    let i = |k: &str, f: &str, up: &str| format!("<{}\"{}{}\">", k, up, esc(f));
                    v.push(format!("m=a:{} b:{} c:{} d:{} e:<Str \"{}\"> f:<Str \"{}\">", i(k, a, ""), i(k2, b, ""), i(k, a, ""), i(k2, b, "./"), esc(a), esc(b)));
                    v.push("!t/m".into());
                    v.push(format!("=a:{} b:{} c:{} d:<Str \"t/{}\">", i(k2, b, "t/"), i(k, a, "t/"), i(k2, b, "t/"), esc(a)));
                    // Then only one of them.
                    if k == k2 {
                        v.push(format!("{}-", a));
                        v.push("!t/m".into());
                        v.push(format!("m=a:{}", i(k, a, "")));
                        v.push("!t/m".into());
                        v.push(format!("=a:{}", i(k, a, "t/")));
                    }
                    let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
                    c.run(&j(&v), true);
                }
            }
        }
    }
}
/// "kind fill n": large files, included twice, by other files too.
fn big_files(t: &str) -> Vec<String> {
    let f: Vec<&str> = t.split(' ').collect();
    let n: usize = f[2].parse().unwrap();
    let (kw, obj) = (KINDS[f[0].parse::<usize>().unwrap()], f[0] == "0" || f[0] == "1");
    let one = if obj { "v:[1] w:{u:()} " } else { "[1] [2] " };
    let fill = match f[1] {
        "blanks" => " ".repeat(n),
        "lines" => "\n".repeat(n),
        "comment" => format!("#{}\n", "é".repeat(n / 2)),
        "string" if obj => format!("s:\"{}\" ", "x".repeat(n)),
        "string" => format!("[{}] ", "7".repeat(n.min(5000))),
        _ if obj => (0..n.min(4100)).map(|i| format!("e{}:[{}] ", i, i)).collect(),
        _ => (0..n).map(|i| format!("[{}] ", i)).collect(),
    };
    let i = |s: &str| format!("<{}\"{}\">", kw, s);
    vec![
        "d/".into(),
        "L>f".into(),
        format!("f={}{}{}", one, fill, if f[1] == "blanks" { "" } else { "#" }),
        format!("d/one=x:{}", i("../f")),
        format!("m=a:{} b:{} c:<\"d/one\"> d:{}{}", i("f"), i("L"), i("d/../f"), fill.replace(|ch: char| ch != ' ' && ch != '\n', " ")),
        "!t/m".into(),
        format!("=x:({} <\"t/m\"> {})", i("t/f"), i("t/L")),
    ]
}
fn big_value(t: &str) -> CaseRes {
    let v = big_files(t);
    let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
    disk_typed(&j(&v)).map_err(short)
}
fn big_shared(t: &str) -> CaseRes {
    let v = big_files(t);
    let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
    disk_shared(&j(&v)).map_err(short)
}
/// The same with a circle, or without.
fn big_ring(t: &str) -> CaseRes {
    let mut h = H::new();
    let mut runs = 0;
    for back in ["", "q:<\"m\"> ", "q:<\"one\"> ", "q:<Str \"../m\"> ", "q:<\"../d/one\"> "] {
        let mut v = big_files(t);
        let tail = v[4][v[4].find(' ').unwrap()..].to_string();
        v[3] = format!("{} {} {}", v[3], tail.trim_start_matches(|ch: char| ch != ' ').replace(|ch: char| ch != ' ' && ch != '\n', " "), back);
        let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
        let r = disk_accept(&j(&v)).map_err(short)?;
        h.u(r.state);
        runs += r.runs;
    }
    Ok(Done { state: h.0, alive: true, steps: 5, runs, skipped: false })
}
fn short(e: String) -> String {
    e.chars().take(700).collect()
}
fn big_gen(c: &mut Ctx) {
    let mut v = crate::sizes::sizes(c);
    if !c.thorough() {
        v.retain(|n| *n <= 4097 || *n >= 65_535);
    }
    v.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1].iter());
    for n in v {
        for k in 0..KINDS.len() {
            for f in &["blanks", "lines", "comment", "string", "items"] {
                if n < 100_000 || (n % 2 == 0 && *f != "items") {
                    c.case(&format!("{} {} {}", k, f, n));
                }
            }
        }
    }
}
const BIG: &str = "included files of every size 2^k-1, 2^k, 2^k+1, k=7..12, 16, 20 (all to 17, 20) made up of blanks, lines, a comment, a string or elements, as each type, from several files";
const SPELL: [&str; 12] = ["F", "./F", ".//F", "../t/F", "%R/F", "%R/./F", "d/../F", "d/UF", "LF", "L/../F", "D/F", "%R/D/LF"];
/// All spellings along a ring of up to three files, as each type, entered by each spelling and from a text.
fn c13_ring(c: &mut Ctx) {
    let put = |c: &mut Ctx, files: &[(String, String)], entry: &str| {
        let mut v: Vec<String> = vec!["d/".into(), "L>d".into(), "D>.".into()];
        for i in 0..3 {
            v.push(format!("Lf{}>f{}", i, i));
            v.push(format!("d/Uf{}>../f{}", i, i));
        }
        for (n, b) in files {
            v.push(format!("{}={}", n, b));
        }
        let e = entry.to_string();
        v.push(format!("!{}", if e.starts_with('%') { e.clone() } else { format!("t/{}", e) }));
        v.push(format!("=x:<\"{}\">", if e.starts_with('%') { e } else { format!("t/{}", e) }));
        let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
        c.run(&j(&v), true);
    };
    let sp = |s: &str, i: usize| s.replace('F', &format!("f{}", i));
    let inc = |k: &str, s: &str, i: usize| format!("<{}\"{}\">", k, sp(s, i));
    for a in &SPELL {
        for k in &KINDS {
            for e in &SPELL {
                if !c.mine() {
                    continue;
                }
                // A file that includes itself, in every place of a text.
                for w in &["a:X", "a:[X]", "a:(1 X)", "a:{b:X}", "^:X", "@g:X", "a:1 b:X+1", "a:<X>", "a:[{b:(X)}]"] {
                    put(c, &[("f0".into(), w.replace('X', &inc(k, a, 0)))], &sp(e, 0));
                }
            }
            for b in &SPELL {
                for k2 in &KINDS {
                    if !c.mine() {
                        continue;
                    }
                    let body = |k: &str, x: String| if k == "Arr " || k == "Tup " { x } else { format!("a:{}", x) };
                    // f0 -> f1 -> f0, and f0 -> f1 -> f1.
                    for back in &[0usize, 1] {
                        put(c, &[("f0".into(), format!("a:{}", inc(k, a, 1))), ("f1".into(), body(k, inc(k2, b, *back)))], "f0");
                    }
                    // No circle: both include f2.
                    put(c, &[("f0".into(), format!("a:{} b:{}", inc(k, a, 1), inc("Str ", b, 2))), ("f1".into(), body(k, inc("Str ", b, 2))), ("f2".into(), "1".into())], "f0");
                    put(c, &[("f0".into(), format!("a:{} b:{}", inc(k, a, 1), inc(k, b, 1))), ("f1".into(), body(k, inc(k2, b, 2))), ("f2".into(), String::new())], "f0");
                }
                for e in if c.thorough() { &SPELL[..] } else { &SPELL[..1] } {
                    for d in &SPELL {
                        if !c.mine() {
                            continue;
                        }
                        // f0 -> f1 -> f2 -> f0.
                        put(c, &[("f0".into(), format!("a:{}", inc(k, a, 1))), ("f1".into(), if *k == "Arr " || *k == "Tup " { inc("", b, 2) } else { format!("a:{}", inc("", b, 2)) }), ("f2".into(), format!("a:{}", inc(k, d, 0)))], &sp(e, 0));
                    }
                }
            }
        }
    }
}
/// "kind tail ring chords": a chain of files that ends in a ring (0: no ring).
fn c13_long_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (kind, tail, ring, twice) = (f[0], f[1], f[2], f[3]);
    let n = tail + ring;
    let kw = ["", "Arr ", "Tup "][kind];
    let mut d = Disk::new();
    for i in 0..n {
        let next = if i + 1 < n { Some(i + 1) } else if ring > 0 { Some(tail) } else { None };
        let one = match next {
            Some(k) => format!("<{}\"f{}\">", kw, k),
            None => "7".into(),
        };
        let body = (0..=twice).map(|q| if kind == 0 { format!("a{}:{} ", q, one) } else { format!("{} ", one) }).collect::<String>();
        d.file(&format!("f{}", i), body.as_bytes());
    }
    let r = if kind == 0 { d.judge("t/f0", ACCEPT)? } else { d.judge_text(&format!("x:<{}\"t/f0\">", kw), ACCEPT)? };
    Ok(Done { steps: n as u64, ..r })
}
fn c13_long(c: &mut Ctx) {
    for kind in 0..3 {
        for n in 1..=62 {
            c.case(&format!("{} {} 0 0", kind, n));
            // The type of doubled tuples grows exponentially (known finding of C01): short ones only.
            let double = kind == 0 || n < if kind == 1 { 30 } else { 9 };
            if double {
                c.case(&format!("{} {} 0 1", kind, n));
            }
            c.case(&format!("{} 0 {} 0", kind, n));
            c.case(&format!("{} 1 {} {}", kind, n, double as usize));
            for ring in &[1usize, 2, 3, 7] {
                c.case(&format!("{} {} {} 0", kind, n, ring));
                c.case(&format!("{} {} {} {}", kind, n, ring, double as usize));
            }
        }
        for n in &[63usize, 64, 65, 66, 100, 150] {
            c.case(&format!("{} 0 {} 0", kind, n));
            c.case(&format!("{} 3 {} {}", kind, n, (kind == 0) as usize));
        }
    }
}
/// Many includes of one file along many paths: no circle.
fn c13_many_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let (layers, width, kind) = (f[0], f[1], f[2]);
    let kw = ["", "Arr ", "Tup ", "Str "][kind];
    let mut d = Disk::new();
    // Every file of a layer includes every file of the next one, twice, by two spellings.
    for l in 0..layers {
        for w in 0..width {
            let mut b = String::new();
            if l + 1 < layers {
                for (q, v) in (0..width).chain(0..width).enumerate() {
                    let k = if l + 2 == layers { kw } else { "" };
                    b.push_str(&format!("e{}:<{}\"{}f{}_{}\">\n", q, k, if q >= width { "./" } else { "" }, l + 1, v));
                }
            }
            d.file(&format!("f{}_{}", l, w), b.as_bytes());
        }
    }
    let r = d.judge("t/f0_0", ACCEPT)?;
    Ok(Done { steps: (layers * width) as u64, ..r })
}
fn c13_many(c: &mut Ctx) {
    for kind in 0..4 {
        for l in 1..=c.pick(12, 30) {
            for w in 1..=3 {
                c.case(&format!("{} {} {}", l, w, kind));
            }
        }
        c.case(&format!("60 1 {}", kind));
        c.case(&format!("40 2 {}", kind));
        for w in &[10usize, 40] {
            c.case(&format!("3 {} {}", w, kind));
        }
    }
}
fn c13_history(c: &mut Ctx) {
    // After a rejected load everything is as before: files are included that were in a circle a moment ago.
    let sets = ["f=a:<\"g\">", "g=b:<\"f\">", "g=b:1", "f=a:1", "g=b:<\"g\">", "f=a:<\"g\"> c:<\"g\">", "g=", "f=a:<\"none\">", "f=a:<\"g\"> x:]", "L>f", "L>g", "f=a:<\"L\">"];
    let n = sets.len();
    let deep = c.thorough();
    for a in 0..n {
        for b in 0..n {
            for x in 0..n {
                if deep {
                    for y in 0..n {
                        c.case(&j(&["f=", "g=", "L>f", "m=x:<\"f\"> y:<\"g\"> z:<\"L\">", sets[a], "!t/m", sets[b], "!t/m", sets[x], "!t/m", "!t/f", sets[y], "!t/m", "!t/g"]));
                    }
                } else {
                    c.case(&j(&["f=", "g=", "L>f", "m=x:<\"f\"> y:<\"g\"> z:<\"L\">", sets[a], "!t/m", "!t/f", sets[b], "!t/m", "!t/g", sets[x], "!t/m", "=x:<\"t/m\">"]));
                }
            }
        }
    }
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        assumptions: vec!["a Linux file system; chains longer than the nesting limit are rejected for that"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "graphs", what: "all include graphs on up to 2 files with each edge absent, as the file's type, as a string or both, for all kinds of files; on 3 files with (thorough: all kinds, strings) and 4 files (thorough); every file as the start", gen: c13_graphs, exec: c13_graph_exec },
            Family { name: "spellings", what: "rings of one, two and three files with each of 12 spellings (relative, absolute, through links to files and directories) for each include, as each type, at 9 places of a text; and the same without a circle", gen: c13_ring, exec: disk_accept },
            Family { name: "alike", what: "all include graphs (absent, as object, as string, both) on every pair of 55 names that are easily confused (other directory, prefix, case, blanks, composed letters, length), and on some triples; all files of one size", gen: c13_alike, exec: c13_alike_exec },
            Family { name: "big", what: "the same in and out of circles: included files of every size 2^k-1, 2^k, 2^k+1, k=7..12, 16, 20 (all to 17, 20) made up of blanks, lines, a comment, a string or elements", gen: big_gen, exec: big_ring },
            Family { name: "long", what: "chains and rings of every length to 62 with tails of every length, single and doubled", gen: c13_long, exec: c13_long_exec },
            Family { name: "paths", what: "layered graphs without a circle in which the number of paths is exponential", gen: c13_many, exec: c13_many_exec },
            Family { name: "history", what: "all sequences of 3 (4) changes among 12 between loads", gen: c13_history, exec: disk_accept },
        ],
    }
}

// ---------------------------------------------------------------- C14

fn c14_same(c: &mut Ctx) {
    // All sequences of three (four) includes: type, spelling, file.
    let mut incs = vec![];
    for f in &["f", "g"] {
        for s in &["F", "d/../F", "%R/LF"] {
            for k in &KINDS {
                incs.push(format!("<{}\"{}\">", k, s.replace('F', f)));
            }
        }
    }
    let n = incs.len();
    let contents = [("", " "), ("1 [2]", "1 [2]"), ("a:[1] b:{}", "a:[1] b:{}"), ("#c\n", "(1) (2)")];
    for (f, g) in &contents {
        for a in 0..n {
            for b in 0..n {
                if !c.mine() {
                    continue;
                }
                for x in 0..n {
                    let text = if c.thorough() {
                        for y in (0..n).step_by(2) {
                            c.run(&j(&["d/", "Lf>f", "Lg>g", &format!("f={}", f), &format!("g={}", g), &format!("m=x:{} y:({} {}) z:{}", incs[a], incs[b], incs[x], incs[y]), "!t/m"]), true);
                        }
                        continue;
                    } else {
                        format!("m=x:{} y:({} {})", incs[a], incs[b], incs[x])
                    };
                    c.run(&j(&["d/", "Lf>f", "Lg>g", &format!("f={}", f), &format!("g={}", g), &text, "!t/m"]), true);
                }
            }
        }
    }
}
fn c14_nested(c: &mut Ctx) {
    // The shared file is reached from several files, in several directories, at several depths.
    let sp = ["F", "./F", "%R/F", "%R/d/../F", "%R/LF", "%R/D/F"];
    let body = |k: &str| match k {
        "Arr " => "[1] []",
        "Tup " => "[1] {a:2}",
        "Str " => "text",
        _ => "v:[1] w:{u:()}",
    };
    for k in &KINDS {
        for a in &sp {
            for b in &sp {
                for x in &sp {
                    if !c.mine() {
                        continue;
                    }
                    let i = |s: &str, up: &str| {
                        let s = if s.starts_with('%') { s.into() } else { format!("{}{}", up, s) };
                        format!("<{}\"{}\">", k, s.replace('F', "f"))
                    };
                    let base = ["d/", "d/e/", "D>.", "Lf>f"];
                    let f = format!("f={}", body(k));
                    let one = format!("d/one=x:{}", i(a, "../"));
                    let two = format!("d/e/two=x:{} y:<\"../one\">", i(b, "../../"));
                    for m in &["a:<\"d/one\"> b:<\"d/e/two\"> c:X", "c:X a:<\"d/one\"> b:[<\"d/e/two\"> <\"d/one\">]", "b:{^:<\"d/e/two\"> q:<Tup \"tt\">} c:{z:X} a:<\"d/one\">", "@g:X a:@g b:(@g <\"d/one\"> X) c:<\"d/e/two\">.y.x"] {
                        let m = format!("m={}", m.replace('X', &i(x, "")));
                        let tt = format!("tt={} <\"d/one\">", i(x, ""));
                        c.run(&j(&[base[0], base[1], base[2], base[3], &f, &one, &two, &tt, &m, "!t/m", "=r:<\"t/m\"> s:<\"t/d/one\">"]), true);
                    }
                }
            }
        }
    }
}
fn c14_shape(c: &mut Ctx) {
    // What an include stands for is one instance wherever it is put, however often.
    for n in 1..c.pick(40, 150) {
        for k in &["", "Arr ", "Tup "] {
            let many = (0..n).map(|i| format!("f{}:<{}\"f\"> ", i, k)).collect::<String>();
            let body = if k.is_empty() { "f=v:[1] w:{}" } else { "f=[1] []" };
            c.case(&j(&[body, &format!("m={}", many), "!t/m"]));
            c.case(&j(&[body, &format!("m=a:[{}]", format!("<{}\"f\"> ", k).repeat(n)), "!t/m"]));
            c.case(&j(&[body, &format!("=a:({}) b:<{}\"t/f\">", format!("<{}\"t/f\"> ", k).repeat(n), k)]));
        }
        // Many different files, each twice.
        let mut v: Vec<String> = (0..n).map(|i| format!("f{}=a:[{}]", i, i)).collect();
        v.push(format!("m={}", (0..2 * n).map(|i| format!("x{}:<\"f{}\"> ", i, (i * 7) % n)).collect::<String>()));
        v.push("!t/m".into());
        let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
        c.case(&j(&v));
    }
    let top = c.pick(1025, 4097);
    for n in crate::sizes::sizes(c).into_iter().filter(|n| *n <= top) {
        for k in &["", "Arr ", "Tup "] {
            let body = if k.is_empty() { "f=v:[1] w:{}" } else { "f=[1] []" };
            c.case(&j(&[body, &format!("m=a:[{}]", format!("<{}\"f\"> ", k).repeat(n)), "!t/m"]));
            c.case(&j(&[body, &format!("=a:({}) b:<{}\"t/f\">", format!("<{}\"t/f\"> ", k).repeat(n), k)]));
        }
        let mut v: Vec<String> = (0..n).map(|i| format!("f{}=a:[{}]", i, i)).collect();
        v.push(format!("m=x:({})", (0..2 * n).map(|i| format!("<\"f{}\"> ", i % n)).collect::<String>()));
        v.push("!t/m".into());
        let v: Vec<&str> = v.iter().map(|s| &s[..]).collect();
        c.case(&j(&v));
    }
}
fn ids(v: &Value, out: &mut HashSet<usize>) {
    match v {
        Value::Arr(a) => {
            if out.insert(a.id()) {
                a.iter().for_each(|v| ids(v, out));
            }
        }
        Value::Tup(a) => {
            if out.insert(a.id()) {
                a.iter().for_each(|v| ids(v, out));
            }
        }
        Value::Obj(a) => oids(a, out),
        _ => (),
    }
}
pub fn oids(o: &Obj, out: &mut HashSet<usize>) {
    if out.insert(o.id()) {
        o.iter().for_each(|p| ids(&p.1, out));
        if let Some(p) = o.get_parent() {
            oids(&p, out);
        }
    }
}
/// A history: every load reflects the files as they are, shares nothing with any other load, and what was
/// loaded earlier stays as it was. Digits are operations.
const HIST: &[&str] = &[
    "!t/m", "=x:<\"t/f\"> y:<Tup \"t/g\"> z:<Str \"t/f\">", "!t/f", "f=v:[1] s:\"x\"", "f=v:[2] s:\"y\"", "f=v:[2] s:", "f-", "g=[1] [2]", "g=[3] [4]", "L>f", "L>h", "h=v:[9] s:\"h\"", "m=a:<\"f\"> b:<\"L\"> c:<Arr \"g\">", "m=a:<\"f\"> b:<\"f\"> c:<\"none\">", "f~v:[3] s:\"z\"", "cd t", "cd .",
];
struct Back(std::path::PathBuf);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}
fn c14_history_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    for e in &["h=v:[0] s:\"0\"", "f=v:[1] s:\"x\"", "g=[1] [2]", "L>f", "m=a:<\"f\"> b:<\"L\"> c:<Arr \"g\">"] {
        c14_put(&mut d, e);
    }
    // The same names in another directory.
    d.dir("t");
    for e in &["t/f=v:[5] s:\"5\"", "t/g=[6] [7]", "t/h=v:[8] s:\"8\"", "t/m=a:<\"f\"> b:<\"h\"> c:<Arr \"g\">"] {
        c14_put(&mut d, e);
    }
    let back = Back(std::env::current_dir().unwrap());
    let mut kept: Vec<(Obj, Outcome)> = vec![];
    let mut seen: HashSet<usize> = HashSet::new();
    let mut h = H::new();
    let mut runs = 0;
    // One last load of everything.
    let ops: Vec<usize> = t.bytes().map(|b| (b - b'a') as usize).chain(vec![0, 1]).collect();
    for (i, k) in ops.iter().enumerate() {
        let e = HIST[*k];
        let (r, m) = if let Some(p) = e.strip_prefix('!') {
            match d.load(p) {
                (r, Ok(m)) => (r, m),
                (Ok(_), Err(())) => return Err(format!("operation {}: loading a file that is not there succeeds", i)),
                _ => continue,
            }
        } else if let Some(x) = e.strip_prefix('=') {
            (Obj::from_str(x), eval_text(x, Some(&d.fs)))
        } else if let Some(x) = e.strip_prefix("cd ") {
            std::env::set_current_dir(back.0.join(x)).unwrap();
            d.fs.cwd = std::env::current_dir().unwrap().to_str().unwrap().into();
            continue;
        } else {
            c14_put(&mut d, e);
            continue;
        };
        runs += 1;
        match (r, &m.res) {
            (Ok(o), Ok(v)) => {
                Cmp::shared().obj(&o, v).map_err(|e| format!("operation {}: {}", i, e))?;
                let mut mine = HashSet::new();
                oids(&o, &mut mine);
                if mine.iter().any(|x| seen.contains(x)) {
                    return Err(format!("operation {}: an instance is shared with an earlier load", i));
                }
                seen.extend(mine);
                h.o(v);
                kept.push((o, m));
            }
            (Err(_), Err(e)) => h.b(e.kind as u8),
            (Ok(_), Err(e)) => return Err(format!("operation {}: accepted although there is a fault ({:?}) now", i, e.kind)),
            (Err(e), Ok(_)) => return Err(format!("operation {}: rejected although nothing is wrong now: {}", i, e)),
        }
    }
    for (o, m) in &kept {
        if let Ok(v) = &m.res {
            Cmp::shared().obj(o, v).map_err(|e| format!("what was loaded earlier has changed: {}", e))?;
        }
    }
    Ok(Done { state: h.0, alive: true, steps: ops.len() as u64, runs, skipped: false })
}
fn c14_put(d: &mut Disk, e: &str) {
    let e2 = e.replace('~', "=");
    let (name, rest) = split_entry(&e2);
    // All changes happen at the same moment, so to speak.
    let touch = |p: &str| std::fs::File::open(p).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000)).unwrap();
    match rest.chars().next() {
        Some('=') if e.contains('~') => {
            // Another file takes its place.
            let tmp = d.abs("new");
            std::fs::write(&tmp, rest[1..].as_bytes()).unwrap();
            std::fs::rename(&tmp, d.abs(name)).unwrap();
            d.file(name, rest[1..].as_bytes());
            touch(&d.abs(name));
        }
        Some('=') => {
            d.file(name, rest[1..].as_bytes());
            touch(&d.abs(name));
        }
        Some('>') => d.link(name, &rest[1..]),
        Some('-') => d.remove(name),
        _ => panic!(),
    }
}
fn c14_history(c: &mut Ctx) {
    let max = c.pick(4, 5);
    let mut last = vec![String::new()];
    for k in 1..=max {
        let mut next = vec![];
        for p in &last {
            for i in 0..HIST.len() {
                let q = format!("{}{}", p, (b'a' + i as u8) as char);
                // A trailing change is followed by loads anyway.
                if k == max || p.is_empty() {
                    c.case(&q);
                }
                next.push(q);
            }
        }
        last = next;
    }
    // Many loads of the same file, alternately changed.
    for n in 1..c.pick(30, 100) {
        let s: String = (0..n).map(|i| if i % 2 == 0 { "aeb" } else { "adb" }).collect();
        c.case(&s);
        c.case(&s.replace('a', "c"));
    }
}

/// Thousands of files in one load, each included twice: whatever names them may not mix them up.
fn c14_crowd(c: &mut Ctx) {
    for set in 0..c.pick(4, 6) {
        for k in 0..4 {
            c.case(&format!("{} {}", set, k));
        }
    }
}
fn c14_crowd_exec(t: &str) -> CaseRes {
    let f: Vec<usize> = t.split(' ').map(|s| s.parse().unwrap()).collect();
    let abc: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_".chars()).collect();
    let names: Vec<String> = match f[0] {
        0 => abc.iter().flat_map(|a| abc.iter().map(move |b| format!("{}{}", a, b))).collect(),
        1 => (0..5000).map(|i| i.to_string()).collect(),
        2 => names12(),
        3 => (0..70).flat_map(|i| (0..70).map(move |j| format!("d{}/f{}", i, j))).collect(),
        4 => (0..8000).map(|i| [abc[i / 400], abc[i / 20 % 20], abc[i % 20]].iter().collect()).collect(),
        _ => (0..12_000).map(|i| format!("part-{:08x}.over", i * 7919)).collect(),
    };
    let dir = format!("crowd{}-{}", f[0], f[1]);
    let clean = || {
        let _ = std::fs::remove_dir_all(&dir);
    };
    clean();
    for (i, n) in names.iter().enumerate() {
        let p = format!("{}/{}", dir, n);
        std::fs::create_dir_all(&p[..p.rfind('/').unwrap()]).unwrap();
        std::fs::write(&p, if f[1] == 0 { format!("i:{}", i) } else { i.to_string() }).unwrap();
    }
    let kind = ["", "Str ", "Arr ", "Tup "][f[1]];
    let incs: Vec<String> = names.iter().map(|n| format!("<{}{}>", kind, lit_str(&format!("{}/{}", dir, n)))).collect();
    let back: Vec<&str> = incs.iter().rev().map(|s| &s[..]).collect();
    let o = Obj::from_str(&format!("x:({}) y:({})", incs.join(" "), back.join(" ")));
    clean();
    let o = o.map_err(|e| format!("{} files are not included: {}", names.len(), e))?;
    let (x, y) = (o.get_tup("x").map_err(|e| e.to_string())?, o.get_tup("y").map_err(|e| e.to_string())?);
    let mut ids = std::collections::HashSet::new();
    for i in 0..names.len() {
        let (a, b) = (x.get(i).map_err(|e| e.to_string())?, y.get(names.len() - 1 - i).map_err(|e| e.to_string())?);
        let text = i.to_string();
        let (holds, same, id) = match (&a, &b) {
            (Value::Obj(p), Value::Obj(q)) => (p.get("i").map_or(false, |v| v == i) && p.len() == 1, p.ptr_eq(q), Some(p.id())),
            (Value::Str(p), Value::Str(q)) => (*p == text && *q == text, true, None),
            (Value::Arr(p), Value::Arr(q)) => (p.len() == 1 && p.values_ref()[0] == i, p.ptr_eq(q), Some(p.id())),
            (Value::Tup(p), Value::Tup(q)) => (p.len() == 1 && p.values_ref()[0] == i, p.ptr_eq(q), Some(p.id())),
            _ => (false, false, None),
        };
        if !holds {
            return Err(format!("among {} files, the include {} gives {}", names.len(), incs[i], a));
        }
        if !same {
            return Err(format!("among {} files, the include {} gives two instances", names.len(), incs[i]));
        }
        if let Some(id) = id {
            if !ids.insert(id) {
                return Err(format!("among {} files, the include {} shares its instance with another file's", names.len(), incs[i]));
            }
        }
    }
    Ok(Done { state: (f[0] * 10 + f[1]) as u64, alive: true, steps: names.len() as u64, runs: 1, skipped: false })
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        level: "model_checking",
        assumptions: vec!["a Linux file system"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "sequences", what: "all sequences of three (four) of 30 includes (5 types, 3 spellings, 2 files) for 4 pairs of contents; instances compared", gen: c14_same, exec: disk_shared },
            Family { name: "alike", what: "all ordered pairs of 55 names that are easily confused, of files of one size, as each two types, each included twice", gen: c14_alike, exec: disk_shared },
            Family { name: "big", what: BIG, gen: big_gen, exec: big_shared },
            Family { name: "nested", what: "one file reached from up to five places in three directories, all triples of 6 spellings, each type, 4 arrangements", gen: c14_nested, exec: disk_shared },
            Family { name: "many", what: "every number of includes of one file and of different files to 40 (150), and around powers of two to 1025 (4097)", gen: c14_shape, exec: disk_shared },
            Family { name: "crowd", what: "4 (6) sets of 4,096 to 12,000 files (all names of two letters, numbers, odd names, names in 70 directories), as each of 4 types, all in one load and twice, the second time backwards: each gives its own contents, as one instance", gen: c14_crowd, exec: c14_crowd_exec },
            Family { name: "history", what: "all sequences of 4 (5) of 17 operations: loads, changes of contents (same length, same time stamp, in place or by another file), removal, redirected links, other working directory; every load reflects the present files and shares no instance with another", gen: c14_history, exec: c14_history_exec },
        ],
    }
}
