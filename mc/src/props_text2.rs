//! C21, C22, C17: layout, grammar, places of faults.

use crate::cmp::*;
use crate::corpus::*;
use crate::docs::*;
use crate::engine::*;
use crate::interp::*;
use crate::model::*;
use over::Obj;
use std::str::FromStr;

// ---------------------------------------------------------------- C22 grammar

pub fn c22_tokens(c: &mut Ctx) {
    let d = c.pick(5, 6);
    c.tree(
        "",
        &["a:", "b:", " ", "\n", "#c\n", "1", "\"s\"", "a", "null", "{", "}", "[", "]", "(", ")", "<", ">", "+", "-", ".", ":", "@", "^:", "\"", "\\", ","],
        d,
        &["1 ", " b:1 ", "}", "\"", "\n"],
    );
}
fn c22_brackets(c: &mut Ctx) {
    let d = c.pick(6, 8);
    c.tree("a:", &["{", "}", "[", "]", "(", ")", ">", "1 ", "b:"], d, &["1 ", " b:1 ", "}", "]", ")"]);
}
fn c22_chars(c: &mut Ctx) {
    let d = c.pick(4, 5);
    let abc = ["a", "1", ":", " ", "\n", "\"", "\\", "{", "}", "[", "]", "(", ")", "<", ">", "@", "^", ".", "+", "*", "#", "_", ",", "$", "é"];
    c.tree("", &abc, d, &[" ", ":1", "\"", "}"]);
    c.tree("a:", &abc, d, &[" ", " b:1", "\"", "}"]);
    c.tree("a:[1 ", &abc, d - 1, &[" ", "] b:1", "\"", "]"]);
    c.tree("a:{b:1 ", &abc, d - 1, &[" ", "} b:1", "\"", "}"]);
    c.tree("a:(", &abc, d - 1, &[" ", ") b:1", "\"", ")"]);
    c.tree("o:{p:1} a:o", &abc, d - 1, &[" ", " b:1"]);
    c.tree("a:1 ", &abc, d - 1, &[" ", ":1", "\"", "}"]);
    c.tree("a:<", &abc, d - 1, &[" ", "> b:1", "\"x\">"]);
}
fn c22_edits(c: &mut Ctx) {
    for doc in SHORT.iter().chain(LONG.iter()) {
        edits(doc, &mut |t| c.case(t));
    }
    for doc in SHORT.iter().chain(LONG.iter()) {
        if doc.len() < c.pick(60, 400) {
            cuts(doc, &mut |t| c.case(t));
        }
    }
}
/// A file's text read as a file of its own and as each kind of included body.
fn c22_files_exec(t: &str) -> CaseRes {
    let mut d = Disk::new();
    d.file("f", t.as_bytes());
    let mut h = H::new();
    h.u(d.judge("t/f", ACCEPT)?.state);
    for k in &["", "Arr ", "Tup "] {
        h.u(d.judge_text(&format!("a:<{}\"t/f\">", k), ACCEPT).map_err(|e| format!("included as {:?}: {}", k, e))?.state);
    }
    let alive = |p: &str| {
        let m = eval_text(&format!("{}{}", p, t), None);
        m.res.is_ok() || m.saw_end
    };
    Ok(Done { state: h.0, alive: alive("") || alive("x:(") || alive("x:["), steps: 4, runs: 4, skipped: false })
}
fn c22_files(c: &mut Ctx) {
    let toks = ["1 ", "\"s\" ", "a:", "a ", "@g:", "@g ", "[", "]", "(", ")", "{", "}", "<", ">", "+", "-", ":", "#c", "\n", ".", "^:", ","];
    c.tree("", &toks, c.pick(3, 4), &[]);
    for p in &["1 ", "[1] ", "{} ", "a:1 ", "1 # "] {
        c.tree(p, &toks, c.pick(2, 3), &[]);
    }
    c.tree("", &["1 ", "[", "] ", "(", ") ", "{", "} ", "a:", ">"], c.pick(5, 6), &[]);
    for doc in ["1 2 3", "[1] []", "(1 \"s\") (2 \"t\")", "{a:1} {b:[2]}", "1 #c\n2", "-1 1+2", "@g:1", "\"a]\" \"}\"", "1\n2\n", " 1 ", "[[]]\n[[1]]", "(1)", "{}"].iter().chain(SHORT.iter()) {
        edits(doc, &mut |t| c.case(t));
        for s in &["]", ")", "}", ">", " ]", " )", " }", "\n]", "\n)", "\n}", " ] 1", " ]]", " } a:1", " 1", " a:1", " :", " ,", " #]", "#", " \"", " [", " (", " {", " <", " +", " \u{0}", " \u{1a}", "\u{4}"] {
            c.case(&format!("{}{}", doc, s));
            c.case(&format!("{}{}", s.trim_start(), doc));
        }
    }
}
/// Includes that can be read, beside everything else.
fn c22_includes_exec(t: &str) -> CaseRes {
    thread_local! {
        static DISK: Disk = {
            let mut d = Disk::new();
            d.file("f", b"q:1");
            d.file("s", b"text");
            d
        };
    }
    DISK.with(|d| d.judge_text(t, ACCEPT))
}
fn c22_includes(c: &mut Ctx) {
    let inc = ["<\"t/f\">", "<Str \"t/s\">"];
    let toks = [inc[0], inc[1], "<", ">", "<Obj ", "\"t/f\"", "1", "\"s\"", "a:", " ", "+", "-", "[", "]", "(", ")", "{b:", "}", "#\n", "a", ":"];
    for p in ["a:", "a:[", "a:(", "", "a:1 b:a", "a:1 ", "a:{", "@g:"] {
        c.tree(p, &toks, c.pick(2, 4), &["1 ", "] ", "} ", ") ", "> "]);
    }
    // A value directly before and behind an include, in every context.
    let vals = ["1", "1.5", "-1", "\"s\"", "null", "true", "[]", "[1]", "()", "(1)", "{}", "{a:1}", "x", "@g", "x.y", "x.0", "<\"t/f\">", "<Str \"t/s\">", "<Arr \"t/none\">", "", " ", "#\n", "+", "-", "*", ":", "^", "@", ".", ",", "\\", "$", "_", "Str", "Obj "];
    for (p, s) in [("a:", ""), ("a:[", "]"), ("a:(", ")"), ("a:{b:", "}"), ("a:1+", ""), ("@h:", " b:1"), ("a:[[] ", "]"), ("a:\"s\"+", ""), ("^:", "")] {
        for v in vals {
            for w in vals {
                for i in inc {
                    c.case(&format!("@g:1 x:[5] {}{}{}{}{}", p, v, i, w, s));
                    c.case(&format!("@g:1 x:{{y:\"s\"}} {}{}{}{}{}", p, v, i, w, s));
                    // And inside the angles.
                    c.case(&format!("@g:1 x:[5] {}<{}\"t/f\"{}>{}", p, v, w, s));
                }
            }
        }
    }
}
fn c22_edits2(c: &mut Ctx) {
    // Two edits.
    for doc in SHORT.iter() {
        if doc.chars().count() <= c.pick(9, 18) {
            edits(doc, &mut |t| {
                if c.mine() {
                    let t = t.to_string();
                    edits(&t, &mut |u| {
                        c.run(u, true);
                    });
                }
            });
        }
    }
}
fn c22_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c22_unicode_exec(t: &str) -> CaseRes {
    let mut v = vec![];
    for (p, s) in [
        ("", ""), ("", ":1"), ("a", ":1"), ("a", "b:1"), ("a:", ""), ("a:", "1"), ("a:1", ""), ("a:1", "b:2"), ("a:1 ", "b:2"), ("a:[1", "2]"), ("a:[", "]"),
        ("a:(1)", ""), ("a:{", "b:1}"), ("a:{b:1", "}"), ("@", "g:1"), ("@g", ":1"), ("a:1 b:a", ""), ("a:1 b:", "a"), ("o:{p:1} x:o.", "p"), ("o:{p:1} x:o.p", ""),
        ("a:\"s\"", ""), ("a:null", ""), ("a:1+", "2"), ("a:1", "+2"), ("a:-", "1"), ("^", ":{}"), ("^:", "{}"), ("a:<", "\"x\">"), ("a:1#", ""), ("a:1#c", "\nb:2"),
    ] {
        v.push(format!("{}{}{}", p, t, s));
    }
    each_accept(&v.join(&SEP.to_string()))
}
fn c22_combine(c: &mut Ctx) {
    // Every value literal (valid or not) in every context, with every kind of follower.
    let vals = ["1", "-1", "1.5", ".", "1..2", "\"s\"", "\"s", "s\"", "null", "nul", "true", "[]", "[1 2]", "[1 \"a\"]", "[1", "1]", "()", "(1 \"a\")", "(", ")", "{}", "{a:1}", "{a}", "{1}", "{a:}", "{a:1 a:2}", "{", "}", "@", "@g", "x", "x.y", "x.", "<>", "<\"nofile\">", "<Str>", "<1>", "<", ">", "+", "-", "1+", "+1", "1+1", "1*", "*1", "\"a\"+\"b\"", "\"a\"*2", "^", "^a", ":", "a:1", "\\", "'s'", "1a", "a1", "$", "&", "=1", "1=", ";", "1;", "1,", ",1", "--", "-+1", "# c", "#c\n1", "1#c", "1 #c\n"];
    let ctx = [("a:", ""), ("a: ", "\n"), ("a:[", "]"), ("a:(", ")"), ("a:{b:", "}"), ("@h:", ""), ("a:[1 ", "]"), ("a:(1 ", " 1)"), ("a:1+", ""), ("a:1 b:", " c:1"), ("^:{z:", "}"), ("a:{^:{", "}}"), ("", ""), ("a:1 ", " b:1"), ("a:", "#"), ("a:\n\n", "\n\n"), ("a:[[", "]]"), ("a:([", "])"), ("a:{b:[", "]}")];
    for (p, s) in &ctx {
        for v in &vals {
            c.case(&format!("{}{}{}", p, v, s));
            for w in &vals {
                c.case(&format!("{}{}{}{}", p, v, w, s));
                c.case(&format!("{}{} {}{}", p, v, w, s));
            }
        }
    }
}
fn c22_fields(c: &mut Ctx) {
    let names = ["a", "_", "a1", "1a", "a b", "a.b", "", "^", "^^", "^a", "a^", "@", "@@", "@g", "@1", "@^", "@^a", "@g^", "null", "true", "false", "Obj", "Str", "Arr", "Tup", "@null", "@Obj", "Null", "nulls", "é", "中", "a-b", "a+b", "\"a\"", "'a'", "[a]", "{a}", "a\"", "$a", "a$", "#a", "a#", "٣", "a٣", "²", "a²", "ª", "a\u{301}", "\u{301}", "a\u{200d}", "Ⅷ", "ʰ", "_1_", "__", "a_", "a\t", "\u{feff}a"];
    let ctx = [("", ":1"), (" ", ":1 "), ("", " :1"), ("", ":1 b:2"), ("b:2 ", ":1"), ("o:{", ":1}"), ("o:{b:2 ", ":1}"), ("", ":{}"), ("", ":"), ("", ""), ("", "\n:1"), ("", "::1"), ("", ":1:2"), ("a:[", ":1]"), ("a:(", ":1)"), ("", ":1\n"), ("", ":#c\n1")];
    for (p, s) in &ctx {
        for n in &names {
            c.case(&format!("{}{}{}", p, n, s));
            for m in &names {
                c.case(&format!("{}{}{} {}:3", p, n, s, m));
                c.case(&format!("{}:{{}} {}{}{}", m, p, n, s));
            }
        }
    }
}
fn c22_scale(c: &mut Ctx) {
    // A single fault after, or before, n correct fields/elements; and no fault.
    let max = c.pick(120, 600);
    for n in 0..=max {
        let f: String = (0..n).map(|i| format!("f{}:{} ", i, i)).collect();
        let e: String = (0..n).map(|i| format!("{} ", i)).collect();
        for bad in ["", "}", "]", "x", "1", "a:", "a:}", ":1", "f0:1", "a:\"", "a:1x", "a:1 a:1", "a:1"].iter() {
            c.case(&format!("{}{}", f, bad));
            c.case(&format!("{} {}", bad, f));
            c.case(&format!("o:{{{}{}}}", f, bad));
        }
        for bad in ["", "}", ")", "\"s\"", "1.5", "a:1", ":", "\"", "1x", "1"].iter() {
            c.case(&format!("a:[{}{}]", e, bad));
            c.case(&format!("a:[{} {}]", bad, e));
            c.case(&format!("a:({}{})", e, bad));
        }
        if n <= 60 {
            // Unbalanced at every depth.
            for (o, cl) in [("[", "]"), ("(", ")"), ("{a:", "}")].iter() {
                for d in [-1i64, 0, 1].iter() {
                    let m = n as i64 + d;
                    if m >= 0 {
                        c.case(&format!("a:{}1{}", o.repeat(n as usize), cl.repeat(m as usize)));
                    }
                }
                for k in 0..n {
                    for w in ["]", ")", "}", ">"].iter() {
                        c.case(&format!("a:{}1{}{}{}", o.repeat(n), cl.repeat(k), w, cl.repeat(n - k - 1)));
                    }
                }
            }
        }
    }
}

/// A fault at every place of a literal, name, path or sum of every length.
fn c22_inside(c: &mut Ctx) {
    crate::props_text::c05_digits(c);
    let faults = [".", ",", "_", "\"", "\\", "}", "]", ")", ">", "<", "@", "^", ":", "#", "e", "+", "*", "$", "\\q", " ", "..", "!", "\n", "(", "[", "{", "/", "%", "-", "'", "|", "~", ";", "=", "&", "\u{feff}", "\u{0}"];
    let max = c.pick(45, 150);
    for n in (0..=max).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        for (b, u, e) in [("a:", "7", ""), ("a:0.", "7", ""), ("a:[1 ", "1", "]"), ("a:\"", "x", "\""), ("", "x", ":1"), ("@", "x", ":1"), ("a:1", "+1", ""), ("a:1 #", "c", "\nb:2"), ("a:{b:", "-", "1}"), ("o:{a:1} b:o.", "a", ""), ("a:<\"", "x", "\">"), ("a:", "1_", "1"), ("a:(", "9 ", ")")] {
            let step = if n > max { n / 8 } else { 1 };
            for i in (0..=n).step_by(step).chain([n.saturating_sub(1)]) {
                if !c.mine() {
                    continue;
                }
                let v: Vec<String> = faults.iter().map(|f| format!("{}{}{}{}{}", b, u.repeat(i), f, u.repeat(n - i), e)).collect();
                c.run(&v.join(&SEP.to_string()), true);
            }
        }
    }
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        level: "model_checking",
        assumptions: vec!["an include keyword as a plain value is left open and skipped"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c22(),
            Family { name: "tokens", what: "all token sequences up to length 5 (6) over 26 tokens, dead prefixes pruned (each tried with 5 continuations)", gen: c22_tokens, exec: accept_text },
            Family { name: "brackets", what: "all sequences up to length 6 (8) over brackets, 1 and b:", gen: c22_brackets, exec: accept_text },
            Family { name: "chars", what: "all character sequences up to length 4 (5) over 25 characters from 8 starting points", gen: c22_chars, exec: accept_text },
            Family { name: "edits", what: "every single insertion, replacement, deletion, duplication, transposition, truncation and (short texts) cut of 45 texts", gen: c22_edits, exec: accept_text },
            Family { name: "edits2", what: "every pair of edits of the texts up to 9 (18) characters", gen: c22_edits2, exec: accept_text },
            Family { name: "files", what: "all token sequences of up to 3 (4) of 22 tokens, and 2 (3) after 5 beginnings; all edits of 50 texts and bodies, and 28 ends and beginnings; each as a file and as an included object, array and tuple", gen: c22_files, exec: c22_files_exec },
            Family { name: "includes", what: "all sequences of up to 2 (4) of 21 tokens, two of them includes of readable files, behind 8 beginnings; includes with every pair of 35 values and signs before and behind them and inside their angles, in 9 contexts", gen: c22_includes, exec: c22_includes_exec },
            Family { name: "unicode", what: "every Unicode scalar value in 30 syntactic positions", gen: c22_unicode, exec: c22_unicode_exec },
            Family { name: "combine", what: "67 values and all pairs of them in 19 contexts", gen: c22_combine, exec: accept_text },
            Family { name: "fields", what: "54 field names and all pairs of them in 17 contexts", gen: c22_fields, exec: accept_text },
            Family { name: "inside", what: "37 faults at every place of numbers, strings, names, globals, sums, signs, comments, paths of every length to 45 (150) and around 64, 128, 256; decimal signs and underscores in literals to 40 digits", gen: c22_inside, exec: each_accept },
            Family { name: "scale", what: "one fault among n fields/elements/brackets for every n to 120 (600)", gen: c22_scale, exec: accept_text },
        ],
    }
}

// ---------------------------------------------------------------- C21 layout

/// Texts as token lists: `|` marks a place where blanks may stand, `~` where some must.
const LAYOUTS: &[&str] = &[
    "|a:|1~b:|2|",
    "|a:|-1.5~b:|\"s # t\"|",
    "|a:|[|1~2~-3|]|b:|{|c:|null~d:|true|}|",
    "|a:|(|1~\"x\"~(|)|[|]|)|e:|[|[|]|[|1|]|]|",
    "|^:|{|p:|1|}|@g:|p_|",
    "|@g:|{|^:|{|u:|1|}|v:|2|}|a:|@g.u~b:|(|@g~@g.v|)|",
    "|a:|1+2*3~b:|\"x\"+\"y\"~c:|[|1|]+[|2|]|d:|a-1|",
    "|o:|{|l:|[|5~6|]|}|x:|o.l.1~y:|o|",
    "|a:|{|}|b:|{|c:|{|}|}|",
    "|a:|<|\"obj21\"|>|b:|<|Obj|\"obj21\"|>|c:|1|",
    "|a:|[|<|Str|\"obj21\"|>|]|b:|(|<|Arr|\"arr21\"|>|1|)|c:|<|Tup|\"arr21\"|>|",
    "|@g:|\"obj21\"|a:|<|@g|>|b:|<|Str|@g|>|^:|{|p:|<|Arr|\"arr\"+\"21\"|>|}|",
    "|a:|\"\\n\\\"#\"|b:|[|\"#\"|\"}\"|]|c:|(|{|}|\"\"|1|)|",
];
const BLANKS: &[&str] = &[
    "", " ", "\n", "\t", "\r", "\r\n", "  ", "\n\n", " \t\n\r ", "#\n", "#c\n", " # c\n", "#\"\n", "#}\n", "#]\n ", "#a:1\n", "##\n#\n", "#\\\n", "#é𝄞\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "#\r\n", "#c\rd\n", "#\u{2028}\n", "#\u{85}x\n", "\n# a\n# b\n", "#@\n\t#^:\n",
];
fn parts(t: &str) -> (Vec<String>, Vec<bool>) {
    let (mut toks, mut need) = (vec![String::new()], vec![]);
    for c in t.chars() {
        match c {
            '|' | '~' => {
                need.push(c == '~');
                toks.push(String::new());
            }
            c => toks.last_mut().unwrap().push(c),
        }
    }
    // A value is separated from what follows, unless that is a closing bracket.
    for i in 0..need.len() {
        let (a, b) = (&toks[i], &toks[i + 1]);
        let opened = a.is_empty() || a.ends_with(|c| ":[({<".contains(c));
        let closed = b.is_empty() || b.starts_with(|c| "])}>".contains(c));
        need[i] = need[i] || !opened && !closed;
    }
    (toks, need)
}
fn fill(toks: &[String], need: &[bool], with: &dyn Fn(usize) -> String) -> String {
    let mut s = toks[0].clone();
    for i in 0..need.len() {
        let b = with(i);
        if b.is_empty() && need[i] {
            s.push(' ');
        } else {
            s.push_str(&b);
        }
        s.push_str(&toks[i + 1]);
    }
    s
}
/// A case is the plain text, SEP, the same with other blanks: both must load, to equal objects.
fn c21_exec(t: &str) -> CaseRes {
    lay21();
    let mut it = t.split(SEP);
    let base = it.next().unwrap();
    let b = Obj::from_str(base);
    let m = eval_text(base, None);
    let mut done = Done::state(0);
    done.runs = 0;
    done.steps = 0;
    let mut h = H::new();
    for x in it {
        h.s(x);
        done.runs += 1;
        done.steps += 1;
        let r = Obj::from_str(x);
        match (&b, &r) {
            (Ok(b), Ok(r)) => {
                if b != r {
                    return Err(format!("{:?} and {:?} load as different objects: {} and {}", base, x, b, r));
                }
            }
            (Ok(_), Err(e)) => return Err(format!("{:?} loads, but {:?} is rejected: {}", base, x, e)),
            (Err(e), Ok(_)) => return Err(format!("{:?} is rejected ({}), but {:?} loads", base, e, x)),
            (Err(_), Err(_)) => (),
        }
        match (&r, &m.res) {
            (Ok(r), Ok(v)) => Cmp::typed().obj(r, v).map_err(|e| format!("{:?}: wrong value: {}", x, e))?,
            (Err(e), Ok(_)) => return Err(format!("{:?} is rejected: {}", x, e)),
            _ => (),
        }
    }
    done.state = h.0;
    Ok(done)
}
fn lay21() {
    thread_local! {
        static LAID: () = {
            std::fs::write("obj21", "q:1 # c\n").unwrap();
            std::fs::write("arr21", "1 #2\n3").unwrap();
        };
    }
    LAID.with(|_| ())
}
fn base_of(t: &str) -> (Vec<String>, Vec<bool>, String) {
    let (k, n) = parts(t);
    let b = fill(&k, &n, &|_| " ".into());
    (k, n, b)
}
fn c21_slots(c: &mut Ctx) {
    for t in LAYOUTS {
        let t = t.replace("p_", "1");
        let (k, n, base) = base_of(&t);
        for b in BLANKS {
            // The same everywhere.
            c.case(&format!("{}{}{}", base, SEP, fill(&k, &n, &|_| b.to_string())));
            for i in 0..n.len() {
                for other in ["", " ", "\n"].iter() {
                    c.case(&format!("{}{}{}", base, SEP, fill(&k, &n, &|j| if j == i { b.to_string() } else { other.to_string() })));
                }
                for j in i + 1..n.len() {
                    if !c.thorough() && j > i + 4 {
                        continue;
                    }
                    if !c.mine() {
                        continue;
                    }
                    let mut s = base.clone();
                    for b2 in BLANKS {
                        s.push(SEP);
                        s.push_str(&fill(&k, &n, &|x| if x == i { b.to_string() } else if x == j { b2.to_string() } else { String::new() }));
                    }
                    c.run(&s, true);
                }
            }
        }
    }
}
fn c21_seqs(c: &mut Ctx) {
    // All blank sequences up to a length over an alphabet, in each place.
    let abc = [" ", "\n", "\t", "\r", "\u{a0}", "#\n", "#x\n", "#\"\n", "#}\n", "# #\n"];
    let max = c.pick(3, 4);
    let mut seqs = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in &abc {
                next.push(format!("{}{}", s, a));
            }
        }
        seqs.extend(next.iter().cloned());
        last = next;
    }
    for t in ["|a:|1~b:|[|1~2|]|", "|a:|{|b:|(|1~2|)|}|c:|\"s\"|", "|^:|{|}|@g:|1~c:|@g~d:|1+2|"].iter() {
        let (k, n, base) = base_of(t);
        for i in 0..n.len() {
            for ch in seqs.chunks(40) {
                if !c.mine() {
                    continue;
                }
                let mut s = base.clone();
                for b in ch {
                    s.push(SEP);
                    s.push_str(&fill(&k, &n, &|x| if x == i { b.to_string() } else { String::new() }));
                }
                c.run(&s, true);
            }
        }
    }
}
fn c21_unicode(c: &mut Ctx) {
    for ch in scalars() {
        if ch != SEP {
            c.case(&ch.to_string());
        }
    }
}
/// A character as (part of) a comment and, if it is whitespace, as a blank anywhere.
fn c21_unicode_exec(t: &str) -> CaseRes {
    let ch = t.chars().next().unwrap();
    let mut done = Done::state(ch as u64);
    done.runs = 0;
    if ch != '\n' {
        let base = "a:1 b:[1 2] c:{}";
        let r = c21_exec(&format!("{}{s}a:1#{}\nb:[1#x{}\n2] c:{{}}#{}{s}#{}{}\na:#{}#{}\"\n1 b:[1 2 #{}\n] c:{{#{}\n}}", base, t, t, t, t, t, t, t, t, t, s = SEP))?;
        done.runs += r.runs;
    }
    if ch.is_whitespace() {
        for t2 in LAYOUTS {
            let t2 = t2.replace("p_", "1");
            let (k, n, base) = base_of(&t2);
            let mut s = base.clone();
            for i in 0..n.len() {
                s.push(SEP);
                s.push_str(&fill(&k, &n, &|x| if x == i { t.to_string() } else { String::new() }));
                s.push(SEP);
                s.push_str(&fill(&k, &n, &|x| if x == i { format!(" {}{}", t, t) } else { " ".into() }));
            }
            done.runs += c21_exec(&s)?.runs;
        }
    }
    Ok(done)
}
fn c21_runs(c: &mut Ctx) {
    let max = c.pick(300, 1200);
    let (k, n, base) = base_of("|a:|1~b:|[|1~2|]|c:|{|d:|\"s\"|}|");
    for u in [" ", "\n", "\t", "#\n", "# c\n", "\u{2003}", " #\n"].iter() {
        for len in (0..=max).chain((9..c.pick(17, 19)).flat_map(|k| vec![(1 << k) - 1, 1 << k, (1 << k) + 1])) {
            if !c.mine() {
                continue;
            }
            let r = u.repeat(len);
            let mut s = base.clone();
            let places = if len > 1000 { 3 } else { n.len() };
            for i in 0..places {
                s.push(SEP);
                s.push_str(&fill(&k, &n, &|x| if x == i { r.clone() } else { String::new() }));
            }
            // One comment of that length.
            s.push(SEP);
            s.push_str(&format!("a:1#{}\nb:[1 2] c:{{d:\"s\"}}", u.replace('\n', "x").repeat(len)));
            c.run(&s, true);
        }
    }
}
const COMMENTS: [&str; 40] = [
    "", "!", "!/bin/over", "#", "##", "###", "-", "--", "---", "----", "*", "/*", "*/", "//", "<!--", "-->", "{", "}", "[", "]", "(", ")", "<", ">", "<\"x\">", "\"", "\"\"\"", "'", "\\", "\\n", "\\\\", "a:1", "@a:1", "^:{}", "include", " -*- coding: latin-1 -*-", "!strict", "if 0", "endif", "\u{0}",
];
/// Every short ASCII text as a comment in every kind of place; lines of comments one after the other.
fn c21_comments(c: &mut Ctx) {
    let put = |c: &mut Ctx, xs: &[String]| {
        if !c.mine() {
            return;
        }
        let mut s = String::from("a:1 b:[1 2] ^:{} c:\"s\"+\"t\"");
        for x in xs {
            s.push(SEP);
            s.push_str(&format!("#{x}\na:#{x}\n1#{x}\n#{x}\nb:[#{x}\n1 #{x}\n2#{x}\n]#{x}\n^:{{#{x}\n}} c:\"s\"+\"t\"#{x}", x = x));
        }
        c.run(&s, true);
    };
    let ascii: Vec<char> = (9..127u8).filter(|b| *b != 10 && (*b >= 32 || *b == 9 || *b == 13)).map(|b| b as char).collect();
    let punct: Vec<char> = ascii.iter().copied().filter(|c| !c.is_ascii_alphanumeric()).collect();
    let mut xs = vec![];
    for a in &ascii {
        xs.push(a.to_string());
        for b in &ascii {
            xs.push(format!("{}{}", a, b));
            for d in &ascii {
                xs.push(format!("{}{}{}", a, b, d));
            }
        }
    }
    for a in if c.thorough() { &punct } else { &punct[..0] } {
        for b in &punct {
            for d in &punct {
                for e in &punct {
                    xs.push(format!("{}{}{}{}", a, b, d, e));
                }
            }
        }
    }
    for ch in xs.chunks(60) {
        put(c, ch);
    }
    for a in &COMMENTS {
        for b in &COMMENTS {
            let mut v = vec![format!("{}{}", a, b), format!("{} {}", a, b), format!("{}\r", a)];
            for d in &COMMENTS {
                v.push(format!("{}\n#{}\n#{}", a, b, d));
                v.push(format!("{}\n \n#{}{}", a, b, d));
            }
            put(c, &v);
        }
    }
}
/// No comment inside a string; blanks inside one are kept.
fn c21_strings(c: &mut Ctx) {
    for b in BLANKS {
        for b2 in BLANKS {
            for (p, s) in [("a:", ""), ("a:[", "]"), ("a:(1 ", ")b:2"), ("a:{b:", "}"), ("a:\"l\"+", "#x")].iter() {
                c.case(&format!("{}\"{}x{}\"{}", p, b, b2, s));
            }
        }
    }
}
/// Separators are needed between tokens that would run together, and only there.
fn c21_adjacent(c: &mut Ctx) {
    let toks = ["1", "-1", "1.5", "\"s\"", "\"\"", "[]", "[1]", "()", "(1)", "{}", "{q:1}", "null", "true", "a", "@g", "o.p", "[1]+[2]", "1+2"];
    for x in &toks {
        for y in &toks {
            for b in BLANKS {
                c.case(&format!("a:1 @g:2 o:{{p:3}} t:({}{}{})", x, b, y));
                c.case(&format!("a:1 @g:2 o:{{p:3}} t:{}{}u:{}", x, b, y));
            }
        }
    }
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        level: "model_checking",
        assumptions: vec!["Rust's char::is_whitespace is the definition of Unicode whitespace"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c21(),
            Family { name: "slots", what: "13 texts x 36 blanks in every place, and every pair of blanks in every pair of places (quick: places at most 4 apart)", gen: c21_slots, exec: c21_exec },
            Family { name: "sequences", what: "all blank sequences up to length 3 (4) over 10 blanks in every place of 3 texts", gen: c21_seqs, exec: c21_exec },
            Family { name: "unicode", what: "every Unicode scalar value in comments; every whitespace character in every place", gen: c21_unicode, exec: c21_unicode_exec },
            Family { name: "comments", what: "all comments of up to 3 ASCII characters (thorough: and of 4 punctuation characters), in 10 places of a text at once; all pairs and three lines in a row of 40 comments", gen: c21_comments, exec: c21_exec },
            Family { name: "runs", what: "runs of every length to 300 (1200) and around powers of two to 2^17 (2^19) of 7 blanks in every place", gen: c21_runs, exec: c21_exec },
            Family { name: "strings", what: "all pairs of 36 blanks inside strings in 5 contexts", gen: c21_strings, exec: value_text },
            Family { name: "adjacent", what: "all pairs of 18 values with 36 blanks or nothing between them", gen: c21_adjacent, exec: value_text },
        ],
    }
}

// ---------------------------------------------------------------- C17 places

pub fn c17_edits(c: &mut Ctx) {
    for doc in SHORT.iter().chain(LONG.iter()) {
        edits(doc, &mut |t| c.case(t));
    }
}
pub fn c17_tokens(c: &mut Ctx) {
    let d = c.pick(5, 6);
    c.tree(
        "é:1 #c\n",
        &["a:", "\nb:", "é", " ", "\n", "#c\n", "1", "\"s\n\"", "{", "}", "[", "]", "(", ")", "<", ">", "+", "-", ".", "@", "^:", "\"", "\\", "\r\n"],
        d,
        &["1 ", "}"],
    );
}
/// One text per kind of fault: (text, where the fault is marked by the first character after `‸`).
pub const FAULTS: &[&str] = &[
    "a:1 a:2", "@g:1 @g:2", "^:{} ^:{}", "a:b", "a:@b", "a:o", "o:{} a:o.x", "a:[1] b:a.1", "a:(1) b:a.5", "a:[1] b:a.\"", "a:[1] i:-1 b:a.i", "a:[1] s:\"x\" b:a.s",
    "a:1 b:a.x", "a:1]", "a:[1}", "a:(1>", "a:{b:1)", "}", "a:\"\\q\"", "1:2", "a b:1", "null:1", "Obj:1", "^a:1", "@^:1", "a:<\"nofile\">", "a:<1>", "a:<Str 1>", "a:.", "a:1..2", "a:1__2",
    "a:@", "a:$", "a:1$", "a:x$", "a:-\"s\"", "a:+null", "a:1+\"s\"", "a:1*null", "a:1/0", "a:1%0", "a:[1 \"s\"]", "a:[[1] [\"s\"]]", "^:1", "a:", "a", "a:[", "a:(", "a:{", "a:\"", "a:1+", "a:-", "a:x.", "a:{b:1", "a:<", "a:<\"x\"", "a:\"\\",
    "a:1+2+\"s\"+1", "a:2*3*null", "a:1 b:a.c.d", "o:{p:{}} x:o.p.q", "o:{p:1} x:o.p.q", "t:(1 (2)) x:t.1.1", "a:[1 2 3 null]", "a:1 : 2", "a :1", "a:é", "a:1é", "é$:1", "a:'s'", "a:1 \\",
];
/// Every character counts as one column, in strings, comments and names.
fn c17_columns(c: &mut Ctx) {
    let all: Vec<char> = scalars().filter(|ch| !"\"\\".contains(*ch)).collect();
    for x in all.chunks(c.pick(8, 1)) {
        if !c.mine() {
            continue;
        }
        let x: String = x.iter().collect();
        let name: String = x.chars().filter(|ch| ch.is_alphabetic()).collect();
        let mut v = vec![format!("a:\"{}\" b:?", x), format!("a:(\"x{}\"+1)", x), format!("#{}\na:\"{}\\q", x, x)];
        if !name.is_empty() {
            v.push(format!("{}:?", name));
            v.push(format!("a:1 b:[{}", name));
        }
        c.run(&v.join(&SEP.to_string()), true);
    }
}
fn c17_shift(c: &mut Ctx) {
    // Every fault at every line/column up to a bound, after every sort of preceding text.
    let max = c.pick(60, 300);
    for f in FAULTS {
        for pre in ["", "x1:1 ", "x1:\"é𝄞\" ", "x1:\"\n\" ", "#c\n", "x1:{\n} ", "x1:1\r\n", "\u{a0}\u{2028}", "\t"].iter() {
            for n in 0..=max {
                if !c.mine() {
                    continue;
                }
                let mut v = vec![];
                v.push(format!("{}{}{}", pre, "\n".repeat(n), f));
                v.push(format!("{}{}{}", pre, " ".repeat(n), f));
                v.push(format!("{}#{}\n{}", pre, "é".repeat(n), f));
                v.push(format!("{}x2:\"{}\" {}", pre, "𝄞".repeat(n), f));
                v.push(format!("{}x2:\"{}\" {}", pre, "\n".repeat(n), f));
                v.push(format!("{}x2:[{}] {}", pre, "\n1 ".repeat(n), f));
                v.push(format!("{}o2:{{{}{}}}", pre, "\n ".repeat(n), f));
                c.run(&v.join(&SEP.to_string()), true);
            }
        }
        for k in [8u32, 15, 16].iter() {
            for d in [-2i64, -1, 0, 1].iter() {
                let n = ((1i64 << k) + d) as usize;
                c.case(&format!("{}{}", "\n".repeat(n), f));
                c.case(&format!("{}{}", " ".repeat(n), f));
                c.case(&format!("x2:\"{}\"{}", "\n".repeat(n), f));
                c.case(&format!("x2:\"{}\" {}", "é".repeat(n), f));
            }
        }
    }
}
pub fn c17_inside(c: &mut Ctx) {
    // Every fault inside every context, one or two deep; with line breaks.
    let ctx = [("a1:{", "}"), ("a1:{x:1\n", "\n}"), ("a1:[{", "}]"), ("a1:({", "} 1)"), ("^:{", "}"), ("@g1:{", "}"), ("a1:{^:{\n\n", "}}"), ("a1:[1]+[2] ", " z1:2"), ("a1:{b1:1}.", ""), ("a1:-1--2\n ", "")];
    let vals = ["b", "@b", "\"\\q\"", ".", "1..2", "@", "$", "1$", "-\"s\"", "1+\"s\"", "1/0", "[1 \"s\"]", "(", "[", "{", "\"", "1+", "<1>", "<\"nofile\">", "1)", "1]", "1}", "1>", "{x:1]", "{1:2}", "{a:1 a:2}", "x.y", "null.x", "[1].0", "1.5.5", "--[]", "1*[1]", "[1]+[\"\"]", "é", "'", "\\"];
    let vctx = [("a:", ""), ("a:[", "]"), ("a:[\n1 ", " ]"), ("a:(\n\n", ")"), ("a:{b:", "}"), ("a:1+", ""), ("a:1+1*", "+2"), ("a:-", ""), ("a:\"é\n\"+", ""), ("a:[[] ", "]"), ("a:<", ">"), ("a:<Str ", ">"), ("x1:[1 2] a:x1.", ""), ("x1:{y:1} a:x1.", " "), ("@g1:", ""), ("^:", "")];
    for (p, s) in &ctx {
        for (p2, s2) in &ctx {
            for f in FAULTS {
                c.case(&format!("{}{}{}", p, f, s));
                c.case(&format!("{}\n{}{}{}{}", p, p2, f, s2, s));
            }
        }
        for (p2, s2) in &vctx {
            for v in &vals {
                c.case(&format!("{}{}{}{}{}", p, p2, v, s2, s));
            }
        }
    }
}
/// Texts that load: the error must be in the included file, and carry its path.
pub fn c17_files(c: &mut Ctx) {
    let s = SEP;
    for f in FAULTS.iter().chain(["a:<\"e2\">", "a:<Arr \"bad\">", "a:<Str \"d\">", "a:<\"../f\">", "a:<\"u8\">", "a:<Str \"u8\">", "\n\na: <Str \"no\"+\"file\">"].iter()) {
        for pre in ["", "\n\n ", "#é\n"].iter() {
            let body = format!("{}{}", pre, f);
            // Directly; included at top level; from a subdirectory; two deep; by a text.
            c.case(&format!("d/{s}bad=1 null$\n{s}e2=\n\nb:x\n{s}u8=ok:1{s}f={}{s}!t/f{s}!t/./d/../f", body, s = s));
            c.case(&format!("d/{s}bad=1 null$\n{s}e2=\n\nb:x\n{s}u8=ok:1{s}f={}{s}main=\nk: <\"f\">{s}!t/main", body, s = s));
            c.case(&format!("d/{s}bad=1 null$\n{s}e2=\n\nb:x\n{s}u8=ok:1{s}d/f={}{s}main=\nk: {{x: <\"d/f\">}}{s}!t/main{s}=q:<\"t/main\">{s}=\n\nq:[<\"t/d/f\">]", body, s = s));
            c.case(&format!("d/{s}bad=1 null$\n{s}e2=\n\nb:x\n{s}u8=ok:1{s}d/f={}{s}d/g=z:1 y:<Obj \"./f\">{s}main=\nk: {{x: <\"d/g\">}}{s}!t/main{s}=q:<\"t/d/../d/g\">", body, s = s));
            c.case(&format!("d/{s}bad=1 null$\n{s}e2=\n\nb:x\n{s}u8=ok:1{s}d/f={}{s}l>d/f{s}main=ok:<Arr \"arr\">\nk: <\"l\">{s}arr=1 2{s}!t/main{s}!t/l", body, s = s));
        }
    }
    for v in ["1 x", "1 \"s\"", "1]", "1\n\n @g", "[1", "a:1", "\"", "1 2+", "<\"no\">", "é", "1 \n2\n 3 null", "\"\\q\""].iter() {
        for k in ["Arr", "Tup"].iter() {
            c.case(&format!("v={}{s}main=a:1\n b:<{} \"v\">{s}!t/main{s}=x:1\nb:<{} \"t/v\">", v, k, k, s = s));
        }
    }
}

/// Chains of files, each including the next as some type, the last one faulty.
fn c17_chains(c: &mut Ctx) {
    let s = SEP;
    let kinds = ["", "Obj ", "Arr ", "Tup "];
    let list = ["1 x", "1 \"s\" $", "1]", "1\n\n @g", "[1", "a:1", "\"", "1 2+", "<\"no\">", "é", "1 \n2\n {a:1 a:2}", "\"\\q\"", "<Arr \"u8\">", "<Str 1>"];
    // Is it faulty as this type? (As the model sees it.)
    let mut go = |ks: &[&str], f: &str, layout: usize| {
        let n = ks.len();
        let name = |i: usize| match layout {
            0 => format!("c{}", i),
            1 => format!("{}c{}", "d/".repeat(i), i),
            _ => format!("{}c{}", ["", "d/", "o/"][i % 3], i),
        };
        let mut entries = String::new();
        for i in 0..=n {
            let dir = name(i).rfind('/').map_or(String::new(), |p| name(i)[..=p].to_string());
            let body = if i == n {
                f.to_string()
            } else {
                let to = format!("{}{}", "../".repeat(dir.matches('/').count()), name(i + 1));
                let inc = format!("<{}\"{}\">", ks[i], to);
                if i == 0 || ks[i - 1].is_empty() || ks[i - 1] == "Obj " {
                    format!("\n p:1\n\tx:{}\n q:2", inc)
                } else {
                    format!("\n\n  {}", inc)
                }
            };
            entries.push_str(&format!("{}={}{s}", name(i), body, s = s));
        }
        c.case(&format!("d/d/d/d/{s}o/{s}{}!t/c0{s}=z:1 y:[<\"t/c0\">]", entries, s = s));
    };
    for layout in 0..3 {
        for a in &kinds {
            for b in &kinds {
                let fs: Vec<&str> = if b.is_empty() || *b == "Obj " { FAULTS.to_vec() } else { list.to_vec() };
                for f in &fs {
                    go(&[a, b], f, layout);
                }
                for d in &kinds {
                    let fs: Vec<&str> = if d.is_empty() || *d == "Obj " { FAULTS.iter().cloned().step_by(6).collect() } else { list.to_vec() };
                    for f in fs {
                        go(&[a, b, d], f, layout);
                        if layout == 1 {
                            go(&[a, "Arr ", b, d], f, layout);
                        }
                    }
                }
            }
        }
    }
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        assumptions: vec!["where a text has several faults, the first one met when reading from left to right counts, an operator's operands counting when its expression ends (for + and -) or at once (for * / %)"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c17(),
            Family { name: "edits", what: "every single edit of 45 texts (see C22)", gen: c17_edits, exec: place_text },
            Family { name: "tokens", what: "all token sequences up to length 5 (6) over 24 tokens with line breaks and multi-byte characters", gen: c17_tokens, exec: place_text },
            Family { name: "columns", what: "every Unicode scalar value (quick: 8 at a time) before a fault in its line, in strings, comments, names", gen: c17_columns, exec: each_place },
            Family { name: "shift", what: "70 faults, one of each kind and variant, at every line and column offset to 60 (300) and around 2^8, 2^15, 2^16, after 9 kinds of text", gen: c17_shift, exec: each_place },
            Family { name: "inside", what: "the faults in all pairs of 10 contexts; 36 faulty values in 16 value contexts in 10 contexts", gen: c17_inside, exec: place_text },
            Family { name: "chains", what: "the faults, and 14 of lists, at the end of all chains of 2 and 3 includes (and some of 4) as objects, arrays, tuples, in three layouts of directories", gen: c17_chains, exec: disk_place },
            Family { name: "files", what: "the faults in a file loaded directly, included, nested, through links and other directories", gen: c17_files, exec: disk_place },
        ],
    }
}
