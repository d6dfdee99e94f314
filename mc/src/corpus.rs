//! Valid texts that together use every construct; edited in all ways by several families.

/// Short texts, one construct or a few each.
pub const SHORT: &[&str] = &[
    "",
    " \n",
    "# only a comment",
    "a:1",
    "a: 1\nb: 2\n",
    "a:1 b:a c:b",
    "a:-1",
    "a:+1.5",
    "a:--1",
    "a:1+2*3",
    "a:4/2-1%3",
    "a:1_000",
    "a:1,5 b:.5 c:5.",
    "a:null b:true c:false",
    "a:\"x\"",
    "a:\"q\\\"\\\\\\n\" b:\"#\"",
    "a:\"x\"+\"y\"",
    "a:[]",
    "a:[1 2]",
    "a:[[] [1]]",
    "a:[1]+[2]",
    "a:()",
    "a:(1 \"x\" null)",
    "a:{}",
    "a:{b:1 c:{d:2}}",
    "^:{a:1} b:2",
    "a:{^:{b:1} c:2}",
    "@g:1 a:@g",
    "@g:{p:1} ^:@g b:(@g)",
    "o:{p:[7 8]} x:o.p.1",
    "t:(1 (2 3)) x:t.1.0",
    "a:[5] i:0 x:a.i",
    "a: #c\n 1 #d\nb:2#e",
    "a:[1#x\n2]",
    "é:1 b:é",
    "a:1\r\nb:2\r\n",
    "_:1 a_1:_",
    "a:[{b:1} {}]",
    "a:\"l1\nl2\" b:2",
    "a:{ }b:( )c:[ ]",
];

/// Longer texts, several lines, for errors at realistic places.
pub const LONG: &[&str] = &[
    "# header\na: 1\nb: \"two # not\\n\" # note\nc: [1 2\n  3]\n@g: {\n  x: -1.5\n  y: (a_ 2)\n}\n",
    "a: 5\nb: [a 2]\nobj: {\n    ^: {q: 1}\n    name: \"é𝄞\"\n    sum: 1+2*3-4/2\n}\n@g: obj.name\nlast: (@g b.1 null)\n",
    "x: {y: {z: [(1 \"a\") (2 \"b\")]}}\nw: x.y.z.1\r\n\r\nv: \"multi\nline\" # c\nu: -x.y.z.0.0\n",
    "p: {a: 1 b: \"s\"}\nc: {\n  ^: p\n  t: [[] [1]] + [[2]]\n}\n",
    "p: {a: 1 b: \"s\"}\nq: {\n  t: [[] [1]]+[[2]]\n  f: 1,25*4\n}\n^: p\ne: p.b+\"t\" z: 7%4",
];

/// Characters for edits.
pub const EDIT_CHARS: &[&str] = &[
    "a", "Z", "0", "9", " ", "\n", "\r", "\t", ":", "\"", "\\", "{", "}", "[", "]", "(", ")", "<", ">", "+", "-", "*", "/", "%", ".", ",", "_", "@", "^", "#", "$", "'", "=", ";", "!", "|", "é", "𝄞", "\u{a0}", "\u{0}", "null", "x:1 ", "\"s\"",
];

/// All texts one edit away.
pub fn edits(doc: &str, f: &mut dyn FnMut(&str)) {
    let ch: Vec<char> = doc.chars().collect();
    let s = |r: std::ops::Range<usize>| ch[r].iter().collect::<String>();
    let n = ch.len();
    for i in 0..=n {
        let (pre, post) = (s(0..i), s(i..n));
        for e in EDIT_CHARS {
            f(&format!("{}{}{}", pre, e, post));
        }
        if i < n {
            f(&pre); // truncated
            f(&post); // beheaded
            let rest = s(i + 1..n);
            f(&format!("{}{}", pre, rest));
            f(&format!("{}{}{}{}", pre, ch[i], ch[i], rest));
            for e in EDIT_CHARS {
                f(&format!("{}{}{}", pre, e, rest));
            }
            if i + 1 < n {
                f(&format!("{}{}{}{}", pre, ch[i + 1], ch[i], s(i + 2..n)));
            }
        }
    }
}
/// All texts from which a range is cut.
pub fn cuts(doc: &str, f: &mut dyn FnMut(&str)) {
    let ch: Vec<char> = doc.chars().collect();
    for i in 0..ch.len() {
        for j in i + 2..=ch.len() {
            let t: String = ch[..i].iter().chain(ch[j..].iter()).collect();
            f(&t);
        }
    }
}
