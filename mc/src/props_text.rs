//! C04-C08: literals, expressions, names, dots.

use crate::docs::*;
use crate::engine::*;
use crate::model::*;

fn join(v: &[String]) -> String {
    v.join(&SEP.to_string())
}

// ---------------------------------------------------------------- C04 strings

const STR_CHARS: &[&str] = &[
    "\"", "\\", "'", "$", "n", "r", "t", "#", "\n", "\r", "{", "}", " ", "x", "0", "é", "𝄞", "@",
];

fn c04_chars(c: &mut Ctx) {
    let d = c.pick(4, 5);
    c.tree_suffix("a:\"", STR_CHARS, d, &["\"", "\" b:1"], "\"");
}
fn c04_chars_arr(c: &mut Ctx) {
    let d = c.pick(3, 4);
    c.tree_suffix("x:1\na:[\"]\" \"", STR_CHARS, d, &["\"", "\"] b:1"], "\"] b:2");
}
fn c04_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&format!("{}", ch));
    }
}
/// Contexts of one character in a string.
fn c04_unicode_exec(t: &str) -> CaseRes {
    let c = t;
    let docs = vec![
        format!("a:\"{}\"", c),
        format!("a:\"x{}{}y\" b:2", c, c),
        format!("a:\"\\{}\"", c),
        format!("a:\"\\\\{}\"", c),
        format!("a:\"\\n{}\\t\"", c),
        format!("a:\"{}", c),
        format!("a:[\"{}\" \"p\"]", c),
        format!("a:\"q{}\"+\"{}r\"", c, c),
    ];
    each_value(&join(&docs))
}
fn c04_ascii(c: &mut Ctx) {
    let esc = ["\\\\", "\\\"", "\\'", "\\$", "\\n", "\\r", "\\t"];
    for a in 0..128u8 {
        for b in 0..128u8 {
            let (a, b) = (a as char, b as char);
            c.case(&format!("a:\"{}{}\"", a, b));
            c.case(&format!("a:\"{}\\{}\"", a, b));
        }
        for e in &esc {
            for f in &esc {
                c.case(&format!("a:\"{}{}{}\"", e, a as char, f));
            }
            c.case(&format!("a:\"{}{}\" b:\"{}\"", a as char, e, e));
        }
    }
}
const STR_CTX: &[(&str, &str)] = &[
    ("a:", ""), ("a: ", "\n"), ("a:[", "]"), ("a:(", ")"), ("a:{b:", "}"), ("a:[\"z\" ", "]"), ("a:(1 ", " 2)"),
    ("a:\"l\"+", ""), ("a:", "+\"r\""), ("@g:", " a:@g"), ("b:", " a:[b b]"), ("a:", "#c\" \nb:1"), ("#c\"\na:", ""),
    ("a:{^:{p:", "}}"), ("x:1 a:(", ") y:2"),
];
const STR_BODIES: &[&str] = &[
    "", " ", "  ", "#", "# not a comment", "\n", "\r\n", "\t", "}", "{", "]", "[", ")", "(", ">", "<", "a:1", "a:1 b:2}", ":", "@", "@g", ".", ",",
    "1", "-1", "+", "null", "'", "\\'", "$", "\\$", "\\\"", "\\\\", "\\\\\\\"", "\\\\n", "\\n", "\\r\\n", "\\t\\t", "é", "e\u{301}", "\u{1F600}", "\u{0}", "\u{7f}", "\u{85}",
    "\u{a0}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{feff}", "\u{202e}x", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\\n#", "#\\n", "a\nb\nc", "\n\n\n", "trailing ", " leading",
    "\\", "\\a", "\\0", "\\x41", "\\u0041", "\\ ", "\\\n", "a\\", "\"", "a\"b", "\\\"\\", "\\\\\"",
];
fn c04_ctx(c: &mut Ctx) {
    for (p, s) in STR_CTX {
        for b in STR_BODIES {
            c.case(&format!("{}\"{}\"{}", p, b, s));
            for b2 in STR_BODIES {
                c.case(&format!("{}\"{}{}\"{}", p, b, b2, s));
                if c.thorough() {
                    c.case(&format!("{}\"{}\"{} k:\"{}\"", p, b, s, b2));
                }
            }
        }
    }
}
fn c04_len(c: &mut Ctx) {
    let units = ["a", "é", "€", "𝄞", "\\n", "\\\\", "\n", "\\\"", " ", "#", "\\t", "\\r", "\\$", "\\'", "\t", "\r", "\\na", "\\té\\\""];
    let max = c.pick(300, 1200);
    for u in &units {
        for n in 0..=max {
            c.case(&format!("a:\"{}\"", u.repeat(n)));
        }
        for k in 9..=c.pick(17, 21) {
            for d in [-1i64, 0, 1].iter() {
                c.case(&format!("a:\"{}\" b:1", u.repeat(((1i64 << k) + d) as usize)));
            }
        }
    }
    // A special character at every offset of a string.
    for sp in ["\\n", "\\\"", "é", "𝄞", "\n", "\\\\"].iter() {
        for len in [16, 64, 65, 130, 260].iter() {
            for i in 0..*len {
                c.case(&format!("a:\"{}{}{}\" b:\"\"", "x".repeat(i), sp, "y".repeat(len - i)));
            }
        }
    }
}

fn c04_special(c: &mut Ctx) {
    crate::props_val::special_places(c, c.pick(70, 260), &|l| format!("a:({})", l.join(" ")));
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        assumptions: vec!["num-bigint and Rust's char tables are trusted"],
        extra: None,
        hang_s: 30,
        families: vec![
            Family { name: "chars", what: "all character sequences up to length 4 (thorough 5) over 18 characters after an opening quote, each also with a closing quote", gen: c04_chars, exec: value_text },
            Family { name: "chars-arr", what: "the same up to length 3 (4) inside an array followed by a field", gen: c04_chars_arr, exec: value_text },
            Family { name: "unicode", what: "every Unicode scalar value raw, after a backslash, after escapes, unclosed and in concatenation", gen: c04_unicode, exec: c04_unicode_exec },
            Family { name: "ascii-pairs", what: "all pairs of ASCII characters raw and escaped; every ASCII character between any two escapes", gen: c04_ascii, exec: value_text },
            Family { name: "contexts", what: "15 syntactic contexts x all ordered pairs of 66 string bodies", gen: c04_ctx, exec: value_text },
            Family { name: "special", what: "each of 10 special characters, escaped where needed, at every place of strings of every length to 70 (260), of some to 8193", gen: c04_special, exec: value_text },
            Family { name: "length", what: "every length 0..300 (1200) of 18 units, powers of two +-1 up to 2^17 (2^21), one special character at every offset", gen: c04_len, exec: value_text },
        ],
    }
}

// ---------------------------------------------------------------- C05 numbers

fn c05_chars(c: &mut Ctx) {
    let d = c.pick(6, 7);
    c.tree("a:", &["0", "1", "9", "_", ".", ",", "-", "+", "a", "e"], d, &[" ", " b:1"]);
}
fn c05_chars_in(c: &mut Ctx) {
    let d = c.pick(4, 6);
    c.tree_suffix("a:[1.5 ", &["0", "7", "_", ".", ",", "-", " "], d, &["]"], "]");
    c.tree_suffix("a:(", &["0", "3", "_", ".", ",", "-", "x", " "], d, &[")"], ")b:2");
}
fn c05_small(c: &mut Ctx) {
    let max = c.pick(20_000, 200_000);
    for i in 0..=max {
        if c.mine() {
            c.run(&format!("a:{}{}b:-{}{}c:00{}", i, SEP, i, SEP, i), true);
        }
    }
    let m = c.pick(100, 1000);
    for a in 0..m {
        for b in 0..m {
            if !c.mine() {
                continue;
            }
            c.run(&format!("a:{}.{}{s}a:{}.0{}{s}a:-{},{}{s}a:{}.{}0{s}a:.{}{s}a:{}.", a, b, a, b, a, b, a, b, b, a, s = SEP), true);
        }
    }
}
pub fn c05_digits(c: &mut Ctx) {
    let max = c.pick(400, 1500);
    for n in 1..=max {
        for pat in ["9", "10", "01", "123456789", "7"].iter() {
            let s: String = pat.chars().cycle().take(n).collect();
            c.case(&format!("a:{} b:-{} c:{}.{} d:-.{} e:{}.", s, s, s, s, s, s));
        }
        c.case(&format!("a:1{} b:1{}.0{}1 c:{}1", "0".repeat(n), "0".repeat(n), "0".repeat(n), "0".repeat(n)));
    }
    for n in [1usize, 2, 3, 9, 10, 18, 19, 20, 21, 37, 38, 39, 40].iter() {
        let s: String = "9876543210".chars().cycle().take(*n).collect();
        // A decimal sign or an underscore at every position, and every pair of positions.
        for i in 0..=*n {
            for x in [".", ",", "_", "__", "._", "_."].iter() {
                c.case(&format!("a:{}{}{}", &s[..i], x, &s[i..]));
            }
            for j in i..=*n {
                for (x, y) in [(".", "_"), ("_", "."), ("_", "_"), (".", "."), (",", "."), ("_", ",")].iter() {
                    c.case(&format!("a:{}{}{}{}{}", &s[..i], x, &s[i..j], y, &s[j..]));
                }
            }
        }
    }
}
/// Underscores in any of the places between the digits.
fn c05_under(c: &mut Ctx) {
    for n in 2..=c.pick(9usize, 13) {
        let s: Vec<char> = "9081726354".chars().cycle().take(n).collect();
        for set in 0..1u32 << (n - 1) {
            // The decimal sign behind the k-th digit, or nowhere; no underscore beside it.
            if !c.mine() {
                continue;
            }
            let mut v = vec![];
            for k in 0..=n {
                let mut t = String::from("a:");
                for i in 0..n {
                    if i == k {
                        t.push(if n % 2 == 0 { '.' } else { ',' });
                    } else if i > 0 && set >> (i - 1) & 1 == 1 {
                        t.push('_');
                    }
                    t.push(s[i]);
                }
                v.push(t);
            }
            c.run(&v.join(&SEP.to_string()), true);
        }
    }
}
fn c05_bounds(c: &mut Ctx) {
    use num_bigint::BigInt;
    let mut p = BigInt::from(1);
    for _ in 0..c.pick(300, 2000) {
        for d in -2i32..=2 {
            let x: BigInt = &p + BigInt::from(d);
            let s = x.to_string();
            if s.starts_with('-') {
                continue;
            }
            c.case(&format!("a:{} b:-{} c:{}.{} d:0.{} e:{},5 f:-{}.0", s, s, s, s, s, s, s));
        }
        p = p * BigInt::from(2);
    }
}
fn c05_unicode(c: &mut Ctx) {
    for ch in scalars() {
        c.case(&ch.to_string());
    }
}
fn c05_unicode_exec(t: &str) -> CaseRes {
    let c = t;
    let d = vec![
        format!("a:1{}", c),
        format!("a:1{}2", c),
        format!("a:{}2", c),
        format!("a:1.{}", c),
        format!("a:1.5{}5 ", c),
        format!("a:[1{}2]", c),
        format!("a:-{}", c),
    ];
    each_value(&join(&d))
}
fn c05_ctx(c: &mut Ctx) {
    let nums = ["0", "1", "-1", "00", "1_0", "1_", "1.", ".1", ",1", "1,0", "-.5", "+5", "--5", "1__0", "_1", "1.2.3", ".", ",", "-", "1a", "0x1", "1e5", "1._5", "1_.5", "-_1", "1-", "9999999999999999999999", "0.000", "-0", "-0.0", "1/2", "4/2", "1 2"];
    let ctx = [("a:", ""), ("a: ", "\n"), ("a:[", "]"), ("a:(", ")"), ("a:{b:", "}"), ("a:[", " ]"), ("a:", "#x"), ("a:", " #x\nb:1"), ("@g:", " a:@g"), ("t:(5 6 7) a:t.", ""), ("t:[5 6 7] a:[t.", "]"), ("a:-", ""), ("a:1+", ""), ("a:", "*2"), ("a:2-", "-1"), ("^:{z:", "}")];
    for (p, s) in &ctx {
        for n in &nums {
            c.case(&format!("{}{}{}", p, n, s));
        }
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        assumptions: vec!["num-bigint's +, *, / and comparison are trusted (the digits are converted independently)"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c05(),
            Family { name: "chars", what: "all sequences up to length 6 (7) over 0 1 9 _ . , - + a e as the value of a field", gen: c05_chars, exec: value_text },
            Family { name: "chars-in", what: "the same up to length 4 (6) inside arrays and tuples", gen: c05_chars_in, exec: value_text },
            Family { name: "small", what: "every integer up to 20000 (200000) and every decimal a.b, a.0b, -a,b, a.b0, .b, a. with a,b below 100 (1000)", gen: c05_small, exec: each_value },
            Family { name: "digits", what: "every number of digits 1..400 (1500) in several patterns; a decimal sign/underscore at every position and pair of positions of literals up to 40 digits", gen: c05_digits, exec: value_text },
            Family { name: "underscores", what: "literals of 2 to 9 (13) digits with underscores in every set of places between digits and the decimal sign in every place", gen: c05_under, exec: each_value },
            Family { name: "boundaries", what: "2^k-2..2^k+2 for k up to 300 (2000), as integers and decimals, both signs", gen: c05_bounds, exec: value_text },
            Family { name: "unicode", what: "every Unicode scalar value before, inside and after numbers", gen: c05_unicode, exec: c05_unicode_exec },
            Family { name: "contexts", what: "33 literals in 16 contexts", gen: c05_ctx, exec: value_text },
        ],
    }
}

// ---------------------------------------------------------------- C06 arithmetic

const OPS: &[&str] = &["+", "-", "*", "/", "%"];

fn c06_mixed(c: &mut Ctx) {
    let d = c.pick(5, 7);
    c.tree(
        "a:",
        &["0", "2", "1.5", "\"s\"", "[1]", "[\"t\"]", "[]", "null", "true", "(1)", "{}", "+", "-", "*", "/", "%"],
        d,
        &[" b:1", "+1"],
    );
}
fn c06_ints(c: &mut Ctx) {
    let d = c.pick(7, 9);
    c.tree("a:", &["0", "2", "3", "7", "+", "-", "*", "/", "%"], d, &[" b:1"]);
}
fn c06_fracs(c: &mut Ctx) {
    let d = c.pick(7, 9);
    c.tree("a:", &["1", "2,5", ".25", "3", "+", "-", "*", "/"], d, &[" b:1"]);
}
/// All expressions of so many operands.
fn c06_long(c: &mut Ctx) {
    let few = ["+", "-", "*"];
    let four = ["2", "3.0", ".5", "7"];
    let mut go = |n: usize, operands: &[&str], ops: &[&str]| {
        let (k, m) = (operands.len(), ops.len());
        for i in 0..k.pow(n as u32) {
            if !c.mine() {
                continue;
            }
            let mut all = vec![];
            for j in 0..m.pow(n as u32 - 1) {
                let (mut i, mut j) = (i, j);
                let mut t = format!("a:{}", operands[i % k]);
                for _ in 1..n {
                    i /= k;
                    t.push_str(ops[j % m]);
                    t.push_str(operands[i % k]);
                    j /= m;
                }
                all.push(t);
            }
            c.run(&join(&all), true);
        }
    };
    go(4, &four, OPS);
    go(5, &four[..3], &few);
    go(6, &four[..2], &few);
    go(4, &["\"s\"", "\"t\"", "1", "2.0"], &few);
    go(4, &["[1]", "[]", "[[]]", "[[1]]"], &["+", "-"]);
}
fn c06_long_deep(c: &mut Ctx) {
    c06_long(c);
    if !c.thorough() {
        return;
    }
    let ops = ["+", "-", "*", "/", "%"];
    for i in 0..3usize.pow(5) {
        if !c.mine() {
            continue;
        }
        let mut all = vec![];
        for j in 0..5usize.pow(4) {
            let (mut i, mut j) = (i, j);
            let operands = ["3", "2.0", "5/3"];
            let mut t = format!("a:{}", operands[i % 3]);
            for _ in 1..5 {
                i /= 3;
                t.push_str(ops[j % 5]);
                t.push_str(operands[i % 3]);
                j /= 5;
            }
            all.push(t);
        }
        c.run(&join(&all), true);
    }
}
fn c06_names(c: &mut Ctx) {
    let d = c.pick(5, 7);
    c.tree(
        "x:7 y:-2.5 o:{p:3 q:\"s\"} l:[4 -5] @g:2 n:null m:\"t\"\na:",
        &["x", "y", "o.p", "o.q", "l.1", "@g", "n", "m", "l", "+", "-", "*", "/", "%"],
        d,
        &[" b:1"],
    );
}
fn c06_pairs(c: &mut Ctx) {
    let nums = num_set();
    let k = c.pick(18, nums.len());
    for x in &nums {
        for y in &nums {
            for op in OPS {
                c.case(&format!("a:{}{}{}", x, op, y));
            }
        }
    }
    let few: Vec<&String> = nums.iter().take(k).collect();
    for x in &few {
        for y in &few {
            for z in &few {
                for o in OPS {
                    if !c.mine() {
                        continue;
                    }
                    let docs: Vec<String> = OPS.iter().map(|p| format!("a:{}{}{}{}{}", x, o, y, p, z)).collect();
                    c.run(&join(&docs), true);
                }
            }
        }
    }
}
fn num_set() -> Vec<String> {
    let mut v: Vec<String> = ["0", "1", "2", "3", "5", "-1", "-3", "-7", "0.0", "0.5", "1.5", "-2.5", "-.25", "0.1", "10", "12", "100", "1.0", "255", "256", "65536", "4294967295", "4294967296", "-4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "-340282366920938463463374607431768211456", "0.000000000001", "3.333333333333333333333", "-0", "-0.0", "+7", "--4", "-+6", "0.125", "1000000007"].iter().map(|s| s.to_string()).collect();
    v.push(format!("1{}", "0".repeat(60)));
    v.push(format!("0.{}1", "0".repeat(40)));
    v
}
fn c06_chain(c: &mut Ctx) {
    let max = c.pick(70, 400);
    for n in 1..=max {
        for p in ["+", "-", "*", "+-", "-+", "*+", "+*", "-*", "*-", "+*-", "-*+", "+-*", "*+-", "/", "/+", "+/", "-/", "%+", "+%", "/*", "*/", "%-", "*%"].iter() {
            let big = p.contains('/');
            if big && n > 60 {
                continue;
            }
            let mut s = String::from("a:5");
            for (i, o) in p.chars().cycle().take(n).enumerate() {
                s.push(o);
                s.push_str(&format!("{}", i % 7 + 2));
            }
            c.case(&s);
        }
    }
}
fn c06_concat(c: &mut Ctx) {
    let arrs = ["[]", "[1]", "[1 2]", "[1.5]", "[\"a\"]", "[[]]", "[[1]]", "[[] [1]]", "[[\"x\"] []]", "[()]", "[(1)]", "[([])]", "[([1])]", "[([] [])]", "[([1] [])]", "[([] [\"s\"])]", "[{}]", "[{a:1}]", "[null]", "[true]", "[[[]]]", "[[[1]]]", "[[[]] []]", "\"\"", "\"s\"", "\"é\\n\"", "()", "(1)", "{}", "null", "1", "1.5", "true"];
    for x in &arrs {
        for y in &arrs {
            for o in OPS {
                c.case(&format!("a:{}{}{}", x, o, y));
            }
            for z in &arrs {
                c.case(&format!("a:{}+{}+{} b:1", x, y, z));
            }
            c.case(&format!("l:{} r:{} a:l+r b:r+l c:l", x, y));
        }
        c.case(&format!("a:-{}{s}a:+{}", x, x, s = SEP));
    }
}
fn c06_places(c: &mut Ctx) {
    // Expressions as elements, in includes' neighbours, before every kind of end.
    let e = ["1+2", "1+2*3", "2*3+1", "1-2-3", "8/2/2", "7%4%2", "-1--1", "2*-3", "1/2+1/3", "\"a\"+\"b\"", "[1]+[2]", "1+\"a\"", "1/0", "1%0", "5%2.5", "1+", "+", "*2", "1 +2", "1+ 2", "1*/2", "[1]+[\"a\"]", "-\"a\"", "-[1]", "+null", "1.5%1", "0/5", "0.0/1", "1/0.0"];
    let ctx = [("a:", ""), ("a:[", "]"), ("a:(", ")"), ("a:{b:", "}"), ("a:[0 ", " 9]"), ("a:(", "#c\n)"), ("a:", "#c"), ("a:", "\n"), ("@g:", " a:@g"), ("a:(", "(1))"), ("a:[[", "] []]"), ("a:", " b:a"), ("a:", "\u{a0}b:1")];
    for (p, s) in &ctx {
        for x in &e {
            c.case(&format!("{}{}{}", p, x, s));
            for y in &e {
                c.case(&format!("{}{}{} k:{}", p, x, s, y));
                c.case(&format!("{}{} {}{}", p, x, y, s));
            }
        }
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        assumptions: vec!["num-bigint's +, -, *, / on integers are trusted; fractions, remainders and precedence are computed independently"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c06(),
            Family { name: "mixed", what: "all token sequences up to length 5 (7) over 11 operands of every type and 5 operators", gen: c06_mixed, exec: typed_text },
            Family { name: "ints", what: "all sequences up to length 7 (9) over 0 2 3 7 + - * / %", gen: c06_ints, exec: typed_text },
            Family { name: "fracs", what: "all sequences up to length 7 (9) over 1 2,5 .25 3 + - * /", gen: c06_fracs, exec: typed_text },
            Family { name: "long", what: "all expressions of 4 numbers of 4 kinds and 5 operators, of 5 and 6 with + - *, of 4 strings, of 4 arrays (of 5 with all operators)", gen: c06_long_deep, exec: |t| each_text(t, TYPED) },
            Family { name: "names", what: "all sequences up to length 5 (7) over named, dotted and global operands and operators", gen: c06_names, exec: typed_text },
            Family { name: "pairs", what: "all pairs of 42 numbers (up to 2^128, 60 digits) x 5 operators, all triples of 18 (42) x 25 operator pairs", gen: c06_pairs, exec: |t| each_text(t, TYPED) },
            Family { name: "chain", what: "operator chains of every length up to 70 (400) in 23 patterns", gen: c06_chain, exec: typed_text },
            Family { name: "concat", what: "all pairs of 33 values x 5 operators and all sums of three", gen: c06_concat, exec: |t| each_text(t, TYPED) },
            Family { name: "sums", what: "all sums of up to 3 (5) of 10 operands (names, globals, elements, fields, literals) for 6 sets of contents, used in 8 more ways in pairs", gen: crate::props_val::c24_sums, exec: typed_text },
            Family { name: "places", what: "29 expressions and their pairs in 13 contexts", gen: c06_places, exec: typed_text },
        ],
    }
}

// ---------------------------------------------------------------- C07 names

fn c07_tree(c: &mut Ctx) {
    let d = c.pick(9, 11);
    c.tree("", &["a:", "b:", "@a:", "1 ", "a ", "b ", "@a ", "{", "} ", "[", "] "], d, &["1 b:1", "} b:1"]);
}
fn c07_tree_tup(c: &mut Ctx) {
    let d = c.pick(7, 9);
    c.tree("a:1 @b:2 ", &["c:", "a ", "@b ", "c ", "@c:", "@c ", "(", ") ", "{", "} ", "a:", "^:", "3 "], d, &["1 b:1", "} b:1"]);
}
/// Larger steps: openings, closings, definitions and uses of one plain name and two globals.
fn c07_steps(c: &mut Ctx) {
    let d = c.pick(6, 8);
    c.tree("", &["o:{", "p:{", "^:{", "l:[", "u:(", "} ", "] ", ") ", "f:1 ", "@g:1 ", "@h:@g ", "x:f ", "y:@g ", "z:@h ", "@g ", "f ", "^:@g "], d, &["} ", "y:@g ", "@g:2 ", "z:1 "]);
    let d = c.pick(4, 6);
    for p in &["o:{^:{} ", "o:{f:1 ", "o:{@g:{} ^:@g ", "@g:{f:1} o:{^:@g ", "o:{^:{@g:{f:2}} ", "l:[{f:1 @g:f} ", "u:(1 {^:{@g:1} @h:@g} "] {
        c.tree(p, &["} ", "] ", ") ", "f:1 ", "@g:1 ", "@h:@g ", "x:f ", "y:@g ", "z:@h ", "v:@g.f ", "{", "^:{", "w:{", "@g ", "@h ", "@g+@g ", "^:@g "], d, &["} ", "y:@g ", "z:1 "]);
    }
}
fn c07_many(c: &mut Ctx) {
    // Among n fields (and globals), a reference to each one, and to an undefined one, and duplicates.
    let max = c.pick(40, 120);
    for n in 1..=max {
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&format!("f{}:{} @f{}:{} ", i, i, i, i + 1000));
        }
        for i in 0..=n {
            c.case(&format!("{}r:f{} q:@f{} t:[f{} @f{}]", s, i, i, i, i));
            c.case(&format!("{}r:f{}", s, i));
            c.case(&format!("{}r:@f{}", s, i));
            c.case(&format!("{}f{}:5", s, i));
            c.case(&format!("{}@f{}:5", s, i));
            c.case(&format!("{}o:{{r:f{}}}", s, i));
            c.case(&format!("{}o:{{r:@f{} f{}:1 s:f{}}}", s, i, i, i));
        }
    }
}
fn c07_depth(c: &mut Ctx) {
    // A name or global defined at depth i, referred to from depth j, before or after; mixed kinds.
    let max = c.pick(8, 24);
    for i in 0..=max {
        for j in 0..=max {
            for (o, cl) in [("{k:", "}"), ("[", "]"), ("(", ")")].iter() {
                for (d, r) in [("x:1", "x"), ("@x:1", "@x")].iter() {
                    let open_i = format!("p:{}{{{}}}{}", o.repeat(i), d, cl.repeat(i));
                    let refer = format!("q:{}{{y:{}}}{}", o.repeat(j), r, cl.repeat(j));
                    c.case(&format!("{} {}", open_i, refer));
                    c.case(&format!("{} {}", refer, open_i));
                    c.case(&format!("{} q:{}{}{}", open_i, o.repeat(j), r, cl.repeat(j)));
                    c.case(&format!("{} q:{}{}{}", d, o.repeat(j), r, cl.repeat(j)));
                    c.case(&format!("{} {}", d, refer));
                    c.case(&format!("q:{}{{{} y:{}}}{} z:{}", o.repeat(j), d, r, cl.repeat(j), r));
                }
            }
        }
    }
}
fn c07_similar(c: &mut Ctx) {
    let names = ["a", "A", "aa", "a_", "_a", "_", "__", "a1", "a2", "a11", "a1_", "à", "a\u{327}", "ａ", "ɑ", "α", "а", "ß", "ss", "ı", "i", "I", "İ", "ĳ", "Null", "nul", "nulll", "True", "tru", "falsee", "obj", "Objj", "Strr", "str", "Array", "Tuple", "null_", "_null", "x中", "中", "中文", "ﬁ", "fi"];
    for n in &names {
        for m in &names {
            c.case(&format!("{}:1 x9:{}", n, m));
            c.case(&format!("@{}:1 x9:@{}", n, m));
            c.case(&format!("{}:1 {}:2 x9:({} {})", n, m, n, m));
            c.case(&format!("@{}:1 @{}:2 x9:(@{} @{})", n, m, n, m));
            c.case(&format!("@{}:1 {}:2 x9:({} @{})", n, m, m, n));
            c.case(&format!("@{}:1 x9:{}", n, m));
            c.case(&format!("{}:1 x9:@{}", n, m));
            c.case(&format!("{}:{} x9:{}", n, m, n));
        }
    }
    for k in ["null", "true", "false"].iter() {
        c.case(&format!("@{}:7 x:@{} y:{}", k, k, k));
        c.case(&format!("x:@{}", k));
    }
    for k in ["Obj", "Str", "Arr", "Tup"].iter() {
        c.case(&format!("@{}:7 x:@{}", k, k));
    }
}
fn c07_names_len(c: &mut Ctx) {
    // Names of every length, and pairs that differ in one place only.
    let max = c.pick(80, 300);
    for n in 1..=max {
        let a = "n".repeat(n);
        c.case(&format!("{}:1 x9:{}", a, a));
        c.case(&format!("@{}:1 x9:@{}", a, a));
        for i in 0..n {
            let mut b: Vec<u8> = a.clone().into_bytes();
            b[i] = b'm';
            let b = String::from_utf8(b).unwrap();
            c.case(&format!("{}:1 {}:2 x9:({} {})", a, b, a, b));
            c.case(&format!("{}:1 x9:{}", a, b));
            c.case(&format!("@{}:1 x9:@{}", a, b));
        }
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "model_checking",
        assumptions: vec!["what a name means as an index behind an object's dot, and an include keyword as a plain value, are left open by the property and skipped"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c07(),
            Family { name: "tree", what: "all token sequences up to length 9 (11) over a: b: @a: 1 a b @a { } [ ]", gen: c07_tree, exec: value_text },
            Family { name: "tree-tup", what: "all token sequences up to length 7 (9) over definitions and uses with tuples and parents after a:1 @b:2", gen: c07_tree_tup, exec: value_text },
            Family { name: "steps", what: "all sequences of up to 6 (8) of 17 larger steps (open or close a container, define, use), and of up to 4 (6) after each of 7 beginnings", gen: c07_steps, exec: value_text },
            Family { name: "many", what: "among n fields and globals (n to 40 (120)), a use/redefinition of each and of an undefined one", gen: c07_many, exec: value_text },
            Family { name: "depth", what: "definition at depth i and use at depth j (to 8 (24)) in objects, arrays and tuples, in both orders", gen: c07_depth, exec: value_text },
            Family { name: "similar", what: "all pairs of 43 similar names as fields and globals", gen: c07_similar, exec: value_text },
            Family { name: "includes", what: "all included bodies of up to 3 (4) of 12 parts against 3 beginnings and 7 ends of the including file, as each type; pairs of included files: names and globals stay in their file", gen: crate::props_fs::c12_scope, exec: crate::props_fs::c12_scope_or_disk },
            Family { name: "length", what: "names of every length to 80 (300), and every name differing from it in one place", gen: c07_names_len, exec: value_text },
        ],
    }
}

// ---------------------------------------------------------------- C08 dot notation

const PRELUDE: &str = "a:[10 20 30] b:[[1 2] [3]] t:(7 \"s\" [5 6] {p:8 l:[9]}) n:1 m:-1 z:0 f:1.0 s:\"x\" w:null \
                       o:{p:4 q:{p:5 t:(6 [7])} l:[1 2] s:\"y\" i:1} c:{^:{p:11 u:{v:12} g:[13 14]} own:15 p:16} d:{^:{^:{deep:17 e:[18]} mid:19}} \
                       @g:{p:20 a:[21]} @i:2 @p:3 e:[] h:() k:{} \n";

pub fn c08_tree(c: &mut Ctx) {
    let d = c.pick(4, 5);
    c.tree(
        &format!("{}x:", PRELUDE),
        &["a", "b", "t", "o", "c", "d", "@g", "n", ".a", ".p", ".q", ".l", ".t", ".0", ".1", ".2", ".n", ".@i", ".u", ".deep", ".mid", ".own", ".s", "."],
        d,
        &[" y9:1", ".0"],
    );
}
fn c08_index(c: &mut Ctx) {
    let idx = ["0", "1", "2", "3", "00", "01", "1_", "0_1", "-0", "-1", "+1", "1.0", "0.", ".0", "1,0", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "99999999999999999999999999", "n", "m", "z", "f", "s", "w", "o", "a", "@i", "@g", "@p", "undefined", "@undefined", "null", "true", "\"0\"", "[0]", "(0)", "{}", "0x", "a0", "é", "_", "@", "^", "a.0", "o.i", "n.n", "0+1", "1*2", "0-1", "0 ", "0#", "n#c\n", "<", "]", "}", ":", "0:", " 0", "\n0"];
    for b in ["a", "b", "t", "e", "h", "o.l", "c.g", "d.e", "@g.a", "b.0", "b.1", "t.2", "n", "s", "w", "f", "o", "k", "undefined", "@undefined", "null", "true", "5", "1.5", "\"lit\"", "[1]", "(1)", "{p:1}"].iter() {
        for i in &idx {
            for (p, s) in [("x:", ""), ("x:", " y9:1"), ("x:[", "]"), ("x:(", ")"), ("x:-", ""), ("x:1+", "*2")].iter() {
                c.case(&format!("{}{}{}.{}{}", PRELUDE, p, b, i, s));
            }
        }
    }
}
fn c08_fields(c: &mut Ctx) {
    let bases = ["o", "c", "d", "@g", "o.q", "c.u", "t.3", "k", "a", "n", "s"];
    let names = ["p", "q", "l", "s", "i", "u", "g", "own", "deep", "mid", "e", "v", "t", "a", "n", "@p", "@g", "null", "true", "false", "Obj", "Str", "Arr", "Tup", "^", "P", "pp", "p_", "_p", "p1", "é", "", "p.", "p..p", "q.p", "q.q", "u.v", "q.t.0", "q.t.1.0", "l.0", "l.1", "l.2", "l.n", "e.0", "g.1", "g.9"];
    for b in &bases {
        for n in &names {
            for (p, s) in [("x:", ""), ("x:", " y9:1"), ("x:[", "]"), ("x:{y:", "}"), ("x:", "+1"), ("x:-", "")].iter() {
                c.case(&format!("{}{}{}.{}{}", PRELUDE, p, b, n, s));
            }
        }
    }
    // Fields whose names are keywords elsewhere, or only look like something else.
    for n in ["null_", "_", "__", "é", "中", "Objs", "truex", "a1", "x_1", "L"].iter() {
        for m in ["null_", "_", "__", "é", "中", "Objs", "truex", "a1", "x_1", "L"].iter() {
            c.case(&format!("o:{{{}:1}} x:o.{}", n, m));
            c.case(&format!("o:{{^:{{{}:1}}}} x:o.{}", n, m));
            c.case(&format!("o:{{^:{{{}:1}} {}:2}} x:o.{}", n, m, n));
        }
    }
}
fn c08_every_index(c: &mut Ctx) {
    let max = c.pick(60, 300);
    for n in 0..=max {
        let els: Vec<String> = (0..n).map(|i| format!("{}", i * 3)).collect();
        for i in 0..=n + 1 {
            c.case(&format!("a:[{}] x:a.{}", els.join(" "), i));
            c.case(&format!("a:({}) i:{} x:a.i", els.join(" "), i));
            c.case(&format!("a:({}) @i:{} x:a.@i", els.join(" "), i));
        }
    }
    for n in [100usize, 255, 256, 257, 1000].iter() {
        let els: Vec<String> = (0..*n).map(|i| format!("{}", i)).collect();
        for i in 0..=c.pick(n + 1, n + 1) {
            if n <= &257 || i % 50 <= 1 || i >= n - 2 {
                c.case(&format!("a:[{}] x:a.{}", els.join(" "), i));
            }
        }
    }
}
fn c08_chain(c: &mut Ctx) {
    // Paths of every length up to 60 through objects (the value stays within the nesting limit).
    let max = c.pick(30, 60);
    for n in 1..=max {
        let doc = format!("o:{}1{}", "{o:".repeat(n), "}".repeat(n));
        for k in 0..=n + 1 {
            c.case(&format!("{} x:o{}", doc, ".o".repeat(k)));
        }
        // Inherited over n generations.
        let doc = format!("o:{}v:1{}", "{^:{".repeat(n / 2), "} }".repeat(n / 2));
        c.case(&format!("{} x:o.v", doc));
        c.case(&format!("{} x:o.w", doc));
    }
    // Index chains group to the right: a.a.1 is a[a[1]].
    for t in [["a.a.0", "a.a.1"], ["a.a.a.0", "a.a.a.1"]].iter() {
        for s in t.iter() {
            c.case(&format!("a:[1 2 0] x:{}", s));
            c.case(&format!("a:(1 0) x:{}", s));
        }
    }
}
fn c08_parents(c: &mut Ctx) {
    // Objects related in all ways; the dotted value is what lookup gives.
    for mask in 0..64u32 {
        for order in 0..2 {
            let f = |i: u32, n: &str| if mask >> i & 1 == 1 { format!("{}:{} ", n, i + 1) } else { String::new() };
            let gp = format!("{{{}{}}}", f(0, "u"), f(1, "v"));
            let p = if order == 0 { format!("{{^:{} {}{}}}", gp, f(2, "u"), f(3, "v")) } else { format!("{{{}^:{} {}}}", f(2, "u"), gp, f(3, "v")) };
            let o = if order == 0 { format!("{{^:{} {}{}}}", p, f(4, "u"), f(5, "v")) } else { format!("{{{}{}^:{}}}", f(4, "u"), f(5, "v"), p) };
            for n in ["u", "v", "w"].iter() {
                c.case(&format!("o:{} x:o.{}", o, n));
                c.case(&format!("@o:{} x:[@o.{}]", o, n));
                c.case(&format!("t:({}) x:t.0", o));
                c.case(&format!("o:{{h:{}}} x:o.h.{}", o, n));
            }
        }
    }
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        assumptions: vec!["what an index NAME behind an object's dot refers to (o.list.i) is left open and skipped", "runs of more than 60 dots are left open"],
        extra: None,
        hang_s: 30,
        families: vec![
            crate::sizes::c08(),
            Family { name: "tree", what: "all paths up to 4 (5) components over 24 components after a prelude of objects, arrays, tuples, parents and globals", gen: c08_tree, exec: value_text },
            Family { name: "index", what: "28 bases x 64 index spellings x 6 contexts", gen: c08_index, exec: value_text },
            Family { name: "fields", what: "11 bases x 45 field paths x 6 contexts; all pairs of 10 unusual names", gen: c08_fields, exec: value_text },
            Family { name: "every-index", what: "every index 0..n+1 of arrays and tuples of every size n to 60 (300), by literal, name and global", gen: c08_every_index, exec: value_text },
            Family { name: "chains", what: "paths of every length to 30 (60), also through ancestors", gen: c08_chain, exec: value_text },
            Family { name: "parents", what: "all presence patterns of two fields over three generations, parent entry first or later", gen: c08_parents, exec: value_text },
        ],
    }
}

#[allow(dead_code)]
fn unused(_: &MV) {}
