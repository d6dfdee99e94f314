//! Written by tools/gen_uses.py.
#![allow(warnings)]
use over::value::Value;
use over::Obj;

fn id<T>(t: T) -> T {
    t
}
struct S<T> {
    v: T,
}
fn check(fails: &mut usize, what: &str, v: Value, text: &str) {
    let w = text.parse::<Obj>().ok().and_then(|o| o.get("x"));
    if w.as_ref() != Some(&v) || v.to_string() != w.unwrap().to_string() {
        println!("{} gives {}, but {:?} was meant", what, v, text);
        *fails += 1;
    }
}

fn once(fails: &mut usize, what: &str, log: Vec<usize>, n: usize) {
    if log != (0..n).collect::<Vec<usize>>() {
        println!("{} evaluates its items in the order {:?}", what, log);
        *fails += 1;
    }
}
fn main() {
    use over::{arr, obj, try_arr, try_obj, tup};
    let mut n = 0;
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0")];
        check(&mut n, r#"arr![f(0, "0")]"#, Value::from(r), r#"x:[0]"#);
        once(&mut n, r#"arr![f(0, "0")]"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"),];
        check(&mut n, r#"arr![f(0, "0"),]"#, Value::from(r), r#"x:[0]"#);
        once(&mut n, r#"arr![f(0, "0"),]"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = arr![m0];
        check(&mut n, r#"arr![m0]"#, Value::from(r), r#"x:["m0"]"#);
        once(&mut n, r#"arr![m0]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = arr![m0,];
        check(&mut n, r#"arr![m0,]"#, Value::from(r), r#"x:["m0"]"#);
        once(&mut n, r#"arr![m0,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0")]"#, Value::from(r), r#"x:[0]"#);
        once(&mut n, r#"try_arr![f(0, "0")]"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"),]"#, Value::from(r), r#"x:[0]"#);
        once(&mut n, r#"try_arr![f(0, "0"),]"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = try_arr![m0].unwrap();
        check(&mut n, r#"try_arr![m0]"#, Value::from(r), r#"x:["m0"]"#);
        once(&mut n, r#"try_arr![m0]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = try_arr![m0,].unwrap();
        check(&mut n, r#"try_arr![m0,]"#, Value::from(r), r#"x:["m0"]"#);
        once(&mut n, r#"try_arr![m0,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"));
        check(&mut n, r#"tup!(f(0, "0"))"#, Value::from(r), r#"x:(0)"#);
        once(&mut n, r#"tup!(f(0, "0"))"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"),);
        check(&mut n, r#"tup!(f(0, "0"),)"#, Value::from(r), r#"x:(0)"#);
        once(&mut n, r#"tup!(f(0, "0"),)"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = tup!(m0);
        check(&mut n, r#"tup!(m0)"#, Value::from(r), r#"x:("m0")"#);
        once(&mut n, r#"tup!(m0)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = tup!(m0,);
        check(&mut n, r#"tup!(m0,)"#, Value::from(r), r#"x:("m0")"#);
        once(&mut n, r#"tup!(m0,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0")};
        check(&mut n, r#"obj!{"a" => f(0, "0")}"#, Value::from(r), r#"x:{a:0}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0")}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"),}"#, Value::from(r), r#"x:{a:0}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"),}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}")}"#, Value::from(r), r#"x:{^:{p:1}}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}")}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"),}"#, Value::from(r), r#"x:{^:{p:1}}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"),}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = obj!{"a" => m0};
        check(&mut n, r#"obj!{"a" => m0}"#, Value::from(r), r#"x:{a:"m0"}"#);
        once(&mut n, r#"obj!{"a" => m0}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = obj!{"a" => m0,};
        check(&mut n, r#"obj!{"a" => m0,}"#, Value::from(r), r#"x:{a:"m0"}"#);
        once(&mut n, r#"obj!{"a" => m0,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0")}"#, Value::from(r), r#"x:{a:0}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0")}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"),}"#, Value::from(r), r#"x:{a:0}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"),}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}")}"#, Value::from(r), r#"x:{^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}")}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"),}"#, Value::from(r), r#"x:{^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"),}"#, log, 1);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = try_obj!{"a" => m0}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0}"#, Value::from(r), r#"x:{a:"m0"}"#);
        once(&mut n, r#"try_obj!{"a" => m0}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let r = try_obj!{"a" => m0,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0,}"#, Value::from(r), r#"x:{a:"m0"}"#);
        once(&mut n, r#"try_obj!{"a" => m0,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1")];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1")]"#, Value::from(r), r#"x:[0 1]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1")]"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"),];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"),]"#, Value::from(r), r#"x:[0 1]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"),]"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = arr![m0, m1];
        check(&mut n, r#"arr![m0, m1]"#, Value::from(r), r#"x:["m0" "m1"]"#);
        once(&mut n, r#"arr![m0, m1]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = arr![m0, m1,];
        check(&mut n, r#"arr![m0, m1,]"#, Value::from(r), r#"x:["m0" "m1"]"#);
        once(&mut n, r#"arr![m0, m1,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1")]"#, Value::from(r), r#"x:[0 1]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1")]"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"),]"#, Value::from(r), r#"x:[0 1]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"),]"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = try_arr![m0, m1].unwrap();
        check(&mut n, r#"try_arr![m0, m1]"#, Value::from(r), r#"x:["m0" "m1"]"#);
        once(&mut n, r#"try_arr![m0, m1]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = try_arr![m0, m1,].unwrap();
        check(&mut n, r#"try_arr![m0, m1,]"#, Value::from(r), r#"x:["m0" "m1"]"#);
        once(&mut n, r#"try_arr![m0, m1,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"));
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"))"#, Value::from(r), r#"x:(0 1)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"))"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"),);
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"),)"#, Value::from(r), r#"x:(0 1)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"),)"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = tup!(m0, m1);
        check(&mut n, r#"tup!(m0, m1)"#, Value::from(r), r#"x:("m0" "m1")"#);
        once(&mut n, r#"tup!(m0, m1)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = tup!(m0, m1,);
        check(&mut n, r#"tup!(m0, m1,)"#, Value::from(r), r#"x:("m0" "m1")"#);
        once(&mut n, r#"tup!(m0, m1,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1")}"#, Value::from(r), r#"x:{a:0 b:1}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"),}"#, Value::from(r), r#"x:{a:0 b:1}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")}"#, Value::from(r), r#"x:{^:{p:1} b:1}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),}"#, Value::from(r), r#"x:{^:{p:1} b:1}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")}"#, Value::from(r), r#"x:{a:0 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = obj!{"a" => m0, "b" => m1};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1}"#, Value::from(r), r#"x:{a:"m0" b:"m1"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = obj!{"a" => m0, "b" => m1,};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1,}"#, Value::from(r), r#"x:{a:"m0" b:"m1"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1")}"#, Value::from(r), r#"x:{a:0 b:1}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"),}"#, Value::from(r), r#"x:{a:0 b:1}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")}"#, Value::from(r), r#"x:{^:{p:1} b:1}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),}"#, Value::from(r), r#"x:{^:{p:1} b:1}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")}"#, Value::from(r), r#"x:{a:0 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}")}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"),}"#, log, 2);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = try_obj!{"a" => m0, "b" => m1}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1}"#, Value::from(r), r#"x:{a:"m0" b:"m1"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let r = try_obj!{"a" => m0, "b" => m1,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1,}"#, Value::from(r), r#"x:{a:"m0" b:"m1"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2")];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2")]"#, Value::from(r), r#"x:[0 1 2]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2")]"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"),];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"),]"#, Value::from(r), r#"x:[0 1 2]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"),]"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = arr![m0, m1, m2];
        check(&mut n, r#"arr![m0, m1, m2]"#, Value::from(r), r#"x:["m0" "m1" "m2"]"#);
        once(&mut n, r#"arr![m0, m1, m2]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = arr![m0, m1, m2,];
        check(&mut n, r#"arr![m0, m1, m2,]"#, Value::from(r), r#"x:["m0" "m1" "m2"]"#);
        once(&mut n, r#"arr![m0, m1, m2,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2")]"#, Value::from(r), r#"x:[0 1 2]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2")]"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"),]"#, Value::from(r), r#"x:[0 1 2]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"),]"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = try_arr![m0, m1, m2].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2]"#, Value::from(r), r#"x:["m0" "m1" "m2"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = try_arr![m0, m1, m2,].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2,]"#, Value::from(r), r#"x:["m0" "m1" "m2"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"));
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"))"#, Value::from(r), r#"x:(0 1 2)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"))"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"),);
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"),)"#, Value::from(r), r#"x:(0 1 2)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"),)"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = tup!(m0, m1, m2);
        check(&mut n, r#"tup!(m0, m1, m2)"#, Value::from(r), r#"x:("m0" "m1" "m2")"#);
        once(&mut n, r#"tup!(m0, m1, m2)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = tup!(m0, m1, m2,);
        check(&mut n, r#"tup!(m0, m1, m2,)"#, Value::from(r), r#"x:("m0" "m1" "m2")"#);
        once(&mut n, r#"tup!(m0, m1, m2,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{a:0 b:1 c:2}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2,};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{a:0 b:1 c:2}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}")}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"),}"#, log, 3);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")]"#, Value::from(r), r#"x:[0 1 2 3]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")]"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),]"#, Value::from(r), r#"x:[0 1 2 3]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),]"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = arr![m0, m1, m2, m3];
        check(&mut n, r#"arr![m0, m1, m2, m3]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = arr![m0, m1, m2, m3,];
        check(&mut n, r#"arr![m0, m1, m2, m3,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")]"#, Value::from(r), r#"x:[0 1 2 3]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3")]"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),]"#, Value::from(r), r#"x:[0 1 2 3]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),]"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = try_arr![m0, m1, m2, m3].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = try_arr![m0, m1, m2, m3,].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"));
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"))"#, Value::from(r), r#"x:(0 1 2 3)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"))"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),);
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),)"#, Value::from(r), r#"x:(0 1 2 3)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"),)"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = tup!(m0, m1, m2, m3);
        check(&mut n, r#"tup!(m0, m1, m2, m3)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = tup!(m0, m1, m2, m3,);
        check(&mut n, r#"tup!(m0, m1, m2, m3,)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}")}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"),}"#, log, 4);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")]"#, Value::from(r), r#"x:[0 1 2 3 4]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")]"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),]"#, Value::from(r), r#"x:[0 1 2 3 4]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),]"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = arr![m0, m1, m2, m3, m4];
        check(&mut n, r#"arr![m0, m1, m2, m3, m4]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3, m4]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = arr![m0, m1, m2, m3, m4,];
        check(&mut n, r#"arr![m0, m1, m2, m3, m4,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3, m4,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")]"#, Value::from(r), r#"x:[0 1 2 3 4]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4")]"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),]"#, Value::from(r), r#"x:[0 1 2 3 4]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),]"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = try_arr![m0, m1, m2, m3, m4].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3, m4]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3, m4]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = try_arr![m0, m1, m2, m3, m4,].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3, m4,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3, m4,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"));
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"))"#, Value::from(r), r#"x:(0 1 2 3 4)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"))"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),);
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),)"#, Value::from(r), r#"x:(0 1 2 3 4)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"),)"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = tup!(m0, m1, m2, m3, m4);
        check(&mut n, r#"tup!(m0, m1, m2, m3, m4)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3" "m4")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3, m4)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = tup!(m0, m1, m2, m3, m4,);
        check(&mut n, r#"tup!(m0, m1, m2, m3, m4,)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3" "m4")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3, m4,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}")}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"),}"#, log, 5);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")]"#, Value::from(r), r#"x:[0 1 2 3 4 5]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")]"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),];
        check(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),]"#, Value::from(r), r#"x:[0 1 2 3 4 5]"#);
        once(&mut n, r#"arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),]"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = arr![m0, m1, m2, m3, m4, m5];
        check(&mut n, r#"arr![m0, m1, m2, m3, m4, m5]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4" "m5"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3, m4, m5]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = arr![m0, m1, m2, m3, m4, m5,];
        check(&mut n, r#"arr![m0, m1, m2, m3, m4, m5,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4" "m5"]"#);
        once(&mut n, r#"arr![m0, m1, m2, m3, m4, m5,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")]"#, Value::from(r), r#"x:[0 1 2 3 4 5]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5")]"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),].unwrap();
        check(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),]"#, Value::from(r), r#"x:[0 1 2 3 4 5]"#);
        once(&mut n, r#"try_arr![f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),]"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = try_arr![m0, m1, m2, m3, m4, m5].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3, m4, m5]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4" "m5"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3, m4, m5]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = try_arr![m0, m1, m2, m3, m4, m5,].unwrap();
        check(&mut n, r#"try_arr![m0, m1, m2, m3, m4, m5,]"#, Value::from(r), r#"x:["m0" "m1" "m2" "m3" "m4" "m5"]"#);
        once(&mut n, r#"try_arr![m0, m1, m2, m3, m4, m5,]"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"));
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"))"#, Value::from(r), r#"x:(0 1 2 3 4 5)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"))"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),);
        check(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),)"#, Value::from(r), r#"x:(0 1 2 3 4 5)"#);
        once(&mut n, r#"tup!(f(0, "0"), f(1, "1"), f(2, "2"), f(3, "3"), f(4, "4"), f(5, "5"),)"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = tup!(m0, m1, m2, m3, m4, m5);
        check(&mut n, r#"tup!(m0, m1, m2, m3, m4, m5)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3" "m4" "m5")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3, m4, m5)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = tup!(m0, m1, m2, m3, m4, m5,);
        check(&mut n, r#"tup!(m0, m1, m2, m3, m4, m5,)"#, Value::from(r), r#"x:("m0" "m1" "m2" "m3" "m4" "m5")"#);
        once(&mut n, r#"tup!(m0, m1, m2, m3, m4, m5,)"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4 f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1} f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1} f:5}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),};
        check(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 ^:{p:1}}"#);
        once(&mut n, r#"obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4" f:"m5"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,};
        check(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4" f:"m5"}"#);
        once(&mut n, r#"obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{^:{p:1} b:1 c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"^" => f(0, "{p:1}"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 ^:{p:1} c:2 d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "^" => f(1, "{p:1}"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 ^:{p:1} d:3 e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "^" => f(2, "{p:1}"), "d" => f(3, "3"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 ^:{p:1} e:4 f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "^" => f(3, "{p:1}"), "e" => f(4, "4"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1} f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 ^:{p:1} f:5}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "^" => f(4, "{p:1}"), "f" => f(5, "5"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}")}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let r = try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),}.unwrap();
        check(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),}"#, Value::from(r), r#"x:{a:0 b:1 c:2 d:3 e:4 ^:{p:1}}"#);
        once(&mut n, r#"try_obj!{"a" => f(0, "0"), "b" => f(1, "1"), "c" => f(2, "2"), "d" => f(3, "3"), "e" => f(4, "4"), "^" => f(5, "{p:1}"),}"#, log, 6);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4" f:"m5"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5}"#, log, 0);
    }
    {
        let mut log = vec![];
        let mut f = |i: usize, s: &str| {
            log.push(i);
            format!("x:{}", s).parse::<Obj>().unwrap().get("x").unwrap()
        };
        let m0 = Value::from("m0");
        let m1 = Value::from("m1");
        let m2 = Value::from("m2");
        let m3 = Value::from("m3");
        let m4 = Value::from("m4");
        let m5 = Value::from("m5");
        let r = try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,}.unwrap();
        check(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,}"#, Value::from(r), r#"x:{a:"m0" b:"m1" c:"m2" d:"m3" e:"m4" f:"m5"}"#);
        once(&mut n, r#"try_obj!{"a" => m0, "b" => m1, "c" => m2, "d" => m3, "e" => m4, "f" => m5,}"#, log, 0);
    }
    std::process::exit(if n > 0 { 1 } else { 0 });
}
