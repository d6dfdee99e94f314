//! Written by tools/gen_uses.py.
#![allow(warnings)]
#[macro_use]
extern crate over;
use over::value::Value;
use over::Obj;

fn id<T>(t: T) -> T {
    t
}
struct S<T> {
    v: T,
}
fn check(fails: &mut usize, what: &str, v: Value, text: &str) {
    let w = text.parse::<Obj>().ok().and_then(|o| o.get("x"));
    if w.as_ref() != Some(&v) || v.to_string() != w.unwrap().to_string() {
        println!("{} gives {}, but {:?} was meant", what, v, text);
        *fails += 1;
    }
}
mod all_arr {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = arr![];
            check(n, r#"let r = arr![];"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = id(arr![]);
            check(n, r#"let r = id(arr![]);"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = arr![1];
            check(n, r#"let r = arr![1];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(arr![1]);
            check(n, r#"let r = id(arr![1]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = arr![1,];
            check(n, r#"let r = arr![1,];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(arr![1,]);
            check(n, r#"let r = id(arr![1,]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = arr![1, 2];
            check(n, r#"let r = arr![1, 2];"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = id(arr![1, 2]);
            check(n, r#"let r = id(arr![1, 2]);"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = arr!["a", "b",];
            check(n, r#"let r = arr!["a", "b",];"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = id(arr!["a", "b",]);
            check(n, r#"let r = id(arr!["a", "b",]);"#, Value::from(r), r#"x:["a" "b"]"#);
        }
    }
}
mod all_frac {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = frac!(1, 2);
            check(n, r#"let r = frac!(1, 2);"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = id(frac!(1, 2));
            check(n, r#"let r = id(frac!(1, 2));"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = frac!(-4, 6);
            check(n, r#"let r = frac!(-4, 6);"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = id(frac!(-4, 6));
            check(n, r#"let r = id(frac!(-4, 6));"#, Value::from(r), r#"x:-2/3"#);
        }
    }
}
mod all_int {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = int!(5);
            check(n, r#"let r = int!(5);"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = id(int!(5));
            check(n, r#"let r = id(int!(5));"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = int!(-5i64);
            check(n, r#"let r = int!(-5i64);"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = id(int!(-5i64));
            check(n, r#"let r = id(int!(-5i64));"#, Value::from(r), r#"x:-5"#);
        }
    }
}
mod all_obj {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = obj!{};
            check(n, r#"let r = obj!{};"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = id(obj!{});
            check(n, r#"let r = id(obj!{});"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = obj!{"a" => 1};
            check(n, r#"let r = obj!{"a" => 1};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(obj!{"a" => 1});
            check(n, r#"let r = id(obj!{"a" => 1});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = obj!{"a" => 1,};
            check(n, r#"let r = obj!{"a" => 1,};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(obj!{"a" => 1,});
            check(n, r#"let r = id(obj!{"a" => 1,});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = obj!{"a" => 1, "b" => "s"};
            check(n, r#"let r = obj!{"a" => 1, "b" => "s"};"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = id(obj!{"a" => 1, "b" => "s"});
            check(n, r#"let r = id(obj!{"a" => 1, "b" => "s"});"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = obj!("a" => 1, "b" => 2,);
            check(n, r#"let r = obj!("a" => 1, "b" => 2,);"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(obj!("a" => 1, "b" => 2,));
            check(n, r#"let r = id(obj!("a" => 1, "b" => 2,));"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = obj!{"a" => 1, "^" => over::Obj::empty()};
            check(n, r#"let r = obj!{"a" => 1, "^" => over::Obj::empty()};"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = id(obj!{"a" => 1, "^" => over::Obj::empty()});
            check(n, r#"let r = id(obj!{"a" => 1, "^" => over::Obj::empty()});"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
    }
}
mod all_try_arr {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = try_arr![1];
            check(n, r#"let r = try_arr![1];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(try_arr![1]);
            check(n, r#"let r = id(try_arr![1]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = try_arr![1,];
            check(n, r#"let r = try_arr![1,];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(try_arr![1,]);
            check(n, r#"let r = id(try_arr![1,]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = try_arr![1, 2];
            check(n, r#"let r = try_arr![1, 2];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(try_arr![1, 2]);
            check(n, r#"let r = id(try_arr![1, 2]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = try_arr![1, 2,];
            check(n, r#"let r = try_arr![1, 2,];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(try_arr![1, 2,]);
            check(n, r#"let r = id(try_arr![1, 2,]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
    }
}
mod all_try_obj {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = try_obj!{"a" => 1};
            check(n, r#"let r = try_obj!{"a" => 1};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(try_obj!{"a" => 1});
            check(n, r#"let r = id(try_obj!{"a" => 1});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = try_obj!{"a" => 1,};
            check(n, r#"let r = try_obj!{"a" => 1,};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(try_obj!{"a" => 1,});
            check(n, r#"let r = id(try_obj!{"a" => 1,});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = try_obj!{"a" => 1, "b" => 2};
            check(n, r#"let r = try_obj!{"a" => 1, "b" => 2};"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(try_obj!{"a" => 1, "b" => 2});
            check(n, r#"let r = id(try_obj!{"a" => 1, "b" => 2});"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};
            check(n, r#"let r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = id(try_obj!{"^" => over::Obj::empty(), "b" => 2,});
            check(n, r#"let r = id(try_obj!{"^" => over::Obj::empty(), "b" => 2,});"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
    }
}
mod all_tup {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = tup!();
            check(n, r#"let r = tup!();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = id(tup!());
            check(n, r#"let r = id(tup!());"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = tup!(1);
            check(n, r#"let r = tup!(1);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(tup!(1));
            check(n, r#"let r = id(tup!(1));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = tup!(1,);
            check(n, r#"let r = tup!(1,);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(tup!(1,));
            check(n, r#"let r = id(tup!(1,));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = tup!(1, "s");
            check(n, r#"let r = tup!(1, "s");"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = id(tup!(1, "s"));
            check(n, r#"let r = id(tup!(1, "s"));"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = tup!(1, true,);
            check(n, r#"let r = tup!(1, true,);"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = id(tup!(1, true,));
            check(n, r#"let r = id(tup!(1, true,));"#, Value::from(r), r#"x:(1 true)"#);
        }
    }
}
fn main() {
    let mut n = 0;
    all_arr::all(&mut n);
    all_frac::all(&mut n);
    all_int::all(&mut n);
    all_obj::all(&mut n);
    all_try_arr::all(&mut n);
    all_try_obj::all(&mut n);
    all_tup::all(&mut n);
    std::process::exit(if n > 0 { 1 } else { 0 });
}
