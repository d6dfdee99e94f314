//! Written by tools/gen_uses.py.
#![allow(warnings)]
use over::value::Value;
use over::Obj;

fn id<T>(t: T) -> T {
    t
}
struct S<T> {
    v: T,
}
fn check(fails: &mut usize, what: &str, v: Value, text: &str) {
    let w = text.parse::<Obj>().ok().and_then(|o| o.get("x"));
    if w.as_ref() != Some(&v) || v.to_string() != w.unwrap().to_string() {
        println!("{} gives {}, but {:?} was meant", what, v, text);
        *fails += 1;
    }
}
mod alone_arr {
    use super::{check, id, S, Value};
    use over::arr;
    pub fn all(n: &mut usize) {
        {
            let r = arr![];
            check(n, r#"let r = arr![];"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = id(arr![]);
            check(n, r#"let r = id(arr![]);"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = { arr![] };
            check(n, r#"let r = { arr![] };"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = { let x = arr![]; x };
            check(n, r#"let r = { let x = arr![]; x };"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = match 1 { 1 => arr![], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => arr![], _ => panic!() };"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = (|| arr![])();
            check(n, r#"let r = (|| arr![])();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = vec![arr![]].pop().unwrap();
            check(n, r#"let r = vec![arr![]].pop().unwrap();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = if true { arr![] } else { arr![] };
            check(n, r#"let r = if true { arr![] } else { arr![] };"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = (arr![], 1).0;
            check(n, r#"let r = (arr![], 1).0;"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = Ok::<_, ()>(arr![]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![]).unwrap();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = Ok::<_, ()>(arr![]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![]).unwrap();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = S { v: arr![] }.v;
            check(n, r#"let r = S { v: arr![] }.v;"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = [arr![]].into_iter().next().unwrap();
            check(n, r#"let r = [arr![]].into_iter().next().unwrap();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = loop { break arr![]; };
            check(n, r#"let r = loop { break arr![]; };"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r; r = arr![];
            check(n, r#"let r; r = arr![];"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = Some(arr![]).unwrap();
            check(n, r#"let r = Some(arr![]).unwrap();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = id((arr![]));
            check(n, r#"let r = id((arr![]));"#, Value::from(r), r#"x:[]"#);
        }
        {
            let f = || { return arr![]; }; let r = f();
            check(n, r#"let f = || { return arr![]; }; let r = f();"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = Box::new(arr![]); let r = *r;
            check(n, r#"let r = Box::new(arr![]); let r = *r;"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = arr![1];
            check(n, r#"let r = arr![1];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(arr![1]);
            check(n, r#"let r = id(arr![1]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = { arr![1] };
            check(n, r#"let r = { arr![1] };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = { let x = arr![1]; x };
            check(n, r#"let r = { let x = arr![1]; x };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = match 1 { 1 => arr![1], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => arr![1], _ => panic!() };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = (|| arr![1])();
            check(n, r#"let r = (|| arr![1])();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = vec![arr![1]].pop().unwrap();
            check(n, r#"let r = vec![arr![1]].pop().unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = if true { arr![1] } else { arr![1] };
            check(n, r#"let r = if true { arr![1] } else { arr![1] };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = (arr![1], 1).0;
            check(n, r#"let r = (arr![1], 1).0;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = S { v: arr![1] }.v;
            check(n, r#"let r = S { v: arr![1] }.v;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = [arr![1]].into_iter().next().unwrap();
            check(n, r#"let r = [arr![1]].into_iter().next().unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = loop { break arr![1]; };
            check(n, r#"let r = loop { break arr![1]; };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r; r = arr![1];
            check(n, r#"let r; r = arr![1];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Some(arr![1]).unwrap();
            check(n, r#"let r = Some(arr![1]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id((arr![1]));
            check(n, r#"let r = id((arr![1]));"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let f = || { return arr![1]; }; let r = f();
            check(n, r#"let f = || { return arr![1]; }; let r = f();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Box::new(arr![1]); let r = *r;
            check(n, r#"let r = Box::new(arr![1]); let r = *r;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = arr![1,];
            check(n, r#"let r = arr![1,];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(arr![1,]);
            check(n, r#"let r = id(arr![1,]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = { arr![1,] };
            check(n, r#"let r = { arr![1,] };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = { let x = arr![1,]; x };
            check(n, r#"let r = { let x = arr![1,]; x };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = match 1 { 1 => arr![1,], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => arr![1,], _ => panic!() };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = (|| arr![1,])();
            check(n, r#"let r = (|| arr![1,])();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = vec![arr![1,]].pop().unwrap();
            check(n, r#"let r = vec![arr![1,]].pop().unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = if true { arr![1,] } else { arr![1,] };
            check(n, r#"let r = if true { arr![1,] } else { arr![1,] };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = (arr![1,], 1).0;
            check(n, r#"let r = (arr![1,], 1).0;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1,]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1,]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = S { v: arr![1,] }.v;
            check(n, r#"let r = S { v: arr![1,] }.v;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = [arr![1,]].into_iter().next().unwrap();
            check(n, r#"let r = [arr![1,]].into_iter().next().unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = loop { break arr![1,]; };
            check(n, r#"let r = loop { break arr![1,]; };"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r; r = arr![1,];
            check(n, r#"let r; r = arr![1,];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Some(arr![1,]).unwrap();
            check(n, r#"let r = Some(arr![1,]).unwrap();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id((arr![1,]));
            check(n, r#"let r = id((arr![1,]));"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let f = || { return arr![1,]; }; let r = f();
            check(n, r#"let f = || { return arr![1,]; }; let r = f();"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = Box::new(arr![1,]); let r = *r;
            check(n, r#"let r = Box::new(arr![1,]); let r = *r;"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = arr![1, 2];
            check(n, r#"let r = arr![1, 2];"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = id(arr![1, 2]);
            check(n, r#"let r = id(arr![1, 2]);"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = { arr![1, 2] };
            check(n, r#"let r = { arr![1, 2] };"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = { let x = arr![1, 2]; x };
            check(n, r#"let r = { let x = arr![1, 2]; x };"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = match 1 { 1 => arr![1, 2], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => arr![1, 2], _ => panic!() };"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = (|| arr![1, 2])();
            check(n, r#"let r = (|| arr![1, 2])();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = vec![arr![1, 2]].pop().unwrap();
            check(n, r#"let r = vec![arr![1, 2]].pop().unwrap();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = if true { arr![1, 2] } else { arr![1, 2] };
            check(n, r#"let r = if true { arr![1, 2] } else { arr![1, 2] };"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = (arr![1, 2], 1).0;
            check(n, r#"let r = (arr![1, 2], 1).0;"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1, 2]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1, 2]).unwrap();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(arr![1, 2]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr![1, 2]).unwrap();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = S { v: arr![1, 2] }.v;
            check(n, r#"let r = S { v: arr![1, 2] }.v;"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = [arr![1, 2]].into_iter().next().unwrap();
            check(n, r#"let r = [arr![1, 2]].into_iter().next().unwrap();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = loop { break arr![1, 2]; };
            check(n, r#"let r = loop { break arr![1, 2]; };"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r; r = arr![1, 2];
            check(n, r#"let r; r = arr![1, 2];"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = Some(arr![1, 2]).unwrap();
            check(n, r#"let r = Some(arr![1, 2]).unwrap();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = id((arr![1, 2]));
            check(n, r#"let r = id((arr![1, 2]));"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let f = || { return arr![1, 2]; }; let r = f();
            check(n, r#"let f = || { return arr![1, 2]; }; let r = f();"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = Box::new(arr![1, 2]); let r = *r;
            check(n, r#"let r = Box::new(arr![1, 2]); let r = *r;"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = arr!["a", "b",];
            check(n, r#"let r = arr!["a", "b",];"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = id(arr!["a", "b",]);
            check(n, r#"let r = id(arr!["a", "b",]);"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = { arr!["a", "b",] };
            check(n, r#"let r = { arr!["a", "b",] };"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = { let x = arr!["a", "b",]; x };
            check(n, r#"let r = { let x = arr!["a", "b",]; x };"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = match 1 { 1 => arr!["a", "b",], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => arr!["a", "b",], _ => panic!() };"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = (|| arr!["a", "b",])();
            check(n, r#"let r = (|| arr!["a", "b",])();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = vec![arr!["a", "b",]].pop().unwrap();
            check(n, r#"let r = vec![arr!["a", "b",]].pop().unwrap();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = if true { arr!["a", "b",] } else { arr!["a", "b",] };
            check(n, r#"let r = if true { arr!["a", "b",] } else { arr!["a", "b",] };"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = (arr!["a", "b",], 1).0;
            check(n, r#"let r = (arr!["a", "b",], 1).0;"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = Ok::<_, ()>(arr!["a", "b",]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr!["a", "b",]).unwrap();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = Ok::<_, ()>(arr!["a", "b",]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(arr!["a", "b",]).unwrap();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = S { v: arr!["a", "b",] }.v;
            check(n, r#"let r = S { v: arr!["a", "b",] }.v;"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = [arr!["a", "b",]].into_iter().next().unwrap();
            check(n, r#"let r = [arr!["a", "b",]].into_iter().next().unwrap();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = loop { break arr!["a", "b",]; };
            check(n, r#"let r = loop { break arr!["a", "b",]; };"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r; r = arr!["a", "b",];
            check(n, r#"let r; r = arr!["a", "b",];"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = Some(arr!["a", "b",]).unwrap();
            check(n, r#"let r = Some(arr!["a", "b",]).unwrap();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = id((arr!["a", "b",]));
            check(n, r#"let r = id((arr!["a", "b",]));"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let f = || { return arr!["a", "b",]; }; let r = f();
            check(n, r#"let f = || { return arr!["a", "b",]; }; let r = f();"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = Box::new(arr!["a", "b",]); let r = *r;
            check(n, r#"let r = Box::new(arr!["a", "b",]); let r = *r;"#, Value::from(r), r#"x:["a" "b"]"#);
        }
    }
}
mod alone_frac {
    use super::{check, id, S, Value};
    use over::frac;
    pub fn all(n: &mut usize) {
        {
            let r = frac!(1, 2);
            check(n, r#"let r = frac!(1, 2);"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = id(frac!(1, 2));
            check(n, r#"let r = id(frac!(1, 2));"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = { frac!(1, 2) };
            check(n, r#"let r = { frac!(1, 2) };"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = { let x = frac!(1, 2); x };
            check(n, r#"let r = { let x = frac!(1, 2); x };"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = match 1 { 1 => frac!(1, 2), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => frac!(1, 2), _ => panic!() };"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = (|| frac!(1, 2))();
            check(n, r#"let r = (|| frac!(1, 2))();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = vec![frac!(1, 2)].pop().unwrap();
            check(n, r#"let r = vec![frac!(1, 2)].pop().unwrap();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = if true { frac!(1, 2) } else { frac!(1, 2) };
            check(n, r#"let r = if true { frac!(1, 2) } else { frac!(1, 2) };"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = (frac!(1, 2), 1).0;
            check(n, r#"let r = (frac!(1, 2), 1).0;"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = Ok::<_, ()>(frac!(1, 2)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(frac!(1, 2)).unwrap();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = Ok::<_, ()>(frac!(1, 2)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(frac!(1, 2)).unwrap();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = S { v: frac!(1, 2) }.v;
            check(n, r#"let r = S { v: frac!(1, 2) }.v;"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = [frac!(1, 2)].into_iter().next().unwrap();
            check(n, r#"let r = [frac!(1, 2)].into_iter().next().unwrap();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = loop { break frac!(1, 2); };
            check(n, r#"let r = loop { break frac!(1, 2); };"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r; r = frac!(1, 2);
            check(n, r#"let r; r = frac!(1, 2);"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = Some(frac!(1, 2)).unwrap();
            check(n, r#"let r = Some(frac!(1, 2)).unwrap();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = id((frac!(1, 2)));
            check(n, r#"let r = id((frac!(1, 2)));"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let f = || { return frac!(1, 2); }; let r = f();
            check(n, r#"let f = || { return frac!(1, 2); }; let r = f();"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = Box::new(frac!(1, 2)); let r = *r;
            check(n, r#"let r = Box::new(frac!(1, 2)); let r = *r;"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = frac!(-4, 6);
            check(n, r#"let r = frac!(-4, 6);"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = id(frac!(-4, 6));
            check(n, r#"let r = id(frac!(-4, 6));"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = { frac!(-4, 6) };
            check(n, r#"let r = { frac!(-4, 6) };"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = { let x = frac!(-4, 6); x };
            check(n, r#"let r = { let x = frac!(-4, 6); x };"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = match 1 { 1 => frac!(-4, 6), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => frac!(-4, 6), _ => panic!() };"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = (|| frac!(-4, 6))();
            check(n, r#"let r = (|| frac!(-4, 6))();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = vec![frac!(-4, 6)].pop().unwrap();
            check(n, r#"let r = vec![frac!(-4, 6)].pop().unwrap();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = if true { frac!(-4, 6) } else { frac!(-4, 6) };
            check(n, r#"let r = if true { frac!(-4, 6) } else { frac!(-4, 6) };"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = (frac!(-4, 6), 1).0;
            check(n, r#"let r = (frac!(-4, 6), 1).0;"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = Ok::<_, ()>(frac!(-4, 6)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(frac!(-4, 6)).unwrap();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = Ok::<_, ()>(frac!(-4, 6)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(frac!(-4, 6)).unwrap();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = S { v: frac!(-4, 6) }.v;
            check(n, r#"let r = S { v: frac!(-4, 6) }.v;"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = [frac!(-4, 6)].into_iter().next().unwrap();
            check(n, r#"let r = [frac!(-4, 6)].into_iter().next().unwrap();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = loop { break frac!(-4, 6); };
            check(n, r#"let r = loop { break frac!(-4, 6); };"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r; r = frac!(-4, 6);
            check(n, r#"let r; r = frac!(-4, 6);"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = Some(frac!(-4, 6)).unwrap();
            check(n, r#"let r = Some(frac!(-4, 6)).unwrap();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = id((frac!(-4, 6)));
            check(n, r#"let r = id((frac!(-4, 6)));"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let f = || { return frac!(-4, 6); }; let r = f();
            check(n, r#"let f = || { return frac!(-4, 6); }; let r = f();"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = Box::new(frac!(-4, 6)); let r = *r;
            check(n, r#"let r = Box::new(frac!(-4, 6)); let r = *r;"#, Value::from(r), r#"x:-2/3"#);
        }
    }
}
mod alone_int {
    use super::{check, id, S, Value};
    use over::int;
    pub fn all(n: &mut usize) {
        {
            let r = int!(5);
            check(n, r#"let r = int!(5);"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = id(int!(5));
            check(n, r#"let r = id(int!(5));"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = { int!(5) };
            check(n, r#"let r = { int!(5) };"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = { let x = int!(5); x };
            check(n, r#"let r = { let x = int!(5); x };"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = match 1 { 1 => int!(5), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => int!(5), _ => panic!() };"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = (|| int!(5))();
            check(n, r#"let r = (|| int!(5))();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = vec![int!(5)].pop().unwrap();
            check(n, r#"let r = vec![int!(5)].pop().unwrap();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = if true { int!(5) } else { int!(5) };
            check(n, r#"let r = if true { int!(5) } else { int!(5) };"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = (int!(5), 1).0;
            check(n, r#"let r = (int!(5), 1).0;"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = Ok::<_, ()>(int!(5)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(int!(5)).unwrap();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = Ok::<_, ()>(int!(5)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(int!(5)).unwrap();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = S { v: int!(5) }.v;
            check(n, r#"let r = S { v: int!(5) }.v;"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = [int!(5)].into_iter().next().unwrap();
            check(n, r#"let r = [int!(5)].into_iter().next().unwrap();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = loop { break int!(5); };
            check(n, r#"let r = loop { break int!(5); };"#, Value::from(r), r#"x:5"#);
        }
        {
            let r; r = int!(5);
            check(n, r#"let r; r = int!(5);"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = Some(int!(5)).unwrap();
            check(n, r#"let r = Some(int!(5)).unwrap();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = id((int!(5)));
            check(n, r#"let r = id((int!(5)));"#, Value::from(r), r#"x:5"#);
        }
        {
            let f = || { return int!(5); }; let r = f();
            check(n, r#"let f = || { return int!(5); }; let r = f();"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = Box::new(int!(5)); let r = *r;
            check(n, r#"let r = Box::new(int!(5)); let r = *r;"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = int!(-5i64);
            check(n, r#"let r = int!(-5i64);"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = id(int!(-5i64));
            check(n, r#"let r = id(int!(-5i64));"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = { int!(-5i64) };
            check(n, r#"let r = { int!(-5i64) };"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = { let x = int!(-5i64); x };
            check(n, r#"let r = { let x = int!(-5i64); x };"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = match 1 { 1 => int!(-5i64), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => int!(-5i64), _ => panic!() };"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = (|| int!(-5i64))();
            check(n, r#"let r = (|| int!(-5i64))();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = vec![int!(-5i64)].pop().unwrap();
            check(n, r#"let r = vec![int!(-5i64)].pop().unwrap();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = if true { int!(-5i64) } else { int!(-5i64) };
            check(n, r#"let r = if true { int!(-5i64) } else { int!(-5i64) };"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = (int!(-5i64), 1).0;
            check(n, r#"let r = (int!(-5i64), 1).0;"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = Ok::<_, ()>(int!(-5i64)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(int!(-5i64)).unwrap();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = Ok::<_, ()>(int!(-5i64)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(int!(-5i64)).unwrap();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = S { v: int!(-5i64) }.v;
            check(n, r#"let r = S { v: int!(-5i64) }.v;"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = [int!(-5i64)].into_iter().next().unwrap();
            check(n, r#"let r = [int!(-5i64)].into_iter().next().unwrap();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = loop { break int!(-5i64); };
            check(n, r#"let r = loop { break int!(-5i64); };"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r; r = int!(-5i64);
            check(n, r#"let r; r = int!(-5i64);"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = Some(int!(-5i64)).unwrap();
            check(n, r#"let r = Some(int!(-5i64)).unwrap();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = id((int!(-5i64)));
            check(n, r#"let r = id((int!(-5i64)));"#, Value::from(r), r#"x:-5"#);
        }
        {
            let f = || { return int!(-5i64); }; let r = f();
            check(n, r#"let f = || { return int!(-5i64); }; let r = f();"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = Box::new(int!(-5i64)); let r = *r;
            check(n, r#"let r = Box::new(int!(-5i64)); let r = *r;"#, Value::from(r), r#"x:-5"#);
        }
    }
}
mod alone_obj {
    use super::{check, id, S, Value};
    use over::obj;
    pub fn all(n: &mut usize) {
        {
            let r = obj!{};
            check(n, r#"let r = obj!{};"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = id(obj!{});
            check(n, r#"let r = id(obj!{});"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = { obj!{} };
            check(n, r#"let r = { obj!{} };"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = { let x = obj!{}; x };
            check(n, r#"let r = { let x = obj!{}; x };"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = match 1 { 1 => obj!{}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!{}, _ => panic!() };"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = (|| obj!{})();
            check(n, r#"let r = (|| obj!{})();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = vec![obj!{}].pop().unwrap();
            check(n, r#"let r = vec![obj!{}].pop().unwrap();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = if true { obj!{} } else { obj!{} };
            check(n, r#"let r = if true { obj!{} } else { obj!{} };"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = (obj!{}, 1).0;
            check(n, r#"let r = (obj!{}, 1).0;"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{}).unwrap();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{}).unwrap();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = S { v: obj!{} }.v;
            check(n, r#"let r = S { v: obj!{} }.v;"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = [obj!{}].into_iter().next().unwrap();
            check(n, r#"let r = [obj!{}].into_iter().next().unwrap();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = loop { break obj!{}; };
            check(n, r#"let r = loop { break obj!{}; };"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r; r = obj!{};
            check(n, r#"let r; r = obj!{};"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = Some(obj!{}).unwrap();
            check(n, r#"let r = Some(obj!{}).unwrap();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = id((obj!{}));
            check(n, r#"let r = id((obj!{}));"#, Value::from(r), r#"x:{}"#);
        }
        {
            let f = || { return obj!{}; }; let r = f();
            check(n, r#"let f = || { return obj!{}; }; let r = f();"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = Box::new(obj!{}); let r = *r;
            check(n, r#"let r = Box::new(obj!{}); let r = *r;"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = obj!{"a" => 1};
            check(n, r#"let r = obj!{"a" => 1};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(obj!{"a" => 1});
            check(n, r#"let r = id(obj!{"a" => 1});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = { obj!{"a" => 1} };
            check(n, r#"let r = { obj!{"a" => 1} };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = { let x = obj!{"a" => 1}; x };
            check(n, r#"let r = { let x = obj!{"a" => 1}; x };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = match 1 { 1 => obj!{"a" => 1}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!{"a" => 1}, _ => panic!() };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = (|| obj!{"a" => 1})();
            check(n, r#"let r = (|| obj!{"a" => 1})();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = vec![obj!{"a" => 1}].pop().unwrap();
            check(n, r#"let r = vec![obj!{"a" => 1}].pop().unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = if true { obj!{"a" => 1} } else { obj!{"a" => 1} };
            check(n, r#"let r = if true { obj!{"a" => 1} } else { obj!{"a" => 1} };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = (obj!{"a" => 1}, 1).0;
            check(n, r#"let r = (obj!{"a" => 1}, 1).0;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = S { v: obj!{"a" => 1} }.v;
            check(n, r#"let r = S { v: obj!{"a" => 1} }.v;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = [obj!{"a" => 1}].into_iter().next().unwrap();
            check(n, r#"let r = [obj!{"a" => 1}].into_iter().next().unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = loop { break obj!{"a" => 1}; };
            check(n, r#"let r = loop { break obj!{"a" => 1}; };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r; r = obj!{"a" => 1};
            check(n, r#"let r; r = obj!{"a" => 1};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Some(obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Some(obj!{"a" => 1}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id((obj!{"a" => 1}));
            check(n, r#"let r = id((obj!{"a" => 1}));"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let f = || { return obj!{"a" => 1}; }; let r = f();
            check(n, r#"let f = || { return obj!{"a" => 1}; }; let r = f();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Box::new(obj!{"a" => 1}); let r = *r;
            check(n, r#"let r = Box::new(obj!{"a" => 1}); let r = *r;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = obj!{"a" => 1,};
            check(n, r#"let r = obj!{"a" => 1,};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(obj!{"a" => 1,});
            check(n, r#"let r = id(obj!{"a" => 1,});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = { obj!{"a" => 1,} };
            check(n, r#"let r = { obj!{"a" => 1,} };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = { let x = obj!{"a" => 1,}; x };
            check(n, r#"let r = { let x = obj!{"a" => 1,}; x };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = match 1 { 1 => obj!{"a" => 1,}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!{"a" => 1,}, _ => panic!() };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = (|| obj!{"a" => 1,})();
            check(n, r#"let r = (|| obj!{"a" => 1,})();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = vec![obj!{"a" => 1,}].pop().unwrap();
            check(n, r#"let r = vec![obj!{"a" => 1,}].pop().unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = if true { obj!{"a" => 1,} } else { obj!{"a" => 1,} };
            check(n, r#"let r = if true { obj!{"a" => 1,} } else { obj!{"a" => 1,} };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = (obj!{"a" => 1,}, 1).0;
            check(n, r#"let r = (obj!{"a" => 1,}, 1).0;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1,}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1,}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = S { v: obj!{"a" => 1,} }.v;
            check(n, r#"let r = S { v: obj!{"a" => 1,} }.v;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = [obj!{"a" => 1,}].into_iter().next().unwrap();
            check(n, r#"let r = [obj!{"a" => 1,}].into_iter().next().unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = loop { break obj!{"a" => 1,}; };
            check(n, r#"let r = loop { break obj!{"a" => 1,}; };"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r; r = obj!{"a" => 1,};
            check(n, r#"let r; r = obj!{"a" => 1,};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Some(obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Some(obj!{"a" => 1,}).unwrap();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id((obj!{"a" => 1,}));
            check(n, r#"let r = id((obj!{"a" => 1,}));"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let f = || { return obj!{"a" => 1,}; }; let r = f();
            check(n, r#"let f = || { return obj!{"a" => 1,}; }; let r = f();"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = Box::new(obj!{"a" => 1,}); let r = *r;
            check(n, r#"let r = Box::new(obj!{"a" => 1,}); let r = *r;"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = obj!{"a" => 1, "b" => "s"};
            check(n, r#"let r = obj!{"a" => 1, "b" => "s"};"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = id(obj!{"a" => 1, "b" => "s"});
            check(n, r#"let r = id(obj!{"a" => 1, "b" => "s"});"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = { obj!{"a" => 1, "b" => "s"} };
            check(n, r#"let r = { obj!{"a" => 1, "b" => "s"} };"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = { let x = obj!{"a" => 1, "b" => "s"}; x };
            check(n, r#"let r = { let x = obj!{"a" => 1, "b" => "s"}; x };"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = match 1 { 1 => obj!{"a" => 1, "b" => "s"}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!{"a" => 1, "b" => "s"}, _ => panic!() };"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = (|| obj!{"a" => 1, "b" => "s"})();
            check(n, r#"let r = (|| obj!{"a" => 1, "b" => "s"})();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = vec![obj!{"a" => 1, "b" => "s"}].pop().unwrap();
            check(n, r#"let r = vec![obj!{"a" => 1, "b" => "s"}].pop().unwrap();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = if true { obj!{"a" => 1, "b" => "s"} } else { obj!{"a" => 1, "b" => "s"} };
            check(n, r#"let r = if true { obj!{"a" => 1, "b" => "s"} } else { obj!{"a" => 1, "b" => "s"} };"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = (obj!{"a" => 1, "b" => "s"}, 1).0;
            check(n, r#"let r = (obj!{"a" => 1, "b" => "s"}, 1).0;"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1, "b" => "s"}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1, "b" => "s"}).unwrap();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1, "b" => "s"}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1, "b" => "s"}).unwrap();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = S { v: obj!{"a" => 1, "b" => "s"} }.v;
            check(n, r#"let r = S { v: obj!{"a" => 1, "b" => "s"} }.v;"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = [obj!{"a" => 1, "b" => "s"}].into_iter().next().unwrap();
            check(n, r#"let r = [obj!{"a" => 1, "b" => "s"}].into_iter().next().unwrap();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = loop { break obj!{"a" => 1, "b" => "s"}; };
            check(n, r#"let r = loop { break obj!{"a" => 1, "b" => "s"}; };"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r; r = obj!{"a" => 1, "b" => "s"};
            check(n, r#"let r; r = obj!{"a" => 1, "b" => "s"};"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = Some(obj!{"a" => 1, "b" => "s"}).unwrap();
            check(n, r#"let r = Some(obj!{"a" => 1, "b" => "s"}).unwrap();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = id((obj!{"a" => 1, "b" => "s"}));
            check(n, r#"let r = id((obj!{"a" => 1, "b" => "s"}));"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let f = || { return obj!{"a" => 1, "b" => "s"}; }; let r = f();
            check(n, r#"let f = || { return obj!{"a" => 1, "b" => "s"}; }; let r = f();"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = Box::new(obj!{"a" => 1, "b" => "s"}); let r = *r;
            check(n, r#"let r = Box::new(obj!{"a" => 1, "b" => "s"}); let r = *r;"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = obj!("a" => 1, "b" => 2,);
            check(n, r#"let r = obj!("a" => 1, "b" => 2,);"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(obj!("a" => 1, "b" => 2,));
            check(n, r#"let r = id(obj!("a" => 1, "b" => 2,));"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = { obj!("a" => 1, "b" => 2,) };
            check(n, r#"let r = { obj!("a" => 1, "b" => 2,) };"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = { let x = obj!("a" => 1, "b" => 2,); x };
            check(n, r#"let r = { let x = obj!("a" => 1, "b" => 2,); x };"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = match 1 { 1 => obj!("a" => 1, "b" => 2,), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!("a" => 1, "b" => 2,), _ => panic!() };"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = (|| obj!("a" => 1, "b" => 2,))();
            check(n, r#"let r = (|| obj!("a" => 1, "b" => 2,))();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = vec![obj!("a" => 1, "b" => 2,)].pop().unwrap();
            check(n, r#"let r = vec![obj!("a" => 1, "b" => 2,)].pop().unwrap();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = if true { obj!("a" => 1, "b" => 2,) } else { obj!("a" => 1, "b" => 2,) };
            check(n, r#"let r = if true { obj!("a" => 1, "b" => 2,) } else { obj!("a" => 1, "b" => 2,) };"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = (obj!("a" => 1, "b" => 2,), 1).0;
            check(n, r#"let r = (obj!("a" => 1, "b" => 2,), 1).0;"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Ok::<_, ()>(obj!("a" => 1, "b" => 2,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!("a" => 1, "b" => 2,)).unwrap();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Ok::<_, ()>(obj!("a" => 1, "b" => 2,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!("a" => 1, "b" => 2,)).unwrap();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = S { v: obj!("a" => 1, "b" => 2,) }.v;
            check(n, r#"let r = S { v: obj!("a" => 1, "b" => 2,) }.v;"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = [obj!("a" => 1, "b" => 2,)].into_iter().next().unwrap();
            check(n, r#"let r = [obj!("a" => 1, "b" => 2,)].into_iter().next().unwrap();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = loop { break obj!("a" => 1, "b" => 2,); };
            check(n, r#"let r = loop { break obj!("a" => 1, "b" => 2,); };"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r; r = obj!("a" => 1, "b" => 2,);
            check(n, r#"let r; r = obj!("a" => 1, "b" => 2,);"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Some(obj!("a" => 1, "b" => 2,)).unwrap();
            check(n, r#"let r = Some(obj!("a" => 1, "b" => 2,)).unwrap();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id((obj!("a" => 1, "b" => 2,)));
            check(n, r#"let r = id((obj!("a" => 1, "b" => 2,)));"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let f = || { return obj!("a" => 1, "b" => 2,); }; let r = f();
            check(n, r#"let f = || { return obj!("a" => 1, "b" => 2,); }; let r = f();"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Box::new(obj!("a" => 1, "b" => 2,)); let r = *r;
            check(n, r#"let r = Box::new(obj!("a" => 1, "b" => 2,)); let r = *r;"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = obj!{"a" => 1, "^" => over::Obj::empty()};
            check(n, r#"let r = obj!{"a" => 1, "^" => over::Obj::empty()};"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = id(obj!{"a" => 1, "^" => over::Obj::empty()});
            check(n, r#"let r = id(obj!{"a" => 1, "^" => over::Obj::empty()});"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = { obj!{"a" => 1, "^" => over::Obj::empty()} };
            check(n, r#"let r = { obj!{"a" => 1, "^" => over::Obj::empty()} };"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = { let x = obj!{"a" => 1, "^" => over::Obj::empty()}; x };
            check(n, r#"let r = { let x = obj!{"a" => 1, "^" => over::Obj::empty()}; x };"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = match 1 { 1 => obj!{"a" => 1, "^" => over::Obj::empty()}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => obj!{"a" => 1, "^" => over::Obj::empty()}, _ => panic!() };"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = (|| obj!{"a" => 1, "^" => over::Obj::empty()})();
            check(n, r#"let r = (|| obj!{"a" => 1, "^" => over::Obj::empty()})();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = vec![obj!{"a" => 1, "^" => over::Obj::empty()}].pop().unwrap();
            check(n, r#"let r = vec![obj!{"a" => 1, "^" => over::Obj::empty()}].pop().unwrap();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = if true { obj!{"a" => 1, "^" => over::Obj::empty()} } else { obj!{"a" => 1, "^" => over::Obj::empty()} };
            check(n, r#"let r = if true { obj!{"a" => 1, "^" => over::Obj::empty()} } else { obj!{"a" => 1, "^" => over::Obj::empty()} };"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = (obj!{"a" => 1, "^" => over::Obj::empty()}, 1).0;
            check(n, r#"let r = (obj!{"a" => 1, "^" => over::Obj::empty()}, 1).0;"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = Ok::<_, ()>(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = S { v: obj!{"a" => 1, "^" => over::Obj::empty()} }.v;
            check(n, r#"let r = S { v: obj!{"a" => 1, "^" => over::Obj::empty()} }.v;"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = [obj!{"a" => 1, "^" => over::Obj::empty()}].into_iter().next().unwrap();
            check(n, r#"let r = [obj!{"a" => 1, "^" => over::Obj::empty()}].into_iter().next().unwrap();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = loop { break obj!{"a" => 1, "^" => over::Obj::empty()}; };
            check(n, r#"let r = loop { break obj!{"a" => 1, "^" => over::Obj::empty()}; };"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r; r = obj!{"a" => 1, "^" => over::Obj::empty()};
            check(n, r#"let r; r = obj!{"a" => 1, "^" => over::Obj::empty()};"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = Some(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();
            check(n, r#"let r = Some(obj!{"a" => 1, "^" => over::Obj::empty()}).unwrap();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = id((obj!{"a" => 1, "^" => over::Obj::empty()}));
            check(n, r#"let r = id((obj!{"a" => 1, "^" => over::Obj::empty()}));"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let f = || { return obj!{"a" => 1, "^" => over::Obj::empty()}; }; let r = f();
            check(n, r#"let f = || { return obj!{"a" => 1, "^" => over::Obj::empty()}; }; let r = f();"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = Box::new(obj!{"a" => 1, "^" => over::Obj::empty()}); let r = *r;
            check(n, r#"let r = Box::new(obj!{"a" => 1, "^" => over::Obj::empty()}); let r = *r;"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
    }
}
mod alone_try_arr {
    use super::{check, id, S, Value};
    use over::try_arr;
    pub fn all(n: &mut usize) {
        {
            let r = try_arr![1];
            check(n, r#"let r = try_arr![1];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(try_arr![1]);
            check(n, r#"let r = id(try_arr![1]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = { try_arr![1] };
            check(n, r#"let r = { try_arr![1] };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = { let x = try_arr![1]; x };
            check(n, r#"let r = { let x = try_arr![1]; x };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = match 1 { 1 => try_arr![1], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_arr![1], _ => panic!() };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = (|| try_arr![1])();
            check(n, r#"let r = (|| try_arr![1])();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = vec![try_arr![1]].pop().unwrap();
            check(n, r#"let r = vec![try_arr![1]].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = if true { try_arr![1] } else { try_arr![1] };
            check(n, r#"let r = if true { try_arr![1] } else { try_arr![1] };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = (try_arr![1], 1).0;
            check(n, r#"let r = (try_arr![1], 1).0;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = S { v: try_arr![1] }.v;
            check(n, r#"let r = S { v: try_arr![1] }.v;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = [try_arr![1]].into_iter().next().unwrap();
            check(n, r#"let r = [try_arr![1]].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = loop { break try_arr![1]; };
            check(n, r#"let r = loop { break try_arr![1]; };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r; r = try_arr![1];
            check(n, r#"let r; r = try_arr![1];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Some(try_arr![1]).unwrap();
            check(n, r#"let r = Some(try_arr![1]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id((try_arr![1]));
            check(n, r#"let r = id((try_arr![1]));"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let f = || { return try_arr![1]; }; let r = f();
            check(n, r#"let f = || { return try_arr![1]; }; let r = f();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Box::new(try_arr![1]); let r = *r;
            check(n, r#"let r = Box::new(try_arr![1]); let r = *r;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = try_arr![1,];
            check(n, r#"let r = try_arr![1,];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(try_arr![1,]);
            check(n, r#"let r = id(try_arr![1,]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = { try_arr![1,] };
            check(n, r#"let r = { try_arr![1,] };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = { let x = try_arr![1,]; x };
            check(n, r#"let r = { let x = try_arr![1,]; x };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = match 1 { 1 => try_arr![1,], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_arr![1,], _ => panic!() };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = (|| try_arr![1,])();
            check(n, r#"let r = (|| try_arr![1,])();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = vec![try_arr![1,]].pop().unwrap();
            check(n, r#"let r = vec![try_arr![1,]].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = if true { try_arr![1,] } else { try_arr![1,] };
            check(n, r#"let r = if true { try_arr![1,] } else { try_arr![1,] };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = (try_arr![1,], 1).0;
            check(n, r#"let r = (try_arr![1,], 1).0;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = S { v: try_arr![1,] }.v;
            check(n, r#"let r = S { v: try_arr![1,] }.v;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = [try_arr![1,]].into_iter().next().unwrap();
            check(n, r#"let r = [try_arr![1,]].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = loop { break try_arr![1,]; };
            check(n, r#"let r = loop { break try_arr![1,]; };"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r; r = try_arr![1,];
            check(n, r#"let r; r = try_arr![1,];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Some(try_arr![1,]).unwrap();
            check(n, r#"let r = Some(try_arr![1,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id((try_arr![1,]));
            check(n, r#"let r = id((try_arr![1,]));"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let f = || { return try_arr![1,]; }; let r = f();
            check(n, r#"let f = || { return try_arr![1,]; }; let r = f();"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = Box::new(try_arr![1,]); let r = *r;
            check(n, r#"let r = Box::new(try_arr![1,]); let r = *r;"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = try_arr![1, 2];
            check(n, r#"let r = try_arr![1, 2];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(try_arr![1, 2]);
            check(n, r#"let r = id(try_arr![1, 2]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = { try_arr![1, 2] };
            check(n, r#"let r = { try_arr![1, 2] };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = { let x = try_arr![1, 2]; x };
            check(n, r#"let r = { let x = try_arr![1, 2]; x };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = match 1 { 1 => try_arr![1, 2], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_arr![1, 2], _ => panic!() };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = (|| try_arr![1, 2])();
            check(n, r#"let r = (|| try_arr![1, 2])();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = vec![try_arr![1, 2]].pop().unwrap();
            check(n, r#"let r = vec![try_arr![1, 2]].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = if true { try_arr![1, 2] } else { try_arr![1, 2] };
            check(n, r#"let r = if true { try_arr![1, 2] } else { try_arr![1, 2] };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = (try_arr![1, 2], 1).0;
            check(n, r#"let r = (try_arr![1, 2], 1).0;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1, 2]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1, 2]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1, 2]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1, 2]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = S { v: try_arr![1, 2] }.v;
            check(n, r#"let r = S { v: try_arr![1, 2] }.v;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = [try_arr![1, 2]].into_iter().next().unwrap();
            check(n, r#"let r = [try_arr![1, 2]].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = loop { break try_arr![1, 2]; };
            check(n, r#"let r = loop { break try_arr![1, 2]; };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r; r = try_arr![1, 2];
            check(n, r#"let r; r = try_arr![1, 2];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Some(try_arr![1, 2]).unwrap();
            check(n, r#"let r = Some(try_arr![1, 2]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id((try_arr![1, 2]));
            check(n, r#"let r = id((try_arr![1, 2]));"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let f = || { return try_arr![1, 2]; }; let r = f();
            check(n, r#"let f = || { return try_arr![1, 2]; }; let r = f();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Box::new(try_arr![1, 2]); let r = *r;
            check(n, r#"let r = Box::new(try_arr![1, 2]); let r = *r;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = try_arr![1, 2,];
            check(n, r#"let r = try_arr![1, 2,];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(try_arr![1, 2,]);
            check(n, r#"let r = id(try_arr![1, 2,]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = { try_arr![1, 2,] };
            check(n, r#"let r = { try_arr![1, 2,] };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = { let x = try_arr![1, 2,]; x };
            check(n, r#"let r = { let x = try_arr![1, 2,]; x };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = match 1 { 1 => try_arr![1, 2,], _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_arr![1, 2,], _ => panic!() };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = (|| try_arr![1, 2,])();
            check(n, r#"let r = (|| try_arr![1, 2,])();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = vec![try_arr![1, 2,]].pop().unwrap();
            check(n, r#"let r = vec![try_arr![1, 2,]].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = if true { try_arr![1, 2,] } else { try_arr![1, 2,] };
            check(n, r#"let r = if true { try_arr![1, 2,] } else { try_arr![1, 2,] };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = (try_arr![1, 2,], 1).0;
            check(n, r#"let r = (try_arr![1, 2,], 1).0;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1, 2,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1, 2,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Ok::<_, ()>(try_arr![1, 2,]).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_arr![1, 2,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = S { v: try_arr![1, 2,] }.v;
            check(n, r#"let r = S { v: try_arr![1, 2,] }.v;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = [try_arr![1, 2,]].into_iter().next().unwrap();
            check(n, r#"let r = [try_arr![1, 2,]].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = loop { break try_arr![1, 2,]; };
            check(n, r#"let r = loop { break try_arr![1, 2,]; };"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r; r = try_arr![1, 2,];
            check(n, r#"let r; r = try_arr![1, 2,];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Some(try_arr![1, 2,]).unwrap();
            check(n, r#"let r = Some(try_arr![1, 2,]).unwrap();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id((try_arr![1, 2,]));
            check(n, r#"let r = id((try_arr![1, 2,]));"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let f = || { return try_arr![1, 2,]; }; let r = f();
            check(n, r#"let f = || { return try_arr![1, 2,]; }; let r = f();"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = Box::new(try_arr![1, 2,]); let r = *r;
            check(n, r#"let r = Box::new(try_arr![1, 2,]); let r = *r;"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
    }
}
mod alone_try_obj {
    use super::{check, id, S, Value};
    use over::try_obj;
    pub fn all(n: &mut usize) {
        {
            let r = try_obj!{"a" => 1};
            check(n, r#"let r = try_obj!{"a" => 1};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(try_obj!{"a" => 1});
            check(n, r#"let r = id(try_obj!{"a" => 1});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = { try_obj!{"a" => 1} };
            check(n, r#"let r = { try_obj!{"a" => 1} };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = { let x = try_obj!{"a" => 1}; x };
            check(n, r#"let r = { let x = try_obj!{"a" => 1}; x };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = match 1 { 1 => try_obj!{"a" => 1}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_obj!{"a" => 1}, _ => panic!() };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = (|| try_obj!{"a" => 1})();
            check(n, r#"let r = (|| try_obj!{"a" => 1})();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = vec![try_obj!{"a" => 1}].pop().unwrap();
            check(n, r#"let r = vec![try_obj!{"a" => 1}].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = if true { try_obj!{"a" => 1} } else { try_obj!{"a" => 1} };
            check(n, r#"let r = if true { try_obj!{"a" => 1} } else { try_obj!{"a" => 1} };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = (try_obj!{"a" => 1}, 1).0;
            check(n, r#"let r = (try_obj!{"a" => 1}, 1).0;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = S { v: try_obj!{"a" => 1} }.v;
            check(n, r#"let r = S { v: try_obj!{"a" => 1} }.v;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = [try_obj!{"a" => 1}].into_iter().next().unwrap();
            check(n, r#"let r = [try_obj!{"a" => 1}].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = loop { break try_obj!{"a" => 1}; };
            check(n, r#"let r = loop { break try_obj!{"a" => 1}; };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r; r = try_obj!{"a" => 1};
            check(n, r#"let r; r = try_obj!{"a" => 1};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Some(try_obj!{"a" => 1}).unwrap();
            check(n, r#"let r = Some(try_obj!{"a" => 1}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id((try_obj!{"a" => 1}));
            check(n, r#"let r = id((try_obj!{"a" => 1}));"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let f = || { return try_obj!{"a" => 1}; }; let r = f();
            check(n, r#"let f = || { return try_obj!{"a" => 1}; }; let r = f();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Box::new(try_obj!{"a" => 1}); let r = *r;
            check(n, r#"let r = Box::new(try_obj!{"a" => 1}); let r = *r;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = try_obj!{"a" => 1,};
            check(n, r#"let r = try_obj!{"a" => 1,};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(try_obj!{"a" => 1,});
            check(n, r#"let r = id(try_obj!{"a" => 1,});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = { try_obj!{"a" => 1,} };
            check(n, r#"let r = { try_obj!{"a" => 1,} };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = { let x = try_obj!{"a" => 1,}; x };
            check(n, r#"let r = { let x = try_obj!{"a" => 1,}; x };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = match 1 { 1 => try_obj!{"a" => 1,}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_obj!{"a" => 1,}, _ => panic!() };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = (|| try_obj!{"a" => 1,})();
            check(n, r#"let r = (|| try_obj!{"a" => 1,})();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = vec![try_obj!{"a" => 1,}].pop().unwrap();
            check(n, r#"let r = vec![try_obj!{"a" => 1,}].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = if true { try_obj!{"a" => 1,} } else { try_obj!{"a" => 1,} };
            check(n, r#"let r = if true { try_obj!{"a" => 1,} } else { try_obj!{"a" => 1,} };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = (try_obj!{"a" => 1,}, 1).0;
            check(n, r#"let r = (try_obj!{"a" => 1,}, 1).0;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = S { v: try_obj!{"a" => 1,} }.v;
            check(n, r#"let r = S { v: try_obj!{"a" => 1,} }.v;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = [try_obj!{"a" => 1,}].into_iter().next().unwrap();
            check(n, r#"let r = [try_obj!{"a" => 1,}].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = loop { break try_obj!{"a" => 1,}; };
            check(n, r#"let r = loop { break try_obj!{"a" => 1,}; };"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r; r = try_obj!{"a" => 1,};
            check(n, r#"let r; r = try_obj!{"a" => 1,};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Some(try_obj!{"a" => 1,}).unwrap();
            check(n, r#"let r = Some(try_obj!{"a" => 1,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id((try_obj!{"a" => 1,}));
            check(n, r#"let r = id((try_obj!{"a" => 1,}));"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let f = || { return try_obj!{"a" => 1,}; }; let r = f();
            check(n, r#"let f = || { return try_obj!{"a" => 1,}; }; let r = f();"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = Box::new(try_obj!{"a" => 1,}); let r = *r;
            check(n, r#"let r = Box::new(try_obj!{"a" => 1,}); let r = *r;"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = try_obj!{"a" => 1, "b" => 2};
            check(n, r#"let r = try_obj!{"a" => 1, "b" => 2};"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(try_obj!{"a" => 1, "b" => 2});
            check(n, r#"let r = id(try_obj!{"a" => 1, "b" => 2});"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = { try_obj!{"a" => 1, "b" => 2} };
            check(n, r#"let r = { try_obj!{"a" => 1, "b" => 2} };"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = { let x = try_obj!{"a" => 1, "b" => 2}; x };
            check(n, r#"let r = { let x = try_obj!{"a" => 1, "b" => 2}; x };"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = match 1 { 1 => try_obj!{"a" => 1, "b" => 2}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_obj!{"a" => 1, "b" => 2}, _ => panic!() };"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = (|| try_obj!{"a" => 1, "b" => 2})();
            check(n, r#"let r = (|| try_obj!{"a" => 1, "b" => 2})();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = vec![try_obj!{"a" => 1, "b" => 2}].pop().unwrap();
            check(n, r#"let r = vec![try_obj!{"a" => 1, "b" => 2}].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = if true { try_obj!{"a" => 1, "b" => 2} } else { try_obj!{"a" => 1, "b" => 2} };
            check(n, r#"let r = if true { try_obj!{"a" => 1, "b" => 2} } else { try_obj!{"a" => 1, "b" => 2} };"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = (try_obj!{"a" => 1, "b" => 2}, 1).0;
            check(n, r#"let r = (try_obj!{"a" => 1, "b" => 2}, 1).0;"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1, "b" => 2}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1, "b" => 2}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"a" => 1, "b" => 2}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"a" => 1, "b" => 2}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = S { v: try_obj!{"a" => 1, "b" => 2} }.v;
            check(n, r#"let r = S { v: try_obj!{"a" => 1, "b" => 2} }.v;"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = [try_obj!{"a" => 1, "b" => 2}].into_iter().next().unwrap();
            check(n, r#"let r = [try_obj!{"a" => 1, "b" => 2}].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = loop { break try_obj!{"a" => 1, "b" => 2}; };
            check(n, r#"let r = loop { break try_obj!{"a" => 1, "b" => 2}; };"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r; r = try_obj!{"a" => 1, "b" => 2};
            check(n, r#"let r; r = try_obj!{"a" => 1, "b" => 2};"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Some(try_obj!{"a" => 1, "b" => 2}).unwrap();
            check(n, r#"let r = Some(try_obj!{"a" => 1, "b" => 2}).unwrap();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id((try_obj!{"a" => 1, "b" => 2}));
            check(n, r#"let r = id((try_obj!{"a" => 1, "b" => 2}));"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let f = || { return try_obj!{"a" => 1, "b" => 2}; }; let r = f();
            check(n, r#"let f = || { return try_obj!{"a" => 1, "b" => 2}; }; let r = f();"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = Box::new(try_obj!{"a" => 1, "b" => 2}); let r = *r;
            check(n, r#"let r = Box::new(try_obj!{"a" => 1, "b" => 2}); let r = *r;"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};
            check(n, r#"let r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = id(try_obj!{"^" => over::Obj::empty(), "b" => 2,});
            check(n, r#"let r = id(try_obj!{"^" => over::Obj::empty(), "b" => 2,});"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = { try_obj!{"^" => over::Obj::empty(), "b" => 2,} };
            check(n, r#"let r = { try_obj!{"^" => over::Obj::empty(), "b" => 2,} };"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = { let x = try_obj!{"^" => over::Obj::empty(), "b" => 2,}; x };
            check(n, r#"let r = { let x = try_obj!{"^" => over::Obj::empty(), "b" => 2,}; x };"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = match 1 { 1 => try_obj!{"^" => over::Obj::empty(), "b" => 2,}, _ => panic!() };
            check(n, r#"let r = match 1 { 1 => try_obj!{"^" => over::Obj::empty(), "b" => 2,}, _ => panic!() };"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = (|| try_obj!{"^" => over::Obj::empty(), "b" => 2,})();
            check(n, r#"let r = (|| try_obj!{"^" => over::Obj::empty(), "b" => 2,})();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = vec![try_obj!{"^" => over::Obj::empty(), "b" => 2,}].pop().unwrap();
            check(n, r#"let r = vec![try_obj!{"^" => over::Obj::empty(), "b" => 2,}].pop().unwrap();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = if true { try_obj!{"^" => over::Obj::empty(), "b" => 2,} } else { try_obj!{"^" => over::Obj::empty(), "b" => 2,} };
            check(n, r#"let r = if true { try_obj!{"^" => over::Obj::empty(), "b" => 2,} } else { try_obj!{"^" => over::Obj::empty(), "b" => 2,} };"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = (try_obj!{"^" => over::Obj::empty(), "b" => 2,}, 1).0;
            check(n, r#"let r = (try_obj!{"^" => over::Obj::empty(), "b" => 2,}, 1).0;"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = Ok::<_, ()>(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();
            check(n, r#"let r = Ok::<_, ()>(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = S { v: try_obj!{"^" => over::Obj::empty(), "b" => 2,} }.v;
            check(n, r#"let r = S { v: try_obj!{"^" => over::Obj::empty(), "b" => 2,} }.v;"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = [try_obj!{"^" => over::Obj::empty(), "b" => 2,}].into_iter().next().unwrap();
            check(n, r#"let r = [try_obj!{"^" => over::Obj::empty(), "b" => 2,}].into_iter().next().unwrap();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = loop { break try_obj!{"^" => over::Obj::empty(), "b" => 2,}; };
            check(n, r#"let r = loop { break try_obj!{"^" => over::Obj::empty(), "b" => 2,}; };"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r; r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};
            check(n, r#"let r; r = try_obj!{"^" => over::Obj::empty(), "b" => 2,};"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = Some(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();
            check(n, r#"let r = Some(try_obj!{"^" => over::Obj::empty(), "b" => 2,}).unwrap();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = id((try_obj!{"^" => over::Obj::empty(), "b" => 2,}));
            check(n, r#"let r = id((try_obj!{"^" => over::Obj::empty(), "b" => 2,}));"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let f = || { return try_obj!{"^" => over::Obj::empty(), "b" => 2,}; }; let r = f();
            check(n, r#"let f = || { return try_obj!{"^" => over::Obj::empty(), "b" => 2,}; }; let r = f();"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = Box::new(try_obj!{"^" => over::Obj::empty(), "b" => 2,}); let r = *r;
            check(n, r#"let r = Box::new(try_obj!{"^" => over::Obj::empty(), "b" => 2,}); let r = *r;"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
    }
}
mod alone_tup {
    use super::{check, id, S, Value};
    use over::tup;
    pub fn all(n: &mut usize) {
        {
            let r = tup!();
            check(n, r#"let r = tup!();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = id(tup!());
            check(n, r#"let r = id(tup!());"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = { tup!() };
            check(n, r#"let r = { tup!() };"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = { let x = tup!(); x };
            check(n, r#"let r = { let x = tup!(); x };"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = match 1 { 1 => tup!(), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => tup!(), _ => panic!() };"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = (|| tup!())();
            check(n, r#"let r = (|| tup!())();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = vec![tup!()].pop().unwrap();
            check(n, r#"let r = vec![tup!()].pop().unwrap();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = if true { tup!() } else { tup!() };
            check(n, r#"let r = if true { tup!() } else { tup!() };"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = (tup!(), 1).0;
            check(n, r#"let r = (tup!(), 1).0;"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = Ok::<_, ()>(tup!()).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!()).unwrap();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = Ok::<_, ()>(tup!()).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!()).unwrap();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = S { v: tup!() }.v;
            check(n, r#"let r = S { v: tup!() }.v;"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = [tup!()].into_iter().next().unwrap();
            check(n, r#"let r = [tup!()].into_iter().next().unwrap();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = loop { break tup!(); };
            check(n, r#"let r = loop { break tup!(); };"#, Value::from(r), r#"x:()"#);
        }
        {
            let r; r = tup!();
            check(n, r#"let r; r = tup!();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = Some(tup!()).unwrap();
            check(n, r#"let r = Some(tup!()).unwrap();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = id((tup!()));
            check(n, r#"let r = id((tup!()));"#, Value::from(r), r#"x:()"#);
        }
        {
            let f = || { return tup!(); }; let r = f();
            check(n, r#"let f = || { return tup!(); }; let r = f();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = Box::new(tup!()); let r = *r;
            check(n, r#"let r = Box::new(tup!()); let r = *r;"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = tup!(1);
            check(n, r#"let r = tup!(1);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(tup!(1));
            check(n, r#"let r = id(tup!(1));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = { tup!(1) };
            check(n, r#"let r = { tup!(1) };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = { let x = tup!(1); x };
            check(n, r#"let r = { let x = tup!(1); x };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = match 1 { 1 => tup!(1), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => tup!(1), _ => panic!() };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = (|| tup!(1))();
            check(n, r#"let r = (|| tup!(1))();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = vec![tup!(1)].pop().unwrap();
            check(n, r#"let r = vec![tup!(1)].pop().unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = if true { tup!(1) } else { tup!(1) };
            check(n, r#"let r = if true { tup!(1) } else { tup!(1) };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = (tup!(1), 1).0;
            check(n, r#"let r = (tup!(1), 1).0;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = S { v: tup!(1) }.v;
            check(n, r#"let r = S { v: tup!(1) }.v;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = [tup!(1)].into_iter().next().unwrap();
            check(n, r#"let r = [tup!(1)].into_iter().next().unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = loop { break tup!(1); };
            check(n, r#"let r = loop { break tup!(1); };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r; r = tup!(1);
            check(n, r#"let r; r = tup!(1);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Some(tup!(1)).unwrap();
            check(n, r#"let r = Some(tup!(1)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id((tup!(1)));
            check(n, r#"let r = id((tup!(1)));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let f = || { return tup!(1); }; let r = f();
            check(n, r#"let f = || { return tup!(1); }; let r = f();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Box::new(tup!(1)); let r = *r;
            check(n, r#"let r = Box::new(tup!(1)); let r = *r;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = tup!(1,);
            check(n, r#"let r = tup!(1,);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(tup!(1,));
            check(n, r#"let r = id(tup!(1,));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = { tup!(1,) };
            check(n, r#"let r = { tup!(1,) };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = { let x = tup!(1,); x };
            check(n, r#"let r = { let x = tup!(1,); x };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = match 1 { 1 => tup!(1,), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => tup!(1,), _ => panic!() };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = (|| tup!(1,))();
            check(n, r#"let r = (|| tup!(1,))();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = vec![tup!(1,)].pop().unwrap();
            check(n, r#"let r = vec![tup!(1,)].pop().unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = if true { tup!(1,) } else { tup!(1,) };
            check(n, r#"let r = if true { tup!(1,) } else { tup!(1,) };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = (tup!(1,), 1).0;
            check(n, r#"let r = (tup!(1,), 1).0;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1,)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1,)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = S { v: tup!(1,) }.v;
            check(n, r#"let r = S { v: tup!(1,) }.v;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = [tup!(1,)].into_iter().next().unwrap();
            check(n, r#"let r = [tup!(1,)].into_iter().next().unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = loop { break tup!(1,); };
            check(n, r#"let r = loop { break tup!(1,); };"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r; r = tup!(1,);
            check(n, r#"let r; r = tup!(1,);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Some(tup!(1,)).unwrap();
            check(n, r#"let r = Some(tup!(1,)).unwrap();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id((tup!(1,)));
            check(n, r#"let r = id((tup!(1,)));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let f = || { return tup!(1,); }; let r = f();
            check(n, r#"let f = || { return tup!(1,); }; let r = f();"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = Box::new(tup!(1,)); let r = *r;
            check(n, r#"let r = Box::new(tup!(1,)); let r = *r;"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = tup!(1, "s");
            check(n, r#"let r = tup!(1, "s");"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = id(tup!(1, "s"));
            check(n, r#"let r = id(tup!(1, "s"));"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = { tup!(1, "s") };
            check(n, r#"let r = { tup!(1, "s") };"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = { let x = tup!(1, "s"); x };
            check(n, r#"let r = { let x = tup!(1, "s"); x };"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = match 1 { 1 => tup!(1, "s"), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => tup!(1, "s"), _ => panic!() };"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = (|| tup!(1, "s"))();
            check(n, r#"let r = (|| tup!(1, "s"))();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = vec![tup!(1, "s")].pop().unwrap();
            check(n, r#"let r = vec![tup!(1, "s")].pop().unwrap();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = if true { tup!(1, "s") } else { tup!(1, "s") };
            check(n, r#"let r = if true { tup!(1, "s") } else { tup!(1, "s") };"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = (tup!(1, "s"), 1).0;
            check(n, r#"let r = (tup!(1, "s"), 1).0;"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1, "s")).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1, "s")).unwrap();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1, "s")).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1, "s")).unwrap();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = S { v: tup!(1, "s") }.v;
            check(n, r#"let r = S { v: tup!(1, "s") }.v;"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = [tup!(1, "s")].into_iter().next().unwrap();
            check(n, r#"let r = [tup!(1, "s")].into_iter().next().unwrap();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = loop { break tup!(1, "s"); };
            check(n, r#"let r = loop { break tup!(1, "s"); };"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r; r = tup!(1, "s");
            check(n, r#"let r; r = tup!(1, "s");"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = Some(tup!(1, "s")).unwrap();
            check(n, r#"let r = Some(tup!(1, "s")).unwrap();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = id((tup!(1, "s")));
            check(n, r#"let r = id((tup!(1, "s")));"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let f = || { return tup!(1, "s"); }; let r = f();
            check(n, r#"let f = || { return tup!(1, "s"); }; let r = f();"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = Box::new(tup!(1, "s")); let r = *r;
            check(n, r#"let r = Box::new(tup!(1, "s")); let r = *r;"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = tup!(1, true,);
            check(n, r#"let r = tup!(1, true,);"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = id(tup!(1, true,));
            check(n, r#"let r = id(tup!(1, true,));"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = { tup!(1, true,) };
            check(n, r#"let r = { tup!(1, true,) };"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = { let x = tup!(1, true,); x };
            check(n, r#"let r = { let x = tup!(1, true,); x };"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = match 1 { 1 => tup!(1, true,), _ => panic!() };
            check(n, r#"let r = match 1 { 1 => tup!(1, true,), _ => panic!() };"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = (|| tup!(1, true,))();
            check(n, r#"let r = (|| tup!(1, true,))();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = vec![tup!(1, true,)].pop().unwrap();
            check(n, r#"let r = vec![tup!(1, true,)].pop().unwrap();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = if true { tup!(1, true,) } else { tup!(1, true,) };
            check(n, r#"let r = if true { tup!(1, true,) } else { tup!(1, true,) };"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = (tup!(1, true,), 1).0;
            check(n, r#"let r = (tup!(1, true,), 1).0;"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1, true,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1, true,)).unwrap();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = Ok::<_, ()>(tup!(1, true,)).unwrap();
            check(n, r#"let r = Ok::<_, ()>(tup!(1, true,)).unwrap();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = S { v: tup!(1, true,) }.v;
            check(n, r#"let r = S { v: tup!(1, true,) }.v;"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = [tup!(1, true,)].into_iter().next().unwrap();
            check(n, r#"let r = [tup!(1, true,)].into_iter().next().unwrap();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = loop { break tup!(1, true,); };
            check(n, r#"let r = loop { break tup!(1, true,); };"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r; r = tup!(1, true,);
            check(n, r#"let r; r = tup!(1, true,);"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = Some(tup!(1, true,)).unwrap();
            check(n, r#"let r = Some(tup!(1, true,)).unwrap();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = id((tup!(1, true,)));
            check(n, r#"let r = id((tup!(1, true,)));"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let f = || { return tup!(1, true,); }; let r = f();
            check(n, r#"let f = || { return tup!(1, true,); }; let r = f();"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = Box::new(tup!(1, true,)); let r = *r;
            check(n, r#"let r = Box::new(tup!(1, true,)); let r = *r;"#, Value::from(r), r#"x:(1 true)"#);
        }
    }
}
mod path_arr {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::arr![];
            check(n, r#"let r = over::arr![];"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = id(over::arr![]);
            check(n, r#"let r = id(over::arr![]);"#, Value::from(r), r#"x:[]"#);
        }
        {
            let r = over::arr![1];
            check(n, r#"let r = over::arr![1];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(over::arr![1]);
            check(n, r#"let r = id(over::arr![1]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = over::arr![1,];
            check(n, r#"let r = over::arr![1,];"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = id(over::arr![1,]);
            check(n, r#"let r = id(over::arr![1,]);"#, Value::from(r), r#"x:[1]"#);
        }
        {
            let r = over::arr![1, 2];
            check(n, r#"let r = over::arr![1, 2];"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = id(over::arr![1, 2]);
            check(n, r#"let r = id(over::arr![1, 2]);"#, Value::from(r), r#"x:[1 2]"#);
        }
        {
            let r = over::arr!["a", "b",];
            check(n, r#"let r = over::arr!["a", "b",];"#, Value::from(r), r#"x:["a" "b"]"#);
        }
        {
            let r = id(over::arr!["a", "b",]);
            check(n, r#"let r = id(over::arr!["a", "b",]);"#, Value::from(r), r#"x:["a" "b"]"#);
        }
    }
}
mod path_frac {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::frac!(1, 2);
            check(n, r#"let r = over::frac!(1, 2);"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = id(over::frac!(1, 2));
            check(n, r#"let r = id(over::frac!(1, 2));"#, Value::from(r), r#"x:1/2"#);
        }
        {
            let r = over::frac!(-4, 6);
            check(n, r#"let r = over::frac!(-4, 6);"#, Value::from(r), r#"x:-2/3"#);
        }
        {
            let r = id(over::frac!(-4, 6));
            check(n, r#"let r = id(over::frac!(-4, 6));"#, Value::from(r), r#"x:-2/3"#);
        }
    }
}
mod path_int {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::int!(5);
            check(n, r#"let r = over::int!(5);"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = id(over::int!(5));
            check(n, r#"let r = id(over::int!(5));"#, Value::from(r), r#"x:5"#);
        }
        {
            let r = over::int!(-5i64);
            check(n, r#"let r = over::int!(-5i64);"#, Value::from(r), r#"x:-5"#);
        }
        {
            let r = id(over::int!(-5i64));
            check(n, r#"let r = id(over::int!(-5i64));"#, Value::from(r), r#"x:-5"#);
        }
    }
}
mod path_obj {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::obj!{};
            check(n, r#"let r = over::obj!{};"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = id(over::obj!{});
            check(n, r#"let r = id(over::obj!{});"#, Value::from(r), r#"x:{}"#);
        }
        {
            let r = over::obj!{"a" => 1};
            check(n, r#"let r = over::obj!{"a" => 1};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(over::obj!{"a" => 1});
            check(n, r#"let r = id(over::obj!{"a" => 1});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = over::obj!{"a" => 1,};
            check(n, r#"let r = over::obj!{"a" => 1,};"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = id(over::obj!{"a" => 1,});
            check(n, r#"let r = id(over::obj!{"a" => 1,});"#, Value::from(r), r#"x:{a:1}"#);
        }
        {
            let r = over::obj!{"a" => 1, "b" => "s"};
            check(n, r#"let r = over::obj!{"a" => 1, "b" => "s"};"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = id(over::obj!{"a" => 1, "b" => "s"});
            check(n, r#"let r = id(over::obj!{"a" => 1, "b" => "s"});"#, Value::from(r), r#"x:{a:1 b:"s"}"#);
        }
        {
            let r = over::obj!("a" => 1, "b" => 2,);
            check(n, r#"let r = over::obj!("a" => 1, "b" => 2,);"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(over::obj!("a" => 1, "b" => 2,));
            check(n, r#"let r = id(over::obj!("a" => 1, "b" => 2,));"#, Value::from(r), r#"x:{a:1 b:2}"#);
        }
        {
            let r = over::obj!{"a" => 1, "^" => over::Obj::empty()};
            check(n, r#"let r = over::obj!{"a" => 1, "^" => over::Obj::empty()};"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
        {
            let r = id(over::obj!{"a" => 1, "^" => over::Obj::empty()});
            check(n, r#"let r = id(over::obj!{"a" => 1, "^" => over::Obj::empty()});"#, Value::from(r), r#"x:{a:1 ^:{}}"#);
        }
    }
}
mod path_try_arr {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::try_arr![1];
            check(n, r#"let r = over::try_arr![1];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(over::try_arr![1]);
            check(n, r#"let r = id(over::try_arr![1]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = over::try_arr![1,];
            check(n, r#"let r = over::try_arr![1,];"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = id(over::try_arr![1,]);
            check(n, r#"let r = id(over::try_arr![1,]);"#, Value::from(r.unwrap()), r#"x:[1]"#);
        }
        {
            let r = over::try_arr![1, 2];
            check(n, r#"let r = over::try_arr![1, 2];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(over::try_arr![1, 2]);
            check(n, r#"let r = id(over::try_arr![1, 2]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = over::try_arr![1, 2,];
            check(n, r#"let r = over::try_arr![1, 2,];"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
        {
            let r = id(over::try_arr![1, 2,]);
            check(n, r#"let r = id(over::try_arr![1, 2,]);"#, Value::from(r.unwrap()), r#"x:[1 2]"#);
        }
    }
}
mod path_try_obj {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::try_obj!{"a" => 1};
            check(n, r#"let r = over::try_obj!{"a" => 1};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(over::try_obj!{"a" => 1});
            check(n, r#"let r = id(over::try_obj!{"a" => 1});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = over::try_obj!{"a" => 1,};
            check(n, r#"let r = over::try_obj!{"a" => 1,};"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = id(over::try_obj!{"a" => 1,});
            check(n, r#"let r = id(over::try_obj!{"a" => 1,});"#, Value::from(r.unwrap()), r#"x:{a:1}"#);
        }
        {
            let r = over::try_obj!{"a" => 1, "b" => 2};
            check(n, r#"let r = over::try_obj!{"a" => 1, "b" => 2};"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = id(over::try_obj!{"a" => 1, "b" => 2});
            check(n, r#"let r = id(over::try_obj!{"a" => 1, "b" => 2});"#, Value::from(r.unwrap()), r#"x:{a:1 b:2}"#);
        }
        {
            let r = over::try_obj!{"^" => over::Obj::empty(), "b" => 2,};
            check(n, r#"let r = over::try_obj!{"^" => over::Obj::empty(), "b" => 2,};"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
        {
            let r = id(over::try_obj!{"^" => over::Obj::empty(), "b" => 2,});
            check(n, r#"let r = id(over::try_obj!{"^" => over::Obj::empty(), "b" => 2,});"#, Value::from(r.unwrap()), r#"x:{b:2 ^:{}}"#);
        }
    }
}
mod path_tup {
    use super::{check, id, S, Value};
    pub fn all(n: &mut usize) {
        {
            let r = over::tup!();
            check(n, r#"let r = over::tup!();"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = id(over::tup!());
            check(n, r#"let r = id(over::tup!());"#, Value::from(r), r#"x:()"#);
        }
        {
            let r = over::tup!(1);
            check(n, r#"let r = over::tup!(1);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(over::tup!(1));
            check(n, r#"let r = id(over::tup!(1));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = over::tup!(1,);
            check(n, r#"let r = over::tup!(1,);"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = id(over::tup!(1,));
            check(n, r#"let r = id(over::tup!(1,));"#, Value::from(r), r#"x:(1)"#);
        }
        {
            let r = over::tup!(1, "s");
            check(n, r#"let r = over::tup!(1, "s");"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = id(over::tup!(1, "s"));
            check(n, r#"let r = id(over::tup!(1, "s"));"#, Value::from(r), r#"x:(1 "s")"#);
        }
        {
            let r = over::tup!(1, true,);
            check(n, r#"let r = over::tup!(1, true,);"#, Value::from(r), r#"x:(1 true)"#);
        }
        {
            let r = id(over::tup!(1, true,));
            check(n, r#"let r = id(over::tup!(1, true,));"#, Value::from(r), r#"x:(1 true)"#);
        }
    }
}
fn main() {
    let mut n = 0;
    alone_arr::all(&mut n);
    alone_frac::all(&mut n);
    alone_int::all(&mut n);
    alone_obj::all(&mut n);
    alone_try_arr::all(&mut n);
    alone_try_obj::all(&mut n);
    alone_tup::all(&mut n);
    path_arr::all(&mut n);
    path_frac::all(&mut n);
    path_int::all(&mut n);
    path_obj::all(&mut n);
    path_try_arr::all(&mut n);
    path_try_obj::all(&mut n);
    path_tup::all(&mut n);
    std::process::exit(if n > 0 { 1 } else { 0 });
}
