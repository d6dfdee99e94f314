#![allow(dead_code)]
#![allow(invalid_runtime_symbol_definitions)]
mod around;
mod builds;
mod cmp;
mod corpus;
mod docs;
mod engine;
mod faults;
mod interp;
mod laws;
mod mem;
mod model;
mod props_fs;
mod props_io;
mod props_ref;
mod props_res;
mod same;
mod says;
mod sched;
mod sizes;
mod props_more;
mod props_text;
mod props_text2;
mod props_val;
mod values;

use engine::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

pub fn props() -> Vec<fn() -> Prop> {
    vec![props_more::c01, props_val::c02, props_val::c03, props_text::c04, props_text::c05, props_text::c06, props_text::c07, props_text::c08, props_more::c09, props_val::c10, props_val::c11, props_fs::c12, props_fs::c13, props_fs::c14, props_io::c15, props_more::c16, props_text2::c17, props_ref::c18, props_val::c19, props_val::c20, props_text2::c21, props_text2::c22, props_val::c23, props_val::c24, sched::c25, props_ref::c26, props_res::c27, props_res::c28, says::c29, same::c30, same::c31, same::c32, laws::c33, laws::c34, laws::c35]
}
fn find(id: &str) -> Prop {
    for p in props() {
        let p = p();
        if p.id == id {
            return p;
        }
    }
    eprintln!("no property {}", id);
    std::process::exit(2)
}
fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    let code = match &s[1..] {
        ["check", id, t] => check(find(id), tier(t)),
        ["work", id, t, i, n, d] => work(find(id), tier(t), i.parse().unwrap(), n.parse().unwrap(), d),
        ["one", id, f, file] => one(find(id), f, file),
        ["replay", file] => {
            let t = String::from_utf8_lossy(&std::fs::read(file).unwrap()).into_owned();
            let get = |k: &str| t.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).unwrap();
            let body = &t[t.find("\ncase:\n").unwrap() + 7..];
            if get("family:") == "schedules" {
                std::process::exit(sched::replay(&get("property:"), body));
            }
            let f = std::env::temp_dir().join(format!("mcreplay.{}", std::process::id()));
            std::fs::write(&f, body).unwrap();
            let r = one(find(&get("property:")), &get("family:"), f.to_str().unwrap());
            let _ = std::fs::remove_file(&f);
            r
        }
        ["known", w] => props_more::known(w),
        ["list"] => {
            for p in props() {
                println!("{}", p().id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
