use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O2", "-Wall", "-c", "rt.c", "-o"]).arg(format!("{}/rt.o", out)).status().expect("gcc").success();
    assert!(ok);
    println!("cargo:rustc-link-arg={}/rt.o", out);
    println!("cargo:rustc-link-arg=-lpthread");
    println!("cargo:rerun-if-changed=rt.c");
}
