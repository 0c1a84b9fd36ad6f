use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("compiler").success());
    run(Command::new("gcc").args(&["-O2", "-g", "-fPIC", "-c", "sched.c", "-o", &format!("{}/sched.o", out)]));
    let _ = std::fs::remove_file(format!("{}/libverifsched.a", out));
    run(Command::new("ar").args(&["rcs", &format!("{}/libverifsched.a", out), &format!("{}/sched.o", out)]));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=verifsched");
    println!("cargo:rerun-if-changed=sched.c");
}
