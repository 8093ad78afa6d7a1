use std::{env, path::PathBuf, process::Command};

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("rt.o");
    let status = Command::new("gcc")
        .args(["-O2", "-g0", "-Wall", "-fno-strict-aliasing", "-fPIC", "-c", "rt/rt.c", "-o"])
        .arg(&out)
        .status()
        .expect("gcc");
    assert!(status.success());
    println!("cargo:rustc-link-arg-bins={}", out.display());
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
