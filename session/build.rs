use std::{env, path::PathBuf, process::Command};

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("shim.so");
    let status = Command::new("gcc")
        .args(["-O2", "-g0", "-w", "-fno-strict-aliasing", "-shared", "-fPIC", "shim/shim.c", "-o"])
        .arg(&out)
        .status()
        .expect("gcc");
    assert!(status.success());
    println!("cargo:rustc-env=SHIM={}", out.display());
    println!("cargo:rerun-if-changed=shim/shim.c");
    println!("cargo:rerun-if-changed=build.rs");
}
