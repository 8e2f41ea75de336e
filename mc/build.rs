use std::{env, path::PathBuf, process::Command};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let src = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("rt/mcrt.c");
    println!("cargo:rerun-if-changed={}", src.display());
    let obj = out.join("mcrt.o");
    let ok = Command::new("gcc").args(["-O2", "-g", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused-function", "-fno-stack-protector", "-c"]).arg(&src).arg("-o").arg(&obj).status().unwrap();
    assert!(ok.success());
    // passed as an object, so that the interposed libc functions and the __tsan_* functions are always linked
    println!("cargo:rustc-link-arg={}", obj.display());
}
