use std::env;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=c/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{}/simrt.o", out);
    let lib = format!("{}/libsimrt_c.a", out);
    let ok = Command::new("gcc")
        .args(["-O2", "-g1", "-fPIC", "-fno-delete-null-pointer-checks", "-fno-builtin-memcpy", "-w", "-c", "c/simrt.c", "-o", &obj])
        .status().expect("gcc").success();
    assert!(ok, "gcc failed");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt_c");
    println!("cargo:rustc-link-lib=dylib=dl");
    println!("cargo:rustc-link-lib=dylib=pthread");
}
