use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/hooks.o");
    let ok = Command::new("gcc").args(["-O2", "-fno-builtin", "-fno-delete-null-pointer-checks", "-fPIC", "-w", "-c", "hooks.c", "-o", &obj]).status().unwrap().success();
    assert!(ok, "gcc hooks.c");
    println!("cargo:rustc-link-arg-bins={obj}");
    println!("cargo:rerun-if-changed=hooks.c");
    println!("cargo:rerun-if-changed=build.rs");
}
