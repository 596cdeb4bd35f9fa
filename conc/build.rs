use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/rt.o", out);
    let ok = Command::new("gcc").args(["-O2", "-g", "-fno-sanitize=all", "-c", "rt/rt.c", "-o", &obj]).status().map(|s| s.success()).unwrap_or(false);
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg-bins={}", obj);
}
