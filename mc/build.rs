//! The C++ interface, for the checks of it
use std::path::PathBuf;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_CXX").is_none() {
        return;
    }
    let repo = PathBuf::from("/repo");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let mut src: Vec<PathBuf> = vec![PathBuf::from("cxx/shim.cpp").canonicalize().unwrap()];
    let mut dirs = vec![repo.join("src/cxx")];
    while let Some(d) = dirs.pop() {
        println!("cargo:rerun-if-changed={}", d.display());
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                dirs.push(p);
            } else {
                println!("cargo:rerun-if-changed={}", p.display());
                if p.extension().map_or(false, |e| e == "cpp") {
                    src.push(p);
                }
            }
        }
    }
    println!("cargo:rerun-if-changed=cxx/shim.cpp");
    println!("cargo:rerun-if-changed=/repo/include");
    let mut objs = vec![];
    for (i, s) in src.iter().enumerate() {
        let o = out.join(format!("cxx{}.o", i));
        let st = Command::new("clang++")
            .args(["-std=c++14", "-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-Wno-unused-value", "-c", "-o"])
            .arg(&o)
            .arg("-I")
            .arg(repo.join("include"))
            .arg("-I")
            .arg(repo.join("src/cxx"))
            .arg(s)
            .status()
            .expect("clang++");
        assert!(st.success(), "cannot compile {}", s.display());
        objs.push(o);
    }
    let lib = out.join("libshim.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=shim");
    println!("cargo:rustc-link-lib=stdc++");
}
