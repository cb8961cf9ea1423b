// Compiles the reference implementation (C++ Boost.Polygon, a system header library) used as a
// differential oracle into a static library.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=cpp/reference.cpp");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("spawn").success(), "{:?} failed", c);
    run(Command::new("g++").args(["-O2", "-fPIC", "-std=c++17", "-w", "-c", "cpp/reference.cpp", "-o"]).arg(format!("{out}/reference.o")));
    run(Command::new("ar").args(["crs"]).arg(format!("{out}/libvfref.a")).arg(format!("{out}/reference.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=vfref");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
