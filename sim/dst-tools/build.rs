//! Compiles the simulated system interface that is loaded into the tools.
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=src/shim.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let so = format!("{out}/shim.so");
    let ok = Command::new("gcc")
        .args(["-O1", "-g", "-Wall", "-shared", "-fPIC", "-o", &so, "src/shim.c", "-ldl"])
        .status()
        .expect("gcc");
    assert!(ok.success(), "the shim does not compile");
    println!("cargo:rustc-env=SHIM={so}");
}
