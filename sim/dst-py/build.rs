//! The simulated process embeds the Python interpreter.
fn main() {
    println!("cargo:rerun-if-changed=src/driver.py");
    println!("cargo:rustc-link-lib=dylib=python3.12");
}
