//! The C side of the harness is compiled against the header users of the C interface include.
fn main() {
    let header = "/repo/capi";
    println!("cargo:rerun-if-changed={header}/rustsat.h");
    println!("cargo:rerun-if-changed=src/caller.c");
    cc::Build::new().include(header).file("src/caller.c").opt_level(1).warnings(true).compile("caller");
}
