// Everything the simulated backend does not define itself resolves to the installed OpenBLAS.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-lib=openblas");
}
