fn main() {
    // getrandom 0.4 finds `getrandom` with dlsym: the harness' definition must be visible to it.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}
