fn main() {
    // entry points the canister does not have resolve to one address that is none's
    println!("cargo:rustc-link-arg-bins=-Wl,--unresolved-symbols=ignore-all");
    println!("cargo:rerun-if-changed=build.rs");
}
