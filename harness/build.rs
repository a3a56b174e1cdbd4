//! Two releases of neutron-sdk are linked here, and both export `requires_neutron`, an empty marker for the wasm build.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,--allow-multiple-definition");
}
