// Turns the guarded hooks of /repo/src/bin.rs on for this package only.
fn main() {
    println!("cargo:rustc-check-cfg=cfg(dune_verif)");
    println!("cargo:rustc-cfg=dune_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
