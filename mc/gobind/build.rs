fn main() {
    println!("cargo:rustc-check-cfg=cfg(sds_verif)");
    println!("cargo:rustc-cfg=sds_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
