fn main() {
    println!("cargo:rustc-check-cfg=cfg(cvcheck)");
    println!("cargo:rustc-cfg=cvcheck");
    println!("cargo:rerun-if-changed=build.rs");
}
