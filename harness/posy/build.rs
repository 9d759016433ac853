fn main() {
    println!("cargo:rustc-cfg=posy_verif");
    println!("cargo:rerun-if-changed=build.rs");
}
