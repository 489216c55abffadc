fn main() {
    println!("cargo:rustc-env=KSIM_PROFILE={}", std::env::var("PROFILE").unwrap_or_default());
    println!("cargo:rerun-if-changed=build.rs");
}
