fn main() {
    println!("cargo:rustc-check-cfg=cfg(vp_hooks, vp_tiny)");
    println!("cargo:rustc-cfg=vp_hooks");
    
    // a hash of the sources under test, from the driver: file times alone do not decide what is stale
    println!("cargo:rerun-if-env-changed=MC_SRC_HASH");
    println!("cargo:rustc-env=MC_SRC_HASH={}", std::env::var("MC_SRC_HASH").unwrap_or_default());
    println!("cargo:rerun-if-changed=build.rs");
}
