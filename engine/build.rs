fn main() {
    // newest libz3 available, with the system's as a fallback
    let newer = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var("NDX_OLD_Z3").is_err() && std::path::Path::new(newer).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={newer}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{newer}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-env-changed=NDX_OLD_Z3");
}
