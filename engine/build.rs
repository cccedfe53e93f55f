fn main() {
    // Prefer the newer Z3 shipped with the Python tooling when present.
    let newer = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    let dir = std::env::var("SYMEX_Z3DIR").unwrap_or_else(|_| {
        if std::path::Path::new(newer).join("libz3.so").exists() { newer.to_string() } else { "/usr/lib/x86_64-linux-gnu".to_string() }
    });
    println!("cargo:rustc-link-search=native={}", dir);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
    println!("cargo:rerun-if-env-changed=SYMEX_Z3DIR");
    println!("cargo:rerun-if-changed=build.rs");
}
