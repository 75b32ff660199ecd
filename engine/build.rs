// Links against the LLVM that rustc itself uses (so that the bitcode it emits is readable) and
// against the system Z3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let dir = format!("{root}/lib/rustlib/x86_64-unknown-linux-gnu/lib");
    let so = std::fs::read_dir(&dir)
        .unwrap()
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().to_string_lossy().to_string())
        .find(|n| n.starts_with("libLLVM.so."))
        .expect("libLLVM.so not found in the rustc sysroot (llvm-tools component)");
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-arg=-l:{so}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    println!("cargo:rustc-link-arg=-lz3");
    println!("cargo:rerun-if-changed=build.rs");
}
