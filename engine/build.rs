use std::process::Command;
fn main() {
    // libLLVM of the pinned toolchain (LLVM-C API), and the system libz3
    let rustc = std::env::var("RUSTC").unwrap();
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", root.trim());
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") {
            found = Some(n);
        }
    }
    let n = found.expect("libLLVM.so in the toolchain");
    println!("cargo:rustc-link-arg={}/{}", lib, n);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-lib=dylib=dl");
    println!("cargo:rerun-if-changed=build.rs");
}
