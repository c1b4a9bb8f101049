use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    let lib = format!("{out}/libref.a");
    let _ = std::fs::remove_file(&lib);
    for f in ["ref", "sched"] {
        println!("cargo:rerun-if-changed=cref/{f}.c");
        let obj = format!("{out}/{f}.o");
        let ok = Command::new("gcc")
            .args(["-O2", "-g", "-fPIC", "-Wall", "-c", &format!("cref/{f}.c"), "-o", &obj])
            .status()
            .expect("gcc")
            .success();
        assert!(ok, "gcc failed");
        assert!(Command::new("ar").args(["rcs", &lib, &obj]).status().expect("ar").success());
    }
    println!("cargo:rustc-link-arg-bins={lib}");
    println!("cargo:rustc-link-arg-bins=-lm");
}
