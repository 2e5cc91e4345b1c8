use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=csrc/simrt.c");
    println!("cargo:rerun-if-changed=csrc/simrt.h");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("toolchain").success());
    run(Command::new("gcc").args(["-O2", "-g", "-fPIC", "-Wall", "-c", "csrc/simrt.c", "-o"]).arg(format!("{out}/simrt.o")));
    let lib = format!("{out}/libsimrt.a");
    let _ = std::fs::remove_file(&lib);
    run(Command::new("ar").arg("crs").arg(&lib).arg(format!("{out}/simrt.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
