use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().unwrap().success());
    ok(Command::new("gcc").args(["-O1", "-c", "native.c", "-o"]).arg(format!("{out}/native.o")));
    let _ = std::fs::remove_file(format!("{out}/libsymrt_native.a"));
    ok(Command::new("ar").args(["crs"]).arg(format!("{out}/libsymrt_native.a")).arg(format!("{out}/native.o")));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symrt_native");
    println!("cargo:rerun-if-changed=native.c");
}
