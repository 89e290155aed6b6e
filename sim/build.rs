use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let mut objs = vec![];
    for f in ["simrt", "simdisk"] {
        let o = format!("{}/{}.o", out, f);
        let ok = Command::new("gcc")
            .args(["-O2", "-g", "-fPIC", "-Wall", "-Wno-misleading-indentation", "-c", &format!("rt/{}.c", f), "-o", &o])
            .status().expect("gcc").success();
        assert!(ok, "gcc failed");
        objs.push(o);
        println!("cargo:rerun-if-changed=rt/{}.c", f);
    }
    let lib = format!("{}/libsimrt.a", out);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rerun-if-changed=build.rs");
}
