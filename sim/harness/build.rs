use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/shim.o", out);
    let st = Command::new("gcc")
        .args(["-O1", "-fno-omit-frame-pointer", "-w", "-c", "shim.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={}", obj);
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=shim.c");
}
