//! The derive macro's private varint module is included in the harness where
//! it still offers `PrefixVarint::encode_prefix_varint_vec` for `u16`.
use std::{env, fs, path::Path, process::Command};

fn main() {
    println!("cargo:rustc-check-cfg=cfg(derive_varint)");
    let src = Path::new(PATH);
    println!("cargo:rerun-if-changed={}", src.display());
    let out = env::var("OUT_DIR").unwrap();
    let code = match fs::read_to_string(&src) {
        Ok(c) => c,
        Err(_) => return,
    };
    let inc = format!("{}/derive_varint.rs", out);
    fs::write(&inc, &code).unwrap();
    let probe = format!("{}/probe.rs", out);
    fs::write(
        &probe,
        format!("mod m {{ include!({:?}); }} use m::PrefixVarint; pub fn f(n: u16) -> Vec<u8> {{ n.encode_prefix_varint_vec() }}", inc),
    )
    .unwrap();
    let ok = Command::new(env::var("RUSTC").unwrap())
        .args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings", "--out-dir", &out, &probe])
        .status()
        .map_or(false, |s| s.success());
    if ok {
        println!("cargo:rustc-cfg=derive_varint");
    }
}
const PATH: &str = "/repo/dlhn_derive/src/prefix_varint.rs";
