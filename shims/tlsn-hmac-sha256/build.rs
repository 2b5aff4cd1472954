//! Brings the source of `crates/components/hmac-sha256` in reach: copied as it is, except that the inner attributes and the crate
//! documentation of its `lib.rs` are dropped, because that file is `include!`d into this crate.
use std::path::{Path, PathBuf};
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            std::fs::copy(&p, &t).unwrap();
        }
    }
}
fn main() {
    println!("cargo:rerun-if-env-changed=VX_REPO");
    let repo = std::env::var("VX_REPO").unwrap_or("/repo".into());
    let src = PathBuf::from(repo).join("crates/components/hmac-sha256/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("src");
    let _ = std::fs::remove_dir_all(&out);
    copy(&src, &out);
    let lib = std::fs::read_to_string(out.join("lib.rs")).unwrap();
    let lib: String = lib.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).map(|l| format!("{l}\n")).collect();
    std::fs::write(out.join("lib.rs"), lib).unwrap();
}
