//! Brings the part of `crates/tlsn` in reach that proves and verifies a transcript: the files listed in `lib.rs`, copied as they are.
//! `SessionKeys` is taken out of the source of `crates/mpc-tls`.
use std::path::{Path, PathBuf};
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            std::fs::copy(&p, &t).unwrap();
        }
    }
}
fn main() {
    println!("cargo:rerun-if-env-changed=VX_REPO");
    let repo = PathBuf::from(std::env::var("VX_REPO").unwrap_or("/repo".into()));
    let src = repo.join("crates/tlsn/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let mpc = repo.join("crates/mpc-tls/src/lib.rs");
    println!("cargo:rerun-if-changed={}", mpc.display());
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("src");
    let _ = std::fs::remove_dir_all(&out);
    copy(&src, &out);
    std::fs::write(out.join("verifier.rs"), "pub(crate) mod verify;\n").unwrap();
    std::fs::write(out.join("prover.rs"), "pub(crate) mod prove;\n").unwrap();
    let mods = "mod error;\npub(crate) mod ghash;\npub(crate) mod map;\npub(crate) mod tag;\npub(crate) mod transcript_internal;\nmod verifier;\nmod prover;\n";
    std::fs::write(out.join("lib.rs"), mods).unwrap();
    let m = std::fs::read_to_string(mpc).unwrap();
    let i = m.find("pub struct SessionKeys").expect("SessionKeys");
    let j = i + m[i..].find("\n}").unwrap() + 2;
    std::fs::write(out.join("keys.rs"), format!("#[derive(Debug, Clone)]\n{}\n", &m[i..j])).unwrap();
}
