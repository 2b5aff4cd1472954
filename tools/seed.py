#!/usr/bin/env python3
"""seed.py SPEC.py : (development aid, not used by any check) turn a planted-bug spec into
/verif/seeded/<id>/ after confirming: applies, builds, stable tests pass, demo fails with it and
passes without it; then reports whether the property's check catches it.
Spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust text or None), optional DEMO_SH, FILES={name:text}
"""
import json, os, subprocess, sys, runpy, shutil
R = "/repo"
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'find "$T" -mindepth 0 -delete' EXIT
W=/opt/vp/ws/target/debug
EXT="--extern tls_core=$W/libtls_core.rlib"
for c in %s; do EXT="$EXT --extern $c=$(ls -t $W/deps/lib$c-*.rlib | head -1)"; done
rustc --edition 2021 -A warnings -C debug-assertions=on $EXT -L dependency=$W/deps "$D/demo.rs" -o "$T/demo" || exit 1
timeout 200 "$T/demo"
'''
CRATE_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change: compiles the real crates/core (and attestation)
# sources of /repo against the stand-ins for missing dependencies that lie beside this file
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'find "$T" -mindepth 0 -delete' EXIT
cp -r "$D"/*/ "$T/" || exit 1
cd "$T/demo" && CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet || exit 1
timeout 120 "$T/target/debug/demo"
'''
CRATE_TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tlsn-tls-core = { path = "/repo/crates/tls-core", features = ["serde"] }
tlsn-core = { path = "../shims/tlsn-core", features = ["mozilla-certs"] }
%srangeset = { path = "../shims/rangeset" }
serde = { version = "1", features = ["derive"] }
bincode = "1"
rand = "0.9"
sha2 = "0.10"
web-time = "0.2"
[profile.dev]
debug = false
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def revert(): sh(["git", "-C", R, "checkout", "--", "."])
def main():
    S = runpy.run_path(sys.argv[1]); nocheck = "--nocheck" in sys.argv
    d = f"/verif/seeded/{S['ID']}"; os.makedirs(d, exist_ok=True)
    assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(), "repo dirty"
    if S.get("DEMO"): open(d + "/demo.rs", "w").write(S["DEMO"])
    for n, t in S.get("FILES", {}).items(): open(f"{d}/{n}", "w").write(t)
    if S.get("CRATE") == "mpc": # the real crates/mpc-tls sources with the demonstration as one more module
        S["DEMO_SH"] = CRATE_SH
        for x in ["shims", "replay", "demo"]: shutil.rmtree(f"{d}/{x}", ignore_errors=True)
        shutil.copytree("/verif/shims", d + "/shims", ignore=shutil.ignore_patterns("target"))
        for x in ["tlsn-attestation", "k256", "p256"]: shutil.rmtree(f"{d}/shims/{x}", ignore_errors=True)
        shutil.copytree("/verif/replay", f"{d}/replay", ignore=shutil.ignore_patterns("target", "bin", "Cargo.lock"))
        shutil.copytree("/verif/replay3", f"{d}/demo", ignore=shutil.ignore_patterns("target", "bin", "replays"))
        t = open(d + "/demo/Cargo.toml").read(); open(d + "/demo/Cargo.toml", "w").write(t.replace("vreplay3", "demo"))
        t = open(d + "/demo/Cargo.lock").read(); open(d + "/demo/Cargo.lock", "w").write(t.replace('name = "vreplay3"', 'name = "demo"'))
        t = open(d + "/demo/src/lib.rs").read(); open(d + "/demo/src/lib.rs", "w").write(t.replace("pub mod replays;", "pub mod demonstration;"))
        open(d + "/demo/src/demonstration.rs", "w").write(S["MAIN"]); open(d + "/demo/src/main.rs", "w").write("fn main() {\n    demo::demonstration::main()\n}\n")
    elif S.get("CRATE"):
        S["DEMO_SH"] = CRATE_SH
        os.makedirs(d + "/demo/src", exist_ok=True)
        shutil.rmtree(d + "/shims", ignore_errors=True)
        shutil.copytree("/verif/shims", d + "/shims", ignore=shutil.ignore_patterns("Cargo.lock", "target") if False else shutil.ignore_patterns("target"))
        att = S["CRATE"] == "attestation"
        if not att:
            for x in ["tlsn-attestation", "bcs", "k256", "p256"]: shutil.rmtree(f"{d}/shims/{x}")
        extra = 'tlsn-attestation = { path = "../shims/tlsn-attestation" }\n' if att else ""
        if S.get("LIBS"): # helper libraries of the replays (certificate and message generators), without the checks themselves
            extra += 'vreplay = { path = "../replay" }\nvreplay2 = { path = "../replay2" }\nrustls-webpki = { version = "0.103", features = ["ring"] }\nrustls-pki-types = "1"\nsct = "0.7"\n'
            for x in ["replay", "replay2"]:
                shutil.rmtree(f"{d}/{x}", ignore_errors=True)
                shutil.copytree(f"/verif/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("target", "bin", "Cargo.lock"))
        open(d + "/demo/Cargo.toml", "w").write(CRATE_TOML % extra)
        shutil.copy("/verif/replay2/Cargo.lock", d + "/demo/Cargo.lock")
        open(d + "/demo/src/main.rs", "w").write(S["MAIN"])
    open(d + "/demo.sh", "w").write(S.get("DEMO_SH") or DEMO_SH % S.get("DEPS", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=S["PROP"], needs=S["NEEDS"], what_it_breaks=S["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-2000:]
    p = sh(["bash", d + "/demo.sh"], cwd=R); assert p.returncode == 0, "demo fails on unchanged tree: " + p.stdout[-3000:]
    try:
        for f, old, new in S["EDITS"]:
            t = open(f"{R}/{f}").read(); assert t.count(old) == 1, (f, t.count(old), old); open(f"{R}/{f}", "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh(["git", "-C", R, "diff"]).stdout)
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, "does not build " + b.stdout[-3000:]
        t = sh("bash /opt/vp/test.sh /tmp/p/out.json")
        base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/p/out.json"))
        stable = set(base.get("stable", base.get("passed", [])) if isinstance(base, dict) else base)
        passed = set(o.get("passed", o.get("pass", [])) if isinstance(o, dict) else o)
        miss = stable - passed
        assert not miss, ("tests fail", sorted(miss)[:5])
        p = sh(["bash", d + "/demo.sh"], cwd=R); assert p.returncode != 0, "demo passes with the bug: " + p.stdout[-2000:]
        print(S["ID"], "confirmed; demo says:", p.stdout.strip()[-200:].replace("\n", " | "))
        if not nocheck:
            for pr in [S["PROP"]] + S.get("ALSO", []):
                c = sh(["python3", "/verif/checks/check.py", pr, "--tier", "quick"])
                v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
                print("  ", "CAUGHT" if c.returncode == 1 and v else "MISSED", f"by {pr} rc={c.returncode}", v)
                if not v or "no-failing" in v[0]: print(c.stdout[-1500:])
    finally:
        revert()
if __name__ == "__main__": main()
