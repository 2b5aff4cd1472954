#!/usr/bin/env python3
"""iana.txt (registry, width, name, value) -> units/iana.inc (obligations) and replay/src/bin/t06.rs"""
import os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = [l.split() for l in open(os.path.join(V, "tools/iana/iana.txt")) if l.strip()]
E = {}
for e, w, n, v in rows: E.setdefault((e, w), []).append((n, int(v, 16)))
# registries already extracted by enums.inc
have = {l.split()[-1] for l in open(os.path.join(V, "units/enums.inc")) if l.startswith("//@enum ")}
F = "crates/tls-core/src/msgs/enums.rs"
o = ["verus! {", "//@modules rand collections", "//@enumcodec"]
for e, w in E:
    if e not in have: o.append(f"//@enum {F} {e}")
o.append("// the assigned code points, frozen from the TLS registries (tools/iana/iana.txt)")
for (e, w), l in E.items():
    big = len(l) > 100
    for k in range(0, len(l), 12):
        part = l[k:k + 12]
        o.append(f"proof fn iana_{e}_{k}() {{")
        if big: o.append(f"    reveal({e}::code); reveal({e}::canon);")
        for n, v in part:
            o.append(f"    assert({e}::{n}.code() == {v:#x});")
            o.append(f"    assert({e}::canon({v:#x}) == {e}::{n});")
        o.append("}")
    o.append(f"proof fn iana_{e}_rest(c: u{w})")
    o.append("    requires " + " && ".join(f"c != {v:#x}" for n, v in l) + ",")
    o.append(f"    ensures {e}::canon(c) == {e}::Unknown(c), {e}::Unknown(c).code() == c,")
    o.append("{" + (f" reveal({e}::code); reveal({e}::canon);" if big else "") + " }")
o.append("}")
open(os.path.join(V, "units/iana.inc"), "w").write("\n".join(o) + "\n")
open(os.path.join(V, "units/iana.vrs"), "w").write("//@include prelude.inc\n//@include bcl.inc\n//@include codec.inc trust\n//@include base.inc trust\n//@include enums.inc trust\n//@include iana.inc\nfn main() {}\n")
r = ["// generated by tools/iana/gen.py: every code of every registry, both ways, on the real enums",
     "use tls_core::msgs::codec::{Codec, Reader};", "use tls_core::msgs::enums::*;", "use vreplay::*;",
     "macro_rules! reg { ($run:ident, $t:ident, $n:ty, $get:ident, $tab:expr) => {{",
     "    let tab: &[($t, $n)] = $tab;",
     "    for c in 0..=<$n>::MAX {",
     "        let nm = stringify!($t);",
     "        $run.case(format!(\"{nm}{c}\").as_bytes(), || format!(\"{nm} code {c:#x}\"), move || {",
     "            let want = tab.iter().find(|x| x.1 == c).map(|x| x.0).unwrap_or($t::Unknown(c));",
     "            let got = $t::from(c);",
     "            ensure!(got == want, \"code {c:#x} maps to {got:?}, assigned {want:?}\");",
     "            ensure!(want.$get() == c, \"{want:?} has number {:#x}, assigned {c:#x}\", want.$get());",
     "            let e = want.get_encoding();",
     "            ensure!(e == c.to_be_bytes(), \"{want:?} encoded as {}\", hex(&e));",
     "            let mut b = e.clone(); b.push(0x5a);",
     "            let mut rd = Reader::init(&b);",
     "            ensure!($t::read(&mut rd) == Some(want) && rd.left() == 1, \"{want:?} does not decode\");",
     "            ensure!($t::read_bytes(&e[..e.len() - 1]).is_none(), \"truncated code accepted\");",
     "            Ok(())",
     "        });",
     "    }",
     "}} }",
     "fn main() {", "    let mut run = Run::start();"]
for (e, w), l in E.items():
    r.append(f"    reg!(run, {e}, u{w}, get_u{w}, &[" + ", ".join(f"({e}::{n}, {v:#x})" for n, v in l) + "]);")
r += ["    run.finish()", "}"]
open(os.path.join(V, "replay/src/bin/t06.rs"), "w").write("\n".join(r) + "\n")
