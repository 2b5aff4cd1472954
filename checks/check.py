#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current tree:
  1. extracts the functions under contract from /repo (tools/vx) and has Verus discharge every
     obligation (deciding step);
  2. re-runs the same units with `assert(false)` behind every precondition (vacuity gate);
  3. builds the bounded replay against the real code and looks for a concrete failing input.
Exit 0 held, 1 VIOLATION, 2 the check could not run at all.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
from table import PROPS, UNIT_OPTS  # noqa: E402

WORK = os.path.join(VERIF, "work")
VX = os.path.join(VERIF, "tools/vx/target/release/vx")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault("CARGO_NET_OFFLINE", "true")
    e.setdefault("RUST_MIN_STACK", "536870912")
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "TIMEOUT"


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.p = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    with Lock("vx"):
        rc, out, err = sh(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(VERIF, "tools/vx"))
    if rc != 0:
        print("cannot build the extractor:\n" + err[-3000:])
        sys.exit(2)


# ---------------------------------------------------------------- Verus

MARK = re.compile(r"^// vx:([^:]+):(\d+):(.*)$")
FNDEF = re.compile(r"^\s*(?:pub\s+)?(?:open\s+|closed\s+|broadcast\s+|uninterp\s+)*(?:proof|spec|exec)?\s*fn\s+(\w+)")


def line_owner(lines, ln):
    """generated-file line -> name of the function (source path for extracted ones)"""
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = MARK.match(lines[i])
        if m:
            return f"{m.group(3)} ({m.group(1)}:{m.group(2)})", True
        m = FNDEF.match(lines[i])
        if m:
            # an extracted function's own `fn` line follows its marker by at most a few attribute lines
            for j in range(i - 1, max(-1, i - 8), -1):
                mm = MARK.match(lines[j])
                if mm:
                    return f"{mm.group(3)} ({mm.group(1)}:{mm.group(2)})", True
                if lines[j].strip() and not lines[j].lstrip().startswith("#["):
                    break
            return "lemma " + m.group(1), False
    return "?", False


ERR_LOC = re.compile(r"^\s*--> .*?\.rs:(\d+):(\d+)")
HARD = ("rlimit", "resource limit", "not supported", "not yet supported", "unsupported", "expected", "mismatched", "cannot find", "unresolved", "no method named", "no field")


def parse_errors(stderr, lines):
    """list of (kind, message, owner, text)"""
    out = []
    for b in re.split(r"\n(?=error|note: while|warning)", "\n" + stderr):
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        msg = b.split("\n", 1)[0]
        if "aborting due to" in msg or "could not compile" in msg:
            continue
        owner = "?"
        locs = [int(m.group(1)) for m in (ERR_LOC.match(x) for x in b.split("\n")) if m]
        if locs:
            owner = line_owner(lines, locs[0])[0]
            # for a failed precondition/postcondition Verus also points at the clause; keep the function body one
        out.append((msg, owner, b))
    return out


def run_unit(unit, tier, vac=False):
    tag = unit + (".vac" if vac else "")
    gen = os.path.join(WORK, tag.replace(".", "_") + ".rs")
    res = {"unit": unit, "vacuity": vac, "status": None, "errors": [], "fns": [], "verified": 0, "failed": 0, "smt_s": 0.0, "detail": ""}
    env = {"VX_VACUITY": "1"} if vac else {}
    rc, out, err = sh([VX, REPO, os.path.join(VERIF, "units", unit + ".vrs"), gen], 60, env=env)
    if rc != 0:
        res["status"] = "lost"
        res["detail"] = (err or out).strip()[-1500:]
        return res
    meta = json.loads(out)
    res["fns"] = meta["fns"]
    text = open(gen).read()
    lines = text.split("\n")
    res["sha"] = hashlib.sha256(text.encode()).hexdigest()[:16]
    opt = UNIT_OPTS.get(unit, {})
    rlimit = str(opt.get("rlimit", 60) * (1 if tier == "quick" else 3))
    t0 = time.time()
    rc, out, err = sh(["verus", gen, "--triggers-mode", "silent", "--output-json", "--time", "--rlimit", rlimit, "--num-threads", "4", "--multiple-errors", "1" if vac else "4"],
                      600 if tier == "quick" else 3000, cwd=WORK)
    res["wall"] = time.time() - t0
    try:
        j = json.loads(out[out.index("{"):])
        vr = j["verification-results"]
        res["verified"], res["failed"] = vr.get("verified", 0), vr.get("errors", 0)
        vir = vr.get("encountered-vir-error", True)
        fb = {}
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                k = f["function"].split("::", 1)[-1]
                a = fb.setdefault(k, [0.0, True, 0])
                a[0] += f["time-micros"] / 1e6
                a[1] = a[1] and f["success"]
                a[2] += f.get("rlimit", 0)
        res["smt_s"] = round(sum(a[0] for a in fb.values()), 3)
        res["by_fn"] = {k: {"s": round(a[0], 4), "ok": a[1], "rlimit": a[2]} for k, a in fb.items()}
        ran = True
    except (ValueError, KeyError):
        vir, ran = True, False
    errs = parse_errors(err, lines)
    res["errors"] = errs
    if rc == 124:
        res["status"], res["detail"] = "unknown", "verifier timed out"
    elif ran and rc == 0 and not vir and res["failed"] == 0 and res["verified"] > 0:
        res["status"] = "proved"
    elif not ran or vir or res["failed"] == 0:
        res["status"], res["detail"] = "unsupported", "\n".join(e[2] for e in errs[:3])[:3000] or err[-2000:]
    else:
        hard = [e for e in errs if re.search(r"rlimit|resource limit|Verus Internal|panicked", e[0], re.I)]
        soft = [e for e in errs if e not in hard]
        res["status"] = "failed" if soft else "unknown"
        res["detail"] = "\n\n".join(e[2] for e in (soft or hard))[:8000]
    return res


def vacuous(res, main):
    """contracted functions whose planted `assert(false)` was NOT refuted"""
    if res["status"] == "proved":
        return ["<every function>"]
    if res["status"] != "failed":
        return None  # could not be evaluated
    owners = {e[1] for e in res["errors"]}
    bad = []
    for f in res["fns"]:
        if f.get("external_body") or f["line"] == 0:
            continue
        if f"{f['fn']} ({f['file']}:{f['line']})" not in owners:
            bad.append(f["fn"])
    return bad


def scan_trusted(unit):
    """mechanical scan of the generated file for everything taken on trust"""
    gen = os.path.join(WORK, unit.replace(".", "_") + ".rs")
    out = set()
    try:
        lines = open(gen).read().split("\n")
    except OSError:
        return []
    for i, l in enumerate(lines):
        if "assume_specification" in l:
            m = re.search(r"\[\s*(.*?)\s*\]\s*\(", l)
            out.add("assumed contract on std: " + (m.group(1) if m else l.strip()[:80]))
        if re.search(r"external_body\] (pub )?(broadcast )?proof fn", l):
            continue  # lemma of an included unit, discharged in that unit's own run
        if "external_body" in l:
            for k in range(i + 1, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct|enum|trait)\s+(\w+)", lines[k])
                if m:
                    imp = any(MARK.match(lines[j]) for j in range(max(0, i - 4), i))
                    if imp:
                        break  # contract-only import, discharged in its own unit
                    out.add(f"external_body {m.group(1)} {m.group(2)}")
                    break
        if re.search(r"\b(assume|admit)\s*\(", l) and "assume_specification" not in l:
            out.add(f"assume/admit in generated text: {l.strip()[:80]}")
        if "uninterp spec fn" in l:
            m = re.search(r"uninterp spec fn (\w+)", l)
            out.add("uninterpreted: " + m.group(1))
        if "exec_allows_no_decreases_clause" in l:
            out.add("termination of the annotated I/O loop is not proved (unit %s)" % unit)
    return sorted(out)


# ---------------------------------------------------------------- bounded replay

def run_replay(spec, tier, prop):
    """spec: dict(kind='bin', name=..) or dict(kind='rustc', unit=.., ...)"""
    res = {"name": spec["name"], "status": None, "detail": "", "evaluations": 0, "distinct": 0, "samples": []}
    exe = None
    if spec["kind"] == "bin":
        with Lock("cargo"):
            rc, out, err = sh(["cargo", "build", "--offline", "--bin", spec["name"]], 600, cwd=os.path.join(VERIF, spec.get("crate", "replay")), env={"CARGO_TARGET_DIR": TARGET})
        exe = os.path.join(TARGET, "debug", spec["name"])
        if rc != 0:
            res["status"], res["detail"] = "nobuild", err[-2500:]
            return res
    else:  # plain extraction of modules whose crate does not build here + rustc
        gen = os.path.join(WORK, "plain_" + spec["name"] + ".rs")
        rc, out, err = sh([VX, REPO, os.path.join(VERIF, "units", spec["unit"]), gen], 60)
        if rc != 0:
            res["status"], res["detail"] = "nobuild", err.strip()[-1500:]
            return res
        exe = os.path.join(WORK, "plain_" + spec["name"])
        cmd = ["rustc", "--edition", "2024", "-C", "opt-level=1", "-C", "debug-assertions=on", "-A", "warnings", gen, "-o", exe]
        if spec.get("deps"):
            with Lock("cargo"):
                rc, out, err = sh(["cargo", "build", "--offline", "--lib"], 600, cwd=os.path.join(VERIF, "replay"), env={"CARGO_TARGET_DIR": TARGET})
            if rc != 0:
                res["status"], res["detail"] = "nobuild", err[-2500:]
                return res
            cmd += ["-L", "dependency=" + os.path.join(TARGET, "debug/deps")]
            for d in spec["deps"]:
                lib = newest(os.path.join(TARGET, "debug/deps"), "lib" + d + "-")
                if not lib:
                    res["status"], res["detail"] = "nobuild", "no rlib for " + d
                    return res
                cmd += ["--extern", f"{d}={lib}"]
        rc, out, err = sh(cmd, 300)
        if rc != 0:
            res["status"], res["detail"] = "nobuild", err[-2500:]
            return res
    budget = spec.get("budget", {}).get(tier, 15 if tier == "quick" else 240)
    rc, out, err = sh([exe, "--seed", str(SEED), "--budget", str(budget)] + spec.get("args", []), budget + 120)
    for l in out.split("\n"):
        if l.startswith("STAT "):
            try:
                d = json.loads(l[5:])
                res["evaluations"] += d.get("evaluations", 0)
                res["distinct"] += d.get("distinct", 0)
                res["samples"] += d.get("samples", [])[:3]
            except ValueError:
                pass
    fails = [l for l in out.split("\n") if l.startswith("FAIL ")]
    res["fails"] = fails
    res["cmd"] = " ".join([exe, "--seed", str(SEED), "--budget", str(budget)] + spec.get("args", []))
    if fails:
        res["status"], res["detail"] = "fail", "\n".join(fails[:20])
    elif rc == 0:
        res["status"] = "ok"
    elif rc == 124:
        res["status"], res["detail"] = "error", "replay ran out of time: " + err[-500:]
    else:
        res["status"], res["detail"] = "error", f"replay exit {rc}: " + (out[-800:] + err[-1500:])
    return res


def newest(d, prefix):
    c = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(prefix) and f.endswith(".rlib")]
    return max(c, key=os.path.getmtime) if c else None


# ---------------------------------------------------------------- known findings

def known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=`([^`]*)` (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build_vx()
    units, deps = P.get("units", []), list(P.get("deps", []))
    imports = dict(P.get("imports", {}))  # unit -> property whose check discharges it; also run here in the thorough tier
    if tier != "quick":
        deps += [u for u in imports if u not in deps]
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        for r in P.get("replay", []):
            jobs[("r", r["name"])] = ex.submit(run_replay, r, tier, prop)
        for u in units + deps:
            jobs[("u", u)] = ex.submit(run_unit, u, tier)
        for u in units:
            if tier == "quick" and UNIT_OPTS.get(u, {}).get("vacuity") == "thorough":
                continue
            jobs[("v", u)] = ex.submit(run_unit, u, tier, True)
        R = {k: f.result() for k, f in jobs.items()}
    U = [R[("u", u)] for u in units]
    D = [R[("u", u)] for u in deps]
    RP = [R[("r", r["name"])] for r in P.get("replay", [])]
    notes, assumptions = [], list(P.get("assumptions", []))

    # vacuity
    vac = {}
    for u in units:
        if ("v", u) not in jobs:
            continue
        if R[("u", u)]["status"] == "proved":
            v = vacuous(R[("v", u)], R[("u", u)])
            vac[u] = v
            if v is None:
                notes.append(f"vacuity gate of unit {u} could not be evaluated: {R[('v', u)]['status']} {R[('v', u)]['detail'][:300]}")
                R[("u", u)]["status"] = "unknown"
            elif v:
                notes.append(f"unit {u}: planted assert(false) NOT refuted in {v}: contract vacuous, unit not counted as proved")
                R[("u", u)]["status"] = "unknown"

    # bounded findings on the real code
    kf = known(prop)
    new_fails, seen_known = [], set()
    for r in RP:
        for l in r.get("fails", []):
            k = next((x for x in kf if x[0] and x[0] in l), None)
            if k:
                seen_known.add(k)
            else:
                new_fails.append((r, l))
    for k in kf:
        if k in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k[1]}")

    failed = [u for u in U if u["status"] == "failed"]
    obl_fail = []
    for u in failed:
        for e in u["errors"]:
            obl_fail.append((u["unit"], e))
    soft = [u for u in U + D if u["status"] in ("lost", "unsupported", "unknown")]
    for u in soft:
        notes.append(f"unit {u['unit']} gave no verdict on this tree ({u['status']}): {u['detail'][:600]}")
    for u in D:
        if u["status"] == "failed":
            notes.append(f"a contract this property imports is violated in unit {u['unit']} (reported by that unit's own property): {u['detail'][:400]}")
    for r in RP:
        if r["status"] in ("nobuild", "error"):
            notes.append(f"bounded replay {r['name']} gave no verdict: {r['status']} {r['detail'][:600]}")

    proved = bool(U) and all(u["status"] == "proved" for u in U) and all(d["status"] == "proved" for d in D)
    replay_ok = [r for r in RP if r["status"] == "ok" or (r["status"] == "fail" and not any(x[0] is r for x in new_fails))]
    rpath = os.path.join(WORK, "replays", prop + ".txt")
    violation = None
    if new_fails:
        with open(rpath, "w") as f:
            f.write(f"property {prop}: failing input(s) on the real code\n\n")
            for r, l in new_fails[:20]:
                f.write(l + "\n")
            f.write("\nre-run: " + new_fails[0][0].get("cmd", "") + "\n")
            if obl_fail:
                f.write("\nfailed obligations (Verus):\n")
                for u, e in obl_fail:
                    f.write(f"[{u}] {e[0]} in {e[1]}\n{e[2]}\n\n")
        violation = f"VIOLATION property={prop} replay={rpath}"
    elif failed:
        with open(rpath, "w") as f:
            f.write(f"property {prop}: obligations the verifier could not discharge on /repo's current source\n")
            f.write("no failing input was found by the bounded replay\n\n")
            for u, e in obl_fail:
                f.write(f"[unit {u}] {e[0]} in {e[1]}\n{e[2]}\n\n")
            f.write("generated files: " + ", ".join(os.path.join(WORK, u["unit"] + ".rs") for u in failed) + "\n")
        violation = f"VIOLATION property={prop} replay={rpath} no-failing-input-found"

    fns = [f for u in U for f in u["fns"] if not f.get("external_body")]
    imported = [f for u in U for f in u["fns"] if f.get("external_body")]
    verified = sum(u["verified"] for u in U)
    total = sum(u["verified"] + u["failed"] for u in U)
    trusted = sorted({t for u in units + deps for t in scan_trusted(u)})
    cov = {
        "checker_cmd": "verus work/<unit>.rs --rlimit N (generated by tools/vx from /repo on this run; N per unit, x3 in the thorough tier)",
        "obligations": total, "discharged": verified,
        "trusted_base": trusted + ["Verus 0.2026.09.13, its Z3, rustc, vstd contracts", "tools/vx extraction and dialect rewrites"] + P.get("trusted", []),
        "functions_under_contract": [f"{f['fn']} ({f['file']}:{f['line']})" for f in fns],
        "contracts_imported_from_other_units": [f["fn"] for f in imported],
        "imported_units": {u: f"discharged by the check of {p}" + ("" if tier == "quick" else " and on this run") for u, p in imports.items()},
        "dialect_rewrites": sorted({n for f in fns for n in f.get("rewrites", [])}),
        "textual_substitutions": {f["fn"]: f["subs"] for f in fns if f.get("subs")},
        "units": {u["unit"]: {"status": u["status"], "verified": u["verified"], "errors": u["failed"], "smt_s": u["smt_s"], "wall_s": round(u.get("wall", 0), 2), "source_sha": u.get("sha")} for u in U + D},
        "slowest": sorted(((k, v["s"]) for u in U for k, v in u.get("by_fn", {}).items()), key=lambda x: -x[1])[:8],
        "backend": "Verus (Z3)",
        "vacuity_gate_only_in_thorough_tier": [u for u in units if ("v", u) not in jobs],
        "vacuity": {u: ("all planted assert(false) refuted" if v == [] else v) for u, v in vac.items()},
        "bounded_replay": [{"name": r["name"], "status": r["status"], "evaluations": r["evaluations"], "bound": P.get("bound", "")} for r in RP],
        "evaluations": sum(r["evaluations"] for r in RP), "distinct_nontrivial": sum(r["distinct"] for r in RP),
        "rule": P.get("rule", "boundary and seeded random inputs against an executable specification; non-trivial = distinct input that exercises a decision of the specification"),
        "samples": [s for r in RP for s in r["samples"]][:6],
        "notes": notes,
    }
    level = P.get("level", "proof")
    if not proved:
        level = "other"
        cov["explanation"] = ("NOT proved on this run: " + "; ".join(notes)[:1500] + " -- what stands is the bounded replay only") if not violation else "a violation is reported"
    elif level != "proof":
        cov["explanation"] = P.get("level_note", "")
    assumptions += ["functional contracts proved for the extracted text; the extractor drops attributes, visibility, log macros and doc comments",
                    "allocation failure, panics inside std and stack exhaustion are not modelled"]
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("note:", n.replace("\n", " | ")[:400])
    print(f"{prop}: units {[(u['unit'], u['status'], u['verified']) for u in U + D]}; replay {[(r['name'], r['status'], r['evaluations']) for r in RP]}; {ev['wall_s']} s")
    if violation:
        print(violation)
        sys.exit(1)
    if not proved and not replay_ok:
        print(f"{prop}: neither the verifier nor the replay could judge this tree")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
