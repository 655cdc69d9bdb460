#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property of /repo's current tree.

Deciding step: Verus accepts every obligation of the property's contracts over the function bodies
extracted on this run from /repo.  A bounded falsifier (native code linked against /repo) supplies
failing inputs, and stands in, labelled bounded, for functions the extraction cannot carry over."""
import sys, os, json, time, subprocess, re, hashlib, threading, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, UNITS

ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PATH="/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", ""))

def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, **(env or {})), cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"

# ------------------------------------------------------------------ building
def build_extractor():
    d = os.path.join(BUILD, "xt")
    rc, o, e = sh(["cargo", "build", "-q", "--offline", "--locked"], 600, {"CARGO_TARGET_DIR": d}, os.path.join(HERE, "extract"))
    if rc: raise RuntimeError("extractor does not build: " + e[-2000:])
    return os.path.join(d, "debug", "vx-extract")

SRC = {"mqtt": ("vaux-mqtt", "lib"), "client": ("vaux-client", "lib"), "broker": ("vaux-broker", "lib"), "async": ("vaux-async", "lib")}
def expand(name):
    """the crate after macro expansion: what rustc compiles"""
    pkg, target = SRC[name]
    d = os.path.join(BUILD, "exp")
    t = ["--lib"] if target == "lib" else ["--bin", target.split(":")[1]]
    rc, o, e = sh(["cargo", "rustc", "-q", "--offline", "-p", pkg] + t + ["--profile", "check", "--", "-Zunpretty=expanded"], 800,
                  {"CARGO_TARGET_DIR": d, "RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": ""}, REPO)
    if rc or not o.strip(): return None, e[-3000:]
    p = os.path.join(BUILD, f"expanded_{name}.rs")
    open(p, "w").write(o)
    return p, ""

def fresh(d):
    """cargo goes by file times: forget what it built from another state of the tree"""
    h = hashlib.sha256()
    for r, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")): h.update(f.encode() + b"\0" + open(os.path.join(r, f), "rb").read() + b"\0")
    at = os.path.join(d, "tree.sha256")
    if os.path.exists(at) and open(at).read() == h.hexdigest(): return
    for r, ds, fs in os.walk(d):
        if os.path.basename(r) == ".fingerprint":
            for x in ds:
                if x.startswith("vaux"): shutil.rmtree(os.path.join(r, x))
            ds[:] = []
    os.makedirs(d, exist_ok=True)
    open(at, "w").write(h.hexdigest())
def build_falsifier(name):
    d = os.path.join(BUILD, "fc_" + name)
    fresh(d)
    src = os.path.join(VERIF, "falsify", name)
    n = re.search(r'name = "([^"]+)"', open(os.path.join(src, "Cargo.toml")).read()).group(1)
    flags = HOOKED.get(name)
    # where the white-box part no longer fits the code, a smaller one and then none remains
    tries = [{"RUSTFLAGS": f"--cfg vaux_verif{x}", flags: os.path.join(src, "hook.rs")} for x in ("", " --cfg vaux_min")] if flags else []
    for t in tries + [{"RUSTFLAGS": ""}]:
        rc, o, e = sh(["cargo", "build", "-q", "--release", "--offline"], 800, dict(t, CARGO_TARGET_DIR=d), src)
        if not rc: break
    if rc: return None, e[-3000:]
    return os.path.join(d, "release", n), ""
HOOKED = {"broker": "VAUX_VERIF_BROKER"}

# ------------------------------------------------------------------ verifying
HARD = ("postcondition not satisfied", "precondition not satisfied", "possible arithmetic", "invariant not satisfied", "assertion failed",
        "assertion not satisfied", "decreases not satisfied", "unreachable", "possible division by zero", "index out of bounds", "possible bit shift",
        "recommendation not met", "unable to prove", "cannot show", "could not prove", "not satisfied")
SOFT = ("Resource limit", "rlimit", "timed out", "timeout", "prover crashed", "unexpected", "verification aborted")

TAG = re.compile(r"//\s*@((?:\s*C\d\d)+)\s*$")
def cone(roots, fns, lines):
    """the extracted functions a property's root functions reach, by callee name"""
    if not roots: return None
    byname, calls = {}, {}
    for f in fns:
        byname.setdefault(f["key"].split("::")[-1], []).append(f["key"])
        calls.setdefault(f["key"], set()).update(re.findall(r"\b(\w+)\s*\(", "\n".join(lines[f["start"] - 1:f["end"]]).replace(" ", "")))
    todo = [k for k in calls if re.search(roots, k)]
    seen = set(todo)
    while todo:
        for c in calls[todo.pop()]:
            for k in byname.get(c, []):
                if k not in seen: seen.add(k); todo.append(k)
    return seen

class Verdict:
    def __init__(s):
        s.failed = []; s.soft = []; s.other = []; s.external = {}; s.verified = 0; s.errors = 0; s.smt_ms = 0; s.note = ""; s.ok = False; s.text = ""; s.map = {}; s.cmd = ""; s.funcs = []

def locate(line, fns, lines):
    for f in fns:
        if f["start"] <= line <= f["end"]: return f["key"], True
    for n in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn (\w+)", lines[n])
        if m: return m.group(1), False
    return "?", False

def verify(unit, modules, srcs, extractor, tag, threads=8, budget=420, canary=True, roots=None, tagged=None):
    """extract + verus, moving functions the verifier cannot take to `external` (assumed, bounded)"""
    v = Verdict()
    tpl, rs, mp = (os.path.join(BUILD, f"{tag}.{x}") for x in ("vrs", "rs", "json"))
    text = UNITS[unit]()
    if canary: text = text.replace("fn main() { }\n}", "pub mod vx_canary { use vstd::prelude::*; use super::*; pub proof fn vx_canary() ensures false { } }\nfn main() { }\n}")
    open(tpl, "w").write(text)
    ext = dict()
    t0 = time.time()
    for rnd in range(6):
        args = [extractor, "--template", tpl, "--out", rs, "--map", mp]
        for s, p in srcs.items(): args += ["--src", f"{s}={p}"]
        for k in ext: args += ["--external", k]
        rc, o, e = sh(args, 120)
        if rc:
            v.note = "extraction failed: " + (e or o)[-500:]; return v
        m = json.load(open(mp)); v.map = m
        fns = [f for f in m["functions"] if f.get("kind") == "fn" and "start" in f]
        for f in fns:
            if f["status"] not in ("ok", "external"): ext.setdefault(f["key"], f["status"] + (": " + ", ".join(f.get("unsupported") or []) if f.get("unsupported") else ""))
        lines = open(rs).read().split("\n")
        if m["lost"]:
            for k in m["lost"]: ext.setdefault(k, "lost")
        left = max(60, budget - int(time.time() - t0))
        have = set(re.findall(r"^pub mod (\w+)", "\n".join(lines), re.M))
        cmd = ["verus", "--triggers-mode", "silent", "--num-threads", str(threads), "--time", "--output-json", "--error-format=json", "--multiple-errors", "6"]
        for x in (modules or []) + (["vx_canary"] if canary else []):
            if x in have: cmd += ["--verify-module", x]
        cmd.append(rs)
        v.cmd = " ".join(cmd).replace(VERIF + "/", "")
        rc, o, e = sh(cmd, left)
        try: j = json.loads(o)
        except ValueError: j = {}
        res = j.get("verification-results", {})
        diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level") == "error" and not d["message"].startswith("aborting"): diags.append(d)
        v.failed, v.soft, v.other, comp = [], [], [], []
        reach = cone(roots, fns, lines)
        wide = reach if reach is None or not tagged else reach | cone(tagged, fns, lines)
        canary_failed = False
        for d in diags:
            sp = d.get("spans") or []
            n = None
            prim = [s["line_start"] for s in sp if s.get("is_primary")]
            allv = [s["line_start"] for s in sp]
            msg = d["message"]
            # the place of the failure is inside an extracted body when any span is
            cand = prim + allv
            key, infn = None, False
            for c in ([max(allv)] if "postcondition" in msg and allv else []) + cand:
                k, i = locate(c, fns, lines)
                if i: key, infn, n = k, True, c; break
            if key is None and cand: n = cand[0]; key, infn = locate(n, fns, lines)
            if key == "vx_canary": canary_failed = True; continue
            item = {"fn": key, "extracted": infn, "msg": msg, "line": n, "src": lines[n - 1].strip() if n else "", "rendered": d.get("rendered", "")[:3000]}
            if d.get("code") or (not any(h in msg for h in HARD) and not any(s in msg for s in SOFT)): comp.append(item)
            elif any(s in msg for s in SOFT): v.soft.append(item)
            else:
                # a clause marked with the properties it states counts for those alone; a function the property does not reach, for none
                tags = [t for q in sp if q["line_end"] - q["line_start"] < 12 or "failed this" in (q.get("label") or "") for c in range(q["line_start"], q["line_end"] + 1) for t in (TAG.search(lines[c - 1]) or [None, ""])[1].split()]
                if (tags and tag not in tags) or (reach is not None and infn and key not in (wide if tag in tags else reach)): v.other.append(item)
                else: v.failed.append(item)
        v.verified = res.get("verified", 0); v.errors = res.get("errors", 0)
        v.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(j.get("times-ms"), dict) else 0
        v.text = "\n".join(d.get("rendered", "") for d in diags)[:60000]
        v.external = dict(ext)
        inmod = {}
        cur = None
        for n, l in enumerate(lines, 1):
            q = re.match(r"pub mod (\w+)", l)
            if q: cur = q.group(1)
            inmod[n] = cur
        v.funcs = [f["key"] for f in fns if f["status"] == "ok" and (not modules or inmod.get(f["start"]) in modules) and (reach is None or f["key"] in wide)]
        grow = False
        for c in comp:
            if c["extracted"] and c["fn"] not in ext: ext[c["fn"]] = "not accepted: " + c["msg"][:160]; grow = True
        if grow: continue
        if comp or not res:
            v.note = "the unit is not accepted: " + (comp[0]["msg"] if comp else (e[-300:] or "no result")); return v
        for c in v.soft:
            if c["extracted"] and c["fn"] not in ext: ext[c["fn"]] = "resource limit"; grow = True
        if grow and not v.failed: continue
        v.external = dict(ext)
        if canary and "vx_canary" in have:
            if not canary_failed: v.note = "vacuous: false was proved"; return v
            v.errors -= 1
        v.errors -= len(set(c["fn"] for c in v.other))
        v.ok = not v.failed and not v.soft and v.errors <= 0
        return v
    return v

ASSUME = re.compile(r"#\[verifier::external_body\]|\bassume\s*\(|\badmit\s*\(|#\[verifier::external\b|assume_specification|axiom fn")
def assumptions(rs, fns):
    """what the unit assumes, by name: bodies, types and implementations the verifier does not look into"""
    out = []
    L = open(rs).read().split("\n")
    impl = ""
    for i, l in enumerate(L):
        q = re.match(r"\s*(?:pub )?(?:impl|trait)\b\s*(?:<[^{]*?>\s+)?([^{]*?)\s*(?:where|\{|$)", l)
        if q: impl = re.sub(r"\s+", " ", q.group(1)).split(":")[0] if "trait" in l[:12] else re.sub(r"\s+", " ", q.group(1))
        if re.match(r"}", l): impl = ""
        m = ASSUME.search(l)
        if not m: continue
        what = m.group(0)
        nm = ""
        for k in range(i, min(i + 4, len(L))):
            t = L[k][m.end():] if k == i else L[k]
            q = re.search(r"\b(struct|enum|type|trait)\s+(\w+)", t) or re.search(r"\b(fn)\s+(\w+)", t) or re.match(r"\s*(impl)\b\s*(?:<[^{]*?>\s+)?([^{]*?)\s*\{", t)
            if q:
                nm = re.sub(r"\s+", " ", f"{q.group(1)} {q.group(2)}")
                if q.group(1) == "fn" and impl: nm = f"fn {impl}::{q.group(2)}"
                break
        if what == "axiom fn": nm = re.match(r"\s*(\w+)", l[m.end():]).group(1)
        if nm == "fn fmt": continue
        if what.startswith(("assume", "admit")): nm = l.strip()[:100]
        if nm.endswith("::fmt") or "Debug for" in nm or "Display for" in nm: continue
        out.append(f"{what} {nm or l.strip()[:80]}")
    return out

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    for d in (BUILD, os.path.join(VERIF, "evidence"), os.path.join(VERIF, "replay")): os.makedirs(d, exist_ok=True)
    rdir = os.path.join(VERIF, "replay", pid)
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir): os.remove(os.path.join(rdir, f))
    # falsifier build runs beside extraction
    fal = {}
    def bf(): fal["bin"], fal["err"] = build_falsifier(P["falsifier"]) if P.get("falsifier") else (None, "none")
    th = threading.Thread(target=bf); th.start()
    v = Verdict(); srcs = {}; lost_src = []
    if P.get("unit"):
        try:
            xt = build_extractor()
            fresh(os.path.join(BUILD, "exp"))
            for s in P["srcs"]:
                p, e = expand(s)
                if p: srcs[s] = p
                else: lost_src.append((s, e))
            if lost_src: v.note = "source does not compile: " + lost_src[0][1][-500:]
            else: v = verify(P["unit"], P.get("modules"), srcs, xt, pid, roots=P.get("roots"), tagged=P.get("tagged"))
        except Exception as ex:
            v.note = f"verifier run failed: {ex}"
    th.join()
    if P.get("unit") and lost_src and not fal.get("bin"):
        print("the tree does not build:", (lost_src[0][1] or fal.get("err", ""))[-1500:])
    vt = time.time() - t0
    # bounded falsifier
    found, cases, fnote, samples, known = [], 0, "", [], []
    if fal.get("bin"):
        env = {"VX_KNOWN": os.path.join(VERIF, "known-findings.txt")}
        rc, o, e = sh([fal["bin"], pid, tier, str(seed), rdir], 420 if tier == "quick" else 800, env, BUILD)
        for l in o.split("\n"):
            if l.startswith("FOUND "):
                w = l.split(" ", 3); found.append((w[1], w[2], w[3] if len(w) > 3 else ""))
            elif l.startswith("CASES "): cases = int(l.split()[1])
            elif l.startswith("SAMPLE "): samples.append(l[7:])
            elif l.startswith("KNOWN "): known.append(l[6:])
            elif l.startswith("NOTE "): fnote += l[5:] + "; "
        if rc not in (0, 1): fnote += f"falsifier ended with {rc}: {e[-300:]}"
    else: fnote = "falsifier not built: " + str(fal.get("err"))[-800:]
    # verdict
    violations = []
    for k in known: print(f"KNOWN-FINDING: property={pid} {k}")
    for (p, path, msg) in found:
        if p == pid: violations.append((path, msg, ""))
    failed = [f for f in v.failed]
    if failed:
        names = sorted(set(f["fn"] for f in failed))
        path = os.path.join(rdir, "obligation.txt")
        with open(path, "w") as fh:
            fh.write(f"property {pid}\nfailed obligations:\n")
            for f in failed: fh.write(f"- {f['fn']}: {f['msg']}  at  {f['src']}\n")
            fh.write("\nverifier command: " + v.cmd + "\n\nverifier output:\n" + v.text)
        if not violations: violations.append((path, "failed obligation in " + ", ".join(names), " no-failing-input-found"))
    bounded = sorted(v.external.items())
    proved = bool(P.get("unit")) and v.ok and not bounded
    L = []
    for f in failed: L.append(f"obligation failed: {f['fn']}: {f['msg']} [{f['src'][:80]}]")
    for f in v.other: L.append(f"outside this property: {f['fn']}: {f['msg']} [{f['src'][:80]}]")
    for k, r in bounded: L.append(f"bounded (not proved): {k}: {r}")
    for f in v.soft: L.append(f"not decided: {f['fn'] or 'lemma'}: {f['msg'][:80]} [{f['src'][:80]}]")
    if v.note: L.append(f"bounded (not proved): {v.note}")
    for l in L[:20]: print(l)
    print(f"{pid}: {v.verified} verified, {v.errors} errors, {len(v.funcs)} functions under contract, {len(bounded)} bounded; falsifier {cases} cases, {len(found)} found; {time.time()-t0:.0f} s")
    if fnote: print("note:", fnote)
    trusted = []
    try: trusted = assumptions(os.path.join(BUILD, f"{pid}.rs"), []) if P.get("unit") else []
    except OSError: pass
    cov = {"obligations": v.verified + max(v.errors, 0), "discharged": v.verified, "checker_cmd": v.cmd or "none",
           "trusted_base": sorted(set(trusted)) + P.get("trusted", []) + ["Verus 0.2026.09.13 and its Z3", "rustc macro expansion", "the extractor tools/extract (rewrites listed in DESIGN.md)"],
           "back_end": "Verus / Z3", "solver_ms": v.smt_ms, "modules": P.get("modules") or [],
           "functions_under_contract": v.funcs, "bounded_functions": [f"{k}: {r}" for k, r in bounded] + ([v.note] if v.note else []) + P.get("bounded", []),
           "evaluations": cases, "distinct_nontrivial": cases, "rule": P.get("rule", "cases of the bounded falsifier, each a different input checked against the reference semantics"),
           "samples": samples[:5] or [f"{cases} generated cases"], "explanation": P.get("explanation", "")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "proved_on_this_run": proved, "verify_s": round(vt, 1), "assumptions": P.get("assumptions", []),
          "violations": [{"replay": p, "what": m} for p, m, _ in violations]}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for p, m, s in violations[:5]:
        print(m[:400])
        print(f"VIOLATION property={pid} replay={p}{s}")
    sys.exit(1 if violations else 0)

if __name__ == "__main__": main()
