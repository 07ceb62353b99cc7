#!/usr/bin/env python3
"""Decides one property: contracts on /repo's functions, discharged by Verus, plus replay on the real code.

usage: check.py ID [--no-harness] [--no-verus] [--ms N]      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: held on everything explored; exit 1 + "VIOLATION property=ID replay=PATH": broken; exit 2: tool error.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
FRONT_HINT = ("not supported", "does not yet support", "unsupported")
T0 = time.time()

def log(*a): print(*a, flush=True)
def die(msg):
    log("ERROR:", msg)
    sys.exit(2)

def cargo(crate):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, crate))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"): env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", f"{V}/{crate}/Cargo.toml"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die(f"building {crate} failed:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, crate, "debug", "vextract" if crate == "extract" else "vh")

# ---------------------------------------------------------------- Verus
class VerusRun:
    def __init__(self, tmp, extract_bin):
        self.tmp, self.bin = tmp, extract_bin
        self.drop_uses = set()
    def extract(self, props, demote, vacuity=False, noiso=False):
        cfg = {"src": REPO + "/src", "contracts": V + "/contracts", "out_rs": self.tmp + "/vcode.rs", "out_json": self.tmp + "/vcode.json",
               "demote": demote, "drop_uses": sorted(self.drop_uses), "verify_props": props, "vacuity": vacuity, "noiso": noiso}
        json.dump(cfg, open(self.tmp + "/cfg.json", "w"))
        r = subprocess.run([self.bin, self.tmp + "/cfg.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return None, r.stdout
        return json.load(open(self.tmp + "/vcode.json")), ""
    def verify(self, modules, rlimit, extra=()):
        cmd = ["verus", self.tmp + "/vcode.rs", "--triggers-mode", "silent", "--multiple-errors", "40", "--rlimit", str(rlimit), "--time-expanded", "--output-json"]
        if modules is not None:
            for m in modules: cmd += ["--verify-module", m]
        cmd += list(extra) + ["--error-format=json"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.tmp, env=ENV, timeout=float(os.environ.get("VERIF_VERUS_TIMEOUT", "420" if os.environ.get("VERIF_TIER") != "thorough" else "3000")))
        except subprocess.TimeoutExpired:
            return {"timeout": True, "cmd": cmd, "errors": [], "out": None}
        errs = []
        for l in r.stderr.splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"): errs.append(d)
        out = None
        try: out = json.loads(r.stdout[r.stdout.index("{"):])
        except Exception: pass
        return {"timeout": False, "cmd": cmd, "errors": errs, "out": out, "rc": r.returncode, "stderr": r.stderr[-3000:]}

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift", "decreases not satisfied",
              "could not prove termination", "unable to prove", "failed precondition", "constructed value may fail", "cannot prove", "recommendation not met", "loop ensures", "requires not satisfied", "loop must have", "unreached", "arithmetic underflow/overflow", "termination", "invariant", "could not show")
def is_verif_failure(m): return any(k in m for k in VERIF_MSGS)
def is_rlimit(m): return "Resource limit" in m or "rlimit" in m or "timed out" in m

def fn_of(err, fns):
    """function (from the extraction map) that an error belongs to"""
    msg = err["message"]
    sp = err["spans"]
    prim = [s for s in sp if s["is_primary"]]
    sec = [s for s in sp if not s["is_primary"]]
    order = prim + sec
    if "postcondition" in msg: order = [s for s in sec if s.get("label") and ("end of the function" in s["label"] or "this exit" in s["label"])] + prim + sec
    for s in order:
        if not s["file_name"].endswith("vcode.rs"): continue
        for f in fns:
            if f["lines"][0] <= s["line_start"] <= f["lines"][1] and f["mode"] == "body": return f
    return None
def line_of(err):
    for s in err["spans"]:
        if s["is_primary"]: return s["line_start"]
    return 0
def render_err(err):
    return (err.get("rendered") or err["message"])[:3000]

def run_verus(pid, tier, tmp, xbin, checks):
    """verifies the property's own functions and those of the properties it builds on (deps);
    returns dict: failed {key: [text]}, undecided {key: reason}, overall ..."""
    vr = VerusRun(tmp, xbin)
    cfg = checks.get(pid, {})
    deps = cfg.get("deps", [])
    props = None if tier == "thorough" else [pid] + deps
    demote, undecided, failed = {}, {}, {}
    overall = None
    res = None
    rl = 30 if tier == "quick" else 60
    for it in range(12):
        meta, err = vr.extract(props, demote)
        if meta is None: overall = "source could not be parsed: " + err[:300]; break
        owned = [f for f in meta["fns"] if pid in f["props"]]
        for f in meta["fns"]:
            if f["mode"] == "undecided": undecided[f["key"]] = f["why"]
        for k in meta["missing"]:
            pass
        if props is None: mods = None
        else: mods = sorted(set([f["key"].split("::")[0] for f in meta["fns"] if f["mode"] == "body"] + cfg.get("libs", []) ))
        if mods is not None and not mods: overall = "no function left to verify"; break
        res = vr.verify(mods, rl)
        if res["timeout"]: overall = "Verus ran out of time"; break
        ok = res["out"] is not None and "verification-results" in res["out"]
        vres = res["out"]["verification-results"] if ok else {}
        front = [e for e in res["errors"] if not is_verif_failure(e["message"]) and not is_rlimit(e["message"])]
        if "verified" not in vres or (front and vres.get("verified", 0) == 0) or vres.get("encountered-vir-error"):
            # the verifier's front end refused something: set those functions aside and try again
            hit = {}
            for e in res["errors"]:
                f = fn_of(e, meta["fns"])
                if f: hit[f["key"]] = e["message"]
            new = {k: v for k, v in hit.items() if k not in demote}
            # an imported name the verified text has no counterpart for: drop the import, so that only the functions using it are set aside
            lines = open(tmp + "/vcode.rs").read().split("\n")
            bad = set(l.replace("#[allow(unused_imports)] ", "") for e in res["errors"] if "unresolved import" in e["message"] for l in [lines[line_of(e) - 1].strip()] if l.startswith("#[allow(unused_imports)] use "))
            if bad - vr.drop_uses: vr.drop_uses |= bad; demote.update({k: "front end: " + v for k, v in new.items() if "cannot find" not in v and "unresolved" not in v}); continue
            if not new:
                overall = "Verus front end: " + "; ".join(e["message"] for e in res["errors"])[:600] + (" " + res["stderr"][-300:] if not res["errors"] else "")
                break
            demote.update({k: "front end: " + v for k, v in new.items()})
            continue
        failed = {}
        rls = {}
        for e in res["errors"]:
            f = fn_of(e, meta["fns"])
            key = f["key"] if f else f"lemma@{line_of(e)}"
            if is_rlimit(e["message"]): rls.setdefault(key, []).append(render_err(e))
            elif is_verif_failure(e["message"]): failed.setdefault(key, []).append(render_err(e))
            else: undecided[key] = "front end: " + e["message"]
        if rls and rl < 100:
            rl = 120; continue
        for k, v in rls.items():
            if k not in failed: undecided[k] = "resource limit"
        if any(not k.startswith("lemma@") for k in failed):
            # second chance: the same contracts with loops checked in the context of their function (facts about variables the loop
            # does not change are kept); either way of generating the obligations is sound, so what passes in one is proved
            m2, _ = vr.extract(props, demote, noiso=True)
            r2 = vr.verify(mods, max(rl, 60))
            f2, ok2 = {}, not r2["timeout"] and r2["out"] is not None and "verified" in r2["out"].get("verification-results", {})
            for e in r2["errors"]:
                f = fn_of(e, m2["fns"])
                if not (is_verif_failure(e["message"]) or is_rlimit(e["message"])): ok2 = False
                f2.setdefault(f["key"] if f else "lemma@", []).append(e)
            if ok2 and r2["out"]["verification-results"].get("verified", 0) > 0:
                failed = {k: v for k, v in failed.items() if k in f2 or k.startswith("lemma@")}
                if not f2: res = r2
        # functions whose shape changed so much that some annotations no longer apply: proved if the rest suffices, else undecided
        for f in meta["fns"]:
            if f.get("lenient") and f["key"] in failed:
                undecided[f["key"]] = f["lenient"] + "; the remaining annotations do not suffice"
                del failed[f["key"]]
        break
    else:
        overall = "too many functions outside the verifier's reach"
    meta = meta or {"fns": [], "missing": [], "notes": [], "dropped": []}
    if any(e.get("lenient") for e in meta["fns"]): meta["notes"] = meta.get("notes", []) + [f"{e['key']}: {e['lenient']} (annotations that no longer apply dropped)" for e in meta["fns"] if e.get("lenient") and e["mode"] == "body"]
    for k in meta["missing"]:
        undecided.setdefault(k, "function not found in the source (lost anchor)")
    return {"failed": failed, "undecided": undecided, "overall": overall, "meta": meta, "res": res, "cmd": " ".join(res["cmd"]) if res else "verus"}

def vacuity(pid, tmp, xbin, checks):
    """every precondition must be satisfiable: with assert(false) at the start every body must fail"""
    vr = VerusRun(tmp, xbin)
    meta, err = vr.extract([pid], {}, vacuity=True)
    if meta is None: return None
    owned = [f for f in meta["fns"] if pid in f["props"] and f["mode"] == "body"]
    mods = sorted(set(f["key"].split("::")[0] for f in owned))
    if not mods: return None
    res = vr.verify(mods, 30)
    hit = set()
    for e in res["errors"]:
        f = fn_of(e, meta["fns"])
        if f: hit.add(f["label"])
    return {"functions": len(owned), "reachable": len([f for f in owned if f["label"] in hit]), "not_shown_reachable": [f["label"] for f in owned if f["label"] not in hit]}

# ---------------------------------------------------------------- harness on the real code
def source_literals():
    """integer literals of the non-test source, with multiplicity"""
    lits = {}
    for root, _, files in os.walk(REPO + "/src"):
        for fn in files:
            if fn.endswith(".rs"):
                src = open(os.path.join(root, fn), errors="replace").read()
                for m in re.finditer(r"(?<![A-Za-z_0-9.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![.\d])", src):
                    try:
                        v = int(m.group(1).replace("_", ""), 0) if m.group(1).startswith("0x") else int(m.group(1).replace("_", ""))
                        if 0 <= v < 2**62: lits[f"{fn}:{v}"] = lits.get(f"{fn}:{v}", 0) + 1
                    except ValueError: pass
    return lits

def literals(tmp):
    """literals for the input generator; those the source did not contain when the contracts were written come first (before the line '-')"""
    lits = source_literals()
    try: base = json.load(open(V + "/contracts/literals.json"))
    except FileNotFoundError: base = {}
    val = lambda k: int(k.split(":")[1])
    fresh = sorted(set(val(k) for k, n in lits.items() if n > base.get(k, 0)))
    p = tmp + "/lits.txt"
    open(p, "w").write("\n".join([str(x) for x in fresh[:200]] + ["-"] + [str(x) for x in sorted(set(map(val, lits)))[:3000]]))
    return p

def harness(hbin, pid, seed, ms, lits, tmp, tier):
    of = tmp + "/harness.json"
    cmd = [hbin, "run", pid, "--seed", str(seed), "--ms", str(ms), "--lits", lits, "--out", of]
    env = dict(ENV, VERIF_TIER=tier)
    try:  # the code under test prints to stdout, so the result goes to a file
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env, timeout=ms / 1000 * 3 + 300)
    except subprocess.TimeoutExpired:
        return {"cases": 0, "error": "harness did not finish"}
    if r.returncode == 0:
        try: return json.load(open(of))
        except Exception: return {"cases": 0, "error": "harness output: " + r.stderr[-300:]}
    # the process died (stack overflow, abort): find the case
    tr = tmp + "/trace.txt"
    subprocess.run(cmd + ["--trace", tr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    last = open(tr).read() if os.path.exists(tr) else ""
    if r.returncode < 0 and last:
        idx, _, desc = last.partition("\n")
        return {"cases": 1, "violation": {"index": int(idx), "case": desc, "expected": "a result", "actual": f"process killed by signal {-r.returncode} (stack overflow or abort): {r.stderr[-300:]}"}}
    return {"cases": 0, "error": f"harness exit {r.returncode}: {r.stderr[-600:]}"}

# ---------------------------------------------------------------- Lean (mathematics the SMT route assumes)
def lean(files):
    """each file states an assumed axiom of contracts/ and proves it from Mathlib"""
    out = {}
    for f in files:
        t = time.time()
        try:
            r = subprocess.run(["lean", f"{V}/lean/{f}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V + "/lean", env=ENV, timeout=400)
            ax = re.findall(r"'([^']+)' depends on axioms: \[([^\]]*)\]", r.stdout)
            ok = r.returncode == 0 and ax and all(set(a.replace(" ", "").replace("\n", "").split(",")) <= {"propext", "Classical.choice", "Quot.sound"} for _, a in ax)
            out[f] = {"accepted": bool(ok), "theorems": [{"name": n, "axioms": a} for n, a in ax], "wall_s": round(time.time() - t, 1)}
            if not ok: out[f]["output"] = r.stdout[-600:]
        except Exception as e:
            out[f] = {"accepted": False, "output": str(e)}
    return out

# ---------------------------------------------------------------- main
def known_findings(pid):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    checks = json.load(open(V + "/contracts/checks.json"))
    cfg = checks.get(pid, {})
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replay", exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vcheck_", dir=BUILD)
    try:
        return run(pid, tier, seed, checks, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, seed, checks, cfg, tmp):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fx = ex.submit(cargo, "extract"); fh = ex.submit(cargo, "harness")
        xbin, hbin = fx.result(), fh.result()
    lits = literals(tmp)
    # 1. the deductive step, with the short replay run of the real code beside it
    ms = cfg.get("ms", 5000) if tier == "quick" else cfg.get("ms_thorough", 120000)
    for a in sys.argv:
        if a.startswith("--ms="): ms = int(a[5:])
    with ThreadPoolExecutor(2) as ex:
        fL = ex.submit(lean, cfg["lean"]) if cfg.get("lean") else None
        fH = ex.submit(harness, hbin, pid, seed, ms, lits, tmp, tier) if "--no-harness" not in sys.argv else None
        D = run_verus(pid, tier, tmp, xbin, checks) if "--no-verus" not in sys.argv else {"failed": {}, "undecided": {}, "overall": "skipped", "meta": {"fns": [], "missing": [], "notes": [], "dropped": []}, "res": None, "cmd": ""}
        H = fH.result() if fH else {"cases": 0}
        L = fL.result() if fL else {}
    fns = D["meta"]["fns"]
    owned = [f for f in fns if pid in f["props"]]
    okeys = set(f["key"] for f in owned)
    mine = {k: v for k, v in D["failed"].items() if k in okeys}
    lem = {k: v for k, v in D["failed"].items() if k.startswith("lemma@")}
    other = {k: v for k, v in D["failed"].items() if k not in okeys and not k.startswith("lemma@")}
    for k, v in D["failed"].items():
        log(f"obligation failed: {k}"); [log(t) for t in v[:2]]
    for k, v in D["undecided"].items():
        if k in okeys or not okeys: log(f"undecided: {k}: {v}")
    if D["overall"]: log("undecided:", D["overall"])
    # 2. an obligation failed or could not be decided: search longer for a failing input
    suspicious = bool(mine) or bool(other) or bool(D["overall"]) or any(k in D["undecided"] for k in okeys) or bool(D["meta"]["missing"])
    if suspicious and ms < 45000 and fH and not H.get("violation") and "--no-verus" not in sys.argv and not any(a.startswith("--ms=") for a in sys.argv):
        H = harness(hbin, pid, seed, 45000, lits, tmp, tier)
    if H.get("error"):
        log("harness:", H["error"])
    viol = 0
    rc = 0
    rp = f"{V}/replay/{pid}.txt"
    if H.get("violation"):
        v = H["violation"]
        kf = [(m, t) for m, t in known_findings(pid) if m in v.get("sig", "")] if v.get("sig") else []
        viol = 1; rc = 1
        with open(rp, "w") as f:
            f.write(f"property {pid}\nfailing input (case {v['index']}, seed {seed}):\n{v['case']}\nexpected: {v['expected']}\nactual:   {v['actual']}\n\nreplay: {hbin} one {pid} {v['index']} --seed {seed} --lits FILE   (FILE: integer literals below, one per line)\nliterals: {' '.join(open(lits).read().split())}\n")
            for k, t in D["failed"].items(): f.write(f"\nfailed obligation: {k}\n" + "\n".join(t) + "\n")
        log(f"input: {v['case']}\nexpected: {v['expected']}\nactual: {v['actual']}")
        log(f"VIOLATION property={pid} replay={rp}")
    elif mine:
        viol = 1; rc = 1
        with open(rp, "w") as f:
            f.write(f"property {pid}\nno failing input found ({H.get('cases')} inputs tried); the verifier rejects these obligations, which it accepts on the unchanged tree:\n")
            for k, t in mine.items(): f.write(f"\nfailed obligation: {k}\n" + "\n".join(t) + "\n")
        log(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    for m, t in known_findings(pid):
        log(f"KNOWN-FINDING: property={pid} {t}")
    # 3. evidence
    vres = (D["res"] or {}).get("out") or {}
    nver = vres.get("verification-results", {}).get("verified", 0)
    nerr = vres.get("verification-results", {}).get("errors", 0)
    smt = vres.get("times-ms", {}).get("smt", {})
    body = [f for f in owned if f["mode"] == "body"]
    lost = sorted(k for k in D["undecided"] if k in okeys)
    vac = vacuity(pid, tmp, xbin, checks) if tier == "thorough" and "--no-verus" not in sys.argv and not D["overall"] else None
    kinds = sorted(set(k for f in owned for k in f["edits"]))
    bounded = cfg.get("bounded", [])
    trusted_fns = sorted(set(f["key"] for f in fns if f["mode"] == "trusted"))
    assumed = sorted(set(f["key"] + " (" + f["why"] + ")" for f in fns if f["mode"] == "assumed"))
    shim = scan_trusted()
    cov = {
        "obligations": nver + nerr + len(lost), "discharged": nver,
        "checker_cmd": D["cmd"].replace(tmp, "<extraction>"),
        "back_end": "Verus " + str(vres.get("verus", {}).get("version", vres.get("times-ms", {}).get("verus-build", {}).get("version", "?"))) + " with its bundled Z3",
        "functions_under_contract": sorted(set(f["label"] for f in body)),
        "functions_undecided": {k: D["undecided"][k] for k in lost},
        "overall_undecided": D["overall"],
        "failed_obligations": {k: v[:1] for k, v in D["failed"].items()},
        "solver_ms": smt.get("total", 0), "verus_ms": vres.get("times-ms", {}).get("total", 0),
        "extraction_rewrites": kinds,
        "dropped_by_extraction": D["meta"]["dropped"] if tier == "thorough" else len(D["meta"]["dropped"]),
        "trusted_base": ["Verus and Z3", "the extractor /verif/extract (rewrites listed in extraction_rewrites and DESIGN.md)"] + shim + ["contract assumed, not proved: " + k for k in trusted_fns],
        "assumed_here_discharged_by_other_checks": assumed,
        "axioms_discharged_by_lean": L,
        "vacuity": vac,
        "bounded_parts": bounded,
        "evaluations": H.get("cases", 0), "distinct_nontrivial": H.get("distinct", 0),
        "rule": "inputs for the real functions generated from the seed (small exhaustive-like sizes first, then integer literals of the source, then random); non-trivial by the per-property rule in harness/src; compared with an independent oracle. This is the replay / bounded stand-in, not counted as proved.",
        "samples": H.get("samples", []),
        "explanation": cfg.get("explanation", ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov, "assumptions": cfg.get("assumptions", []) + ["the external crates behave as the shim contracts in contracts/prelude.rs say", "see trusted_base"], "wall_s": round(time.time() - T0, 2), "violations": viol}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    log(f"{pid}: verified {nver}, failed {nerr}, undecided {len(lost)}{' (' + D['overall'] + ')' if D['overall'] else ''}; {H.get('cases', 0)} inputs replayed; {time.time() - T0:.1f}s")
    if H.get("error") and rc == 0:
        return 2 if not (nver and not suspicious) else 0
    return rc

def scan_trusted():
    s = open(V + "/contracts/prelude.rs").read() + open(V + "/contracts/prelude_ops.rs").read()
    out = [f"shim contracts of contracts/prelude*.rs: {s.count('external_body')} external_body items, {s.count('uninterp')} uninterpreted functions"]
    for f in sorted(os.listdir(V + "/contracts")):
        if f.startswith("lib_") or f.endswith(".vc"):
            t = re.sub(r"//.*", "", open(os.path.join(V, "contracts", f)).read())
            for m in re.finditer(r"\b(assume|admit)\s*\(|\baxiom\s+fn\s+(\w+)", t): out.append(f"{f}: {m.group(0)}")
            n = len(re.findall(r"external_body", t)); a = len(re.findall(r"\bassume_specification\b", t))
            if n: out.append(f"{f}: {n} external_body items")
            if a: out.append(f"{f}: {a} assumed contracts of std functions")
    return out

if __name__ == "__main__":
    sys.exit(main())
