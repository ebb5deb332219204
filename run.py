#!/usr/bin/env python3
"""run.py <property>: decide one property of /repo's working tree.

1. proof     every unit of the property is re-extracted from /repo's sources (tool/, `vx`)
             and handed to Verus; every obligation must be discharged, and a second
             run with `assert(false)` behind each precondition must fail everywhere.
2. execution the property's harness binary (harness/) is rebuilt against /repo's crates
             and evaluates the same contracts on the running code: it replays a failed
             obligation on real inputs, and stands in (bounded, labelled so) for the
             functions around the proved ones that the verifier cannot take.

exit 0  every obligation discharged and no executed case broke the property (known
        findings are printed); a unit the extractor/verifier cannot take any more is
        undecided: the evidence then says so, and only the executed part decides.
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
VX = f"{V}/tool/target/debug/vx"
TARGET = f"{V}/target"
CONF = json.load(open(f"{V}/checks.json"))
RLIMIT = "40"

PROOF_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
              "could not prove termination", "recommendation not met", "unable to prove", "index out of bounds",
              "cannot prove", "failed precondition", "failed this postcondition", "Could not automatically infer triggers")


NOBODY = 65534


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def sh(cmd, timeout, env=None, cwd=None, **kw):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, preexec_fn=limit, **kw, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode("utf8", "replace") + "\n[timeout]"


def rust_env():
    return {"RUSTUP_TOOLCHAIN": "1.72.1", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
            "CARGO_TARGET_DIR": TARGET, "RUST_BACKTRACE": "0"}


# ---------------------------------------------------------------- proof
def functions(rs):
    """line ranges of the extracted functions in a generated unit"""
    out, cur = [], None
    for n, l in enumerate(rs.split("\n"), 1):
        m = re.match(r"/\*VX-FN (.+) (\S+):(\d+)\*/", l)
        if m:
            cur = [n, None, m.group(1), m.group(2), int(m.group(3))]
        elif l.startswith("/*VX-END*/") and cur:
            cur[1] = n
            out.append(cur)
            cur = None
    return out


def trusted(rs):
    """every assumption left in the generated unit, mechanically"""
    t = []
    lines = rs.split("\n")
    ty = ""
    for i, l in enumerate(lines):
        m = re.match(r"(?:pub )?(?:impl(?:<[^{]*?>)? (.*?)|trait (\w+).*) \{", l)
        if m:
            ty = (m.group(1) or m.group(2)) + "::"
        elif l.startswith("}") or re.match(r"(pub )?(fn|struct|enum|proof|open|uninterp|broadcast)", l):
            ty = ""
        if "external_body]" in l:
            rest = [l.split("external_body]", 1)[1]] + lines[i + 1:i + 6]
            for k in rest:
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", k)
                if m:
                    t.append(f"external_body {m.group(1)} {ty if m.group(1) == 'fn' and (k.startswith(' ') or ty) else ''}{m.group(2)}")
                    break
        m = re.search(r"uninterp spec fn (\w+)", l)
        if m:
            t.append(f"uninterpreted {m.group(1)}")
        m = re.search(r"\b(assume|admit)\s*\(", l)
        if m and not l.strip().startswith("//"):
            t.append(f"{m.group(1)} at: {l.strip()[:100]}")
        if re.search(r"\baxiom fn|broadcast axiom", l):
            t.append(f"axiom: {l.strip()[:100]}")
        m = re.search(r"assume_specification.*?\[ (.+?) \]\(", l)
        if m:
            t.append(f"assumed specification of {m.group(1).strip()}")
    return sorted(set(t))


def errors(text):
    out = []
    for b in re.split(r"\n(?=error|note: |warning)", "\n" + text):
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n")[0]
        if head.startswith("error: aborting"):
            continue
        m = re.search(r"-->\s+\S+?:(\d+):(\d+)", b)
        line = int(m.group(1)) if m else 0
        spans = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", b, re.M)]
        out.append({"head": head, "line": line, "lines": spans, "text": b})
    return out


def fn_of(fns, lines):
    for l in lines:
        for f in fns:
            if f[0] <= l <= f[1]:
                return f"{f[2]} ({f[3]}:{f[4]})"
    return None


def verus(rs_path, extra=()):
    return sh(["verus", rs_path, "--triggers-mode", "silent", "--rlimit", RLIMIT, "--time", "--multiple-errors", "3", *extra],
              800, {"RUSTUP_TOOLCHAIN": ""}, os.path.dirname(rs_path))


def run_unit(u, pid, only=None):
    d = f"{V}/build/{u}"
    os.makedirs(d, exist_ok=True)
    r = {"unit": u, "status": "proved", "why": "", "failed": [], "functions": [], "obligations": 0, "discharged": 0,
         "solver_s": 0.0, "trusted": [], "vacuity": ""}
    rs, rep = f"{d}/{u}.rs", f"{d}/{u}.json"
    rc, out = sh([VX, REPO, f"{V}/contracts/{u}.vrs", rs, rep, "--prop", pid], 60)
    if rc != 0:
        r["status"], r["why"] = "undecided", out.strip()[-400:]
        return r
    text = open(rs).read()
    fns = functions(text)
    r["functions"] = [f"{f[2]} ({f[3]}:{f[4]})" for f in fns if not only or any(re.fullmatch(o, f[2]) for o in only)]
    r["trusted"] = trusted(text)
    vrs, vrep = f"{d}/{u}_vac.rs", f"{d}/{u}_vac.json"
    sh([VX, REPO, f"{V}/contracts/{u}.vrs", vrs, vrep, "--vacuity", "--prop", pid], 60)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(verus, rs)
        b = ex.submit(verus, vrs)
        (rc, out), (vrc, vout) = a.result(), b.result()
    open(f"{d}/verus.log", "w").write(out)
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    errs = errors(out)
    t = re.search(r"total-time:\s+(\d+) ms", out) or re.search(r"verification-time:\s+(\d+)", out)
    st = re.search(r"smt-run:?\s+(\d+)", out) or re.search(r"total smt-run:\s+(\d+)", out)
    r["solver_s"] = int(st.group(1)) / 1000.0 if st else (int(t.group(1)) / 1000.0 if t else 0.0)
    if m:
        r["discharged"], e = int(m.group(1)), int(m.group(2))
        r["obligations"] = r["discharged"] + e
    real = [e for e in errs if any(k in e["head"] for k in PROOF_FAIL)]
    other = [e for e in errs if e not in real]
    if not m or (other and not real) or any("rlimit" not in e["head"] and "Resource limit" not in e["head"] for e in other):
        # not verification failures: the text is outside the verifier's language now
        r["status"], r["why"] = "undecided", "; ".join(e["head"] for e in other)[:400] or out.strip()[-300:]
        r["log"] = out[-3000:]
    elif real:
        for e in real:
            r["failed"].append({"obligation": e["head"].replace("error: ", ""),
                                "function": fn_of(fns, e["lines"] + [e["line"]]) or "lemma", "detail": e["text"][:1500]})
        # functions of the unit that this property does not rest on are other properties' to report
        mine = [f for f in r["failed"] if not only or f["function"] == "lemma" or any(re.match(o + r" \(", f["function"]) for o in only)]
        if mine:
            r["status"], r["failed"] = "failed", mine
        else:
            r["status"], r["why"], r["failed"] = "undecided", "only functions this property does not rest on fail: " + ", ".join(sorted({f["function"] for f in r["failed"]})), []
    elif m and int(m.group(2)) != 0:
        r["status"], r["why"] = "undecided", out.strip()[-300:]
    if r["obligations"] == 0 and r["status"] == "proved":
        r["status"], r["why"] = "undecided", "no obligations generated"
    # vacuity: each inserted assert(false) must be reported
    if r["status"] == "proved":
        hit = set()
        vt = open(vrs).read().split("\n") if os.path.exists(vrs) else []
        want = {i for i, l in enumerate(vt, 1) if "VX-VACUITY" in l}
        for e in errors(vout):
            hit |= {x for x in e["lines"] + [e["line"]] if x in want}
        r["vacuity"] = f"{len(hit)}/{len(want)} reachability asserts fail as they must"
        if hit != want:
            # an unreachable body proves anything: not a proof
            missing = [fn_of(functions("\n".join(vt)), [x]) for x in sorted(want - hit)]
            r["status"], r["why"] = "undecided", f"vacuous: {missing}"
    return r


# ---------------------------------------------------------------- execution
def crate_hashes():
    out = {}
    roots = {"orogene": [f"{REPO}/src", f"{REPO}/Cargo.toml"]}
    for c in sorted(os.listdir(f"{REPO}/crates")):
        roots[c] = [f"{REPO}/crates/{c}"]
    for c, ps in roots.items():
        h = hashlib.sha256()
        for p in ps:
            fs = [p] if os.path.isfile(p) else sorted(os.path.join(a, f) for a, _, ff in os.walk(p) for f in ff
                                                      if "/target" not in a and "/tests" not in a and "/fixtures" not in a)
            for f in fs:
                h.update(f.encode())
                try:
                    h.update(open(f, "rb").read())
                except OSError:
                    pass
        out[c] = h.hexdigest()
    return out


def build(bins):
    """cargo decides by mtime; do not trust it across copied trees"""
    os.makedirs(TARGET, exist_ok=True)
    hp = f"{TARGET}/vh-hashes.json"
    new = crate_hashes()
    try:
        old = json.load(open(hp))
    except Exception:
        old = {}
    for c in new:
        if old and old.get(c) != new[c]:
            fp = f"{TARGET}/debug/.fingerprint"
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if re.fullmatch(re.escape(c) + r"-[0-9a-f]+", x):
                        shutil.rmtree(f"{fp}/{x}", ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    rc, out = sh(cmd, 840, rust_env(), f"{V}/harness")
    if rc == 0:
        json.dump(new, open(hp, "w"))
    return rc, out


def run_harness(pid, c, tier, seed):
    if not c.get("bin"):
        return None
    t0 = time.time()
    rc, out = build([c["bin"]] + c.get("more_bins", []))
    if rc != 0:
        return {"status": "unbuilt", "why": out[-1500:], "findings": [], "cases": 0, "notes": []}
    bt = time.time() - t0
    budget = c.get("budget", {}).get(tier, 20 if tier == "quick" else 240)
    res = f"{V}/build/{pid}.run.json"
    os.makedirs(f"{V}/build", exist_ok=True)
    if os.path.exists(res):
        os.remove(res)
    scratch = f"/tmp/vh-{pid}-{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    env = {"TMPDIR": scratch, "HOME": f"{scratch}/home", "VH_REPO": REPO}
    os.makedirs(env["HOME"], exist_ok=True)
    # what runs here installs packages with hostile names: as a user that owns nothing but this directory
    kw = {}
    if os.geteuid() == 0:
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
        for d in (scratch, env["HOME"]):
            os.chown(d, NOBODY, NOBODY)
    tmp = f"{scratch}/result.json"
    try:
        rc, out = sh([f"{TARGET}/debug/{c['bin']}", "--seed", str(seed), "--tier", tier, "--out", tmp, "--budget", str(budget)],
                     c.get("timeout", {}).get(tier, 420 if tier == "quick" else 1800), env, scratch, **kw)
        if os.path.exists(tmp):
            shutil.copyfile(tmp, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if os.path.exists(res):
        d = json.load(open(res))
        d["status"] = "ran"
    else:
        d = {"status": "crashed", "why": f"exit {rc}: {out[-1500:]}", "findings": [], "cases": 0, "notes": []}
    d["build_s"] = round(bt, 1)
    d["rc"] = rc
    return d


# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CONF[pid]
    t0 = time.time()
    with ThreadPoolExecutor(4) as ex:
        uf = [ex.submit(run_unit, u, pid, c.get("only", {}).get(u)) for u in c.get("units", [])]
        hf = ex.submit(run_harness, pid, c, tier, seed)
        units = [f.result() for f in uf]
        h = hf.result()

    known = json.load(open(f"{V}/known-findings.json"))
    mine = {k["key"]: k for k in known["known"] if k["property"] == pid}
    failed = [dict(f, unit=u["unit"]) for u in units for f in u["failed"]]
    undecided = [u for u in units if u["status"] == "undecided"]
    findings = (h or {}).get("findings", [])
    new = [f for f in findings if f["key"] not in mine]
    old = [f for f in findings if f["key"] in mine]

    proof_ok = bool(units) and not failed and not undecided
    level = c["level"] if (proof_ok or not units) else "exploration"
    cov = {
        "obligations": sum(u["obligations"] for u in units),
        "discharged": sum(u["discharged"] for u in units),
        "checker_cmd": f"vx (syn extraction) + verus --rlimit {RLIMIT} on " + ", ".join(f"contracts/{u}.vrs" for u in c.get("units", [])),
        "trusted_base": sorted(set(sum((u["trusted"] for u in units), []))) + c.get("trusted", []),
        "functions_under_contract": sum((u["functions"] for u in units), []),
        "solver_s": round(sum(u["solver_s"] for u in units), 2),
        "backend": "Verus 0.2026.09.13 / Z3",
        "vacuity": {u["unit"]: u["vacuity"] for u in units},
        "units": {u["unit"]: u["status"] + (": " + u["why"] if u["why"] else "") for u in units},
    }
    if not units:
        for k in ("obligations", "discharged", "checker_cmd", "functions_under_contract", "solver_s", "backend", "vacuity", "units"):
            cov.pop(k)
        cov["trusted_base"] = c.get("trusted", [])
    if h:
        cov["bounded"] = c.get("bounded", "")
        cov["evaluations"] = h.get("cases", 0)
        cov["distinct_nontrivial"] = h.get("distinct", h.get("cases", 0))
        cov["rule"] = c.get("rule", "")
        cov["samples"] = h.get("samples", [])[:8] or h.get("notes", [])[:8]
        cov["execution"] = {"status": h["status"], "why": h.get("why", ""), "notes": h.get("notes", [])[:40]}
    cov["explanation"] = "undecided units: " + "; ".join(f"{u['unit']}: {u['why']}" for u in undecided) if undecided else "all units decided"
    viol = bool(new or failed)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new) + (1 if failed else 0)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)

    for f in old:
        print(f"KNOWN-FINDING: property={pid} {mine[f['key']]['what']}")
    for u in units:
        print(f"unit {u['unit']}: {u['status']} ({u['discharged']}/{u['obligations']} obligations, {len(u['functions'])} functions under contract, {u['vacuity']}) {u['why']}")
    if h:
        print(f"execution: {h['status']}, {h.get('cases', 0)} cases, {len(findings)} findings {h.get('why', '')[:600]}")
    if viol:
        os.makedirs(f"{V}/replay", exist_ok=True)
        rp = f"{V}/replay/{pid}.json"
        json.dump({"property": pid, "seed": seed, "tier": tier, "failing_inputs": new, "failed_obligations": failed,
                   "command": f"python3 {V}/run.py {pid}"}, open(rp, "w"), indent=1)
        for f in failed[:6]:
            print(f"failed obligation: {f['function']}: {f['obligation']}")
        for f in new[:6]:
            print(f"failing input [{f['key']}]: {f.get('what', '')[:300]}")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if new else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
