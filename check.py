#!/usr/bin/env python3
"""check.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)

1. macro-expands /repo's current tree with the compiler, 2. extracts the functions under contract and
attaches the contracts of specs/ (tool: vx), 3. lets Verus discharge every obligation, 4. drives the
real code through the native harness in search of a concrete failing input, 5. writes the evidence.
"""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(VERIF, "target")
VERUS_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "possible bit shift underflow/overflow", "decreases not satisfied", "assertion not satisfied",
    "unable to prove", "cannot prove", "constructed value may fail to meet its declared type invariant",
    "loop must have a decreases", "recommendation not met", "failed precondition", "index out of bounds",
    "termination",
)


def env(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if extra:
        e.update(extra)
    return e


def run(cmd, timeout, cwd=VERIF, extra=None, out=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, so, se = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, so, se = -9, (x.stdout or b"").decode("utf8", "replace"), "timeout"
    return rc, so, se, time.time() - t


# ---------------------------------------------------------------- steps
def build_vx():
    rc, so, se, t = run(["cargo", "build", "--offline", "--quiet"], 300, os.path.join(VERIF, "vx"), {"CARGO_TARGET_DIR": TGT + "/vx"})
    if rc:
        raise Step("the extractor does not build: " + se[-800:])
    return TGT + "/vx/debug/vx"


class Step(Exception):
    pass


def expand(work):
    """The crate after macro expansion, as the compiler sees it."""
    rc, so, se, t = run(
        ["cargo", "rustc", "--offline", "--lib", "--profile=check", "--features", "serde", "--", "-Zunpretty=expanded"],
        400, REPO, {"CARGO_TARGET_DIR": TGT + "/expand", "RUSTC_BOOTSTRAP": "1"})
    if rc == 101 and "profile" in se and "check" in se:
        rc, so, se, t = run(
            ["cargo", "rustc", "--offline", "--lib", "--features", "serde", "--", "-Zunpretty=expanded"],
            400, REPO, {"CARGO_TARGET_DIR": TGT + "/expand", "RUSTC_BOOTSTRAP": "1"})
    if rc or len(so) < 1000:
        raise Step("macro expansion failed: " + se[-800:])
    f = work + "/expanded.rs"
    open(f, "w").write(so)
    return f


def expand_samples(work):
    """The sample models, with what the derive macros of the current tree make of them."""
    rc, so, se, t = run(["cargo", "rustc", "--offline", "--lib", "--profile=check", "--", "-Zunpretty=expanded"],
                        400, VERIF + "/samples", {"CARGO_TARGET_DIR": TGT + "/samples", "RUSTC_BOOTSTRAP": "1"})
    if rc or len(so) < 1000:
        raise Step("macro expansion of the sample models failed: " + se[-800:])
    with open(work + "/expanded.rs", "a") as f:
        f.write("\nmod samples {\n" + "\n".join(l for l in so.split("\n") if not l.startswith(("#![", "extern crate"))) + "\n}\n")


class Refused(Step):
    """The macros no longer accept the sample models, though the crate itself builds."""


def build_harness(models=False):
    """The native harness, with the guarded hooks if they still compile; without the sample models if they do not."""
    last = ""
    for samples in (True, False):
        for hooks in (True, False):
            tgt = TGT + "/harness" + ("" if samples else "-nosamples") + ("" if hooks else "-nohooks")
            ex = {"CARGO_TARGET_DIR": tgt}
            if hooks:
                ex["RUSTFLAGS"] = "--cfg vx_hooks"
            rc, so, se, t = run(["cargo", "build", "--offline", "--quiet"] + ([] if samples else ["--no-default-features"]), 500, os.path.join(VERIF, "harness"), ex)
            if rc == 0:
                if models and not samples:
                    rc, so, se, t = run(["cargo", "build", "--offline", "--quiet"], 400, VERIF + "/samples", {"CARGO_TARGET_DIR": TGT + "/samples"})
                    raise Refused(se[:3000]) if rc else Step("the harness does not build: " + last[-800:])
                return tgt + "/debug/vh", hooks
            last = last or se
    raise Step("the harness does not build: " + last[-800:])


def closure(units):
    """The units and everything they use, in order of use."""
    res = []

    def visit(u):
        if u in res:
            return
        for l in open(f"{VERIF}/specs/{u}.vs"):
            if l.startswith("%use "):
                for x in l.split()[1:]:
                    visit(x)
        if u not in res:
            res.append(u)
    for u in units:
        visit(u)
    return res


def extract(vx, expanded, unit, work, smoke=False):
    """One unit: its functions with their bodies, those of the units it uses by contract."""
    tag = unit + ("-smoke" if smoke else "")
    out, rep = f"{work}/{tag}.rs", f"{work}/{tag}.json"
    for p in (out, rep):
        if os.path.exists(p):
            os.unlink(p)
    rc, so, se, t = run([vx, "--expanded", expanded, "--specs", VERIF + "/specs", "--units", unit, "--only", unit, "--out", out, "--report", rep] + (["--smoke"] if smoke else []), 120)
    report = json.load(open(rep)) if os.path.exists(rep) else {"lost": [], "functions": [], "rewrites": {}}
    if rc not in (0, 3) or not os.path.exists(out):
        raise Step("extraction failed: " + (se or so)[-800:])
    return out, report


def verus(path, timeout, args=()):
    rc, so, se, t = run(["verus", "--edition", "2021", path, "--output-json", "--time", *args], timeout, os.path.dirname(path))
    try:
        j = json.loads(so[so.index("{"):])
    except Exception:
        j = {}
    return rc, j, se, t


def blocks(se):
    """The diagnostics of a run: (message, first line of the file, text)."""
    res = []
    for m in re.finditer(r"^(error|warning)(\[[^\]]*\])?: (.*?)(?=^(?:error|warning)(?:\[[^\]]*\])?: |\Z)", se, re.S | re.M):
        if m.group(1) != "error":
            continue
        body = m.group(0)
        line = re.search(r"-->\s*[^\s:]+:(\d+):", body)
        res.append((m.group(3).split("\n", 1)[0], int(line.group(1)) if line else 0, body, bool(m.group(2))))
    return res


def owners(path):
    """line -> function marker"""
    cur, res = None, {}
    for i, l in enumerate(open(path), 1):
        if l.startswith("//@fn "):
            cur = l[6:].strip()
        res[i] = cur
        if l.startswith("//@endfn"):
            cur = None
    return res


def judge(path, rc, j, se):
    """-> (state, failures, reason); state: proved | failed | undecided"""
    r = j.get("verification-results", {})
    bl = blocks(se)
    if rc == 0 and r.get("success") and not r.get("errors"):
        return "proved", [], ""
    if "timeout" == se:
        return "undecided", [], "the verifier ran out of time"
    own = owners(path)
    fails, other = [], []
    for msg, line, body, coded in bl:
        if msg.startswith("aborting due to") or msg.startswith("could not compile"):
            continue
        low = msg.lower()
        if not coded and any(k in low for k in VERUS_ERRORS):
            fn = own.get(line)
            fails.append({"obligation": msg, "function": fn or "(specification)", "line": line, "text": body.strip()[:1500]})
        else:
            other.append(msg)
    if other:
        return "undecided", fails, "the verifier rejects the extracted text: " + "; ".join(other)[:600]
    if fails:
        return "failed", fails, ""
    return "undecided", [], "the verifier gave no answer: " + se[-400:]


ASSUME = re.compile(r"external_body|\bassume\s*\(|\badmit\s*\(|external_type_specification|assume_specification|#\[verifier::external\]")


def trusted_base(path, report):
    """Mechanical scan of the verified text for everything that is assumed."""
    lines = open(path).read().split("\n")
    res = set()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "//@proved in unit" in s:
            continue
        if ASSUME.search(s):
            ctx = " ".join(x.strip() for x in lines[i:i + 3])
            m = re.search(r"(?:fn|struct|enum)\s+(\w+)", ctx)
            impl = ""
            for k in range(i, max(0, i - 60), -1):
                mm = re.match(r"\s*(?:pub )?impl\b(.*?)\{", lines[k])
                if mm and not lines[k].rstrip().endswith("}"):
                    impl = mm.group(1).strip()
                    break
                if re.match(r"^\}", lines[k]):
                    break
            res.add(f"{(impl + '::') if impl else ''}{m.group(1) if m else s[:80]}")
    for f in report["functions"]:
        if f.get("trusted"):
            res.add("assumed contract on crate function " + f["key"])
    return sorted(res)


def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == "setup":
        with cf.ThreadPoolExecutor(3) as ex:
            os.makedirs(TGT + "/work-setup", exist_ok=True)
            fs = [ex.submit(build_vx), ex.submit(build_harness), ex.submit(expand, TGT + "/work-setup")]
            for f in fs:
                f.result()
        expand_samples(TGT + "/work-setup")
        return 0
    props = json.load(open(VERIF + "/props.json"))
    cfg = props[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    thorough = tier == "thorough"
    work = f"{TGT}/work-{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replay", exist_ok=True)
    ev_path = f"{VERIF}/evidence/{pid}.json"
    limit = 420 if not thorough else 3000

    def proof_side():
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_vx), ex.submit(expand, work)
            vx, exp = a.result(), b.result()
        units = closure(cfg["units"])
        if cfg.get("models"):
            expand_samples(work)
        files = {u: extract(vx, exp, u, work) for u in units}
        lost = [x for u in units for x in files[u][1]["lost"]]
        if lost:
            # what is no longer where the contracts expect it cannot be decided here
            return {"state": "undecided", "why": "lost anchors: " + ", ".join(sorted(set(map(str, lost))))[:600]}

        def prove(u):
            out, rep = files[u]
            rc, j, se, t = verus(out, limit, ["--multiple-errors", "3", "--num-threads", "2"])
            open(f"{work}/{u}.err", "w").write(se)
            state, fails, why = judge(out, rc, j, se)
            stable = True
            if state == "failed" or "Resource limit" in why:
                # once more with another solver seed and more room: only what fails again counts
                rc2, j2, se2, t2 = verus(out, limit, ["--multiple-errors", "3", "--num-threads", "4", "--rlimit", "40", "--smt-option", "smt.random_seed=%d" % (seed + 7)])
                s2, fails2, why2 = judge(out, rc2, j2, se2)
                if s2 != "failed" or state != "failed":
                    state, fails, why, stable = s2, fails2, (why2 or why) if s2 != "proved" else "", False
                    j, t = j2, t + t2
                else:
                    names = {(f["function"], f["obligation"]) for f in fails2}
                    fails = [f for f in fails if (f["function"], f["obligation"]) in names] or fails2
            soft = dict(reversed(rep.get("soft", [])))
            if state == "failed" and soft:
                # without its proof hints a function that is not proved is not refuted either
                left = [f for f in fails if f["function"] not in soft]
                if not left:
                    state, why = "undecided", "lost anchors: " + ", ".join(sorted({soft[f["function"]] for f in fails}))[:600]
                fails = left
            r, smt = j.get("verification-results", {}), j.get("times-ms", {}).get("smt", {})
            return {"unit": u, "state": state, "fails": fails, "why": why and f"{u}: {why}", "t": t, "stable": stable,
                    "verified": r.get("verified", 0), "errors": r.get("errors", 0), "smt_ms": smt.get("smt-run", smt.get("total")) or 0}

        def probe(u):
            """`false` asserted at the start of each function: -> (placed, refuted by the solver, proved). Proved means contradictory premises."""
            sout, _ = extract(vx, exp, u, work, True)
            src, sj, sse, st = verus(sout, limit if thorough else min(limit, 150), ["--multiple-errors", "0", "--num-threads", "2"] + ([] if thorough else ["--rlimit", "1"]))
            own = owners(sout)
            placed = [own[i] for i, l in enumerate(open(sout), 1) if "//@smoke" in l]
            if not sj.get("verification-results"):
                return len(placed), 0, 0
            bl = blocks(sse)
            wrong = {own.get(line) for m, line, *_ in bl}
            return len(placed), sum(1 for m, *_ in bl if "assertion failed" in m), sum(1 for f in placed if f not in wrong)

        with cf.ThreadPoolExecutor(4) as ex:
            rs = [ex.submit(prove, u) for u in reversed(units)]
            ps = [ex.submit(probe, u) for u in (units if thorough else cfg["units"])]
            R = [f.result() for f in rs]
            S = [f.result() for f in ps]
        order = {"failed": 0, "undecided": 1, "proved": 2}
        worst = min(R, key=lambda r: order[r["state"]])
        fns, rewrites = [], {}
        for u in units:
            fns += [f for f in files[u][1]["functions"] if not f.get("elsewhere")]
        for k, v in (x for u in cfg["units"] for x in files[u][1].get("rewrites", {}).items()):
            rewrites[k] = max(v, rewrites.get(k, 0))
        return {"state": worst["state"], "fails": [f for r in R for f in r["fails"]], "why": worst["why"], "runs": R, "fns": fns, "rewrites": rewrites,
                "trusted": sorted({x for u in units for x in trusted_base(*files[u])}),
                "smoke": tuple(sum(s[i] for s in S) for i in range(3)), "stable": all(r["stable"] for r in R)}

    def native_side():
        vh, hooks = build_harness(bool(cfg.get("models")))
        out = work + "/native.json"
        rc, so, se, t = run([vh, pid, "--seed", str(seed), "--tier", tier, "--out", out], 600 if not thorough else 3000)
        if rc != 0 or not os.path.exists(out):
            # the harness catches panics, so this is an abort or an endless loop of the code under test
            raise Step(f"native search ended with {rc}: {se[-400:]}")
        d = json.load(open(out))
        d["wall"] = t
        return d

    refused = False
    with cf.ThreadPoolExecutor(2) as ex:
        fp, fn = ex.submit(proof_side), ex.submit(native_side)
        try:
            P = fp.result()
        except Step as x:
            P = {"state": "undecided", "why": str(x)}
        try:
            N = fn.result()
            nerr = None
        except Refused as x:
            N, nerr, refused = None, str(x), True
        except Step as x:
            N, nerr = None, str(x)

    K = known()
    if refused:
        N = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the sample models are compiled", "samples": [nerr[:1500]], "hooks": False, "wall": 0.0,
             "failures": [{"key": pid.lower() + "-compile", "detail": "the macros do not accept samples/src/lib.rs: " + nerr}]}
    kn = {k["key"]: k for k in K.get("known", []) if k["property"] == pid}
    viol, seen_known = [], {}
    for f in (N or {}).get("failures", []):
        if f["key"] in kn:
            seen_known[f["key"]] = f
        else:
            viol.append(f)

    # ---------------------------------------------------------------- verdict
    lines, code = [], 0
    for k in kn.values():
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    if P.get("smoke", (0, 0, 0))[2]:
        lines.append(f"note: {P['smoke'][2]} of {P['smoke'][0]} reachability probes found premises that cannot hold")
    if viol:
        rp = f"{VERIF}/replay/{pid}.json"
        json.dump({"property": pid, "seed": seed, "tier": tier,
                   "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {pid}",
                   "failing_inputs": viol, "proof": {k: P.get(k) for k in ("state", "why", "fails")}}, open(rp, "w"), indent=1)
        for v in viol[:8]:
            lines.append(f"failing input [{v['key']}] {v['detail']}")
        for f in (P.get("fails") or [])[:8]:
            lines.append(f"failed obligation: {f['function']}: {f['obligation']}")
        lines.append(f"VIOLATION property={pid} replay={rp}")
        code = 1
    elif P["state"] == "failed":
        rp = f"{VERIF}/replay/{pid}.json"
        json.dump({"property": pid, "failed_obligations": P["fails"],
                   "native_search": (N or {}).get("evaluations"), "native_error": nerr}, open(rp, "w"), indent=1)
        for f in P["fails"][:8]:
            lines.append(f"failed obligation: {f['function']}: {f['obligation']}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        code = 1
    elif P["state"] == "undecided":
        lines.append(f"UNDECIDED by proof ({P['why']}); bounded native search " + ("found nothing" if N else f"did not run: {nerr}"))
        if not N:
            code = 3
    else:
        lines.append(f"{pid}: all obligations discharged; native search " + (f"{N['evaluations']} cases, nothing found" if N else f"did not run: {nerr}"))

    # ---------------------------------------------------------------- evidence
    cov, level = {}, "other"
    if N:
        cov.update({"evaluations": N["evaluations"], "distinct_nontrivial": N["distinct_nontrivial"], "rule": N["rule"], "samples": N["samples"],
                    "native_hooks": N["hooks"], "native_wall_s": round(N["wall"], 1)})
        level = "exploration"
    if P.get("runs"):
        R = P["runs"]
        cov.update({"obligations": sum(r["verified"] + r["errors"] for r in R), "discharged": sum(r["verified"] for r in R),
                    "counting": "functions and lemmas accepted per unit, each unit in a run of its own; a run takes the contracts and lemmas of the units it uses as stated",
                    "checker_cmd": f"verus --edition 2021 {work}/UNIT.rs for UNIT in {' '.join(r['unit'] for r in R)} (each generated from /repo on this run by vx)",
                    "units": {r["unit"]: {k: r[k] for k in ("state", "verified", "errors", "smt_ms")} for r in R},
                    "trusted_base": P["trusted"],
                    "functions_under_contract": [f["key"] for f in P["fns"] if not f.get("trusted")],
                    "functions_assumed": [f["key"] for f in P["fns"] if f.get("trusted")],
                    "rewrites": P["rewrites"], "loops_with_invariants": sum(f.get("loops", 0) for f in P["fns"]),
                    "backend": "Verus (Z3)", "solver_ms": sum(r["smt_ms"] for r in R), "verus_wall_s": round(sum(r["t"] for r in R), 1),
                    "reachability_probes": {"placed": P["smoke"][0], "reached": P["smoke"][1], "contradictory": P["smoke"][2]}})
        if P["state"] == "proved" and cov["obligations"] > 0:
            level = cfg.get("level", "proof")
        if level == "translation_validation":
            cov["programs"] = len(re.findall(r"derive\([^)]*FromQueryResult", open(VERIF + "/samples/src/lib.rs").read()))
            cov["disagreements_checked"] = sum(r["verified"] + r["errors"] for r in R if r["unit"] in cfg.get("per_program", []))
    cov["proof_state"] = P["state"]
    if P.get("why"):
        cov["proof_undecided_because"] = P["why"]
    cov["bounded"] = "the native search is bounded and is not counted as proof"
    cov["explanation"] = cfg.get("explanation", "")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": cfg.get("assumptions", []) + props["_common"]["assumptions"],
               "known_findings_seen": sorted(seen_known), "wall_s": round(time.time() - t0, 1), "violations": len(viol) + (1 if P["state"] == "failed" and not viol else 0)},
              open(ev_path, "w"), indent=1)
    print("\n".join(lines))
    return code


if __name__ == "__main__":
    sys.exit(main())
