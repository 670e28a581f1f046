#!/usr/bin/env python3
"""Decides one property:  check.py ID [quick|thorough]

1. vextract takes the functions the property depends on from /repo's current sources, weaves in the
   contracts of units/*.unit, and Verus has to discharge every obligation.
2. The concrete companion (harness/) runs the real crate on generated inputs: it turns a failed
   obligation into a failing input, and stands in (labelled bounded) where the sources have taken a
   form that the extraction does not cover.
Outcome: exit 0, or exit 1 with a VIOLATION line.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VERUS_ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1")
VERUS_TIMEOUT = 400

def sh(cmd, env=None, cwd=None, timeout=None):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, d(e.stdout), d(e.stderr)

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def cargo(args, cwd, target, log):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    rc, o, e = sh(["cargo"] + args + ["--offline"], env=env, cwd=cwd, timeout=600)
    open(log, "w").write(o + e)
    return rc == 0, o + e

def build_extract():
    key = tree_hash(os.path.join(VERIF, "extract"))
    d = os.path.join(BUILD, "extract-" + key)
    exe = os.path.join(d, "release", "vextract")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        ok, log = cargo(["build", "--release"], os.path.join(VERIF, "extract"), d, os.path.join(BUILD, "extract.log"))
        if not ok: raise SystemExit("cannot build the extractor:\n" + log[-4000:])
    return exe

def build_harness(kind="harness"):
    """The companion, built against the current sources; None if these do not build."""
    key = tree_hash(os.path.join(VERIF, kind), REPO)
    d = os.path.join(BUILD, kind + "-" + key)
    exe = os.path.join(d, "release", "verif-" + kind)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(kind + "-")), key=os.path.getmtime)
        for x in old[:-2]: shutil.rmtree(x, ignore_errors=True)
        src = os.path.join(d, "src-copy")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, kind), src, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(src, "Cargo.toml")).read().replace("/repo/", REPO.rstrip("/") + "/")
        open(os.path.join(src, "Cargo.toml"), "w").write(t)
        ok, log = cargo(["build", "--release"], src, d, os.path.join(BUILD, kind + ".log"))
        if not ok: return None, log[-3000:]
    return exe, ""

def build_libmgen():
    """The generator program of the current sources; None if it does not build."""
    d = os.path.join(BUILD, "libmgen-" + tree_hash(REPO))
    exe = os.path.join(d, "debug", "libmgen")
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("libmgen-")), key=os.path.getmtime)
        for x in old[:-2]: shutil.rmtree(x, ignore_errors=True)
        ok, log = cargo(["build", "-p", "libmgen"], REPO, d, os.path.join(BUILD, "libmgen.log"))
        if not ok: return None, log[-3000:]
    return exe, ""

def run_unit(exe, unit, tag, out, probe=False, extra=(), facts=None):
    """Extract and verify. Returns a dict."""
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, VEXTRACT_TAG=tag)
    env.pop("VEXTRACT_FACTS", None)
    if facts: env["VEXTRACT_FACTS"] = facts
    if probe: env["VEXTRACT_PROBE"] = "1"
    t0 = time.time()
    rc, o, e = sh([exe, os.path.join(VERIF, "units", unit + ".unit"), REPO, out], env=env, timeout=120)
    r = dict(unit=unit, state="lost", why="", verified=0, errors=0, smt_ms=0, functions=[], failed=[], log="")
    if rc != 0:
        r["why"] = (e or o).strip()[-600:]
        return r
    r["functions"] = json.load(open(os.path.join(out, unit + ".json")))["functions"]
    cmd = ["verus", unit + ".rs", "--output-json", "--time", "--triggers-mode", "silent", "--multiple-errors", "4", "--no-report-long-running"] + list(extra)
    r["cmd"] = " ".join(cmd)
    rc, o, e = sh(cmd, env=VERUS_ENV, cwd=out, timeout=VERUS_TIMEOUT)
    r["wall"] = round(time.time() - t0, 1)
    r["log"] = e
    try:
        j = json.loads(o)
        v = j["verification-results"]
    except Exception:
        r["why"] = ("timeout" if rc == 124 else "Verus gave no result: ") + e[-600:]
        return r
    false = re.findall(r"^error: expression simplifies to false\n\s*--> ([^\n:]+):(\d+):", e, re.M)
    if v.get("encountered-vir-error") and false and all(m.startswith(("aborting", "expression simplifies to false")) for m in re.findall(r"^error: (.*)$", e, re.M)) and not re.search(r"^error\[", e, re.M):
        # an obligation decided by evaluation
        text = open(os.path.join(out, unit + ".rs")).read().split("\n")
        r["errors"], r["state"] = len(false), "failed"
        for _, ln in false: r["failed"].append(dict(obligation="evaluates to false", line=int(ln), text=text[int(ln) - 1].strip()[:200], function=enclosing(text, int(ln))))
        return r
    if v.get("encountered-vir-error") or "verified" not in v or (v["verified"] == 0 and v["errors"] == 0):
        r["why"] = "Verus does not accept the extracted text: " + first_errors(e)
        return r
    r["verified"], r["errors"] = v["verified"], v["errors"]
    smt = j.get("times-ms", {}).get("smt", {})
    r["smt_ms"] = smt.get("smt-run", 0)
    fb = []
    for m in smt.get("smt-run-module-times", []): fb += m.get("function-breakdown", [])
    r["fn_obligations"] = [dict(function=x["function"].split("::", 1)[-1], ms=x["time"], ok=x["success"], rlimit=x.get("rlimit")) for x in fb]
    if v["success"] and v["errors"] == 0:
        r["state"] = "proved"
        return r
    # A failed obligation, or only a resource limit?
    msgs = [m for m in re.findall(r"^error: (.*)$", e, re.M) if not m.startswith("aborting")]
    hard = [m for m in msgs if "Resource limit" not in m and "rlimit" not in m]
    text = open(os.path.join(out, unit + ".rs")).read().split("\n")
    for m in re.finditer(r"^error: (.*)\n(?:.*\n)*?\s*--> ([^\n:]+):(\d+):", e, re.M):
        ln = int(m.group(3))
        r["failed"].append(dict(obligation=m.group(1), line=ln, text=text[ln - 1].strip()[:200] if ln <= len(text) else "", function=enclosing(text, ln)))
    compile_err = re.findall(r"^error(\[E\d+\])", e, re.M)
    if compile_err or not hard:
        r["state"] = "lost"
        r["why"] = ("does not compile: " if compile_err else "resource limit: ") + first_errors(e)
    elif not r["errors"]:
        r["state"] = "lost"
        r["why"] = first_errors(e)
    else:
        r["state"] = "failed"
    return r

def first_errors(e):
    m = re.findall(r"^error.*\n(?:.*\n){0,2}", e, re.M)
    return " | ".join(x.replace("\n", " ") for x in m[:3])[:600]

def enclosing(text, ln):
    for i in range(min(ln, len(text)) - 1, -1, -1):
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:open )?(?:proof |spec |axiom )?fn (\w+)", text[i])
        if m: return m.group(1)
    return "?"

def scan_trusted(path):
    """Mechanical scan for what is assumed in a generated file."""
    c = {}
    t = open(path).read()
    for k, rx in dict(external_body=r"external_body", assume=r"\bassume\(", admit=r"\badmit\(", axiom=r"\baxiom fn\b", uninterp=r"\buninterp spec fn\b", external=r"verifier::external\]").items():
        c[k] = len(re.findall(rx, t))
    return c

BASE = os.path.join(VERIF, "units", "inlined.json")
def baseline():
    """Writes which helpers the extraction inlines in the tree the contracts were written for."""
    exe, d = build_extract(), os.path.join(BUILD, "baseline")
    b = {}
    for u in sorted(set(u for P in PROPS.values() for u in P.get("units", []))):
        os.makedirs(d, exist_ok=True)
        rc, o, e = sh([exe, os.path.join(VERIF, "units", u + ".unit"), REPO, d], env=dict(os.environ, VEXTRACT_FACTS="/dev/null"))
        if rc: raise SystemExit(u + ": " + e)
        for f in json.load(open(os.path.join(d, u + ".json")))["functions"]:
            if f.get("inlined"): b[u + "." + f["name"]] = sorted(set(f["inlined"]))
    json.dump(b, open(BASE, "w"), indent=1, sort_keys=True)
    return 0

def shape_changed(unit_results):
    out = []
    base = json.load(open(BASE))
    for r in unit_results:
        for f in r["functions"]:
            if f["loops"] != f["want_loops"]: out.append("%s has %d loops, the contracts are for %d" % (f["name"], f["loops"], f["want_loops"]))
            for h in f.get("inlined", []):
                if h not in base.get(r["unit"] + "." + f["name"], []): out.append("%s uses a new helper %s" % (f["name"], h))
    return out

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def setup():
    """Build what every check needs (they build it themselves, too, if it is not there)."""
    os.makedirs(BUILD, exist_ok=True)
    build_extract()
    for kind in sorted(set(k for P in PROPS.values() for k, _ in P.get("companions", []))):
        exe, log = build_harness(kind)
        if exe is None: print("companion %s does not build: %s" % (kind, log))
    return 0

def main():
    if sys.argv[1] == "--setup": return setup()
    if sys.argv[1] == "--baseline": return baseline()
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "out-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay = os.path.join(EVID, pid + ".replay.json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay): os.remove(replay)

    results, probes, notes = [], [], []
    pool = concurrent.futures.ThreadPoolExecutor(8)
    hx, hlog = {}, {}
    cenv = dict(os.environ, REPO=REPO, KNOWN_FINDINGS="\n".join(m for m, _ in known_findings(pid)))
    lm_log = ""
    if P.get("libmgen"):
        lm, lm_log = build_libmgen()
        if lm: cenv["LIBMGEN"] = lm
    def companion(kind, cmd):
        args = [hx[kind], cmd, "--tier", tier, "--seed", str(SEED)]
        return args, sh(args, timeout=700 if tier == "quick" else 3000, env=cenv)
    for kind, cmd in P.get("companions", []):
        if kind not in hx: hx[kind], hlog[kind] = build_harness(kind)
    if lm_log: hx, hlog = {k: None for k in hx}, {k: lm_log for k in hx}
    facts, facts_why = None, ""
    if P.get("facts") and hx.get("harness"):
        # measured on the built program, for every entry and configuration
        facts = os.path.join(work, "facts.rs")
        rc, o, e = sh([hx["harness"], "facts", "--out", facts], timeout=300, env=cenv)
        if rc != 0: facts, facts_why = None, (o + e)[-400:]
        try: notes.append("facts: " + "; ".join(json.loads(o.strip().split("\n")[-1])["notes"]))
        except Exception: pass
        if facts_why: notes.append("no facts: " + facts_why)
    started = [(kind, cmd, pool.submit(companion, kind, cmd) if hx[kind] else None) for kind, cmd in P.get("companions", [])]
    if P.get("units"):
        exe = build_extract()
        def unit(u):
            r = run_unit(exe, u, pid, work, facts=facts)
            if r["state"] == "lost" and r["why"].startswith("resource limit"):
                r = run_unit(exe, u, pid, work, extra=["--rlimit", "60"], facts=facts)
            # The solver's search depends on its seed; a proof found with any seed is a proof.
            bad = lambda r: set(f["function"] for f in r.get("fn_obligations", []) if not f["ok"])
            if r["state"] == "failed" and bad(r):
                left, tries = bad(r), 0
                for s in (11, 12, 13):
                    if time.time() - t0 > 360 or any(j and j.result()[1][0] == 1 for _, _, j in started): break
                    rr, tries = run_unit(exe, u, pid, os.path.join(work, "again%d" % s), extra=["--smt-option", "smt.random_seed=%d" % s], facts=facts), tries + 1
                    if rr["state"] not in ("failed", "proved") or rr["state"] == "failed" and not bad(rr): break
                    left &= bad(rr)
                    if not left: break
                notes.append("%s: %s not proved with the first solver seed; %d more: %s" % (u, ", ".join(sorted(bad(r))), tries, "proved" if not left else "not proved: " + ", ".join(sorted(left))))
                if not left: r.update(state="proved", failed=[], verified=r["verified"] + r["errors"], errors=0, retried=sorted(bad(r)))
            return r
        first = [(u, pool.submit(unit, u), pool.submit(run_unit, exe, u, pid, os.path.join(work, "probe"), True, (), facts)) for u in P["units"]]
        for u, fr, fp in first:
            r, pr = fr.result(), fp.result()
            results.append(r)
            if r["state"] == "proved":
                # vacuity: with assert(false) at the start of each function under contract, each must fail
                n = open(os.path.join(work, "probe", u + ".rs")).read().count("// PROBE")
                bad = len(set(f["line"] for f in pr["failed"] if "PROBE" in f["text"]))
                probes.append(dict(unit=u, functions=n, refuted=bad))
                if bad < n:
                    r["state"], r["why"] = "lost", "vacuous contracts: only %d of %d functions are reachable" % (bad, n)
                if tier == "thorough":
                    for s in (7, 23):
                        rr = run_unit(exe, u, pid, os.path.join(work, "seed%d" % s), extra=["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % s], facts=facts)
                        notes.append("solver seed %d: %s %s, %d obligations" % (s, u, rr["state"], rr["verified"]))

    # bounded companion on the real crate
    comp, violation = [], None
    for kind, cmd, job in started:
        if job is None:
            notes.append("companion not built: " + hlog[kind][-400:])
            comp.append(dict(cmd=cmd, built=False))
            continue
        args, (rc, o, e) = job.result()
        try: j = json.loads(o.strip().split("\n")[-1])
        except Exception: j = None
        if j is None or rc not in (0, 1):
            # the code under test ran away or took the process down
            if rc in (124, -9, -11, 134, -6) and P.get("crash_is_violation", True):
                j = dict(cases=0, seconds=0, notes=[], violation=dict(input="companion run %s seed %d" % (cmd, SEED), expected="termination within the time limit, no crash", got="exit %s: %s" % (rc, (o + e)[-800:])))
            else:
                notes.append("companion %s failed: exit %s %s" % (cmd, rc, (o + e)[-400:]))
                comp.append(dict(cmd=cmd, built=True, error=rc))
                continue
        comp.append(dict(cmd=cmd, cases=j["cases"], seconds=j["seconds"], notes=j["notes"]))
        for v in ([j["violation"]] if j.get("violation") else []):
            violation = dict(v, command=" ".join(args))
        if violation: break

    failed = [r for r in results if r["state"] == "failed"]
    lost = [r for r in results if r["state"] == "lost"]
    shape = shape_changed(results)
    outcome, words = 0, ""
    for m, text in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if violation:
        outcome = 1
    elif failed and not shape:
        outcome, words = 1, " no-failing-input-found"
    doc = dict(property=pid, tier=tier, seed=SEED, how="concrete input on the real crate" if violation else "failed obligation; no failing input found",
               failing_input=violation, failed_obligations=[dict(unit=r["unit"], obligations=r["failed"], verus=r["log"][-6000:]) for r in failed],
               undecided=[dict(unit=r["unit"], why=r["why"]) for r in lost], shape=shape)
    if outcome:
        json.dump(doc, open(replay, "w"), indent=1)
        if violation: print("  input:    %s\n  expected: %s\n  got:      %s" % (violation["input"][:600], violation["expected"][:600], violation["got"][:600]))
        for r in failed:
            for f in r["failed"][:6]: print("  failed obligation [%s] in %s: %s: %s" % (r["unit"], f["function"], f["obligation"], f["text"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, words))
    for r in lost: print("UNDECIDED by proof (%s): %s" % (r["unit"], r["why"][:300]))
    if failed and not outcome:
        for r in failed: print("UNDECIDED by proof (%s): obligations fail on a changed shape (%s)" % (r["unit"], "; ".join(shape)[:300]))

    all_proved = bool(results) and all(r["state"] == "proved" for r in results)
    obligations = sum(r["verified"] + r["errors"] for r in results)
    discharged = sum(r["verified"] for r in results)
    trusted = {}
    for r in results:
        p = os.path.join(work, r["unit"] + ".rs")
        if os.path.exists(p): trusted[r["unit"]] = scan_trusted(p)
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd="; ".join(r.get("cmd", "not run") + " (unit %s)" % r["unit"] for r in results) or "none",
               trusted_base=P.get("trusted", []) + ["Verus 0.2026.09.13 with its Z3, rustc 1.98.1", "the extraction rewrites W1-W12 of extract/src/rewrite.rs (DESIGN.md)"] if results else P.get("trusted", []),
               back_end="Verus/Z3", proof_state={r["unit"]: r["state"] + (": " + r["why"][:300] if r["why"] else "") for r in results},
               decided_by="proof" if all_proved else ("violation" if outcome else "bounded companion only"),
               functions_under_contract=[dict(unit=r["unit"], function=f["name"], where="%s:%d" % (f["file"], f["line"]), loops=f["loops"]) for r in results for f in r["functions"]],
               solver_ms={r["unit"]: r["smt_ms"] for r in results},
               slowest=sorted((dict(x, unit=r["unit"]) for r in results for x in r.get("fn_obligations", [])), key=lambda x: -x["ms"])[:5],
               assumed_items_in_generated_files=trusted, vacuity_probe=probes, bounded_companion=comp, notes=notes, bounded_parts=P.get("bounded", []))
    level = P.get("level", "proof")
    if level != "proof":
        cov.update(evaluations=sum(c.get("cases", 0) for c in comp), distinct_nontrivial=sum(c.get("cases", 0) for c in comp), rule=P.get("rule", ""), samples=[n for c in comp for n in c.get("notes", [])][:5] or ["see harness/"], explanation=P.get("rule", ""))
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=1 if outcome else 0)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %s; %d/%d obligations, companion cases %s, %.0f s" % (pid, tier, "violated" if outcome else ("proved" if all_proved else "held on everything explored (bounded)"), discharged, obligations, sum(c.get("cases", 0) for c in comp), time.time() - t0))
    return outcome

if __name__ == "__main__":
    sys.exit(main())
