#!/usr/bin/env python3
"""Decides one property:  python3 check.py C05   (VERIF_TIER, VERIF_SEED from the environment)

 1. extracts the functions under contract from /repo and has Verus discharge every obligation;
 2. runs the bounded harness of the property on the real code, which also supplies the
    failing input when an obligation fails.
Exit 0: the property held; exit 1: one VIOLATION line. See DESIGN.md, "How a check ends".
"""
import hashlib, json, os, re, subprocess, sys, threading, time
from concurrent import futures

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
T0 = time.time()
LIMIT = 840  # seconds for the whole check
sys.path.insert(0, os.path.join(V, "spec"))
from checks import CHECKS  # noqa: E402

VC = ["postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
      "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "assertion not satisfied",
      "possible bit shift underflow/overflow", "unable to prove assertion", "recommendation not met", "must be satisfied",
      "cannot show invariant", "could not prove termination", "requires not satisfied", "failed this", "index out of bounds",
      "unreachable", "constructed value may fail to meet its declared type invariant", "loop invariant"]
TOOL = ["Resource limit (rlimit)", "rlimit", "timed out", "timeout", "not supported", "unsupported", "not yet supported"]


def env(toolchain=None):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_PROFILE_DEV_OPT_LEVEL",
              "CARGO_PROFILE_DEV_DEBUG", "RUSTDOCFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    return e


def run(cmd, cwd=V, toolchain=None, timeout=None, extra=None):
    e = env(toolchain)
    if extra:
        e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf8", "replace"), "timeout"


def left():
    return LIMIT - (time.time() - T0)


def build_extract():
    rc, o, e = run(["cargo", "build", "--offline", "-q"], os.path.join(V, "extract"), "stable", 600)
    if rc:
        raise RuntimeError("building the extractor failed:\n" + e[-3000:])


def tree_hash():
    h = hashlib.sha256()
    for d, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_harness():
    """Compiles the harness against /repo's current working tree. None if /repo does not build."""
    hd = os.path.join(V, "harness")
    os.makedirs(os.path.join(hd, "target"), exist_ok=True)
    mark = os.path.join(hd, "target", "tree.sha256")
    th = tree_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != th:
        if old:
            # do not trust time stamps: /repo may have been laid afresh
            run(["cargo", "clean", "--offline", "-p", "bellman", "-p", "groth16", "-p", "vharness"], hd, "1.70.0", 120)
        try:
            os.remove(mark)
        except FileNotFoundError:
            pass
    rc, o, e = run(["cargo", "build", "--offline", "-q"], hd, "1.70.0", 700)
    if rc:
        return "harness does not build against the current tree:\n" + "\n".join(x for x in e.splitlines() if x.strip())[-3000:]
    open(mark, "w").write(th)
    return None


def harness(prop, tier, seed, only=None, timeout=600):
    cmd = [os.path.join(V, "harness/target/debug/vharness"), prop]
    if only:
        cmd += ["--only", only]
    rc, o, e = run(cmd, V, None, timeout, {"VERIF_TIER": tier, "VERIF_SEED": str(seed)})
    for line in reversed(o.splitlines()):
        if line.startswith("{"):
            d = json.loads(line)
            d["rc"] = rc
            return d
    return {"rc": rc, "crash": (e or o)[-800:], "case": None}


def wrapped_harness(prop, tier, seed, timeout):
    d = harness(prop, tier, seed, None, timeout)
    if "failures" in d:
        return d
    if "timeout" in d:
        # confirm on the case alone: a slow machine is not a finding
        c = d["timeout"]
        d2 = harness(prop, tier, seed, c, min(300, max(60, left() - 20)))
        if "failures" in d2:
            d2["note"] = "whole run exceeded its time; the case it was in was rerun alone"
            return d2
        return {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "checks": 0, "rule": "", "samples": [],
                "failures": [{"case": c, "message": "does not terminate"}]}
    if d.get("rc") == -999:
        return {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "checks": 0, "rule": "", "samples": [], "failures": [],
                "note": "harness cut off by the time limit"}
    # the process died: a memory blow-up or abort in the code under test
    d2 = harness(prop, tier, seed, None, timeout)
    if "failures" in d2:
        return d2
    return {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "checks": 0, "rule": "", "samples": [],
            "failures": [{"case": "process", "message": "the process running the code under test died (exit status %s), twice: %s" % (d.get("rc"), d.get("crash", ""))}]}


def verus(template, probe=False):
    """Extract and verify one template. Returns a dict."""
    name = template + ("-probe" if probe else "")
    rs, mp = os.path.join(B, name.replace("-", "_") + ".rs"), os.path.join(B, name + ".json")
    r = {"template": template, "fns": [], "stubs": [], "verified": 0, "errors": 0, "failed": [], "undecided": [], "smt_ms": 0, "out": ""}
    cmd = [os.path.join(V, "extract/target/debug/vextract"), "spec/%s.vt" % template, "--repo", REPO, "-o", rs, "--map", mp]
    rc, o, e = run(cmd + (["--probe"] if probe else []), timeout=60)
    if rc:
        r["undecided"].append("extraction: " + (o + e).strip()[-1500:])
        return r
    m = json.load(open(mp))
    r["map"] = m
    r["fns"] = [f for f in m["fns"] if not f["stub"]]
    r["stubs"] = [f for f in m["fns"] if f["stub"]]
    if not r["fns"]:
        r["undecided"].append("no function under contract")
        return r
    args = ["verus", rs, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--num-threads", "8", "--error-format=json",
            "--multiple-errors", "3"]
    rc, o, e = run(args, timeout=max(30, min(420, left() - 60)))
    r["cmd"] = "vextract spec/%s.vt && verus %s" % (template, os.path.relpath(rs, V))
    res = None
    try:
        res = json.loads(o[o.index("{"):])
        vr = res["verification-results"]
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["vir_error"] = vr.get("encountered-vir-error", False)
        r["smt_ms"] = res.get("times-ms", {}).get("smt", {}).get("total", 0)
    except Exception:
        pass
    msgs = []
    for line in e.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                msgs.append(d)
    r["out"] = "\n".join(d.get("rendered") or d["message"] for d in msgs)[:20000]
    if rc == -999:
        r["undecided"].append("verus: time limit")
        return r
    lines = m.get("lines", [])
    for d in msgs:
        text = d["message"]
        spans = d.get("spans", [])
        prim = [s["line_start"] for s in spans if s.get("is_primary")] + [s["line_start"] for s in spans]
        fn = None
        for ln in prim:
            for f in m["fns"]:
                if f["start"] <= ln <= f["end"]:
                    fn = f
                    break
            if fn:
                break
        src = None
        if fn:
            src = "%s:%d" % (fn["file"], fn["line"])
            best = None
            for ol, sf, sl in lines:
                if fn["start"] <= ol <= prim[0]:
                    best = "%s:%d" % (sf, sl)
            src = best or src
        item = {"obligation": text, "function": fn["name"] if fn else "lemma", "source": src, "generated_line": prim[0] if prim else None}
        if fn is None:
            # a lemma of the specification, not a statement about the code
            r["undecided"].append("specification lemma: %s (line %s of the generated file)" % (text.splitlines()[0][:200], item["generated_line"]))
            continue
        is_tool = any(t in text for t in TOOL) or d.get("code")
        if is_tool or not any(v in text for v in VC):
            r["undecided"].append("%s: %s (%s)" % (item["function"], text.splitlines()[0][:300], item["source"]))
        else:
            r["failed"].append(item)
    if r.get("vir_error") or res is None:
        # nothing was sent to the solver
        if not r["undecided"]:
            r["undecided"].append("verus stopped before verification: " + (r["out"] or e)[-800:])
        r["failed"] = []
    elif r["errors"] and not r["failed"] and not r["undecided"]:
        r["undecided"].append("verus reports %d errors without a message" % r["errors"])
    elif r["verified"] == 0 and not r["undecided"]:
        r["undecided"].append("zero obligations")
    return r


def probe(template):
    """Every function under contract must fail when `assert(false)` ends its body."""
    r = verus(template, True)
    if r["undecided"] and not r["failed"]:
        return None, r["undecided"]
    hit = {f["function"] for f in r["failed"]} | {u.split(": ")[0] for u in r["undecided"]}
    vac = [f["name"] for f in r["fns"] if f["name"] not in hit]
    return vac, []


def known(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) case=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    res, hres, errs = {}, {}, []
    vac = {}

    def proof():
        try:
            if cfg["templates"]:
                build_extract()
            # the probes run beside the proofs; a probe counts only where its proof went through
            with futures.ThreadPoolExecutor(4) as ex:
                fs = {t: (ex.submit(verus, t), ex.submit(probe, t)) for t in cfg["templates"]}
                for t, (a, b) in fs.items():
                    res[t] = a.result()
                    if res[t]["failed"] or res[t]["undecided"]:
                        b.cancel()
                    else:
                        vac[t] = b.result()
        except Exception as x:  # machinery
            errs.append(repr(x))

    def bounded():
        try:
            b = build_harness()
            if b:
                hres["build"] = b
                return
            hres.update(wrapped_harness(prop, tier, seed, max(60, min(800 if tier == "thorough" else 500, left() - 60))))
        except Exception as x:
            errs.append(repr(x))

    ts = [threading.Thread(target=proof), threading.Thread(target=bounded)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    failed = [dict(f, template=t) for t, r in res.items() for f in r["failed"]]
    undecided = [u for r in res.values() for u in r["undecided"]]
    for t, (v, u) in vac.items():
        if v:
            undecided.append("vacuous contract: " + ", ".join(v))
            res[t]["verified"] = max(0, res[t]["verified"] - len(v))
        if v is None:
            undecided.append("vacuity probe of %s did not run: %s" % (t, u))
    if errs:
        undecided += errs
    fails = list(hres.get("failures", []))
    kf = known(prop)
    shown = [f for f in fails if not any(f["case"] == c for c, _ in kf)]
    for c, what in kf:
        if any(f["case"] == c for f in fails):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    extra = 0
    # an obligation failed: look harder for a concrete input
    if failed and not shown and "build" not in hres:
        for s in range(seed + 1, seed + 200):
            if left() < 200:
                break
            d = wrapped_harness(prop, "quick" if s % 3 else "thorough", s, max(60, min(300, left() - 100)))
            extra += d.get("evaluations", 0)
            new = [f for f in d.get("failures", []) if not any(f["case"] == c for c, _ in kf)]
            if new:
                shown = [dict(f, seed=s, tier="quick" if s % 3 else "thorough") for f in new]
                break
            if time.time() - T0 > 400:
                break

    obligations = sum(r["verified"] + r["errors"] for r in res.values())
    discharged = sum(r["verified"] for r in res.values())
    fns = ["%s (%s:%d)" % (f["name"], f["file"], f["line"]) for r in res.values() for f in r["fns"]]
    stubs = sorted({"%s (%s) - contract assumed here" % (f["name"], f["file"]) for r in res.values() for f in r["stubs"]})
    trusted = sorted({x for r in res.values() for x in r.get("map", {}).get("trusted", [])})
    cov = {
        "evaluations": int(hres.get("evaluations", 0)) + extra,
        "distinct_nontrivial": int(hres.get("distinct_nontrivial", 0)),
        "rule": "BOUNDED part (never counted as proved): " + hres.get("rule", hres.get("build", "did not run")),
        "samples": hres.get("samples", []),
        "bounded_checks": int(hres.get("checks", 0)),
    }
    if cfg["level"] == "proof":
        cov.update({
            "obligations": obligations,
            "discharged": discharged,
            "backend": "Verus 0.2026.09.13 / Z3",
            "solver_ms": sum(r["smt_ms"] for r in res.values()),
            "checker_cmd": "; ".join(r.get("cmd", "") for r in res.values()),
            "functions_under_contract": fns,
            "trusted_base": cfg["trusted"] + stubs + trusted,
            "undecided": undecided,
            "vacuity_probe": {t: ("every function fails with assert(false)" if v == [] else str(v)) for t, (v, _) in vac.items()},
        })
    if cfg["level"] == "other":
        cov["explanation"] = cfg["note"]
    if undecided:
        print("NOTE: property=%s proof not complete on this tree: %s" % (prop, "; ".join(undecided)[:1500]))

    viol = 0
    if shown or failed:
        viol = 1
        rp = os.path.join(V, "evidence", prop + ".replay.json")
        rep = {"property": prop, "tier": tier, "seed": seed,
               "failed_obligations": failed,
               "failing_inputs": shown,
               "replay": ["VERIF_SEED=%s VERIF_TIER=%s %s/harness/target/debug/vharness %s --only '%s'" % (f.get("seed", seed), f.get("tier", tier), V, prop, f["case"]) for f in shown],
               "verifier_output": "\n".join(r["out"] for r in res.values())}
        json.dump(rep, open(rp, "w"), indent=1)
        for f in failed:
            print("FAILED OBLIGATION: %s in %s at %s" % (f["obligation"], f["function"], f["source"]))
        for f in shown:
            print("FAILING INPUT: %s: %s" % (f["case"], f["message"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if shown else " no-failing-input-found"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg["assumptions"], "wall_s": round(time.time() - T0, 1), "violations": viol}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        return 1
    if "build" in hres and (undecided or not cfg["templates"]):
        print("ERROR: " + hres["build"])
        return 2
    print("OK property=%s obligations=%d discharged=%d bounded_evaluations=%d wall=%.0fs" % (prop, obligations, discharged, cov["evaluations"], time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
