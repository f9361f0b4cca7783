#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a seed description and validates it in a scratch copy.
usage: seed.py build|check ID...   (ID = directory name under tools/seedsrc)
A seed description is tools/seedsrc/<ID>.py defining PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds on the code in the current directory, nonzero when it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
work="$(mktemp -d)" || exit 1
trap 'rm -rf "${work:?}"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bellman = { path = "$repo" }
groth16 = { path = "$repo/groth16" }
ff = "0.13"
group = "0.13"
pairing = "0.23"
bls12_381 = "0.8"
bitvec = "1"
rand_core = "0.6"
rand_xorshift = "0.3"
subtle = "2.2.1"
sha2 = { version = "0.10", features = ["compress"] }
blake2s_simd = "1"
byteorder = "1"
rayon = "1.5.1"
[profile.dev]
opt-level = 1
debug = 0
[workspace]
T
cd "$work" || exit 1
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout 200 "$work/target/debug/demo"
'''
def sh(cmd, cwd, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def build(i, keep=False):
    d = runpy.run_path(f"{V}/tools/seedsrc/{i}.py")
    out = f"{V}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        sc = f"{tmp}/repo"
        sh(f"git -C /repo worktree prune; cp -a /repo {sc}", "/")
        rc, o = sh("git status --short", sc)
        assert not o.strip(), o
        for f, old, new in d["EDITS"]:
            t = open(f"{sc}/{f}").read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(f"{sc}/{f}", "w").write(t.replace(old, new))
        rc, diff = sh("git diff", sc)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/main.rs", "w").write(d["DEMO"])
        lock = open(f"{V}/harness/Cargo.lock").read().replace('name = "vharness"', 'name = "demo"')
        open(f"{out}/Cargo.lock", "w").write(lock)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        res = {}
        rc, o = sh(f"bash {out}/demo.sh", sc); res["demo_patched"] = rc; po = o
        rc, o = sh(f"bash {out}/demo.sh", "/repo"); res["demo_clean"] = rc; co = o
        rc, o = sh(". /opt/vp/env.sh; cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8", sc)
        res["tests"] = rc
        res["failed"] = re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)
        if rc and not res["failed"]: res["log"] = o[-1500:]
        ok = res["demo_patched"] not in (0, 3) and res["demo_clean"] == 0 and res["tests"] == 0
        print(i, d["PROPERTY"], "OK" if ok else "BAD", res, flush=True)
        if not ok: print("patched:", po[-800:], "\nclean:", co[-800:])
    finally:
        shutil.rmtree(tmp)
for i in sys.argv[2:]:
    build(i)
