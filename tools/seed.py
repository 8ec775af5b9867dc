#!/usr/bin/env python3
"""Development aid: makes and validates planted bugs. usage: seed.py make <spec.py> [id..] | test <id..> (in a scratch copy of /repo)"""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = H + "/seeded"

def sh(c, cwd=None, timeout=1200):
    p = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

HEAD = """#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on this example
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
"""
CARGO = HEAD + """mkdir "$d/src"
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty-chromaprint = { path = "$repo/chromaprint" }
rubato = "0.16.0"
rustfft = "6.2.0"
[profile.dev]
opt-level = 1
T
cd "$d" && RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$d/t" cargo build -q --offline || exit 3
"$d/t/debug/demo" "$@"
"""
RUSTC = HEAD + """sed "s#@REPO@#$repo#g" "$here/main.rs" > "$d/main.rs"
rustc --edition 2021 -A warnings -C debug-assertions=on -C overflow-checks=on -o "$d/demo" "$d/main.rs" || exit 3
cd "$d" && "$d/demo" "$@"
"""
MODS = """#[path = "@REPO@/chromaprint/src/%s.rs"] mod %s;
"""

def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids: continue
        d = S + "/" + b["id"]
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(dir="/tmp")
        sh("git -C /repo worktree prune; cp -a /repo/. %s/ --no-target-directory; find %s/target -delete" % (w, w)) if False else sh("git clone -q /repo %s/r" % w)
        r = w + "/r"
        for f, old, new in b["edits"]:
            s = open(r + "/" + f).read()
            assert s.count(old) >= 1, (b["id"], "not found", old)
            n = b.get("nth", 0)
            parts = s.split(old)
            assert len(parts) == 2 or "nth" in b, (b["id"], "ambiguous", len(parts))
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(r + "/" + f, "w").write(s)
        rc, o = sh("git diff", r)
        open(d + "/patch.diff", "w").write(o)
        shutil.rmtree(w)
        mods = "".join(MODS % (m, m) for m in b.get("mods", []))
        open(d + "/main.rs", "w").write(mods + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write({"cargo": CARGO, "rustc": RUSTC}.get(b["kind"], b["kind"]))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])

def test(ids):
    base = "/tmp/seedtest"
    if not os.path.exists(base): sh("cp -a /repo %s" % base)
    else: sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD" % (base, base, base))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = S + "/" + i
        w = tempfile.mkdtemp(dir="/tmp"); sh("cp -a %s/. %s/" % (d, w))
        rc0, o0 = sh("bash %s/demo.sh" % w, "/repo", 400)
        rca, oa = sh("git apply %s/patch.diff" % d, base)
        rct, ot = sh("CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline -- --test-threads 8", base)
        failed = [l for l in ot.splitlines() if l.startswith("test ") and "FAILED" in l]
        ok = ot.count("... ok")
        rc1, o1 = sh("bash %s/demo.sh" % w, base, 400)
        sh("git checkout -q -- .", base)
        shutil.rmtree(w)
        good = rc0 == 0 and rca == 0 and ok >= len(stable) and not failed and rc1 not in (0, 3)
        print(i, "GOOD" if good else "BAD", "clean", rc0, "apply", rca, "ok", ok, failed[:2], "patched", rc1)
        if not good: print(o0[-600:], oa[-300:], ot[-800:] if ok < len(stable) else "", o1[-600:])

if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else: test(sys.argv[2:] or sorted(os.listdir(S)))
