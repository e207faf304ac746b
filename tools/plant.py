#!/usr/bin/env python3
"""tools/plant.py FILE.py...: writes seeded/<id>/ from bug(...) entries (edits are made in a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in /repo and runs it: exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp /repo/Cargo.lock "$T/"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ngpf = { path = "/repo" }\\nbumpalo = { version = "3.13.0", features = ["collections", "allocator_api"] }\\n[profile.dev]\\nopt-level = 1\\ndebug = 0\\n' > "$T/Cargo.toml"
cd "$T" && cargo build --offline -q || exit 8
timeout 120 "$T/target/debug/demo"
'''
def bug(id, prop, file, edits, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {t}; git -C {t} init -q; git -C {t} add -A; git -C {t} -c user.name=x -c user.email=x commit -qm x", shell=True)
    if isinstance(edits, dict): m = edits
    else: m = {file: edits}
    for f, es in m.items():
        p = os.path.join(t, f); s = open(p).read()
        for e in es:
            old, new = e[0], e[1]
            n = s.count(old)
            k = e[2] if len(e) > 2 else None
            assert n >= 1 and (k is not None or n == 1), (id, n, old)
            if k is None: s = s.replace(old, new)
            else:
                i = -1
                for _ in range(k + 1): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", t, "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
for f in sys.argv[1:]:
    exec(open(f).read())
