#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes seeded/<id>/ from a spec with ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs text)."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/be/repo"
DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T=/tmp/hexodsp_demo_@ID@
rm -rf /tmp/hexodsp_demo_@ID@
trap 'rm -rf /tmp/hexodsp_demo_@ID@' EXIT
mkdir -p "$T/src" "$T/scratch"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<X
[package]
name = "hexodsp-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hexodsp = { path = "$R" }
serde_json = "1.0"
synfx-dsp = "*"
X
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-A dangerous_implicit_autorefs"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
cd "$T/scratch" || exit 3
cargo build --offline --quiet --manifest-path "$T/Cargo.toml" --target-dir "$R/target" 2>"$T/err" || { cat "$T/err"; echo "demo: build failed"; exit 3; }
timeout 120 "$R/target/debug/hexodsp-demo"
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
sh = lambda c: subprocess.run(c, shell=True, check=True, capture_output=True, text=True).stdout
sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- ." % R)
for f, old, new in spec["EDITS"]:
    p = os.path.join(R, f)
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
open(os.path.join(d, "patch.diff"), "w").write(sh("cd %s && git diff" % R))
sh("cd %s && git checkout -q -- ." % R)
open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@ID@", spec["ID"]))
open(os.path.join(d, "demo.rs"), "w").write(spec["DEMO"].lstrip())
json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
print("wrote", d)
