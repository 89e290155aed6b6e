#!/bin/bash
# Builds the simulator (and HexoDSP from /repo's working tree) into /verif/sim/target.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=false
export RUSTFLAGS="-A warnings -A dangerous_implicit_autorefs -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
cd "$HERE/sim"
cargo build --offline --quiet --target x86_64-unknown-linux-gnu --target-dir "$HERE/sim/target"
