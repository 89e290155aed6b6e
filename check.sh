#!/bin/bash
# usage: check.sh <property> <quick|thorough>   (VERIF_SEED selects the seeds)
HERE="$(cd "$(dirname "$0")" && pwd)"
bash "$HERE/build.sh" || { echo "check.sh: building the simulator against /repo failed" >&2; exit 2; }
export HXSIM_VERIF="$HERE"
exec "$HERE/sim/target/x86_64-unknown-linux-gnu/debug/hxsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
