#!/bin/bash
# check.sh <property id>: rebuilds from /repo and decides one property.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
bash "$ROOT/tools/build.sh" || { echo "the simulator does not build against /repo" >&2; exit 3; }
export VERIF_ROOT="$ROOT"
exec "$ROOT/harness/target/release/simcheck" check "$1"
