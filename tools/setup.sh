#!/bin/bash
# Builds the simulator and checks that it is deterministic.
set -e
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
bash "$ROOT/tools/build.sh"
"$ROOT/harness/target/release/simcheck" selftest 40
