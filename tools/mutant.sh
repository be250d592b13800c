#!/bin/bash
# mutant.sh PATCH|-R:COMMIT [runs] [ids...]: applies a change to a scratch copy of
# /repo, builds a scratch simulator against it and runs the checks of the ids.
# Development aid; registered checks never use it.
set -u
CH="$1"; RUNS="${2:-0}"; shift; shift || true
IDS="${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}"
D="$(mktemp -d /tmp/mutant.XXXXXX)"
trap 'rm -rf "$D"' EXIT
mkdir "$D/repo" "$D/verif" && cp -a /repo/Cargo.toml /repo/src /repo/.git "$D/repo/" 
for x in /repo/*; do b="$(basename "$x")"; case "$b" in src|Cargo.toml|target) ;; *) cp -a "$x" "$D/repo/";; esac; done
cp /verif/KNOWN_FINDINGS.txt "$D/verif/" ; mkdir "$D/verif/harness"; cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock "$D/verif/harness/"
mkdir -p "$D/verif/harness/target"; cp -a /verif/harness/target/release "$D/verif/harness/target/" 2>/dev/null
cd "$D/repo"; git update-index -q --refresh
case "$CH" in
  -R:*) git show "${CH#-R:}" | git apply -R --3way || exit 9 ;;
  *) git apply "$CH" || exit 9 ;;
esac
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" "$D/verif/harness/Cargo.toml"
cd "$D/verif/harness"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh
cargo build --offline --release >"$D/log" 2>&1 || { grep -A8 '^error' "$D/log" | head -40; exit 8; }
export VERIF_ROOT="$D/verif"
[ "$RUNS" != 0 ] && export SIM_RUNS="$RUNS"
for i in $IDS; do
  timeout 850 ./target/release/simcheck check $i >"$D/out" 2>"$D/err"; rc=$?
  n=$(grep -c '^VIOLATION' "$D/out")
  echo "$i rc=$rc $(grep -o 'violation class.*' "$D/out" | head -3 | cut -c1-${WIDTH:-170} | tr '\n' '|') $(tail -1 "$D/out" | cut -c1-120) $(head -1 "$D/err" | cut -c1-200)"
  [ -n "${KEEP:-}" ] && cp "$D"/verif/replays/* "$KEEP"/ 2>/dev/null
done
exit 0
