#!/bin/bash
# Usage: check.sh PROPERTY [--replay FILE]
# Builds the monitors for the property from /repo's working tree and runs them.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root" CARGO_TARGET_DIR="$root/target" CARGO_NET_OFFLINE=true
property="$1"
case "$property" in
  C0[1-9]) crate=tree ;;
  C1*|C2*) crate=editor ;;
  C30) crate=web ;;
  C36|C37|C38|C39|C40|C42) crate=editor ;;
  C3*|C41|C43) exec bash "$root/harness/ts/run.sh" "$@" ;;
  *) echo "unknown property $property" >&2; exit 2 ;;
esac
# Where the program that checks the property is, and how it is built
monitor="$CARGO_TARGET_DIR/release/$crate-monitor"
build=(cargo build --offline --release --quiet)
if [ "$property" = C40 ]; then
  # Every basic block counts itself. Not the build scripts and macros, thus the --target
  export CARGO_TARGET_DIR="$root/target/work"
  export RUSTFLAGS="--cfg count_work -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc"
  build+=(--target x86_64-unknown-linux-gnu)
  monitor="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/$crate-monitor"
fi
log="$(mktemp)"
if ! (cd "$root/harness/$crate" && "${build[@]}") >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "$property: the monitors do not build" >&2
  exit 2
fi
rm -f "$log"
# A runaway allocation ends the check, not the sandbox
ulimit -v 24000000
"$monitor" "$@"
status=$?
case $status in
  132|134|136|139)
    # The process died (stack overflow, abort): no monitor could catch that
    mkdir -p "$root/replays"
    replay="$root/replays/$property-died-seed${VERIF_SEED:-1}.json"
    printf '{"property": "%s", "message": "the process died with status %s", "seed": "%s", "tier": "%s"}\n' \
      "$property" "$status" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" >"$replay"
    echo "VIOLATION property=$property replay=$replay"
    echo "  the code under test ended the whole process (status $status)"
    exit 1 ;;
esac
exit $status
