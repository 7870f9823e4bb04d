#!/bin/bash
# Usage: run.sh PROPERTY [--replay FILE]
# Monitors of the TypeScript part: bundles /repo's sources with the monitors, puts the real editor behind them.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
root="${VERIF_ROOT:-$(cd "$here/../.." && pwd)}"
target="${CARGO_TARGET_DIR:-$root/target}"
property="$1"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$target"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
# The editor behind the bindings for JavaScript. If those cannot be built without a browser, directly.
server="$target/release/web-monitor"
if ! (cd "$root/harness/web" && cargo build --offline --release --quiet) >"$scratch/log" 2>&1; then
  server="$target/release/editor-monitor"
  if ! (cd "$root/harness/editor" && cargo build --offline --release --quiet) >>"$scratch/log" 2>&1; then
    cat "$scratch/log" >&2
    echo "$property: the editor does not build" >&2
    exit 2
  fi
  echo "$property: without the bindings, they do not build" >&2
fi
if ! node "$here/build.mjs" "$scratch/bundle.mjs" >"$scratch/log" 2>&1; then
  cat "$scratch/log" >&2
  echo "$property: the monitors do not build" >&2
  exit 2
fi
# worker NUMBER ARGS...: the monitors with an editor process of their own
worker() {
  local n="$1"; shift
  mkfifo "$scratch/in$n" "$scratch/out$n"
  "$server" serve <"$scratch/in$n" >"$scratch/out$n" 2>/dev/null &
  local pid=$!
  timeout -k 5 "${worker_limit:-600}" node --stack-size=4000 "$scratch/bundle.mjs" "$@" 4>"$scratch/in$n" 3<"$scratch/out$n"
  local status=$?
  kill "$pid" 2>/dev/null
  return $status
}

replayed() { node -p "JSON.parse(fs.readFileSync('$1', 'utf8')).$2 ?? ''"; }
if [ "${2:-}" = "--replay" ] && [ -z "$(replayed "$3" case_seed)" ]; then
  # A worker died or was too slow, without saying where: all of the check again
  VERIF_SEED="$(replayed "$3" seed)" VERIF_TIER="$(replayed "$3" tier)"
elif [ "${2:-}" = "--replay" ]; then
  worker 0 "$property" replay "$3"
  exit $?
fi

workers=8
seed="${VERIF_SEED:-1}"
tier="${VERIF_TIER:-quick}"
start="$(date +%s.%N)"
limit=150
[ "$tier" = thorough ] && limit=780
worker_limit=$((limit + 120))
total="$(node "$here/merge.mjs" total "$here" "$property" "$tier")"
for ((i = 0; i < workers; i++)); do
  worker "$i" "$property" run "$i" "$workers" "$seed" "${VERIF_CASES:-$total}" "$limit" "$scratch/result$i.json" 2>"$scratch/err$i" &
done
wait
node "$here/merge.mjs" merge "$scratch" "$property" "$tier" "$seed" "$root" "$start" "$workers"
