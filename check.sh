#!/bin/bash
# usage: ./check.sh <property> [quick|thorough] [--replay FILE]
# Builds the explorer against /repo's working tree and explores the property's spaces.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
cd "$here/mc" || exit 3
if ! cargo build --release --offline --locked --quiet 2>"$here/mc/build.log"; then
  cat "$here/mc/build.log" >&2
  echo "build failed" >&2
  exit 3
fi
bin="$here/mc/target/release/mc"
if [ "${3:-}" = "--replay" ]; then
  space=$(sed -n 's/^space \([0-9]*\) .*/\1/p' "$4"); index=$(sed -n 's/^index //p' "$4"); t=$(sed -n 's/^tier //p' "$4")
  exec "$bin" one "$id" "$t" "$space" "$index"
fi
exec "$bin" run "$id" "$tier"
