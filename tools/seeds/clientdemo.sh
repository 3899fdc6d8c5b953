#!/bin/bash
# run with cwd = the repository, after its build; prints what broke and exits 1 when the property does not hold
D=$(cd "$(dirname "$0")" && pwd); T=${CARGO_TARGET_DIR:-$PWD/target}/debug/deps
O=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$O"' EXIT
export RUST_BACKTRACE=0
ok=
for s in $(ls -t "$T"/libsokoban-*.rlib); do
  if rustc +1.78.0 --edition 2021 -A warnings -C debuginfo=0 -o "$O/demo" "$D/main.rs" --extern mplx_rewards="$T/libmplx_rewards.rlib" --extern rewards="$T/librewards.rlib" --extern sokoban="$s" -L dependency="$T" >"$O/log" 2>&1; then ok=1; break; fi
done
if [ -z "$ok" ]; then cat "$O/log"; echo "the demonstration did not compile"; exit 3; fi
"$O/demo"
