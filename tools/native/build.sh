#!/bin/bash
# usage: build.sh DIR OUT  (DIR has main.rs)
T=${CARGO_TARGET_DIR:-/repo/target}
rustc +1.78.0 --edition 2021 -A warnings -C debuginfo=0 -o "$2" "$1/main.rs" --extern mplx_rewards=$T/debug/deps/libmplx_rewards.rlib --extern sokoban=$(ls $T/debug/deps/libsokoban-*.rlib | head -1) -L dependency=$T/debug/deps
