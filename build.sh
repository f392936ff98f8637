#!/bin/bash
# Builds the program under test from /repo's working tree, the simulator and the shim.
# Everything goes to /verif/target; /repo is not written to.
V=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh 2>/dev/null
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
T=$V/target
mkdir -p "$T"
gcc -O2 -Wall -shared -fPIC -o "$T/libsim.so.$$" "$V/sim/shim/shim.c" -ldl || exit 3
if cmp -s "$T/libsim.so.$$" "$T/libsim.so"; then rm -f "$T/libsim.so.$$"; else mv -f "$T/libsim.so.$$" "$T/libsim.so"; fi
CARGO_PROFILE_RELEASE_DEBUG=false cargo build --release --offline --locked --manifest-path /repo/Cargo.toml --bin posidonius --target-dir "$T/repo" >"$T/repo.log" 2>&1 &
A=$!
CARGO_PROFILE_RELEASE_DEBUG=false cargo build --release --offline --locked --manifest-path "$V/sim/Cargo.toml" --target-dir "$T/sim" >"$T/sim.log" 2>&1 &
B=$!
wait $A; a=$?
wait $B; b=$?
if [ $a -ne 0 ]; then cat "$T/repo.log" >&2; exit 3; fi
if [ $b -ne 0 ]; then cat "$T/sim.log" >&2; exit 3; fi
