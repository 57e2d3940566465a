#!/bin/bash
# Builds everything a check needs from /repo's current working tree, offline.
set -euo pipefail
cd "$(dirname "$0")"
V=$PWD; REPO=/repo; OUT=$V/target
mkdir -p "$OUT/bin"
exec 9>"$OUT/.lock"; flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET || true
CC="gcc -O2 -g -shared -fPIC -fvisibility=hidden -ftls-model=initial-exec -fno-builtin-malloc -fno-delete-null-pointer-checks -w"
new() { [ ! -e "$1" ] || [ "$2" -nt "$1" ] || [ simos/simos.h -nt "$1" ]; }
if new "$OUT/bin/libsimos.so" simos/simos.c; then $CC -o "$OUT/bin/libsimos.so.tmp" simos/simos.c -lpthread -ldl; mv "$OUT/bin/libsimos.so.tmp" "$OUT/bin/libsimos.so"; fi
if new "$OUT/bin/libcovstub.so" simos/covstub.c; then $CC -o "$OUT/bin/libcovstub.so.tmp" simos/covstub.c; mv "$OUT/bin/libcovstub.so.tmp" "$OUT/bin/libcovstub.so"; fi
# the orchestrator (plain build) in parallel with the instrumented targets
( cargo build -q --release --offline --manifest-path sim/Cargo.toml --target-dir "$OUT/sim" && cp -f "$OUT/sim/release/avsim" "$OUT/bin/avsim.tmp" && mv "$OUT/bin/avsim.tmp" "$OUT/bin/avsim" ) & SIMPID=$!
(
export RUSTFLAGS="-C force-frame-pointers=yes -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C link-arg=$OUT/bin/libcovstub.so"
export CARGO_PROFILE_RELEASE_DEBUG=0
T=x86_64-unknown-linux-gnu
# cargo trusts mtimes; decide by content instead, so that a copy of /repo with old mtimes is still rebuilt
H=$( (cd "$REPO" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$OUT/repo.hash" 2>/dev/null || true)" != "$H" ]; then rm -f "$OUT/repo.hash"; rm -rf "$OUT/inst/$T/release/.fingerprint/"avdl-*; fi
cargo build -q --release --offline --manifest-path "$REPO/Cargo.toml" --bin avdl --target $T --target-dir "$OUT/inst"
cargo build -q --release --offline --manifest-path driver/Cargo.toml --target $T --target-dir "$OUT/inst"
cp -f "$OUT/inst/$T/release/avdl" "$OUT/bin/avdl.tmp" && mv "$OUT/bin/avdl.tmp" "$OUT/bin/avdl"
cp -f "$OUT/inst/$T/release/avdl-driver" "$OUT/bin/avdl-driver.tmp" && mv "$OUT/bin/avdl-driver.tmp" "$OUT/bin/avdl-driver"
echo "$H" > "$OUT/repo.hash"
) & INSTPID=$!
wait $SIMPID; wait $INSTPID
