#!/bin/bash
# Builds the scheduler's runtime and the instrumented scenarios (crate and standard library included).
# Usage: build.sh HASH-OF-THE-CRATE
set -e
cd "$(dirname "$0")"
tgt=$PWD/../target/sched
mkdir -p "$tgt"
# Cargo judges freshness by time stamps; our caller by content.
if [ ! -e "$tgt/fresh" ] || [ "$(cat "$tgt/fresh")" != "$1" ]; then
    rm -f "$tgt/fresh"
    cargo +nightly clean --release --offline --target-dir "$tgt" --target x86_64-unknown-linux-gnu -p over -p sched >/dev/null 2>&1 || true
fi
RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" \
    cargo +nightly build --release --offline --locked -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --target-dir "$tgt"
echo "$1" >"$tgt/fresh"
