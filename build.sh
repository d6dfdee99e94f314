#!/bin/bash
# Builds the checker against /repo's current working tree. Usage: build.sh [mc|sched|uses]
# Exits 3 if the crate compiles, but not what uses its macros.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
what=${1:-mc}
tgt=$PWD/target
mkdir -p "$tgt"
# Cargo judges freshness by time stamps; judge it by content.
sum=$( (cd /repo && cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
stamp=$tgt/stamp.$what
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    if [ "$what" = mc ]; then
        (cd mc && cargo clean --release -p over -p mc) >/dev/null 2>&1
    fi
    if [ "$what" = uses ]; then
        (cd uses && cargo clean -p over -p uses --target-dir "$tgt/uses") >/dev/null 2>&1
    fi
fi
log=$tgt/build.$what.log
case $what in
    mc) (cd mc && cargo build --release --locked) >"$log" 2>&1 ;;
    uses) (cd uses && cargo build --locked --target-dir "$tgt/uses") >"$log" 2>&1 ;;
    sched) bash sched/build.sh "$sum" >"$log" 2>&1 ;;
esac
rc=$?
if [ $rc -ne 0 ] && [ "$what" = uses ] && grep -q "^error: could not compile .uses." "$log"; then
    exit 3
fi
if [ $rc -ne 0 ]; then
    echo "ERROR: cannot build $what against /repo:"
    grep -E "^error" -A8 "$log" | head -60
    tail -5 "$log"
    exit 2
fi
echo "$sum" >"$stamp"
exit 0
