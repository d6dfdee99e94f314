#!/bin/bash
# Usage: check.sh PROPERTY quick|thorough
# Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
export MC_VERIF=$PWD
id=$1
tier=${2:-quick}
if [ "$id" = C33 ]; then
    bash build.sh uses
    export MC_USES=$?
    if [ $MC_USES != 0 ] && [ $MC_USES != 3 ]; then exit 2; fi
    if [ $MC_USES = 3 ] && ! bash build.sh mc >/dev/null; then
        mkdir -p evidence/replays
        cp target/build.uses.log evidence/replays/C33-uses.txt
        grep -E "^error" -A5 target/build.uses.log | head -40
        echo "VIOLATION property=C33 replay=$PWD/evidence/replays/C33-uses.txt"
        exit 1
    fi
fi
bash build.sh mc || exit 2
case $id in C18 | C25) bash build.sh sched || exit 2 ;; esac
exec target/release/mc check "$id" "$tier"
