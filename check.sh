#!/bin/bash
# check.sh <package> <property> <quick|thorough>: rebuild from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 3
. sim/env.sh
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd sim && cargo build --offline -q -p "$1") > "$log" 2>&1; then
    tail -40 "$log"
    echo "cannot build $1 from /repo's working tree" >&2
    exit 2
fi
sim/target/debug/"$1" check "$2" "${3:-quick}"
