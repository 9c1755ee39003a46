#!/usr/bin/env bash
# check.sh <property> <quick|thorough>: rebuilds against /repo's working tree, then explores.
here="$(cd "$(dirname "$0")" && pwd)"
case "$1" in C04) crate=sched bin=sched;; *) crate=mc bin=mc;; esac
cd "$here/$crate" || exit 2
log=$(mktemp)
if ! cargo build --release --offline -q 2>"$log"; then cat "$log" >&2; rm -f "$log"; echo "build failed" >&2; exit 2; fi
rm -f "$log"
exec "./target/release/$bin" check "$1" --tier "${2:-quick}"
