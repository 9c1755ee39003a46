#!/usr/bin/env bash
# Builds the checkers offline from the committed files and /repo's current tree.
set -e
cd "$(dirname "$0")"
(cd mc && cargo build --release --offline -q)
(cd sched && cargo build --release --offline -q)
