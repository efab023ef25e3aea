#!/bin/bash
# Runs the repository's own tests (the ones that only need the missing git dependencies) on the
# stand-ins of /verif/shims. Not a check: it validates the stand-ins and the fix commits.
# usage: repo_tests.sh [cargo test arguments]
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$V/target/repotests}
cd "$V/repotests/w" && cargo test --offline "$@"
