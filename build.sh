#!/bin/bash
# setup_cmd: warms the build cache and shows that the harness compiles.
. "$(dirname "$0")/env.sh"
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX")
trap 'rm -rf "$out"' EXIT
build_harness "$out/harness" && build_harness "$out/harness-race" race
