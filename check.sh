#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the harness from /repo's working
# tree and decides one property.  check.sh PROPERTY replay FILE re-runs the cases
# recorded by a violation.
. "$(dirname "$0")/env.sh"
prop=${1:?usage: check.sh PROPERTY [quick|thorough|replay FILE]}
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX")
trap 'rm -rf "$out"' EXIT
race=
case $prop in P30) race=race ;; esac
if ! build_harness "$out/harness" $race; then
	echo "the harness does not build against /repo" >&2
	exit 3
fi
export TMPDIR=$out
if [ "$tier" = replay ]; then
	"$out/harness" replay "$prop" "$3"
	exit
fi
VERIF_TIER=$tier "$out/harness" run "$prop"
