#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the simulator from /repo's working
# tree and searches for violations of one property. 0 quiet, 1 VIOLATION, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mklr-sim.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
if ! "$here/build.sh" "$tmp" "$prop"; then
    echo "ERROR: the simulator does not build from /repo's tree" >&2
    exit 2
fi
export SIM_BUILD="$tmp"
"$tmp/sim" check -prop "$prop" -tier "$tier" -out "$here/out" -evidence "$here/evidence" \
    -known "$here/known_findings.txt" -sites "$tmp/sites.json" -build "$(cat "$tmp/variant")"
