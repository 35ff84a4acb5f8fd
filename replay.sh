#!/bin/bash
# replay.sh FILE: re-executes one recorded violation against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mklr-sim.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
prop=$(sed -n 's/^ *"property": "\([A-Z0-9]*\)".*/\1/p' "$1" | head -1)
"$here/build.sh" "$tmp" "$prop" || exit 2
export SIM_BUILD="$tmp" GODEBUG=randautoseed=0
"$tmp/sim" replay "$1"
