#!/bin/bash
# setup.sh: warms the build cache (everything is rebuilt by each check anyway).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mklr-sim.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
"$here/build.sh" "$tmp" all
