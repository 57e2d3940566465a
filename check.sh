#!/bin/bash
# ./check.sh <property> [quick|thorough]: build from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
./build.sh 1>&2 || { echo "check: the build failed" 1>&2; exit 2; }
exec ./target/bin/avsim check "$1" "${2:-quick}"
