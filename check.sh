#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra symgo flags]: builds the engine if
# needed and decides one property against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}; shift; shift
bin=$("$here/build.sh") || { echo "engine build failed" >&2; exit 2; }
exec "$bin" check -property "$prop" -tier "$tier" -verif "$here" -repo "${REPO:-/repo}" "$@"
