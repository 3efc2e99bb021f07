#!/bin/bash
# check.sh PROPERTY: builds the simulator and runs the check.
# Exit: 0 held, 1 violation, 2 error of the check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
"$here/build.sh" || { echo "ERROR: build failed" >&2; exit 2; }
export VERIF_ROOT=$(dirname "$here")
"${VERIF_TARGET:-$here/target}/release/sim" check "$1"
rc=$?
[ "$rc" = 0 ] || [ "$rc" = 1 ] || rc=2
exit "$rc"
