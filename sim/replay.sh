#!/bin/bash
# replay.sh FILE: repeats a reported violation in a new process.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
"$here/build.sh" || { echo "ERROR: build failed" >&2; exit 2; }
export VERIF_ROOT=$(dirname "$here")
"${VERIF_TARGET:-$here/target}/release/sim" replay "$1"
